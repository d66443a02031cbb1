//! The interval search tree against a plain list of intervals.

use crate::sym::*;
use plotline_plugin_interval::{Interval, IntervalSearchTree};

#[derive(Clone, Copy, PartialEq, Debug)]
struct Iv {
    lo: u8,
    hi: u8,
    /// Tells intervals with the same bounds apart.
    tag: u8,
}

impl Interval for Iv {
    type Bound = u8;

    fn lo(&self) -> u8 {
        self.lo
    }

    fn hi(&self) -> u8 {
        self.hi
    }
}

fn iv(tag: u8) -> Iv {
    let (lo, hi) = (u8_(), u8_());
    assume(lo <= hi);
    Iv { lo, hi, tag }
}

fn meet(a: &Iv, b: &Iv) -> bool {
    (a.lo <= b.hi) & (b.lo <= a.hi)
}

fn eq(a: &Iv, b: &Iv) -> bool {
    (a.lo == b.lo) & (a.hi == b.hi) & (a.tag == b.tag)
}

/// The tree answers an arbitrary query as the list does.
fn agrees(tree: &IntervalSearchTree<Iv>, list: &[Iv], q: &Iv) {
    let any = list.iter().fold(false, |x, i| x | meet(i, q));
    check(tree.intersects(q) == any, "intersects if, and only if, an interval in the tree does");
    let mut got = vec![];
    tree.for_each_intersection(q, |i| got.push(*i));
    check(got.iter().fold(true, |x, i| x & meet(i, q)), "visits no interval that does not intersect");
    // Each visited interval is in the tree, and as often as it is there.
    let mut good = true;
    for i in list {
        let here = list.iter().fold(0u8, |n, j| n + eq(i, j) as u8);
        let seen = got.iter().fold(0u8, |n, j| n + eq(i, j) as u8);
        good &= seen == if meet(i, q) { here } else { 0 };
    }
    check(good, "visits each intersecting interval once");
    let total = list.iter().fold(0u8, |n, i| n + meet(i, q) as u8);
    check(got.len() == total as usize, "visits nothing else");
    if any {
        cover("hit");
    } else {
        cover("miss");
    }
}

/// Any intervals, inserted in any order, then any query.
pub fn query() {
    let n = param("n", 3) as u8;
    let mut list = vec![];
    let mut tree = IntervalSearchTree::default();
    let q = iv(255);
    if n == 0 {
        cover("hit");
    }
    for t in 0..n {
        let i = iv(if param("tags", 1) > 0 { t } else { 0 });
        list.push(i);
        if t % 2 == 0 {
            tree.insert(i);
        } else {
            tree = tree.with_interval(i);
        }
    }
    agrees(&tree, &list, &q);
}

/// Some concrete intervals: short and long ones, inserted in a scattered order.
fn scattered(n: u8, k: u8) -> Vec<Iv> {
    (0..n)
        .map(|t| {
            let lo = match k {
                0 => t * 6,                         // ascending
                1 => (n - 1 - t) * 6,               // descending
                _ => (t.wrapping_mul(37)) % (n * 6), // scattered
            };
            let len = if t % 7 == 3 { 40 } else { t % 5 };
            Iv { lo, hi: lo + len, tag: t }
        })
        .collect()
}

/// A large tree with one arbitrary interval in it, put in at the start, middle or end.
pub fn query_long() {
    let n = param("n", 16) as u8;
    let k = pick(3);
    let mut list = scattered(n, k);
    let at = [0, n / 2, n][each(pick(3)) as usize] as usize;
    let x = iv(100);
    list.insert(at, x);
    let mut tree = IntervalSearchTree::default();
    for i in &list {
        tree.insert(*i);
    }
    let q = iv(255);
    agrees(&tree, &list, &q);
}

/// Any history of insertions and deletions, then any query.
pub fn history() {
    let n = param("ops", 4);
    let tags = param("tags", 1) > 0;
    let mut tree = IntervalSearchTree::default();
    let mut list: Vec<Iv> = vec![];
    let mut t = 0;
    for k in 0..n {
        if k == 0 || flag() {
            let i = iv(if tags { t } else { 0 });
            t += 1;
            tree.insert(i);
            list.push(i);
        } else {
            // An interval of the tree, or any other.
            let i = if flag() {
                assume(!list.is_empty());
                list[pick(list.len() as u8) as usize]
            } else {
                iv(0)
            };
            tree.delete(&i);
            match list.iter().position(|j| *j == i) {
                Some(at) => {
                    list.remove(at);
                    cover("deleted");
                }
                None => cover("nothing to delete"),
            }
        }
    }
    let q = iv(255);
    agrees(&tree, &list, &q);
}

/// Any intervals, then any of them deleted, in any order.
pub fn drain() {
    let n = param("n", 3) as u8;
    let dels = param("dels", 2);
    let tags = param("tags", 1) > 0;
    let mut tree = IntervalSearchTree::default();
    let mut list: Vec<Iv> = vec![];
    for t in 0..n {
        let i = iv(if tags { t } else { 0 });
        tree.insert(i);
        list.push(i);
    }
    for _ in 0..dels {
        if list.is_empty() {
            break;
        }
        let i = list.remove(pick(list.len() as u8) as usize);
        tree.delete(&i);
    }
    let q = iv(255);
    if param("point", 0) > 0 {
        assume(q.lo == q.hi);
    }
    agrees(&tree, &list, &q);
}

/// A large tree, two arbitrary deletions, then an arbitrary insertion and query.
pub fn delete_long() {
    let n = param("n", 12) as u8;
    let mut list = scattered(n, pick(3));
    let mut tree = IntervalSearchTree::default();
    for i in &list {
        tree.insert(*i);
    }
    for _ in 0..param("dels", 2) {
        let i = list.remove(pick(list.len() as u8) as usize);
        tree.delete(&i);
    }
    let x = iv(100);
    if flag() {
        tree.insert(x);
        list.push(x);
    } else {
        // Deleting what is not there changes nothing.
        tree.delete(&x);
    }
    let q = iv(255);
    agrees(&tree, &list, &q);
}

// -- large trees, and bounds of other kinds --------------------------------------------------------

/// An interval that owns memory, with bounds of any kind.
#[derive(Clone, PartialEq)]
struct Of<B> {
    lo: B,
    hi: B,
    tag: Box<u8>,
}

impl<B: Copy + Ord> Interval for Of<B> {
    type Bound = B;

    fn lo(&self) -> B {
        self.lo
    }

    fn hi(&self) -> B {
        self.hi
    }
}

fn of<B: Copy + Ord>(tag: u8, b: &mut impl FnMut() -> B) -> Of<B> {
    let (lo, hi) = (b(), b());
    assume(lo <= hi);
    Of { lo, hi, tag: Box::new(tag) }
}

/// As `agrees`, for intervals whose tags are all different: by tag, and with few branches.
fn tagged<B: Copy + Ord>(tree: &IntervalSearchTree<Of<B>>, list: &[Of<B>], q: &Of<B>) {
    let meet = |i: &Of<B>| (i.lo <= q.hi) & (q.lo <= i.hi);
    let any = list.iter().fold(false, |x, i| x | meet(i));
    check(tree.intersects(q) == any, "intersects if, and only if, an interval in the tree does");
    let mut got: Vec<Of<B>> = vec![];
    tree.for_each_intersection(q, |i| got.push(i.clone()));
    let mut good = true;
    for i in list {
        let seen = got.iter().filter(|j| j.tag == i.tag);
        let n = seen.clone().count();
        good &= n <= 1 && seen.fold(true, |x, j| x & (j.lo == i.lo) & (j.hi == i.hi));
        good &= (n == 1) == meet(i);
    }
    check(good, "visits each intersecting interval once, as it was inserted");
    check(got.iter().all(|j| list.iter().any(|i| i.tag == j.tag)), "visits no interval that is not in the tree");
    if any {
        cover("hit");
    } else {
        cover("miss");
    }
}

fn bounds_of<B: Copy + Ord>(n: u8, mut b: impl FnMut() -> B) {
    let mut tree = IntervalSearchTree::default();
    let mut list = vec![];
    for t in 0..n {
        let i = of(t, &mut b);
        tree.insert(i.clone());
        list.push(i);
    }
    for _ in 0..param("dels", 1) {
        let i = list.remove(pick(list.len() as u8) as usize);
        tree.delete(&i);
    }
    let q = of(255, &mut b);
    tagged(&tree, &list, &q);
}

/// Bounds that are signed, wide, pairs, ordered the other way round, or all the same.
pub fn bounds() {
    let n = param("n", 2) as u8;
    match pick(6) {
        0 => bounds_of(n, || u8_() as i8),
        1 => bounds_of(n, u16_),
        2 => bounds_of(n, || (u8_(), u8_())),
        3 => bounds_of(n, || std::cmp::Reverse(u8_())),
        4 => bounds_of(n, || u64_() as i64),
        _ => bounds_of(n, || ()),
    }
}

/// A place among `n`: any, or the ends and some in between.
fn spot(n: u32) -> u32 {
    let k = param("slots", 0);
    if k == 0 || k >= n {
        return each(pick(n as u8)) as u32;
    }
    let p = each(pick(k as u8 + 1)) as u32;
    if p == k { n - 1 } else { p * n / k }
}

/// A large tree of one of several shapes, with some deletions, perhaps an arbitrary interval, and an
/// arbitrary query.
pub fn big() {
    let n = param("n", 40);
    let shape = pick(5);
    let mut list: Vec<Of<u16>> = (0..n)
        .map(|t| {
            let lo = 1000 + match shape {
                0 => t * 6,                   // ascending
                1 => (n - 1 - t) * 6,         // descending
                2 => (t * 37) % (n * 6),      // scattered
                3 => if t % 2 == 0 { t * 3 } else { n * 6 - t * 3 }, // from the ends to the middle
                _ => (t % 5) * 10,            // few lower bounds, many intervals on each
            };
            let len = match t % 11 {
                3 => 60,
                7 => n * 3,
                x => x % 5,
            };
            Of { lo: lo as u16, hi: (lo + len) as u16, tag: Box::new(t as u8) }
        })
        .collect();
    let mut tree = IntervalSearchTree::default();
    if param("extra", 1) > 0 {
        let x = of(255, &mut u16_);
        list.insert([0, n / 2, n][each(pick(3)) as usize] as usize, x);
    }
    for i in &list {
        tree.insert(i.clone());
    }
    for _ in 0..param("dels", 0) {
        let i = list.remove(spot(list.len() as u32) as usize);
        tree.delete(&i);
    }
    let q = of(254, &mut u16_);
    if param("point", 0) > 0 {
        assume(q.lo == q.hi);
    }
    tagged(&tree, &list, &q);
}

/// A large tree emptied one by one, in some order; it agrees with the list all the way.
pub fn empty() {
    let n = param("n", 24);
    let (order, shape) = (pick(3), pick(3) as u8);
    let mut list = scattered(n as u8, shape);
    let mut tree = IntervalSearchTree::default();
    for i in &list {
        tree.insert(*i);
    }
    let stop = spot(n + 1);
    for k in 0..stop as usize {
        let at = match order {
            0 => 0,
            1 => list.len() - 1,
            _ => (k * 7) % list.len(),
        };
        let i = list.remove(at);
        tree.delete(&i);
    }
    let q = iv(255);
    if param("point", 0) > 0 {
        assume(q.lo == q.hi);
    }
    agrees(&tree, &list, &q);
}

/// A tree of a great many intervals, a run of which is deleted and some of which put back, asked
/// about a short interval anywhere.
pub fn wide() {
    let n = param("n", 300);
    let shape = pick(4);
    let mut seed = 12345u32;
    let mut all: Vec<Of<u32>> = vec![];
    for t in 0..n {
        seed = seed.wrapping_mul(1664525).wrapping_add(1013904223);
        let lo = match shape {
            0 => (seed >> 8) % (n * 8),           // anywhere
            1 => (seed >> 8) % 16 * (n / 2),      // few lower bounds
            2 => t * 5 % (n * 8),                 // several ascending runs
            _ => ((seed >> 8) % n) * 8 & !(seed >> 26), // clustered
        };
        let len = match t % 9 {
            4 => n,
            8 => 0,
            x => x,
        };
        all.push(Of { lo, hi: lo + len, tag: Box::new((t % 251) as u8) });
    }
    let mut there = vec![true; n as usize];
    let mut tree = IntervalSearchTree::default();
    for i in &all {
        tree.insert(i.clone());
    }
    // Equal ones, tags included, are as good as each other.
    let same = |i: usize, j: usize| all[i].lo == all[j].lo && all[i].hi == all[j].hi && all[i].tag == all[j].tag;
    let (from, step) = (spot(n), 1 + each(pick(3)) as u32 * 6);
    let mut k = from;
    for d in 0..param("dels", 20) {
        let at = k as usize;
        tree.delete(&all[at]);
        if let Some(j) = (0..n as usize).find(|j| there[*j] && same(*j, at)) {
            there[j] = false;
        }
        if d % 5 == 4 {
            tree.insert(all[at].clone());
            let j = (0..n as usize).find(|j| !there[*j] && same(*j, at)).unwrap();
            there[j] = true;
        }
        k = (k + step) % n;
    }
    let near = &all[spot(n) as usize];
    let (off, len) = (each(pick(4)) as u32, each(pick(3)) as u32);
    let lo = [near.lo, near.hi, near.hi + 1, near.lo.saturating_sub(1)][off as usize];
    let q = Of { lo, hi: lo + len * len, tag: Box::new(254) };
    let want = |j: usize| there[j] && all[j].lo <= q.hi && q.lo <= all[j].hi;
    check(tree.intersects(&q) == (0..n as usize).any(want), "intersects if, and only if, an interval in the tree does");
    let mut got = vec![];
    tree.for_each_intersection(&q, |i| got.push((i.lo, i.hi, *i.tag)));
    let mut expected: Vec<_> = (0..n as usize).filter(|j| want(*j)).map(|j| (all[j].lo, all[j].hi, *all[j].tag)).collect();
    cover(if expected.is_empty() { "miss" } else { "hit" });
    got.sort();
    expected.sort();
    check(got == expected, "visits each intersecting interval once, and nothing else");
}
