//! Dates are ordered by their components, the most significant first.

use std::cmp::Ordering;

use crate::sym::*;
use plotline_plugin_interval::{
    date::{BigEndianDate, Date, LittleEndianDate},
    Interval,
};

/// Dates have no constructor yet. A date is its components and a marker of no size.
fn date<const N: usize, T: Copy, E>(c: [T; N]) -> Date<N, T, E> {
    assert!(std::mem::size_of::<Date<N, T, E>>() == std::mem::size_of::<[T; N]>());
    // SAFETY: the sizes are equal and the components are the only thing there is.
    unsafe { std::mem::transmute_copy(&c) }
}

fn any<const N: usize>() -> [u8; N] {
    let mut c = [0; N];
    for x in &mut c {
        *x = u8_();
    }
    c
}

/// The reference: compare as numbers in base 256, signed components shifted to be unsigned.
fn number<const N: usize>(c: &[u8; N], big: bool, signed: bool) -> u64 {
    let mut n = 0;
    for k in 0..N {
        let x = if big { c[k] } else { c[N - 1 - k] };
        n = (n << 8) | if signed { x ^ 0x80 } else { x } as u64;
    }
    n
}

fn compare<const N: usize>() {
    let (a, b) = (any::<N>(), any::<N>());
    fn all<D: Ord>(x: &D, y: &D, nx: u64, ny: u64) -> bool {
        (x.cmp(y) == nx.cmp(&ny))
            & (x.partial_cmp(y) == Some(nx.cmp(&ny)))
            & ((x == y) == (nx == ny))
            & ((x != y) == (nx != ny))
            & ((x < y) == (nx < ny))
            & ((x <= y) == (nx <= ny))
            & ((x > y) == (nx > ny))
            & ((x >= y) == (nx >= ny))
    }
    let (x, y): (BigEndianDate<N, u8>, BigEndianDate<N, u8>) = (date(a), date(b));
    check(all(&x, &y, number(&a, true, false), number(&b, true, false)), "big-endian dates compare from the first component");
    let (x, y): (LittleEndianDate<N, u8>, LittleEndianDate<N, u8>) = (date(a), date(b));
    check(all(&x, &y, number(&a, false, false), number(&b, false, false)), "little-endian dates compare from the last component");
    // Signed components, years before the epoch for one.
    let (sa, sb) = (a.map(|x| x as i8), b.map(|x| x as i8));
    let (x, y): (BigEndianDate<N, i8>, BigEndianDate<N, i8>) = (date(sa), date(sb));
    check(all(&x, &y, number(&a, true, true), number(&b, true, true)), "big-endian dates compare from the first component");
    let (x, y): (LittleEndianDate<N, i8>, LittleEndianDate<N, i8>) = (date(sa), date(sb));
    check(all(&x, &y, number(&a, false, true), number(&b, false, true)), "little-endian dates compare from the last component");
}

pub fn order() {
    match pick(4) {
        0 => compare::<1>(),
        1 => compare::<2>(),
        2 => compare::<3>(),
        _ => compare::<4>(),
    }
    cover("end");
}

/// The same, for components of any type, against a plain comparison of lists.
fn wide<const N: usize, T: Copy + Ord>(mut any: impl FnMut() -> T) {
    let z = any();
    let (mut a, mut b) = ([z; N], [z; N]);
    for k in 0..N {
        a[k] = any();
        b[k] = any();
    }
    let mut big = Ordering::Equal;
    let mut little = Ordering::Equal;
    for k in (0..N).rev() {
        if a[k] != b[k] {
            big = a[k].cmp(&b[k]);
        }
    }
    for k in 0..N {
        if a[k] != b[k] {
            little = a[k].cmp(&b[k]);
        }
    }
    let (x, y): (BigEndianDate<N, T>, BigEndianDate<N, T>) = (date(a), date(b));
    check((x.cmp(&y) == big) & (x.partial_cmp(&y) == Some(big)), "big-endian dates compare from the first component");
    check(((x < y) == big.is_lt()) & ((x <= y) == big.is_le()) & ((x == y) == big.is_eq()), "operators agree with the order");
    check((x.max(y) == if big.is_gt() { x } else { y }) & (x.min(y) == if big.is_gt() { y } else { x }), "the greater is the later");
    let (x, y): (LittleEndianDate<N, T>, LittleEndianDate<N, T>) = (date(a), date(b));
    check((x.cmp(&y) == little) & (x.partial_cmp(&y) == Some(little)), "little-endian dates compare from the last component");
    check(((x < y) == little.is_lt()) & ((x <= y) == little.is_le()) & ((x == y) == little.is_eq()), "operators agree with the order");
    check((x.max(y) == if little.is_gt() { x } else { y }) & (x.min(y) == if little.is_gt() { y } else { x }), "the greater is the later");
}

/// Components of other types, and dates of other lengths.
pub fn components() {
    match pick(8) {
        0 => wide::<0, u8>(u8_),
        1 => wide::<3, u16>(u16_),
        2 => wide::<3, i16>(|| u16_() as i16),
        3 => wide::<2, u64>(u64_),
        4 => wide::<2, i64>(|| u64_() as i64),
        5 => wide::<5, u8>(u8_),
        6 => wide::<3, i32>(|| u32_() as i32),
        _ => wide::<2, (u8, i8)>(|| (u8_(), u8_() as i8)),
    }
    cover("end");
}

/// Totality, antisymmetry and transitivity.
pub fn laws() {
    fn all<D: Ord>(a: &D, b: &D, c: &D) {
        check(a.cmp(b) == b.cmp(a).reverse(), "the order is antisymmetric");
        check((a.cmp(b) == Ordering::Equal) == (a == b), "the order agrees with equality");
        check(!(a <= b && b <= c) || a <= c, "the order is transitive");
        check(a.cmp(a) == Ordering::Equal, "the order is reflexive");
    }
    let (a, b, c) = (any::<3>(), any::<3>(), any::<3>());
    if flag() {
        let (a, b, c): (BigEndianDate<3, u8>, BigEndianDate<3, u8>, BigEndianDate<3, u8>) = (date(a), date(b), date(c));
        all(&a, &b, &c);
    } else {
        let (a, b, c): (LittleEndianDate<3, u8>, LittleEndianDate<3, u8>, LittleEndianDate<3, u8>) = (date(a), date(b), date(c));
        all(&a, &b, &c);
    }
    cover("end");
}

/// A date is the interval that holds that date only.
pub fn interval() {
    let c = any::<3>();
    let d: BigEndianDate<3, u8> = date(c);
    check((d.lo() == d) & (d.hi() == d), "a date spans itself");
    let d: LittleEndianDate<3, u8> = date(c);
    check((d.lo() == d) & (d.hi() == d), "a date spans itself");
    // In a tree of them, looking one up finds it, and only it.
    let mut tree = plotline_plugin_interval::IntervalSearchTree::default();
    let (x, y, q): (LittleEndianDate<2, u8>, LittleEndianDate<2, u8>, LittleEndianDate<2, u8>) = (date(any()), date(any()), date(any()));
    tree.insert(x);
    tree.insert(y);
    check(tree.intersects(&q) == ((q == x) | (q == y)), "a date meets itself only");
    tree.delete(&x);
    check(tree.intersects(&q) == (q == y), "a date meets itself only");
    cover("end");
}
