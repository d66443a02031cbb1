//! Hash-consed bit-vector expressions, shared by all workers, with a simplifier.
use crate::ir::{BinOp, Pred, Val};
use crate::parse::sext;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::sync::atomic::{AtomicPtr, AtomicU32, Ordering};
use std::sync::Mutex;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64);
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_u128(&mut self, v: u128) {
        self.write_u64(v as u64);
        self.write_u64((v >> 64) as u64);
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Bin(BinOp),
    Not,
    Eq,
    Ult,
    Slt,
    Ite,
    Extract,
    Concat,
    SExt,
}

/// `a`/`b`/`c` are operands (or immediates: Var → a = index, Extract → b = low bit).
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Key {
    pub op: Op,
    pub w: u8,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub imm: u128,
}

#[derive(Clone, Copy, Debug)]
pub struct Node {
    pub k: Key,
    pub vars: u128,
}

const CHUNK: usize = 1 << 15;
const NCHUNK: usize = 1 << 14;
const SHARDS: usize = 64;

struct Arena {
    chunks: Vec<AtomicPtr<Node>>,
    len: AtomicU32,
    grow: Mutex<()>,
    shards: Vec<Mutex<FxMap<Key, u32>>>,
}

static ARENA: std::sync::OnceLock<Arena> = std::sync::OnceLock::new();

fn arena() -> &'static Arena {
    ARENA.get_or_init(|| Arena {
        chunks: (0..NCHUNK).map(|_| AtomicPtr::new(std::ptr::null_mut())).collect(),
        len: AtomicU32::new(1),
        grow: Mutex::new(()),
        shards: (0..SHARDS).map(|_| Mutex::new(FxMap::default())).collect(),
    })
}

pub fn arena_len() -> u32 {
    arena().len.load(Ordering::Relaxed)
}

pub fn node(e: u32) -> &'static Node {
    let a = arena();
    let p = a.chunks[e as usize / CHUNK].load(Ordering::Acquire);
    debug_assert!(!p.is_null());
    // SAFETY: nodes are written before their index is published and never move or change.
    unsafe { &*p.add(e as usize % CHUNK) }
}

fn intern(k: Key) -> u32 {
    let mut h = Fx::default();
    std::hash::Hash::hash(&k, &mut h);
    let a = arena();
    let shard = &a.shards[(h.finish() >> 50) as usize % SHARDS];
    let mut m = shard.lock().unwrap();
    if let Some(&e) = m.get(&k) {
        return e;
    }
    let id = a.len.fetch_add(1, Ordering::Relaxed);
    let ci = id as usize / CHUNK;
    if ci >= NCHUNK {
        eprintln!("expression arena exhausted");
        std::process::exit(3);
    }
    let mut p = a.chunks[ci].load(Ordering::Acquire);
    if p.is_null() {
        let _g = a.grow.lock().unwrap();
        p = a.chunks[ci].load(Ordering::Acquire);
        if p.is_null() {
            let zero = Node { k: Key { op: Op::Const, w: 1, a: 0, b: 0, c: 0, imm: 0 }, vars: 0 };
            let v: Box<[Node]> = vec![zero; CHUNK].into_boxed_slice();
            p = Box::leak(v).as_mut_ptr();
            a.chunks[ci].store(p, Ordering::Release);
        }
    }
    let vars = match k.op {
        Op::Const => 0,
        Op::Var => 1u128 << k.a.min(127),
        Op::Extract | Op::Not | Op::SExt => node(k.a).vars,
        Op::Ite => node(k.a).vars | node(k.b).vars | node(k.c).vars,
        _ => node(k.a).vars | node(k.b).vars,
    };
    // SAFETY: this slot is ours: `id` is unique.
    unsafe { *p.add(id as usize % CHUNK) = Node { k, vars } };
    m.insert(k, id);
    id
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

pub fn width(e: u32) -> u32 {
    node(e).k.w as u32
}

pub fn konst(v: u128, w: u32) -> u32 {
    intern(Key { op: Op::Const, w: w as u8, a: 0, b: 0, c: 0, imm: v & mask(w) })
}

pub fn var(i: u32, w: u32) -> u32 {
    intern(Key { op: Op::Var, w: w as u8, a: i, b: 0, c: 0, imm: 0 })
}

fn mk(op: Op, w: u32, a: u32, b: u32, c: u32) -> u32 {
    intern(Key { op, w: w as u8, a, b, c, imm: 0 })
}

pub fn as_const(e: u32) -> Option<u128> {
    let n = node(e);
    (n.k.op == Op::Const).then_some(n.k.imm)
}

pub fn to_e(v: &Val, w: u32) -> u32 {
    match v {
        Val::C(c) => konst(*c, w),
        Val::S(e) => *e,
        Val::Agg(_) => panic!("aggregate as scalar"),
    }
}

pub fn to_v(e: u32) -> Val {
    match as_const(e) {
        Some(c) => Val::C(c),
        None => Val::S(e),
    }
}

/// None: division by zero.
pub fn fold(op: BinOp, a: u128, b: u128, w: u32) -> Option<u128> {
    let m = mask(w);
    Some(
        match op {
            BinOp::Add => a.wrapping_add(b),
            BinOp::Sub => a.wrapping_sub(b),
            BinOp::Mul => a.wrapping_mul(b),
            BinOp::UDiv => a.checked_div(b)?,
            BinOp::URem => a.checked_rem(b)?,
            BinOp::SDiv => {
                if b == 0 {
                    return None;
                }
                sext(a, w).wrapping_div(sext(b, w)) as u128
            }
            BinOp::SRem => {
                if b == 0 {
                    return None;
                }
                sext(a, w).wrapping_rem(sext(b, w)) as u128
            }
            BinOp::And => a & b,
            BinOp::Or => a | b,
            BinOp::Xor => a ^ b,
            BinOp::Shl => {
                if b >= w as u128 {
                    0
                } else {
                    a << b
                }
            }
            BinOp::LShr => {
                if b >= w as u128 {
                    0
                } else {
                    a >> b
                }
            }
            BinOp::AShr => {
                let s = sext(a, w);
                (if b >= w as u128 { s >> 127 } else { s >> b }) as u128
            }
        } & m,
    )
}

fn commutative(op: BinOp) -> bool {
    matches!(op, BinOp::Add | BinOp::Mul | BinOp::And | BinOp::Or | BinOp::Xor)
}

/// Is `e` an if-then-else tree with constant leaves (at most `n` of them)?
fn const_tree(e: u32, n: &mut i32) -> bool {
    let k = &node(e).k;
    match k.op {
        Op::Const => {
            *n -= 1;
            *n >= 0
        }
        Op::Ite => const_tree(k.b, n) && const_tree(k.c, n),
        _ => false,
    }
}

fn is_tree(e: u32) -> bool {
    node(e).k.op == Op::Ite && const_tree(e, &mut 12)
}

fn map_tree(e: u32, f: &mut dyn FnMut(u128) -> u32) -> u32 {
    let k = node(e).k;
    match k.op {
        Op::Const => f(k.imm),
        _ => {
            let a = map_tree(k.b, f);
            let b = map_tree(k.c, f);
            ite(k.a, a, b)
        }
    }
}

pub fn bin(op: BinOp, a: u32, b: u32) -> u32 {
    let w = width(a);
    debug_assert_eq!(w, width(b), "{op:?}");
    let (mut a, mut b) = (a, b);
    let (mut ca, mut cb) = (as_const(a), as_const(b));
    if let (Some(x), Some(y)) = (ca, cb) {
        if let Some(r) = fold(op, x, y, w) {
            return konst(r, w);
        }
    }
    if commutative(op) && (ca.is_some() || (cb.is_none() && a > b)) {
        std::mem::swap(&mut a, &mut b);
        std::mem::swap(&mut ca, &mut cb);
    }
    if w == 1 {
        match op {
            BinOp::Add | BinOp::Sub => return bin(BinOp::Xor, a, b),
            BinOp::Mul => return bin(BinOp::And, a, b),
            _ => {}
        }
    }
    if let Some(y) = cb {
        if is_tree(a) && (y != 0 || !matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem)) {
            return map_tree(a, &mut |x| konst(fold(op, x, y, w).unwrap(), w));
        }
        let ka = node(a).k;
        match op {
            BinOp::Add => {
                if y == 0 {
                    return a;
                }
                if ka.op == Op::Bin(BinOp::Add) {
                    if let Some(z) = as_const(ka.b) {
                        return bin(BinOp::Add, ka.a, konst(z.wrapping_add(y), w));
                    }
                }
            }
            BinOp::Sub => return bin(BinOp::Add, a, konst(y.wrapping_neg(), w)),
            BinOp::Mul => {
                if y == 0 {
                    return b;
                }
                if y == 1 {
                    return a;
                }
                if y.is_power_of_two() {
                    return bin(BinOp::Shl, a, konst(y.trailing_zeros() as u128, w));
                }
            }
            BinOp::UDiv => {
                if y.is_power_of_two() {
                    return bin(BinOp::LShr, a, konst(y.trailing_zeros() as u128, w));
                }
            }
            BinOp::URem => {
                if y.is_power_of_two() {
                    return bin(BinOp::And, a, konst(y - 1, w));
                }
            }
            BinOp::And => {
                if y == 0 {
                    return b;
                }
                if y == mask(w) {
                    return a;
                }
                // a contiguous run of ones selects bits
                let lo = y.trailing_zeros();
                let run = (y >> lo).trailing_ones();
                if y >> lo == mask(run) {
                    let mid = extract(a, lo, run);
                    let t = if lo > 0 { concat(mid, konst(0, lo)) } else { mid };
                    return zext(t, w);
                }
                if ka.op == Op::Concat {
                    let lw = width(ka.b);
                    let h = bin(BinOp::And, ka.a, konst(y >> lw, w - lw));
                    let l = bin(BinOp::And, ka.b, konst(y, lw));
                    return concat(h, l);
                }
            }
            BinOp::Or | BinOp::Xor => {
                if y == 0 {
                    return a;
                }
                if y == mask(w) {
                    return if op == BinOp::Or { b } else { not(a) };
                }
                if ka.op == Op::Concat {
                    let lw = width(ka.b);
                    let h = bin(op, ka.a, konst(y >> lw, w - lw));
                    let l = bin(op, ka.b, konst(y, lw));
                    return concat(h, l);
                }
            }
            BinOp::Shl => {
                if y == 0 {
                    return a;
                }
                if y >= w as u128 {
                    return konst(0, w);
                }
                let y = y as u32;
                return concat(extract(a, 0, w - y), konst(0, y));
            }
            BinOp::LShr => {
                if y == 0 {
                    return a;
                }
                if y >= w as u128 {
                    return konst(0, w);
                }
                let y = y as u32;
                return zext(extract(a, y, w - y), w);
            }
            BinOp::AShr => {
                if y == 0 {
                    return a;
                }
                let y = (y.min(w as u128 - 1)) as u32;
                return sext_e(extract(a, y, w - y), w);
            }
            _ => {}
        }
    }
    if a == b {
        match op {
            BinOp::Sub | BinOp::Xor => return konst(0, w),
            BinOp::And | BinOp::Or => return a,
            _ => {}
        }
    }
    if matches!(op, BinOp::And | BinOp::Or | BinOp::Xor) {
        // complementary operands
        let na = node(a).k;
        let nb = node(b).k;
        if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
            return konst(if op == BinOp::And { 0 } else { mask(w) }, w);
        }
        // piecewise over a concatenation, when the other side has a constant part there
        for (x, y) in [(a, b), (b, a)] {
            let kx = node(x).k;
            if kx.op == Op::Concat && cb.is_none() {
                let lw = width(kx.b);
                let ch = as_const(kx.a).is_some();
                let cl = as_const(kx.b).is_some();
                let ky = node(y).k;
                if ch || cl || (ky.op == Op::Concat && width(ky.b) == lw) {
                    let h = bin(op, kx.a, extract(y, lw, w - lw));
                    let l = bin(op, kx.b, extract(y, 0, lw));
                    return concat(h, l);
                }
            }
        }
    }
    if let Some(x) = ca {
        // constant first operand of a non-commutative operator
        if x == 0 && matches!(op, BinOp::Shl | BinOp::LShr | BinOp::AShr) {
            return a;
        }
        if is_tree(b) && !matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) {
            return map_tree(b, &mut |y| konst(fold(op, x, y, w).unwrap(), w));
        }
    }
    mk(Op::Bin(op), w, a, b, 0)
}

pub fn not(a: u32) -> u32 {
    let n = node(a).k;
    let w = n.w as u32;
    match n.op {
        Op::Const => konst(!n.imm, w),
        Op::Not => n.a,
        Op::Ite if is_tree(a) => map_tree(a, &mut |x| konst(!x, w)),
        Op::Concat => concat(not(n.a), not(n.b)),
        _ => mk(Op::Not, w, a, 0, 0),
    }
}

pub fn eq(a: u32, b: u32) -> u32 {
    debug_assert_eq!(width(a), width(b));
    if a == b {
        return konst(1, 1);
    }
    let (mut a, mut b) = (a, b);
    if as_const(a).is_some() || (as_const(b).is_none() && a > b) {
        std::mem::swap(&mut a, &mut b);
    }
    let ka = node(a).k;
    let kb = node(b).k;
    let w = ka.w as u32;
    if let Some(y) = as_const(b) {
        if let Some(x) = as_const(a) {
            return konst((x == y) as u128, 1);
        }
        if w == 1 {
            return if y == 1 { a } else { not(a) };
        }
        match ka.op {
            Op::Concat => {
                let lw = width(ka.b);
                let h = eq(ka.a, konst(y >> lw, w - lw));
                if as_const(h) == Some(0) {
                    return h;
                }
                let l = eq(ka.b, konst(y, lw));
                return bin(BinOp::And, h, l);
            }
            Op::Ite => {
                let (cb, cc) = (as_const(ka.b), as_const(ka.c));
                if is_tree(a) || cb.is_some() || cc.is_some() {
                    let x = eq(ka.b, b);
                    let z = eq(ka.c, b);
                    return ite(ka.a, x, z);
                }
            }
            Op::Bin(BinOp::Add) => {
                if let Some(z) = as_const(ka.b) {
                    return eq(ka.a, konst(y.wrapping_sub(z), w));
                }
            }
            Op::Bin(BinOp::Xor) => {
                if let Some(z) = as_const(ka.b) {
                    return eq(ka.a, konst(y ^ z, w));
                }
                if y == 0 {
                    return eq(ka.a, ka.b);
                }
            }
            Op::Bin(BinOp::Sub) if y == 0 => return eq(ka.a, ka.b),
            Op::Not => return eq(ka.a, konst(!y, w)),
            Op::SExt => {
                let iw = width(ka.a);
                let t = y & mask(iw);
                let back = (sext(t, iw) as u128) & mask(w);
                return if back == y { eq(ka.a, konst(t, iw)) } else { konst(0, 1) };
            }
            _ => {}
        }
    } else {
        if ka.op == Op::Concat && kb.op == Op::Concat && width(ka.b) == width(kb.b) {
            let h = eq(ka.a, kb.a);
            let l = eq(ka.b, kb.b);
            return bin(BinOp::And, h, l);
        }
        if w == 1 {
            return not(bin(BinOp::Xor, a, b));
        }
    }
    mk(Op::Eq, 1, a, b, 0)
}

fn zext_parts(e: u32) -> Option<u32> {
    let k = node(e).k;
    (k.op == Op::Concat && as_const(k.a) == Some(0)).then_some(k.b)
}

pub fn ult(a: u32, b: u32) -> u32 {
    debug_assert_eq!(width(a), width(b));
    let w = width(a);
    if a == b {
        return konst(0, 1);
    }
    let (ca, cb) = (as_const(a), as_const(b));
    match (ca, cb) {
        (Some(x), Some(y)) => return konst((x < y) as u128, 1),
        (_, Some(0)) => return konst(0, 1),
        (_, Some(1)) => return eq(a, konst(0, w)),
        (Some(x), _) if x == mask(w) => return konst(0, 1),
        (Some(0), _) => return not(eq(b, konst(0, w))),
        _ => {}
    }
    if w == 1 {
        return bin(BinOp::And, not(a), b);
    }
    if cb.is_some() && is_tree(a) {
        return map_tree(a, &mut |x| ult(konst(x, w), b));
    }
    if ca.is_some() && is_tree(b) {
        return map_tree(b, &mut |y| ult(a, konst(y, w)));
    }
    match (zext_parts(a), zext_parts(b)) {
        (Some(x), Some(y)) => {
            let n = width(x).max(width(y));
            return ult(zext(x, n), zext(y, n));
        }
        (Some(x), None) => {
            if let Some(y) = cb {
                let n = width(x);
                return if y > mask(n) { konst(1, 1) } else { ult(x, konst(y, n)) };
            }
        }
        (None, Some(y)) => {
            if let Some(x) = ca {
                let n = width(y);
                return if x >= mask(n) { konst(0, 1) } else { ult(konst(x, n), y) };
            }
        }
        _ => {}
    }
    mk(Op::Ult, 1, a, b, 0)
}

pub fn slt(a: u32, b: u32) -> u32 {
    let w = width(a);
    if a == b {
        return konst(0, 1);
    }
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
        return konst((sext(x, w) < sext(y, w)) as u128, 1);
    }
    if w == 1 {
        return bin(BinOp::And, a, not(b));
    }
    if as_const(b).is_some() && is_tree(a) {
        return map_tree(a, &mut |x| slt(konst(x, w), b));
    }
    if as_const(a).is_some() && is_tree(b) {
        return map_tree(b, &mut |y| slt(a, konst(y, w)));
    }
    let nonneg = |e: u32| match as_const(e) {
        Some(c) => c >> (w - 1) == 0,
        None => zext_parts(e).is_some(),
    };
    match (nonneg(a), nonneg(b)) {
        (true, true) => return ult(a, b),
        _ => {}
    }
    if as_const(b).is_some_and(|c| c >> (w - 1) == 1) && nonneg(a) {
        return konst(0, 1);
    }
    if as_const(a).is_some_and(|c| c >> (w - 1) == 1) && nonneg(b) {
        return konst(1, 1);
    }
    let (ka, kb) = (node(a).k, node(b).k);
    if ka.op == Op::SExt {
        let iw = width(ka.a);
        if kb.op == Op::SExt && width(kb.a) == iw {
            return slt(ka.a, kb.a);
        }
        if let Some(c) = as_const(b) {
            let t = c & mask(iw);
            if (sext(t, iw) as u128) & mask(w) == c {
                return slt(ka.a, konst(t, iw));
            }
        }
    }
    // sign test
    if as_const(b) == Some(0) {
        return extract(a, w - 1, 1);
    }
    mk(Op::Slt, 1, a, b, 0)
}

pub fn ite(c: u32, a: u32, b: u32) -> u32 {
    if let Some(k) = as_const(c) {
        return if k == 1 { a } else { b };
    }
    if a == b {
        return a;
    }
    let kc = node(c).k;
    if kc.op == Op::Not {
        return ite(kc.a, b, a);
    }
    let w = width(a);
    if w == 1 {
        match (as_const(a), as_const(b)) {
            (Some(1), Some(_)) => return c,
            (Some(0), Some(_)) => return not(c),
            (Some(1), None) => return bin(BinOp::Or, c, b),
            (Some(0), None) => return bin(BinOp::And, not(c), b),
            (None, Some(1)) => return bin(BinOp::Or, not(c), a),
            (None, Some(0)) => return bin(BinOp::And, c, a),
            _ => {}
        }
    }
    let (mut a, mut b) = (a, b);
    let ka = node(a).k;
    if ka.op == Op::Ite && ka.a == c {
        a = ka.b;
    }
    let kb = node(b).k;
    if kb.op == Op::Ite && kb.a == c {
        b = kb.c;
    }
    if a == b {
        return a;
    }
    // shared zero-extension
    if let (Some(x), Some(y)) = (zext_parts(a), zext_parts(b)) {
        if width(x) == width(y) {
            return zext(ite(c, x, y), w);
        }
    }
    mk(Op::Ite, w, c, a, b)
}

pub fn extract(a: u32, lo: u32, w: u32) -> u32 {
    let k = node(a).k;
    let aw = k.w as u32;
    debug_assert!(lo + w <= aw);
    if lo == 0 && w == aw {
        return a;
    }
    match k.op {
        Op::Const => konst(k.imm >> lo, w),
        Op::Extract => extract(k.a, k.b + lo, w),
        Op::Concat => {
            let lw = width(k.b);
            if lo >= lw {
                extract(k.a, lo - lw, w)
            } else if lo + w <= lw {
                extract(k.b, lo, w)
            } else {
                let l = extract(k.b, lo, lw - lo);
                let h = extract(k.a, 0, lo + w - lw);
                concat(h, l)
            }
        }
        Op::SExt => {
            let iw = width(k.a);
            if lo + w <= iw {
                extract(k.a, lo, w)
            } else if lo < iw {
                sext_e(extract(k.a, lo, iw - lo), w)
            } else {
                sext_e(extract(k.a, iw - 1, 1), w)
            }
        }
        Op::Ite if is_tree(a) => map_tree(a, &mut |x| konst(x >> lo, w)),
        Op::Not => not(extract(k.a, lo, w)),
        Op::Bin(op @ (BinOp::And | BinOp::Or | BinOp::Xor)) => {
            let x = extract(k.a, lo, w);
            let y = extract(k.b, lo, w);
            bin(op, x, y)
        }
        Op::Bin(op @ (BinOp::Add | BinOp::Sub | BinOp::Mul)) if lo == 0 => {
            let x = extract(k.a, 0, w);
            let y = extract(k.b, 0, w);
            bin(op, x, y)
        }
        _ => mk(Op::Extract, w, a, lo, 0),
    }
}

pub fn concat(h: u32, l: u32) -> u32 {
    let (kh, kl) = (node(h).k, node(l).k);
    let w = kh.w as u32 + kl.w as u32;
    assert!(w <= 128, "wide expression");
    if let (Some(x), Some(y)) = (as_const(h), as_const(l)) {
        return konst(x << kl.w | y, w);
    }
    if kh.op == Op::Extract && kl.op == Op::Extract && kh.a == kl.a && kh.b == kl.b + kl.w as u32 {
        return extract(kh.a, kl.b, w);
    }
    // right-nest: constants merge on the left
    if as_const(h).is_some() && kl.op == Op::Concat && as_const(kl.a).is_some() {
        let c = concat(h, kl.a);
        return concat(c, kl.b);
    }
    if kh.op == Op::Concat {
        let l2 = concat(kh.b, l);
        return concat(kh.a, l2);
    }
    if kl.op == Op::Concat && kh.op == Op::Extract {
        let km = node(kl.a).k;
        if km.op == Op::Extract && km.a == kh.a && kh.b == km.b + km.w as u32 {
            let m = extract(kh.a, km.b, kh.w as u32 + km.w as u32);
            return concat(m, kl.b);
        }
    }
    mk(Op::Concat, w, h, l, 0)
}

pub fn zext(a: u32, w: u32) -> u32 {
    let aw = width(a);
    if aw == w {
        return a;
    }
    if is_tree(a) {
        return map_tree(a, &mut |x| konst(x, w));
    }
    concat(konst(0, w - aw), a)
}

pub fn sext_e(a: u32, w: u32) -> u32 {
    let k = node(a).k;
    let aw = k.w as u32;
    if aw == w {
        return a;
    }
    match k.op {
        Op::Const => konst(sext(k.imm, aw) as u128, w),
        Op::SExt => sext_e(k.a, w),
        Op::Concat if as_const(k.a).is_some_and(|c| c >> (width(k.a) - 1) == 0) => zext(a, w),
        Op::Ite if is_tree(a) => map_tree(a, &mut |x| konst(sext(x, aw) as u128, w)),
        _ => mk(Op::SExt, w, a, 0, 0),
    }
}

pub fn pred(p: Pred, a: u32, b: u32) -> u32 {
    match p {
        Pred::Eq => eq(a, b),
        Pred::Ne => not(eq(a, b)),
        Pred::Ult => ult(a, b),
        Pred::Ugt => ult(b, a),
        Pred::Ule => not(ult(b, a)),
        Pred::Uge => not(ult(a, b)),
        Pred::Slt => slt(a, b),
        Pred::Sgt => slt(b, a),
        Pred::Sle => not(slt(b, a)),
        Pred::Sge => not(slt(a, b)),
    }
}

pub fn fold_pred(p: Pred, a: u128, b: u128, w: u32) -> bool {
    match p {
        Pred::Eq => a == b,
        Pred::Ne => a != b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        Pred::Ugt => a > b,
        Pred::Uge => a >= b,
        Pred::Slt => sext(a, w) < sext(b, w),
        Pred::Sle => sext(a, w) <= sext(b, w),
        Pred::Sgt => sext(a, w) > sext(b, w),
        Pred::Sge => sext(a, w) >= sext(b, w),
    }
}

/// Evaluates `e` under an assignment (missing variables are 0).
pub fn eval(e: u32, model: &[u128], memo: &mut FxMap<u32, u128>) -> u128 {
    let k = node(e).k;
    let w = k.w as u32;
    match k.op {
        Op::Const => return k.imm,
        Op::Var => return model.get(k.a as usize).copied().unwrap_or(0) & mask(w),
        _ => {}
    }
    if let Some(v) = memo.get(&e) {
        return *v;
    }
    let r = match k.op {
        Op::Const | Op::Var => unreachable!(),
        Op::Bin(op) => {
            let a = eval(k.a, model, memo);
            let b = eval(k.b, model, memo);
            fold(op, a, b, w).unwrap_or_else(|| match op {
                // SMT-LIB semantics of division by zero
                BinOp::UDiv => mask(w),
                BinOp::URem | BinOp::SRem => a,
                _ => {
                    if sext(a, w) < 0 {
                        1
                    } else {
                        mask(w)
                    }
                }
            })
        }
        Op::Not => !eval(k.a, model, memo) & mask(w),
        Op::Eq => (eval(k.a, model, memo) == eval(k.b, model, memo)) as u128,
        Op::Ult => (eval(k.a, model, memo) < eval(k.b, model, memo)) as u128,
        Op::Slt => {
            let iw = width(k.a);
            (sext(eval(k.a, model, memo), iw) < sext(eval(k.b, model, memo), iw)) as u128
        }
        Op::Ite => {
            if eval(k.a, model, memo) == 1 {
                eval(k.b, model, memo)
            } else {
                eval(k.c, model, memo)
            }
        }
        Op::Extract => (eval(k.a, model, memo) >> k.b) & mask(w),
        Op::Concat => {
            let lw = width(k.b);
            eval(k.a, model, memo) << lw | eval(k.b, model, memo)
        }
        Op::SExt => (sext(eval(k.a, model, memo), width(k.a)) as u128) & mask(w),
    };
    memo.insert(e, r);
    r
}

/// SMT-LIB text, for cross-checking with another solver.
pub fn smt(e: u32, defs: &mut Vec<String>, seen: &mut FxMap<u32, String>) -> String {
    if let Some(s) = seen.get(&e) {
        return s.clone();
    }
    let k = node(e).k;
    let w = k.w as u32;
    // every sub-expression is a bit-vector, booleans are width 1
    let b2v = |s: String| format!("(ite {s} #b1 #b0)");
    let r = match k.op {
        Op::Const => format!("(_ bv{} {})", k.imm, w),
        Op::Var => {
            let n = format!("v{}_{}", k.a, w);
            defs.push(format!("(declare-const {n} (_ BitVec {w}))"));
            n
        }
        Op::Bin(op) => {
            let a = smt(k.a, defs, seen);
            let b = smt(k.b, defs, seen);
            let o = match op {
                BinOp::Add => "bvadd",
                BinOp::Sub => "bvsub",
                BinOp::Mul => "bvmul",
                BinOp::UDiv => "bvudiv",
                BinOp::SDiv => "bvsdiv",
                BinOp::URem => "bvurem",
                BinOp::SRem => "bvsrem",
                BinOp::And => "bvand",
                BinOp::Or => "bvor",
                BinOp::Xor => "bvxor",
                BinOp::Shl => "bvshl",
                BinOp::LShr => "bvlshr",
                BinOp::AShr => "bvashr",
            };
            format!("({o} {a} {b})")
        }
        Op::Not => format!("(bvnot {})", smt(k.a, defs, seen)),
        Op::Eq => b2v(format!("(= {} {})", smt(k.a, defs, seen), smt(k.b, defs, seen))),
        Op::Ult => b2v(format!("(bvult {} {})", smt(k.a, defs, seen), smt(k.b, defs, seen))),
        Op::Slt => b2v(format!("(bvslt {} {})", smt(k.a, defs, seen), smt(k.b, defs, seen))),
        Op::Ite => {
            let c = smt(k.a, defs, seen);
            let a = smt(k.b, defs, seen);
            let b = smt(k.c, defs, seen);
            format!("(ite (= {c} #b1) {a} {b})")
        }
        Op::Extract => format!("((_ extract {} {}) {})", k.b + w - 1, k.b, smt(k.a, defs, seen)),
        Op::Concat => format!("(concat {} {})", smt(k.a, defs, seen), smt(k.b, defs, seen)),
        Op::SExt => format!("((_ sign_extend {}) {})", w - width(k.a), smt(k.a, defs, seen)),
    };
    let name = if matches!(k.op, Op::Const | Op::Var) {
        r
    } else {
        let n = format!("e{e}");
        defs.push(format!("(define-fun {n} () (_ BitVec {w}) {r})"));
        n
    };
    seen.insert(e, name.clone());
    name
}
