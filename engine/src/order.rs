//! Facts a path has established about the unsigned order of its terms, kept transitively closed.
//! A branch whose condition they imply needs no feasibility query.  (`--confirm` asks the solver
//! about each of them all the same.)
use crate::expr::*;
use crate::ir::BinOp;

const LE: u8 = 1;
const LT: u8 = 2;
const MAX: usize = 48;

#[derive(Clone, Debug, Default)]
pub struct Order {
    ids: Vec<u32>,
    /// `rel[i * MAX + j]`: what is known of `ids[i]` versus `ids[j]`.
    rel: Vec<u8>,
    neq: Vec<(u8, u8)>,
}

impl Order {
    fn find(&self, e: u32) -> Option<usize> {
        self.ids.iter().position(|x| *x == e)
    }
    fn node(&mut self, e: u32) -> Option<usize> {
        if let Some(i) = self.find(e) {
            return Some(i);
        }
        let i = self.ids.len();
        if i == MAX {
            return None;
        }
        self.ids.push(e);
        self.rel.resize((i + 1) * MAX, 0);
        self.rel[i * MAX + i] = LE;
        if let Some(c) = as_const(e) {
            for j in 0..i {
                if width(self.ids[j]) == width(e) {
                    if let Some(d) = as_const(self.ids[j]) {
                        if c < d {
                            self.add(i, j, LT);
                        } else {
                            self.add(j, i, LT);
                        }
                    }
                }
            }
        }
        Some(i)
    }
    /// ids[a] < ids[b] or ids[a] <= ids[b]
    fn add(&mut self, a: usize, b: usize, r: u8) {
        if self.rel[a * MAX + b] >= r {
            return;
        }
        let n = self.ids.len();
        for i in 0..n {
            let x = self.rel[i * MAX + a];
            if x == 0 {
                continue;
            }
            for j in 0..n {
                let y = self.rel[b * MAX + j];
                if y == 0 {
                    continue;
                }
                let z = x.max(r).max(y);
                let t = &mut self.rel[i * MAX + j];
                *t = (*t).max(z);
            }
        }
    }
    fn le(&self, a: usize, b: usize) -> u8 {
        self.rel[a * MAX + b]
    }
    fn same(&self, a: usize, b: usize) -> bool {
        a == b || (self.le(a, b) == LE && self.le(b, a) == LE)
    }
    fn differ(&self, a: usize, b: usize) -> bool {
        if self.le(a, b) == LT || self.le(b, a) == LT {
            return true;
        }
        self.neq.iter().any(|&(x, y)| {
            let (x, y) = (x as usize, y as usize);
            (self.same(a, x) && self.same(b, y)) || (self.same(a, y) && self.same(b, x))
        })
    }
    /// Records that condition `c` has the given truth value.
    pub fn learn(&mut self, c: u32, v: bool) {
        let k = node(c).k;
        match k.op {
            Op::Not => self.learn(k.a, !v),
            Op::Bin(BinOp::And) if v && k.w == 1 => {
                self.learn(k.a, true);
                self.learn(k.b, true);
            }
            Op::Bin(BinOp::Or) if !v && k.w == 1 => {
                self.learn(k.a, false);
                self.learn(k.b, false);
            }
            Op::Eq | Op::Ult => {
                if width(k.a) == 1 {
                    return;
                }
                let (Some(a), Some(b)) = (self.node(k.a), self.node(k.b)) else { return };
                match (k.op, v) {
                    (Op::Eq, true) => {
                        self.add(a, b, LE);
                        self.add(b, a, LE);
                    }
                    (Op::Eq, false) => {
                        if !self.differ(a, b) {
                            self.neq.push((a as u8, b as u8));
                        }
                    }
                    (_, true) => self.add(a, b, LT),
                    (_, false) => self.add(b, a, LE),
                }
            }
            _ => {}
        }
    }
    /// The truth value of `c`, if the facts settle it.
    pub fn implied(&self, c: u32, known: &dyn Fn(u32) -> Option<bool>) -> Option<bool> {
        let k = node(c).k;
        if k.op == Op::Const {
            return Some(k.imm == 1);
        }
        if k.w != 1 {
            return None;
        }
        if let Some(v) = known(c) {
            return Some(v);
        }
        match k.op {
            Op::Not => self.implied(k.a, known).map(|v| !v),
            Op::Bin(BinOp::And) => match (self.implied(k.a, known), self.implied(k.b, known)) {
                (Some(false), _) | (_, Some(false)) => Some(false),
                (Some(true), Some(true)) => Some(true),
                _ => None,
            },
            Op::Bin(BinOp::Or) => match (self.implied(k.a, known), self.implied(k.b, known)) {
                (Some(true), _) | (_, Some(true)) => Some(true),
                (Some(false), Some(false)) => Some(false),
                _ => None,
            },
            Op::Bin(BinOp::Xor) => {
                Some(self.implied(k.a, known)? != self.implied(k.b, known)?)
            }
            Op::Ite => match self.implied(k.a, known)? {
                true => self.implied(k.b, known),
                false => self.implied(k.c, known),
            },
            Op::Eq | Op::Ult => {
                let (a, b) = (self.find(k.a)?, self.find(k.b)?);
                if k.op == Op::Eq {
                    if self.same(a, b) {
                        Some(true)
                    } else if self.differ(a, b) {
                        Some(false)
                    } else {
                        None
                    }
                } else if self.le(a, b) == LT || (self.le(a, b) == LE && self.differ(a, b)) {
                    Some(true)
                } else if self.le(b, a) != 0 {
                    Some(false)
                } else {
                    None
                }
            }
            _ => None,
        }
    }

    /// `c` with the sub-conditions replaced that the facts settle.
    pub fn simplify(&self, c: u32, known: &dyn Fn(u32) -> Option<bool>) -> u32 {
        if let Some(v) = self.implied(c, known) {
            return konst(v as u128, 1);
        }
        let k = node(c).k;
        if k.w != 1 {
            return c;
        }
        match k.op {
            Op::Not => not(self.simplify(k.a, known)),
            Op::Bin(op @ (BinOp::And | BinOp::Or | BinOp::Xor)) => {
                let a = self.simplify(k.a, known);
                let b = self.simplify(k.b, known);
                if a == k.a && b == k.b {
                    c
                } else {
                    bin(op, a, b)
                }
            }
            Op::Ite => {
                let x = self.simplify(k.a, known);
                let a = self.simplify(k.b, known);
                let b = self.simplify(k.c, known);
                ite(x, a, b)
            }
            _ => c,
        }
    }

    /// An assignment of the variables that satisfies the recorded facts, if the obvious one does
    /// (the caller evaluates the whole path condition under it before believing it).
    pub fn candidate(&self, base: &[u128]) -> Option<Vec<u128>> {
        let n = self.ids.len();
        let mut model = base.to_vec();
        let mut val: Vec<Option<u128>> = vec![None; n];
        let mut done = 0;
        while done < n {
            let before = done;
            for i in 0..n {
                if val[i].is_some() {
                    continue;
                }
                // every strictly smaller or (one-way) smaller-or-equal term must have a value
                let mut lo = 0u128;
                let mut ready = true;
                let mut fixed = as_const(self.ids[i]);
                for j in 0..n {
                    if i == j || width(self.ids[i]) != width(self.ids[j]) {
                        continue;
                    }
                    if self.same(i, j) {
                        if let Some(c) = as_const(self.ids[j]) {
                            fixed = Some(c);
                        }
                        continue;
                    }
                    if self.le(j, i) != 0 {
                        match val[j] {
                            Some(v) => lo = lo.max(v + 1),
                            None => ready = false,
                        }
                    }
                }
                if !ready {
                    continue;
                }
                let w = width(self.ids[i]);
                let mut v = match fixed {
                    Some(c) => c,
                    None => {
                        // keep the old value when it fits
                        let old = match node(self.ids[i]).k.op {
                            Op::Var => base.get(node(self.ids[i]).k.a as usize).copied().unwrap_or(0) & mask(w),
                            _ => 0,
                        };
                        let _ = old;
                        lo
                    }
                };
                if fixed.is_none() {
                    // differ from everything that already has a value, unless known equal
                    while (0..n).any(|j| {
                        j != i
                            && width(self.ids[j]) == w
                            && val[j] == Some(v)
                            && !self.same(i, j)
                    }) {
                        v += 1;
                    }
                }
                if v > mask(w) {
                    return None;
                }
                for j in 0..n {
                    if self.same(i, j) && width(self.ids[j]) == w {
                        if val[j].is_none() {
                            done += 1;
                        }
                        val[j] = Some(v);
                        let k = node(self.ids[j]).k;
                        if k.op == Op::Var {
                            if model.len() <= k.a as usize {
                                model.resize(k.a as usize + 1, 0);
                            }
                            model[k.a as usize] = v;
                        }
                    }
                }
            }
            if done == before {
                return None;
            }
        }
        Some(model)
    }
}
