//! What every harness shares: the node type, and the reference semantics seen from one observed id.

use crate::sym::*;
use plotline::{
    graph::{Graph, Source},
    prelude::*,
    schema::transaction::Context,
};

/// plotline is generic over the node and its id: a one-byte id and a one-byte payload are enough
/// to tell any two of the handful of nodes a bounded run can hold apart.
#[derive(Clone, PartialEq, Debug)]
pub struct Node {
    pub id: u8,
    pub val: u8,
}

impl Identify for Node {
    type Id = u8;

    fn id(&self) -> &u8 {
        &self.id
    }
}

pub fn node(id: u8, val: u8) -> Node {
    Node { id, val }
}

/// The state of the map under one (symbolic, arbitrary) id `q`: since `q` is universally
/// quantified, agreeing on it is agreeing on the whole map.
#[derive(Clone, Copy)]
pub struct Obs {
    pub q: u8,
    pub e: Option<u8>,
}

impl Obs {
    pub fn save(&mut self, id: u8, val: u8) {
        if id == self.q {
            self.e = Some(val);
        }
    }
    pub fn delete(&mut self, id: u8) {
        if id == self.q {
            self.e = None;
        }
    }
    pub fn has(&self) -> bool {
        self.e.is_some()
    }
    /// The source shows exactly the expected state under the observed id.
    pub fn agrees<S: Source<Node = Node>>(&self, s: &S) -> bool {
        let got = s.get(&self.q);
        let has = s.contains(&self.q);
        match (got, self.e) {
            (None, None) => !has,
            (Some(n), Some(v)) => has & (n.id == self.q) & (n.val == v),
            _ => false,
        }
    }
}

/// A graph of up to `n` arbitrary nodes, and what it holds under an arbitrary id.
pub fn graph(n: u32) -> (Graph<Node>, Obs) {
    let mut o = Obs { q: u8_(), e: None };
    let mut g = Graph::default();
    for _ in 0..n {
        let (id, val) = (u8_(), u8_());
        o.save(id, val);
        g.insert(node(id, val));
    }
    (g, o)
}

/// The same, as a schema.
pub fn schema(n: u32) -> (Schema<Node>, Obs) {
    let (g, o) = graph(n);
    (Schema::from(g), o)
}

/// Registers one arbitrary operation, in the context and in the model.
pub fn any_op(ctx: &Context<'_, Node>, o: &mut Obs) {
    let id = u8_();
    if flag() {
        let val = u8_();
        ctx.save(node(id, val));
        o.save(id, val);
    } else {
        ctx.delete(id);
        o.delete(id);
    }
}

/// The whole content, in order; every id at most once.
pub fn dump(g: &Graph<Node>) -> Vec<(u8, u8)> {
    g.into_iter().map(|n| (n.id, n.val)).collect()
}

/// The schema can still be read and written, and holds what is expected.
pub fn settled(s: &Schema<Node>, o: &Obs, label: &str) {
    check(o.agrees(&*s.read()), label);
}

/// The schema is usable: another transaction commits and is visible.
pub fn usable(s: &Schema<Node>, o: &mut Obs, label: &str) {
    let (id, val) = (u8_(), u8_());
    let r = s.transaction().with(|ctx| {
        check(o.agrees(&ctx), label);
        ctx.save(node(id, val));
        Ok(())
    });
    o.save(id, val);
    check(r.is_ok() & o.agrees(&*s.read()), label);
}

/// A place among `n`: any, or, in runs too long for that, the ends and some in between.
pub fn spot(n: u32) -> u32 {
    let k = param("slots", 0);
    if n <= 250 && (k == 0 || k >= n) {
        return each(pick(n as u8)) as u32;
    }
    let k = if k == 0 { 8 } else { k };
    let p = each(pick(k as u8 + 1)) as u32;
    if p == k { n - 1 } else { p * n / k }
}

/// Any error there is, as a number: nothing to do, no message, or one.
pub fn any_fault() -> u8 {
    let k = u8_();
    assume(k < 128);
    k
}

pub fn fault(k: u8) -> Error {
    match k {
        0 => Error::Noop,
        1 => Error::Msg(String::new()),
        _ => Error::Msg(String::from(k as char)),
    }
}

/// The number of an error.
pub fn code(e: &Error) -> u8 {
    match e {
        Error::Noop => 0,
        Error::Msg(m) if m.is_empty() => 1,
        Error::Msg(m) if m.len() == 1 => m.as_bytes()[0],
        _ => 255,
    }
}

/// Succeeds, or fails with that error.
pub fn outcome(ok: bool, k: u8) -> Result<()> {
    if ok { Ok(()) } else { Err(fault(k)) }
}

/// The result is that outcome.
pub fn came_out<T>(r: &Result<T>, ok: bool, k: u8) -> bool {
    match r {
        Ok(_) => ok,
        Err(e) => !ok && code(e) == k,
    }
}

/// Runs `f`, telling whether it panicked.
pub fn caught<R>(f: impl FnOnce() -> R) -> Option<R> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}
