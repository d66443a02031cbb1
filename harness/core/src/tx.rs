//! Transactions: commit, rollback, overlay, nesting, panics.

use crate::{model::*, sym::*};
use plotline::{
    graph::{Graph, Source},
    prelude::*,
    schema::transaction::Context,
};

/// A committed transaction leaves the graph as if its operations had been applied in order.
pub fn commit() {
    let (s, mut o) = schema(param("nodes", 2));
    let rounds = param("rounds", 1);
    for _ in 0..rounds {
        let token = u8_();
        let r: Result<u8> = s.transaction().with(|ctx| {
            for _ in 0..param("ops", 3) {
                any_op(&ctx, &mut o);
            }
            Ok(token)
        });
        check(matches!(r, Ok(t) if t == token), "the closure's result is returned");
        settled(&s, &o, "the graph is the one the operations describe");
    }
    let d = dump(&s.read());
    check(d.windows(2).all(|w| w[0].0 < w[1].0), "each id is held once");
    check(
        d.iter().find(|n| n.0 == o.q).map(|n| n.1) == o.e,
        "iteration shows the same nodes",
    );
    if o.has() {
        cover("present");
    } else {
        cover("absent");
    }
}

/// The same for many operations: all ids distinct, but for one arbitrary operation anywhere.
pub fn commit_long() {
    let n = param("n", 24) as u8;
    let s = Schema::from(plotline::graph::Graph::<Node>::default());
    let at = spot(n as u32) as u8;
    let id = spot(n as u32) as u8;
    let (del, val) = (flag(), u8_());
    let nest = flag();
    let body = |ctx: &Context<'_, Node>| {
        for i in 0..n {
            ctx.save(node(i, i));
            if i == at {
                if del {
                    ctx.delete(id);
                } else {
                    ctx.save(node(id, val));
                }
            }
        }
    };
    let r: Result<()> = s.transaction().with(|ctx| {
        if nest {
            ctx.transaction().with(|sub| {
                body(&sub);
                Ok(())
            })
        } else {
            body(&ctx);
            Ok(())
        }
    });
    check(r.is_ok(), "commits");
    let g = s.read();
    let mut all = true;
    for i in 0..n {
        let e = if i == id && i <= at {
            if del {
                None
            } else {
                Some(val)
            }
        } else {
            Some(i)
        };
        all &= g.get(&i).map(|n| n.val) == e;
    }
    check(all, "the graph is the one the operations describe");
    cover("end");
}

/// Many writes that hit few ids, again and again, with an arbitrary one among them.
pub fn commit_mixed() {
    let (n, k) = (param("n", 60) as u8, param("ids", 11) as u8);
    let s = Schema::from(plotline::graph::Graph::<Node>::default());
    let (at, id) = (spot(n as u32) as u8, spot(k as u32) as u8);
    let (del, nest, val) = (flag(), flag(), u8_());
    let mut m = vec![None; k as usize];
    let mut seed = 1u8;
    let body = |ctx: &Context<'_, Node>, m: &mut Vec<Option<u8>>, seed: &mut u8, from: u8, to: u8| {
        for i in from..to {
            *seed = seed.wrapping_mul(5).wrapping_add(113);
            let x = (*seed >> 2) % k;
            for (x, del, val) in [(x, *seed % 4 == 3, i), (id, del, val)] {
                if del {
                    ctx.delete(x);
                    m[x as usize] = None;
                } else {
                    ctx.save(node(x, val));
                    m[x as usize] = Some(val);
                }
                if i != at {
                    break;
                }
            }
        }
    };
    let r: Result<()> = s.transaction().with(|ctx| {
        if nest {
            body(&ctx, &mut m, &mut seed, 0, n / 3);
            ctx.transaction().with(|sub| {
                body(&sub, &mut m, &mut seed, n / 3, n);
                Ok(())
            })
        } else {
            body(&ctx, &mut m, &mut seed, 0, n);
            Ok(())
        }
    });
    check(r.is_ok(), "commits");
    let g = s.read();
    let all = (0..k).all(|i| g.get(&i).map(|n| n.val) == m[i as usize]);
    check(all && g.into_iter().count() == m.iter().flatten().count(), "the graph is the one the operations describe");
    cover("end");
}

/// Commits through every level of a chain of nested transactions.
pub fn chain() {
    fn go(ctx: &Context<'_, Node>, o: &mut Obs, depth: u32) -> Result<()> {
        // Any of them may have nothing of its own.
        if flag() {
            any_op(ctx, o);
        }
        check(o.agrees(ctx), "reads see own and enclosing writes");
        if depth > 0 {
            ctx.transaction().with(|sub| {
                check(o.agrees(&sub), "a nested transaction starts from the enclosing view");
                go(&sub, o, depth - 1)
            })?;
            check(o.agrees(ctx), "a committed nested transaction is visible outside");
            if param("after", 0) > 0 && flag() {
                any_op(ctx, o);
                check(o.agrees(ctx), "reads see what was written in between");
            }
        }
        Ok(())
    }
    let (s, mut o) = schema(1);
    let r = s.transaction().with(|ctx| go(&ctx, &mut o, param("depth", 3)));
    check(r.is_ok(), "commits");
    settled(&s, &o, "the graph is the one the operations describe");
    cover("end");
}

/// A transaction whose closure fails leaves no trace, however far it got.
pub fn rollback() {
    let (s, o) = schema(param("nodes", 2));
    let before = dump(&s.read());
    let nested = pick(3);
    let (why, inner) = (any_fault(), any_fault());
    let r: Result<()> = s.transaction().with(|ctx| {
        let mut m = o;
        for _ in 0..param("ops", 2) {
            any_op(&ctx, &mut m);
        }
        if nested > 0 {
            let r = ctx.transaction().with(|sub| {
                any_op(&sub, &mut m);
                outcome(nested == 1, inner)
            });
            if nested == 2 {
                check(came_out(&r, false, inner), "the inner error comes out");
                // The inner failure is what makes the outer one fail.
                r?;
            }
        }
        Err(fault(why))
    });
    check(
        came_out(&r, false, if nested == 2 { inner } else { why }),
        "the closure's error is returned",
    );
    settled(&s, &o, "the graph is as it was");
    check(dump(&s.read()) == before, "the whole graph is as it was");
    let mut o = o;
    usable(&s, &mut o, "the schema is usable after a failure");
    // A transaction that is never opened does nothing either, and holds nothing.
    drop(s.transaction());
    settled(&s, &o, "an unopened transaction does nothing");
    cover("end");
}

/// Contexts that are never let go of, at any level, change nothing about what takes effect.
pub fn kept() {
    let (s, mut o) = schema(param("nodes", 1));
    for _ in 0..param("rounds", 1) {
        let before = o;
        let (ok, why) = (flag(), any_fault());
        let r: Result<()> = s.transaction().with(|ctx| {
            for _ in 0..param("ops", 1) {
                any_op(&ctx, &mut o);
            }
            let outside = o;
            let (sub_ok, sub_why) = (flag(), any_fault());
            let r = ctx.transaction().with(|sub| {
                for _ in 0..param("ops", 1) {
                    any_op(&sub, &mut o);
                }
                check(o.agrees(&sub), "reads see own and enclosing writes");
                if flag() {
                    std::mem::forget(sub);
                    cover("kept inside");
                }
                outcome(sub_ok, sub_why)
            });
            check(came_out(&r, sub_ok, sub_why), "the inner outcome is returned");
            if !sub_ok {
                o = outside;
            }
            check(o.agrees(&ctx), "a nested transaction takes effect if it commits");
            if flag() {
                std::mem::forget(ctx);
                cover("kept outside");
            }
            outcome(ok, why)
        });
        check(came_out(&r, ok, why), "the outcome is returned");
        if !ok {
            o = Obs { q: o.q, ..before };
        }
        settled(&s, &o, "the graph is the one the committed operations describe");
    }
    usable(&s, &mut o, "the schema is usable afterwards");
    cover("end");
}

/// A failed transaction over many operations leaves no trace.
pub fn rollback_long() {
    let n = param("n", 24);
    let (s, o) = schema(1);
    let (fail_at, why) = (spot(n), any_fault());
    let id = u8_();
    let r: Result<()> = s.transaction().with(|ctx| {
        for i in 0..n {
            if i % 3 == 2 {
                ctx.delete(id);
            } else {
                ctx.save(node(id, i as u8));
            }
            if i == fail_at {
                return Err(fault(why));
            }
        }
        Ok(())
    });
    check(came_out(&r, false, why), "fails");
    settled(&s, &o, "the graph is as it was");
    cover("end");
}

/// Inside a transaction, reads are those of the graph with the transaction's own writes applied.
pub fn overlay() {
    let (s, o) = schema(param("nodes", 2));
    let r: Result<()> = s.transaction().with(|ctx| {
        let mut m = o;
        check(m.agrees(&ctx), "starts from the committed graph");
        for _ in 0..param("ops", 3) {
            any_op(&ctx, &mut m);
            check(m.agrees(&ctx), "reads see the own writes");
            let p = ctx.node(m.q);
            check(p.is_virtual() != m.has(), "proxies see the own writes");
            check(p.try_deref().map(|n| n.val) == m.e, "proxies see the own writes");
            check(p.id == m.q, "the proxy keeps its id");
        }
        if m.has() {
            cover("present");
        } else {
            cover("absent");
        }
        Err(Error::Noop)
    });
    check(r.is_err(), "rolls back");
}

/// A window over many writes to few ids.
pub fn overlay_long() {
    let n = param("n", 40);
    let (s, o) = schema(1);
    let (a, b) = (u8_(), u8_());
    let at = spot(n);
    let r: Result<()> = s.transaction().with(|ctx| {
        let mut m = o;
        for i in 0..n {
            let id = if i == at { b } else { a };
            if i % 5 == 4 || i == at {
                ctx.delete(id);
                m.delete(id);
            } else {
                ctx.save(node(id, i as u8));
                m.save(id, i as u8);
            }
        }
        check(m.agrees(&ctx), "reads see the own writes");
        ctx.transaction().with(|sub| {
            check(m.agrees(&sub), "reads see the enclosing writes");
            Ok(())
        })?;
        Ok(())
    });
    check(r.is_ok(), "commits");
    cover("end");
}

/// An arbitrary program of writes and nested transactions, each of which commits or fails.
struct Levels {
    q: u8,
    base: Option<u8>,
    /// What each open level did to the observed id: nothing, or left it in a state.
    own: Vec<Option<Option<u8>>>,
}

impl Levels {
    fn see(&self) -> Obs {
        let e = self.own.iter().rev().find_map(|x| *x).unwrap_or(self.base);
        Obs { q: self.q, e }
    }
    fn put(&mut self, id: u8, v: Option<u8>) {
        if id == self.q {
            *self.own.last_mut().unwrap() = Some(v);
        }
    }
    fn close(&mut self, commit: bool) {
        let top = self.own.pop().unwrap();
        if commit && top.is_some() {
            match self.own.last_mut() {
                Some(up) => *up = top,
                None => self.base = top.unwrap(),
            }
        }
    }
}

fn program(ctx: &Context<'_, Node>, m: &mut Levels, fuel: &mut u32, depth: u32) -> Result<()> {
    while *fuel > 0 {
        *fuel -= 1;
        match pick(if depth > 0 { 5 } else { 4 }) {
            0 => {
                let (id, val) = (u8_(), u8_());
                ctx.save(node(id, val));
                m.put(id, Some(val));
            }
            1 => {
                let id = u8_();
                ctx.delete(id);
                m.put(id, None);
            }
            2 => return Ok(()),
            3 => return Err(fault(any_fault())),
            _ => {
                m.own.push(None);
                let r = ctx.transaction().with(|sub| {
                    check(m.see().agrees(&sub), "a nested transaction sees the enclosing view");
                    program(&sub, m, fuel, depth - 1)
                });
                m.close(r.is_ok());
                if r.is_ok() {
                    cover("inner commit");
                } else {
                    cover("inner failure");
                }
            }
        }
        check(m.see().agrees(ctx), "the view is own over enclosing over committed");
    }
    Ok(())
}

pub fn nested() {
    let (s, o) = schema(param("nodes", 1));
    let mut m = Levels { q: o.q, base: o.e, own: vec![None] };
    let mut fuel = param("fuel", 4);
    let depth = param("depth", 2);
    let r = s.transaction().with(|ctx| program(&ctx, &mut m, &mut fuel, depth));
    m.close(r.is_ok());
    settled(&s, &m.see(), "only what was committed at every level is applied");
    cover("end");
}

/// Sibling nested transactions do not see each other; both see what the parent does.
pub fn siblings() {
    let (s, o) = schema(1);
    let tx = s.transaction();
    let top = Context::from(&tx);
    let (ta, tb) = (top.transaction(), top.transaction());
    let (a, b) = (Context::from(&ta), Context::from(&tb));
    // [parent, a, b]
    let mut own = [None::<Option<u8>>; 3];
    for _ in 0..param("ops", 3) {
        let who = pick(3) as usize;
        let ctx = match who {
            0 => &top,
            1 => &a,
            _ => &b,
        };
        let id = u8_();
        let put = if flag() {
            let val = u8_();
            ctx.save(node(id, val));
            Some(val)
        } else {
            ctx.delete(id);
            None
        };
        if id == o.q {
            own[who] = Some(put);
        }
        let up = own[0].unwrap_or(o.e);
        check(Obs { q: o.q, e: up }.agrees(&top), "the parent does not see open children");
        check(Obs { q: o.q, e: own[1].unwrap_or(up) }.agrees(&a), "a child sees own over parent");
        check(Obs { q: o.q, e: own[2].unwrap_or(up) }.agrees(&b), "a child sees own over parent");
    }
    drop((a, b));
    drop((ta, tb));
    drop(top);
    drop(tx);
    settled(&s, &o, "contexts that were never committed leave no trace");
    cover("end");
}

/// A nested transaction opened and closed on the parent while a sibling is still open.
pub fn interleaved_siblings() {
    let (s, o) = schema(1);
    let (x, y, z) = ((u8_(), u8_()), (u8_(), u8_()), (u8_(), u8_()));
    let (b_ok, a_ok, top_ok) = (flag(), flag(), flag());
    let why = any_fault();
    let mut top_m = o;
    let r: Result<()> = s.transaction().with(|top| {
        let ra: Result<()> = top.transaction().with(|a| {
            a.save(node(x.0, x.1));
            let rb: Result<()> = top.transaction().with(|b| {
                let mut m = o;
                check(m.agrees(&b), "a sibling's open writes are invisible");
                b.save(node(y.0, y.1));
                m.save(y.0, y.1);
                check(m.agrees(&b), "own writes are visible");
                outcome(b_ok, why)
            });
            check(came_out(&rb, b_ok, why), "result");
            if b_ok {
                top_m.save(y.0, y.1);
            }
            check(top_m.agrees(&top), "the parent sees exactly the committed child");
            let mut m = top_m;
            m.save(x.0, x.1);
            check(m.agrees(&a), "own writes stay over the parent's");
            a.delete(z.0);
            outcome(a_ok, why)
        });
        check(came_out(&ra, a_ok, why), "result");
        if a_ok {
            top_m.save(x.0, x.1);
            top_m.delete(z.0);
        }
        check(top_m.agrees(&top), "the parent sees exactly the committed children");
        outcome(top_ok, why)
    });
    check(r.is_ok() == top_ok, "result");
    settled(&s, if top_ok { &top_m } else { &o }, "the graph holds what was committed");
    cover("end");
}

/// A panic inside a transaction, at any point and depth, discards it and nothing else.
pub fn panics() {
    let (s, o) = schema(param("nodes", 1));
    let depth = param("depth", 2);
    let boom = pick(depth as u8 + 2); // the level that panics; none if beyond the last
    let catch_at = pick(depth as u8 + 1); // the level whose inner panic is caught
    let late = flag();

    fn go(ctx: &Context<'_, Node>, m: &mut Obs, lvl: u8, depth: u8, boom: u8, catch_at: u8, late: bool) -> Result<()> {
        if boom == lvl && !late {
            panic!("boom");
        }
        any_op(ctx, m);
        if lvl == catch_at && param("elsewhere", 0) > 0 {
            // A panic that has nothing to do with this transaction.
            let other = Schema::from(Graph::<Node>::default());
            let r = match pick(3) {
                0 => Some(()),
                1 => caught(|| panic!("elsewhere")),
                _ => caught(|| {
                    let _ = other.transaction().with(|ctx| -> Result<()> {
                        ctx.save(node(1, 1));
                        panic!("elsewhere")
                    });
                }),
            };
            check(m.agrees(ctx), "a panic elsewhere changes nothing here");
            if r.is_none() {
                cover("elsewhere");
            }
        }
        if lvl < depth {
            let saved = *m;
            let mut inner = || ctx.transaction().with(|sub| go(&sub, m, lvl + 1, depth, boom, catch_at, late));
            if catch_at == lvl {
                if caught(&mut inner).is_none() {
                    *m = saved;
                    cover("caught inside");
                }
                check(m.agrees(ctx), "after an inner panic the outer view is its own");
                any_op(ctx, m);
            } else {
                inner()?;
            }
        }
        if boom == lvl && late {
            panic!("boom");
        }
        Ok(())
    }

    let mut m = o;
    let r = caught(|| s.transaction().with(|ctx| go(&ctx, &mut m, 0, depth as u8, boom, catch_at, late)));
    let mut end = match r {
        None => {
            cover("panicked");
            o
        }
        Some(r) => {
            check(r.is_ok(), "commits");
            m
        }
    };
    settled(&s, &end, "a panicking transaction leaves no trace, others are unaffected");
    usable(&s, &mut end, "the schema is usable after a panic");
}

/// A panic while the graph itself is being accessed for writing does not lock others out.
pub fn panic_in_guard() {
    let (s, mut o) = schema(1);
    let (id, val) = (u8_(), u8_());
    let write = flag();
    let r = caught(|| {
        if write {
            let mut g = s.write();
            g.insert(node(id, val));
            panic!("boom");
        } else {
            let _g = s.read();
            panic!("boom");
        }
    });
    check(r.is_none(), "panicked");
    if write {
        o.save(id, val);
    }
    settled(&s, &o, "what was written before the panic is kept");
    usable(&s, &mut o, "the schema is usable after a panic");
    cover("end");
}

/// A deep chain of nested transactions, one of which may fail or panic, and one of which may carry
/// on after what it encloses did.
pub fn deep() {
    #[derive(Clone, Copy)]
    struct Plan {
        depth: u8,
        fail: u8,
        carry: u8,
        panics: bool,
        at: u8,
        why: u8,
    }
    fn go(ctx: &Context<'_, Node>, m: &mut Obs, lvl: u8, p: Plan) -> Result<()> {
        check(m.agrees(ctx), "a nested transaction starts from the enclosing view");
        ctx.save(node(lvl, lvl));
        m.save(lvl, lvl);
        if lvl == p.at {
            any_op(ctx, m);
        }
        if lvl % 5 == 4 {
            ctx.delete(lvl - 2);
            m.delete(lvl - 2);
        }
        if lvl == p.fail {
            if p.panics {
                panic!("boom");
            }
            return Err(fault(p.why));
        }
        if lvl < p.depth {
            let saved = *m;
            let inner = caught(|| ctx.transaction().with(|sub| go(&sub, m, lvl + 1, p)));
            match inner {
                Some(Ok(())) => {}
                _ if lvl == p.carry => *m = saved,
                Some(Err(e)) => return Err(e),
                None => panic!("boom"),
            }
            check(m.agrees(ctx), "what commits is visible outside, what does not is not");
            if lvl % 3 == 0 {
                ctx.save(node(lvl, 99));
                m.save(lvl, 99);
            }
        }
        check(m.agrees(ctx), "reads see own, enclosed and enclosing writes");
        Ok(())
    }
    let (s, o) = schema(1);
    let depth = param("depth", 8) as u8;
    let any = |n: u8| spot(n as u32) as u8;
    let p = Plan { depth, fail: any(depth + 2), carry: any(depth + 1), panics: flag(), at: any(depth + 1), why: any_fault() };
    let mut m = o;
    let r = caught(|| s.transaction().with(|ctx| go(&ctx, &mut m, 0, p)));
    let ok = matches!(r, Some(Ok(())));
    check(ok == (p.fail > depth || p.carry < p.fail), "fails if, and only if, nobody carries on");
    if let Some(Err(e)) = &r {
        check(code(e) == p.why, "the error comes out");
    }
    settled(&s, if ok { &m } else { &o }, "the graph holds what was committed at every level");
    cover(if ok { "committed" } else { "failed" });
}

/// Many transactions one after the other, some of which fail, one of them at an arbitrary place.
pub fn many() {
    let (s, mut o) = schema(1);
    let n = param("n", 30) as u8;
    let odd = spot(n as u32) as u8;
    let (how, why) = (pick(3), any_fault());
    for i in 0..n {
        let mut m = o;
        let r = caught(|| {
            s.transaction().with(|ctx| {
                check(m.agrees(&ctx), "starts from what was committed before");
                ctx.save(node(i % 7, i));
                m.save(i % 7, i);
                if i % 4 == 1 {
                    ctx.transaction().with(|sub| {
                        sub.delete(i % 5);
                        Ok(())
                    })?;
                    m.delete(i % 5);
                }
                if i == odd {
                    any_op(&ctx, &mut m);
                    match how {
                        0 => {}
                        1 => return Err(fault(why)),
                        _ => panic!("boom"),
                    }
                }
                if i % 6 == 5 {
                    return Err(Error::Noop);
                }
                Ok(i)
            })
        });
        let fails = i % 6 == 5 || (i == odd && how > 0);
        check(matches!(r, Some(Ok(x)) if x == i) != fails, "commits unless it fails");
        if !fails {
            o = m;
        }
        settled(&s, &o, "each transaction applies as a whole, or not at all");
    }
    cover("end");
}

/// A node with parts of its own on the heap, and identifiers of any length.
#[derive(Clone, Debug, PartialEq)]
struct Rich {
    id: String,
    val: Vec<u8>,
}

impl Identify for Rich {
    type Id = String;

    fn id(&self) -> &String {
        &self.id
    }
}

fn text() -> String {
    let n = pick(3);
    let mut s = String::new();
    for _ in 0..n {
        let b = u8_();
        assume(b < 0x80);
        s.push(b as char);
    }
    s
}

fn bytes() -> Vec<u8> {
    let n = pick(2);
    (0..n).map(|_| u8_()).collect()
}

type Riches = Vec<Rich>;

fn put(m: &mut Riches, id: &str, val: Option<Vec<u8>>) {
    m.retain(|n| n.id != id);
    if let Some(val) = val {
        m.push(Rich { id: id.into(), val });
    }
}

fn rich_agrees<S: Source<Node = Rich>>(s: &S, m: &Riches, q: &String) -> bool {
    let got = s.get(q);
    let want = m.iter().find(|n| n.id == *q);
    s.contains(q) == want.is_some()
        && match (&got, want) {
            (Some(g), Some(w)) => g == w,
            (None, None) => true,
            _ => false,
        }
}

/// The same for nodes that own memory, under identifiers of their own kind.
pub fn rich() {
    let q = text();
    let mut m: Riches = vec![];
    let mut g = plotline::graph::Graph::default();
    for _ in 0..param("nodes", 1) {
        let (id, val) = (text(), bytes());
        put(&mut m, &id, Some(val.clone()));
        g = g.with_node(Rich { id, val });
    }
    let s = Schema::from(g);
    let before = m.clone();
    let (nested, inner_ok, outer_ok) = (flag(), flag(), flag());
    let why = any_fault();
    let step = |ctx: &Context<'_, Rich>, m: &mut Riches| {
        let id = text();
        if flag() {
            let val = bytes();
            ctx.save(Rich { id: id.clone(), val: val.clone() });
            put(m, &id, Some(val));
        } else {
            ctx.delete(id.clone());
            put(m, &id, None);
        }
        check(rich_agrees(ctx, m, &q), "reads see the own writes");
    };
    let r: Result<()> = s.transaction().with(|ctx| {
        for _ in 0..param("ops", 1) {
            step(&ctx, &mut m);
        }
        if nested {
            let saved = m.clone();
            let r: Result<()> = ctx.transaction().with(|sub| {
                step(&sub, &mut m);
                outcome(inner_ok, why)
            });
            check(r.is_ok() == inner_ok, "result");
            if !inner_ok {
                m = saved;
            }
            check(rich_agrees(&ctx, &m, &q), "a nested transaction counts if it commits");
        }
        outcome(outer_ok, why)
    });
    check(r.is_ok() == outer_ok, "result");
    let want = if outer_ok { &m } else { &before };
    let g = s.read();
    check(rich_agrees(&*g, want, &q), "the graph holds what was committed");
    let all: Vec<&Rich> = g.into_iter().collect();
    check(all.len() == want.len() && all.windows(2).all(|w| w[0].id < w[1].id), "each id is held once");
    cover("end");
}
