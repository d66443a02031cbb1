//! Long runs, of more nodes, writes, triggers, edges and levels than fit in a byte. All of it is
//! concrete but for one place, or a few, where anything may happen.

use crate::{model::*, sym::*};
use plotline::{
    graph::{Graph, Source},
    prelude::*,
    property::Property,
    schema::{
        ops::{delete::Delete, save::Save},
        transaction::Context,
    },
};
use std::{cell::Cell, rc::Rc};

#[derive(Clone, PartialEq, Debug)]
struct Wide {
    id: u32,
    val: u32,
}

impl Identify for Wide {
    type Id = u32;

    fn id(&self) -> &u32 {
        &self.id
    }
}

fn wide(id: u32, val: u32) -> Wide {
    Wide { id, val }
}

/// The graph holds exactly that, in order.
fn holds<'a>(g: &Graph<Wide>, want: impl Iterator<Item = (u32, u32)>) -> bool {
    let mut good = true;
    let mut want = want;
    for n in g {
        good &= want.next() == Some((n.id, n.val));
    }
    good & want.next().is_none()
}

/// Many writes, most of them to ids of their own, in a transaction that commits or fails as a
/// whole, part of it nested or not; one of them is arbitrary.
pub fn commit() {
    let (n, k) = (param("n", 300), param("ids", 0));
    let k = if k == 0 { n } else { k };
    let s = Schema::from(Graph::from_iter((0..k).step_by(3).map(|i| wide(i, 9_000_000 + i))));
    let mut m: Vec<Option<u32>> = (0..k).map(|i| (i % 3 == 0).then_some(9_000_000 + i)).collect();
    let before = m.clone();
    let (at, id, val, del) = (spot(n), spot(k), u8_() as u32, flag());
    // What is nested: nothing, the end, or all of it; and what fails.
    let nested = each(pick(3));
    let (ok, why) = (flag(), any_fault());
    let mut body = |ctx: &Context<'_, Wide>, from: u32, to: u32| {
        for i in from..to {
            let x = i * 7 % k;
            if i % 5 == 4 {
                ctx.delete(x);
                m[x as usize] = None;
            } else {
                ctx.save(wide(x, i));
                m[x as usize] = Some(i);
            }
            if i == at {
                if del {
                    ctx.delete(id);
                    m[id as usize] = None;
                } else {
                    ctx.save(wide(id, val));
                    m[id as usize] = Some(val);
                }
            }
        }
    };
    let r: Result<()> = s.transaction().with(|ctx| {
        let split = [n, n / 4, 0][nested as usize];
        body(&ctx, 0, split);
        if nested > 0 {
            ctx.transaction().with(|sub| {
                body(&sub, split, n);
                Ok(())
            })?;
        }
        outcome(ok, why)
    });
    check(came_out(&r, ok, why), "the outcome is returned");
    let want = if ok { m } else { before };
    check(
        holds(&s.read(), want.iter().enumerate().filter_map(|(i, v)| v.map(|v| (i as u32, v)))),
        "the graph is the one the operations describe, or as it was",
    );
    cover(if ok { "committed" } else { "failed" });
}

/// What a transaction sees in between many writes.
pub fn overlay() {
    let (n, k) = (param("n", 300), param("ids", 16));
    let s = Schema::from(Graph::from_iter((0..k).step_by(2).map(|i| wide(i, 9_000_000 + i))));
    let q = spot(k);
    let mut e = (q % 2 == 0).then_some(9_000_000 + q);
    let (at, id, val, del) = (spot(n), spot(k), u8_() as u32, flag());
    let nested = each(pick(2));
    let good = |ctx: &Context<'_, Wide>, e: Option<u32>| {
        ctx.get(&q).map(|n| n.val) == e && ctx.contains(&q) == e.is_some() && ctx.node(q).try_deref().map(|n| n.val) == e
    };
    let mut body = |ctx: &Context<'_, Wide>, from: u32, to: u32| {
        for i in from..to {
            let mut ops = vec![(i * 7 % k, i % 5 == 4, i)];
            if i == at {
                ops.push((id, del, val));
            }
            for (x, del, val) in ops {
                if del {
                    ctx.delete(x);
                } else {
                    ctx.save(wide(x, val));
                }
                if x == q {
                    e = (!del).then_some(val);
                }
            }
            if i == at || i % 50 == 49 || i + 2 > to {
                check(good(ctx, e), "reads see own and enclosing writes");
            }
        }
    };
    let r: Result<()> = s.transaction().with(|ctx| {
        if nested == 0 {
            body(&ctx, 0, n);
            return Ok(());
        }
        body(&ctx, 0, n / 2);
        ctx.transaction().with(|sub| {
            body(&sub, n / 2, n);
            Ok(())
        })
    });
    check(r.is_ok(), "commits");
    check(s.read().get(&q).map(|n| n.val) == e, "what was seen last is committed");
    cover("end");
}

/// Transactions nested to any depth, each writing on the way in and on the way out; one of them
/// fails, and one of those around it may carry on.
pub fn deep() {
    struct Plan {
        n: u32,
        fail_at: u32,
        carry: u32,
        why: u8,
    }
    // The state of the one id all levels write, and whether the level failed.
    fn go(p: &Plan, ctx: &Context<'_, Wide>, level: u32, last: &mut Option<u32>) -> Result<()> {
        let before = *last;
        let r = ctx.transaction().with(|sub| {
            check(sub.get(&0).map(|n| n.val) == *last, "a nested transaction starts from the enclosing view");
            sub.save(wide(0, level));
            sub.save(wide(level + 1, level));
            *last = Some(level);
            if level + 1 < p.n {
                let r = go(p, &sub, level + 1, last);
                if level != p.carry {
                    r?;
                }
            }
            check(sub.get(&0).map(|n| n.val) == *last, "reads see own and enclosing writes, and those of what committed");
            if level % 3 == 2 {
                sub.delete(0);
                *last = None;
            }
            outcome(level != p.fail_at, p.why)
        });
        if r.is_err() {
            *last = before;
        }
        r
    }
    let n = param("n", 64);
    let p = Plan { n, fail_at: spot(n + 1), carry: spot(n + 1), why: any_fault() };
    let s = Schema::from(Graph::<Wide>::default());
    let mut last = None;
    let r: Result<()> = s.transaction().with(|ctx| go(&p, &ctx, 0, &mut last));
    let saved = p.fail_at == n || p.carry < p.fail_at;
    check(came_out(&r, saved, p.why), "a failure reaches the one that carries on");
    let kept = if !saved {
        0
    } else if p.fail_at == n {
        n
    } else {
        p.carry + 1
    };
    let mut want: Vec<_> = (0..kept).map(|l| (l + 1, l)).collect();
    if let (true, Some(v)) = (saved, last) {
        want.insert(0, (0, v));
    }
    check(holds(&s.read(), want.into_iter()), "each level takes effect if, and only if, all around it commit");
    cover(if saved { "committed" } else { "failed" });
}

/// Many operations and transactions, one after the other.
pub fn many() {
    let n = param("n", 300);
    let k = 50;
    let s = Schema::from(Graph::<Wide>::default())
        .with_trigger(BeforeSave, |_: Ctx<Wide>| Ok(()))
        .with_trigger(AfterDelete, |_: Ctx<Wide>| Ok(()));
    let mut m: Vec<Option<u32>> = vec![None; k as usize];
    let (at, id, val, del) = (spot(n), spot(k), u8_() as u32, flag());
    for i in 0..n {
        let mut ops = vec![(i * 7 % k, i % 5 == 4, i)];
        if i == at {
            ops.push((id, del, val));
        }
        for (x, del, val) in ops {
            let had = &mut m[x as usize];
            if i % 11 == 10 {
                let r: Result<()> = s.transaction().with(|ctx| {
                    ctx.save(wide(x, val));
                    ctx.delete(i);
                    Err(Error::Noop)
                });
                check(r.is_err(), "a failure is returned");
            } else if del {
                let r = Delete::new(x).execute(s.transaction());
                check(r.is_ok() == had.is_some(), "deletes if, and only if, there is something to delete");
                *had = None;
            } else {
                check(Save::new(wide(x, val)).execute(s.transaction()).is_ok(), "saves");
                *had = Some(val);
            }
        }
    }
    check(
        holds(&s.read(), m.iter().enumerate().filter_map(|(i, v)| v.map(|v| (i as u32, v)))),
        "the graph is the one the operations describe",
    );
    cover("end");
}

/// Many triggers, one of another schedule, one failing.
pub fn dispatch() {
    struct Other;
    let n = param("n", 300);
    let (stray, fail_at, why) = (spot(n), spot(n + 1), any_fault());
    let next = Rc::new(Cell::new(0));
    let mut s = Schema::from(Graph::<Wide>::default());
    for i in 0..n {
        let next = next.clone();
        let t = move |ctx: Ctx<Wide>| {
            if next.get() == stray {
                next.set(stray + 1);
            }
            check(next.get() == i && i != stray, "in order, each once, and none of another schedule");
            next.set(i + 1);
            ctx.transaction().with(|sub| {
                sub.save(wide(i, i));
                Ok(())
            })?;
            outcome(i != fail_at, why)
        };
        s = if i == stray { s.with_trigger(Other, t) } else { s.with_trigger(AfterSave, t) };
    }
    let r = Save::new(wide(n, 0)).execute(s.transaction());
    let stops = fail_at < n && fail_at != stray;
    check(came_out(&r, !stops, why), "fails if, and only if, a trigger does");
    let end = if stops { fail_at + 1 } else { n };
    check(next.get() == end || !stops && stray + 1 == n && next.get() == stray, "none runs after a failure, all do without one");
    let want = (0..=n).filter(|i| !stops && *i != stray).map(|i| (i, if i == n { 0 } else { i }));
    check(holds(&s.read(), want), "what the triggers wrote is applied with the operation, or not at all");
    cover(if stops { "failed" } else { "done" });
}

/// A graph collected from many nodes, ids repeated, and changed in many places.
pub fn graph() {
    let (n, k) = (param("n", 300), param("ids", 40));
    let (at, id) = (spot(n), spot(k));
    let ids: Vec<u32> = (0..n).map(|i| if i == at { id } else { (i * 11 + i / k) % k }).collect();
    let mut m: Vec<Option<u32>> = vec![None; k as usize];
    let mut g = if flag() {
        for (i, id) in ids.iter().enumerate() {
            m[*id as usize] = Some(i as u32);
        }
        cover("collected");
        Graph::from_iter(ids.iter().enumerate().map(|(i, id)| wide(*id, i as u32)))
    } else if flag() {
        for (i, id) in ids.iter().enumerate() {
            m[*id as usize] = Some(i as u32);
        }
        cover("chained");
        ids.iter().enumerate().fold(Graph::default(), |g, (i, id)| g.with_node(wide(*id, i as u32)))
    } else {
        let mut g = Graph::default();
        for (i, id) in ids.iter().enumerate() {
            let old = g.insert(wide(*id, i as u32));
            check(old == m[*id as usize].map(|v| wide(*id, v)), "insert returns the replaced node");
            m[*id as usize] = Some(i as u32);
            if i % 6 == 5 {
                let id = i as u32 * 13 % k;
                let old = g.remove(&id);
                check(old == m[id as usize].map(|v| wide(id, v)), "remove returns the removed node");
                m[id as usize] = None;
            }
        }
        cover("changed");
        g
    };
    let gone = spot(k);
    check(g.remove(&gone) == m[gone as usize].map(|v| wide(gone, v)), "remove returns the removed node");
    m[gone as usize] = None;
    check(g.remove(&gone).is_none() && g.remove(&k).is_none(), "nothing to remove");
    let all = (0..k).all(|i| g.get(&i).map(|n| n.val) == m[i as usize] && g.contains(&i) == m[i as usize].is_some());
    check(all, "each id has the node last inserted with it");
    check(
        holds(&g, m.iter().enumerate().filter_map(|(i, v)| v.map(|v| (i as u32, v)))),
        "iteration goes by ascending id, once each",
    );
}

/// The edges of a wide node lead from its id up.
struct Up(u32);

impl Identify for Up {
    type Id = u32;

    fn id(&self) -> &u32 {
        &self.0
    }
}

impl Property<Wide> for Up {
    fn all(source: &Wide) -> Vec<Self> {
        // Some of them twice in a row, some again later on.
        (0..source.val).map(|i| Up(if i % 10 == 9 { i / 2 } else { i / 3 * 3 })).collect()
    }
}

/// A node with many edges.
pub fn edges() {
    let n = param("n", 300);
    let (at, many) = (spot(n), u8_() as u32);
    assume(many < 4);
    let s = Schema::from(Graph::from_iter((0..n).map(|i| wide(i, if i == at { many } else { n - i }))));
    let g = s.read();
    for from in [0, at] {
        let p = g.node(from);
        let next = p.successors::<Up>();
        let want = Up::all(&g.get(&from).unwrap());
        check(next.len() == want.len(), "one successor for each edge");
        check(next.iter().zip(&want).all(|(p, w)| p.id == w.0), "in the order the node gives them");
        let found = next.iter().all(|p| p.try_deref().map(|x| (x.id, x.val)) == Some((p.id, if p.id == at { many } else { n - p.id })));
        check(found, "each resolves to the node with its id");
    }
    cover("end");
}
