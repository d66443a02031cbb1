//! Threads: transactions on one schema, and lazy values, under every schedule within the
//! preemption bound.

use std::sync::{
    atomic::{AtomicU8, Ordering},
    Arc,
};

use crate::{data::Doc, model::*, sym::*};
use plotline::{
    document::{lazy::LazyDocument, DocumentRepository},
    graph::{Graph, NodeProxy, Source},
    prelude::*,
    schema::ops::{delete::Delete, save::Save},
};

/// A schema whose resources and triggers (there are none, or they are plain data) are safe to
/// share, which the type system cannot see through `dyn Any`.
struct Shared(Schema<Node>);

// SAFETY: see above; everything else in a schema is behind its locks.
unsafe impl Send for Shared {}
unsafe impl Sync for Shared {}

fn shared(nodes: &[(u8, u8)]) -> Arc<Shared> {
    Arc::new(Shared(Schema::from(Graph::from_iter(nodes.iter().map(|n| node(n.0, n.1))))))
}

fn at(s: &impl Source<Node = Node>, id: u8) -> Option<u8> {
    s.get(&id).map(|n| n.val)
}

type Job = Box<dyn FnOnce() + Send>;

/// Readers see all of a transaction or none of it.
pub fn atomic() {
    let (a, b) = (u8_(), u8_());
    let (va, vb, wa, wb) = (u8_(), u8_(), u8_(), u8_());
    assume(a != b);
    let nested = param("nested", 0) > 0 && flag();
    let (commit, why) = (flag(), any_fault());
    let s = shared(&[(a, va), (b, vb)]);
    let (s1, s2) = (s.clone(), s.clone());
    let writer = move || {
        let r: Result<()> = s1.0.transaction().with(|ctx| {
            ctx.save(node(a, wa));
            if nested {
                ctx.transaction().with(|sub| {
                    sub.save(node(b, wb));
                    Ok(())
                })?;
            } else {
                ctx.save(node(b, wb));
            }
            yield_();
            outcome(commit, why)
        });
        check(came_out(&r, commit, why), "result");
    };
    let reader = move || {
        let g = s2.0.read();
        let x = at(&*g, a);
        yield_();
        let y = at(&*g, b);
        let old = (x == Some(va)) & (y == Some(vb));
        let new = (x == Some(wa)) & (y == Some(wb));
        check(old | (new & commit), "a reader sees all of a committed transaction or none of it");
        check((at(&*g, a) == x) & (at(&*g, b) == y), "what a reader holds does not change under it");
    };
    threads(vec![Box::new(writer) as Job, Box::new(reader) as Job]);
    let g = s.0.read();
    check(
        if commit { (at(&*g, a) == Some(wa)) & (at(&*g, b) == Some(wb)) } else { (at(&*g, a) == Some(va)) & (at(&*g, b) == Some(vb)) },
        "what was committed is there",
    );
    cover("end");
}

/// Read-modify-write transactions do not lose each other's updates.
pub fn rmw() {
    let (a, v) = (u8_(), u8_());
    let n = param("threads", 2);
    let s = shared(&[(a, v)]);
    let mut jobs: Vec<Job> = vec![];
    let mut sum = v;
    for _ in 0..n {
        let d = u8_();
        let (keep, why) = (flag(), any_fault());
        if keep {
            sum = sum.wrapping_add(d);
        }
        let s = s.clone();
        jobs.push(Box::new(move || {
            let r: Result<()> = s.0.transaction().with(|ctx| {
                let now = at(&ctx, a).unwrap_or(0);
                yield_();
                ctx.save(node(a, now.wrapping_add(d)));
                check(at(&ctx, a) == Some(now.wrapping_add(d)), "a transaction reads its own writes");
                outcome(keep, why)
            });
            check(came_out(&r, keep, why), "result");
        }));
    }
    threads(jobs);
    check(at(&*s.0.read(), a) == Some(sum), "no update is lost, none is invented");
    cover("end");
}

/// Saves and deletes from several threads happen in some order, each as a whole.
pub fn operations() {
    let (a, v, w) = (u8_(), u8_(), u8_());
    let there = flag();
    let s = Arc::new(Shared(
        Schema::from(if there { Graph::from_iter([node(a, v)]) } else { Graph::default() })
            .with_resource(0u8)
            .with_trigger(AfterSave, |_: Ctx<'_, Node>, n: Res<u8>| {
                n.with_mut(|n| *n += 1);
                Ok(())
            })
            .with_trigger(AfterDelete, |_: Ctx<'_, Node>, n: Res<u8>| {
                n.with_mut(|n| *n += 16);
                Ok(())
            }),
    ));
    let (s1, s2) = (s.clone(), s.clone());
    let deleted = Arc::new(AtomicU8::new(2));
    let del = deleted.clone();
    threads(vec![
        Box::new(move || {
            check(Save::new(node(a, w)).execute(s1.0.transaction()).is_ok(), "saves");
        }) as Job,
        Box::new(move || {
            let r = Delete::new(a).execute(s2.0.transaction());
            del.store(r.is_ok() as u8, Ordering::SeqCst);
        }) as Job,
    ]);
    let deleted = deleted.load(Ordering::SeqCst) == 1;
    let end = at(&*s.0.read(), a);
    // Save first: the delete finds it, and it is gone. Delete first: it is there at the end, and
    // the delete found what was there before.
    let save_first = deleted & end.is_none();
    let delete_first = (deleted == there) & (end == Some(w));
    check(save_first | delete_first, "the outcome is that of one of the two orders");
    let n = Res::<u8>::from(s.0.resources()).with(|n| *n);
    check(n == Some(1 + if deleted { 16 } else { 0 }), "each operation ran its triggers once");
    if save_first {
        cover("save first");
    }
    if delete_first {
        cover("delete first");
    }
}

/// A transaction that panics in one thread neither blocks the others nor leaks into them.
pub fn panics() {
    let (a, v, w, x) = (u8_(), u8_(), u8_(), u8_());
    let s = shared(&[(a, v)]);
    let (s1, s2) = (s.clone(), s.clone());
    threads(vec![
        Box::new(move || {
            let r = caught(|| {
                let _: Result<()> = s1.0.transaction().with(|ctx| {
                    ctx.save(node(a, w));
                    yield_();
                    panic!("boom")
                });
            });
            check(r.is_none(), "panicked");
        }) as Job,
        Box::new(move || {
            let r: Result<()> = s2.0.transaction().with(|ctx| {
                check(at(&ctx, a) == Some(v), "a panicking transaction is invisible to others");
                ctx.save(node(a, x));
                Ok(())
            });
            check(r.is_ok(), "commits");
        }) as Job,
    ]);
    check(at(&*s.0.read(), a) == Some(x), "only the committed transaction is applied");
    cover("end");
}

/// A transaction waits for readers, and the other way round.
pub fn guards() {
    let (a, v, w) = (u8_(), u8_(), u8_());
    let s = shared(&[(a, v)]);
    let (s1, s2) = (s.clone(), s.clone());
    let writer = flag();
    let inside = Arc::new(AtomicU8::new(0));
    let (i1, i2) = (inside.clone(), inside.clone());
    threads(vec![
        Box::new(move || {
            let r: Result<()> = s1.0.transaction().with(|ctx| {
                check(i1.fetch_add(1, Ordering::SeqCst) == 0, "a transaction excludes guards");
                yield_();
                ctx.save(node(a, w));
                i1.fetch_sub(1, Ordering::SeqCst);
                Ok(())
            });
            check(r.is_ok(), "commits");
        }) as Job,
        Box::new(move || {
            if writer {
                let mut g = s2.0.write();
                check(i2.fetch_add(1, Ordering::SeqCst) == 0, "a guard excludes transactions");
                let old = g.remove(&a).map(|n| n.val);
                yield_();
                check((old == Some(v)) | (old == Some(w)), "a guard sees committed nodes");
                g.insert(node(a, v));
                i2.fetch_sub(1, Ordering::SeqCst);
            } else {
                let g = s2.0.read();
                check(i2.fetch_add(1, Ordering::SeqCst) == 0, "a guard excludes transactions");
                yield_();
                let now = at(&*g, a);
                check((now == Some(v)) | (now == Some(w)), "a guard sees committed nodes");
                i2.fetch_sub(1, Ordering::SeqCst);
            }
        }) as Job,
    ]);
    let end = at(&*s.0.read(), a);
    check((end == Some(w)) | (writer & (end == Some(v))), "what was committed is there");
    cover("end");
}

// -- lazy values ----------------------------------------------------------------------------------

struct Repo {
    doc: Option<(u8, u8)>,
    asked: AtomicU8,
}

impl DocumentRepository for Repo {
    type Document = Doc;

    fn find_by_id(&self, id: &u8) -> Option<Doc> {
        self.asked.fetch_add(1, Ordering::SeqCst);
        yield_();
        self.doc.filter(|d| d.0 == *id).map(|d| Doc { id: d.0, body: d.1 })
    }
}

/// Threads loading one lazy document all get it, whoever comes first.
pub fn lazy() {
    let (id, at, body) = (u8_(), u8_(), u8_());
    let repo = Arc::new(Repo { doc: if flag() { Some((at, body)) } else { None }, asked: AtomicU8::new(0) });
    let there = repo.doc.is_some() && at == id;
    let doc = Arc::new(LazyDocument::builder(repo.clone())(id));
    let jobs: Vec<Job> = (0..param("threads", 2))
        .map(|_| {
            let doc = doc.clone();
            Box::new(move || {
                let got = doc.try_deref().map(|d| (d.id, d.body));
                check(
                    match got {
                        Some(d) => there & (d.0 == id) & (d.1 == body),
                        None => !there,
                    },
                    "every thread gets the document, if there is one",
                );
                check(doc.try_deref().map(|d| (d.id, d.body)) == got, "and keeps getting it");
            }) as Job
        })
        .collect();
    threads(jobs);
    let n = repo.asked.load(Ordering::SeqCst);
    check(doc.try_deref().is_some() == there, "resolves if, and only if, there is one");
    if there {
        check(repo.asked.load(Ordering::SeqCst) == n, "a loaded document is not loaded again");
        cover("there");
    } else {
        cover("missing");
    }
}

struct Nodes {
    node: Option<(u8, u8)>,
    asked: AtomicU8,
}

impl Source for Nodes {
    type Node = Node;

    fn get(&self, id: &u8) -> Option<Node> {
        self.asked.fetch_add(1, Ordering::SeqCst);
        yield_();
        self.node.filter(|n| n.0 == *id).map(|n| node(n.0, n.1))
    }

    fn contains(&self, id: &u8) -> bool {
        self.node.is_some_and(|n| n.0 == *id)
    }
}

/// Threads resolving one proxy all see the same, and the source is asked once.
pub fn proxy() {
    let (id, at, val) = (u8_(), u8_(), u8_());
    let src: &'static Nodes = Box::leak(Box::new(Nodes { node: if flag() { Some((at, val)) } else { None }, asked: AtomicU8::new(0) }));
    let there = src.node.is_some() && at == id;
    let p = Arc::new(NodeProxy::new(src, id));
    let jobs: Vec<Job> = (0..param("threads", 2))
        .map(|_| {
            let p = p.clone();
            Box::new(move || {
                let got = p.try_deref().map(|n| n.val);
                check(
                    match got {
                        Some(v) => there & (v == val),
                        None => !there,
                    },
                    "every thread resolves to the node, if there is one",
                );
            }) as Job
        })
        .collect();
    threads(jobs);
    check(src.asked.load(Ordering::SeqCst) == 1, "the source is asked once");
    cover("end");
}

/// What a transaction reads stays what it reads until it ends, whatever others do meanwhile.
pub fn isolated() {
    let (a, b, v, w) = (u8_(), u8_(), u8_(), u8_());
    let s = shared(&[(a, v)]);
    let (s1, s2) = (s.clone(), s.clone());
    let (nested, how) = (flag(), pick(4));
    let seen = Arc::new(AtomicU8::new(0));
    let out = seen.clone();
    threads(vec![
        Box::new(move || {
            let r: Result<()> = s1.0.transaction().with(|ctx| {
                let (x, n) = (at(&ctx, a), ctx.contains(&b));
                yield_();
                check((at(&ctx, a) == x) & (ctx.contains(&b) == n), "reads are repeatable");
                if nested {
                    ctx.transaction().with(|sub| {
                        check((at(&sub, a) == x) & (sub.contains(&b) == n), "reads are repeatable in nested transactions");
                        yield_();
                        check((at(&sub, a) == x) & (sub.contains(&b) == n), "reads are repeatable in nested transactions");
                        Ok(())
                    })?;
                }
                check((at(&ctx, a) == x) & (ctx.contains(&b) == n), "reads are repeatable");
                out.store(if x == Some(v) { 1 } else { 2 }, Ordering::SeqCst);
                Ok(())
            });
            check(r.is_ok(), "commits");
        }) as Job,
        Box::new(move || match how {
            0 => {
                let r: Result<()> = s2.0.transaction().with(|ctx| {
                    ctx.delete(a);
                    ctx.save(node(b, w));
                    Ok(())
                });
                check(r.is_ok(), "commits");
            }
            1 => check(Save::new(node(b, w)).execute(s2.0.transaction()).is_ok(), "saves"),
            2 => check(Delete::new(a).execute(s2.0.transaction()).is_ok(), "deletes"),
            _ => {
                s2.0.write().insert(node(b, w));
            }
        }) as Job,
    ]);
    let g = s.0.read();
    let mut end = if how == 0 || how == 2 { None } else { Some(v) };
    if how != 2 && a == b {
        end = Some(w);
    }
    check(at(&*g, a) == end, "what was committed is there");
    cover("end");
}

/// Transactions that each read what the other writes: the outcome is that of one of the orders.
pub fn skew() {
    let (a, b, v, w) = (u8_(), u8_(), u8_(), u8_());
    assume(a != b);
    let s = shared(&[(a, v), (b, w)]);
    let n = param("threads", 2) as usize;
    let mut jobs: Vec<Job> = vec![];
    for k in 0..n {
        let s = s.clone();
        let (from, to) = if k % 2 == 0 { (a, b) } else { (b, a) };
        jobs.push(Box::new(move || {
            let r: Result<()> = s.0.transaction().with(|ctx| {
                let x = at(&ctx, from).unwrap_or(0);
                yield_();
                ctx.save(node(to, x.wrapping_add(1)));
                Ok(())
            });
            check(r.is_ok(), "commits");
        }));
    }
    // Meanwhile somebody looks.
    if n == 2 && param("reader", 0) > 0 {
        let s = s.clone();
        jobs.push(Box::new(move || {
            let g = s.0.read();
            let (x, y) = (at(&*g, a), at(&*g, b));
            let (x, y) = (x.unwrap_or(0), y.unwrap_or(0));
            let old = (x == v) & (y == w);
            let one = ((x == v) & (y == v.wrapping_add(1))) | ((x == w.wrapping_add(1)) & (y == w));
            let two = ((x == v.wrapping_add(2)) & (y == v.wrapping_add(1))) | ((x == w.wrapping_add(1)) & (y == w.wrapping_add(2)));
            check(old | one | two, "a reader sees what some transactions, one after the other, made");
        }));
    }
    threads(jobs);
    let g = s.0.read();
    let (x, y) = (at(&*g, a).unwrap_or(0), at(&*g, b).unwrap_or(0));
    // Every order of `n` transactions, of which the even ones write `b` and the odd ones `a`.
    let mut good = false;
    for order in 0..1u32 << n {
        if order.count_ones() as usize != n / 2 {
            continue;
        }
        let (mut p, mut q) = (v, w);
        for k in 0..n {
            if order >> k & 1 == 0 {
                q = p.wrapping_add(1);
            } else {
                p = q.wrapping_add(1);
            }
        }
        good |= (x == p) & (y == q);
    }
    check(good, "the outcome is that of one of the orders");
    cover("end");
}

/// A value that is only looked at by one thread at a time, or by several that read.
struct Force<T>(T);

// SAFETY: what is in it is behind locks, and plain data.
unsafe impl<T> Send for Force<T> {}
unsafe impl<T> Sync for Force<T> {}

impl<T> Force<T> {
    fn get(&self) -> &T {
        &self.0
    }
}

/// Threads that use the same resources and target wait for one another; nobody is turned away.
pub fn resources() {
    struct Left(u8);
    struct Right(u8);

    let (a, b, c) = (u8_(), u8_(), u8_());
    let s = Arc::new(Shared(
        Schema::from(Graph::<Node>::default()).with_resource(Left(a)).with_resource(Right(b)),
    ));
    let mut target = Target::<Node>::default();
    target.set(node(0, c));
    let target = Arc::new(Force(target));

    let n = param("threads", 2) as usize;
    let (mut left, mut right, mut third) = (a, b, c);
    let mut jobs: Vec<Job> = vec![];
    for k in 0..n {
        let (s, target) = (s.clone(), target.clone());
        let d = u8_();
        // The first one writes, to have something to wait for.
        let how = pick(if k == 0 { 5 } else { 8 });
        match how {
            0 | 2 => left = left.wrapping_add(d),
            1 => {
                left = left.wrapping_add(d);
                right = right.wrapping_add(d);
            }
            3 => third = third.wrapping_add(d),
            4 => {
                right = right.wrapping_add(d);
                third = third.wrapping_add(d);
            }
            _ => {}
        }
        jobs.push(Box::new(move || {
            let (s, target) = (&s.0, target.get());
            let (l, r) = (Res::<Left>::from(s.resources()), Res::<Right>::from(s.resources()));
            let add = |x: &mut u8| {
                let now = *x;
                yield_();
                *x = now.wrapping_add(d);
            };
            let done = match how {
                0 => l.with_mut(|l| add(&mut l.0)).is_some(),
                1 => (l, r).with_mut(|(l, r)| (add(&mut l.0), add(&mut r.0))).is_some(),
                2 => {
                    let mut done = false;
                    let r: Result<()> = s.transaction().with(|ctx| {
                        done = Res::<Left>::from(&ctx).with_mut(|l| add(&mut l.0)).is_some();
                        Ok(())
                    });
                    done & r.is_ok()
                }
                3 => target.with_mut(|n| add(&mut n.val)).is_some(),
                4 => (r, target.clone()).with_mut(|(r, n)| (add(&mut r.0), add(&mut n.val))).is_some(),
                5 => {
                    let seen = (l, r, target.clone()).with(|(l, r, n)| {
                        let x = (l.0, r.0, n.val);
                        yield_();
                        x == (l.0, r.0, n.val)
                    });
                    check(seen != Some(false), "what is being read does not change");
                    seen.is_some()
                }
                6 => r.with(|r| r.0).is_some() & l.with(|l| l.0).is_some(),
                _ => l.exists() & target.with(|_| ()).is_some(),
            };
            check(done, "what exists is accessed, however many do so");
        }));
    }
    threads(jobs);
    let s = &s.0;
    let now = (Res::<Left>::from(s.resources()), Res::<Right>::from(s.resources()), target.get().clone())
        .with(|(l, r, n)| (l.0, r.0, n.val));
    check(now == Some((left, right, third)), "no change is lost");
    cover("end");
}
