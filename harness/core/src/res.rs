//! Resources and scoped access to several values at once.

use crate::{model::*, sym::*};
use plotline::{
    prelude::*,
    schema::{
        ops::{delete::Delete, save::Save},
        resource::ResourceSet,
    },
};

/// Distinct resource types.
struct R<const N: usize>(u8);

fn put<const N: usize>(s: Schema<Node>, v: u8) -> Schema<Node> {
    s.with_resource(R::<N>(v))
}

fn get<const N: usize>(s: &ResourceSet) -> Option<u8> {
    let r = Res::<R<N>>::from(s);
    let v = r.with(|r| r.0);
    check(r.exists() == v.is_some(), "a resource exists if, and only if, it can be accessed");
    v
}

fn same(a: Option<u8>, b: Option<u8>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => a == b,
        (None, None) => true,
        _ => false,
    }
}

/// Registered values are found by type, the last one of each type winning.
pub fn registry() {
    let mut s = Schema::from(plotline::graph::Graph::<Node>::default());
    let mut m = [None; 4];
    for _ in 0..param("regs", 4) {
        let (k, v) = (pick(4), u8_());
        s = match k {
            0 => put::<0>(s, v),
            1 => put::<1>(s, v),
            2 => put::<2>(s, v),
            _ => s.with_resource(v), // a bare u8 is a type like any other
        };
        m[k as usize] = Some(v);
    }
    let look = |set: &ResourceSet| {
        same(get::<0>(set), m[0])
            & same(get::<1>(set), m[1])
            & same(get::<2>(set), m[2])
            & same(Res::<u8>::from(set).with(|v| *v), m[3])
            & Res::<u16>::from(set).with(|_| ()).is_none()
            & !Res::<Box<u8>>::from(set).exists()
    };
    check(look(s.resources()), "each type holds its latest value");
    let r: Result<()> = s.transaction().with(|ctx| {
        check(look(ctx.resources()), "a transaction sees the same resources");
        check(same(Res::<R<0>>::from(&ctx).with(|r| r.0), m[0]), "handles from a context are the same");
        ctx.transaction().with(|sub| {
            check(look(sub.resources()), "a nested transaction sees the same resources");
            Ok(())
        })
    });
    check(r.is_ok(), "commits");
    if m.iter().all(|x| x.is_some()) {
        cover("all");
    }
    if m.iter().any(|x| x.is_none()) {
        cover("some missing");
    }
}

/// Many types at once.
pub fn registry_long() {
    let mut s = Schema::from(plotline::graph::Graph::<Node>::default());
    let (x, v) = (pick(16), u8_());
    macro_rules! each {
        ($($n:literal)*) => {
            $( if x != $n { s = put::<$n>(s, $n as u8); } )*
            $( if x == $n { s = put::<$n>(s, 99); s = put::<$n>(s, v); } )*
            let mut all = true;
            $( all &= same(get::<$n>(s.resources()), Some(if x == $n { v } else { $n as u8 })); )*
            check(all, "each type holds its latest value");
        };
    }
    each!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15);
    cover("end");
}

/// All handles to a resource share it, inside and outside transactions and triggers.
pub fn sharing() {
    let (a, b) = (u8_(), u8_());
    let (x, y, z) = (u8_(), u8_(), u8_());
    let s = Schema::from(plotline::graph::Graph::<Node>::default())
        .with_resource(R::<0>(a))
        .with_resource(R::<1>(b))
        .with_trigger(BeforeSave, move |_: Ctx<'_, Node>, t: Target<Node>, r: Res<R<0>>, o: Res<R<1>>, no: Res<R<2>>| {
            check(!no.exists(), "an unregistered resource does not exist");
            let add = t.with(|n| n.val).unwrap_or(0);
            let old = o.with(|o| o.0).unwrap_or(0);
            r.with_mut(|r| r.0 = r.0.wrapping_add(add).wrapping_add(old));
            Ok(())
        })
        .with_trigger(AfterSave, move |_: Ctx<'_, Node>, r: Res<R<0>>, o: Res<R<1>>| {
            let now = r.with(|r| r.0).unwrap_or(0);
            o.with_mut(|o| o.0 = now);
            Ok(())
        });
    let early = Res::<R<0>>::from(s.resources());
    let other = Res::<R<1>>::from(s.resources());
    check(early.with(|r| r.0) == Some(a), "holds the registered value");
    check(early.with_mut(|r| { let o = r.0; r.0 = x; o }) == Some(a), "can be changed through a handle");
    check(Res::<R<0>>::from(s.resources()).with(|r| r.0) == Some(x), "another handle sees the change");
    check(other.with(|r| r.0) == Some(b), "resources of other types are unaffected");

    check(Save::new(node(1, y)).execute(s.transaction()).is_ok(), "saves");
    let want = x.wrapping_add(y).wrapping_add(b);
    check(early.with(|r| r.0) == Some(want), "an older handle sees what triggers did");
    check(other.with(|r| r.0) == Some(want), "later triggers see what earlier ones did");

    let r: Result<()> = s.transaction().with(|ctx| {
        Res::<R<0>>::from(&ctx).with_mut(|r| r.0 = z);
        check(early.with(|r| r.0) == Some(z), "handles from a context share the same value");
        Save::new(node(2, y)).execute(ctx.transaction())
    });
    check(r.is_ok(), "commits");
    check(
        early.with(|r| r.0) == Some(z.wrapping_add(y).wrapping_add(want)),
        "nested operations share the same value",
    );
    check(Delete::new(1).execute(s.transaction()).is_ok(), "deletes");
    check(
        early.with(|r| r.0) == Some(z.wrapping_add(y).wrapping_add(want)),
        "an operation nobody is scheduled on leaves resources alone",
    );
    cover("end");
}

/// Access to several values is all or nothing, each in its place.
pub fn tuples() {
    let mut s = Schema::from(plotline::graph::Graph::<Node>::default());
    let here = u8_();
    let v = [u8_(), u8_(), u8_(), u8_(), u8_(), u8_()];
    let w = [u8_(), u8_(), u8_(), u8_(), u8_(), u8_()];
    let arity = pick(5) + 2;
    // Whether each of the elements exists.
    let mut has = [false; 6];
    for i in 0..arity {
        has[i as usize] = here & (1 << i) != 0;
    }
    if has[0] { s = put::<0>(s, v[0]); }
    if has[1] { s = put::<1>(s, v[1]); }
    if has[2] { s = put::<2>(s, v[2]); }
    if has[3] { s = put::<3>(s, v[3]); }
    if has[4] { s = put::<4>(s, v[4]); }
    if has[5] { s = put::<5>(s, v[5]); }
    let set = s.resources();
    let all = has[..arity as usize].iter().all(|x| *x);
    let mut calls = 0;
    let mut good = true;
    macro_rules! each {
        ($($n:tt)*) => {{
            let t = ($(Res::<R<$n>>::from(set),)*);
            let r = t.with(|t| {
                calls += 1;
                $( good &= t.$n.0 == v[$n]; )*
                17u8
            });
            good &= r == if all { Some(17) } else { None };
            let r = t.with_mut(|t| {
                calls += 1;
                $( good &= t.$n.0 == v[$n]; t.$n.0 = w[$n]; )*
                18u8
            });
            good &= r == if all { Some(18) } else { None };
            $(
                let now = t.$n.with(|r| r.0);
                good &= same(now, if !has[$n] { None } else if all { Some(w[$n]) } else { Some(v[$n]) });
                // Nothing is left locked.
                good &= t.$n.with_mut(|_| ()).is_some() == has[$n];
            )*
        }};
    }
    match arity {
        2 => each!(0 1),
        3 => each!(0 1 2),
        4 => each!(0 1 2 3),
        5 => each!(0 1 2 3 4),
        _ => each!(0 1 2 3 4 5),
    }
    check(good, "each value is passed in its place, all of them or none");
    check(calls == if all { 2 } else { 0 }, "the closure runs once, or not at all");
    if all {
        cover("all");
    } else {
        cover("missing");
    }
}

/// Tuples mixing a target and resources, as triggers use them.
pub fn mixed() {
    let (has_t, has_r) = (flag(), flag());
    let (t, r, nt, nr) = (u8_(), u8_(), u8_(), u8_());
    let mut s = Schema::from(plotline::graph::Graph::<Node>::default());
    if has_r {
        s = s.with_resource(R::<0>(r));
    }
    let out: Result<()> = s.transaction().with(|ctx| {
        let ctx = if has_t { ctx.with_target(node(1, t)) } else { ctx };
        let both = (Target::from(&ctx), Res::<R<0>>::from(&ctx));
        let rev = (Res::<R<0>>::from(&ctx), Target::from(&ctx));
        let all = has_t & has_r;
        check(
            both.with(|(n, x)| (n.val == t) & (x.0 == r)) == if all { Some(true) } else { None },
            "both are read, or neither",
        );
        let mut ran = false;
        let done = rev.with_mut(|(x, n)| {
            ran = true;
            x.0 = nr;
            n.val = nt;
        });
        check((done.is_some() == all) & (ran == all), "both are changed, or neither");
        check(
            same(ctx.target().with(|n| n.val), if !has_t { None } else if all { Some(nt) } else { Some(t) }),
            "the target is changed, or not",
        );
        check(
            same(both.1.with(|x| x.0), if !has_r { None } else if all { Some(nr) } else { Some(r) }),
            "the resource is changed, or not",
        );
        Ok(())
    });
    check(out.is_ok(), "commits");
    cover("end");
}

/// A panic while a resource is being changed never makes later accesses panic or hang.
pub fn panics() {
    let (a, b) = (u8_(), u8_());
    let s = Schema::from(plotline::graph::Graph::<Node>::default())
        .with_resource(R::<0>(a))
        .with_resource(R::<1>(b));
    let write = flag();
    let r = caught(|| {
        let r = Res::<R<0>>::from(s.resources());
        if write {
            r.with_mut(|_| -> () { panic!("boom") });
        } else {
            r.with(|_| -> () { panic!("boom") });
        }
    });
    check(r.is_none(), "panicked");
    let x = Res::<R<0>>::from(s.resources());
    let got = x.with(|r| r.0);
    check(got.is_none() || got == Some(a), "shows the value, or nothing");
    if !write {
        check(got == Some(a), "a panicking reader does no harm");
    }
    x.with_mut(|r| r.0 = 1);
    let _ = x.exists();
    check(Res::<R<1>>::from(s.resources()).with(|r| r.0) == Some(b), "other resources are unaffected");
    check(
        (Res::<R<0>>::from(s.resources()), Res::<R<1>>::from(s.resources())).with(|_| ()).is_some()
            == got.is_some(),
        "access to several is all or nothing",
    );
    let mut o = Obs { q: u8_(), e: None };
    usable(&s, &mut o, "the schema is usable");
    cover("end");
}

/// Types that are easily taken for one another.
pub fn types() {
    use std::{any::Any, rc::Rc, sync::Arc};

    /// Each gives a type of its own of the same name.
    fn one(s: Schema<Node>, v: Option<u8>) -> (Schema<Node>, impl Fn(&ResourceSet) -> Option<u8>) {
        struct Here(u8);
        let s = match v {
            Some(v) => s.with_resource(Here(v)),
            None => s,
        };
        (s, |r: &ResourceSet| Res::<Here>::from(r).with(|h| h.0))
    }
    macro_rules! scoped {
        ($s:expr, $v:expr) => {{
            struct Same(u8);
            let s = match $v {
                Some(v) => $s.with_resource(Same(v)),
                None => $s,
            };
            (s, |r: &ResourceSet| Res::<Same>::from(r).with(|h| h.0))
        }};
    }
    #[derive(Clone, Copy)]
    struct Empty;
    struct Hollow;
    let s = Schema::from(plotline::graph::Graph::<Node>::default());
    let some = || if flag() { Some(u8_()) } else { None };
    let (a, b, c) = (some(), some(), some());
    let (s1, get_a) = scoped!(s, a);
    let (s2, get_b) = scoped!(s1, b);
    let (s3, get_c) = one(s2, c);
    let s = s3;
    // One of these is registered last, over or beside the others.
    let v = u8_();
    let k = pick(12);
    let s = match k {
        0 => s.with_resource(Empty),
        1 => s.with_resource(Hollow),
        2 => s.with_resource(()),
        3 => s.with_resource(Box::new(v)),
        4 => s.with_resource(Box::new(v) as Box<dyn Any>),
        5 => s.with_resource(Rc::new(v)),
        6 => s.with_resource(Arc::new(v)),
        7 => s.with_resource(v as i8),
        8 => s.with_resource(Some(v)),
        9 => s.with_resource((v,)),
        10 => s.with_resource([v]),
        _ => s.with_resource(v),
    };
    let look = |r: &ResourceSet| {
        same(get_a(r), a)
            & same(get_b(r), b)
            & same(get_c(r), c)
            & (Res::<Empty>::from(r).exists() == (k == 0))
            & (Res::<Hollow>::from(r).exists() == (k == 1))
            & (Res::<()>::from(r).exists() == (k == 2))
            & same(Res::<Box<u8>>::from(r).with(|x| **x), (k == 3).then_some(v))
            & same(
                Res::<Box<dyn Any>>::from(r).with(|x| x.downcast_ref::<u8>().copied()).flatten(),
                (k == 4).then_some(v),
            )
            & same(Res::<Rc<u8>>::from(r).with(|x| **x), (k == 5).then_some(v))
            & same(Res::<Arc<u8>>::from(r).with(|x| **x), (k == 6).then_some(v))
            & same(Res::<i8>::from(r).with(|x| *x as u8), (k == 7).then_some(v))
            & same(Res::<Option<u8>>::from(r).with(|x| *x).flatten(), (k == 8).then_some(v))
            & same(Res::<(u8,)>::from(r).with(|x| x.0), (k == 9).then_some(v))
            & same(Res::<[u8; 1]>::from(r).with(|x| x[0]), (k == 10).then_some(v))
            & same(Res::<u8>::from(r).with(|x| *x), (k == 11).then_some(v))
    };
    check(look(s.resources()), "each type holds its latest value, and no other type's");
    let r: Result<()> = s.transaction().with(|ctx| {
        check(look(ctx.resources()), "a transaction sees the same resources");
        Ok(())
    });
    check(r.is_ok(), "commits");
    cover("end");
}

/// A plugin's registrations are the schema's, in order.
pub fn install() {
    struct Plug {
        tag: u8,
        log: std::rc::Rc<std::cell::RefCell<Vec<u8>>>,
    }
    impl Plugin<Node> for Plug {
        fn install(self, schema: Schema<Node>) -> Schema<Node> {
            let Plug { tag, log } = self;
            schema.with_resource(R::<0>(tag)).with_trigger(BeforeSave, move |_: Ctx<'_, Node>| {
                log.borrow_mut().push(tag);
                Ok(())
            })
        }
    }
    let log: std::rc::Rc<std::cell::RefCell<Vec<u8>>> = Default::default();
    let n = param("n", 3);
    let mut tags = vec![];
    let (s, mut o) = schema(1);
    let mut s = s.with_resource(R::<1>(5));
    for _ in 0..n {
        let tag = u8_();
        tags.push(tag);
        s = if flag() {
            s.install(Plug { tag, log: log.clone() })
        } else {
            Plug { tag, log: log.clone() }.install(s)
        };
    }
    check(same(Res::<R<0>>::from(s.resources()).with(|r| r.0), tags.last().copied()), "the last registered value is the one there");
    check(same(Res::<R<1>>::from(s.resources()).with(|r| r.0), Some(5)), "other resources are unaffected");
    settled(&s, &o, "the graph is unaffected");
    let (id, val) = (u8_(), u8_());
    check(Save::new(node(id, val)).execute(s.transaction()).is_ok(), "saves");
    o.save(id, val);
    settled(&s, &o, "the node is saved");
    check(*log.borrow() == tags, "triggers run in order of registration");
    cover("end");
}

/// A value that tells how often it is locked, for reading and for writing.
struct Spy {
    value: std::cell::RefCell<u8>,
    there: bool,
    locks: std::rc::Rc<std::cell::Cell<i32>>,
}

struct SpyGuard<'a> {
    spy: &'a Spy,
    inner: Option<std::cell::Ref<'a, u8>>,
    inner_mut: Option<std::cell::RefMut<'a, u8>>,
}

impl Drop for SpyGuard<'_> {
    fn drop(&mut self) {
        self.spy.locks.set(self.spy.locks.get() - 1);
    }
}

impl plotline::deref::TryDeref for SpyGuard<'_> {
    type Target = u8;
    fn try_deref(&self) -> Option<&u8> {
        self.inner.as_deref().or(self.inner_mut.as_deref()).filter(|_| self.spy.there)
    }
}

impl plotline::deref::TryDerefMut for SpyGuard<'_> {
    fn try_deref_mut(&mut self) -> Option<&mut u8> {
        let there = self.spy.there;
        self.inner_mut.as_deref_mut().filter(|_| there)
    }
}

impl plotline::deref::ReadOnly for Spy {
    type Target = u8;
    type Guard<'a> = SpyGuard<'a>;
    fn read(&self) -> SpyGuard<'_> {
        self.locks.set(self.locks.get() + 1);
        SpyGuard { spy: self, inner: Some(self.value.borrow()), inner_mut: None }
    }
}

impl plotline::deref::ReadWrite for Spy {
    type Target = u8;
    type Guard<'a> = SpyGuard<'a>;
    fn write(&self) -> SpyGuard<'_> {
        self.locks.set(self.locks.get() + 1);
        SpyGuard { spy: self, inner: None, inner_mut: Some(self.value.borrow_mut()) }
    }
}

/// Values of a user's own: locked while the closure runs, and released whatever happens.
pub fn spied() {
    let arity = pick(6) + 1;
    let missing = pick(arity + 1);
    let boom = flag();
    let write = flag();
    let v = [u8_(), u8_(), u8_(), u8_(), u8_(), u8_()];
    let w = [u8_(), u8_(), u8_(), u8_(), u8_(), u8_()];
    let locks: [std::rc::Rc<std::cell::Cell<i32>>; 6] = Default::default();
    let spy = |i: usize| Spy { value: v[i].into(), there: missing as usize != i, locks: locks[i].clone() };
    let all = missing == arity;
    let (mut calls, mut good, mut held) = (0, true, true);
    macro_rules! both {
        ($($n:tt)*) => {{
            let t = ($(spy($n),)*);
            let r = caught(|| {
                if write {
                    t.with_mut(|t| {
                        calls += 1;
                        $( good &= *t.$n == v[$n]; held &= locks[$n].get() >= 1; *t.$n = w[$n]; )*
                        if boom { panic!("boom") }
                        9u8
                    })
                } else {
                    t.with(|t| {
                        calls += 1;
                        $( good &= *t.$n == v[$n]; held &= locks[$n].get() >= 1; )*
                        if boom { panic!("boom") }
                        9u8
                    })
                }
            });
            check(match r {
                None => all & boom,
                Some(r) => (r == if all { Some(9) } else { None }) & !(all & boom),
            }, "the closure's result is returned, if it was called");
            let mut kept = true;
            $( kept &= *t.$n.value.borrow() == if all & write { w[$n] } else { v[$n] }; )*
            check(kept, "values are changed as the closure does");
        }};
    }
    match arity {
        1 => {
            let t = spy(0);
            let r = caught(|| {
                let mut f = |x: u8| {
                    calls += 1;
                    good &= x == v[0];
                    held &= locks[0].get() >= 1;
                    if boom {
                        panic!("boom")
                    }
                    9u8
                };
                if write {
                    t.with_mut(|x| {
                        let r = *x;
                        *x = w[0];
                        f(r)
                    })
                } else {
                    t.with(|x| f(*x))
                }
            });
            check(
                match r {
                    None => all & boom,
                    Some(r) => (r == if all { Some(9) } else { None }) & !(all & boom),
                },
                "the closure's result is returned, if it was called",
            );
            let left = *t.value.borrow();
            check(left == if all & write { w[0] } else { v[0] }, "values are changed as the closure does");
        }
        2 => both!(0 1),
        3 => both!(0 1 2),
        4 => both!(0 1 2 3),
        5 => both!(0 1 2 3 4),
        _ => both!(0 1 2 3 4 5),
    }
    check(calls == all as u8, "the closure runs once, or not at all");
    check(good, "each value is passed in its place");
    check(held, "every value is held while the closure runs");
    check(locks.iter().all(|l| l.get() == 0), "no value remains locked");
    cover(if all { "all" } else { "missing" });
}

/// Several targets and resources, the same one twice when reading, and what is left of them.
pub fn places() {
    let (a, b, t, u) = (u8_(), u8_(), u8_(), u8_());
    let (has_b, has_u) = (flag(), flag());
    let mut s = Schema::from(plotline::graph::Graph::<Node>::default()).with_resource(R::<0>(a));
    if has_b {
        s = s.with_resource(R::<1>(b));
    }
    let boom = flag();
    let (na, nt, nu) = (u8_(), u8_(), u8_());
    let out: Result<()> = s.transaction().with(|ctx| {
        let ctx = ctx.with_target(node(1, t));
        ctx.transaction().with(|sub| {
            let sub = if has_u { sub.with_target(node(2, u)) } else { sub };
            let (ta, tb) = (Target::from(&ctx), Target::from(&sub));
            let (ra, rb) = (Res::<R<0>>::from(&ctx), Res::<R<1>>::from(&sub));
            // The same value twice, for reading, within and beside another access.
            let twice = (ra, Res::<R<0>>::from(&sub));
            check(twice.with(|(x, y)| (x.0 == a) & (y.0 == a)) == Some(true), "a value is read in two places");
            let four = (ta.clone(), rb, tb.clone(), ta.clone());
            let all = has_b & has_u;
            let r = four.with(|(x, y, z, x2)| {
                let deep = ta.with(|n| n.val == t) == Some(true);
                deep & (x.val == t) & (x.id == 1) & (x2.val == t) & (y.0 == b) & (z.val == u) & (z.id == 2)
            });
            check(r == if all { Some(true) } else { None }, "each is passed in its place, or none");
            // Writing, with a panic or without one.
            let three = (tb.clone(), twice.0, ta.clone());
            let mut ran = 0;
            let r = caught(|| {
                three.with_mut(|(x, y, z)| {
                    ran += 1;
                    x.val = nu;
                    y.0 = na;
                    z.val = nt;
                    if boom {
                        panic!("boom");
                    }
                })
            });
            check(ran == has_u as u8, "the closure runs once, or not at all");
            check(
                match r {
                    None => has_u & boom,
                    Some(r) => (r.is_some() == has_u) & !(has_u & boom),
                },
                "the closure's panic reaches the caller",
            );
            if !(has_u & boom) {
                let now = (ta.with(|n| n.val), three.1.with(|r| r.0), tb.with(|n| n.val));
                check(same(now.0, Some(if has_u { nt } else { t })), "the outer target is changed, or not");
                check(same(now.1, Some(if has_u { na } else { a })), "the resource is changed, or not");
                check(same(now.2, has_u.then_some(nu)), "the inner target is changed, or not");
                cover("end");
            } else {
                // Nothing remains locked: whatever these do, they end.
                let _ = (ta.with(|_| ()), three.1.with_mut(|_| ()), tb.with_mut(|_| ()));
                cover("panicked");
            }
            check(same(Res::<R<1>>::from(&ctx).with_mut(|r| r.0), has_b.then_some(b)), "the others are as they were");
            Ok(())
        })
    });
    check(out.is_ok(), "commits");
}
