//! Save and Delete, the triggers around them, and the targets triggers share.

use std::{cell::RefCell, rc::Rc};

use crate::{model::*, sym::*};
use plotline::{
    graph::Source,
    prelude::*,
    schema::{
        ops::{delete::Delete, save::Save},
        transaction::Context,
        trigger::Trigger,
    },
};

/// What a trigger does. The order matters: a harness allows the first `fx` of them.
#[derive(Clone, Copy, PartialEq)]
enum Fx {
    Nothing,
    /// Fails with that error.
    Fail(u8),
    SetVal(u8),
    SetId(u8),
    /// Commits a nested transaction saving this node.
    Save(u8, u8),
    /// Commits a nested transaction deleting this id.
    Delete(u8),
    /// Fails a nested transaction after saving this node, and carries on.
    Undo(u8, u8),
    /// Executes a nested save operation, for which nothing is scheduled while it runs.
    Panic,
}

fn any_fx(n: u8) -> Fx {
    match pick(n) {
        0 => Fx::Nothing,
        1 => Fx::Fail(any_fault()),
        2 => Fx::SetVal(u8_()),
        3 => Fx::SetId(u8_()),
        4 => Fx::Save(u8_(), u8_()),
        5 => Fx::Delete(u8_()),
        6 => Fx::Undo(u8_(), u8_()),
        _ => Fx::Panic,
    }
}

/// What a trigger saw when it ran.
#[derive(Clone, Copy)]
struct Seen {
    tag: u8,
    target: Option<(u8, u8)>,
    at_q: Option<u8>,
}

impl Seen {
    fn same(&self, o: &Seen) -> bool {
        (self.tag == o.tag)
            & match (self.target, o.target) {
                (Some(a), Some(b)) => (a.0 == b.0) & (a.1 == b.1),
                (None, None) => true,
                _ => false,
            }
            & match (self.at_q, o.at_q) {
                (Some(a), Some(b)) => a == b,
                (None, None) => true,
                _ => false,
            }
    }
}

type Log = Rc<RefCell<Vec<Seen>>>;

/// The target the first trigger of an operation got, kept beyond it.
type Kept = Rc<RefCell<Option<Target<Node>>>>;

fn trigger(tag: u8, fx: Fx, q: u8, log: Log, kept: Kept) -> impl Fn(Ctx<Node>, Target<Node>) -> Result<()> {
    move |ctx: Ctx<'_, Node>, target: Target<Node>| {
        let mut at_q = None;
        let _: Result<()> = ctx.transaction().with(|sub| {
            at_q = sub.get(&q).map(|n| n.val);
            Err(Error::Noop)
        });
        let now = target.with(|n| (n.id, n.val));
        log.borrow_mut().push(Seen { tag, target: now, at_q });
        let early = kept.borrow().as_ref().map(|k| k.with(|n| (n.id, n.val)));
        match early {
            Some(early) => check(early == now, "a handle kept by an earlier trigger shows the target"),
            None => *kept.borrow_mut() = Some(target.clone()),
        }
        match fx {
            Fx::Nothing => {}
            Fx::Fail(k) => return Err(fault(k)),
            Fx::SetVal(v) => {
                target.with_mut(|n| n.val = v);
            }
            Fx::SetId(i) => {
                target.with_mut(|n| n.id = i);
            }
            Fx::Save(i, v) => ctx.transaction().with(|sub| {
                sub.save(node(i, v));
                Ok(())
            })?,
            Fx::Delete(i) => ctx.transaction().with(|sub| {
                sub.delete(i);
                Ok(())
            })?,
            Fx::Undo(i, v) => {
                let r: Result<()> = ctx.transaction().with(|sub| {
                    sub.save(node(i, v));
                    Err(Error::Noop)
                });
                check(r.is_err(), "the nested transaction fails");
            }
            Fx::Panic => panic!("boom"),
        }
        Ok(())
    }
}

/// How the model says an operation ends.
#[derive(Clone, Copy, PartialEq)]
enum End {
    Done,
    Failed(u8),
    Panicked,
}

/// One trigger, in the model.
fn sim(tag: u8, fx: Fx, t: &mut (u8, u8), m: &mut Obs, log: &mut Vec<Seen>) -> End {
    log.push(Seen { tag, target: Some(*t), at_q: m.e });
    match fx {
        Fx::Nothing | Fx::Undo(..) => {}
        Fx::Fail(k) => return End::Failed(k),
        Fx::SetVal(v) => t.1 = v,
        Fx::SetId(i) => t.0 = i,
        Fx::Save(i, v) => m.save(i, v),
        Fx::Delete(i) => m.delete(i),
        Fx::Panic => return End::Panicked,
    }
    End::Done
}

/// A schema with `nb` triggers before and `na` after the operation, each with an arbitrary effect,
/// and as many on the other operation, which must not run.
fn operation(save: bool) {
    let (mut s, o) = schema(param("nodes", 1));
    let (nb, na, nfx) = (param("nb", 1) as u8, param("na", 1) as u8, param("fx", 4) as u8);
    let log: Log = Default::default();
    let kept = Kept::default();
    let mut fxs = vec![];
    for i in 0..nb + na {
        let fx = any_fx(nfx);
        let t = trigger(i, fx, o.q, log.clone(), kept.clone());
        s = match (save, i < nb) {
            (true, true) => s.with_trigger(BeforeSave, t),
            (true, false) => s.with_trigger(AfterSave, t),
            (false, true) => s.with_trigger(BeforeDelete, t),
            (false, false) => s.with_trigger(AfterDelete, t),
        };
        fxs.push(fx);
    }
    let other = || trigger(20, Fx::Fail(2), o.q, log.clone(), kept.clone());
    s = if save {
        s.with_trigger(BeforeDelete, other()).with_trigger(AfterDelete, other())
    } else {
        s.with_trigger(BeforeSave, other()).with_trigger(AfterSave, other())
    };

    let arg = (u8_(), if save { u8_() } else { 0 });
    let triggers = Triggers { nb, na, fxs, log, kept };
    let o = perform(&s, o, save, arg, &triggers);
    // Once more, with the same triggers, whatever became of it the first time.
    if param("again", 0) > 0 {
        triggers.log.borrow_mut().clear();
        *triggers.kept.borrow_mut() = None;
        perform(&s, o, save, arg, &triggers);
        cover("again");
    }
}

/// The triggers around an operation.
struct Triggers {
    nb: u8,
    na: u8,
    fxs: Vec<Fx>,
    log: Log,
    kept: Kept,
}

/// Performs the operation, and tells what the graph is then.
fn perform(s: &Schema<Node>, o: Obs, save: bool, arg: (u8, u8), triggers: &Triggers) -> Obs {
    let Triggers { nb, na, fxs, log, kept } = triggers;
    let (nb, na) = (*nb, *na);
    // The operation runs on its own, or inside a transaction that has its own writes and goes on
    // whatever becomes of the operation.
    let inside = param("inside", 0) > 0 && flag();
    let (mut pre, mut commit) = (None, true);
    if inside {
        pre = Some((u8_(), u8_()));
        commit = flag();
    }

    // The model.
    let mut outer = o;
    if let Some(p) = pre {
        outer.save(p.0, p.1);
    }
    let mut m = outer;
    let mut want = vec![];
    let mut end = End::Done;
    let mut missing = false;
    let mut t = arg;
    if !save {
        // Only the observed id's payload is known to the model: look the deleted node up there.
        let found = {
            let g = s.read();
            let mut f = g.get(&arg.0).map(|n| n.val);
            if let Some(p) = pre {
                if p.0 == arg.0 {
                    f = Some(p.1);
                }
            }
            f
        };
        match found {
            Some(v) => t.1 = v,
            None => {
                end = End::Failed(0);
                missing = true;
            }
        }
    }
    for i in 0..nb + na {
        if end != End::Done {
            break;
        }
        if i == nb {
            if save {
                m.save(t.0, t.1);
            } else {
                m.delete(arg.0);
            }
        }
        end = sim(i, fxs[i as usize], &mut t, &mut m, &mut want);
    }
    if end == End::Done && na == 0 {
        if save {
            m.save(t.0, t.1);
        } else {
            m.delete(arg.0);
        }
    }

    // The code.
    let run = |s: &Schema<Node>| match (save, pre) {
        (true, None) => Save::new(node(arg.0, arg.1)).execute(s.transaction()),
        (false, None) => Delete::new(arg.0).execute(s.transaction()),
        (_, Some(p)) => {
            let mut inner = Ok(());
            let r = s.transaction().with(|ctx| {
                ctx.save(node(p.0, p.1));
                inner = if save {
                    Save::new(node(arg.0, arg.1)).execute(ctx.transaction())
                } else {
                    Delete::new(arg.0).execute(ctx.transaction())
                };
                let view = if inner.is_ok() { m } else { outer };
                check(view.agrees(&ctx), "the enclosing transaction sees the operation as a whole");
                if commit { Ok(()) } else { Err(Error::Noop) }
            });
            check(r.is_ok() == commit, "the enclosing transaction decides for itself");
            inner
        }
    };
    let r = caught(|| run(s));

    let got = match &r {
        None => End::Panicked,
        Some(Ok(())) => End::Done,
        Some(Err(e)) => End::Failed(code(e)),
    };
    check(got == end, "the operation ends as its triggers say");
    let seen = log.borrow();
    check(seen.len() == want.len(), "each trigger runs once, and none after a failure");
    check(
        seen.iter().zip(&want).all(|(a, b)| a.same(b)),
        "triggers run in order, on the target, around the operation",
    );
    if let Some(k) = kept.borrow().as_ref() {
        check(k.with(|n| (n.id, n.val)) == Some(t), "a handle kept by a trigger shows what became of the target");
    }
    let expected = match end {
        End::Done if commit => m,
        End::Panicked | End::Done => o,
        _ if inside && commit => outer,
        _ => o,
    };
    settled(s, &expected, "the operation and its triggers apply as a whole, or not at all");
    match end {
        End::Done => cover("done"),
        End::Failed(_) if missing => cover("noop"),
        End::Failed(_) => cover("failed"),
        End::Panicked => cover("panicked"),
    }
    if inside {
        cover("inside");
    }
    expected
}

pub fn save() {
    operation(true)
}

pub fn delete() {
    operation(false)
}

/// A trigger that survives a panic while it changes the target: the save goes through, or says that
/// it does not.
pub fn save_after_panic() {
    let (mut s, o) = schema(param("nodes", 1));
    let (id, val, new) = (u8_(), u8_(), u8_());
    let (early, after) = (flag(), flag());
    let hurt = move |_: Ctx<'_, Node>, t: Target<Node>| {
        let r = caught(|| {
            t.with_mut(|n| {
                if early {
                    n.val = new;
                }
                panic!("boom")
            })
        });
        check(r.is_none(), "panicked");
        Ok(())
    };
    s = if after { s.with_trigger(AfterSave, hurt) } else { s.with_trigger(BeforeSave, hurt) };
    let r = Save::new(node(id, val)).execute(s.transaction());
    let now = s.read().get(&o.q).map(|n| n.val);
    if r.is_ok() {
        let was = o.e;
        check(
            if o.q == id { now == Some(val) || (early && !after && now == Some(new)) } else { now == was },
            "a save that succeeds has written the node",
        );
        cover("saved");
    } else {
        settled(&s, &o, "a save that fails changes nothing");
        cover("refused");
    }
    let mut m = Obs { q: o.q, e: now };
    let id = u8_();
    let r: Result<()> = s.transaction().with(|ctx| {
        ctx.save(node(id, 1));
        Ok(())
    });
    m.save(id, 1);
    check(r.is_ok(), "commits");
    settled(&s, &m, "the schema is usable");
    cover("end");
}

/// Deleting what does not exist: nothing runs, nothing changes.
pub fn delete_missing() {
    let (mut s, o) = schema(param("nodes", 2));
    let log: Log = Default::default();
    let kept = Kept::default();
    s = s
        .with_trigger(BeforeDelete, trigger(0, Fx::Nothing, o.q, log.clone(), kept.clone()))
        .with_trigger(AfterDelete, trigger(1, Fx::Nothing, o.q, log.clone(), kept));
    let before = dump(&s.read());
    let r = Delete::new(o.q).execute(s.transaction());
    if o.has() {
        check(r.is_ok(), "deletes");
        check(log.borrow().len() == 2, "both triggers run");
        check(!s.read().contains(&o.q), "the node is gone");
        check(dump(&s.read()).len() + 1 == before.len(), "only that node is gone");
        cover("present");
        // Deleting again is deleting a missing node.
        let r = Delete::new(o.q).execute(s.transaction());
        check(matches!(r, Err(Error::Noop)), "reports that there is nothing to do");
        check(log.borrow().len() == 2, "no trigger runs");
    } else {
        check(matches!(r, Err(Error::Noop)), "reports that there is nothing to do");
        check(log.borrow().is_empty(), "no trigger runs");
        check(dump(&s.read()) == before, "nothing changes");
        cover("missing");
    }
}

/// A sequence of operations without triggers is a sequence of map updates.
pub fn sequence() {
    let (s, mut o) = schema(param("nodes", 1));
    for _ in 0..param("ops", 3) {
        let id = u8_();
        if flag() {
            let val = u8_();
            check(Save::new(node(id, val)).execute(s.transaction()).is_ok(), "saves");
            o.save(id, val);
        } else {
            let had = s.read().contains(&id);
            let r = Delete::new(id).execute(s.transaction());
            check(r.is_ok() == had, "deletes if, and only if, there is something to delete");
            o.delete(id);
        }
        settled(&s, &o, "the graph is the one the operations describe");
    }
    cover("end");
}

/// Operations whose triggers run further operations.
pub fn cascade() {
    let (mut s, o) = schema(param("nodes", 2));
    let (id, twin) = (u8_(), u8_());
    let strict = flag();
    let (fail_after, why) = (flag(), any_fault());
    // Deleting a node deletes its twin; saving a node saves a copy under its twin's id.
    s = s.with_trigger(AfterDelete, move |ctx: Ctx<'_, Node>, t: Target<Node>| {
        let is = t.with(|n| n.id == id).unwrap_or(false);
        if is && id != twin {
            let r = Delete::new(twin).execute(ctx.transaction());
            if strict {
                r?;
            }
        }
        Ok(())
    });
    s = s.with_trigger(AfterDelete, move |_: Ctx<'_, Node>| {
        outcome(!fail_after, why)
    });
    let (had, had_twin) = {
        let g = s.read();
        (g.contains(&id), g.contains(&twin))
    };
    let r = Delete::new(id).execute(s.transaction());
    let ok = had && !fail_after && (id == twin || had_twin || !strict);
    check(r.is_ok() == ok, "the cascade succeeds or fails as a whole");
    let mut m = o;
    if ok {
        m.delete(id);
        m.delete(twin);
        cover("done");
    } else {
        cover("failed");
    }
    settled(&s, &m, "the cascade applies as a whole, or not at all");
}

// -- dispatch -------------------------------------------------------------------------------------

struct S0;
struct S1;
struct S2;

/// An argument telling which context it was made from, and which argument it is.
struct Arg<const N: u8>(u8);

impl<const N: u8> From<&Context<'_, Node>> for Arg<N> {
    fn from(ctx: &Context<'_, Node>) -> Self {
        Arg(ctx.target().with(|n| n.val).unwrap_or(0).wrapping_add(N))
    }
}

impl<const N: u8> Arg<N> {
    fn ok(&self, v: u8) -> bool {
        self.0 == v.wrapping_add(N)
    }
}

/// Runs of a trigger: which one, and whether its arguments were right.
type Runs = Rc<RefCell<Vec<(u8, bool)>>>;

fn register<S: 'static>(s: Schema<Node>, sched: S, arity: u8, i: u8, v: u8, fail: Option<u8>, runs: &Runs) -> Schema<Node> {
    let runs = runs.clone();
    let end = move |good: bool| {
        runs.borrow_mut().push((i, good));
        outcome(fail.is_none(), fail.unwrap_or(0))
    };
    type C<'a> = Ctx<'a, Node>;
    match arity {
        0 => s.with_trigger(sched, move |_: C<'_>| end(true)),
        1 => s.with_trigger(sched, move |_: C<'_>, a: Arg<0>| end(a.ok(v))),
        2 => s.with_trigger(sched, move |_: C<'_>, a: Arg<0>, b: Arg<1>| end(a.ok(v) & b.ok(v))),
        3 => s.with_trigger(sched, move |_: C<'_>, a: Arg<0>, b: Arg<1>, c: Arg<2>| {
            end(a.ok(v) & b.ok(v) & c.ok(v))
        }),
        4 => s.with_trigger(sched, move |_: C<'_>, a: Arg<0>, b: Arg<1>, c: Arg<2>, d: Arg<3>| {
            end(a.ok(v) & b.ok(v) & c.ok(v) & d.ok(v))
        }),
        5 => s.with_trigger(
            sched,
            move |_: C<'_>, a: Arg<0>, b: Arg<1>, c: Arg<2>, d: Arg<3>, e: Arg<4>| {
                end(a.ok(v) & b.ok(v) & c.ok(v) & d.ok(v) & e.ok(v))
            },
        ),
        6 => s.with_trigger(
            sched,
            move |_: C<'_>, a: Arg<0>, b: Arg<1>, c: Arg<2>, d: Arg<3>, e: Arg<4>, f: Arg<5>| {
                end(a.ok(v) & b.ok(v) & c.ok(v) & d.ok(v) & e.ok(v) & f.ok(v))
            },
        ),
        7 => s.with_trigger(
            sched,
            move |_: C<'_>, a: Arg<0>, b: Arg<1>, c: Arg<2>, d: Arg<3>, e: Arg<4>, f: Arg<5>, g: Arg<6>| {
                end(a.ok(v) & b.ok(v) & c.ok(v) & d.ok(v) & e.ok(v) & f.ok(v) & g.ok(v))
            },
        ),
        _ => s.with_trigger(
            sched,
            move |_: C<'_>,
                  a: Arg<0>,
                  b: Arg<1>,
                  c: Arg<2>,
                  d: Arg<3>,
                  e: Arg<4>,
                  f: Arg<5>,
                  g: Arg<6>,
                  h: Arg<7>| {
                end(a.ok(v) & b.ok(v) & c.ok(v) & d.ok(v) & e.ok(v) & f.ok(v) & g.ok(v) & h.ok(v))
            },
        ),
    }
}

/// Selecting a scheduler runs exactly its triggers, in order, up to the first failure.
pub fn dispatch() {
    let mut s = Schema::from(plotline::graph::Graph::<Node>::default());
    let runs: Runs = Default::default();
    let v = u8_();
    let n = param("triggers", 3) as u8;
    // The arity of one trigger is arbitrary; the others' are fixed.
    let odd = pick(n);
    let arity = pick(9);
    let mut regs = vec![];
    for i in 0..n {
        let on = pick(3);
        let fail = if flag() { Some(any_fault()) } else { None };
        let k = if i == odd { arity } else { i % 3 };
        s = match on {
            0 => register(s, S0, k, i, v, fail, &runs),
            1 => register(s, S1, k, i, v, fail, &runs),
            _ => register(s, S2, k, i, v, fail, &runs),
        };
        regs.push((on, fail));
    }
    // Each schedule once, then one of them again, by a selection made anew or kept from before.
    let again = param("again", 0) != 0;
    let kept = again && flag();
    let order = if again { vec![0, 1, 2, pick(3)] } else { vec![0, 1, 2] };
    for sel in order {
        runs.borrow_mut().clear();
        let r: Result<()> = s.transaction().with(|ctx| {
            let ctx = ctx.with_target(node(0, v));
            let selection = match sel {
                0 => ctx.triggers().select(S0),
                1 => ctx.triggers().select(S1),
                _ => ctx.triggers().select(S2),
            };
            if kept {
                let _ = selection.execute(&ctx);
                runs.borrow_mut().clear();
            }
            selection.execute(&ctx)
        });
        let mut want = vec![];
        let mut failed = None;
        for (i, (on, fail)) in regs.iter().enumerate() {
            if *on == sel && failed.is_none() {
                want.push(i as u8);
                failed = *fail;
            }
        }
        let runs = runs.borrow();
        check(
            runs.iter().map(|r| r.0).eq(want.iter().copied()),
            "exactly the scheduled triggers run, in order, up to the first failure",
        );
        check(runs.iter().all(|r| r.1), "triggers get arguments made from the running context");
        check(
            match (&r, failed) {
                (Ok(()), None) => true,
                (Err(e), Some(k)) => code(e) == k,
                _ => false,
            },
            "the first failure is what is returned",
        );
        if failed.is_some() {
            cover("failed");
        } else if want.len() > 1 {
            cover("many");
        } else if want.is_empty() {
            cover("none");
        }
    }
}

/// Schedules that are easily taken for one another, and triggers of every sort.
pub fn schedules() {
    use std::{any::Any, marker::PhantomData};

    struct Own {
        i: u8,
        fail: Option<u8>,
        runs: Runs,
    }
    /// A trigger that is no function.
    impl Trigger<Node, Own> for Own {
        fn execute(&self, ctx: &Context<'_, Node>) -> Result<()> {
            let good = ctx.target().with(|n| n.id == 3) == Some(true);
            self.runs.borrow_mut().push((self.i, good));
            outcome(self.fail.is_none(), self.fail.unwrap_or(0))
        }
    }
    /// One that runs another schedule.
    struct Inner;
    impl Trigger<Node, Inner> for Inner {
        fn execute(&self, ctx: &Context<'_, Node>) -> Result<()> {
            ctx.triggers().select(S2).execute(ctx)
        }
    }

    type Step = Box<dyn Fn(Schema<Node>, u8, Option<u8>, &Runs) -> Schema<Node>>;
    type Select = Box<dyn Fn(&Context<'_, Node>) -> Result<()>>;

    fn of<S: 'static>(f: fn() -> S) -> (Step, Select) {
        (
            Box::new(move |s, i, fail, runs| match i % 2 {
                0 => s.with_trigger(f(), Own { i, fail, runs: runs.clone() }),
                _ => register(s, f(), 0, i, 0, fail, runs),
            }),
            Box::new(move |ctx| ctx.triggers().select(f()).execute(ctx)),
        )
    }
    macro_rules! scoped {
        () => {{
            struct Same;
            of(|| Same)
        }};
    }
    let kinds: [(Step, Select); 12] = [
        scoped!(),
        scoped!(),
        of(|| ()),
        of(|| 1u8),
        of(|| 1i8),
        of(|| Box::new(1u8)),
        of(|| Box::new(1u8) as Box<dyn Any>),
        of(|| PhantomData::<u8>),
        of(|| PhantomData::<i8>),
        of(|| Some(BeforeSave)),
        of(|| (BeforeSave, AfterSave)),
        of(|| BeforeSave),
    ];
    let runs: Runs = Default::default();
    let mut s = Schema::from(plotline::graph::Graph::<Node>::default());
    let mut regs = vec![];
    for i in 0..param("n", 2) as u8 {
        let on = pick(kinds.len() as u8) as usize;
        let fail = if flag() { Some(any_fault()) } else { None };
        s = kinds[on].0(s, i, fail, &runs);
        regs.push((on, i, fail));
    }
    // S0 runs S2 in turn, where the last one is as well.
    let nested = flag();
    if nested {
        let fail = if flag() { Some(any_fault()) } else { None };
        s = register(s, S2, 0, 100, 0, fail, &runs);
        s = s.with_trigger(S0, Inner);
        s = register(s, S0, 0, 101, 0, None, &runs);
        regs.push((99, 100, fail));
        regs.push((99, 101, None));
    }
    let sel = if nested { 99 } else { pick(kinds.len() as u8) as usize };
    let r: Result<()> = s.transaction().with(|ctx| {
        let ctx = ctx.with_target(node(3, 0));
        match kinds.get(sel) {
            Some(k) => k.1(&ctx),
            None => ctx.triggers().select(S0).execute(&ctx),
        }
    });
    let mut want = vec![];
    let mut failed = None;
    for (on, i, fail) in &regs {
        if *on == sel && failed.is_none() {
            want.push(*i);
            failed = *fail;
        }
    }
    check(
        runs.borrow().iter().map(|r| r.0).eq(want.iter().copied()),
        "exactly the scheduled triggers run, in order, up to the first failure",
    );
    check(runs.borrow().iter().all(|r| r.1), "triggers get the running context");
    check(came_out(&r, failed.is_none(), failed.unwrap_or(0)), "the first failure is what is returned");
    cover(if nested { "nested" } else if want.is_empty() { "none" } else { "some" });
}

/// The same, for many triggers under one scheduler.
pub fn dispatch_long() {
    let mut s = Schema::from(plotline::graph::Graph::<Node>::default());
    let runs: Runs = Default::default();
    let n = param("n", 40) as u8;
    let stray = spot(n as u32) as u8;
    let (fail_at, why) = (spot(n as u32 + 1) as u8, any_fault());
    for i in 0..n {
        let fail = if i == fail_at { Some(why) } else { None };
        s = if i == stray {
            register(s, S1, 0, i, 0, fail, &runs)
        } else {
            register(s, S0, i % 9, i, 0, fail, &runs)
        };
    }
    let r: Result<()> = s.transaction().with(|ctx| {
        let ctx = ctx.with_target(node(0, 0));
        ctx.triggers().select(S0).execute(&ctx)
    });
    let stops = fail_at < n && fail_at != stray;
    check(came_out(&r, !stops, why), "fails if, and only if, a trigger does");
    let want = (0..n).filter(|i| *i != stray && (!stops || *i <= fail_at));
    check(
        runs.borrow().iter().map(|r| r.0).eq(want),
        "exactly the scheduled triggers run, in order, up to the first failure",
    );
    cover("end");
}

// -- targets --------------------------------------------------------------------------------------

/// Every handle to a context's target shares one value; nested contexts have their own.
pub fn target() {
    let s = Schema::from(plotline::graph::Graph::<Node>::default());
    let (a, b) = ((u8_(), u8_()), (u8_(), u8_()));
    let r: Result<()> = s.transaction().with(|ctx| {
        check(ctx.target().with(|_| ()).is_none(), "no target until it is set");
        check(Target::from(&ctx).with_mut(|_: &mut Node| ()).is_none(), "no target until it is set");
        let none = Target::<Node>::from(&ctx);
        let ctx = ctx.with_target(node(a.0, a.1));
        check(none.with(|_| ()).is_none(), "an older handle stays as it was");

        let mut h = vec![Target::from(&ctx), ctx.target().clone(), Target::from(&ctx)];
        h.push(h[0].clone());
        let mut m = a;
        for _ in 0..param("ops", 3) {
            let w = pick(5) as usize;
            let t = if w == 4 { ctx.target() } else { &h[w] };
            let v = u8_();
            let old = t.with_mut(|n| {
                let old = (n.id, n.val);
                if w % 2 == 0 {
                    n.val = v;
                } else {
                    n.id = v;
                }
                old
            });
            check(old.map_or(false, |o| (o.0 == m.0) & (o.1 == m.1)), "a handle sees the shared value");
            if w % 2 == 0 {
                m.1 = v;
            } else {
                m.0 = v;
            }
            let all = h
                .iter()
                .chain([ctx.target()])
                .all(|t| t.with(|n| (n.id == m.0) & (n.val == m.1)) == Some(true));
            check(all, "every handle sees the change");
        }

        // A nested context has no target of its own until given one, and then only its own.
        let nested: Result<()> = ctx.transaction().with(|sub| {
            check(sub.target().with(|_| ()).is_none(), "a nested context does not inherit the target");
            let sub = sub.with_target(node(b.0, b.1));
            sub.target().with_mut(|n| n.val = n.val.wrapping_add(1));
            check(
                sub.target().with(|n| n.val) == Some(b.1.wrapping_add(1)),
                "a nested context has its own target",
            );
            Ok(())
        });
        check(nested.is_ok(), "commits");
        check(
            h[0].with(|n| (n.id == m.0) & (n.val == m.1)) == Some(true),
            "the outer target is unaffected",
        );

        // Setting a new value on one handle leaves the others on theirs.
        h[1].set(node(b.0, b.1));
        check(h[1].with(|n| (n.id == b.0) & (n.val == b.1)) == Some(true), "a handle shows what it was set to");
        h[1].with_mut(|n| n.val = 7);
        check(
            h[0].with(|n| (n.id == m.0) & (n.val == m.1)) == Some(true),
            "other handles are unaffected",
        );
        // A new target replaces the context's, not what older handles show.
        let ctx = ctx.with_target(node(b.0, b.1));
        check(ctx.target().with(|n| n.val) == Some(b.1), "the context shows its latest target");
        check(
            h[0].with(|n| (n.id == m.0) & (n.val == m.1)) == Some(true),
            "older handles are unaffected",
        );
        Ok(())
    });
    check(r.is_ok(), "commits");
    check((&*s.read()).into_iter().next().is_none(), "targets are not writes");
    cover("end");
}

// -- many -----------------------------------------------------------------------------------------

/// Many triggers around one operation, each of which changes the target and writes a node of its
/// own; one of them may fail.
pub fn save_long() {
    let (mut s, o) = schema(1);
    let n = param("n", 20) as u8;
    let save = flag();
    let (fail_at, why) = (spot(n as u32 + 1) as u8, any_fault());
    let (id, val) = (255u8, u8_());
    let mut g0 = o;
    if !save {
        s.write().insert(node(id, val));
        g0.save(id, val);
    }
    let ran = Rc::new(RefCell::new(0u8));
    for i in 0..n {
        let ran = ran.clone();
        let t = move |ctx: Ctx<'_, Node>, t: Target<Node>| {
            check(*ran.borrow() == i, "in order, each once");
            *ran.borrow_mut() = i + 1;
            check(t.with(|n| n.val) == Some(val.wrapping_add(i)), "sees what earlier triggers did");
            t.with_mut(|n| n.val = n.val.wrapping_add(1));
            let mut seen = None;
            ctx.transaction().with(|sub| {
                seen = Some(i == 0 || sub.contains(&(i - 1)));
                sub.save(node(i, i));
                Ok(())
            })?;
            check(seen == Some(true), "sees what earlier triggers wrote");
            outcome(i != fail_at, why)
        };
        s = match (save, i < n / 2) {
            (true, true) => s.with_trigger(BeforeSave, t),
            (true, false) => s.with_trigger(AfterSave, t),
            (false, true) => s.with_trigger(BeforeDelete, t),
            (false, false) => s.with_trigger(AfterDelete, t),
        };
    }
    let r = if save { Save::new(node(id, val)).execute(s.transaction()) } else { Delete::new(id).execute(s.transaction()) };
    check(came_out(&r, fail_at == n, why), "fails if, and only if, a trigger does");
    check(*ran.borrow() == if fail_at == n { n } else { fail_at + 1 }, "none runs after a failure");
    let mut m = g0;
    if fail_at == n {
        for i in 0..n {
            m.save(i, i);
        }
        if save {
            m.save(id, val.wrapping_add(n / 2));
        } else {
            m.delete(id);
        }
        cover("done");
    } else {
        cover("failed");
    }
    settled(&s, &m, "the operation and its triggers apply as a whole, or not at all");
}

/// Each save runs another, in a trigger, as deep as `n`; one of them may fail, and one may carry
/// on though what it runs fails.
pub fn spread() {
    let n = param("n", 6) as u8;
    let (fail_at, why) = (spot(n as u32 + 1) as u8, any_fault());
    let carry = spot(n as u32 + 1) as u8;
    let (before, late) = (flag(), flag());
    let log = Rc::new(RefCell::new(vec![]));
    let l = log.clone();
    let spread = move |ctx: Ctx<'_, Node>, t: Target<Node>| {
        let i = t.with(|n| n.id).unwrap_or(200);
        l.borrow_mut().push(i);
        if i == fail_at && !late {
            return Err(fault(why));
        }
        if i + 1 < n {
            let r = Save::new(node(i + 1, i)).execute(ctx.transaction());
            if i != carry {
                r?;
            }
        }
        outcome(i != fail_at, why)
    };
    let (mut s, o) = schema(1);
    s = if before { s.with_trigger(BeforeSave, spread) } else { s.with_trigger(AfterSave, spread) };
    let r = Save::new(node(0, 77)).execute(s.transaction());
    let fails = fail_at < n;
    let kept = if !fails { n } else if carry < fail_at { carry + 1 } else { 0 };
    check(r.is_ok() == (kept > 0), "the cascade succeeds or fails as a whole");
    let deepest = if fails && !late { fail_at + 1 } else { n };
    check(log.borrow().len() == deepest as usize, "each operation runs its trigger once");
    let mut m = o;
    for i in 0..kept {
        m.save(i, if i == 0 { 77 } else { i - 1 });
    }
    settled(&s, &m, "what is committed at every level is applied, and nothing else");
    cover(if kept == n {
        "all"
    } else if kept > 0 {
        "some"
    } else {
        "none"
    });
}

/// Many saves and deletes, one of which is arbitrary.
pub fn sequence_long() {
    let (s, mut o) = schema(1);
    let n = param("n", 30) as u8;
    let odd = spot(n as u32) as u8;
    let (id, val, del) = (u8_(), u8_(), flag());
    for i in 0..n {
        let (id, val, del) = if i == odd { (id, val, del) } else { (i % 8, i, i % 3 == 2) };
        if del {
            let had = s.read().contains(&id);
            check(Delete::new(id).execute(s.transaction()).is_ok() == had, "deletes if, and only if, there is something to delete");
            o.delete(id);
        } else {
            check(Save::new(node(id, val)).execute(s.transaction()).is_ok(), "saves");
            o.save(id, val);
        }
        if i % 8 == 7 || i == odd {
            settled(&s, &o, "the graph is the one the operations describe");
        }
    }
    settled(&s, &o, "the graph is the one the operations describe");
    cover("end");
}
