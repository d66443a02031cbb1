//! The path-forking interpreter.
use crate::expr::*;
use crate::ir::*;
use crate::parse::sext;
use crate::solver::*;
use crate::state::*;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Debug)]
pub enum Stop {
    /// The path ends: infeasible or excluded by an assumption.
    Pruned,
    /// All threads finished.
    Finished,
    Violation(String, String),
    Unsupported(String),
    /// The current thread changed: nothing else to do for this instruction.
    Resched,
}

pub type X<T> = Result<T, Stop>;

#[derive(Clone, Debug)]
pub struct Violation {
    pub label: String,
    pub kind: String,
    pub inputs: Vec<(u128, u32)>,
    pub sched: Vec<(u8, u8)>,
    pub panic: String,
    pub trace: Vec<String>,
}

pub struct Shared {
    pub m: &'static Module,
    pub handlers: Vec<Option<crate::externs::Ext>>,
    pub params: BTreeMap<String, u64>,
    pub queue: Mutex<Vec<State>>,
    pub cv: Condvar,
    pub idle: AtomicUsize,
    pub workers: usize,
    pub stop: AtomicBool,
    pub timed_out: AtomicBool,
    pub started: Instant,
    pub deadline: Instant,
    /// When to end, in milliseconds, once it is known that the run is not decided.
    pub soon: AtomicU64,
    pub out: Mutex<Outcome>,
    pub paths: AtomicU64,
    pub pruned: AtomicU64,
    pub steps: AtomicU64,
    pub forks: AtomicU64,
    pub checks_total: AtomicU64,
    pub max_violations: usize,
    pub max_depth: usize,
    pub max_steps: u64,
    pub preempt: u32,
    pub verbose: bool,
    pub timeout_ms: u32,
    /// Concrete input values: execute exactly that path.
    pub fixed: Option<Vec<u128>>,
    /// Ask the solver also where the order facts settle a branch (all, or a sample).
    pub confirm: bool,
    pub implied: AtomicU64,
    pub by_model: AtomicU64,
    pub confirmed: AtomicU64,
}

impl Shared {
    /// Part of the run is beyond the solver or the executor: what can still be found is looked for
    /// a little longer.
    fn undecided(&self, why: String) {
        *self.out.lock().unwrap().unsupported.entry(why).or_default() += 1;
        self.soon.fetch_min(self.started.elapsed().as_millis() as u64 + 25_000, Ordering::Relaxed);
    }

    fn over(&self) -> bool {
        Instant::now() > self.deadline || self.started.elapsed().as_millis() as u64 > self.soon.load(Ordering::Relaxed)
    }
}

#[derive(Default)]
pub struct Outcome {
    pub violations: Vec<Violation>,
    pub violated: std::collections::BTreeMap<(String, String), u64>,
    pub unsupported: BTreeMap<String, u64>,
    pub covers: BTreeMap<String, u64>,
    pub checks: BTreeMap<String, CheckStat>,
    pub funcs: Vec<bool>,
    pub params_used: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub traces: Vec<String>,
}

#[derive(Default, Clone, Debug)]
pub struct CheckStat {
    pub evaluated: u64,
    pub by_simplifier: u64,
    pub by_solver: u64,
    pub failed: u64,
    pub unknown: u64,
}

pub struct W {
    pub sh: Arc<Shared>,
    pub m: &'static Module,
    pub solver: Solver,
    pub pending: Vec<State>,
    pub funcs: Vec<bool>,
    pub covers: BTreeMap<String, u64>,
    pub checks: BTreeMap<String, CheckStat>,
    pub memo: FxMap<u32, u128>,
    pub gtable: Arc<Vec<u32>>,
}

pub enum Place {
    Heap(u64, usize),
    Stack(usize, usize, usize),
    Global(usize, usize),
}

impl W {
    // ---- decisions ------------------------------------------------------------------------

    fn eval_model(&mut self, st: &State, e: u32) -> u128 {
        self.memo.clear();
        eval(e, &st.model, &mut self.memo)
    }

    fn satisfies(&mut self, st: &State, c: u32, model: &[u128]) -> bool {
        self.memo.clear();
        eval(c, model, &mut self.memo) == 1
            && st.pc.iter().rev().all(|&e| eval(e, model, &mut self.memo) == 1)
    }

    fn with_model(old: &Arc<Vec<u128>>, m: Vec<(u32, u128)>) -> Arc<Vec<u128>> {
        let mut v = (**old).clone();
        for (i, x) in m {
            if v.len() <= i as usize {
                v.resize(i as usize + 1, 0);
            }
            v[i as usize] = x;
        }
        Arc::new(v)
    }

    /// Which side of a symbolic boolean this state follows; the other one is forked off.
    pub fn decide(&mut self, st: &mut State, c: u32) -> X<bool> {
        if let Some(k) = as_const(c) {
            return Ok(k == 1);
        }
        let k = node(c).k;
        if k.op == Op::Not {
            return Ok(!self.decide(st, k.a)?);
        }
        if let Some(v) = st.known(c) {
            return Ok(v == 1);
        }
        let v = self.eval_model(st, c) == 1;
        if self.is_pinned(st, c) {
            return Ok(v);
        }
        let full = c;
        let c = st.simplify(c);
        if let Some(f) = as_const(c) {
            let n = self.sh.implied.fetch_add(1, Ordering::Relaxed);
            if (f == 1) != v {
                return Err(Stop::Unsupported("order facts contradict the model".into()));
            }
            if self.sh.confirm || n % 64 == 0 {
                self.sh.confirmed.fetch_add(1, Ordering::Relaxed);
                let other = if v { not(full) } else { full };
                if matches!(self.solver.check(&st.pc, other), Answer::Sat(_)) {
                    return Err(Stop::Unsupported("order facts contradict the solver".into()));
                }
            }
            st.learn(full, v as u128);
            return Ok(v);
        }
        if c != full {
            let r = self.decide(st, c)?;
            st.learn(full, r as u128);
            return Ok(r);
        }
        let (mine, other) = if v { (c, not(c)) } else { (not(c), c) };
        let guess = {
            let mut o = st.order.clone();
            o.learn(c, !v);
            o.candidate(&st.model)
        };
        let answer = match guess {
            Some(m) if self.satisfies(st, other, &m) => {
                self.sh.by_model.fetch_add(1, Ordering::Relaxed);
                Answer::Sat(m.into_iter().enumerate().map(|(i, v)| (i as u32, v)).collect())
            }
            _ => self.solver.check(&st.pc, other),
        };
        match answer {
            Answer::Unsat => {}
            Answer::Sat(m) => {
                let mut alt = st.clone();
                alt.pc.push(other);
                alt.learn(c, !v as u128);
                alt.model = Self::with_model(&st.model, m);
                alt.forks += 1;
                self.sh.forks.fetch_add(1, Ordering::Relaxed);
                self.push(alt);
                st.pc.push(mine);
                st.forks += 1;
            }
            Answer::Unknown => {
                self.pin(st, "solver gave no answer on a branch");
                st.pc.push(mine);
            }
        }
        st.learn(c, v as u128);
        Ok(v)
    }

    /// The solver is out of its depth: go on with the inputs of the model only. The run is not
    /// decided any more, but what it finds is still found.
    fn pin(&mut self, st: &mut State, why: &str) {
        self.sh.undecided(why.into());
        for (k, Input::Var(i, w)) in st.inputs.iter().enumerate() {
            if k < 127 {
                let x = st.model.get(*i as usize).copied().unwrap_or(0) & mask(*w);
                st.pinned |= 1u128 << k;
                st.pc.push(eq(var(*i, *w), konst(x, *w)));
            }
        }
        self.solver.hurry(2000);
    }

    /// Whether what an expression is about has been given up on.
    fn is_pinned(&self, st: &State, e: u32) -> bool {
        st.pinned != 0 && node(e).vars & !st.pinned == 0
    }

    /// Picks one feasible value for an expression; the others are forked off.
    pub fn concretize(&mut self, st: &mut State, v: &Val, w: u32) -> X<u128> {
        let e = match v {
            Val::C(c) => return Ok(*c),
            Val::S(e) => *e,
            Val::Agg(_) => return Err(Stop::Unsupported("aggregate as scalar".into())),
        };
        if let Some(v) = st.known(e) {
            return Ok(v);
        }
        if w == 1 {
            return Ok(self.decide(st, e)? as u128);
        }
        let x = self.eval_model(st, e);
        if self.is_pinned(st, e) {
            return Ok(x);
        }
        let c = eq(e, konst(x, w));
        if self.decide(st, c)? {
            st.learn(e, x);
            return Ok(x);
        }
        Err(Stop::Unsupported("concretization".into()))
    }

    fn push(&mut self, st: State) {
        self.pending.push(st);
        if self.sh.idle.load(Ordering::Relaxed) > 0 && self.pending.len() > 1 {
            let mut q = self.sh.queue.lock().unwrap();
            if q.len() < self.sh.workers {
                let s = self.pending.remove(0);
                q.push(s);
                self.sh.cv.notify_one();
            }
        }
    }

    /// Adds a constraint; prunes the path when it cannot hold.
    pub fn assume(&mut self, st: &mut State, c: u32) -> X<()> {
        if let Some(k) = as_const(c) {
            return if k == 1 { Ok(()) } else { Err(Stop::Pruned) };
        }
        if let Some(v) = self.known_bool(st, c) {
            return if v { Ok(()) } else { Err(Stop::Pruned) };
        }
        if self.is_pinned(st, c) {
            return if self.eval_model(st, c) == 1 { Ok(()) } else { Err(Stop::Pruned) };
        }
        if st.implied(c) == Some(false) {
            return Err(Stop::Pruned);
        }
        if self.eval_model(st, c) != 1 {
            match self.solver.check(&st.pc, c) {
                Answer::Unsat => return Err(Stop::Pruned),
                Answer::Sat(m) => st.model = Self::with_model(&st.model, m),
                Answer::Unknown => {
                    return Err(Stop::Unsupported("solver gave no answer on an assumption".into()))
                }
            }
        }
        st.pc.push(c);
        let k = node(c).k;
        if k.op == Op::Not {
            st.learn(k.a, 0);
        } else {
            st.learn(c, 1);
        }
        Ok(())
    }

    pub fn known_bool(&self, st: &State, c: u32) -> Option<bool> {
        let k = node(c).k;
        if k.op == Op::Not {
            st.known(k.a).map(|v| v == 0)
        } else {
            st.known(c).map(|v| v == 1)
        }
    }

    pub fn check(&mut self, st: &mut State, c: u32, label: &str) -> X<()> {
        self.sh.checks_total.fetch_add(1, Ordering::Relaxed);
        let cs = self.checks.entry(label.to_string()).or_default();
        cs.evaluated += 1;
        if as_const(c) == Some(1) || self.known_bool(st, c) == Some(true) {
            self.checks.get_mut(label).unwrap().by_simplifier += 1;
            return Ok(());
        }
        if self.is_pinned(st, c) {
            if self.eval_model(st, c) == 1 {
                return Ok(());
            }
            self.checks.get_mut(label).unwrap().failed += 1;
            return Err(Stop::Violation(label.into(), "check".into()));
        }
        match self.solver.check(&st.pc, not(c)) {
            Answer::Unsat => {
                self.checks.get_mut(label).unwrap().by_solver += 1;
                if as_const(c).is_none() {
                    let k = node(c).k;
                    if k.op == Op::Not {
                        st.learn(k.a, 0);
                    } else {
                        st.learn(c, 1);
                    }
                }
                Ok(())
            }
            Answer::Unknown => {
                self.checks.get_mut(label).unwrap().unknown += 1;
                self.pin(st, "solver gave no answer on a check");
                if self.eval_model(st, c) == 1 {
                    return Ok(());
                }
                self.checks.get_mut(label).unwrap().failed += 1;
                Err(Stop::Violation(label.into(), "check".into()))
            }
            Answer::Sat(m) => {
                self.checks.get_mut(label).unwrap().failed += 1;
                let mut bad = st.clone();
                bad.model = Self::with_model(&st.model, m);
                if as_const(c) == Some(0) {
                    return Err(Stop::Violation(label.into(), "check".into()));
                }
                self.report(&bad, label.into(), "check".into());
                // go on where it holds, if anywhere
                self.assume(st, c)
            }
        }
    }

    pub fn report(&mut self, st: &State, label: String, kind: String) {
        let inputs = st
            .inputs
            .iter()
            .map(|i| match i {
                Input::Var(i, w) => {
                    (st.model.get(*i as usize).copied().unwrap_or(0) & mask(*w), *w)
                }
            })
            .collect();
        let v = Violation {
            label,
            kind,
            inputs,
            sched: st.sched_log.clone(),
            panic: st.last_panic.clone(),
            trace: st.trace.clone(),
        };
        let mut o = self.sh.out.lock().unwrap();
        // Several for each label, ever farther apart, as some may depend on what a replay cannot choose.
        let seen = o.violated.entry((v.label.clone(), v.kind.clone())).or_default();
        *seen += 1;
        if *seen <= 3 || seen.is_power_of_two() {
            o.violations.push(v);
        }
        if o.violations.len() >= self.sh.max_violations {
            self.sh.stop.store(true, Ordering::Relaxed);
        }
    }

    // ---- memory ---------------------------------------------------------------------------

    pub fn resolve(&self, st: &State, addr: u64, n: u64) -> X<Place> {
        let bad = |what: &str| {
            Err(Stop::Violation(format!("memory fault: {what} at {addr:#x} size {n}"), "memory".into()))
        };
        if addr >= STACK_BASE {
            let r = addr - STACK_BASE;
            let t = (r >> 40) as usize;
            let d = ((r >> OBJ_SHIFT) & 0xffff) as usize;
            let off = r & ((1 << OBJ_SHIFT) - 1);
            let Some(f) = st.threads.get(t).and_then(|t| t.frames.get(d)) else {
                return bad("stack use after return");
            };
            if off + n > f.stack.bytes.len() as u64 {
                return bad("stack out of bounds");
            }
            return Ok(Place::Stack(t, d, off as usize));
        }
        if addr >= HEAP_BASE {
            let idx = (addr - HEAP_BASE) >> OBJ_SHIFT;
            let off = addr & ((1 << OBJ_SHIFT) - 1);
            let Some(o) = st.heap_obj(idx) else { return bad("wild heap access") };
            if !o.alive {
                return bad("use after free");
            }
            if off + n > o.size {
                return bad("heap out of bounds");
            }
            return Ok(Place::Heap(idx, off as usize));
        }
        if addr >= GLOBAL_BASE {
            let slot = ((addr - GLOBAL_BASE) / 16) as usize;
            if let Some(&g) = self.gtable.get(slot) {
                if g != u32::MAX {
                    let gl = &self.m.globals[g as usize];
                    if addr >= gl.addr && addr + n <= gl.addr + gl.size.max(1) {
                        return Ok(Place::Global(g as usize, (addr - gl.addr) as usize));
                    }
                }
            }
            return bad("global out of bounds");
        }
        bad(if addr < 4096 { "null pointer" } else { "wild pointer" })
    }

    pub fn data<'a>(&'a self, st: &'a State, p: &Place) -> (DataRef<'a>, usize) {
        match p {
            Place::Heap(i, o) => (DataRef::D(&st.heap_obj(*i).unwrap().data), *o),
            Place::Stack(t, d, o) => (DataRef::D(&st.threads[*t].frames[*d].stack), *o),
            Place::Global(g, o) => match &st.globals[*g] {
                Some(d) => (DataRef::D(d), *o),
                None => (DataRef::B(&self.m.globals[*g].init), *o),
            },
        }
    }

    pub fn data_mut<'a>(&self, st: &'a mut State, p: &Place) -> X<(&'a mut Data, usize)> {
        Ok(match p {
            Place::Heap(i, o) => (Arc::make_mut(&mut st.heap_obj_mut(*i).unwrap().data), *o),
            Place::Stack(t, d, o) => (&mut Arc::make_mut(&mut st.threads[*t].frames[*d]).stack, *o),
            Place::Global(g, o) => {
                let gl = &self.m.globals[*g];
                if gl.constant {
                    return Err(Stop::Violation(format!("memory fault: write to constant {}", gl.name), "memory".into()));
                }
                let d = st.globals[*g]
                    .get_or_insert_with(|| Arc::new(Data { bytes: gl.init.clone(), sym: None }));
                (Arc::make_mut(d), *o)
            }
        })
    }

    pub fn read_n(&self, st: &State, addr: u64, n: usize) -> X<Val> {
        let p = self.resolve(st, addr, n as u64)?;
        let (d, o) = self.data(st, &p);
        Ok(d.read(o, n))
    }

    pub fn write_n(&self, st: &mut State, addr: u64, n: usize, v: &Val, w: u32) -> X<()> {
        let p = self.resolve(st, addr, n as u64)?;
        let (d, o) = self.data_mut(st, &p)?;
        d.write(o, n, v, w);
        Ok(())
    }

    pub fn load(&self, st: &State, addr: u64, ty: &Ty) -> X<Val> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => {
                let n = ty.store_size() as usize;
                let v = self.read_n(st, addr, n)?;
                let w = ty.bits();
                Ok(if w < n as u32 * 8 { trunc_v(&v, w) } else { v })
            }
            Ty::Vector(n, e) if e.bits() % 8 != 0 => {
                let tot = n * e.bits();
                let v = self.read_n(st, addr, (tot as usize).div_ceil(8))?;
                let v = trunc_v(&v, tot);
                Ok(from_bits(&v, tot, ty))
            }
            Ty::Array(..) | Ty::Struct(..) | Ty::Vector(..) => {
                let mut v = Vec::with_capacity(ty.count());
                for i in 0..ty.count() {
                    v.push(self.load(st, addr + ty.field_offset(i), ty.elem(i))?);
                }
                Ok(Val::Agg(Arc::new(v)))
            }
            _ => Err(Stop::Unsupported(format!("load {ty:?}"))),
        }
    }

    pub fn store(&self, st: &mut State, addr: u64, ty: &Ty, v: &Val) -> X<()> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => {
                self.write_n(st, addr, ty.store_size() as usize, v, ty.bits())
            }
            Ty::Vector(n, e) if e.bits() % 8 != 0 => {
                let tot = n * e.bits();
                let b = to_bits(v, ty);
                self.write_n(st, addr, (tot as usize).div_ceil(8), &b, tot)
            }
            Ty::Array(..) | Ty::Struct(..) | Ty::Vector(..) => {
                let Val::Agg(a) = v else { return Err(Stop::Unsupported("store".into())) };
                for i in 0..ty.count() {
                    self.store(st, addr + ty.field_offset(i), ty.elem(i), &a[i])?;
                }
                Ok(())
            }
            _ => Err(Stop::Unsupported(format!("store {ty:?}"))),
        }
    }

    pub fn copy(&self, st: &mut State, dst: u64, src: u64, n: u64) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        let p = self.resolve(st, src, n)?;
        let d = {
            let (d, o) = self.data(st, &p);
            d.slice(o, n as usize)
        };
        let p = self.resolve(st, dst, n)?;
        let (t, o) = self.data_mut(st, &p)?;
        t.put(o, &d);
        Ok(())
    }

    pub fn read_str(&mut self, st: &mut State, addr: u64, n: u64) -> X<String> {
        let mut v = Vec::new();
        for i in 0..n {
            let b = self.read_n(st, addr + i, 1)?;
            match b {
                Val::C(c) => v.push(c as u8),
                _ => v.push(b'?'),
            }
        }
        Ok(String::from_utf8_lossy(&v).into_owned())
    }

    /// A load through a symbolic pointer, when it stays within one object of concrete data.
    fn load_sym(&mut self, st: &mut State, e: u32, ty: &Ty) -> X<Option<Val>> {
        if !ty.is_scalar() {
            return Ok(None);
        }
        let n = ty.store_size();
        let a0 = self.eval_model(st, e) as u64;
        let Ok(p) = self.resolve(st, a0, n) else { return Ok(None) };
        let (base, size) = match &p {
            Place::Heap(i, o) => (a0 - *o as u64, st.heap_obj(*i).unwrap().size),
            Place::Stack(..) => return Ok(None),
            Place::Global(g, o) => (a0 - *o as u64, self.m.globals[*g].size),
        };
        if size > 4096 || size < n {
            return Ok(None);
        }
        // stay inside?
        let off = bin(BinOp::Sub, e, konst(base as u128, 64));
        let inside = ult(off, konst((size - n + 1) as u128, 64));
        if as_const(inside) != Some(1) {
            match self.solver.check(&st.pc, not(inside)) {
                Answer::Unsat => {}
                _ => return Ok(None),
            }
        }
        // stride
        let mut stride = n;
        let zeros = low_zeros(off);
        if zeros > 0 {
            stride = stride.max(1 << zeros.min(12));
        }
        if n > 1 && (1u64 << zeros.min(12)) % n != 0 {
            return Ok(None);
        }
        let (d, _) = self.data(st, &p);
        let mut runs: Vec<(u64, Val)> = Vec::new();
        let mut o = 0;
        while o + n <= size {
            let v = d.read(o as usize, n as usize);
            let same = match (runs.last().map(|r| &r.1), &v) {
                (Some(Val::C(a)), Val::C(b)) => a == b,
                (Some(Val::S(a)), Val::S(b)) => a == b,
                _ => false,
            };
            if !same {
                runs.push((o, v));
            }
            o += stride;
        }
        if runs.len() > 64 {
            return Ok(None);
        }
        let w = ty.bits();
        fn build(off: u32, runs: &[(u64, Val)], w: u32) -> u32 {
            if runs.len() == 1 {
                return to_e(&runs[0].1, w);
            }
            let mid = runs.len() / 2;
            let c = ult(off, konst(runs[mid].0 as u128, 64));
            let a = build(off, &runs[..mid], w);
            let b = build(off, &runs[mid..], w);
            ite(c, a, b)
        }
        let r = build(off, &runs, n as u32 * 8);
        Ok(Some(to_v(if w < n as u32 * 8 { extract(r, 0, w) } else { r })))
    }

    // ---- scheduling -----------------------------------------------------------------------

    /// Before a visible operation: fork the schedules that preempt the current thread here.
    pub fn sched_point(&mut self, st: &mut State) -> X<()> {
        if st.threads.len() <= 1 {
            return Ok(());
        }
        if st.skip {
            st.skip = false;
            return Ok(());
        }
        if st.preempt == 0 {
            return Ok(());
        }
        for t in 0..st.threads.len() {
            if t != st.cur && st.threads[t].status == Status::Run {
                let mut alt = st.clone();
                alt.sched_log.push((alt.cur as u8, t as u8));
                alt.cur = t;
                alt.preempt -= 1;
                alt.skip = true;
                self.sh.forks.fetch_add(1, Ordering::Relaxed);
                self.push(alt);
            }
        }
        Ok(())
    }

    /// The current thread cannot go on (or offers the processor): choose another one.
    pub fn switch(&mut self, st: &mut State) -> X<()> {
        let run: Vec<usize> =
            (0..st.threads.len()).filter(|t| *t != st.cur && st.threads[*t].status == Status::Run).collect();
        if run.is_empty() {
            if st.threads[st.cur].status == Status::Run {
                return Ok(());
            }
            if st.threads.iter().all(|t| t.status == Status::Done) {
                return Err(Stop::Finished);
            }
            return Err(Stop::Violation("deadlock: every live thread is blocked".into(), "deadlock".into()));
        }
        for &t in &run[1..] {
            let mut alt = st.clone();
            alt.sched_log.push((alt.cur as u8, t as u8));
            alt.cur = t;
            alt.skip = true;
            self.sh.forks.fetch_add(1, Ordering::Relaxed);
            self.push(alt);
        }
        st.sched_log.push((st.cur as u8, run[0] as u8));
        st.cur = run[0];
        st.skip = true;
        Err(Stop::Resched)
    }

    // ---- calls ----------------------------------------------------------------------------

    pub fn enter(&mut self, st: &mut State, f: u32, args: Vec<Val>) -> X<()> {
        let func = &self.m.funcs[f as usize];
        if !func.defined {
            return Err(Stop::Unsupported(format!("external function {}", func.name)));
        }
        self.funcs[f as usize] = true;
        let depth = st.threads[st.cur].frames.len();
        if depth >= self.sh.max_depth {
            return Err(Stop::Violation(
                format!("stack overflow: runaway recursion in {}", func.name),
                "stack".into(),
            ));
        }
        let mut regs = vec![Val::C(0); func.nregs as usize];
        if args.len() < func.params.len() {
            return Err(Stop::Unsupported(format!("argument count of {}", func.name)));
        }
        for (i, a) in args.into_iter().enumerate() {
            if let Some(p) = func.params.get(i) {
                let a = match func.byval.get(i) {
                    Some(Some(sz)) => {
                        let Val::C(src) = a else { return Err(Stop::Unsupported("byval".into())) };
                        let d = st.alloc(*sz);
                        self.copy(st, d, src as u64, *sz)?;
                        Val::C(d as u128)
                    }
                    _ => a,
                };
                regs[*p as usize] = a;
            }
        }
        let fr = Frame {
            func: f,
            block: 0,
            ip: 0,
            regs,
            stack: Data::zeroed(func.frame_size as usize),
            exc: 0,
        };
        let cur = st.cur;
        st.threads[cur].frames.push(Arc::new(fr));
        Ok(())
    }

    fn jump(&mut self, st: &mut State, to: u32) {
        let cur = st.cur;
        let fr = Arc::make_mut(st.threads[cur].frames.last_mut().unwrap());
        let from = fr.block;
        let b = &self.m.funcs[fr.func as usize].blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals: Vec<(u32, Val)> = Vec::with_capacity(b.phis.len());
            for (d, inc) in &b.phis {
                let v = inc.iter().find(|(p, _)| *p == from).map(|(_, o)| match o {
                    Opd::R(r) => fr.regs[*r as usize].clone(),
                    Opd::K(k) => k.clone(),
                });
                vals.push((*d, v.unwrap_or(Val::C(0))));
            }
            for (d, v) in vals {
                fr.regs[d as usize] = v;
            }
        }
        fr.block = to;
        fr.ip = 0;
    }

    /// Completes the call instruction of the top frame.
    pub fn ret(&mut self, st: &mut State, v: Val) {
        let cur = st.cur;
        let fr = Arc::make_mut(st.threads[cur].frames.last_mut().unwrap());
        let inst = &self.m.funcs[fr.func as usize].blocks[fr.block as usize].insts[fr.ip as usize];
        let Inst::Call { dst, invoke, .. } = inst else { panic!("return to a non-call") };
        if let Some(d) = dst {
            fr.regs[*d as usize] = v;
        }
        match invoke {
            Some((n, _)) => self.jump(st, *n),
            None => fr.ip += 1,
        }
    }

    /// Unwinds from the call instruction of the top frame.
    pub fn unwind(&mut self, st: &mut State, exc: u64) -> X<()> {
        let cur = st.cur;
        loop {
            let Some(fr) = st.threads[cur].frames.last_mut() else {
                let msg = format!("uncaught panic: {}", st.last_panic);
                return Err(Stop::Violation("panic escaped".into(), msg));
            };
            let f = &self.m.funcs[fr.func as usize];
            let inst = &f.blocks[fr.block as usize].insts[fr.ip as usize];
            if let Inst::Call { invoke: Some((_, pad)), .. } = inst {
                let pad = *pad;
                Arc::make_mut(fr).exc = exc;
                self.jump(st, pad);
                return Ok(());
            }
            st.threads[cur].frames.pop();
        }
    }

    fn thread_done(&mut self, st: &mut State) -> X<()> {
        let cur = st.cur;
        st.threads[cur].status = Status::Done;
        for t in 0..st.threads.len() {
            if st.threads[t].status == Status::Join(cur as u32) {
                st.threads[t].status = Status::Run;
            }
        }
        if cur == 0 {
            // the harness function returned
            return Err(Stop::Finished);
        }
        self.switch(st)
    }

    // ---- the interpreter ------------------------------------------------------------------

    fn opd(fr: &Frame, o: &Opd) -> Val {
        match o {
            Opd::R(r) => fr.regs[*r as usize].clone(),
            Opd::K(k) => k.clone(),
        }
    }

    pub fn run(&mut self, st: &mut State) -> Stop {
        let mut n = 0u64;
        loop {
            match self.step(st) {
                Ok(()) => {}
                Err(Stop::Resched) => {}
                Err(s) => {
                    st.steps += n & 1023;
                    self.sh.steps.fetch_add(n & 1023, Ordering::Relaxed);
                    return s;
                }
            }
            n += 1;
            if n & 1023 == 0 {
                st.steps += 1024;
                self.sh.steps.fetch_add(1024, Ordering::Relaxed);
                if st.steps > self.sh.max_steps {
                    return Stop::Violation("no termination within the step limit".into(), "hang".into());
                }
                if self.sh.stop.load(Ordering::Relaxed) {
                    return Stop::Pruned;
                }
                if n & 0xffff == 0 && self.sh.over() {
                    self.sh.timed_out.store(true, Ordering::Relaxed);
                    self.sh.stop.store(true, Ordering::Relaxed);
                    return Stop::Pruned;
                }
            }
        }
    }

    fn addr(&mut self, st: &mut State, v: &Val) -> X<u64> {
        match v {
            Val::C(c) => Ok(*c as u64),
            v => Ok(self.concretize(st, v, 64)? as u64),
        }
    }

    fn step(&mut self, st: &mut State) -> X<()> {
        let cur = st.cur;
        let m = self.m;
        let fr = Arc::make_mut(st.threads[cur].frames.last_mut().unwrap());
        let f = &m.funcs[fr.func as usize];
        let inst = &f.blocks[fr.block as usize].insts[fr.ip as usize];
        macro_rules! set {
            ($d:expr, $v:expr) => {{
                let v = $v;
                let fr = Arc::make_mut(st.threads[cur].frames.last_mut().unwrap());
                fr.regs[*$d as usize] = v;
                fr.ip += 1;
                return Ok(());
            }};
        }
        match inst {
            Inst::Bin(op, ty, d, a, b) => {
                let a = Self::opd(fr, a);
                let b = Self::opd(fr, b);
                set!(d, bin_v(*op, ty, &a, &b)?)
            }
            Inst::ICmp(p, ty, d, a, b) => {
                let a = Self::opd(fr, a);
                let b = Self::opd(fr, b);
                set!(d, icmp_v(*p, ty, &a, &b)?)
            }
            Inst::Cast(op, from, to, d, a) => {
                let a = Self::opd(fr, a);
                set!(d, cast_v(*op, from, to, &a)?)
            }
            Inst::FBin(op, w, d, a, b) => {
                let (a, b) = (Self::opd(fr, a), Self::opd(fr, b));
                set!(d, fbin(*op, *w, &a, &b)?)
            }
            Inst::FCmp(op, w, d, a, b) => {
                let (a, b) = (Self::opd(fr, a), Self::opd(fr, b));
                set!(d, fcmp(*op, *w, &a, &b)?)
            }
            Inst::Load(d, ty, p, atomic) => {
                let p = Self::opd(fr, p);
                if let Val::S(e) = p {
                    if st.known(e).is_none() {
                        if let Some(v) = self.load_sym(st, e, ty)? {
                            set!(d, v)
                        }
                    }
                }
                let a = self.addr(st, &p)?;
                if *atomic {
                    self.sched_point(st)?;
                }
                let v = self.load(st, a, ty)?;
                set!(d, v)
            }
            Inst::Store(ty, v, p, atomic) => {
                let p = Self::opd(fr, p);
                let v = Self::opd(fr, v);
                let a = self.addr(st, &p)?;
                if *atomic {
                    self.sched_point(st)?;
                }
                self.store(st, a, ty, &v)?;
                Arc::make_mut(st.threads[cur].frames.last_mut().unwrap()).ip += 1;
                Ok(())
            }
            Inst::Gep(d, base, off, idx) => {
                let mut acc = Self::opd(fr, base);
                if *off != 0 {
                    acc = bin_s(BinOp::Add, &acc, &Val::C(*off as u64 as u128), 64)?;
                }
                for (o, w, sc) in idx {
                    let i = Self::opd(fr, o);
                    let i = match i {
                        Val::C(c) => Val::C((sext(c, *w) as u128) & mask(64)),
                        Val::S(e) => to_v(if *w < 64 { sext_e(e, 64) } else { extract(e, 0, 64) }),
                        _ => return Err(Stop::Unsupported("vector gep".into())),
                    };
                    let i = bin_s(BinOp::Mul, &i, &Val::C(*sc as u128), 64)?;
                    acc = bin_s(BinOp::Add, &acc, &i, 64)?;
                }
                set!(d, acc)
            }
            Inst::Alloca(d, off) => {
                let depth = st.threads[cur].frames.len() as u64 - 1;
                let a = STACK_BASE + ((cur as u64) << 40) + (depth << OBJ_SHIFT) + off;
                set!(d, Val::C(a as u128))
            }
            Inst::AllocaDyn(d, sz, n) => {
                let n = Self::opd(fr, n);
                let n = self.concretize(st, &n, 64)? as u64;
                let a = st.alloc(sz * n);
                set!(d, Val::C(a as u128))
            }
            Inst::Select(d, ty, c, a, b, vec) => {
                let c = Self::opd(fr, c);
                let a = Self::opd(fr, a);
                let b = Self::opd(fr, b);
                if *vec {
                    let (Val::Agg(c), Val::Agg(a), Val::Agg(b)) = (c, a, b) else {
                        return Err(Stop::Unsupported("select".into()));
                    };
                    let w = ty.elem(0).bits();
                    let v = (0..c.len()).map(|i| select_s(&c[i], &a[i], &b[i], w)).collect();
                    set!(d, Val::Agg(Arc::new(v)))
                }
                let v = match c {
                    Val::C(1) => a,
                    Val::C(_) => b,
                    Val::S(e) => {
                        if matches!(ty, Ty::Int(_)) {
                            match st.known(e) {
                                Some(1) => a,
                                Some(_) => b,
                                None => select_s(&Val::S(e), &a, &b, ty.bits()),
                            }
                        } else if self.decide(st, e)? {
                            a
                        } else {
                            b
                        }
                    }
                    _ => return Err(Stop::Unsupported("select".into())),
                };
                set!(d, v)
            }
            Inst::ExtractValue(d, a, idx) => {
                let mut v = Self::opd(fr, a);
                for i in idx {
                    v = match v {
                        Val::Agg(a) => a[*i as usize].clone(),
                        _ => return Err(Stop::Unsupported("extractvalue".into())),
                    };
                }
                set!(d, v)
            }
            Inst::InsertValue(d, a, v, idx) => {
                let a = Self::opd(fr, a);
                let v = Self::opd(fr, v);
                fn ins(a: Val, idx: &[u32], v: Val) -> Val {
                    if idx.is_empty() {
                        return v;
                    }
                    let Val::Agg(mut a) = a else { panic!("insertvalue") };
                    let m = Arc::make_mut(&mut a);
                    let i = idx[0] as usize;
                    let old = std::mem::replace(&mut m[i], Val::C(0));
                    m[i] = ins(old, &idx[1..], v);
                    Val::Agg(a)
                }
                set!(d, ins(a, idx, v))
            }
            Inst::ExtractElement(d, a, i) => {
                let a = Self::opd(fr, a);
                let i = Self::opd(fr, i);
                let i = self.concretize(st, &i, 64)? as usize;
                let Val::Agg(a) = a else { return Err(Stop::Unsupported("extractelement".into())) };
                set!(d, a[i].clone())
            }
            Inst::InsertElement(d, a, v, i) => {
                let a = Self::opd(fr, a);
                let v = Self::opd(fr, v);
                let i = Self::opd(fr, i);
                let i = self.concretize(st, &i, 64)? as usize;
                let Val::Agg(mut a) = a else { return Err(Stop::Unsupported("insertelement".into())) };
                Arc::make_mut(&mut a)[i] = v;
                set!(d, Val::Agg(a))
            }
            Inst::Shuffle(d, a, b, mk) => {
                let (Val::Agg(a), Val::Agg(b)) = (Self::opd(fr, a), Self::opd(fr, b)) else {
                    return Err(Stop::Unsupported("shuffle".into()));
                };
                let v = mk
                    .iter()
                    .map(|&i| {
                        let i = i as usize;
                        if i < a.len() {
                            a[i].clone()
                        } else {
                            b[(i - a.len()) % b.len()].clone()
                        }
                    })
                    .collect();
                set!(d, Val::Agg(Arc::new(v)))
            }
            Inst::Rmw(op, d, ty, p, v) => {
                let p = Self::opd(fr, p);
                let v = Self::opd(fr, v);
                let a = self.addr(st, &p)?;
                self.sched_point(st)?;
                let old = self.load(st, a, ty)?;
                let w = ty.bits();
                let new = match op {
                    RmwOp::Xchg => v,
                    RmwOp::Add => bin_s(BinOp::Add, &old, &v, w)?,
                    RmwOp::Sub => bin_s(BinOp::Sub, &old, &v, w)?,
                    RmwOp::And => bin_s(BinOp::And, &old, &v, w)?,
                    RmwOp::Or => bin_s(BinOp::Or, &old, &v, w)?,
                    RmwOp::Xor => bin_s(BinOp::Xor, &old, &v, w)?,
                    RmwOp::Nand => {
                        let x = bin_s(BinOp::And, &old, &v, w)?;
                        bin_s(BinOp::Xor, &x, &Val::C(mask(w)), w)?
                    }
                    RmwOp::Max | RmwOp::Min | RmwOp::UMax | RmwOp::UMin => {
                        let p = match op {
                            RmwOp::Max => Pred::Sgt,
                            RmwOp::Min => Pred::Slt,
                            RmwOp::UMax => Pred::Ugt,
                            _ => Pred::Ult,
                        };
                        let c = icmp_s(p, &old, &v, w);
                        select_s(&c, &old, &v, w)
                    }
                };
                self.store(st, a, ty, &new)?;
                set!(d, old)
            }
            Inst::CmpXchg(d, ty, p, c, n, _weak) => {
                let p = Self::opd(fr, p);
                let c = Self::opd(fr, c);
                let n = Self::opd(fr, n);
                let a = self.addr(st, &p)?;
                let old = self.load(st, a, ty)?;
                let ok = icmp_s(Pred::Eq, &old, &c, ty.bits());
                let ok = match ok {
                    Val::S(e) => self.decide(st, e)?,
                    Val::C(k) => k == 1,
                    _ => unreachable!(),
                };
                self.sched_point(st)?;
                if ok {
                    self.store(st, a, ty, &n)?;
                }
                set!(d, Val::Agg(Arc::new(vec![old, Val::C(ok as u128)])))
            }
            Inst::Freeze(d, a) => {
                let v = Self::opd(fr, a);
                set!(d, v)
            }
            Inst::LandingPad(d) => {
                let v = Val::Agg(Arc::new(vec![Val::C(fr.exc as u128), Val::C(1)]));
                set!(d, v)
            }
            Inst::Nop => {
                fr.ip += 1;
                Ok(())
            }
            Inst::Br(b) => {
                self.jump(st, *b);
                Ok(())
            }
            Inst::CondBr(c, a, b) => {
                let c = match Self::opd(fr, c) {
                    Val::C(k) => k == 1,
                    Val::S(e) => self.decide(st, e)?,
                    _ => return Err(Stop::Unsupported("branch".into())),
                };
                self.jump(st, if c { *a } else { *b });
                Ok(())
            }
            Inst::Switch(w, v, def, cases) => {
                let v = Self::opd(fr, v);
                match v {
                    Val::C(c) => {
                        let t = cases.iter().find(|(k, _)| *k == c).map(|x| x.1).unwrap_or(*def);
                        self.jump(st, t);
                        Ok(())
                    }
                    Val::S(e) => {
                        let mut groups: Vec<(u32, u32)> = Vec::new();
                        for (k, t) in cases {
                            let c = eq(e, konst(*k, *w));
                            match groups.iter_mut().find(|g| g.0 == *t) {
                                Some(g) => g.1 = bin(BinOp::Or, g.1, c),
                                None => groups.push((*t, c)),
                            }
                        }
                        for (t, c) in groups {
                            if t == *def {
                                continue;
                            }
                            if self.decide(st, c)? {
                                self.jump(st, t);
                                return Ok(());
                            }
                        }
                        self.jump(st, *def);
                        Ok(())
                    }
                    _ => Err(Stop::Unsupported("switch".into())),
                }
            }
            Inst::Ret(v) => {
                let v = match v {
                    Some((_, o)) => Self::opd(fr, o),
                    None => Val::C(0),
                };
                st.threads[cur].frames.pop();
                if st.threads[cur].frames.is_empty() {
                    return self.thread_done(st);
                }
                self.ret(st, v);
                Ok(())
            }
            Inst::Resume(v) => {
                let exc = match Self::opd(fr, v) {
                    Val::Agg(a) => match &a[0] {
                        Val::C(c) => *c as u64,
                        _ => 0,
                    },
                    _ => 0,
                };
                st.threads[cur].frames.pop();
                self.unwind(st, exc)
            }
            Inst::Unreachable => Err(Stop::Violation(
                format!("unreachable code reached in {}", f.name),
                "unreachable".into(),
            )),
            Inst::Call { ret, callee, args, dst, .. } => {
                let mut vals = Vec::with_capacity(args.len());
                for (_, o) in args {
                    vals.push(Self::opd(fr, o));
                }
                match callee {
                    Callee::Func(id) => self.call(st, *id, vals, args),
                    Callee::Indirect(o) => {
                        let p = Self::opd(fr, o);
                        let a = self.addr(st, &p)?;
                        match self.m.func_at(a) {
                            Some(id) => self.call(st, id, vals, args),
                            None => Err(Stop::Violation(
                                format!("memory fault: call of {a:#x}"),
                                "memory".into(),
                            )),
                        }
                    }
                    Callee::Intrinsic(i) => {
                        let has_dst = dst.is_some();
                        let v = self.intrinsic(st, *i, ret, args, vals, has_dst)?;
                        self.ret(st, v);
                        Ok(())
                    }
                    Callee::Asm(t) => {
                        // `black_box` and friends: no effect
                        if t.starts_with('|') {
                            self.ret(st, Val::zero(ret));
                            Ok(())
                        } else {
                            Err(Stop::Unsupported(format!("inline assembly {t:?}")))
                        }
                    }
                }
            }
        }
    }

    fn call(&mut self, st: &mut State, id: u32, vals: Vec<Val>, args: &[(Ty, Opd)]) -> X<()> {
        if let Some(h) = self.sh.handlers[id as usize] {
            return h(self, st, &vals, args);
        }
        self.enter(st, id, vals)
    }

    fn intrinsic(
        &mut self,
        st: &mut State,
        i: Intr,
        ret: &Ty,
        args: &[(Ty, Opd)],
        v: Vec<Val>,
        _dst: bool,
    ) -> X<Val> {
        let w = args.first().map(|(t, _)| if t.is_scalar() { t.bits() } else { 0 }).unwrap_or(0);
        if w == 0 && !args.is_empty() {
            match i {
                Intr::ReduceOr | Intr::ReduceAnd | Intr::ReduceAdd => {}
                _ if matches!(args[0].0, Ty::Vector(..)) => return self.vector_intrinsic(i, args, &v),
                _ => {}
            }
        }
        Ok(match i {
            Intr::Nop => Val::zero(ret),
            Intr::Assume => Val::C(0),
            Intr::Memcpy => {
                let n = self.concretize(st, &v[2], args[2].0.bits())? as u64;
                if n == 0 {
                    return Ok(Val::C(0));
                }
                let d = self.addr(st, &v[0])?;
                let s = self.addr(st, &v[1])?;
                self.copy(st, d, s, n)?;
                Val::C(0)
            }
            Intr::Memset => {
                let n = self.concretize(st, &v[2], args[2].0.bits())? as u64;
                if n == 0 {
                    return Ok(Val::C(0));
                }
                let d = self.addr(st, &v[0])?;
                let p = self.resolve(st, d, n)?;
                let (t, o) = self.data_mut(st, &p)?;
                for i in 0..n as usize {
                    t.write(o + i, 1, &v[1], 8);
                }
                Val::C(0)
            }
            Intr::Trap => return Err(Stop::Violation("abort: trap".into(), "abort".into())),
            Intr::IsConstant => Val::C(0),
            Intr::Expect => v[0].clone(),
            Intr::WithOverflow(op, signed) => {
                let r = bin_s(op, &v[0], &v[1], w)?;
                let ovf = overflow(op, signed, &v[0], &v[1], w)?;
                Val::Agg(Arc::new(vec![r, ovf]))
            }
            Intr::UCmp | Intr::SCmp => {
                let rw = ret.bits();
                let p = if i == Intr::UCmp { Pred::Ult } else { Pred::Slt };
                let lt = icmp_s(p, &v[0], &v[1], w);
                let e = icmp_s(Pred::Eq, &v[0], &v[1], w);
                let x = select_s(&e, &Val::C(0), &Val::C(1), rw);
                select_s(&lt, &Val::C(mask(rw)), &x, rw)
            }
            Intr::UMax | Intr::UMin | Intr::SMax | Intr::SMin => {
                let p = match i {
                    Intr::UMax => Pred::Ugt,
                    Intr::UMin => Pred::Ult,
                    Intr::SMax => Pred::Sgt,
                    _ => Pred::Slt,
                };
                let c = icmp_s(p, &v[0], &v[1], w);
                select_s(&c, &v[0], &v[1], w)
            }
            Intr::UAddSat => {
                let r = bin_s(BinOp::Add, &v[0], &v[1], w)?;
                let o = overflow(BinOp::Add, false, &v[0], &v[1], w)?;
                select_s(&o, &Val::C(mask(w)), &r, w)
            }
            Intr::USubSat => {
                let r = bin_s(BinOp::Sub, &v[0], &v[1], w)?;
                let o = icmp_s(Pred::Ult, &v[0], &v[1], w);
                select_s(&o, &Val::C(0), &r, w)
            }
            Intr::SAddSat | Intr::SSubSat => {
                let op = if i == Intr::SAddSat { BinOp::Add } else { BinOp::Sub };
                let r = bin_s(op, &v[0], &v[1], w)?;
                let o = overflow(op, true, &v[0], &v[1], w)?;
                let neg = icmp_s(Pred::Slt, &v[0], &Val::C(0), w);
                let sat = select_s(&neg, &Val::C(1 << (w - 1)), &Val::C(mask(w - 1)), w);
                select_s(&o, &sat, &r, w)
            }
            Intr::Ctlz | Intr::Cttz | Intr::Ctpop | Intr::Bswap | Intr::Bitreverse => match &v[0] {
                Val::C(c) => Val::C(match i {
                    Intr::Ctlz => (c.leading_zeros() - (128 - w)) as u128,
                    Intr::Cttz => (c.trailing_zeros().min(w)) as u128,
                    Intr::Ctpop => c.count_ones() as u128,
                    Intr::Bswap => c.swap_bytes() >> (128 - w),
                    _ => c.reverse_bits() >> (128 - w),
                }),
                Val::S(e) => to_v(match i {
                    Intr::Ctlz => {
                        let mut r = konst(w as u128, w);
                        for b in 0..w {
                            r = ite(extract(*e, b, 1), konst((w - 1 - b) as u128, w), r);
                        }
                        r
                    }
                    Intr::Cttz => {
                        let mut r = konst(w as u128, w);
                        for b in (0..w).rev() {
                            r = ite(extract(*e, b, 1), konst(b as u128, w), r);
                        }
                        r
                    }
                    Intr::Ctpop => {
                        let mut r = konst(0, w);
                        for b in 0..w {
                            r = bin(BinOp::Add, r, zext(extract(*e, b, 1), w));
                        }
                        r
                    }
                    Intr::Bswap => {
                        let mut r = extract(*e, 0, 8);
                        for b in 1..w / 8 {
                            r = concat(r, extract(*e, b * 8, 8));
                        }
                        r
                    }
                    _ => {
                        let mut r = extract(*e, 0, 1);
                        for b in 1..w {
                            r = concat(r, extract(*e, b, 1));
                        }
                        r
                    }
                }),
                _ => return Err(Stop::Unsupported("vector bit intrinsic".into())),
            },
            Intr::Fshl | Intr::Fshr => {
                let s = self.concretize(st, &v[2], w)? as u32 % w;
                if s == 0 {
                    return Ok(if i == Intr::Fshl { v[0].clone() } else { v[1].clone() });
                }
                let sl = if i == Intr::Fshl { s } else { w - s };
                let hi = bin_s(BinOp::Shl, &v[0], &Val::C(sl as u128), w)?;
                let lo = bin_s(BinOp::LShr, &v[1], &Val::C((w - sl) as u128), w)?;
                bin_s(BinOp::Or, &hi, &lo, w)?
            }
            Intr::Abs => {
                let neg = icmp_s(Pred::Slt, &v[0], &Val::C(0), w);
                let n = bin_s(BinOp::Sub, &Val::C(0), &v[0], w)?;
                select_s(&neg, &n, &v[0], w)
            }
            Intr::TlsAddr => {
                let Val::C(a) = v[0] else { return Err(Stop::Unsupported("tls".into())) };
                let a = a as u64;
                let Place::Global(g, off) = self.resolve(st, a, 0)? else {
                    return Err(Stop::Unsupported("tls".into()));
                };
                let cur = st.cur;
                if let Some((_, b)) = st.threads[cur].tls.iter().find(|x| x.0 == g as u32) {
                    return Ok(Val::C((*b + off as u64) as u128));
                }
                let gl = &self.m.globals[g];
                let b = st.alloc(gl.size.max(1));
                let p = self.resolve(st, b, gl.size)?;
                let init = Data { bytes: gl.init.clone(), sym: None };
                self.data_mut(st, &p)?.0.put(0, &init);
                st.threads[cur].tls.push((g as u32, b));
                Val::C((b + off as u64) as u128)
            }
            Intr::Pause => {
                if st.threads.len() > 1 {
                    // the spinning thread lets another one make progress
                    let run = (0..st.threads.len())
                        .any(|t| t != st.cur && st.threads[t].status == Status::Run);
                    if run {
                        self.ret(st, Val::C(0));
                        return Err(match self.switch(st) {
                            Err(e) => e,
                            Ok(()) => Stop::Resched,
                        });
                    }
                }
                Val::C(0)
            }
            Intr::LoadRelative => {
                let b = self.addr(st, &v[0])?;
                let o = self.concretize(st, &v[1], w.max(32))? as u64;
                let r = self.read_n(st, b.wrapping_add(o), 4)?;
                let Val::C(r) = r else { return Err(Stop::Unsupported("load.relative".into())) };
                Val::C(b.wrapping_add(sext(r, 32) as u64) as u128)
            }
            Intr::ObjectSize => Val::C(mask(ret.bits())),
            Intr::ReduceOr | Intr::ReduceAnd | Intr::ReduceAdd => {
                let Val::Agg(a) = &v[0] else { return Err(Stop::Unsupported("reduce".into())) };
                let ew = args[0].0.elem(0).bits();
                let op = match i {
                    Intr::ReduceOr => BinOp::Or,
                    Intr::ReduceAnd => BinOp::And,
                    _ => BinOp::Add,
                };
                let mut r = a[0].clone();
                for x in &a[1..] {
                    r = bin_s(op, &r, x, ew)?;
                }
                r
            }
            Intr::Unsupported(k) => {
                return Err(Stop::Unsupported(self.m.unsupported[k as usize].clone()))
            }
        })
    }

    fn vector_intrinsic(&mut self, i: Intr, args: &[(Ty, Opd)], v: &[Val]) -> X<Val> {
        let (Val::Agg(a), Some(Val::Agg(b))) = (&v[0], v.get(1)) else {
            return Err(Stop::Unsupported(format!("vector intrinsic {i:?}")));
        };
        let w = args[0].0.elem(0).bits();
        let p = match i {
            Intr::UMax => Pred::Ugt,
            Intr::UMin => Pred::Ult,
            Intr::SMax => Pred::Sgt,
            Intr::SMin => Pred::Slt,
            _ => return Err(Stop::Unsupported(format!("vector intrinsic {i:?}"))),
        };
        Ok(Val::Agg(Arc::new(
            (0..a.len())
                .map(|k| {
                    let c = icmp_s(p, &a[k], &b[k], w);
                    select_s(&c, &a[k], &b[k], w)
                })
                .collect(),
        )))
    }
}

pub enum DataRef<'a> {
    D(&'a Data),
    B(&'a [u8]),
}
impl DataRef<'_> {
    pub fn read(&self, o: usize, n: usize) -> Val {
        match self {
            DataRef::D(d) => d.read(o, n),
            DataRef::B(b) => {
                let mut v = [0u8; 16];
                v[..n].copy_from_slice(&b[o..o + n]);
                Val::C(u128::from_le_bytes(v))
            }
        }
    }
    pub fn slice(&self, o: usize, n: usize) -> Data {
        match self {
            DataRef::D(d) => d.slice(o, n),
            DataRef::B(b) => Data { bytes: b[o..o + n].to_vec(), sym: None },
        }
    }
}

/// Number of low bits known to be zero.
fn low_zeros(e: u32) -> u32 {
    let k = node(e).k;
    match k.op {
        Op::Const => k.imm.trailing_zeros().min(k.w as u32),
        Op::Concat => {
            let z = low_zeros(k.b);
            let lw = width(k.b);
            if z == lw {
                lw + low_zeros(k.a)
            } else {
                z
            }
        }
        Op::Bin(BinOp::Add | BinOp::Sub) => low_zeros(k.a).min(low_zeros(k.b)),
        Op::Bin(BinOp::Mul) => low_zeros(k.a) + low_zeros(k.b),
        Op::Ite => low_zeros(k.b).min(low_zeros(k.c)),
        _ => 0,
    }
}

pub fn trunc_v(v: &Val, w: u32) -> Val {
    match v {
        Val::C(c) => Val::C(c & mask(w)),
        Val::S(e) => to_v(extract(*e, 0, w)),
        v => v.clone(),
    }
}

pub fn bin_s(op: BinOp, a: &Val, b: &Val, w: u32) -> X<Val> {
    if let (Val::C(x), Val::C(y)) = (a, b) {
        return match fold(op, *x, *y, w) {
            Some(r) => Ok(Val::C(r)),
            None => Err(Stop::Violation("division by zero".into(), "ub".into())),
        };
    }
    if matches!(a, Val::Agg(_)) || matches!(b, Val::Agg(_)) {
        return Err(Stop::Unsupported("aggregate operand".into()));
    }
    Ok(to_v(bin(op, to_e(a, w), to_e(b, w))))
}

pub fn icmp_s(p: Pred, a: &Val, b: &Val, w: u32) -> Val {
    match (a, b) {
        (Val::C(x), Val::C(y)) => Val::C(fold_pred(p, *x, *y, w) as u128),
        _ => to_v(pred(p, to_e(a, w), to_e(b, w))),
    }
}

pub fn select_s(c: &Val, a: &Val, b: &Val, w: u32) -> Val {
    match c {
        Val::C(1) => a.clone(),
        Val::C(_) => b.clone(),
        Val::S(e) => to_v(ite(*e, to_e(a, w), to_e(b, w))),
        _ => panic!("select"),
    }
}

fn overflow(op: BinOp, signed: bool, a: &Val, b: &Val, w: u32) -> X<Val> {
    if let (Val::C(x), Val::C(y)) = (a, b) {
        let o = if signed {
            let (x, y) = (sext(*x, w), sext(*y, w));
            let r = match op {
                BinOp::Add => x.checked_add(y),
                BinOp::Sub => x.checked_sub(y),
                _ => x.checked_mul(y),
            };
            match r {
                None => true,
                Some(r) => sext(r as u128 & mask(w), w) != r,
            }
        } else {
            let r = match op {
                BinOp::Add => x.checked_add(*y),
                BinOp::Sub => x.checked_sub(*y),
                _ => x.checked_mul(*y),
            };
            match r {
                None => true,
                Some(r) => r > mask(w),
            }
        };
        return Ok(Val::C(o as u128));
    }
    if w > 64 {
        return Err(Stop::Unsupported("wide overflow".into()));
    }
    let (x, y) = (to_e(a, w), to_e(b, w));
    Ok(to_v(match (op, signed) {
        (BinOp::Sub, false) => ult(x, y),
        (BinOp::Add, false) => ult(bin(BinOp::Add, x, y), x),
        _ => {
            let n = if op == BinOp::Mul { 2 * w } else { w + 1 };
            let (p, q) = if signed { (sext_e(x, n), sext_e(y, n)) } else { (zext(x, n), zext(y, n)) };
            let r = bin(op, p, q);
            let t = extract(r, 0, w);
            let back = if signed { sext_e(t, n) } else { zext(t, n) };
            not(eq(r, back))
        }
    }))
}

fn bin_v(op: BinOp, ty: &Ty, a: &Val, b: &Val) -> X<Val> {
    if let Ty::Vector(n, e) = ty {
        let (Val::Agg(a), Val::Agg(b)) = (a, b) else {
            return Err(Stop::Unsupported("vector operands".into()));
        };
        let w = e.bits();
        let mut v = Vec::with_capacity(*n as usize);
        for i in 0..*n as usize {
            v.push(bin_s(op, &a[i], &b[i], w)?);
        }
        return Ok(Val::Agg(Arc::new(v)));
    }
    bin_s(op, a, b, ty.bits())
}

fn icmp_v(p: Pred, ty: &Ty, a: &Val, b: &Val) -> X<Val> {
    if let Ty::Vector(n, e) = ty {
        let (Val::Agg(a), Val::Agg(b)) = (a, b) else {
            return Err(Stop::Unsupported("vector operands".into()));
        };
        let w = e.bits();
        return Ok(Val::Agg(Arc::new((0..*n as usize).map(|i| icmp_s(p, &a[i], &b[i], w)).collect())));
    }
    Ok(icmp_s(p, a, b, ty.bits()))
}

pub fn to_bits(v: &Val, ty: &Ty) -> Val {
    match (v, ty) {
        (Val::Agg(a), Ty::Vector(_, e)) => {
            let w = e.bits();
            let tot = w * a.len() as u32;
            if a.iter().all(|x| matches!(x, Val::C(_))) {
                let mut r = 0u128;
                for (i, x) in a.iter().enumerate() {
                    if let Val::C(c) = x {
                        r |= c << (i as u32 * w);
                    }
                }
                return Val::C(r & mask(tot));
            }
            let mut r = to_e(&a[0], w);
            for x in &a[1..] {
                r = concat(to_e(x, w), r);
            }
            to_v(r)
        }
        _ => v.clone(),
    }
}

pub fn from_bits(v: &Val, tot: u32, ty: &Ty) -> Val {
    match ty {
        Ty::Vector(n, e) => {
            let w = e.bits();
            Val::Agg(Arc::new(
                (0..*n)
                    .map(|i| match v {
                        Val::C(c) => Val::C((c >> (i * w)) & mask(w)),
                        Val::S(x) => to_v(extract(*x, i * w, w)),
                        _ => panic!(),
                    })
                    .collect(),
            ))
        }
        _ => {
            let _ = tot;
            v.clone()
        }
    }
}

fn cast_s(op: CastOp, fw: u32, tw: u32, v: &Val) -> X<Val> {
    Ok(match op {
        CastOp::Trunc => trunc_v(v, tw),
        CastOp::ZExt => match v {
            Val::C(c) => Val::C(*c),
            Val::S(e) => to_v(zext(*e, tw)),
            _ => return Err(Stop::Unsupported("zext".into())),
        },
        CastOp::SExt => match v {
            Val::C(c) => Val::C(sext(*c, fw) as u128 & mask(tw)),
            Val::S(e) => to_v(sext_e(*e, tw)),
            _ => return Err(Stop::Unsupported("sext".into())),
        },
        CastOp::Bit => v.clone(),
        _ => {
            let Val::C(c) = v else { return Err(Stop::Unsupported("symbolic floating point".into())) };
            let f = |x: f64| match tw {
                32 => (x as f32).to_bits() as u128,
                _ => x.to_bits() as u128,
            };
            let g = |c: u128| match fw {
                32 => f32::from_bits(c as u32) as f64,
                _ => f64::from_bits(c as u64),
            };
            match op {
                CastOp::UiToFp => Val::C(if tw == 32 { (*c as f32).to_bits() as u128 } else { f(*c as f64) }),
                CastOp::SiToFp => {
                    let s = sext(*c, fw);
                    Val::C(if tw == 32 { (s as f32).to_bits() as u128 } else { f(s as f64) })
                }
                CastOp::FpToUi => Val::C(g(*c) as u128 & mask(tw)),
                CastOp::FpToSi => Val::C(g(*c) as i128 as u128 & mask(tw)),
                _ => Val::C(f(g(*c))),
            }
        }
    })
}

fn cast_v(op: CastOp, from: &Ty, to: &Ty, v: &Val) -> X<Val> {
    if op == CastOp::Bit && (!from.is_scalar() || !to.is_scalar()) {
        let b = to_bits(v, from);
        return Ok(from_bits(&b, 0, to));
    }
    if let (Ty::Vector(_, f), Ty::Vector(_, t)) = (from, to) {
        let Val::Agg(a) = v else { return Err(Stop::Unsupported("vector cast".into())) };
        let mut r = Vec::with_capacity(a.len());
        for x in a.iter() {
            r.push(cast_s(op, f.bits(), t.bits(), x)?);
        }
        return Ok(Val::Agg(Arc::new(r)));
    }
    cast_s(op, from.bits(), to.bits(), v)
}

fn fbin(op: u8, w: u32, a: &Val, b: &Val) -> X<Val> {
    let (Val::C(a), Val::C(b)) = (a, b) else {
        return Err(Stop::Unsupported("symbolic floating point".into()));
    };
    macro_rules! go {
        ($t:ty, $u:ty) => {{
            let x = <$t>::from_bits(*a as $u);
            let y = <$t>::from_bits(*b as $u);
            let r = match op {
                0 => x + y,
                1 => x - y,
                2 => x * y,
                3 => x / y,
                4 => x % y,
                _ => -x,
            };
            Ok(Val::C(r.to_bits() as u128))
        }};
    }
    match w {
        32 => go!(f32, u32),
        64 => go!(f64, u64),
        _ => Err(Stop::Unsupported("float width".into())),
    }
}

fn fcmp(op: u8, w: u32, a: &Val, b: &Val) -> X<Val> {
    let (Val::C(a), Val::C(b)) = (a, b) else {
        return Err(Stop::Unsupported("symbolic floating point".into()));
    };
    let (x, y) = match w {
        32 => (f32::from_bits(*a as u32) as f64, f32::from_bits(*b as u32) as f64),
        64 => (f64::from_bits(*a as u64), f64::from_bits(*b as u64)),
        _ => return Err(Stop::Unsupported("float width".into())),
    };
    let uno = x.is_nan() || y.is_nan();
    let r = match op {
        0 => false,
        1 => x == y,
        2 => x > y,
        3 => x >= y,
        4 => x < y,
        5 => x <= y,
        6 => !uno && x != y,
        7 => !uno,
        8 => uno || x == y,
        9 => uno || x > y,
        10 => uno || x >= y,
        11 => uno || x < y,
        12 => uno || x <= y,
        13 => x != y,
        14 => uno,
        _ => true,
    };
    Ok(Val::C(r as u128))
}

// ---- the work loop ----------------------------------------------------------------------------

pub fn worker(sh: Arc<Shared>, gtable: Arc<Vec<u32>>) {
    let mut w = W {
        m: sh.m,
        solver: Solver::new(sh.timeout_ms),
        pending: Vec::new(),
        funcs: vec![false; sh.m.funcs.len()],
        covers: BTreeMap::new(),
        checks: BTreeMap::new(),
        memo: FxMap::default(),
        gtable,
        sh: sh.clone(),
    };
    'outer: loop {
        let mut st = match w.pending.pop() {
            Some(s) => s,
            None => {
                let mut q = sh.queue.lock().unwrap();
                sh.idle.fetch_add(1, Ordering::SeqCst);
                loop {
                    if sh.stop.load(Ordering::Relaxed) {
                        sh.cv.notify_all();
                        break 'outer;
                    }
                    if let Some(s) = q.pop() {
                        sh.idle.fetch_sub(1, Ordering::SeqCst);
                        break s;
                    }
                    if sh.idle.load(Ordering::SeqCst) == sh.workers {
                        sh.cv.notify_all();
                        break 'outer;
                    }
                    let (g, _) = sh.cv.wait_timeout(q, Duration::from_millis(100)).unwrap();
                    q = g;
                }
            }
        };
        if sh.stop.load(Ordering::Relaxed) {
            break;
        }
        if sh.over() {
            sh.timed_out.store(true, Ordering::Relaxed);
            sh.stop.store(true, Ordering::Relaxed);
            break;
        }
        let r = w.run(&mut st);
        match r {
            Stop::Pruned => {
                sh.pruned.fetch_add(1, Ordering::Relaxed);
            }
            Stop::Finished => {
                let n = sh.paths.fetch_add(1, Ordering::Relaxed);
                // 0..3, then ever sparser
                if n < 4 || n.is_power_of_two() || (n % 3 == 0 && (n / 3).is_power_of_two()) {
                    let s = st.inputs.iter().map(|Input::Var(i, w)| {
                        (st.model.get(*i as usize).copied().unwrap_or(0) & mask(*w)).to_string()
                    });
                    let mut o = sh.out.lock().unwrap();
                    o.samples.push(format!(
                        "{{\"path\": {n}, \"constraints\": {}, \"steps\": {}, \"switches\": {}, \"inputs\": [{}], \"events\": \"{:016x}\"}}",
                        st.pc.len(),
                        st.steps,
                        st.sched_log.len(),
                        s.collect::<Vec<_>>().join(", "),
                        st.events,
                    ));
                    if !st.trace.is_empty() {
                        let t = st.trace.join(" ");
                        o.traces.push(t);
                    }
                }
            }
            Stop::Violation(l, k) => w.report(&st, l, k),
            Stop::Unsupported(m) => {
                let mut bt = m;
                if sh.verbose {
                    let t = &st.threads[st.cur];
                    for f in t.frames.iter().rev().take(12) {
                        bt.push_str("\n    at ");
                        bt.push_str(&w.m.funcs[f.func as usize].name);
                    }
                }
                sh.undecided(bt);
            }
            Stop::Resched => unreachable!(),
        }
    }
    let mut o = sh.out.lock().unwrap();
    for (k, v) in w.covers {
        *o.covers.entry(k).or_default() += v;
    }
    for (k, v) in w.checks {
        let c = o.checks.entry(k).or_default();
        c.evaluated += v.evaluated;
        c.by_simplifier += v.by_simplifier;
        c.by_solver += v.by_solver;
        c.failed += v.failed;
        c.unknown += v.unknown;
    }
    if o.funcs.is_empty() {
        o.funcs = vec![false; w.funcs.len()];
    }
    for (i, b) in w.funcs.iter().enumerate() {
        if *b {
            o.funcs[i] = true;
        }
    }
}
