//! Environment of the encoded code: the C library functions it calls and the harness interface.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use crate::state::*;
use std::sync::Arc;

pub type Ext = fn(&mut W, &mut State, &[Val], &[(Ty, Opd)]) -> X<()>;

fn c(w: &mut W, st: &mut State, v: &Val, args: &[(Ty, Opd)], i: usize) -> X<u64> {
    Ok(w.concretize(st, v, args[i].0.bits())? as u64)
}

fn malloc(w: &mut W, st: &mut State, v: &[Val], a: &[(Ty, Opd)]) -> X<()> {
    let n = c(w, st, &v[0], a, 0)?;
    if n > 1 << 28 {
        return Err(Stop::Unsupported(format!("allocation of {n} bytes")));
    }
    let p = st.alloc(n);
    w.ret(st, Val::C(p as u128));
    Ok(())
}
fn calloc(w: &mut W, st: &mut State, v: &[Val], a: &[(Ty, Opd)]) -> X<()> {
    let n = c(w, st, &v[0], a, 0)?;
    let m = c(w, st, &v[1], a, 1)?;
    if n * m > 1 << 28 {
        return Err(Stop::Unsupported("allocation size".into()));
    }
    let p = st.alloc(n * m);
    w.ret(st, Val::C(p as u128));
    Ok(())
}
fn posix_memalign(w: &mut W, st: &mut State, v: &[Val], a: &[(Ty, Opd)]) -> X<()> {
    let out = c(w, st, &v[0], a, 0)?;
    let n = c(w, st, &v[2], a, 2)?;
    let p = st.alloc(n);
    w.write_n(st, out, 8, &Val::C(p as u128), 64)?;
    w.ret(st, Val::C(0));
    Ok(())
}
fn release(st: &mut State, p: u64) -> X<()> {
    let idx = p.wrapping_sub(HEAP_BASE) >> OBJ_SHIFT;
    match st.heap_obj_mut(idx) {
        Some(o) if p >= HEAP_BASE && p < STACK_BASE && o.alive && p & ((1 << OBJ_SHIFT) - 1) == 0 => {
            o.alive = false;
            o.data = Arc::new(Data::zeroed(0));
            Ok(())
        }
        _ => Err(Stop::Violation(format!("memory fault: bad free of {p:#x}"), "memory".into())),
    }
}
fn free(w: &mut W, st: &mut State, v: &[Val], a: &[(Ty, Opd)]) -> X<()> {
    let p = c(w, st, &v[0], a, 0)?;
    if p != 0 {
        release(st, p)?;
    }
    w.ret(st, Val::C(0));
    Ok(())
}
fn realloc(w: &mut W, st: &mut State, v: &[Val], a: &[(Ty, Opd)]) -> X<()> {
    let p = c(w, st, &v[0], a, 0)?;
    let n = c(w, st, &v[1], a, 1)?;
    if n > 1 << 28 {
        return Err(Stop::Unsupported(format!("allocation of {n} bytes")));
    }
    let q = st.alloc(n);
    if p != 0 {
        let old = match st.heap_obj((p - HEAP_BASE) >> OBJ_SHIFT) {
            Some(o) if o.alive => o.size,
            _ => return Err(Stop::Violation("memory fault: bad realloc".into(), "memory".into())),
        };
        w.copy(st, q, p, old.min(n))?;
        release(st, p)?;
    }
    w.ret(st, Val::C(q as u128));
    Ok(())
}

/// memcmp as an expression: the first difference decides.
fn compare(w: &mut W, st: &mut State, v: &[Val], a: &[(Ty, Opd)], ordered: bool) -> X<()> {
    let n = c(w, st, &v[2], a, 2)?;
    if n == 0 {
        w.ret(st, Val::C(0));
        return Ok(());
    }
    let p = c(w, st, &v[0], a, 0)?;
    let q = c(w, st, &v[1], a, 1)?;
    let mut r = konst(0, 32);
    if !ordered && n <= 16 {
        let x = w.read_n(st, p, n as usize)?;
        let y = w.read_n(st, q, n as usize)?;
        let e = icmp_s(Pred::Eq, &x, &y, n as u32 * 8);
        w.ret(st, select_s(&e, &Val::C(0), &Val::C(1), 32));
        return Ok(());
    }
    for i in (0..n).rev() {
        let x = w.read_n(st, p + i, 1)?;
        let y = w.read_n(st, q + i, 1)?;
        let (x, y) = (to_e(&x, 8), to_e(&y, 8));
        let d = if ordered {
            ite(ult(x, y), konst(mask(32), 32), konst(1, 32))
        } else {
            konst(1, 32)
        };
        r = ite(eq(x, y), r, d);
    }
    w.ret(st, to_v(r));
    Ok(())
}
fn bcmp(w: &mut W, st: &mut State, v: &[Val], a: &[(Ty, Opd)]) -> X<()> {
    compare(w, st, v, a, false)
}
fn memcmp(w: &mut W, st: &mut State, v: &[Val], a: &[(Ty, Opd)]) -> X<()> {
    compare(w, st, v, a, true)
}
fn strlen(w: &mut W, st: &mut State, v: &[Val], a: &[(Ty, Opd)]) -> X<()> {
    let p = c(w, st, &v[0], a, 0)?;
    let mut n = 0;
    loop {
        let b = w.read_n(st, p + n, 1)?;
        let z = icmp_s(Pred::Eq, &b, &Val::C(0), 8);
        let z = match z {
            Val::S(e) => w.decide(st, e)?,
            Val::C(k) => k == 1,
            _ => unreachable!(),
        };
        if z {
            break;
        }
        n += 1;
    }
    w.ret(st, Val::C(n as u128));
    Ok(())
}
fn memchr_any(w: &mut W, st: &mut State, v: &[Val], a: &[(Ty, Opd)], rev: bool) -> X<()> {
    let n = c(w, st, &v[2], a, 2)?;
    let p = c(w, st, &v[0], a, 0)?;
    let x = trunc_v(&v[1], 8);
    for k in 0..n {
        let i = if rev { n - 1 - k } else { k };
        let b = w.read_n(st, p + i, 1)?;
        let z = match icmp_s(Pred::Eq, &b, &x, 8) {
            Val::S(e) => w.decide(st, e)?,
            Val::C(k) => k == 1,
            _ => unreachable!(),
        };
        if z {
            w.ret(st, Val::C((p + i) as u128));
            return Ok(());
        }
    }
    w.ret(st, Val::C(0));
    Ok(())
}
fn memchr(w: &mut W, st: &mut State, v: &[Val], a: &[(Ty, Opd)]) -> X<()> {
    memchr_any(w, st, v, a, false)
}
fn memrchr(w: &mut W, st: &mut State, v: &[Val], a: &[(Ty, Opd)]) -> X<()> {
    memchr_any(w, st, v, a, true)
}
fn abort(_: &mut W, st: &mut State, _: &[Val], _: &[(Ty, Opd)]) -> X<()> {
    Err(Stop::Violation(format!("abort: {}", st.last_panic), "abort".into()))
}
fn null(w: &mut W, st: &mut State, _: &[Val], _: &[(Ty, Opd)]) -> X<()> {
    w.ret(st, Val::C(0));
    Ok(())
}
fn write(w: &mut W, st: &mut State, v: &[Val], _: &[(Ty, Opd)]) -> X<()> {
    w.ret(st, v[2].clone());
    Ok(())
}
fn errno(w: &mut W, st: &mut State, _: &[Val], _: &[(Ty, Opd)]) -> X<()> {
    let cur = st.cur;
    if st.threads[cur].errno == 0 {
        let p = st.alloc(8);
        st.threads[cur].errno = p;
    }
    let p = st.threads[cur].errno;
    w.ret(st, Val::C(p as u128));
    Ok(())
}
/// Thread-local destructors are not run: a key is handed out, and what is set under it is not asked for.
fn key_create(w: &mut W, st: &mut State, v: &[Val], a: &[(Ty, Opd)]) -> X<()> {
    let p = c(w, st, &v[0], a, 0)?;
    w.write_n(st, p, 4, &Val::C(1), 32)?;
    w.ret(st, Val::C(0));
    Ok(())
}
fn gettid(w: &mut W, st: &mut State, _: &[Val], _: &[(Ty, Opd)]) -> X<()> {
    let t = st.cur as u128 + 1000;
    w.ret(st, Val::C(t));
    Ok(())
}
fn raise(w: &mut W, st: &mut State, v: &[Val], a: &[(Ty, Opd)]) -> X<()> {
    let p = c(w, st, &v[0], a, 0)?;
    w.unwind(st, p)
}
fn set_errno(w: &mut W, st: &mut State, e: u64) -> X<()> {
    let cur = st.cur;
    if st.threads[cur].errno == 0 {
        let p = st.alloc(8);
        st.threads[cur].errno = p;
    }
    let p = st.threads[cur].errno;
    w.write_n(st, p, 4, &Val::C(e as u128), 32)
}
fn syscall(w: &mut W, st: &mut State, v: &[Val], a: &[(Ty, Opd)]) -> X<()> {
    let n = c(w, st, &v[0], a, 0)?;
    match n {
        202 => {
            let addr = c(w, st, &v[1], a, 1)?;
            let op = c(w, st, &v[2], a, 2)? & 0x7f;
            let val = c(w, st, &v[3], a, 3)?;
            match op {
                0 | 9 => {
                    let cv = w.read_n(st, addr, 4)?;
                    let cv = w.concretize(st, &cv, 32)? as u64;
                    w.sched_point(st)?;
                    if cv != val & 0xffff_ffff {
                        set_errno(w, st, 11)?;
                        w.ret(st, Val::C(mask(64)));
                        return Ok(());
                    }
                    w.ret(st, Val::C(0));
                    let cur = st.cur;
                    st.threads[cur].status = Status::Futex(addr);
                    w.switch(st)
                }
                1 | 10 => {
                    w.sched_point(st)?;
                    let mut k = 0;
                    for t in 0..st.threads.len() {
                        if k < val && st.threads[t].status == Status::Futex(addr) {
                            st.threads[t].status = Status::Run;
                            k += 1;
                        }
                    }
                    w.ret(st, Val::C(k as u128));
                    Ok(())
                }
                _ => Err(Stop::Unsupported(format!("futex operation {op}"))),
            }
        }
        318 => {
            // getrandom: zeroes
            let len = c(w, st, &v[2], a, 2)?;
            let p = c(w, st, &v[1], a, 1)?;
            for i in 0..len {
                w.write_n(st, p + i, 1, &Val::C(0), 8)?;
            }
            w.ret(st, Val::C(len as u128));
            Ok(())
        }
        186 => {
            let t = st.cur as u128 + 1000;
            w.ret(st, Val::C(t));
            Ok(())
        }
        _ => Err(Stop::Unsupported(format!("system call {n}"))),
    }
}
fn getrandom(w: &mut W, st: &mut State, v: &[Val], a: &[(Ty, Opd)]) -> X<()> {
    let p = c(w, st, &v[0], a, 0)?;
    let len = c(w, st, &v[1], a, 1)?;
    for i in 0..len {
        w.write_n(st, p + i, 1, &Val::C(0), 8)?;
    }
    w.ret(st, Val::C(len as u128));
    Ok(())
}

// ---- harness interface ------------------------------------------------------------------------

fn sym(w: &mut W, st: &mut State, bits: u32) -> X<()> {
    let i = st.inputs.len() as u32;
    st.inputs.push(Input::Var(i, bits));
    if let Some(f) = &w.sh.fixed {
        let v = f.get(i as usize).copied().unwrap_or(0) & mask(bits);
        let mut m = (*st.model).clone();
        m.resize(i as usize + 1, 0);
        m[i as usize] = v;
        st.model = Arc::new(m);
        w.ret(st, Val::C(v));
        return Ok(());
    }
    w.ret(st, Val::S(var(i, bits)));
    Ok(())
}
fn sym_u8(w: &mut W, st: &mut State, _: &[Val], _: &[(Ty, Opd)]) -> X<()> {
    sym(w, st, 8)
}
fn sym_u16(w: &mut W, st: &mut State, _: &[Val], _: &[(Ty, Opd)]) -> X<()> {
    sym(w, st, 16)
}
fn sym_u32(w: &mut W, st: &mut State, _: &[Val], _: &[(Ty, Opd)]) -> X<()> {
    sym(w, st, 32)
}
fn sym_u64(w: &mut W, st: &mut State, _: &[Val], _: &[(Ty, Opd)]) -> X<()> {
    sym(w, st, 64)
}
fn truth(v: &Val, w: u32) -> u32 {
    let e = to_e(v, w);
    if w == 1 {
        e
    } else {
        not(eq(e, konst(0, w)))
    }
}
fn sym_assume(w: &mut W, st: &mut State, v: &[Val], a: &[(Ty, Opd)]) -> X<()> {
    let e = truth(&v[0], a[0].0.bits());
    w.assume(st, e)?;
    w.ret(st, Val::C(0));
    Ok(())
}
fn text(w: &mut W, st: &mut State, v: &[Val], a: &[(Ty, Opd)], i: usize) -> X<String> {
    let p = c(w, st, &v[i], a, i)?;
    let n = c(w, st, &v[i + 1], a, i + 1)?;
    w.read_str(st, p, n)
}
fn sym_check(w: &mut W, st: &mut State, v: &[Val], a: &[(Ty, Opd)]) -> X<()> {
    let l = text(w, st, v, a, 1)?;
    let e = truth(&v[0], a[0].0.bits());
    w.check(st, e, &l)?;
    st.event(l.as_bytes());
    w.ret(st, Val::C(0));
    Ok(())
}
fn sym_cover(w: &mut W, st: &mut State, v: &[Val], a: &[(Ty, Opd)]) -> X<()> {
    let l = text(w, st, v, a, 0)?;
    st.event(l.as_bytes());
    *w.covers.entry(l).or_default() += 1;
    w.ret(st, Val::C(0));
    Ok(())
}
fn sym_each(w: &mut W, st: &mut State, v: &[Val], a: &[(Ty, Opd)]) -> X<()> {
    let x = c(w, st, &v[0], a, 0)?;
    w.ret(st, Val::C(x as u128));
    Ok(())
}
fn sym_param(w: &mut W, st: &mut State, v: &[Val], a: &[(Ty, Opd)]) -> X<()> {
    let l = text(w, st, v, a, 0)?;
    let d = c(w, st, &v[2], a, 2)?;
    let x = w.sh.params.get(&l).copied().unwrap_or(d);
    w.sh.out.lock().unwrap().params_used.insert(l, x);
    w.ret(st, Val::C(x as u128 & mask(32)));
    Ok(())
}
fn sym_note(w: &mut W, st: &mut State, v: &[Val], a: &[(Ty, Opd)]) -> X<()> {
    let l = text(w, st, v, a, 0)?;
    st.last_panic = l;
    w.ret(st, Val::C(0));
    Ok(())
}
fn sym_trace(w: &mut W, st: &mut State, v: &[Val], a: &[(Ty, Opd)]) -> X<()> {
    let b = a[0].0.bits();
    let x = match &v[0] {
        Val::C(c) => *c,
        Val::S(e) => {
            w.memo.clear();
            eval(*e, &st.model, &mut w.memo)
        }
        _ => 0,
    };
    st.trace.push(format!("{}", x & mask(b)));
    w.ret(st, Val::C(0));
    Ok(())
}
fn sym_engine(w: &mut W, st: &mut State, _: &[Val], _: &[(Ty, Opd)]) -> X<()> {
    w.ret(st, Val::C(1));
    Ok(())
}
fn sym_spawn(w: &mut W, st: &mut State, v: &[Val], a: &[(Ty, Opd)]) -> X<()> {
    let f = c(w, st, &v[0], a, 0)?;
    let id = w.m.func_at(f).ok_or(Stop::Unsupported("spawn".into()))?;
    let t = st.threads.len();
    w.ret(st, Val::C(t as u128));
    st.threads.push(Thread { frames: vec![], status: Status::Run, tls: vec![], errno: 0, process: 0 });
    let cur = st.cur;
    st.cur = t;
    let r = w.enter(st, id, vec![v[1].clone()]);
    st.cur = cur;
    r
}
/// Sets the command line, the way the loader does.
fn sym_args(w: &mut W, st: &mut State, v: &[Val], _: &[(Ty, Opd)]) -> X<()> {
    let f = w.m.funcs.iter().position(|f| f.defined && f.name.contains("ARGV_INIT_ARRAY") && f.name.contains("init_wrapper"));
    let f = f.ok_or(Stop::Unsupported("command line".into()))?;
    w.enter(st, f as u32, vec![v[0].clone(), v[1].clone(), Val::C(0)])
}
/// Calls a function that may end its process: returns what it returns, or 256 plus the exit status.
fn sym_process(w: &mut W, st: &mut State, v: &[Val], a: &[(Ty, Opd)]) -> X<()> {
    let f = c(w, st, &v[0], a, 0)?;
    let id = w.m.func_at(f).ok_or(Stop::Unsupported("process".into()))?;
    let cur = st.cur;
    let depth = st.threads[cur].frames.len();
    st.threads[cur].process = depth;
    w.enter(st, id, vec![v[1].clone()])
}
fn exit(w: &mut W, st: &mut State, v: &[Val], a: &[(Ty, Opd)]) -> X<()> {
    let code = c(w, st, &v[0], a, 0)?;
    let cur = st.cur;
    let depth = st.threads[cur].process;
    if depth == 0 || depth > st.threads[cur].frames.len() {
        return Err(Stop::Unsupported("exit".into()));
    }
    st.threads[cur].frames.truncate(depth);
    w.ret(st, Val::C(256 + (code & 255) as u128));
    Ok(())
}
/// Nothing is a terminal.
fn isatty(w: &mut W, st: &mut State, _: &[Val], _: &[(Ty, Opd)]) -> X<()> {
    set_errno(w, st, 25)?;
    w.ret(st, Val::C(0));
    Ok(())
}
/// Time passes, a little from one question to the next.
fn clock_gettime(w: &mut W, st: &mut State, v: &[Val], a: &[(Ty, Opd)]) -> X<()> {
    let p = c(w, st, &v[1], a, 1)?;
    st.clock += 1000;
    let now = st.clock;
    w.write_n(st, p, 8, &Val::C((1_700_000_000 + now / 1_000_000_000) as u128), 64)?;
    w.write_n(st, p + 8, 8, &Val::C((now % 1_000_000_000) as u128), 64)?;
    w.ret(st, Val::C(0));
    Ok(())
}
fn getpid(w: &mut W, st: &mut State, _: &[Val], _: &[(Ty, Opd)]) -> X<()> {
    w.ret(st, Val::C(1000));
    Ok(())
}
fn minus_one(w: &mut W, st: &mut State, _: &[Val], _: &[(Ty, Opd)]) -> X<()> {
    set_errno(w, st, 38)?;
    w.ret(st, Val::C(mask(32)));
    Ok(())
}
fn sysconf(w: &mut W, st: &mut State, v: &[Val], a: &[(Ty, Opd)]) -> X<()> {
    let r = match c(w, st, &v[0], a, 0)? {
        30 => 4096,
        83 | 84 => 4,
        _ => mask(64),
    };
    w.ret(st, Val::C(r));
    Ok(())
}
fn thread_self(w: &mut W, st: &mut State, _: &[Val], _: &[(Ty, Opd)]) -> X<()> {
    let t = st.cur as u128 + 1000;
    w.ret(st, Val::C(t));
    Ok(())
}
fn sym_join(w: &mut W, st: &mut State, v: &[Val], a: &[(Ty, Opd)]) -> X<()> {
    let t = c(w, st, &v[0], a, 0)? as usize;
    if st.threads[t].status == Status::Done {
        w.ret(st, Val::C(0));
        return Ok(());
    }
    let cur = st.cur;
    st.threads[cur].status = Status::Join(t as u32);
    w.switch(st)
}
fn sym_yield(w: &mut W, st: &mut State, _: &[Val], _: &[(Ty, Opd)]) -> X<()> {
    w.sched_point(st)?;
    w.ret(st, Val::C(0));
    Ok(())
}

pub fn table(m: &Module) -> Vec<Option<Ext>> {
    m.funcs
        .iter()
        .map(|f| {
            if f.defined {
                return None;
            }
            let h: Ext = match f.name.as_str() {
                "malloc" => malloc,
                "calloc" => calloc,
                "realloc" => realloc,
                "free" => free,
                "posix_memalign" => posix_memalign,
                "bcmp" => bcmp,
                "memcmp" => memcmp,
                "strlen" => strlen,
                "memchr" => memchr,
                "memrchr" => memrchr,
                "abort" => abort,
                "getenv" => null,
                "write" => write,
                "__errno_location" => errno,
                "pthread_key_create" => key_create,
                "pthread_setspecific" | "pthread_key_delete" => null,
                "gettid" => gettid,
                "_Unwind_RaiseException" => raise,
                "_Unwind_DeleteException" => null,
                "syscall" => syscall,
                "getrandom" => getrandom,
                "sched_yield" => sym_yield,
                "sym_u8" => sym_u8,
                "sym_u16" => sym_u16,
                "sym_u32" => sym_u32,
                "sym_u64" => sym_u64,
                "sym_assume" => sym_assume,
                "sym_check" => sym_check,
                "sym_cover" => sym_cover,
                "sym_each" => sym_each,
                "sym_param" => sym_param,
                "sym_note" => sym_note,
                "sym_trace" => sym_trace,
                "sym_engine" => sym_engine,
                "sym_spawn" => sym_spawn,
                "sym_args" => sym_args,
                "sym_process" => sym_process,
                "exit" => exit,
                "isatty" => isatty,
                "getpid" | "getppid" => getpid,
                "getuid" | "geteuid" | "getgid" | "getegid" => null,
                "sysconf" => sysconf,
                "sched_getaffinity" | "ioctl" => minus_one,
                "clock_gettime" => clock_gettime,
                "nanosleep" | "clock_nanosleep" => sym_yield,
                "pthread_self" => thread_self,
                "sym_join" => sym_join,
                "sym_yield" => sym_yield,
                _ => return None,
            };
            Some(h)
        })
        .collect()
}
