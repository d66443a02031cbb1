//! Z3 behind its C API: one incremental solver per worker, constraints enabled by assumption
//! literals, queries sliced to the constraints that share variables with the question.
use crate::expr::*;
use crate::ir::BinOp;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_del_config(c: P);
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check_assumptions(c: P, s: P, n: c_uint, a: *const P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, complete: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_implies(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
}

extern "C" fn on_error(_c: P, code: c_int) {
    eprintln!("z3 error {code}");
    std::process::exit(3);
}

#[derive(Default)]
pub struct Stats {
    pub queries: AtomicU64,
    pub sat: AtomicU64,
    pub unsat: AtomicU64,
    pub unknown: AtomicU64,
    pub cached: AtomicU64,
    pub nanos: AtomicU64,
    pub max_nanos: AtomicU64,
    pub cross: AtomicU64,
}
pub static STATS: std::sync::LazyLock<Stats> = std::sync::LazyLock::new(Stats::default);

#[derive(Clone, Debug)]
pub enum Answer {
    Sat(Vec<(u32, u128)>),
    Unsat,
    Unknown,
}

const CSH: usize = 32;
static CACHE: std::sync::LazyLock<Vec<Mutex<FxMap<Vec<u32>, Answer>>>> =
    std::sync::LazyLock::new(|| (0..CSH).map(|_| Mutex::new(FxMap::default())).collect());

/// Queries kept for the second solver (SMT-LIB text and Z3's answer).
pub static CROSS: Mutex<Vec<(String, bool)>> = Mutex::new(Vec::new());
pub static CROSS_WANTED: AtomicU64 = AtomicU64::new(0);
pub static STOP: AtomicBool = AtomicBool::new(false);

pub struct Solver {
    cfg: P,
    ctx: P,
    s: P,
    ast: FxMap<u32, P>,
    lit: FxMap<u32, P>,
    timeout_ms: u32,
    rng: u64,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        let mut s = Solver {
            cfg: std::ptr::null_mut(),
            ctx: std::ptr::null_mut(),
            s: std::ptr::null_mut(),
            ast: FxMap::default(),
            lit: FxMap::default(),
            timeout_ms,
            rng: 0x9e3779b97f4a7c15,
        };
        s.init();
        s
    }
    fn init(&mut self) {
        static INIT: Mutex<()> = Mutex::new(());
        let _g = INIT.lock().unwrap();
        // SAFETY: plain Z3 API use; every object belongs to this context and this thread.
        unsafe {
            self.cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(self.cfg, k.as_ptr(), v.as_ptr());
            self.ctx = Z3_mk_context(self.cfg);
            Z3_set_error_handler(self.ctx, Some(on_error));
            self.s = Z3_mk_simple_solver(self.ctx);
            Z3_solver_inc_ref(self.ctx, self.s);
            let p = Z3_mk_params(self.ctx);
            Z3_params_inc_ref(self.ctx, p);
            let t = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.ctx, p, Z3_mk_string_symbol(self.ctx, t.as_ptr()), self.timeout_ms);
            Z3_solver_set_params(self.ctx, self.s, p);
        }
    }
    /// Gives up sooner from now on.
    pub fn hurry(&mut self, timeout_ms: u32) {
        if self.timeout_ms > timeout_ms {
            self.timeout_ms = timeout_ms;
            self.reset();
        }
    }
    fn reset(&mut self) {
        unsafe {
            Z3_solver_dec_ref(self.ctx, self.s);
            Z3_del_context(self.ctx);
            Z3_del_config(self.cfg);
        }
        self.ast.clear();
        self.lit.clear();
        self.init();
    }

    /// Bit-vector AST of any expression.
    fn bv(&mut self, e: u32) -> P {
        let a = self.ast(e);
        if width(e) == 1 {
            unsafe {
                let s = Z3_mk_bv_sort(self.ctx, 1);
                let one = Z3_mk_numeral(self.ctx, c"1".as_ptr(), s);
                let zero = Z3_mk_numeral(self.ctx, c"0".as_ptr(), s);
                Z3_mk_ite(self.ctx, a, one, zero)
            }
        } else {
            a
        }
    }
    fn bool_of_bit(&mut self, a: P) -> P {
        unsafe {
            let s = Z3_mk_bv_sort(self.ctx, 1);
            let one = Z3_mk_numeral(self.ctx, c"1".as_ptr(), s);
            Z3_mk_eq(self.ctx, a, one)
        }
    }

    /// Bool for width 1, bit-vector otherwise.
    fn ast(&mut self, e: u32) -> P {
        if let Some(a) = self.ast.get(&e) {
            return *a;
        }
        let k = node(e).k;
        let w = k.w as u32;
        let c = self.ctx;
        let r = unsafe {
            match k.op {
                Op::Const if w == 1 => {
                    if k.imm == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Const => {
                    let s = CString::new(k.imm.to_string()).unwrap();
                    Z3_mk_numeral(c, s.as_ptr(), Z3_mk_bv_sort(c, w))
                }
                Op::Var => {
                    let s = CString::new(format!("v{}_{}", k.a, w)).unwrap();
                    let sort = if w == 1 { Z3_mk_bool_sort(c) } else { Z3_mk_bv_sort(c, w) };
                    Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), sort)
                }
                Op::Bin(op) if w == 1 && matches!(op, BinOp::And | BinOp::Or | BinOp::Xor) => {
                    let a = self.ast(k.a);
                    let b = self.ast(k.b);
                    match op {
                        BinOp::And => Z3_mk_and(c, 2, [a, b].as_ptr()),
                        BinOp::Or => Z3_mk_or(c, 2, [a, b].as_ptr()),
                        _ => Z3_mk_xor(c, a, b),
                    }
                }
                Op::Bin(op) => {
                    let a = self.bv(k.a);
                    let b = self.bv(k.b);
                    let r = match op {
                        BinOp::Add => Z3_mk_bvadd(c, a, b),
                        BinOp::Sub => Z3_mk_bvsub(c, a, b),
                        BinOp::Mul => Z3_mk_bvmul(c, a, b),
                        BinOp::UDiv => Z3_mk_bvudiv(c, a, b),
                        BinOp::SDiv => Z3_mk_bvsdiv(c, a, b),
                        BinOp::URem => Z3_mk_bvurem(c, a, b),
                        BinOp::SRem => Z3_mk_bvsrem(c, a, b),
                        BinOp::And => Z3_mk_bvand(c, a, b),
                        BinOp::Or => Z3_mk_bvor(c, a, b),
                        BinOp::Xor => Z3_mk_bvxor(c, a, b),
                        BinOp::Shl => Z3_mk_bvshl(c, a, b),
                        BinOp::LShr => Z3_mk_bvlshr(c, a, b),
                        BinOp::AShr => Z3_mk_bvashr(c, a, b),
                    };
                    if w == 1 {
                        self.bool_of_bit(r)
                    } else {
                        r
                    }
                }
                Op::Not => {
                    let a = self.ast(k.a);
                    if w == 1 {
                        Z3_mk_not(c, a)
                    } else {
                        Z3_mk_bvnot(c, a)
                    }
                }
                Op::Eq => {
                    let a = self.ast(k.a);
                    let b = self.ast(k.b);
                    Z3_mk_eq(c, a, b)
                }
                Op::Ult => {
                    let a = self.bv(k.a);
                    let b = self.bv(k.b);
                    Z3_mk_bvult(c, a, b)
                }
                Op::Slt => {
                    let a = self.bv(k.a);
                    let b = self.bv(k.b);
                    Z3_mk_bvslt(c, a, b)
                }
                Op::Ite => {
                    let x = self.ast(k.a);
                    let a = self.ast(k.b);
                    let b = self.ast(k.c);
                    Z3_mk_ite(c, x, a, b)
                }
                Op::Extract => {
                    let a = self.bv(k.a);
                    let r = Z3_mk_extract(c, k.b + w - 1, k.b, a);
                    if w == 1 {
                        self.bool_of_bit(r)
                    } else {
                        r
                    }
                }
                Op::Concat => {
                    let a = self.bv(k.a);
                    let b = self.bv(k.b);
                    Z3_mk_concat(c, a, b)
                }
                Op::SExt => {
                    let a = self.bv(k.a);
                    Z3_mk_sign_ext(c, w - width(k.a), a)
                }
            }
        };
        self.ast.insert(e, r);
        r
    }

    fn literal(&mut self, e: u32) -> P {
        if let Some(l) = self.lit.get(&e) {
            return *l;
        }
        let a = self.ast(e);
        unsafe {
            let s = CString::new(format!("p{e}")).unwrap();
            let l = Z3_mk_const(
                self.ctx,
                Z3_mk_string_symbol(self.ctx, s.as_ptr()),
                Z3_mk_bool_sort(self.ctx),
            );
            Z3_solver_assert(self.ctx, self.s, Z3_mk_implies(self.ctx, l, a));
            self.lit.insert(e, l);
            l
        }
    }

    /// Is the conjunction of `pc` (sliced) and `cond` satisfiable?
    pub fn check(&mut self, pc: &[u32], cond: u32) -> Answer {
        let mut set: Vec<u32> = Vec::new();
        if let Some(c) = as_const(cond) {
            if c == 0 {
                return Answer::Unsat;
            }
        } else {
            set.push(cond);
        }
        let mut vars = node(cond).vars;
        let mut rest: Vec<u32> = pc.to_vec();
        loop {
            let n = rest.len();
            rest.retain(|&e| {
                let v = node(e).vars;
                if v & vars != 0 {
                    vars |= v;
                    set.push(e);
                    false
                } else {
                    true
                }
            });
            if rest.len() == n {
                break;
            }
        }
        set.sort_unstable();
        set.dedup();
        let mut h = Fx::default();
        std::hash::Hash::hash(&set, &mut h);
        let shard = (std::hash::Hasher::finish(&h) >> 40) as usize % CSH;
        if let Some(a) = CACHE[shard].lock().unwrap().get(&set) {
            STATS.cached.fetch_add(1, Ordering::Relaxed);
            return a.clone();
        }
        let a = self.query(&set, vars);
        if !matches!(a, Answer::Unknown) {
            CACHE[shard].lock().unwrap().insert(set, a.clone());
        }
        a
    }

    fn query(&mut self, set: &[u32], _vars: u128) -> Answer {
        if self.lit.len() > 6000 || self.ast.len() > 200_000 {
            self.reset();
        }
        let t = Instant::now();
        let lits: Vec<P> = set.iter().map(|&e| self.literal(e)).collect();
        let r = unsafe {
            Z3_solver_check_assumptions(self.ctx, self.s, lits.len() as c_uint, lits.as_ptr())
        };
        let ans = match r {
            1 => {
                let mut vs: Vec<(u32, u32, u32)> = Vec::new();
                let mut seen = FxMap::default();
                for &e in set {
                    collect_vars(e, &mut vs, &mut seen);
                }
                let mut m = Vec::new();
                unsafe {
                    let model = Z3_solver_get_model(self.ctx, self.s);
                    Z3_model_inc_ref(self.ctx, model);
                    for (e, i, w) in vs {
                        let a = self.bv(e);
                        let mut out: P = std::ptr::null_mut();
                        if !Z3_model_eval(self.ctx, model, a, true, &mut out) {
                            eprintln!("model evaluation failed");
                            std::process::exit(3);
                        }
                        let v = if w <= 64 {
                            let mut x = 0u64;
                            if !Z3_get_numeral_uint64(self.ctx, out, &mut x) {
                                eprintln!("numeral");
                                std::process::exit(3);
                            }
                            x as u128
                        } else {
                            CStr::from_ptr(Z3_get_numeral_string(self.ctx, out))
                                .to_str()
                                .unwrap()
                                .parse()
                                .unwrap()
                        };
                        m.push((i, v));
                    }
                    Z3_model_dec_ref(self.ctx, model);
                }
                STATS.sat.fetch_add(1, Ordering::Relaxed);
                Answer::Sat(m)
            }
            -1 => {
                STATS.unsat.fetch_add(1, Ordering::Relaxed);
                Answer::Unsat
            }
            _ => {
                STATS.unknown.fetch_add(1, Ordering::Relaxed);
                Answer::Unknown
            }
        };
        let ns = t.elapsed().as_nanos() as u64;
        let q = STATS.queries.fetch_add(1, Ordering::Relaxed);
        STATS.nanos.fetch_add(ns, Ordering::Relaxed);
        STATS.max_nanos.fetch_max(ns, Ordering::Relaxed);
        // a sample of the queries is kept for the second solver
        self.rng = self.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        if CROSS_WANTED.load(Ordering::Relaxed) > 0
            && (q < 50 || (self.rng >> 33) % 40 == 0)
            && !matches!(ans, Answer::Unknown)
        {
            let mut g = CROSS.lock().unwrap();
            if (g.len() as u64) < CROSS_WANTED.load(Ordering::Relaxed) {
                let mut defs = Vec::new();
                let mut seen = FxMap::default();
                let mut text = String::new();
                let mut asserts = String::new();
                for &e in set {
                    let n = smt(e, &mut defs, &mut seen);
                    asserts.push_str(&format!("(assert (= {n} #b1))\n"));
                }
                for d in defs {
                    text.push_str(&d);
                    text.push('\n');
                }
                text.push_str(&asserts);
                g.push((text, matches!(ans, Answer::Sat(_))));
            }
        }
        ans
    }
}

pub fn collect_vars(e: u32, out: &mut Vec<(u32, u32, u32)>, seen: &mut FxMap<u32, ()>) {
    if node(e).vars == 0 || seen.insert(e, ()).is_some() {
        return;
    }
    let k = node(e).k;
    match k.op {
        Op::Var => out.push((e, k.a, k.w as u32)),
        Op::Const => {}
        Op::Extract | Op::Not | Op::SExt => collect_vars(k.a, out, seen),
        Op::Ite => {
            collect_vars(k.a, out, seen);
            collect_vars(k.b, out, seen);
            collect_vars(k.c, out, seen);
        }
        _ => {
            collect_vars(k.a, out, seen);
            collect_vars(k.b, out, seen);
        }
    }
}
