//! lsym: a path-forking symbolic executor for the LLVM IR that rustc emits.
mod exec;
mod expr;
mod externs;
mod ir;
mod order;
mod parse;
mod solver;
mod state;

use exec::*;
use ir::*;
use state::*;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list<T>(v: impl IntoIterator<Item = T>, f: impl Fn(T) -> String) -> String {
    format!("[{}]", v.into_iter().map(f).collect::<Vec<_>>().join(", "))
}

fn main() {
    // deep recursion happens on expressions
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(real_main).unwrap();
    let code = h.join().unwrap_or(3);
    std::process::exit(code);
}

fn real_main() -> i32 {
    let mut file = None;
    let mut entry = None;
    let mut out = None;
    let mut params = BTreeMap::new();
    let mut time = 60.0f64;
    let mut workers = 8usize;
    let mut preempt = 2u32;
    let mut max_violations = 8usize;
    let mut verbose = false;
    let mut confirm = false;
    let mut max_depth = 1500usize;
    let mut max_steps = 200_000_000u64;
    let mut cross = 0u64;
    let mut cross_file = None;
    let mut fixed = None;
    let mut timeout_ms = 20_000u32;
    let mut a = std::env::args().skip(1);
    while let Some(x) = a.next() {
        let mut v = || a.next().expect("missing value");
        match x.as_str() {
            "--entry" => entry = Some(v()),
            "--json" => out = Some(v()),
            "--time" => time = v().parse().unwrap(),
            "--workers" => workers = v().parse().unwrap(),
            "--preempt" => preempt = v().parse().unwrap(),
            "--violations" => max_violations = v().parse().unwrap(),
            "--depth" => max_depth = v().parse().unwrap(),
            "--steps" => max_steps = v().parse().unwrap(),
            "--query-ms" => timeout_ms = v().parse().unwrap(),
            "--cross" => cross = v().parse().unwrap(),
            "--cross-file" => cross_file = Some(v()),
            "--input" => {
                fixed = Some(
                    v().split(',').filter(|s| !s.is_empty()).map(|s| s.parse::<u128>().unwrap()).collect::<Vec<_>>(),
                )
            }
            "--param" => {
                let p = v();
                let (k, n) = p.split_once('=').expect("k=v");
                params.insert(k.to_string(), n.parse().unwrap());
            }
            "-v" => verbose = true,
            "--confirm" => confirm = true,
            _ => file = Some(x),
        }
    }
    let t0 = Instant::now();
    let text = match std::fs::read_to_string(file.expect("file")) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{e}");
            return 2;
        }
    };
    let m: &'static Module = match parse::parse_module(&text) {
        Ok(m) => Box::leak(Box::new(m)),
        Err(e) => {
            eprintln!("parse: {e}");
            return 2;
        }
    };
    drop(text);
    let parse_s = t0.elapsed().as_secs_f64();
    let Some(entry) = entry else {
        println!("{} funcs {} globals, unsupported {:?}", m.funcs.len(), m.globals.len(), m.unsupported);
        return 0;
    };
    let Some(&id) = m.fn_by_name.get(&entry) else {
        eprintln!("no function {entry}");
        return 2;
    };
    // global lookup table
    let end = m.globals.iter().map(|g| g.addr + g.size.max(64) + 32).max().unwrap_or(GLOBAL_BASE);
    let mut gt = vec![u32::MAX; ((end - GLOBAL_BASE) / 16 + 8) as usize];
    for (i, g) in m.globals.iter().enumerate() {
        let a = (g.addr - GLOBAL_BASE) / 16;
        let b = (g.addr + g.size.max(1) - 1 - GLOBAL_BASE) / 16;
        for k in a..=b {
            gt[k as usize] = i as u32;
        }
    }
    let sh = Arc::new(Shared {
        m,
        handlers: externs::table(m),
        params,
        queue: Mutex::new(Vec::new()),
        cv: Condvar::new(),
        idle: AtomicUsize::new(0),
        workers,
        stop: AtomicBool::new(false),
        timed_out: AtomicBool::new(false),
        started: t0,
        soon: AtomicU64::new(u64::MAX),
        deadline: t0 + Duration::from_secs_f64(time),
        out: Mutex::new(Outcome::default()),
        paths: AtomicU64::new(0),
        pruned: AtomicU64::new(0),
        steps: AtomicU64::new(0),
        forks: AtomicU64::new(0),
        checks_total: AtomicU64::new(0),
        max_violations,
        max_depth,
        max_steps,
        preempt,
        verbose,
        timeout_ms,
        fixed,
        confirm,
        implied: AtomicU64::new(0),
        by_model: AtomicU64::new(0),
        confirmed: AtomicU64::new(0),
    });
    solver::CROSS_WANTED.store(cross, Ordering::Relaxed);
    let gt = Arc::new(gt);
    let st = State {
        threads: vec![Thread { frames: vec![], status: Status::Run, tls: vec![], errno: 0, process: 0 }],
        cur: 0,
        heap: vec![],
        heap_n: 0,
        globals: vec![None; m.globals.len()],
        pc: vec![],
        known_k: vec![],
        known_v: vec![],
        order: Default::default(),
        model: Arc::new(vec![]),
        inputs: vec![],
        sched_log: vec![],
        preempt,
        skip: false,
        steps: 0,
        last_panic: String::new(),
        trace: vec![],
        events: 0xcbf2_9ce4_8422_2325,
        depth: 0,
        pinned: 0,
        forks: 0,
        clock: 0,
    };
    let mut st = st;
    {
        let mut w = W {
            m,
            solver: solver::Solver::new(timeout_ms),
            pending: vec![],
            funcs: vec![false; m.funcs.len()],
            covers: BTreeMap::new(),
            checks: BTreeMap::new(),
            memo: Default::default(),
            gtable: gt.clone(),
            sh: sh.clone(),
        };
        if let Err(e) = w.enter(&mut st, id, vec![]) {
            eprintln!("{e:?}");
            return 2;
        }
    }
    sh.queue.lock().unwrap().push(st);
    let hs: Vec<_> = (0..workers)
        .map(|_| {
            let sh = sh.clone();
            let gt = gt.clone();
            std::thread::Builder::new().stack_size(256 << 20).spawn(move || worker(sh, gt)).unwrap()
        })
        .collect();
    let mut crashed = false;
    for h in hs {
        crashed |= h.join().is_err();
    }
    let o = sh.out.lock().unwrap_or_else(|e| e.into_inner());
    let s = &*solver::STATS;
    let l = |x: &AtomicU64| x.load(Ordering::Relaxed);
    let complete = !crashed
        && !sh.timed_out.load(Ordering::Relaxed)
        && !sh.stop.load(Ordering::Relaxed)
        && o.unsupported.is_empty();
    let encoded: Vec<&Func> =
        m.funcs.iter().enumerate().filter(|(i, _)| o.funcs.get(*i) == Some(&true)).map(|x| x.1).collect();
    let json = format!(
        "{{\n\"entry\": {},\n\"complete\": {},\n\"timed_out\": {},\n\"crashed\": {},\n\"paths\": {},\n\"pruned\": {},\n\"forks\": {},\n\"steps\": {},\n\"wall_s\": {:.3},\n\"parse_s\": {:.3},\n\"exprs\": {},\n\"preempt\": {},\n\"solver\": {{\"queries\": {}, \"sat\": {}, \"unsat\": {}, \"unknown\": {}, \"cached\": {}, \"seconds\": {:.3}, \"max_query_ms\": {:.3}, \"sides_shown_by_evaluated_model\": {}, \"branches_by_order_facts\": {}, \"of_those_confirmed\": {}}},\n\"params\": {{{}}},\n\"checks\": {{{}}},\n\"covers\": {{{}}},\n\"unsupported\": {{{}}},\n\"functions\": {},\n\"samples\": {},\n\"traces\": {},\n\"violations\": {}\n}}\n",
        esc(&entry),
        complete,
        sh.timed_out.load(Ordering::Relaxed),
        crashed,
        l(&sh.paths),
        l(&sh.pruned),
        l(&sh.forks),
        l(&sh.steps),
        t0.elapsed().as_secs_f64(),
        parse_s,
        expr::arena_len(),
        preempt,
        l(&s.queries),
        l(&s.sat),
        l(&s.unsat),
        l(&s.unknown),
        l(&s.cached),
        l(&s.nanos) as f64 / 1e9,
        l(&s.max_nanos) as f64 / 1e6,
        l(&sh.by_model),
        l(&sh.implied),
        l(&sh.confirmed),
        o.params_used.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", "),
        o.checks
            .iter()
            .map(|(k, v)| format!(
                "{}: {{\"evaluated\": {}, \"by_simplifier\": {}, \"by_solver\": {}, \"failed\": {}, \"unknown\": {}}}",
                esc(k), v.evaluated, v.by_simplifier, v.by_solver, v.failed, v.unknown
            ))
            .collect::<Vec<_>>()
            .join(", "),
        o.covers.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", "),
        o.unsupported.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", "),
        list(&encoded, |f| format!("[{}, {}]", esc(&f.name), f.size)),
        list(&o.samples, |s| s.clone()),
        list(&o.traces, |s| esc(s)),
        list(&o.violations, |v| format!(
            "{{\"label\": {}, \"kind\": {}, \"panic\": {}, \"inputs\": {}, \"sched\": {}, \"trace\": {}}}",
            esc(&v.label),
            esc(&v.kind),
            esc(&v.panic),
            list(&v.inputs, |(x, w)| format!("[\"{x}\", {w}]")),
            list(&v.sched, |(a, b)| format!("[{a}, {b}]")),
            list(&v.trace, |s| esc(s)),
        )),
    );
    match out {
        Some(p) => std::fs::write(p, &json).unwrap(),
        None => {
            // without the function list
            for line in json.lines().filter(|l| !l.starts_with("\"functions\"")) {
                println!("{line}");
            }
        }
    }
    if let Some(p) = cross_file {
        let q = solver::CROSS.lock().unwrap();
        let mut t = String::from("(set-logic QF_BV)\n");
        for (text, sat) in q.iter() {
            t.push_str("(push 1)\n");
            t.push_str(text);
            t.push_str(&format!("(check-sat)\n; expect {}\n(pop 1)\n", if *sat { "sat" } else { "unsat" }));
        }
        std::fs::write(p, t).unwrap();
    }
    if !o.violations.is_empty() {
        1
    } else if complete {
        0
    } else {
        3
    }
}
