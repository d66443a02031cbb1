// Runs a harness natively, feeding it the values a counterexample gives its symbolic inputs.
//
//   replay ENTRY --input V,V,... [--param NAME=V]... [--rounds N]
//
// Prints `FAILED <what>` and exits 1 if a check fails, the harness panics, or it runs out of time;
// prints `OK <hash of the checks and covers passed>` and exits 0 if it ends well, 7 if the values do not satisfy the harness's assumptions. Threads run
// for real, perturbed at random, for as many rounds as asked.

use std::{
    cell::RefCell,
    sync::{
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst},
        Mutex,
    },
    time::Duration,
};

static INPUTS: Mutex<Vec<u64>> = Mutex::new(Vec::new());
static NEXT: AtomicUsize = AtomicUsize::new(0);
static PARAMS: Mutex<Vec<(String, u32)>> = Mutex::new(Vec::new());
static THREADS: Mutex<Vec<Option<std::thread::JoinHandle<()>>>> = Mutex::new(Vec::new());
static THREADED: AtomicBool = AtomicBool::new(false);
static RNG: AtomicU64 = AtomicU64::new(0x9E3779B97F4A7C15);
/// A hash of the checks and covers passed, as the symbolic executor computes it.
static EVENTS: AtomicU64 = AtomicU64::new(0xcbf2_9ce4_8422_2325);
static TRACE: AtomicBool = AtomicBool::new(false);

thread_local! {
    static WHERE: RefCell<String> = const { RefCell::new(String::new()) };
}

fn fail(what: &str) -> ! {
    println!("FAILED {what}");
    std::process::exit(1)
}

fn next() -> u64 {
    let i = NEXT.fetch_add(1, SeqCst);
    match INPUTS.lock().unwrap().get(i) {
        Some(v) => *v,
        // A path the counterexample did not take: not a replay of it.
        None => {
            println!("more inputs are drawn than the counterexample has");
            std::process::exit(7)
        }
    }
}

fn rnd(n: u64) -> u64 {
    let mut x = RNG.load(SeqCst);
    x ^= x << 13;
    x ^= x >> 7;
    x ^= x << 17;
    RNG.store(x, SeqCst);
    x % n
}

fn event(s: &str) {
    let mut h = EVENTS.load(SeqCst);
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    EVENTS.store((h ^ 0xff).wrapping_mul(0x100_0000_01b3), SeqCst);
}

fn jitter() {
    if THREADED.load(SeqCst) {
        match rnd(4) {
            0 => {}
            1 => std::thread::yield_now(),
            2 => std::thread::sleep(Duration::from_micros(rnd(50))),
            _ => std::thread::sleep(Duration::from_micros(rnd(2000))),
        }
    }
}

unsafe fn text<'a>(p: *const u8, n: usize) -> &'a str {
    std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n))
}

#[no_mangle]
extern "C-unwind" fn sym_u8() -> u8 {
    next() as u8
}
#[no_mangle]
extern "C-unwind" fn sym_u16() -> u16 {
    next() as u16
}
#[no_mangle]
extern "C-unwind" fn sym_u32() -> u32 {
    next() as u32
}
#[no_mangle]
extern "C-unwind" fn sym_u64() -> u64 {
    next()
}
#[no_mangle]
extern "C-unwind" fn sym_assume(c: bool) {
    if !c {
        println!("the values do not satisfy an assumption");
        std::process::exit(7)
    }
}
#[no_mangle]
unsafe extern "C-unwind" fn sym_check(c: bool, p: *const u8, n: usize) {
    if !c {
        fail(&format!("check: {}", text(p, n)))
    }
    event(text(p, n));
}
#[no_mangle]
unsafe extern "C-unwind" fn sym_cover(p: *const u8, n: usize) {
    event(text(p, n));
}
#[no_mangle]
unsafe extern "C-unwind" fn sym_param(p: *const u8, n: usize, default: u32) -> u32 {
    let name = text(p, n);
    PARAMS.lock().unwrap().iter().find(|x| x.0 == name).map_or(default, |x| x.1)
}
#[no_mangle]
unsafe extern "C-unwind" fn sym_note(p: *const u8, n: usize) {
    WHERE.with(|w| *w.borrow_mut() = text(p, n).into());
}
#[no_mangle]
extern "C-unwind" fn sym_trace(v: u64) {
    if TRACE.load(SeqCst) {
        println!("TRACE {v}");
    }
}
#[no_mangle]
extern "C-unwind" fn sym_spawn(f: extern "C-unwind" fn(usize), arg: usize) -> u32 {
    THREADED.store(true, SeqCst);
    let h = std::thread::spawn(move || {
        jitter();
        if std::panic::catch_unwind(|| f(arg)).is_err() {
            fail(&format!("panic in a thread: {}", WHERE.with(|w| w.borrow().clone())));
        }
    });
    let mut ts = THREADS.lock().unwrap();
    ts.push(Some(h));
    ts.len() as u32 - 1
}
#[no_mangle]
extern "C-unwind" fn sym_join(t: u32) {
    let h = THREADS.lock().unwrap()[t as usize].take().expect("joined once");
    let _ = h.join();
}
#[no_mangle]
extern "C-unwind" fn sym_each(v: u8) -> u8 {
    v
}
#[no_mangle]
extern "C-unwind" fn sym_yield() {
    jitter()
}

fn main() {
    early();
    let args: Vec<String> = std::env::args().collect();
    let entry = args[1].clone();
    let (mut rounds, mut i) = (1u32, 2);
    while i < args.len() {
        let v = args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--input" => {
                *INPUTS.lock().unwrap() =
                    v.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().expect("a number")).collect()
            }
            "--param" => {
                let (k, v) = v.split_once('=').expect("NAME=V");
                PARAMS.lock().unwrap().push((k.into(), v.parse().expect("a number")));
            }
            "--rounds" => rounds = v.parse().expect("a number"),
            "--seed" => RNG.store(v.parse::<u64>().expect("a number") * 2 + 1, SeqCst),
            "--trace" => {
                TRACE.store(true, SeqCst);
                i -= 1;
            }
            o => panic!("unknown option {o}"),
        }
        i += 2;
    }
    let f = harnesses().iter().find(|h| h.0 == entry).expect("a known harness").1;
    for _ in 0..rounds {
        NEXT.store(0, SeqCst);
        // The main thread's stack is the usual one: running out of it is an abort, as for users.
        if std::panic::catch_unwind(|| f()).is_err() {
            fail(&format!("panic: {}", WHERE.with(|w| w.borrow().clone())));
        }
        if !THREADED.load(SeqCst) {
            break;
        }
    }
    println!("OK {:016x}", EVENTS.load(SeqCst));
}
