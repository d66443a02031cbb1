//! The interface between a harness and whatever runs it: the symbolic executor (which intercepts
//! these functions) or the native replay binary (which feeds them a recorded assignment).

extern "C-unwind" {
    fn sym_u8() -> u8;
    fn sym_u16() -> u16;
    fn sym_u32() -> u32;
    fn sym_u64() -> u64;
    fn sym_assume(c: bool);
    fn sym_check(c: bool, p: *const u8, n: usize);
    fn sym_cover(p: *const u8, n: usize);
    fn sym_param(p: *const u8, n: usize, default: u32) -> u32;
    fn sym_note(p: *const u8, n: usize);
    fn sym_trace(v: u64);
    fn sym_spawn(f: extern "C-unwind" fn(usize), arg: usize) -> u32;
    fn sym_join(t: u32);
    fn sym_yield();
    fn sym_each(v: u8) -> u8;
}

pub fn u8_() -> u8 {
    unsafe { sym_u8() }
}
pub fn u16_() -> u16 {
    unsafe { sym_u16() }
}
pub fn u32_() -> u32 {
    unsafe { sym_u32() }
}
pub fn u64_() -> u64 {
    unsafe { sym_u64() }
}
pub fn assume(c: bool) {
    unsafe { sym_assume(c) }
}
/// The property: must be true on every path.
pub fn check(c: bool, label: &str) {
    unsafe { sym_check(c, label.as_ptr(), label.len()) }
}
/// Reachability witness: a run that never gets here proves nothing.
pub fn cover(label: &str) {
    unsafe { sym_cover(label.as_ptr(), label.len()) }
}
/// A bound chosen by the driver.
pub fn param(name: &str, default: u32) -> u32 {
    unsafe { sym_param(name.as_ptr(), name.len(), default) }
}
pub fn note(s: &str) {
    unsafe { sym_note(s.as_ptr(), s.len()) }
}
pub fn trace(v: u64) {
    unsafe { sym_trace(v) }
}
/// A symbolic choice among `n`.
pub fn pick(n: u8) -> u8 {
    let x = u8_();
    assume(x < n);
    x
}
/// The same value, each possible one on paths of its own: for places in a long run, which would
/// otherwise be told apart again and again.
pub fn each(v: u8) -> u8 {
    unsafe { sym_each(v) }
}
pub fn flag() -> bool {
    pick(2) == 1
}
pub fn yield_() {
    unsafe { sym_yield() }
}

/// Runs the closures as concurrent threads and waits for all of them.
pub fn threads(fs: Vec<Box<dyn FnOnce() + Send>>) {
    extern "C-unwind" fn go(arg: usize) {
        // SAFETY: `arg` is the leaked box below, passed to exactly one thread.
        let f = unsafe { Box::from_raw(arg as *mut Box<dyn FnOnce() + Send>) };
        f()
    }
    let ts: Vec<u32> = fs
        .into_iter()
        .map(|f| unsafe { sym_spawn(go, Box::into_raw(Box::new(f)) as usize) })
        .collect();
    for t in ts {
        unsafe { sym_join(t) }
    }
}

/// Panics are noted, not printed.
pub fn init() {
    std::panic::set_hook(Box::new(|info| {
        if let Some(l) = info.location() {
            note(l.file());
            trace_panic(l.line());
        }
    }));
}
fn trace_panic(_line: u32) {}

#[macro_export]
macro_rules! harness {
    ($($name:ident => $body:path),* $(,)?) => {
        $(
            #[no_mangle]
            pub extern "C-unwind" fn $name() {
                $crate::sym::init();
                $body();
            }
        )*
        pub const HARNESSES: &[(&str, extern "C-unwind" fn())] = &[$((stringify!($name), $name)),*];
    };
}
