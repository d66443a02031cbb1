//! Execution states: threads, frames, memory, path condition.
use crate::expr::*;
use crate::ir::*;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub struct Data {
    pub bytes: Vec<u8>,
    /// (expression, byte index in it); expression 0 means concrete.
    pub sym: Option<Vec<(u32, u8)>>,
}

impl Data {
    pub fn zeroed(n: usize) -> Data {
        Data { bytes: vec![0; n], sym: None }
    }
    pub fn is_sym(&self, off: usize, n: usize) -> bool {
        match &self.sym {
            None => false,
            Some(s) => s[off..off + n].iter().any(|x| x.0 != 0),
        }
    }
    pub fn read(&self, off: usize, n: usize) -> Val {
        if !self.is_sym(off, n) {
            let mut v = [0u8; 16];
            v[..n].copy_from_slice(&self.bytes[off..off + n]);
            return Val::C(u128::from_le_bytes(v));
        }
        let s = &self.sym.as_ref().unwrap()[off..off + n];
        let e0 = s[0];
        if e0.0 != 0 && s.iter().enumerate().all(|(i, x)| x.0 == e0.0 && x.1 as usize == e0.1 as usize + i) {
            return to_v(extract(e0.0, e0.1 as u32 * 8, n as u32 * 8));
        }
        let mut acc: Option<u32> = None;
        let mut i = 0;
        while i < n {
            let piece;
            let mut j = i + 1;
            if s[i].0 == 0 {
                while j < n && s[j].0 == 0 {
                    j += 1;
                }
                let mut v = [0u8; 16];
                v[..j - i].copy_from_slice(&self.bytes[off + i..off + j]);
                piece = konst(u128::from_le_bytes(v), (j - i) as u32 * 8);
            } else {
                while j < n && s[j].0 == s[i].0 && s[j].1 as usize == s[i].1 as usize + (j - i) {
                    j += 1;
                }
                piece = extract(s[i].0, s[i].1 as u32 * 8, (j - i) as u32 * 8);
            }
            acc = Some(match acc {
                None => piece,
                Some(lo) => concat(piece, lo),
            });
            i = j;
        }
        to_v(acc.unwrap())
    }
    pub fn byte(&self, off: usize) -> Val {
        self.read(off, 1)
    }
    pub fn write(&mut self, off: usize, n: usize, v: &Val, w: u32) {
        match v {
            Val::C(c) => {
                self.bytes[off..off + n].copy_from_slice(&c.to_le_bytes()[..n]);
                if let Some(s) = &mut self.sym {
                    for x in &mut s[off..off + n] {
                        x.0 = 0;
                    }
                }
            }
            Val::S(e) => {
                let e = if w < n as u32 * 8 { zext(*e, n as u32 * 8) } else { *e };
                let len = self.bytes.len();
                let s = self.sym.get_or_insert_with(|| vec![(0, 0); len]);
                for i in 0..n {
                    s[off + i] = (e, i as u8);
                }
            }
            Val::Agg(_) => panic!("aggregate write"),
        }
    }
    /// Copies `n` bytes out (for memcpy).
    pub fn slice(&self, off: usize, n: usize) -> Data {
        Data {
            bytes: self.bytes[off..off + n].to_vec(),
            sym: if self.is_sym(off, n) { Some(self.sym.as_ref().unwrap()[off..off + n].to_vec()) } else { None },
        }
    }
    pub fn put(&mut self, off: usize, d: &Data) {
        let n = d.bytes.len();
        self.bytes[off..off + n].copy_from_slice(&d.bytes);
        match (&mut self.sym, &d.sym) {
            (None, None) => {}
            (Some(s), None) => {
                for x in &mut s[off..off + n] {
                    x.0 = 0;
                }
            }
            (s, Some(t)) => {
                let len = self.bytes.len();
                let s = s.get_or_insert_with(|| vec![(0, 0); len]);
                s[off..off + n].copy_from_slice(t);
            }
        }
    }
}

#[derive(Clone, Debug)]
pub struct Obj {
    pub data: Arc<Data>,
    pub size: u64,
    pub alive: bool,
}

pub const OBJ_SHIFT: u32 = 24;
pub const CH: usize = 64;

#[derive(Clone, Debug)]
pub struct Frame {
    pub func: u32,
    pub block: u32,
    pub ip: u32,
    pub regs: Vec<Val>,
    pub stack: Data,
    pub exc: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Status {
    Run,
    Futex(u64),
    Join(u32),
    Done,
}

#[derive(Clone, Debug)]
pub struct Thread {
    pub frames: Vec<Arc<Frame>>,
    pub status: Status,
    pub tls: Vec<(u32, u64)>,
    pub errno: u64,
    /// How deep the stack was where the present process began, if one did.
    pub process: usize,
}

#[derive(Clone, Debug)]
pub enum Input {
    /// variable index, width
    Var(u32, u32),
}

#[derive(Clone, Debug)]
pub struct State {
    pub threads: Vec<Thread>,
    pub cur: usize,
    pub heap: Vec<Arc<Vec<Obj>>>,
    pub heap_n: u64,
    pub globals: Vec<Option<Arc<Data>>>,
    pub pc: Vec<u32>,
    pub known_k: Vec<u32>,
    pub known_v: Vec<u128>,
    pub order: crate::order::Order,
    pub model: Arc<Vec<u128>>,
    pub inputs: Vec<Input>,
    pub sched_log: Vec<(u8, u8)>,
    pub preempt: u32,
    pub skip: bool,
    pub steps: u64,
    pub last_panic: String,
    pub trace: Vec<String>,
    /// A hash of the checks, covers and traces passed, in order: a native run of the same inputs
    /// has the same.
    pub events: u64,
    pub depth: u32,
    /// The inputs that are bound to their values in the model, since the solver gave no answer: such
    /// a path is explored to find violations only, and the run is undecided.
    pub pinned: u128,
    pub forks: u32,
    /// Nanoseconds since the beginning.
    pub clock: u64,
}

impl State {
    pub fn event(&mut self, s: &[u8]) {
        for b in s {
            self.events = (self.events ^ *b as u64).wrapping_mul(0x100_0000_01b3);
        }
        self.events = (self.events ^ 0xff).wrapping_mul(0x100_0000_01b3);
    }
    pub fn known(&self, e: u32) -> Option<u128> {
        self.known_k.iter().rposition(|k| *k == e).map(|i| self.known_v[i])
    }
    /// The truth value of a condition, if the path's facts settle it.
    pub fn implied(&self, c: u32) -> Option<bool> {
        self.order.implied(c, &|e| self.known(e).map(|v| v == 1))
    }
    pub fn simplify(&self, c: u32) -> u32 {
        self.order.simplify(c, &|e| self.known(e).map(|v| v == 1))
    }
    pub fn learn(&mut self, e: u32, v: u128) {
        self.known_k.push(e);
        self.known_v.push(v);
        if width(e) == 1 {
            self.order.learn(e, v == 1);
        }
    }
    pub fn live(&self) -> usize {
        self.threads.iter().filter(|t| t.status != Status::Done).count()
    }
    pub fn alloc(&mut self, size: u64) -> u64 {
        let idx = self.heap_n;
        let addr = HEAP_BASE + (idx << OBJ_SHIFT);
        let span = (size >> OBJ_SHIFT) + 1;
        for i in 0..span {
            let o = if i == 0 {
                Obj { data: Arc::new(Data::zeroed(size as usize)), size, alive: true }
            } else {
                Obj { data: Arc::new(Data::zeroed(0)), size: 0, alive: false }
            };
            let c = (self.heap_n as usize) / CH;
            if c == self.heap.len() {
                self.heap.push(Arc::new(Vec::with_capacity(CH)));
            }
            Arc::make_mut(&mut self.heap[c]).push(o);
            self.heap_n += 1;
        }
        addr
    }
    pub fn heap_obj(&self, idx: u64) -> Option<&Obj> {
        self.heap.get(idx as usize / CH)?.get(idx as usize % CH)
    }
    pub fn heap_obj_mut(&mut self, idx: u64) -> Option<&mut Obj> {
        Arc::make_mut(self.heap.get_mut(idx as usize / CH)?).get_mut(idx as usize % CH)
    }
}
