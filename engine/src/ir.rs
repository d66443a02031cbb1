//! In-memory form of the LLVM IR subset that rustc emits.
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Array(u64, Arc<Ty>),
    Struct(Arc<Vec<Ty>>, bool),
    Vector(u32, Arc<Ty>),
    Other,
}

impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float(w) => *w,
            _ => panic!("bits of {self:?}"),
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::Float(_))
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr => 8,
            Ty::Float(16) => 2,
            Ty::Float(32) => 4,
            Ty::Float(64) => 8,
            Ty::Float(_) => 16,
            Ty::Array(_, t) => t.align(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Vector(n, t) => {
                let s = (*n as u64) * (t.bits() as u64).div_ceil(8);
                s.next_power_of_two().max(1)
            }
            Ty::Void | Ty::Other => 1,
        }
    }
    /// Bytes written by a store.
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64).div_ceil(8),
            Ty::Float(w) => (*w as u64).div_ceil(8),
            Ty::Vector(n, t) => ((*n as u64) * t.bits() as u64).div_ceil(8),
            _ => self.size(),
        }
    }
    /// Allocation size.
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => (*w as u64).div_ceil(8).next_multiple_of(self.align()),
            Ty::Ptr => 8,
            Ty::Float(w) => (*w as u64).div_ceil(8).next_multiple_of(self.align()),
            Ty::Array(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut off = 0u64;
                for t in f.iter() {
                    if !packed {
                        off = off.next_multiple_of(t.align());
                    }
                    off += t.size();
                }
                if !packed {
                    off = off.next_multiple_of(self.align());
                }
                off
            }
            Ty::Vector(..) => self.store_size().next_multiple_of(self.align()),
        }
    }
    pub fn field_offset(&self, idx: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut off = 0u64;
                for (i, t) in f.iter().enumerate() {
                    if !packed {
                        off = off.next_multiple_of(t.align());
                    }
                    if i == idx {
                        return off;
                    }
                    off += t.size();
                }
                panic!("field index");
            }
            Ty::Array(_, t) => t.size() * idx as u64,
            Ty::Vector(_, t) => t.size() * idx as u64,
            _ => panic!("field_offset of {self:?}"),
        }
    }
    pub fn elem(&self, idx: usize) -> &Ty {
        match self {
            Ty::Struct(f, _) => &f[idx],
            Ty::Array(_, t) | Ty::Vector(_, t) => t,
            _ => panic!("elem of {self:?}"),
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Array(n, _) => *n as usize,
            Ty::Vector(n, _) => *n as usize,
            _ => panic!("count of {self:?}"),
        }
    }
}

/// A run-time value.  Symbolic scalars are indices into the worker's expression arena.
#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    S(u32),
    Agg(Arc<Vec<Val>>),
}

impl Val {
    pub fn zero(ty: &Ty) -> Val {
        match ty {
            Ty::Array(..) | Ty::Struct(..) | Ty::Vector(..) => Val::Agg(Arc::new(
                (0..ty.count()).map(|i| Val::zero(ty.elem(i))).collect(),
            )),
            _ => Val::C(0),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(Val),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    Bit,
    UiToFp,
    SiToFp,
    FpToUi,
    FpToSi,
    FpExt,
    FpTrunc,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RmwOp {
    Xchg,
    Add,
    Sub,
    And,
    Or,
    Xor,
    Nand,
    Max,
    Min,
    UMax,
    UMin,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Func(u32),
    Indirect(Opd),
    Intrinsic(Intr),
    Asm(String),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Intr {
    Nop,
    Assume,
    Memcpy,
    Memset,
    Trap,
    IsConstant,
    Expect,
    WithOverflow(BinOp, bool),
    UCmp,
    SCmp,
    UMax,
    UMin,
    SMax,
    SMin,
    UAddSat,
    USubSat,
    SAddSat,
    SSubSat,
    Ctlz,
    Cttz,
    Ctpop,
    Fshl,
    Fshr,
    Bswap,
    Bitreverse,
    Abs,
    TlsAddr,
    Pause,
    LoadRelative,
    ObjectSize,
    ReduceOr,
    ReduceAnd,
    ReduceAdd,
    Unsupported(u32),
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(BinOp, Ty, u32, Opd, Opd),
    FBin(u8, u32, u32, Opd, Opd),
    FCmp(u8, u32, u32, Opd, Opd),
    ICmp(Pred, Ty, u32, Opd, Opd),
    Cast(CastOp, Ty, Ty, u32, Opd),
    Load(u32, Ty, Opd, bool),
    Store(Ty, Opd, Opd, bool),
    /// dst, base, constant offset, (index, index width, scale)
    Gep(u32, Opd, i64, Vec<(Opd, u32, u64)>),
    /// dst, frame offset
    Alloca(u32, u64),
    AllocaDyn(u32, u64, Opd),
    Select(u32, Ty, Opd, Opd, Opd, bool),
    Call {
        dst: Option<u32>,
        ret: Ty,
        callee: Callee,
        args: Vec<(Ty, Opd)>,
        invoke: Option<(u32, u32)>,
    },
    ExtractValue(u32, Opd, Vec<u32>),
    InsertValue(u32, Opd, Opd, Vec<u32>),
    ExtractElement(u32, Opd, Opd),
    InsertElement(u32, Opd, Opd, Opd),
    Shuffle(u32, Opd, Opd, Vec<i32>),
    Rmw(RmwOp, u32, Ty, Opd, Opd),
    CmpXchg(u32, Ty, Opd, Opd, Opd, bool),
    Freeze(u32, Opd),
    LandingPad(u32),
    Nop,
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(u32, Opd, u32, Vec<(u128, u32)>),
    Ret(Option<(Ty, Opd)>),
    Resume(Opd),
    Unreachable,
}

#[derive(Debug, Default)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub insts: Vec<Inst>,
}

#[derive(Debug, Default)]
pub struct Func {
    pub name: String,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
    pub frame_size: u64,
    pub defined: bool,
    pub extern_weak: bool,
    pub byval: Vec<Option<u64>>,
    /// Number of IR instructions.
    pub size: usize,
}

#[derive(Debug)]
pub struct Global {
    pub name: String,
    pub addr: u64,
    pub size: u64,
    pub constant: bool,
    pub tls: bool,
    pub init: Vec<u8>,
}

#[derive(Default, Debug)]
pub struct Module {
    pub funcs: Vec<Func>,
    pub globals: Vec<Global>,
    pub fn_by_name: HashMap<String, u32>,
    pub g_by_name: HashMap<String, u32>,
    pub unsupported: Vec<String>,
}

pub const FUNC_BASE: u64 = 0x1000_0000;
pub const GLOBAL_BASE: u64 = 0x4000_0000;
pub const HEAP_BASE: u64 = 0x10_0000_0000;
pub const STACK_BASE: u64 = 0x7000_0000_0000;

impl Module {
    pub fn func_at(&self, addr: u64) -> Option<u32> {
        if addr < FUNC_BASE || addr % 16 != 0 {
            return None;
        }
        let i = (addr - FUNC_BASE) / 16;
        ((i as usize) < self.funcs.len()).then_some(i as u32)
    }
}
