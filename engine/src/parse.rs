//! Parser for textual LLVM IR.
use crate::ir::*;
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
enum Tok<'a> {
    Local(&'a str),
    Global(&'a str),
    Meta(&'a str),
    Attr,
    Num(&'a str),
    Word(&'a str),
    CStr(&'a str),
    Str(&'a str),
    P(u8),
    Dots,
    Eof,
}

fn ident_char(c: u8) -> bool {
    c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-')
}

fn tokenize(text: &str) -> Vec<Tok<'_>> {
    let b = text.as_bytes();
    let mut i = 0;
    let mut out = Vec::with_capacity(text.len() / 4);
    let n = b.len();
    while i < n {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => {
                while i < n && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' | b'@' | b'!' => {
                let s;
                if i + 1 < n && b[i + 1] == b'"' {
                    let st = i + 2;
                    let mut j = st;
                    while b[j] != b'"' {
                        j += 1;
                    }
                    s = &text[st..j];
                    i = j + 1;
                } else {
                    let st = i + 1;
                    let mut j = st;
                    while j < n && ident_char(b[j]) {
                        j += 1;
                    }
                    s = &text[st..j];
                    i = j;
                }
                out.push(match c {
                    b'%' => Tok::Local(s),
                    b'@' => Tok::Global(s),
                    _ => Tok::Meta(s),
                });
            }
            b'#' => {
                let mut j = i + 1;
                while j < n && ident_char(b[j]) {
                    j += 1;
                }
                out.push(Tok::Attr);
                i = j;
            }
            b'"' => {
                let st = i + 1;
                let mut j = st;
                while b[j] != b'"' {
                    j += 1;
                }
                out.push(Tok::Str(&text[st..j]));
                i = j + 1;
            }
            b'c' if i + 1 < n && b[i + 1] == b'"' => {
                let st = i + 2;
                let mut j = st;
                while b[j] != b'"' {
                    j += 1;
                }
                out.push(Tok::CStr(&text[st..j]));
                i = j + 1;
            }
            b'.' if text[i..].starts_with("...") => {
                out.push(Tok::Dots);
                i += 3;
            }
            b'0'..=b'9' | b'-' => {
                let mut j = i + 1;
                while j < n && (ident_char(b[j]) || b[j] == b'+') {
                    j += 1;
                }
                out.push(Tok::Num(&text[i..j]));
                i = j;
            }
            _ if c.is_ascii_alphabetic() || c == b'_' => {
                let mut j = i + 1;
                while j < n && ident_char(b[j]) {
                    j += 1;
                }
                out.push(Tok::Word(&text[i..j]));
                i = j;
            }
            _ => {
                out.push(Tok::P(c));
                i += 1;
            }
        }
    }
    out.push(Tok::Eof);
    out
}

fn unescape(s: &str, out: &mut Vec<u8>) {
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                out.push(b'\\');
                i += 2;
            } else {
                out.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
                i += 3;
            }
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
}

fn mask(v: u128, w: u32) -> u128 {
    if w >= 128 {
        v
    } else {
        v & ((1u128 << w) - 1)
    }
}

struct P<'a, 'm> {
    t: Vec<Tok<'a>>,
    i: usize,
    m: &'m mut Module,
    types: &'m HashMap<String, Ty>,
    regs: HashMap<&'a str, u32>,
    blocks: HashMap<&'a str, u32>,
}

type R<T> = Result<T, String>;

impl<'a> P<'a, '_> {
    fn peek(&self) -> &Tok<'a> {
        &self.t[self.i]
    }
    fn peek_at(&self, k: usize) -> &Tok<'a> {
        self.t.get(self.i + k).unwrap_or(&Tok::Eof)
    }
    fn next(&mut self) -> Tok<'a> {
        let t = self.t[self.i].clone();
        self.i += 1;
        t
    }
    fn is_p(&self, c: u8) -> bool {
        matches!(self.peek(), Tok::P(x) if *x == c)
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(self.err(&format!("expected '{}'", c as char)))
        }
    }
    fn err(&self, m: &str) -> String {
        let lo = self.i.saturating_sub(12);
        let hi = (self.i + 8).min(self.t.len());
        format!("{m}; near {:?} >>> {:?}", &self.t[lo..self.i], &self.t[self.i..hi])
    }
    fn word(&mut self, w: &str) -> bool {
        if matches!(self.peek(), Tok::Word(x) if *x == w) {
            self.i += 1;
            true
        } else {
            false
        }
    }

    fn ty(&mut self) -> R<Ty> {
        let t = self.next();
        let mut ty = match t {
            Tok::Word(w) => match w {
                "void" => Ty::Void,
                "ptr" => Ty::Ptr,
                "half" | "bfloat" => Ty::Float(16),
                "float" => Ty::Float(32),
                "double" => Ty::Float(64),
                "fp128" => Ty::Float(128),
                "x86_fp80" => Ty::Float(80),
                "label" | "metadata" | "token" => Ty::Other,
                _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => {
                    Ty::Int(w[1..].parse().unwrap())
                }
                _ => {
                    self.i -= 1;
                    return Err(self.err("type"));
                }
            },
            Tok::P(b'[') => {
                let n: u64 = self.num()?.parse().map_err(|e| format!("{e}"))?;
                if !self.word("x") {
                    return Err(self.err("x"));
                }
                let e = self.ty()?;
                self.expect(b']')?;
                Ty::Array(n, Arc::new(e))
            }
            Tok::P(b'{') => Ty::Struct(Arc::new(self.fields(b'}')?), false),
            Tok::P(b'<') => {
                if self.eat(b'{') {
                    let f = self.fields(b'}')?;
                    self.expect(b'>')?;
                    Ty::Struct(Arc::new(f), true)
                } else {
                    let n: u32 = self.num()?.parse().map_err(|e| format!("{e}"))?;
                    if !self.word("x") {
                        return Err(self.err("x"));
                    }
                    let e = self.ty()?;
                    self.expect(b'>')?;
                    Ty::Vector(n, Arc::new(e))
                }
            }
            Tok::Local(n) => self
                .types
                .get(n)
                .cloned()
                .ok_or_else(|| self.err("named type"))?,
            _ => {
                self.i -= 1;
                return Err(self.err("type"));
            }
        };
        if matches!(ty, Ty::Ptr) && self.word("addrspace") {
            self.expect(b'(')?;
            self.next();
            self.expect(b')')?;
        }
        // function type
        if self.is_p(b'(') && self.looks_like_fn_type() {
            self.skip_parens();
            ty = Ty::Other;
            let _ = &ty;
            // the return type is lost; callers use `call_ty`
        }
        Ok(ty)
    }
    fn looks_like_fn_type(&self) -> bool {
        false
    }
    fn fields(&mut self, close: u8) -> R<Vec<Ty>> {
        let mut f = Vec::new();
        if self.eat(close) {
            return Ok(f);
        }
        loop {
            f.push(self.ty()?);
            if self.eat(close) {
                return Ok(f);
            }
            self.expect(b',')?;
        }
    }
    fn num(&mut self) -> R<&'a str> {
        match self.next() {
            Tok::Num(s) => Ok(s),
            _ => {
                self.i -= 1;
                Err(self.err("number"))
            }
        }
    }
    fn skip_parens(&mut self) {
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P(b'(') | Tok::P(b'[') | Tok::P(b'{') => d += 1,
                Tok::P(b')') | Tok::P(b']') | Tok::P(b'}') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                Tok::Eof => return,
                _ => {}
            }
        }
    }
    /// Skips parameter/return attributes; returns the size of a `byval` type, if any.
    fn attrs(&mut self) -> R<Option<u64>> {
        let mut byval = None;
        loop {
            match self.peek() {
                Tok::Word(w) => match *w {
                    "align" => {
                        self.i += 1;
                        if self.is_p(b'(') {
                            self.skip_parens();
                        } else {
                            self.i += 1;
                        }
                    }
                    "byval" => {
                        self.i += 1;
                        self.expect(b'(')?;
                        byval = Some(self.ty()?.size());
                        self.expect(b')')?;
                    }
                    "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none"
                    | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "sub"
                    | "add" | "xor" | "mul" | "asm" | "splat" | "blockaddress" | "ptrtoaddr"
                    | "icmp" | "select" | "zext" | "sext" | "and" | "or" | "shl" | "lshr"
                    | "void" | "ptr" | "label" | "metadata" | "float" | "double" | "half"
                    | "token" | "x86_fp80" | "fp128" | "to" | "unwind" | "personality"
                    | "dso_local_equivalent" | "no_cfi" => return Ok(byval),
                    _ if w.starts_with('i')
                        && w.len() > 1
                        && w[1..].bytes().all(|c| c.is_ascii_digit()) =>
                    {
                        return Ok(byval)
                    }
                    _ => {
                        self.i += 1;
                        if self.is_p(b'(') {
                            self.skip_parens();
                        }
                    }
                },
                Tok::Attr => self.i += 1,
                Tok::Str(_) => {
                    self.i += 1;
                    if self.eat(b'=') {
                        self.i += 1;
                    }
                }
                _ => return Ok(byval),
            }
        }
    }

    fn parse_int(s: &str, w: u32) -> R<u128> {
        let (neg, d) = match s.strip_prefix('-') {
            Some(d) => (true, d),
            None => (false, s),
        };
        let v: u128 = d.parse().map_err(|e| format!("int {s}: {e}"))?;
        Ok(mask(if neg { v.wrapping_neg() } else { v }, w))
    }

    fn reg(&mut self, n: &'a str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }

    fn global_addr(&self, n: &str) -> R<u128> {
        if let Some(&g) = self.m.g_by_name.get(n) {
            return Ok(self.m.globals[g as usize].addr as u128);
        }
        if let Some(&f) = self.m.fn_by_name.get(n) {
            let func = &self.m.funcs[f as usize];
            if func.extern_weak {
                return Ok(0);
            }
            return Ok((FUNC_BASE + 16 * f as u64) as u128);
        }
        Err(format!("unknown global {n}"))
    }

    fn opd(&mut self, ty: &Ty) -> R<Opd> {
        if let Tok::Local(n) = self.peek() {
            let n = *n;
            self.i += 1;
            return Ok(Opd::R(self.reg(n)));
        }
        Ok(Opd::K(self.konst(ty)?))
    }

    fn typed_opd(&mut self) -> R<(Ty, Opd)> {
        let ty = self.ty()?;
        self.attrs()?;
        let o = self.opd(&ty)?;
        Ok((ty, o))
    }

    fn konst(&mut self, ty: &Ty) -> R<Val> {
        let t = self.next();
        Ok(match t {
            Tok::Num(s) => match ty {
                Ty::Int(w) => Val::C(Self::parse_int(s, *w)?),
                Ty::Float(w) => {
                    if let Some(h) = s.strip_prefix("0x") {
                        let h = h.trim_start_matches(['K', 'L', 'M', 'H', 'R']);
                        let v = u128::from_str_radix(h, 16).map_err(|e| format!("{e}"))?;
                        if *w == 32 && !s.starts_with("0xH") {
                            let d = f64::from_bits(v as u64) as f32;
                            Val::C(d.to_bits() as u128)
                        } else {
                            Val::C(v)
                        }
                    } else {
                        let d: f64 = s.parse().map_err(|e| format!("{e}"))?;
                        match w {
                            32 => Val::C((d as f32).to_bits() as u128),
                            64 => Val::C(d.to_bits() as u128),
                            _ => Val::C(0),
                        }
                    }
                }
                _ => return Err(self.err("int const for non-int")),
            },
            // The bits of a floating-point constant, in its own format.
            Tok::Word(s) if s.starts_with("f0x") => {
                Val::C(u128::from_str_radix(&s[3..], 16).map_err(|e| format!("{e}"))?)
            }
            Tok::Word("true") => Val::C(1),
            Tok::Word("false") => Val::C(0),
            Tok::Word("null") => Val::C(0),
            Tok::Word("none") => Val::C(0),
            Tok::Word("undef") | Tok::Word("poison") | Tok::Word("zeroinitializer") => {
                Val::zero(ty)
            }
            Tok::Global(n) => Val::C(self.global_addr(n)?),
            Tok::CStr(s) => {
                let mut v = Vec::new();
                unescape(s, &mut v);
                Val::Agg(Arc::new(v.into_iter().map(|b| Val::C(b as u128)).collect()))
            }
            Tok::P(b'{') | Tok::P(b'[') => {
                let close = if t == Tok::P(b'{') { b'}' } else { b']' };
                Val::Agg(Arc::new(self.const_list(close)?))
            }
            Tok::P(b'<') => {
                if self.eat(b'{') {
                    let l = self.const_list(b'}')?;
                    self.expect(b'>')?;
                    Val::Agg(Arc::new(l))
                } else {
                    Val::Agg(Arc::new(self.const_list(b'>')?))
                }
            }
            Tok::Word("splat") => {
                self.expect(b'(')?;
                let et = self.ty()?;
                let v = self.konst(&et)?;
                self.expect(b')')?;
                Val::Agg(Arc::new(vec![v; ty.count()]))
            }
            Tok::Word("getelementptr") => {
                self.const_flags();
                self.expect(b'(')?;
                let et = self.ty()?;
                self.expect(b',')?;
                let (bt, base) = self.typed_const()?;
                let _ = bt;
                let mut addr = cval(&base)?;
                let mut cur = et;
                let mut first = true;
                while self.eat(b',') {
                    let (it, iv) = self.typed_const()?;
                    let w = it.bits();
                    let idx = sext(cval(&iv)?, w);
                    if first {
                        addr = addr.wrapping_add((idx.wrapping_mul(cur.size() as i128)) as u128);
                        first = false;
                    } else {
                        addr = addr.wrapping_add(cur.field_offset(idx as usize) as u128);
                        cur = cur.elem(idx as usize).clone();
                    }
                }
                self.expect(b')')?;
                Val::C(mask(addr, 64))
            }
            Tok::Word("inttoptr") | Tok::Word("ptrtoint") | Tok::Word("bitcast")
            | Tok::Word("trunc") | Tok::Word("zext") | Tok::Word("ptrtoaddr") => {
                self.expect(b'(')?;
                let (_, v) = self.typed_const()?;
                if !self.word("to") {
                    return Err(self.err("to"));
                }
                let to = self.ty()?;
                self.expect(b')')?;
                match v {
                    Val::C(c) => Val::C(mask(c, to.bits())),
                    v => v,
                }
            }
            Tok::Word(w @ ("sub" | "add" | "xor" | "mul" | "and" | "or" | "shl" | "lshr")) => {
                self.const_flags();
                self.expect(b'(')?;
                let (t1, a) = self.typed_const()?;
                self.expect(b',')?;
                let (_, b) = self.typed_const()?;
                self.expect(b')')?;
                let (a, b) = (cval(&a)?, cval(&b)?);
                let r = match w {
                    "sub" => a.wrapping_sub(b),
                    "add" => a.wrapping_add(b),
                    "xor" => a ^ b,
                    "mul" => a.wrapping_mul(b),
                    "and" => a & b,
                    "or" => a | b,
                    "shl" => a.wrapping_shl(b as u32),
                    _ => a.wrapping_shr(b as u32),
                };
                Val::C(mask(r, t1.bits()))
            }
            Tok::Meta(_) => {
                // metadata operand
                if self.is_p(b'{') || self.is_p(b'(') {
                    self.skip_parens();
                }
                Val::C(0)
            }
            _ => {
                self.i -= 1;
                return Err(self.err("constant"));
            }
        })
    }
    /// Skips the flags of a constant expression (not its parenthesised operands).
    fn const_flags(&mut self) {
        loop {
            match self.peek() {
                Tok::Word("inrange") => {
                    self.i += 1;
                    self.skip_parens();
                }
                Tok::Word("inbounds" | "nuw" | "nusw" | "nsw" | "exact" | "disjoint") => {
                    self.i += 1
                }
                _ => return,
            }
        }
    }
    fn typed_const(&mut self) -> R<(Ty, Val)> {
        let ty = self.ty()?;
        self.attrs()?;
        let v = self.konst(&ty)?;
        Ok((ty, v))
    }
    fn const_list(&mut self, close: u8) -> R<Vec<Val>> {
        let mut v = Vec::new();
        if self.eat(close) {
            return Ok(v);
        }
        loop {
            let (_, k) = self.typed_const()?;
            v.push(k);
            if self.eat(close) {
                return Ok(v);
            }
            self.expect(b',')?;
        }
    }

    /// Skips trailing `, !meta !N` attachments.
    fn trailing(&mut self) {
        loop {
            if self.is_p(b',') && matches!(self.peek_at(1), Tok::Meta(_)) {
                self.i += 2;
                self.meta_val();
            } else if self.is_p(b',') && matches!(self.peek_at(1), Tok::Word("align")) {
                self.i += 3;
            } else {
                return;
            }
        }
    }
    fn meta_val(&mut self) {
        // `!123`, `!{...}`, `!DIFoo(...)`
        if matches!(self.peek(), Tok::Meta(_)) {
            self.i += 1;
        }
        if self.is_p(b'{') || self.is_p(b'(') {
            self.skip_parens();
        }
    }

    fn block_ref(&mut self) -> R<u32> {
        if !self.word("label") {
            return Err(self.err("label"));
        }
        match self.next() {
            Tok::Local(n) => self
                .blocks
                .get(n)
                .copied()
                .ok_or_else(|| format!("unknown block {n}")),
            _ => Err(self.err("block name")),
        }
    }

    fn call(&mut self, dst: Option<&'a str>, invoke: bool, f: &mut Func) -> R<Inst> {
        self.attrs()?; // calling convention, return attributes, fast-math flags
        let ret = self.ty()?;
        self.attrs()?;
        if self.is_p(b'(') {
            // explicit function type
            self.skip_parens();
        }
        let mut callee = match self.next() {
            Tok::Global(n) => match self.m.fn_by_name.get(n) {
                Some(&id) => {
                    if let Some(s) = n.strip_prefix("llvm.") {
                        Callee::Intrinsic(self.intrinsic(s))
                    } else {
                        Callee::Func(id)
                    }
                }
                None => return Err(format!("unknown callee {n}")),
            },
            Tok::Local(n) => Callee::Indirect(Opd::R(self.reg(n))),
            Tok::Word("asm") => {
                let mut text = String::new();
                while !self.is_p(b'(') {
                    if let Tok::Str(s) = self.next() {
                        text.push_str(s);
                        text.push('|');
                    }
                }
                Callee::Asm(text)
            }
            Tok::Word("inttoptr") | Tok::Word("null") | Tok::Word("undef") | Tok::Word("poison") => {
                self.i -= 1;
                Callee::Indirect(Opd::K(self.konst(&Ty::Ptr)?))
            }
            _ => {
                self.i -= 1;
                return Err(self.err("callee"));
            }
        };
        self.expect(b'(')?;
        let mut args = Vec::new();
        if !self.eat(b')') {
            loop {
                let ty = self.ty()?;
                if ty == Ty::Other {
                    // metadata argument
                    let mut d = 0;
                    loop {
                        match self.peek() {
                            Tok::P(b'(') | Tok::P(b'{') => d += 1,
                            Tok::P(b')') | Tok::P(b'}') if d > 0 => d -= 1,
                            Tok::P(b')') | Tok::P(b',') if d == 0 => break,
                            _ => {}
                        }
                        self.i += 1;
                    }
                } else {
                    self.attrs()?;
                    let o = self.opd(&ty)?;
                    args.push((ty, o));
                }
                if self.eat(b')') {
                    break;
                }
                self.expect(b',')?;
            }
        }
        // function attributes and operand bundles
        loop {
            match self.peek() {
                Tok::Attr => self.i += 1,
                Tok::P(b'[') => self.skip_parens(),
                Tok::Str(_) => {
                    self.i += 1;
                    if self.eat(b'=') {
                        self.i += 1;
                    }
                }
                Tok::Word(w) if *w != "to" => {
                    let w = *w;
                    // attribute words on the same call, e.g. `nounwind`, `memory(...)`
                    if is_call_attr(w) {
                        self.i += 1;
                        if self.is_p(b'(') {
                            self.skip_parens();
                        }
                    } else {
                        break;
                    }
                }
                _ => break,
            }
        }
        let inv = if invoke {
            if !self.word("to") {
                return Err(self.err("to"));
            }
            let a = self.block_ref()?;
            if !self.word("unwind") {
                return Err(self.err("unwind"));
            }
            let b = self.block_ref()?;
            Some((a, b))
        } else {
            None
        };
        if let Callee::Intrinsic(i) = &callee {
            // `is.constant`-like markers whose result is unused are dropped
            if *i == Intr::Nop && dst.is_none() {
                if let Some((a, _)) = inv {
                    return Ok(Inst::Br(a));
                }
                return Ok(Inst::Nop);
            }
        }
        if let Callee::Func(id) = &callee {
            if self.m.funcs[*id as usize].extern_weak {
                callee = Callee::Indirect(Opd::K(Val::C(0)));
            }
        }
        let dst = dst.map(|d| self.reg(d));
        let _ = f;
        Ok(Inst::Call {
            dst,
            ret,
            callee,
            args,
            invoke: inv,
        })
    }

    fn intrinsic(&mut self, s: &str) -> Intr {
        let p = |x: &str| s.starts_with(x);
        if p("lifetime.") || p("experimental.noalias") || p("dbg.") || p("prefetch") || p("invariant.")
            || p("donothing") || p("sideeffect") || p("var.annotation") || p("fake.use")
        {
            Intr::Nop
        } else if p("assume") {
            Intr::Assume
        } else if p("memcpy") || p("memmove") {
            Intr::Memcpy
        } else if p("memset") {
            Intr::Memset
        } else if p("trap") || p("ubsantrap") || p("debugtrap") {
            Intr::Trap
        } else if p("is.constant") {
            Intr::IsConstant
        } else if p("expect") {
            Intr::Expect
        } else if p("uadd.with") {
            Intr::WithOverflow(BinOp::Add, false)
        } else if p("usub.with") {
            Intr::WithOverflow(BinOp::Sub, false)
        } else if p("umul.with") {
            Intr::WithOverflow(BinOp::Mul, false)
        } else if p("sadd.with") {
            Intr::WithOverflow(BinOp::Add, true)
        } else if p("ssub.with") {
            Intr::WithOverflow(BinOp::Sub, true)
        } else if p("smul.with") {
            Intr::WithOverflow(BinOp::Mul, true)
        } else if p("ucmp") {
            Intr::UCmp
        } else if p("scmp") {
            Intr::SCmp
        } else if p("umax") {
            Intr::UMax
        } else if p("umin") {
            Intr::UMin
        } else if p("smax") {
            Intr::SMax
        } else if p("smin") {
            Intr::SMin
        } else if p("uadd.sat") {
            Intr::UAddSat
        } else if p("usub.sat") {
            Intr::USubSat
        } else if p("sadd.sat") {
            Intr::SAddSat
        } else if p("ssub.sat") {
            Intr::SSubSat
        } else if p("ctlz") {
            Intr::Ctlz
        } else if p("cttz") {
            Intr::Cttz
        } else if p("ctpop") {
            Intr::Ctpop
        } else if p("fshl") {
            Intr::Fshl
        } else if p("fshr") {
            Intr::Fshr
        } else if p("bswap") {
            Intr::Bswap
        } else if p("bitreverse") {
            Intr::Bitreverse
        } else if p("abs") {
            Intr::Abs
        } else if p("threadlocal") {
            Intr::TlsAddr
        } else if p("x86.sse2.pause") {
            Intr::Pause
        } else if p("load.relative") {
            Intr::LoadRelative
        } else if p("objectsize") {
            Intr::ObjectSize
        } else if p("vector.reduce.or") {
            Intr::ReduceOr
        } else if p("vector.reduce.and") {
            Intr::ReduceAnd
        } else if p("vector.reduce.add") {
            Intr::ReduceAdd
        } else {
            let k = self.m.unsupported.len() as u32;
            self.m.unsupported.push(format!("llvm.{s}"));
            Intr::Unsupported(k)
        }
    }

    fn inst(&mut self, f: &mut Func, phis: &mut Vec<(u32, Vec<(u32, Opd)>)>) -> R<Option<Inst>> {
        let mut dst: Option<&'a str> = None;
        if let Tok::Local(n) = self.peek() {
            let n = *n;
            self.i += 1;
            self.expect(b'=')?;
            dst = Some(n);
        }
        let op = match self.next() {
            Tok::Word(w) => w,
            _ => {
                self.i -= 1;
                return Err(self.err("opcode"));
            }
        };
        let bin = |w: &str| {
            Some(match w {
                "add" => BinOp::Add,
                "sub" => BinOp::Sub,
                "mul" => BinOp::Mul,
                "udiv" => BinOp::UDiv,
                "sdiv" => BinOp::SDiv,
                "urem" => BinOp::URem,
                "srem" => BinOp::SRem,
                "and" => BinOp::And,
                "or" => BinOp::Or,
                "xor" => BinOp::Xor,
                "shl" => BinOp::Shl,
                "lshr" => BinOp::LShr,
                "ashr" => BinOp::AShr,
                _ => return None,
            })
        };
        if let Some(b) = bin(op) {
            self.attrs()?;
            let ty = self.ty()?;
            let a = self.opd(&ty)?;
            self.expect(b',')?;
            let c = self.opd(&ty)?;
            let d = self.reg(dst.unwrap());
            return Ok(Some(Inst::Bin(b, ty, d, a, c)));
        }
        let cast = match op {
            "trunc" => Some(CastOp::Trunc),
            "zext" => Some(CastOp::ZExt),
            "sext" => Some(CastOp::SExt),
            "bitcast" | "ptrtoint" | "inttoptr" | "addrspacecast" | "ptrtoaddr" => Some(CastOp::Bit),
            "uitofp" => Some(CastOp::UiToFp),
            "sitofp" => Some(CastOp::SiToFp),
            "fptoui" => Some(CastOp::FpToUi),
            "fptosi" => Some(CastOp::FpToSi),
            "fpext" => Some(CastOp::FpExt),
            "fptrunc" => Some(CastOp::FpTrunc),
            _ => None,
        };
        if let Some(mut c) = cast {
            self.attrs()?;
            let (from, a) = self.typed_opd()?;
            if !self.word("to") {
                return Err(self.err("to"));
            }
            let to = self.ty()?;
            if c == CastOp::Bit && from.is_scalar() && to.is_scalar() {
                if to.bits() < from.bits() {
                    c = CastOp::Trunc;
                } else if to.bits() > from.bits() {
                    c = CastOp::ZExt;
                }
            }
            let d = self.reg(dst.unwrap());
            return Ok(Some(Inst::Cast(c, from, to, d, a)));
        }
        let r = match op {
            "icmp" => {
                self.word("samesign");
                let p = match self.next() {
                    Tok::Word(w) => match w {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        _ => return Err(self.err("pred")),
                    },
                    _ => return Err(self.err("pred")),
                };
                let ty = self.ty()?;
                let a = self.opd(&ty)?;
                self.expect(b',')?;
                let b = self.opd(&ty)?;
                let d = self.reg(dst.unwrap());
                Inst::ICmp(p, ty, d, a, b)
            }
            "fcmp" => {
                let mut p = 0u8;
                while let Tok::Word(w) = self.peek() {
                    let w = *w;
                    let q = match w {
                        "false" => 0,
                        "oeq" => 1,
                        "ogt" => 2,
                        "oge" => 3,
                        "olt" => 4,
                        "ole" => 5,
                        "one" => 6,
                        "ord" => 7,
                        "ueq" => 8,
                        "ugt" => 9,
                        "uge" => 10,
                        "ult" => 11,
                        "ule" => 12,
                        "une" => 13,
                        "uno" => 14,
                        "true" => 15,
                        "float" | "double" | "half" | "fp128" => break,
                        _ => {
                            self.i += 1;
                            continue;
                        }
                    };
                    p = q;
                    self.i += 1;
                }
                let ty = self.ty()?;
                let a = self.opd(&ty)?;
                self.expect(b',')?;
                let b = self.opd(&ty)?;
                let d = self.reg(dst.unwrap());
                Inst::FCmp(p, if ty.is_scalar() { ty.bits() } else { 0 }, d, a, b)
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                self.attrs()?;
                let ty = self.ty()?;
                let a = self.opd(&ty)?;
                self.expect(b',')?;
                let b = self.opd(&ty)?;
                let d = self.reg(dst.unwrap());
                let k = match op {
                    "fadd" => 0,
                    "fsub" => 1,
                    "fmul" => 2,
                    "fdiv" => 3,
                    _ => 4,
                };
                Inst::FBin(k, if ty.is_scalar() { ty.bits() } else { 0 }, d, a, b)
            }
            "fneg" => {
                self.attrs()?;
                let ty = self.ty()?;
                let a = self.opd(&ty)?;
                let d = self.reg(dst.unwrap());
                let w = if ty.is_scalar() { ty.bits() } else { 0 };
                Inst::FBin(5, w, d, a, Opd::K(Val::C(0)))
            }
            "load" => {
                let mut at = self.word("atomic");
                self.word("volatile");
                at |= self.word("atomic");
                let ty = self.ty()?;
                self.expect(b',')?;
                let (_, p) = self.typed_opd()?;
                self.skip_ordering();
                let d = self.reg(dst.unwrap());
                Inst::Load(d, ty, p, at)
            }
            "store" => {
                let mut at = self.word("atomic");
                self.word("volatile");
                at |= self.word("atomic");
                let (ty, v) = self.typed_opd()?;
                self.expect(b',')?;
                let (_, p) = self.typed_opd()?;
                self.skip_ordering();
                Inst::Store(ty, v, p, at)
            }
            "getelementptr" => {
                self.attrs()?;
                let et = self.ty()?;
                self.expect(b',')?;
                let (bt, base) = self.typed_opd()?;
                if matches!(bt, Ty::Vector(..)) {
                    return Err(self.err("vector gep"));
                }
                let mut off: i64 = 0;
                let mut idxs = Vec::new();
                let mut cur = et;
                let mut first = true;
                while self.is_p(b',') && !matches!(self.peek_at(1), Tok::Meta(_)) {
                    self.i += 1;
                    let (it, iv) = self.typed_opd()?;
                    if !it.is_scalar() {
                        return Err(self.err("vector gep"));
                    }
                    let w = it.bits();
                    if first {
                        first = false;
                        let sc = cur.size();
                        match iv {
                            Opd::K(Val::C(c)) => {
                                off = off.wrapping_add((sext(c, w) as i64).wrapping_mul(sc as i64))
                            }
                            o => idxs.push((o, w, sc)),
                        }
                    } else {
                        match (&cur, iv) {
                            (Ty::Struct(..), Opd::K(Val::C(c))) => {
                                off += cur.field_offset(c as usize) as i64;
                                cur = cur.elem(c as usize).clone();
                            }
                            (_, Opd::K(Val::C(c))) => {
                                let e = cur.elem(0).clone();
                                off = off
                                    .wrapping_add((sext(c, w) as i64).wrapping_mul(e.size() as i64));
                                cur = e;
                            }
                            (_, o) => {
                                let e = cur.elem(0).clone();
                                idxs.push((o, w, e.size()));
                                cur = e;
                            }
                        }
                    }
                }
                let d = self.reg(dst.unwrap());
                Inst::Gep(d, base, off, idxs)
            }
            "alloca" => {
                self.word("inalloca");
                let ty = self.ty()?;
                let mut count = None;
                let mut align = ty.align();
                loop {
                    if self.is_p(b',') {
                        match self.peek_at(1) {
                            Tok::Word("align") => {
                                self.i += 2;
                                align = self.num()?.parse().unwrap();
                            }
                            Tok::Word("addrspace") | Tok::Meta(_) => break,
                            _ => {
                                self.i += 1;
                                count = Some(self.typed_opd()?);
                            }
                        }
                    } else {
                        break;
                    }
                }
                let d = self.reg(dst.unwrap());
                let size = ty.size();
                match count {
                    None | Some((_, Opd::K(Val::C(1)))) => {
                        let off = f.frame_size.next_multiple_of(align.max(1));
                        f.frame_size = off + size;
                        Inst::Alloca(d, off)
                    }
                    Some((_, Opd::K(Val::C(n)))) => {
                        let off = f.frame_size.next_multiple_of(align.max(1));
                        f.frame_size = off + size * n as u64;
                        Inst::Alloca(d, off)
                    }
                    Some((_, o)) => Inst::AllocaDyn(d, size, o),
                }
            }
            "select" => {
                self.attrs()?;
                let (ct, c) = self.typed_opd()?;
                self.expect(b',')?;
                let (ty, a) = self.typed_opd()?;
                self.expect(b',')?;
                let (_, b) = self.typed_opd()?;
                let d = self.reg(dst.unwrap());
                Inst::Select(d, ty, c, a, b, !ct.is_scalar())
            }
            "phi" => {
                self.attrs()?;
                let ty = self.ty()?;
                let mut v = Vec::new();
                loop {
                    self.expect(b'[')?;
                    let o = self.opd(&ty)?;
                    self.expect(b',')?;
                    let b = match self.next() {
                        Tok::Local(n) => *self
                            .blocks
                            .get(n)
                            .ok_or_else(|| format!("unknown phi block {n}"))?,
                        _ => return Err(self.err("phi block")),
                    };
                    self.expect(b']')?;
                    v.push((b, o));
                    if self.is_p(b',') && matches!(self.peek_at(1), Tok::P(b'[')) {
                        self.i += 1;
                    } else {
                        break;
                    }
                }
                let d = self.reg(dst.unwrap());
                phis.push((d, v));
                return Ok(None);
            }
            "tail" | "musttail" | "notail" => {
                if !self.word("call") {
                    return Err(self.err("call"));
                }
                self.call(dst, false, f)?
            }
            "call" => self.call(dst, false, f)?,
            "invoke" => self.call(dst, true, f)?,
            "extractvalue" => {
                let (_, a) = self.typed_opd()?;
                let idx = self.idx_list()?;
                let d = self.reg(dst.unwrap());
                Inst::ExtractValue(d, a, idx)
            }
            "insertvalue" => {
                let (_, a) = self.typed_opd()?;
                self.expect(b',')?;
                let (_, v) = self.typed_opd()?;
                let idx = self.idx_list()?;
                let d = self.reg(dst.unwrap());
                Inst::InsertValue(d, a, v, idx)
            }
            "extractelement" => {
                let (_, a) = self.typed_opd()?;
                self.expect(b',')?;
                let (_, i) = self.typed_opd()?;
                let d = self.reg(dst.unwrap());
                Inst::ExtractElement(d, a, i)
            }
            "insertelement" => {
                let (_, a) = self.typed_opd()?;
                self.expect(b',')?;
                let (_, v) = self.typed_opd()?;
                self.expect(b',')?;
                let (_, i) = self.typed_opd()?;
                let d = self.reg(dst.unwrap());
                Inst::InsertElement(d, a, v, i)
            }
            "shufflevector" => {
                let (_, a) = self.typed_opd()?;
                self.expect(b',')?;
                let (_, b) = self.typed_opd()?;
                self.expect(b',')?;
                let (_, m) = self.typed_opd()?;
                let mask = match m {
                    Opd::K(Val::Agg(v)) => v
                        .iter()
                        .map(|x| match x {
                            Val::C(c) => *c as i32,
                            _ => 0,
                        })
                        .collect(),
                    _ => return Err(self.err("shuffle mask")),
                };
                let d = self.reg(dst.unwrap());
                Inst::Shuffle(d, a, b, mask)
            }
            "atomicrmw" => {
                self.word("volatile");
                let o = match self.next() {
                    Tok::Word(w) => match w {
                        "xchg" => RmwOp::Xchg,
                        "add" => RmwOp::Add,
                        "sub" => RmwOp::Sub,
                        "and" => RmwOp::And,
                        "or" => RmwOp::Or,
                        "xor" => RmwOp::Xor,
                        "nand" => RmwOp::Nand,
                        "max" => RmwOp::Max,
                        "min" => RmwOp::Min,
                        "umax" => RmwOp::UMax,
                        "umin" => RmwOp::UMin,
                        _ => return Err(self.err("rmw")),
                    },
                    _ => return Err(self.err("rmw")),
                };
                let (_, p) = self.typed_opd()?;
                self.expect(b',')?;
                let (ty, v) = self.typed_opd()?;
                self.skip_ordering();
                let d = match dst {
                    Some(d) => self.reg(d),
                    None => self.reg("__void"),
                };
                Inst::Rmw(o, d, ty, p, v)
            }
            "cmpxchg" => {
                let weak = self.word("weak");
                self.word("volatile");
                let (_, p) = self.typed_opd()?;
                self.expect(b',')?;
                let (ty, c) = self.typed_opd()?;
                self.expect(b',')?;
                let (_, n) = self.typed_opd()?;
                self.skip_ordering();
                let d = match dst {
                    Some(d) => self.reg(d),
                    None => self.reg("__void"),
                };
                Inst::CmpXchg(d, ty, p, c, n, weak)
            }
            "freeze" => {
                let (_, a) = self.typed_opd()?;
                let d = self.reg(dst.unwrap());
                Inst::Freeze(d, a)
            }
            "landingpad" => {
                self.ty()?;
                loop {
                    if self.word("cleanup") {
                        continue;
                    }
                    if self.word("catch") || self.word("filter") {
                        self.typed_const()?;
                        continue;
                    }
                    break;
                }
                let d = self.reg(dst.unwrap());
                Inst::LandingPad(d)
            }
            "fence" => {
                self.skip_ordering();
                Inst::Nop
            }
            "br" => {
                if matches!(self.peek(), Tok::Word("label")) {
                    Inst::Br(self.block_ref()?)
                } else {
                    let (_, c) = self.typed_opd()?;
                    self.expect(b',')?;
                    let a = self.block_ref()?;
                    self.expect(b',')?;
                    let b = self.block_ref()?;
                    Inst::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (ty, v) = self.typed_opd()?;
                self.expect(b',')?;
                let d = self.block_ref()?;
                self.expect(b'[')?;
                let mut cases = Vec::new();
                while !self.eat(b']') {
                    let (_, k) = self.typed_const()?;
                    self.expect(b',')?;
                    let b = self.block_ref()?;
                    cases.push((cval(&k)?, b));
                }
                Inst::Switch(ty.bits(), v, d, cases)
            }
            "ret" => {
                let ty = self.ty()?;
                if ty == Ty::Void {
                    Inst::Ret(None)
                } else {
                    self.attrs()?;
                    let o = self.opd(&ty)?;
                    Inst::Ret(Some((ty, o)))
                }
            }
            "resume" => {
                let (_, a) = self.typed_opd()?;
                Inst::Resume(a)
            }
            "unreachable" => Inst::Unreachable,
            _ => return Err(self.err(&format!("unknown opcode {op}"))),
        };
        Ok(Some(r))
    }

    fn idx_list(&mut self) -> R<Vec<u32>> {
        let mut v = Vec::new();
        while self.is_p(b',') && matches!(self.peek_at(1), Tok::Num(_)) {
            self.i += 1;
            v.push(self.num()?.parse().map_err(|e| format!("{e}"))?);
        }
        Ok(v)
    }

    fn skip_ordering(&mut self) {
        loop {
            match self.peek() {
                Tok::Word("syncscope") => {
                    self.i += 1;
                    self.skip_parens();
                }
                Tok::Word(
                    "unordered" | "monotonic" | "acquire" | "release" | "acq_rel" | "seq_cst",
                ) => self.i += 1,
                _ => return,
            }
        }
    }
}

fn is_call_attr(w: &str) -> bool {
    !matches!(
        w,
        "to" | "br" | "ret" | "store" | "call" | "tail" | "invoke" | "switch" | "unreachable" | "resume" | "fence"
            | "musttail" | "notail" | "atomicrmw" | "cmpxchg"
    )
}

fn cval(v: &Val) -> R<u128> {
    match v {
        Val::C(c) => Ok(*c),
        _ => Err("non-scalar constant".into()),
    }
}

pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

fn serialize(ty: &Ty, v: &Val, out: &mut [u8]) {
    match (ty, v) {
        (Ty::Array(..) | Ty::Struct(..) | Ty::Vector(..), Val::Agg(a)) => {
            for (i, e) in a.iter().enumerate() {
                let t = ty.elem(i);
                let off = ty.field_offset(i) as usize;
                let sz = t.store_size() as usize;
                serialize(t, e, &mut out[off..off + sz]);
            }
        }
        (_, Val::C(c)) => {
            let n = out.len().min(16);
            out[..n].copy_from_slice(&c.to_le_bytes()[..n]);
        }
        _ => {}
    }
}

pub fn parse_module(text: &str) -> Result<Module, String> {
    let mut m = Module::default();
    let mut types: HashMap<String, Ty> = HashMap::new();
    // pass 1: collect entities
    let mut globals: Vec<&str> = Vec::new();
    let mut aliases: Vec<&str> = Vec::new();
    let mut defs: Vec<(&str, &str, String)> = Vec::new(); // header, body, comment
    let mut pos = 0;
    let mut comment = String::new();
    let bytes = text.as_bytes();
    while pos < text.len() {
        let end = text[pos..].find('\n').map(|e| pos + e).unwrap_or(text.len());
        let line = &text[pos..end];
        let mut next = end + 1;
        match bytes.get(pos) {
            Some(b'@') => {
                if line.contains(" = alias ") || line.contains(" alias ") && !line.contains("c\"") {
                    aliases.push(line)
                } else {
                    globals.push(line)
                }
            }
            Some(b'%') if line.contains(" = type ") => {
                let (n, rest) = line.split_once(" = type ").unwrap();
                let name = n.trim_start_matches('%').trim_matches('"').to_string();
                let ty = if rest.starts_with("opaque") {
                    Ty::Other
                } else {
                    let mut p = P {
                        t: tokenize(rest),
                        i: 0,
                        m: &mut m,
                        types: &types,
                        regs: HashMap::new(),
                        blocks: HashMap::new(),
                    };
                    p.ty()?
                };
                types.insert(name, ty);
            }
            Some(b';') => {
                if !line.starts_with("; Function Attrs") {
                    comment = line[1..].trim().to_string();
                }
            }
            Some(b'd') if line.starts_with("define") || line.starts_with("declare") => {
                let name = fn_name(line)?;
                let id = m.funcs.len() as u32;
                m.fn_by_name.insert(name.to_string(), id);
                let mut f = Func {
                    name: name.to_string(),
                    ..Default::default()
                };
                f.extern_weak = line.starts_with("declare") && line.contains("extern_weak");
                if line.starts_with("define") {
                    f.defined = true;
                    let close = text[end..]
                        .find("\n}\n")
                        .map(|e| end + e)
                        .ok_or("unterminated function")?;
                    defs.push((line, &text[end + 1..close.max(end + 1)], std::mem::take(&mut comment)));
                    next = close + 3;
                }
                m.funcs.push(f);
                comment.clear();
            }
            _ => {}
        }
        pos = next;
    }
    // globals: sizes and addresses
    struct GInfo<'a> {
        toks: Vec<Tok<'a>>,
        at: usize,
        ty: Ty,
        external: bool,
    }
    let mut infos: Vec<GInfo> = Vec::new();
    let mut addr = GLOBAL_BASE;
    for line in &globals {
        let t = tokenize(line);
        let mut p = P {
            t,
            i: 0,
            m: &mut m,
            types: &types,
            regs: HashMap::new(),
            blocks: HashMap::new(),
        };
        let Tok::Global(name) = p.next() else {
            return Err(format!("global: {line}"));
        };
        p.expect(b'=')?;
        let mut constant = false;
        let mut tls = false;
        let mut external = false;
        loop {
            match p.next() {
                Tok::Word("global") => break,
                Tok::Word("constant") => {
                    constant = true;
                    break;
                }
                Tok::Word("thread_local") => {
                    tls = true;
                    if p.is_p(b'(') {
                        p.skip_parens();
                    }
                }
                Tok::Word("external" | "extern_weak") => external = true,
                Tok::Word("addrspace") => p.skip_parens(),
                Tok::Word(_) => {}
                _ => return Err(p.err("global header")),
            }
        }
        let ty = p.ty()?;
        let mut align = ty.align().max(1);
        if let Some(k) = line.rfind(", align ") {
            let d: String = line[k + 8..]
                .chars()
                .take_while(|c| c.is_ascii_digit())
                .collect();
            if let Ok(a) = d.parse::<u64>() {
                align = a;
            }
        }
        let size = ty.size();
        addr = addr.next_multiple_of(align.max(16));
        let at = p.i;
        let toks = std::mem::take(&mut p.t);
        let id = m.globals.len() as u32;
        m.g_by_name.insert(name.to_string(), id);
        m.globals.push(Global {
            name: name.to_string(),
            addr,
            size: size.max(if external { 64 } else { 0 }),
            constant,
            tls,
            init: Vec::new(),
        });
        infos.push(GInfo {
            toks,
            at,
            ty,
            external,
        });
        addr += size.max(64) + 32;
    }
    for line in aliases {
        let t = tokenize(line);
        let mut names = t.iter().filter_map(|x| match x {
            Tok::Global(n) => Some(*n),
            _ => None,
        });
        if let (Some(a), Some(b)) = (names.next(), names.next()) {
            if let Some(&f) = m.fn_by_name.get(b) {
                m.fn_by_name.insert(a.to_string(), f);
            } else if let Some(&g) = m.g_by_name.get(b) {
                m.g_by_name.insert(a.to_string(), g);
            }
        }
    }
    for (id, info) in infos.into_iter().enumerate() {
        let mut init = vec![0u8; m.globals[id].size as usize];
        if !info.external {
            let mut p = P {
                t: info.toks,
                i: info.at,
                m: &mut m,
                types: &types,
                regs: HashMap::new(),
                blocks: HashMap::new(),
            };
            let v = p.konst(&info.ty)?;
            let n = info.ty.store_size() as usize;
            serialize(&info.ty, &v, &mut init[..n]);
        }
        m.globals[id].init = init;
    }
    // bodies
    for (header, body, comment) in defs {
        let name = fn_name(header)?;
        let id = m.fn_by_name[name];
        let f = parse_fn(&mut m, &types, header, body)
            .map_err(|e| format!("in {name} ({comment}): {e}"))?;
        let mut f = f;
        f.name = name.to_string();
        f.defined = true;
        m.funcs[id as usize] = f;
    }
    Ok(m)
}

fn fn_name(line: &str) -> Result<&str, String> {
    let at = line.find('@').ok_or("no function name")?;
    let r = &line[at + 1..];
    if let Some(q) = r.strip_prefix('"') {
        return Ok(&q[..q.find('"').ok_or("quote")?]);
    }
    Ok(&r[..r.find('(').ok_or("paren")?])
}

fn parse_fn(
    m: &mut Module,
    types: &HashMap<String, Ty>,
    header: &str,
    body: &str,
) -> Result<Func, String> {
    let mut f = Func::default();
    // split into blocks by label lines
    let mut labels: Vec<&str> = Vec::new();
    let mut chunks: Vec<(usize, usize)> = Vec::new();
    let mut start = 0usize;
    let mut pos = 0usize;
    let mut first_label: Option<&str> = None;
    let mut any = false;
    let mut bounds: Vec<usize> = Vec::new();
    for line in body.split_inclusive('\n') {
        let l = line.trim_end();
        let c = l.as_bytes().first().copied().unwrap_or(b' ');
        if c != b' ' && c != b'}' && c != b';' && c != b'\t' && c != b']' {
            // label
            let code = l.split(';').next().unwrap().trim_end();
            if let Some(n) = code.strip_suffix(':') {
                let n = n.trim_matches('"');
                if !any {
                    first_label = Some(n);
                    any = true;
                    start = pos + line.len();
                } else {
                    chunks.push((start, pos));
                    start = pos + line.len();
                    bounds.push(pos);
                    labels.push(n);
                }
                pos += line.len();
                continue;
            }
        }
        if !l.trim().is_empty() && !any {
            any = true;
            start = pos;
        }
        pos += line.len();
    }
    chunks.push((start, body.len()));

    let ht = tokenize(header);
    let mut p = P {
        t: ht,
        i: 0,
        m,
        types,
        regs: HashMap::new(),
        blocks: HashMap::new(),
    };
    // header: find the name token then the parameter list
    while !matches!(p.peek(), Tok::Global(_)) {
        p.i += 1;
    }
    p.i += 1;
    p.expect(b'(')?;
    let mut unnamed = 0u32;
    let mut params = Vec::new();
    let mut byval = Vec::new();
    let mut pnames: Vec<Option<&str>> = Vec::new();
    if !p.eat(b')') {
        loop {
            if matches!(p.peek(), Tok::Dots) {
                p.i += 1;
            } else {
                p.ty()?;
                byval.push(p.attrs()?);
                if let Tok::Local(n) = p.peek() {
                    let n = *n;
                    if n.bytes().all(|c| c.is_ascii_digit()) {
                        unnamed += 1;
                    }
                    pnames.push(Some(n));
                    p.i += 1;
                } else {
                    pnames.push(None);
                    unnamed += 1;
                }
            }
            if p.eat(b')') {
                break;
            }
            p.expect(b',')?;
        }
    }
    let entry_name: String = match first_label {
        Some(n) => n.to_string(),
        None => unnamed.to_string(),
    };
    let mut un = 0u32;
    let param_names: Vec<String> = pnames
        .iter()
        .map(|n| match n {
            Some(n) => {
                if n.bytes().all(|c| c.is_ascii_digit()) {
                    un += 1;
                }
                n.to_string()
            }
            None => {
                un += 1;
                (un - 1).to_string()
            }
        })
        .collect();
    drop(p);
    // leak the few owned names so that they live as long as the text
    let entry_name: &'static str = Box::leak(entry_name.into_boxed_str());
    let mut blocks = HashMap::new();
    blocks.insert(entry_name, 0u32);
    for (i, l) in labels.iter().enumerate() {
        blocks.insert(*l, i as u32 + 1);
    }
    let mut p = P {
        t: Vec::new(),
        i: 0,
        m,
        types,
        regs: HashMap::new(),
        blocks,
    };
    for n in param_names {
        let n: &'static str = Box::leak(n.into_boxed_str());
        let r = p.reg(n);
        params.push(r);
    }
    f.params = params;
    f.byval = byval;
    let _ = bounds;
    for (s, e) in chunks {
        let txt = &body[s..e.max(s)];
        // drop debug-record lines
        p.t = if txt.contains("#dbg_") {
            return Err("debug records are not supported: build without debug info".into());
        } else {
            tokenize(txt)
        };
        p.i = 0;
        let mut b = Block::default();
        while !matches!(p.peek(), Tok::Eof) {
            if let Some(inst) = p.inst(&mut f, &mut b.phis)? {
                if !matches!(inst, Inst::Nop) {
                    b.insts.push(inst);
                }
            }
            p.trailing();
        }
        f.size += b.insts.len() + b.phis.len();
        f.blocks.push(b);
    }
    f.nregs = p.regs.len() as u32;
    Ok(f)
}
