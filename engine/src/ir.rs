//! Textual LLVM IR reader (the subset rustc's release+LTO output uses).
//! Functions are indexed at load time and decoded on first call.

use std::collections::HashMap;
use std::rc::Rc;

pub type TyId = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Vec(u32, TyId),
    Arr(u64, TyId),
    Struct(Vec<TyId>, bool),
    Other,
}

#[derive(Clone, Debug)]
pub enum Cst {
    Int(u128),
    Zero,
    Undef,
    Global(u32), // index in symbol table
    Agg(Vec<(TyId, Cst)>),
    Str(Vec<u8>),
    /// base + offset
    Add(Box<Cst>, i128),
    Sub(Box<Cst>, Box<Cst>),
    Trunc(Box<Cst>, u32),
}

#[derive(Clone, Debug)]
pub enum Opnd {
    Reg(u32),
    Cst(Rc<Cst>),
    /// fast integer constant
    Imm(u128),
    Meta,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast {
    ZExt,
    SExt,
    Trunc,
    Bit,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { dst: u32, op: BinOp, ty: TyId, a: Opnd, b: Opnd },
    ICmp { dst: u32, pred: Pred, ty: TyId, a: Opnd, b: Opnd },
    Cast { dst: u32, kind: Cast, from: TyId, to: TyId, a: Opnd },
    Select { dst: u32, c: Opnd, cty: TyId, ty: TyId, a: Opnd, b: Opnd },
    Load { dst: u32, ty: TyId, ptr: Opnd },
    Store { ty: TyId, val: Opnd, ptr: Opnd },
    Alloca { dst: u32, size: u64, n: Opnd, nty: TyId },
    Gep { dst: u32, base: Opnd, off: i64, terms: Vec<(Opnd, u32, i64)> },
    Call { dst: Option<u32>, ret: TyId, callee: Opnd, args: Vec<(TyId, Opnd)>, next: Option<u32> },
    Ret { ty: TyId, val: Option<Opnd> },
    Br { to: u32 },
    CondBr { c: Opnd, t: u32, f: u32 },
    Switch { ty: TyId, v: Opnd, def: u32, cases: Vec<(u128, u32)> },
    Unreachable,
    ExtractValue { dst: u32, a: Opnd, idx: Vec<u32>, ty: TyId },
    InsertValue { dst: u32, a: Opnd, v: Opnd, idx: Vec<u32>, ty: TyId },
    ExtractElem { dst: u32, a: Opnd, i: Opnd, ty: TyId },
    InsertElem { dst: u32, a: Opnd, v: Opnd, i: Opnd, ty: TyId },
    Shuffle { dst: u32, a: Opnd, b: Opnd, ty: TyId, mask: Vec<Option<u32>> },
    AtomicRmw { dst: u32, op: String, ty: TyId, ptr: Opnd, v: Opnd },
    CmpXchg { dst: u32, ty: TyId, ptr: Opnd, old: Opnd, new: Opnd },
    Freeze { dst: u32, ty: TyId, a: Opnd },
    Nop,
    /// something this reader does not model; executing it is an engine error
    Unsupported(String),
}

#[derive(Debug)]
pub struct Phi {
    pub dst: u32,
    pub ty: TyId,
    pub inc: Vec<(u32, Opnd)>, // pred block
}

#[derive(Debug, Default)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub insts: Vec<Inst>,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub sym: u32,
    pub nregs: u32,
    pub nparams: u32,
    pub blocks: Vec<Block>,
    pub ninst: usize,
}

#[derive(Clone, Debug)]
pub enum SymKind {
    Undefined,
    Func { start: usize, end: usize },
    Decl,
    Global { ty: TyId, init: Option<Rc<Cst>>, konst: bool },
    Alias(Rc<Cst>),
}

pub struct Symbol {
    pub name: String,
    pub kind: SymKind,
}

pub struct Module {
    pub text: Vec<u8>,
    pub tys: Vec<Ty>,
    ty_ix: HashMap<Ty, TyId>,
    named: HashMap<String, TyId>,
    pub syms: Vec<Symbol>,
    pub sym_ix: HashMap<String, u32>,
    pub decoded: Vec<Option<Rc<Func>>>,
    pub i1: TyId,
    pub i8: TyId,
    pub i64: TyId,
    pub ptr: TyId,
    pub void: TyId,
}

#[derive(Clone, Debug, PartialEq)]
enum Tok<'a> {
    Word(&'a str),
    Local(&'a str),  // %x
    Global(&'a str), // @x
    Meta,            // !x
    Num(&'a str),
    Str(&'a [u8]),  // "..." raw
    CStr(&'a [u8]), // c"..."
    P(u8),          // punctuation
    Hash,           // #12
}

struct Lex<'a> {
    s: &'a [u8],
    i: usize,
    peeked: Option<Option<Tok<'a>>>,
}

fn is_name(c: u8) -> bool {
    c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-')
}

impl<'a> Lex<'a> {
    fn new(s: &'a [u8]) -> Self {
        Lex { s, i: 0, peeked: None }
    }

    fn peek(&mut self) -> Option<Tok<'a>> {
        if self.peeked.is_none() {
            let t = self.raw();
            self.peeked = Some(t);
        }
        self.peeked.clone().unwrap()
    }

    fn next(&mut self) -> Option<Tok<'a>> {
        match self.peeked.take() {
            Some(t) => t,
            None => self.raw(),
        }
    }

    fn quoted(&mut self) -> &'a [u8] {
        // at opening quote
        let st = self.i + 1;
        let mut j = st;
        while self.s[j] != b'"' {
            j += 1;
        }
        self.i = j + 1;
        &self.s[st..j]
    }

    fn raw(&mut self) -> Option<Tok<'a>> {
        let s = self.s;
        while self.i < s.len() && matches!(s[self.i], b' ' | b'\n' | b'\t' | b'\r') {
            self.i += 1;
        }
        if self.i >= s.len() {
            return None;
        }
        let c = s[self.i];
        if c == b';' {
            while self.i < s.len() && s[self.i] != b'\n' {
                self.i += 1;
            }
            return self.raw();
        }
        let st = self.i;
        let utf = |a: usize, b: usize| unsafe { std::str::from_utf8_unchecked(&s[a..b]) };
        match c {
            b'%' | b'@' => {
                self.i += 1;
                let nm = if s[self.i] == b'"' {
                    let q = self.quoted();
                    unsafe { std::str::from_utf8_unchecked(q) }
                } else {
                    let a = self.i;
                    while self.i < s.len() && is_name(s[self.i]) {
                        self.i += 1;
                    }
                    utf(a, self.i)
                };
                Some(if c == b'%' { Tok::Local(nm) } else { Tok::Global(nm) })
            }
            b'!' => {
                self.i += 1;
                if self.i < s.len() && s[self.i] == b'"' {
                    self.quoted();
                } else {
                    while self.i < s.len() && is_name(s[self.i]) {
                        self.i += 1;
                    }
                }
                Some(Tok::Meta)
            }
            b'#' => {
                self.i += 1;
                while self.i < s.len() && s[self.i].is_ascii_digit() {
                    self.i += 1;
                }
                Some(Tok::Hash)
            }
            b'"' => Some(Tok::Str(self.quoted())),
            b'c' if s.get(self.i + 1) == Some(&b'"') => {
                self.i += 1;
                Some(Tok::CStr(self.quoted()))
            }
            b'-' | b'0'..=b'9' => {
                self.i += 1;
                while self.i < s.len() && (s[self.i].is_ascii_alphanumeric() || s[self.i] == b'.' || ((s[self.i] == b'+' || s[self.i]==b'-') && s[self.i - 1] == b'e')) {
                    self.i += 1;
                }
                Some(Tok::Num(utf(st, self.i)))
            }
            c if c.is_ascii_alphabetic() || c == b'_' || c == b'$' || c == b'.' => {
                while self.i < s.len() && is_name(s[self.i]) {
                    self.i += 1;
                }
                Some(Tok::Word(utf(st, self.i)))
            }
            _ => {
                self.i += 1;
                Some(Tok::P(c))
            }
        }
    }

    fn eat(&mut self, p: u8) -> bool {
        if self.peek() == Some(Tok::P(p)) {
            self.next();
            true
        } else {
            false
        }
    }

    fn expect(&mut self, p: u8) {
        let t = self.next();
        if t != Some(Tok::P(p)) {
            panic!(
                "IR parse: expected {:?} got {:?} near {}",
                p as char,
                t,
                String::from_utf8_lossy(&self.s[self.i.saturating_sub(120)..(self.i + 40).min(self.s.len())])
            );
        }
    }

    fn word(&mut self, w: &str) -> bool {
        if self.peek() == Some(Tok::Word(w)) {
            self.next();
            true
        } else {
            false
        }
    }

    fn skip_paren(&mut self) {
        // after '(' consumed
        let mut d = 1;
        while d > 0 {
            match self.next() {
                Some(Tok::P(b'(')) => d += 1,
                Some(Tok::P(b')')) => d -= 1,
                None => panic!("IR parse: unbalanced"),
                _ => {}
            }
        }
    }
}

fn unescape(s: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(s.len());
    let mut i = 0;
    let h = |c: u8| (c as char).to_digit(16).unwrap() as u8;
    while i < s.len() {
        if s[i] == b'\\' {
            if s[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
            } else {
                o.push(h(s[i + 1]) * 16 + h(s[i + 2]));
                i += 3;
            }
        } else {
            o.push(s[i]);
            i += 1;
        }
    }
    o
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

fn parse_int(t: &str) -> u128 {
    if let Some(r) = t.strip_prefix('-') {
        (r.parse::<u128>().expect("int")).wrapping_neg()
    } else {
        t.parse::<u128>().unwrap_or_else(|_| panic!("int {t}"))
    }
}

struct FnCtx {
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
    nblocks: u32,
}

impl FnCtx {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }

    fn block(&mut self, n: &str) -> u32 {
        if let Some(r) = self.blocks.get(n) {
            return *r;
        }
        let r = self.nblocks;
        self.nblocks += 1;
        self.blocks.insert(n.to_string(), r);
        r
    }
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text = std::fs::read(path).unwrap_or_else(|e| panic!("read {path}: {e}"));
        let mut m = Module {
            text: vec![],
            tys: vec![],
            ty_ix: HashMap::new(),
            named: HashMap::new(),
            syms: vec![],
            sym_ix: HashMap::new(),
            decoded: vec![],
            i1: 0,
            i8: 0,
            i64: 0,
            ptr: 0,
            void: 0,
        };
        m.i1 = m.ty(Ty::Int(1));
        m.i8 = m.ty(Ty::Int(8));
        m.i64 = m.ty(Ty::Int(64));
        m.ptr = m.ty(Ty::Ptr);
        m.void = m.ty(Ty::Void);
        // scan lines
        let mut i = 0;
        let n = text.len();
        let mut globals: Vec<(usize, usize)> = vec![];
        while i < n {
            let e = memchr(&text, i, b'\n').unwrap_or(n);
            let line = &text[i..e];
            if line.starts_with(b"@") {
                globals.push((i, e));
            } else if line.starts_with(b"define ") {
                // find end "\n}\n"
                let mut j = e;
                loop {
                    let k = memchr(&text, j + 1, b'\n').unwrap_or(n);
                    if &text[j + 1..k] == b"}" {
                        j = k;
                        break;
                    }
                    j = k;
                }
                let name = fn_name(line);
                let s = m.sym(&name);
                m.syms[s as usize].kind = SymKind::Func { start: i, end: j };
                i = j + 1;
                continue;
            } else if line.starts_with(b"declare ") {
                let name = fn_name(line);
                let s = m.sym(&name);
                m.syms[s as usize].kind = SymKind::Decl;
            } else if line.starts_with(b"%") {
                let mut lx = Lex::new(line);
                if let Some(Tok::Local(nm)) = lx.next() {
                    let nm = nm.to_string();
                    lx.expect(b'=');
                    assert!(lx.word("type"));
                    let t = m.parse_ty(&mut lx);
                    m.named.insert(nm, t);
                }
            }
            i = e + 1;
        }
        for (a, b) in globals {
            let line = text[a..b].to_vec();
            m.parse_global(&line);
        }
        m.decoded = (0..m.syms.len()).map(|_| None).collect();
        m.text = text;
        m
    }

    pub fn ty(&mut self, t: Ty) -> TyId {
        if let Some(i) = self.ty_ix.get(&t) {
            return *i;
        }
        let i = self.tys.len() as u32;
        self.tys.push(t.clone());
        self.ty_ix.insert(t, i);
        i
    }

    pub fn sym(&mut self, name: &str) -> u32 {
        if let Some(i) = self.sym_ix.get(name) {
            return *i;
        }
        let i = self.syms.len() as u32;
        self.syms.push(Symbol { name: name.to_string(), kind: SymKind::Undefined });
        self.sym_ix.insert(name.to_string(), i);
        if !self.decoded.is_empty() {
            self.decoded.push(None);
        }
        i
    }

    pub fn align_of(&self, t: TyId) -> u64 {
        match &self.tys[t as usize] {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Vec(n, e) => {
                let b = self.store_size(*e) * *n as u64;
                b.next_power_of_two()
            }
            Ty::Arr(_, e) => self.align_of(*e),
            Ty::Struct(es, packed) => {
                if *packed {
                    1
                } else {
                    es.iter().map(|e| self.align_of(*e)).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }

    pub fn store_size(&self, t: TyId) -> u64 {
        match &self.tys[t as usize] {
            Ty::Int(w) => ((*w as u64) + 7) / 8,
            Ty::Vec(n, e) => {
                if let Ty::Int(w) = self.tys[*e as usize] {
                    (w as u64 * *n as u64 + 7) / 8
                } else {
                    self.store_size(*e) * *n as u64
                }
            }
            _ => self.alloc_size(t),
        }
    }

    pub fn alloc_size(&self, t: TyId) -> u64 {
        let up = |x: u64, a: u64| (x + a - 1) / a * a;
        match &self.tys[t as usize] {
            Ty::Int(_) | Ty::Vec(..) => up(self.store_size(t), self.align_of(t)),
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, e) => n * self.alloc_size(*e),
            Ty::Struct(es, packed) => {
                let mut o = 0;
                for e in es {
                    if !packed {
                        o = up(o, self.align_of(*e));
                    }
                    o += self.alloc_size(*e);
                }
                up(o, self.align_of(t))
            }
            _ => 0,
        }
    }

    pub fn field_off(&self, t: TyId, ix: usize) -> (u64, TyId) {
        let up = |x: u64, a: u64| (x + a - 1) / a * a;
        match &self.tys[t as usize] {
            Ty::Struct(es, packed) => {
                let mut o = 0;
                for (i, e) in es.iter().enumerate() {
                    if !packed {
                        o = up(o, self.align_of(*e));
                    }
                    if i == ix {
                        return (o, *e);
                    }
                    o += self.alloc_size(*e);
                }
                panic!("field")
            }
            Ty::Arr(_, e) => (self.alloc_size(*e) * ix as u64, *e),
            Ty::Vec(_, e) => (self.store_size(*e) * ix as u64, *e),
            x => panic!("field_off {x:?}"),
        }
    }

    pub fn width(&self, t: TyId) -> u32 {
        match &self.tys[t as usize] {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => 0,
        }
    }

    fn parse_ty(&mut self, lx: &mut Lex) -> TyId {
        let mut t = match lx.next() {
            Some(Tok::Word(w)) => match w {
                "void" => self.void,
                "ptr" => {
                    if lx.word("addrspace") {
                        lx.expect(b'(');
                        lx.skip_paren();
                    }
                    self.ptr
                }
                "float" => self.ty(Ty::F32),
                "double" => self.ty(Ty::F64),
                "metadata" | "label" | "token" | "x86_fp80" | "fp128" | "half" => self.ty(Ty::Other),
                w if w.starts_with('i') && w.len() > 1 && w.as_bytes()[1].is_ascii_digit() => {
                    let n = w[1..].parse().unwrap();
                    self.ty(Ty::Int(n))
                }
                w => panic!("type {w}"),
            },
            Some(Tok::P(b'{')) => self.parse_struct(lx, b'}', false),
            Some(Tok::P(b'[')) => {
                let n = match lx.next() {
                    Some(Tok::Num(n)) => n.parse().unwrap(),
                    t => panic!("arr {t:?}"),
                };
                assert!(lx.word("x"));
                let e = self.parse_ty(lx);
                lx.expect(b']');
                self.ty(Ty::Arr(n, e))
            }
            Some(Tok::P(b'<')) => {
                if lx.eat(b'{') {
                    let t = self.parse_struct(lx, b'}', true);
                    lx.expect(b'>');
                    t
                } else {
                    let n = match lx.next() {
                        Some(Tok::Num(n)) => n.parse().unwrap(),
                        t => panic!("vec {t:?}"),
                    };
                    assert!(lx.word("x"));
                    let e = self.parse_ty(lx);
                    lx.expect(b'>');
                    self.ty(Ty::Vec(n, e))
                }
            }
            Some(Tok::Local(n)) => *self.named.get(n).unwrap_or_else(|| panic!("named type {n}")),
            t => panic!("type tok {t:?} near {}", String::from_utf8_lossy(&lx.s[lx.i.saturating_sub(200)..(lx.i+50).min(lx.s.len())])),
        };
        // function type in calls: `void (ptr, ...)` handled by caller
        if false {
            t = 0;
        }
        t
    }

    fn parse_struct(&mut self, lx: &mut Lex, close: u8, packed: bool) -> TyId {
        let mut es = vec![];
        if lx.eat(close) {
            return self.ty(Ty::Struct(es, packed));
        }
        loop {
            es.push(self.parse_ty(lx));
            if lx.eat(b',') {
                continue;
            }
            lx.expect(close);
            break;
        }
        self.ty(Ty::Struct(es, packed))
    }

    fn parse_global(&mut self, line: &[u8]) {
        let mut lx = Lex::new(line);
        let name = match lx.next() {
            Some(Tok::Global(n)) => n.to_string(),
            t => panic!("{t:?}"),
        };
        lx.expect(b'=');
        let mut external = false;
        loop {
            match lx.next() {
                Some(Tok::Word(w)) => match w {
                    "global" | "constant" => {
                        let konst = w == "constant";
                        let ty = self.parse_ty(&mut lx);
                        let init = if external { None } else { Some(Rc::new(self.parse_cst(&mut lx, ty))) };
                        let s = self.sym(&name);
                        self.syms[s as usize].kind = SymKind::Global { ty, init, konst };
                        return;
                    }
                    "alias" => {
                        let _ = self.parse_ty(&mut lx);
                        lx.expect(b',');
                        let t = self.parse_ty(&mut lx);
                        let c = self.parse_cst(&mut lx, t);
                        let s = self.sym(&name);
                        self.syms[s as usize].kind = SymKind::Alias(Rc::new(c));
                        return;
                    }
                    "external" | "extern_weak" => external = true,
                    _ => {
                        if lx.eat(b'(') {
                            lx.skip_paren();
                        }
                    }
                },
                None => panic!("global {name}"),
                _ => {}
            }
        }
    }

    fn parse_cst(&mut self, lx: &mut Lex, ty: TyId) -> Cst {
        match lx.next() {
            Some(Tok::Num(n)) => {
                if matches!(self.tys[ty as usize], Ty::F32 | Ty::F64) {
                    let bits: u64 = if let Some(h) = n.strip_prefix("0x") {
                        u64::from_str_radix(h, 16).unwrap_or(0)
                    } else {
                        n.parse::<f64>().unwrap_or(0.0).to_bits()
                    };
                    if self.tys[ty as usize] == Ty::F32 {
                        return Cst::Int((f64::from_bits(bits) as f32).to_bits() as u128);
                    }
                    return Cst::Int(bits as u128);
                }
                Cst::Int(parse_int(n) & mask(self.width(ty)))
            }
            Some(Tok::CStr(s)) => Cst::Str(unescape(s)),
            Some(Tok::Global(g)) => {
                let s = self.sym(g);
                Cst::Global(s)
            }
            Some(Tok::P(b'{')) => self.parse_agg(lx, b'}'),
            Some(Tok::P(b'[')) => self.parse_agg(lx, b']'),
            Some(Tok::P(b'<')) => {
                if lx.eat(b'{') {
                    let r = self.parse_agg(lx, b'}');
                    lx.expect(b'>');
                    r
                } else {
                    self.parse_agg(lx, b'>')
                }
            }
            Some(Tok::Word(w)) => match w {
                "null" | "zeroinitializer" | "none" => Cst::Zero,
                "undef" | "poison" => Cst::Undef,
                "true" => Cst::Int(1),
                "false" => Cst::Int(0),
                "splat" => {
                    lx.expect(b'(');
                    let t = self.parse_ty(lx);
                    let c = self.parse_cst(lx, t);
                    lx.expect(b')');
                    let n = match self.tys[ty as usize] {
                        Ty::Vec(n, _) => n,
                        _ => panic!("splat"),
                    };
                    Cst::Agg(vec![(t, c); n as usize])
                }
                "getelementptr" => {
                    while let Some(Tok::Word(_)) = lx.peek() {
                        // inbounds nuw nusw inrange(...)
                        let save = lx.next();
                        if let Some(Tok::Word("inrange")) = save {
                            lx.expect(b'(');
                            lx.skip_paren();
                        }
                    }
                    lx.expect(b'(');
                    let ety = self.parse_ty(lx);
                    lx.expect(b',');
                    let bt = self.parse_ty(lx);
                    let base = self.parse_cst(lx, bt);
                    let mut off = 0i128;
                    let mut cur = ety;
                    let mut first = true;
                    while lx.eat(b',') {
                        let it = self.parse_ty(lx);
                        let ix = match self.parse_cst(lx, it) {
                            Cst::Int(i) => {
                                let w = self.width(it);
                                ((i << (128 - w)) as i128) >> (128 - w)
                            }
                            Cst::Zero => 0,
                            c => panic!("gep const {c:?}"),
                        };
                        if first {
                            off += ix * self.alloc_size(cur) as i128;
                            first = false;
                        } else {
                            match self.tys[cur as usize].clone() {
                                Ty::Struct(..) => {
                                    let (o, t) = self.field_off(cur, ix as usize);
                                    off += o as i128;
                                    cur = t;
                                }
                                Ty::Arr(_, e) => {
                                    off += ix * self.alloc_size(e) as i128;
                                    cur = e;
                                }
                                t => panic!("gep {t:?}"),
                            }
                        }
                    }
                    lx.expect(b')');
                    if off == 0 {
                        base
                    } else {
                        Cst::Add(Box::new(base), off)
                    }
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "addrspacecast" | "ptrtoaddr" => {
                    lx.expect(b'(');
                    let t = self.parse_ty(lx);
                    let c = self.parse_cst(lx, t);
                    assert!(lx.word("to"));
                    let tt = self.parse_ty(lx);
                    lx.expect(b')');
                    if w == "trunc" {
                        let n = self.width(tt);
                        return Cst::Trunc(Box::new(c), n);
                    }
                    c
                }
                "add" | "sub" => {
                    while let Some(Tok::Word(_)) = lx.peek() {
                        lx.next();
                    }
                    lx.expect(b'(');
                    let t = self.parse_ty(lx);
                    let a = self.parse_cst(lx, t);
                    lx.expect(b',');
                    let t2 = self.parse_ty(lx);
                    let b = self.parse_cst(lx, t2);
                    lx.expect(b')');
                    match (w, b) {
                        ("add", Cst::Int(i)) => Cst::Add(Box::new(a), i as i64 as i128),
                        ("sub", Cst::Int(i)) => Cst::Add(Box::new(a), -(i as i64 as i128)),
                        ("sub", b) => Cst::Sub(Box::new(a), Box::new(b)),
                        x => panic!("constexpr {x:?}"),
                    }
                }
                w => panic!("constant {w}"),
            },
            t => panic!("constant tok {t:?} near {}", String::from_utf8_lossy(&lx.s[lx.i.saturating_sub(200)..(lx.i+50).min(lx.s.len())])),
        }
    }

    fn parse_agg(&mut self, lx: &mut Lex, close: u8) -> Cst {
        let mut v = vec![];
        if lx.eat(close) {
            return Cst::Agg(v);
        }
        loop {
            let t = self.parse_ty(lx);
            let c = self.parse_cst(lx, t);
            v.push((t, c));
            if lx.eat(b',') {
                continue;
            }
            lx.expect(close);
            return Cst::Agg(v);
        }
    }

    fn parse_opnd(&mut self, lx: &mut Lex, ty: TyId, fx: &mut FnCtx) -> Opnd {
        match lx.peek() {
            Some(Tok::Local(n)) => {
                lx.next();
                Opnd::Reg(fx.reg(n))
            }
            _ => {
                let c = self.parse_cst(lx, ty);
                match c {
                    Cst::Int(i) => Opnd::Imm(i),
                    Cst::Zero if self.width(ty) > 0 => Opnd::Imm(0),
                    Cst::Undef if self.width(ty) > 0 => Opnd::Imm(0),
                    c => Opnd::Cst(Rc::new(c)),
                }
            }
        }
    }

    pub fn func(&mut self, s: u32) -> Option<Rc<Func>> {
        if let Some(Some(f)) = self.decoded.get(s as usize) {
            return Some(f.clone());
        }
        let (a, b) = match &self.syms[s as usize].kind {
            SymKind::Func { start, end } => (*start, *end),
            _ => return None,
        };
        let text = std::mem::take(&mut self.text);
        let f = Rc::new(self.parse_func(s, &text[a..b]));
        self.text = text;
        self.decoded[s as usize] = Some(f.clone());
        Some(f)
    }

    fn skip_attrs(lx: &mut Lex) {
        loop {
            match lx.peek() {
                Some(Tok::Word(w)) => match w {
                    "null" | "undef" | "poison" | "true" | "false" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "none" | "splat"
                    | "trunc" | "bitcast" | "ptrtoaddr" => return,
                    _ => {
                        lx.next();
                        // attribute value: `align 8` or attr(...)
                        if w == "align" {
                            if let Some(Tok::Num(_)) = lx.peek() {
                                lx.next();
                            } else if lx.eat(b'(') {
                                lx.skip_paren();
                            }
                        } else if lx.peek() == Some(Tok::P(b'(')) {
                            lx.next();
                            lx.skip_paren();
                        }
                    }
                },
                _ => return,
            }
        }
    }

    fn parse_func(&mut self, s: u32, text: &[u8]) -> Func {
        let nl = memchr(text, 0, b'\n').unwrap();
        let head = &text[..nl];
        let name = self.syms[s as usize].name.clone();
        let mut fx = FnCtx { regs: HashMap::new(), blocks: HashMap::new(), nblocks: 0 };
        // parameters
        let mut lx = Lex::new(head);
        loop {
            match lx.next() {
                Some(Tok::Global(_)) => break,
                Some(Tok::P(b'(')) => lx.skip_paren(),
                None => panic!("define"),
                _ => {}
            }
        }
        lx.expect(b'(');
        let mut np = 0;
        let mut unnamed = 0;
        if !lx.eat(b')') {
            loop {
                let _t = self.parse_ty(&mut lx);
                loop {
                    match lx.peek() {
                        Some(Tok::Word(_)) => {
                            Self::skip_attrs(&mut lx);
                        }
                        _ => break,
                    }
                }
                match lx.peek() {
                    Some(Tok::Local(n)) => {
                        lx.next();
                        if n.bytes().all(|c| c.is_ascii_digit()) {
                            unnamed += 1;
                        }
                        let r = fx.reg(n);
                        assert_eq!(r, np);
                    }
                    _ => {
                        let r = fx.reg(&format!("{unnamed}"));
                        unnamed += 1;
                        assert_eq!(r, np);
                    }
                }
                np += 1;
                if lx.eat(b',') {
                    continue;
                }
                lx.expect(b')');
                break;
            }
        }
        // body: join lines
        let mut blocks: Vec<Block> = vec![];
        let mut cur: Option<u32> = None;
        let mut i = nl + 1;
        let mut first = true;
        let mut ninst = 0;
        let body_end = text.len();
        let mut pending: Vec<u8> = vec![];
        macro_rules! ensure {
            ($b:expr) => {
                while blocks.len() <= $b as usize {
                    blocks.push(Block::default());
                }
            };
        }
        let mut lines: Vec<(bool, Vec<u8>)> = vec![];
        while i < body_end {
            let e = memchr(text, i, b'\n').unwrap_or(body_end);
            let line = &text[i..e];
            i = e + 1;
            if line.is_empty() || line == b"}" || line[0] == b';' {
                continue;
            }
            if line[0] != b' ' {
                if !pending.is_empty() {
                    lines.push((false, std::mem::take(&mut pending)));
                }
                lines.push((true, line.to_vec()));
            } else if line.len() > 2 && line[2] != b' ' && line[2] != b']' {
                if line.starts_with(b"    #") || line.starts_with(b"  #dbg") {
                    continue;
                }
                if !pending.is_empty() {
                    lines.push((false, std::mem::take(&mut pending)));
                }
                pending = line.to_vec();
            } else {
                if line.starts_with(b"    #") {
                    continue;
                }
                pending.push(b' ');
                pending.extend_from_slice(line);
            }
        }
        if !pending.is_empty() {
            lines.push((false, pending));
        }
        for (is_label, line) in &lines {
            if *is_label {
                let mut lx = Lex::new(line);
                let nm = match lx.next() {
                    Some(Tok::Word(w)) => w.to_string(),
                    Some(Tok::Num(w)) => w.to_string(),
                    Some(Tok::Str(w)) => String::from_utf8_lossy(w).to_string(),
                    t => panic!("label {t:?}"),
                };
                let b = fx.block(&nm);
                ensure!(b);
                cur = Some(b);
                first = false;
                continue;
            }
            if first {
                // unnamed entry block
                let nm = format!("{unnamed}");
                let b = fx.block(&nm);
                ensure!(b);
                cur = Some(b);
                first = false;
            }
            let b = cur.unwrap();
            let mut lx = Lex::new(line);
            let r = self.parse_inst(&mut lx, &mut fx);
            ensure!(fx.nblocks.max(1) - 1);
            match r {
                PI::Phi(p) => blocks[b as usize].phis.push(p),
                PI::Inst(Inst::Nop) => {}
                PI::Inst(x) => {
                    ninst += 1;
                    blocks[b as usize].insts.push(x)
                }
            }
        }
        ensure!(fx.nblocks.max(1) - 1);
        Func { name, sym: s, nregs: fx.regs.len() as u32, nparams: np, blocks, ninst }
    }

    fn parse_inst(&mut self, lx: &mut Lex, fx: &mut FnCtx) -> PI {
        let mut dst: Option<u32> = None;
        if let Some(Tok::Local(n)) = lx.peek() {
            lx.next();
            dst = Some(fx.reg(n));
            lx.expect(b'=');
        }
        let op = match lx.next() {
            Some(Tok::Word(w)) => w,
            t => panic!("inst {t:?}"),
        };
        let label = |lx: &mut Lex, fx: &mut FnCtx| -> u32 {
            assert!(lx.word("label"));
            match lx.next() {
                Some(Tok::Local(n)) => fx.block(n),
                t => panic!("label {t:?}"),
            }
        };
        let i = match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                while let Some(Tok::Word("nuw" | "nsw" | "exact" | "disjoint")) = lx.peek() {
                    lx.next();
                }
                let ty = self.parse_ty(lx);
                let a = self.parse_opnd(lx, ty, fx);
                lx.expect(b',');
                let b = self.parse_opnd(lx, ty, fx);
                let op = match op {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    "mul" => BinOp::Mul,
                    "udiv" => BinOp::UDiv,
                    "sdiv" => BinOp::SDiv,
                    "urem" => BinOp::URem,
                    "srem" => BinOp::SRem,
                    "shl" => BinOp::Shl,
                    "lshr" => BinOp::LShr,
                    "ashr" => BinOp::AShr,
                    "and" => BinOp::And,
                    "or" => BinOp::Or,
                    _ => BinOp::Xor,
                };
                Inst::Bin { dst: dst.unwrap(), op, ty, a, b }
            }
            "icmp" => {
                lx.word("samesign");
                let p = match lx.next() {
                    Some(Tok::Word(w)) => match w {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        w => panic!("pred {w}"),
                    },
                    t => panic!("{t:?}"),
                };
                let ty = self.parse_ty(lx);
                let a = self.parse_opnd(lx, ty, fx);
                lx.expect(b',');
                let b = self.parse_opnd(lx, ty, fx);
                Inst::ICmp { dst: dst.unwrap(), pred: p, ty, a, b }
            }
            "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                while let Some(Tok::Word("nneg" | "nuw" | "nsw")) = lx.peek() {
                    lx.next();
                }
                let from = self.parse_ty(lx);
                let a = self.parse_opnd(lx, from, fx);
                assert!(lx.word("to"));
                let to = self.parse_ty(lx);
                let (fw, tw) = (self.width(from), self.width(to));
                let kind = match op {
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "trunc" => Cast::Trunc,
                    "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                        if tw > fw {
                            Cast::ZExt
                        } else if tw < fw {
                            Cast::Trunc
                        } else {
                            Cast::Bit
                        }
                    }
                    _ => Cast::Bit,
                };
                Inst::Cast { dst: dst.unwrap(), kind, from, to, a }
            }
            "select" => {
                let cty = self.parse_ty(lx);
                let c = self.parse_opnd(lx, cty, fx);
                lx.expect(b',');
                let ty = self.parse_ty(lx);
                let a = self.parse_opnd(lx, ty, fx);
                lx.expect(b',');
                let t2 = self.parse_ty(lx);
                let b = self.parse_opnd(lx, t2, fx);
                Inst::Select { dst: dst.unwrap(), c, cty, ty, a, b }
            }
            "load" => {
                lx.word("atomic");
                lx.word("volatile");
                let ty = self.parse_ty(lx);
                lx.expect(b',');
                let pt = self.parse_ty(lx);
                let ptr = self.parse_opnd(lx, pt, fx);
                Inst::Load { dst: dst.unwrap(), ty, ptr }
            }
            "store" => {
                lx.word("atomic");
                lx.word("volatile");
                let ty = self.parse_ty(lx);
                let val = self.parse_opnd(lx, ty, fx);
                lx.expect(b',');
                let pt = self.parse_ty(lx);
                let ptr = self.parse_opnd(lx, pt, fx);
                Inst::Store { ty, val, ptr }
            }
            "alloca" => {
                lx.word("inalloca");
                let ty = self.parse_ty(lx);
                let mut n = Opnd::Imm(1);
                let mut nty = self.i64;
                if lx.eat(b',') {
                    if let Some(Tok::Word(w)) = lx.peek() {
                        if w != "align" {
                            nty = self.parse_ty(lx);
                            n = self.parse_opnd(lx, nty, fx);
                        }
                    }
                }
                Inst::Alloca { dst: dst.unwrap(), size: self.alloc_size(ty), n, nty }
            }
            "getelementptr" => {
                while let Some(Tok::Word("inbounds" | "nuw" | "nusw" | "inrange")) = lx.peek() {
                    lx.next();
                }
                let ety = self.parse_ty(lx);
                lx.expect(b',');
                let bt = self.parse_ty(lx);
                let base = self.parse_opnd(lx, bt, fx);
                let mut off = 0i64;
                let mut terms = vec![];
                let mut cur = ety;
                let mut first = true;
                while lx.eat(b',') {
                    if let Some(Tok::Meta) = lx.peek() {
                        break;
                    }
                    let it = self.parse_ty(lx);
                    let ix = self.parse_opnd(lx, it, fx);
                    let w = self.width(it);
                    let sx = |i: u128| (((i << (128 - w)) as i128) >> (128 - w)) as i64;
                    let scale;
                    if first {
                        scale = self.alloc_size(cur) as i64;
                        first = false;
                    } else {
                        match self.tys[cur as usize].clone() {
                            Ty::Struct(..) => {
                                let k = match &ix {
                                    Opnd::Imm(i) => *i as usize,
                                    _ => panic!("gep struct idx"),
                                };
                                let (o, t) = self.field_off(cur, k);
                                off += o as i64;
                                cur = t;
                                continue;
                            }
                            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                scale = self.alloc_size(e) as i64;
                                cur = e;
                            }
                            t => panic!("gep {t:?}"),
                        }
                    }
                    match ix {
                        Opnd::Imm(i) => off = off.wrapping_add(sx(i).wrapping_mul(scale)),
                        o => terms.push((o, w, scale)),
                    }
                }
                Inst::Gep { dst: dst.unwrap(), base, off, terms }
            }
            "phi" => {
                let ty = self.parse_ty(lx);
                let mut inc = vec![];
                loop {
                    lx.expect(b'[');
                    let v = self.parse_opnd(lx, ty, fx);
                    lx.expect(b',');
                    let b = match lx.next() {
                        Some(Tok::Local(n)) => fx.block(n),
                        t => panic!("{t:?}"),
                    };
                    lx.expect(b']');
                    inc.push((b, v));
                    if lx.peek() == Some(Tok::P(b',')) {
                        lx.next();
                        if lx.peek() != Some(Tok::P(b'[')) {
                            break;
                        }
                        continue;
                    }
                    break;
                }
                return PI::Phi(Phi { dst: dst.unwrap(), ty, inc });
            }
            "br" => {
                if let Some(Tok::Word("label")) = lx.peek() {
                    Inst::Br { to: label(lx, fx) }
                } else {
                    let t = self.parse_ty(lx);
                    let c = self.parse_opnd(lx, t, fx);
                    lx.expect(b',');
                    let a = label(lx, fx);
                    lx.expect(b',');
                    let b = label(lx, fx);
                    Inst::CondBr { c, t: a, f: b }
                }
            }
            "switch" => {
                let ty = self.parse_ty(lx);
                let v = self.parse_opnd(lx, ty, fx);
                lx.expect(b',');
                let def = label(lx, fx);
                lx.expect(b'[');
                let mut cases = vec![];
                while !lx.eat(b']') {
                    let t = self.parse_ty(lx);
                    let c = match self.parse_opnd(lx, t, fx) {
                        Opnd::Imm(i) => i,
                        o => panic!("case {o:?}"),
                    };
                    lx.expect(b',');
                    let b = label(lx, fx);
                    cases.push((c, b));
                }
                Inst::Switch { ty, v, def, cases }
            }
            "unreachable" => Inst::Unreachable,
            "ret" => {
                let ty = self.parse_ty(lx);
                if ty == self.void {
                    Inst::Ret { ty, val: None }
                } else {
                    let v = self.parse_opnd(lx, ty, fx);
                    Inst::Ret { ty, val: Some(v) }
                }
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if op != "call" && op != "invoke" {
                    assert!(lx.word("call"));
                }
                // fast-math/cconv/ret attrs until a type
                loop {
                    match lx.peek() {
                        Some(Tok::Word(w)) => {
                            let is_ty = matches!(w, "void" | "ptr" | "float" | "double" | "metadata" | "token")
                                || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()));
                            if is_ty {
                                break;
                            }
                            lx.next();
                            if w == "align" {
                                if let Some(Tok::Num(_)) = lx.peek() {
                                    lx.next();
                                }
                            } else if w == "cc" {
                                lx.next();
                            } else if lx.peek() == Some(Tok::P(b'(')) {
                                lx.next();
                                lx.skip_paren();
                            }
                        }
                        _ => break,
                    }
                }
                let ret = self.parse_ty(lx);
                // optional function type for varargs
                if lx.peek() == Some(Tok::P(b'(')) {
                    lx.next();
                    lx.skip_paren();
                }
                let pt = self.ptr;
                if let Some(Tok::Word("asm")) = lx.peek() {
                    return PI::Inst(Inst::Unsupported("inline asm".into()));
                }
                let callee = self.parse_opnd(lx, pt, fx);
                lx.expect(b'(');
                let mut args = vec![];
                if !lx.eat(b')') {
                    loop {
                        let t = self.parse_ty(lx);
                        if self.tys[t as usize] == Ty::Other {
                            // metadata argument: skip to , or )
                            let mut d = 0;
                            loop {
                                match lx.peek() {
                                    Some(Tok::P(b'(')) => d += 1,
                                    Some(Tok::P(b')')) => {
                                        if d == 0 {
                                            break;
                                        }
                                        d -= 1
                                    }
                                    Some(Tok::P(b',')) if d == 0 => break,
                                    None => panic!(),
                                    _ => {}
                                }
                                lx.next();
                            }
                            args.push((t, Opnd::Meta));
                        } else {
                            Self::skip_attrs(lx);
                            let o = self.parse_opnd(lx, t, fx);
                            args.push((t, o));
                        }
                        if lx.eat(b',') {
                            continue;
                        }
                        lx.expect(b')');
                        break;
                    }
                }
                let mut next = None;
                if op == "invoke" {
                    loop {
                        match lx.next() {
                            Some(Tok::Word("to")) => {
                                next = Some(label(lx, fx));
                                break;
                            }
                            Some(Tok::P(b'[')) => {
                                while lx.next() != Some(Tok::P(b']')) {}
                            }
                            None => panic!("invoke"),
                            _ => {}
                        }
                    }
                }
                // drop no-op intrinsics early
                if let Opnd::Cst(c) = &callee {
                    if let Cst::Global(s) = **c {
                        let n = &self.syms[s as usize].name;
                        if n.starts_with("llvm.lifetime.")
                            || n.starts_with("llvm.experimental.noalias")
                            || n.starts_with("llvm.dbg.")
                            || n == "llvm.assume"
                            || n.starts_with("llvm.prefetch")
                        {
                            return PI::Inst(Inst::Nop);
                        }
                    }
                }
                Inst::Call { dst: if ret == self.void { None } else { dst }, ret, callee, args, next }
            }
            "extractvalue" => {
                let ty = self.parse_ty(lx);
                let a = self.parse_opnd(lx, ty, fx);
                let mut idx = vec![];
                while lx.eat(b',') {
                    match lx.next() {
                        Some(Tok::Num(n)) => idx.push(n.parse().unwrap()),
                        _ => break,
                    }
                }
                Inst::ExtractValue { dst: dst.unwrap(), a, idx, ty }
            }
            "insertvalue" => {
                let ty = self.parse_ty(lx);
                let a = self.parse_opnd(lx, ty, fx);
                lx.expect(b',');
                let vt = self.parse_ty(lx);
                let v = self.parse_opnd(lx, vt, fx);
                let mut idx = vec![];
                while lx.eat(b',') {
                    match lx.next() {
                        Some(Tok::Num(n)) => idx.push(n.parse().unwrap()),
                        _ => break,
                    }
                }
                Inst::InsertValue { dst: dst.unwrap(), a, v, idx, ty }
            }
            "extractelement" => {
                let ty = self.parse_ty(lx);
                let a = self.parse_opnd(lx, ty, fx);
                lx.expect(b',');
                let it = self.parse_ty(lx);
                let i = self.parse_opnd(lx, it, fx);
                Inst::ExtractElem { dst: dst.unwrap(), a, i, ty }
            }
            "insertelement" => {
                let ty = self.parse_ty(lx);
                let a = self.parse_opnd(lx, ty, fx);
                lx.expect(b',');
                let vt = self.parse_ty(lx);
                let v = self.parse_opnd(lx, vt, fx);
                lx.expect(b',');
                let it = self.parse_ty(lx);
                let i = self.parse_opnd(lx, it, fx);
                Inst::InsertElem { dst: dst.unwrap(), a, v, i, ty }
            }
            "shufflevector" => {
                let ty = self.parse_ty(lx);
                let a = self.parse_opnd(lx, ty, fx);
                lx.expect(b',');
                let t2 = self.parse_ty(lx);
                let b = self.parse_opnd(lx, t2, fx);
                lx.expect(b',');
                let mt = self.parse_ty(lx);
                let mc = self.parse_cst(lx, mt);
                let n = match self.tys[mt as usize] {
                    Ty::Vec(n, _) => n as usize,
                    _ => panic!(),
                };
                let mask = match mc {
                    Cst::Zero => vec![Some(0); n],
                    Cst::Undef => vec![None; n],
                    Cst::Agg(v) => v
                        .into_iter()
                        .map(|(_, c)| match c {
                            Cst::Int(i) => Some(i as u32),
                            _ => None,
                        })
                        .collect(),
                    c => panic!("{c:?}"),
                };
                Inst::Shuffle { dst: dst.unwrap(), a, b, ty, mask }
            }
            "atomicrmw" => {
                lx.word("volatile");
                let o = match lx.next() {
                    Some(Tok::Word(w)) => w.to_string(),
                    t => panic!("{t:?}"),
                };
                let pt = self.parse_ty(lx);
                let ptr = self.parse_opnd(lx, pt, fx);
                lx.expect(b',');
                let ty = self.parse_ty(lx);
                let v = self.parse_opnd(lx, ty, fx);
                Inst::AtomicRmw { dst: dst.unwrap(), op: o, ty, ptr, v }
            }
            "cmpxchg" => {
                lx.word("weak");
                lx.word("volatile");
                let pt = self.parse_ty(lx);
                let ptr = self.parse_opnd(lx, pt, fx);
                lx.expect(b',');
                let ty = self.parse_ty(lx);
                let old = self.parse_opnd(lx, ty, fx);
                lx.expect(b',');
                let t2 = self.parse_ty(lx);
                let new = self.parse_opnd(lx, t2, fx);
                Inst::CmpXchg { dst: dst.unwrap(), ty, ptr, old, new }
            }
            "freeze" => {
                let ty = self.parse_ty(lx);
                let a = self.parse_opnd(lx, ty, fx);
                Inst::Freeze { dst: dst.unwrap(), ty, a }
            }
            "fence" => Inst::Nop,
            o => Inst::Unsupported(o.to_string()),
        };
        PI::Inst(i)
    }
}

enum PI {
    Phi(Phi),
    Inst(Inst),
}

fn memchr(t: &[u8], from: usize, c: u8) -> Option<usize> {
    if from >= t.len() {
        return None;
    }
    t[from..].iter().position(|x| *x == c).map(|p| p + from)
}

fn fn_name(line: &[u8]) -> String {
    let mut i = 0;
    loop {
        if line[i] == b'@' {
            break;
        }
        i += 1;
    }
    let mut lx = Lex::new(&line[i..]);
    match lx.next() {
        Some(Tok::Global(n)) => n.to_string(),
        t => panic!("fn name {t:?}"),
    }
}
