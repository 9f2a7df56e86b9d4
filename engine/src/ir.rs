//! Parser for textual LLVM IR as emitted by rustc (whole-program, after fat LTO).
//! Function bodies are parsed lazily, on first execution.

use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub type TyId = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Half,
    Float,
    Double,
    Arr(u64, TyId),
    Struct(Vec<TyId>, bool),
    Vec(u32, TyId),
    Meta,
    Label,
    Opaque,
    Func,
}

#[derive(Default)]
pub struct Types {
    pub list: Vec<Ty>,
    map: HashMap<Ty, TyId>,
    pub named: HashMap<String, TyId>,
}

impl Types {
    pub fn mk(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.map.get(&t) {
            return i;
        }
        let i = self.list.len() as u32;
        self.list.push(t.clone());
        self.map.insert(t, i);
        i
    }
    pub fn get(&self, t: TyId) -> &Ty {
        &self.list[t as usize]
    }
    pub fn bits(&self, t: TyId) -> u32 {
        match self.get(t) {
            Ty::Int(n) => *n,
            Ty::Ptr => 64,
            Ty::Half => 16,
            Ty::Float => 32,
            Ty::Double => 64,
            Ty::Vec(n, e) => n * self.bits(*e),
            x => panic!("bits of {:?}", x),
        }
    }
    pub fn align(&self, t: TyId) -> u64 {
        match self.get(t) {
            Ty::Int(n) => {
                let b = ((*n as u64) + 7) / 8;
                b.next_power_of_two().min(16).max(1)
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Half => 2,
            Ty::Arr(_, e) => self.align(*e),
            Ty::Struct(es, packed) => {
                if *packed {
                    1
                } else {
                    es.iter().map(|e| self.align(*e)).max().unwrap_or(1)
                }
            }
            Ty::Vec(..) => self.size(t).next_power_of_two(),
            _ => 1,
        }
    }
    /// Store size rounded up to alignment (alloc size).
    pub fn size(&self, t: TyId) -> u64 {
        match self.get(t) {
            Ty::Void => 0,
            Ty::Int(n) => {
                let b = ((*n as u64) + 7) / 8;
                let a = b.next_power_of_two().min(16).max(1);
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Half => 2,
            Ty::Arr(n, e) => n * self.size(*e),
            Ty::Struct(es, packed) => {
                let mut off = 0u64;
                let mut al = 1;
                for e in es {
                    if !packed {
                        let a = self.align(*e);
                        al = al.max(a);
                        off = (off + a - 1) / a * a;
                    }
                    off += self.size(*e);
                }
                (off + al - 1) / al * al
            }
            Ty::Vec(n, e) => (*n as u64 * self.bits(*e) as u64 + 7) / 8,
            x => panic!("size of {:?}", x),
        }
    }
    pub fn offset(&self, t: TyId, idx: usize) -> (u64, TyId) {
        match self.get(t) {
            Ty::Struct(es, packed) => {
                let mut off = 0u64;
                for (i, e) in es.iter().enumerate() {
                    if !packed {
                        let a = self.align(*e);
                        off = (off + a - 1) / a * a;
                    }
                    if i == idx {
                        return (off, *e);
                    }
                    off += self.size(*e);
                }
                panic!("bad struct idx")
            }
            Ty::Arr(_, e) => (self.size(*e) * idx as u64, *e),
            Ty::Vec(_, e) => (self.size(*e) * idx as u64, *e),
            x => panic!("offset into {:?}", x),
        }
    }
    pub fn elem_ty(&self, t: TyId, idx: usize) -> TyId {
        match self.get(t) {
            Ty::Struct(es, _) => es[idx],
            Ty::Arr(_, e) => *e,
            Ty::Vec(_, e) => *e,
            x => panic!("elem of {:?}", x),
        }
    }
    pub fn count(&self, t: TyId) -> usize {
        match self.get(t) {
            Ty::Struct(es, _) => es.len(),
            Ty::Arr(n, _) => *n as usize,
            Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
    pub fn is_agg(&self, t: TyId) -> bool {
        matches!(self.get(t), Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..))
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Loc(String),
    Glob(String),
    Word(String),
    Int(String),
    Flt(String),
    Str(Vec<u8>),
    CStr(Vec<u8>),
    Meta(String),
    P(char),
    Dots,
    Nl,
    Eof,
}

pub struct Lexer<'a> {
    s: &'a [u8],
    pub i: usize,
}

impl<'a> Lexer<'a> {
    pub fn new(s: &'a [u8]) -> Self {
        Lexer { s, i: 0 }
    }
    fn ident_char(c: u8) -> bool {
        c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
    }
    fn quoted(&mut self) -> Vec<u8> {
        // at opening quote
        self.i += 1;
        let mut out = vec![];
        while self.s[self.i] != b'"' {
            if self.s[self.i] == b'\\' {
                if self.s[self.i + 1] == b'\\' {
                    out.push(b'\\');
                    self.i += 2;
                } else {
                    let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                    out.push(u8::from_str_radix(h, 16).unwrap());
                    self.i += 3;
                }
            } else {
                out.push(self.s[self.i]);
                self.i += 1;
            }
        }
        self.i += 1;
        out
    }
    fn name(&mut self) -> String {
        if self.s[self.i] == b'"' {
            let q = self.quoted();
            String::from_utf8_lossy(&q).to_string()
        } else {
            let st = self.i;
            while self.i < self.s.len() && Self::ident_char(self.s[self.i]) {
                self.i += 1;
            }
            String::from_utf8_lossy(&self.s[st..self.i]).to_string()
        }
    }
    pub fn next(&mut self) -> Tok {
        loop {
            if self.i >= self.s.len() {
                return Tok::Eof;
            }
            let c = self.s[self.i];
            match c {
                b' ' | b'\t' | b'\r' => self.i += 1,
                b';' => {
                    while self.i < self.s.len() && self.s[self.i] != b'\n' {
                        self.i += 1;
                    }
                }
                b'\n' => {
                    self.i += 1;
                    return Tok::Nl;
                }
                b'%' => {
                    self.i += 1;
                    return Tok::Loc(self.name());
                }
                b'@' => {
                    self.i += 1;
                    return Tok::Glob(self.name());
                }
                b'!' => {
                    self.i += 1;
                    if self.i < self.s.len()
                        && (Self::ident_char(self.s[self.i]) || self.s[self.i] == b'"')
                    {
                        return Tok::Meta(self.name());
                    }
                    return Tok::P('!');
                }
                b'"' => return Tok::Str(self.quoted()),
                b'c' if self.i + 1 < self.s.len() && self.s[self.i + 1] == b'"' => {
                    self.i += 1;
                    return Tok::CStr(self.quoted());
                }
                b'.' if self.s[self.i..].starts_with(b"...") => {
                    self.i += 3;
                    return Tok::Dots;
                }
                b'f' if self.s[self.i..].starts_with(b"f0x") => {
                    let st = self.i;
                    self.i += 3;
                    while self.i < self.s.len() && self.s[self.i].is_ascii_hexdigit() {
                        self.i += 1;
                    }
                    return Tok::Flt(String::from_utf8_lossy(&self.s[st..self.i]).to_string());
                }
                b'0'..=b'9' | b'-' | b'+' => {
                    let st = self.i;
                    self.i += 1;
                    if c == b'+' && self.s[self.i].is_ascii_alphabetic() {
                        // +inf, +qnan, ...
                        while Self::ident_char(self.s[self.i]) || self.s[self.i] == b'(' || self.s[self.i] == b')' {
                            self.i += 1;
                        }
                        return Tok::Flt(
                            String::from_utf8_lossy(&self.s[st..self.i]).to_string(),
                        );
                    }
                    let mut flt = false;
                    while self.i < self.s.len() {
                        let d = self.s[self.i];
                        if d == b'.' || d == b'x' {
                            flt = true;
                        }
                        if d.is_ascii_alphanumeric()
                            || d == b'.'
                            || d == b'_'
                            || d == b'$'
                            || ((d == b'+' || d == b'-') && (self.s[self.i - 1] == b'e'))
                        {
                            self.i += 1;
                        } else {
                            break;
                        }
                    }
                    let t = String::from_utf8_lossy(&self.s[st..self.i]).to_string();
                    if flt || t.contains('e') || t.contains("inf") || t.contains("nan") {
                        return Tok::Flt(t);
                    }
                    return Tok::Int(t);
                }
                c if c.is_ascii_alphabetic() || c == b'_' || c == b'$' || c == b'.' => {
                    let n = self.name();
                    return Tok::Word(n);
                }
                _ => {
                    self.i += 1;
                    return Tok::P(c as char);
                }
            }
        }
    }
}

/// Constant value or register operand.
#[derive(Clone, Debug)]
pub enum Opnd {
    Reg(u32),
    C(u128),
    Agg(Rc<Vec<Opnd>>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast {
    ZExt,
    SExt,
    Trunc,
    Bit,
    FpExt,
    FpTrunc,
    UiToFp,
    SiToFp,
    FpToUi,
    FpToSi,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Func(u32),
    Ptr(Opnd),
    Asm(String),
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: BinOp, ty: TyId, a: Opnd, b: Opnd, d: u32 },
    FNeg { ty: TyId, a: Opnd, d: u32 },
    ICmp { p: Pred, ty: TyId, a: Opnd, b: Opnd, d: u32 },
    FCmp { p: String, ty: TyId, a: Opnd, b: Opnd, d: u32 },
    Select { cty: TyId, c: Opnd, ty: TyId, a: Opnd, b: Opnd, d: u32 },
    Cast { op: Cast, from: TyId, to: TyId, a: Opnd, d: u32 },
    Load { ty: TyId, p: Opnd, d: u32 },
    Store { ty: TyId, v: Opnd, p: Opnd },
    Gep { base: Opnd, off: u64, idx: Vec<(Opnd, u32, u64)>, d: u32 },
    Alloca { size: u64, n: Opnd, d: u32 },
    Call { f: Callee, ret: TyId, args: Vec<(TyId, Opnd)>, d: u32, next: Option<u32> },
    Extract { ty: TyId, a: Opnd, path: Vec<u32>, d: u32 },
    Insert { ty: TyId, a: Opnd, v: Opnd, path: Vec<u32>, d: u32 },
    ExtElem { ty: TyId, a: Opnd, i: Opnd, d: u32 },
    InsElem { ty: TyId, a: Opnd, v: Opnd, i: Opnd, d: u32 },
    Shuffle { ty: TyId, a: Opnd, b: Opnd, mask: Vec<i64>, d: u32 },
    Freeze { a: Opnd, d: u32 },
    Ret { v: Option<Opnd> },
    Br { t: u32 },
    CondBr { c: Opnd, t: u32, e: u32 },
    Switch { w: u32, v: Opnd, def: u32, cases: Vec<(u128, u32)> },
    Unreachable,
    Rmw { op: String, ty: TyId, p: Opnd, v: Opnd, d: u32 },
    CmpXchg { ty: TyId, p: Opnd, a: Opnd, b: Opnd, d: u32 },
    Nop,
    Unsupported(String),
}

pub struct Block {
    pub insts: Vec<Inst>,
    /// phi: (dst, [(pred block, value)])
    pub phis: Vec<(u32, Vec<(u32, Opnd)>)>,
}

pub struct Func {
    pub name: String,
    pub blocks: Vec<Block>,
    pub nregs: u32,
    pub nparams: u32,
    pub varargs: bool,
}

pub struct FuncDecl {
    pub name: String,
    pub body: Option<(usize, usize)>, // text range of whole define
    pub parsed: RefCell<Option<Rc<Func>>>,
}

pub struct GlobalDecl {
    pub name: String,
    pub ty: TyId,
    pub size: u64,
    pub init: Option<(usize, usize)>,
    pub constant: bool,
}

pub struct Module {
    pub text: Vec<u8>,
    pub types: RefCell<Types>,
    pub funcs: Vec<FuncDecl>,
    pub globals: Vec<GlobalDecl>,
    pub func_ix: HashMap<String, u32>,
    pub glob_ix: HashMap<String, u32>,
}

/// Address of slot: each global / function / object has its own 4 GiB slot.
pub const SLOT: u32 = 32;
pub const BASE_OFF: u64 = 0x1000;

impl Module {
    pub fn func_addr(&self, i: u32) -> u64 {
        ((1 + self.globals.len() as u64 + i as u64) << SLOT) + BASE_OFF
    }
    pub fn glob_addr(&self, i: u32) -> u64 {
        ((1 + i as u64) << SLOT) + BASE_OFF
    }
    pub fn first_obj(&self) -> u64 {
        1 + self.globals.len() as u64 + self.funcs.len() as u64
    }
    pub fn func_at(&self, addr: u64) -> Option<u32> {
        if addr & 0xffff_ffff != BASE_OFF {
            return None;
        }
        let id = addr >> SLOT;
        let lo = 1 + self.globals.len() as u64;
        if id >= lo && id < lo + self.funcs.len() as u64 {
            Some((id - lo) as u32)
        } else {
            None
        }
    }
    pub fn sym_addr(&self, name: &str) -> Option<u64> {
        if let Some(&g) = self.glob_ix.get(name) {
            return Some(self.glob_addr(g));
        }
        if let Some(&f) = self.func_ix.get(name) {
            return Some(self.func_addr(f));
        }
        None
    }

    pub fn load(text: Vec<u8>) -> Module {
        let mut m = Module {
            text: vec![],
            types: RefCell::new(Types::default()),
            funcs: vec![],
            globals: vec![],
            func_ix: HashMap::new(),
            glob_ix: HashMap::new(),
        };
        // Scan lines.
        let n = text.len();
        let mut i = 0;
        let mut aliases = vec![];
        let mut typedefs: Vec<(usize, usize)> = vec![];
        let mut gl: Vec<(usize, usize)> = vec![];
        let mut ds: Vec<(usize, usize, bool)> = vec![];
        while i < n {
            let e = text[i..].iter().position(|&c| c == b'\n').map(|p| i + p).unwrap_or(n);
            let line = &text[i..e];
            if line.starts_with(b"define ") {
                // find "\n}\n"
                let mut j = e;
                loop {
                    if text[j] == b'\n' && text[j + 1] == b'}' {
                        break;
                    }
                    j += 1;
                }
                ds.push((i, j + 2, true));
                i = j + 2;
                continue;
            } else if line.starts_with(b"declare ") {
                ds.push((i, e, false));
            } else if line.starts_with(b"@") {
                gl.push((i, e));
            } else if line.starts_with(b"%") {
                typedefs.push((i, e));
            }
            i = e + 1;
        }
        m.text = text;
        for (s, e) in typedefs {
            let mut p = Parser::new(&m, s, e, &HashMap::new());
            let name = match p.tok() {
                Tok::Loc(n) => n,
                t => panic!("typedef {:?}", t),
            };
            p.expect('=');
            p.tok(); // 'type'
            let t = p.ty();
            m.types.borrow_mut().named.insert(name, t);
        }
        for (s, e, def) in ds {
            let mut lx = Lexer::new(&m.text[s..e]);
            let name = loop {
                match lx.next() {
                    Tok::Glob(n) => break n,
                    Tok::Eof => panic!("no name in define"),
                    _ => {}
                }
            };
            let ix = m.funcs.len() as u32;
            m.func_ix.insert(name.clone(), ix);
            m.funcs.push(FuncDecl {
                name,
                body: if def { Some((s, e)) } else { None },
                parsed: RefCell::new(None),
            });
        }
        for (s, e) in gl {
            let mut p = Parser::new(&m, s, e, &HashMap::new());
            let name = match p.tok() {
                Tok::Glob(n) => n,
                t => panic!("global {:?}", t),
            };
            p.expect('=');
            let mut constant = false;
            let mut external = false;
            let mut alias = false;
            loop {
                match p.peek() {
                    Tok::Word(w) => {
                        if w == "global" {
                            p.tok();
                            break;
                        }
                        if w == "constant" {
                            constant = true;
                            p.tok();
                            break;
                        }
                        if w == "alias" {
                            alias = true;
                            p.tok();
                            break;
                        }
                        if w == "external" || w == "extern_weak" {
                            external = true;
                        }
                        p.tok();
                        if p.peek() == Tok::P('(') {
                            p.skip_parens();
                        }
                    }
                    t => panic!("global prefix {:?} in {}", t, name),
                }
            }
            let ty = p.ty();
            if alias {
                p.expect(',');
                p.ty();
                if let Tok::Glob(target) = p.tok() {
                    aliases.push((name, target));
                }
                continue;
            }
            let size = m.types.borrow().size(ty);
            let init = if external { None } else { Some((s + p.pos_before_peek(), e)) };
            let ix = m.globals.len() as u32;
            m.glob_ix.insert(name.clone(), ix);
            m.globals.push(GlobalDecl { name, ty, size, init, constant });
        }
        for (a, t) in aliases {
            if let Some(&f) = m.func_ix.get(&t) {
                m.func_ix.insert(a, f);
            } else if let Some(&g) = m.glob_ix.get(&t) {
                m.glob_ix.insert(a, g);
            }
        }
        m
    }

    pub fn func(&self, ix: u32) -> Option<Rc<Func>> {
        let d = &self.funcs[ix as usize];
        if let Some(f) = &*d.parsed.borrow() {
            return Some(f.clone());
        }
        let (s, e) = d.body?;
        let f = Rc::new(parse_func(self, &d.name, s, e));
        *d.parsed.borrow_mut() = Some(f.clone());
        Some(f)
    }

    pub fn global_init(&self, ix: u32) -> Option<(TyId, Opnd)> {
        let g = &self.globals[ix as usize];
        let (s, e) = g.init?;
        let empty = HashMap::new();
        let mut p = Parser::new(self, s, e, &empty);
        let v = p.value(g.ty);
        Some((g.ty, v))
    }
}

struct Parser<'a> {
    m: &'a Module,
    lx: Lexer<'a>,
    pk: Option<Tok>,
    pk_pos: usize,
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
    nregs: u32,
    unsupported: Option<String>,
}

impl<'a> Parser<'a> {
    fn new(m: &'a Module, s: usize, e: usize, _d: &HashMap<String, u32>) -> Self {
        Parser {
            m,
            lx: Lexer::new(&m.text[s..e]),
            pk: None,
            pk_pos: 0,
            regs: HashMap::new(),
            blocks: HashMap::new(),
            nregs: 0,
            unsupported: None,
        }
    }
    fn tok(&mut self) -> Tok {
        if let Some(t) = self.pk.take() {
            return t;
        }
        self.lx.next()
    }
    fn peek(&mut self) -> Tok {
        if self.pk.is_none() {
            self.pk_pos = self.lx.i;
            self.pk = Some(self.lx.next());
        }
        self.pk.clone().unwrap()
    }
    fn peek_is(&mut self, c: char) -> bool {
        if self.pk.is_none() {
            self.pk_pos = self.lx.i;
            self.pk = Some(self.lx.next());
        }
        matches!(self.pk.as_ref().unwrap(), Tok::P(x) if *x == c)
    }
    fn pos_before_peek(&self) -> usize {
        if self.pk.is_some() {
            self.pk_pos
        } else {
            self.lx.i
        }
    }
    fn expect(&mut self, c: char) {
        let t = self.tok();
        if t != Tok::P(c) {
            let ctx = &self.lx.s[self.lx.i.saturating_sub(200)..self.lx.i];
            panic!("expected {:?} got {:?} near {}", c, t, String::from_utf8_lossy(ctx));
        }
    }
    fn accept(&mut self, c: char) -> bool {
        if self.peek_is(c) {
            self.tok();
            true
        } else {
            false
        }
    }
    fn peek_word(&mut self, w: &str) -> bool {
        if self.pk.is_none() {
            self.pk_pos = self.lx.i;
            self.pk = Some(self.lx.next());
        }
        matches!(self.pk.as_ref().unwrap(), Tok::Word(x) if x == w)
    }
    fn accept_word(&mut self, w: &str) -> bool {
        if self.peek_word(w) {
            self.tok();
            true
        } else {
            false
        }
    }
    fn skip_parens(&mut self) {
        self.expect('(');
        let mut d = 1;
        while d > 0 {
            match self.tok() {
                Tok::P('(') => d += 1,
                Tok::P(')') => d -= 1,
                Tok::Eof => panic!("eof in parens"),
                _ => {}
            }
        }
    }
    fn mk(&self, t: Ty) -> TyId {
        self.m.types.borrow_mut().mk(t)
    }
    fn ty(&mut self) -> TyId {
        let t = self.tok();
        let base = match t {
            Tok::Word(w) => match w.as_str() {
                "void" => self.mk(Ty::Void),
                "ptr" => {
                    let t = self.mk(Ty::Ptr);
                    if self.accept_word("addrspace") {
                        self.skip_parens();
                    }
                    t
                }
                "half" | "bfloat" => self.mk(Ty::Half),
                "float" => self.mk(Ty::Float),
                "double" => self.mk(Ty::Double),
                "fp128" | "x86_fp80" => self.mk(Ty::Int(128)),
                "metadata" => self.mk(Ty::Meta),
                "label" => self.mk(Ty::Label),
                "opaque" => self.mk(Ty::Opaque),
                "token" => self.mk(Ty::Opaque),
                _ => {
                    if w.starts_with('i') && w[1..].chars().all(|c| c.is_ascii_digit()) && w.len() > 1 {
                        let n: u32 = w[1..].parse().unwrap();
                        self.mk(Ty::Int(n))
                    } else {
                        let ctx = &self.lx.s[self.lx.i.saturating_sub(200)..self.lx.i];
                        panic!("type word {} near {}", w, String::from_utf8_lossy(ctx));
                    }
                }
            },
            Tok::P('[') => {
                let n = self.int() as u64;
                let x = self.tok();
                assert_eq!(x, Tok::Word("x".into()));
                let e = self.ty();
                self.expect(']');
                self.mk(Ty::Arr(n, e))
            }
            Tok::P('{') => {
                let mut es = vec![];
                if !self.accept('}') {
                    loop {
                        es.push(self.ty());
                        if self.accept('}') {
                            break;
                        }
                        self.expect(',');
                    }
                }
                self.mk(Ty::Struct(es, false))
            }
            Tok::P('<') => {
                if self.peek_is('{') {
                    self.tok();
                    let mut es = vec![];
                    if !self.accept('}') {
                        loop {
                            es.push(self.ty());
                            if self.accept('}') {
                                break;
                            }
                            self.expect(',');
                        }
                    }
                    self.expect('>');
                    self.mk(Ty::Struct(es, true))
                } else {
                    let n = self.int() as u32;
                    let x = self.tok();
                    assert_eq!(x, Tok::Word("x".into()));
                    let e = self.ty();
                    self.expect('>');
                    self.mk(Ty::Vec(n, e))
                }
            }
            Tok::Loc(n) => *self
                .m
                .types
                .borrow()
                .named
                .get(&n)
                .unwrap_or_else(|| panic!("named type {}", n)),
            t => {
                let ctx = &self.lx.s[self.lx.i.saturating_sub(200)..self.lx.i];
                panic!("type {:?} near {}", t, String::from_utf8_lossy(ctx));
            }
        };
        // function type
        if self.peek_is('(') {
            // only in call: ret (args...) — caller handles
        }
        base
    }
    fn int(&mut self) -> i128 {
        match self.tok() {
            Tok::Int(s) => s.parse().unwrap(),
            t => panic!("int expected {:?}", t),
        }
    }
    fn is_const_word(w: &str) -> bool {
        matches!(
            w,
            "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none"
                | "getelementptr" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "trunc" | "add" | "sub" | "xor" | "bitcast"
                | "splat" | "asm" | "blockaddress" | "dso_local_equivalent" | "no_cfi" | "mul"
        )
    }
    fn skip_attrs(&mut self) {
        loop {
            match self.peek() {
                Tok::Word(w) => {
                    if Self::is_const_word(&w) {
                        return;
                    }
                    self.tok();
                    if w == "align" || w == "addrspace" {
                        if let Tok::Int(_) = self.peek() {
                            self.tok();
                            continue;
                        }
                    }
                    if self.peek_is('(') {
                        self.skip_parens();
                    }
                }
                Tok::Str(_) => {
                    self.tok();
                    if self.peek_is('=') {
                        self.tok();
                        self.tok();
                    }
                }
                Tok::P('#') => {
                    self.tok();
                    self.tok();
                }
                _ => return,
            }
        }
    }
    fn zero(&self, t: TyId) -> Opnd {
        let ts = self.m.types.borrow();
        if ts.is_agg(t) {
            let n = ts.count(t);
            let tys: Vec<TyId> = (0..n).map(|i| ts.elem_ty(t, i)).collect();
            drop(ts);
            if n > 0 && tys.iter().all(|x| *x == tys[0]) {
                let z = self.zero(tys[0]);
                return Opnd::Agg(Rc::new(vec![z; n]));
            }
            return Opnd::Agg(Rc::new(tys.into_iter().map(|x| self.zero(x)).collect()));
        }
        Opnd::C(0)
    }
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn blk(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.blocks.get(n) {
            return r;
        }
        let r = self.blocks.len() as u32;
        self.blocks.insert(n.to_string(), r);
        r
    }
    fn cval(&mut self, t: TyId) -> u128 {
        match self.value(t) {
            Opnd::C(c) => c,
            x => panic!("const expected {:?}", x),
        }
    }
    fn typed_const(&mut self) -> (TyId, u128) {
        let t = self.ty();
        self.skip_attrs();
        let v = self.cval(t);
        (t, v)
    }
    fn value(&mut self, t: TyId) -> Opnd {
        let tk = self.tok();
        let ty = self.m.types.borrow().get(t).clone();
        match tk {
            Tok::Loc(n) => Opnd::Reg(self.reg(&n)),
            Tok::Glob(n) => match self.m.sym_addr(&n) {
                Some(a) => Opnd::C(a as u128),
                None => {
                    self.unsupported = Some(format!("unknown global {}", n));
                    Opnd::C(0)
                }
            },
            Tok::Int(s) => {
                let v: i128 = match s.parse::<i128>() {
                    Ok(v) => v,
                    Err(_) => s.parse::<u128>().unwrap() as i128,
                };
                match ty {
                    Ty::Int(w) => Opnd::C(mask(v as u128, w)),
                    Ty::Double => Opnd::C((v as f64).to_bits() as u128),
                    Ty::Float => Opnd::C((v as f32).to_bits() as u128),
                    _ => Opnd::C(v as u128),
                }
            }
            Tok::Flt(s) if s.starts_with("f0x") => match u64::from_str_radix(&s[3..], 16) {
                // The bits in the width of the type.
                Ok(b) => Opnd::C(b as u128),
                Err(_) => {
                    self.unsupported = Some(format!("float const {}", s));
                    Opnd::C(0)
                }
            },
            Tok::Flt(s) => {
                let bits: Option<u64> = if let Some(h) = s.strip_prefix("0x") {
                    u64::from_str_radix(h, 16).ok()
                } else if s == "+inf" {
                    Some(f64::INFINITY.to_bits())
                } else if s == "-inf" {
                    Some(f64::NEG_INFINITY.to_bits())
                } else if s.contains("nan") {
                    Some(f64::NAN.to_bits())
                } else {
                    s.parse::<f64>().ok().map(|f| f.to_bits())
                };
                match (bits, ty) {
                    (Some(b), Ty::Double) => Opnd::C(b as u128),
                    (Some(b), Ty::Float) => Opnd::C((f64::from_bits(b) as f32).to_bits() as u128),
                    _ => {
                        self.unsupported = Some(format!("float const {}", s));
                        Opnd::C(0)
                    }
                }
            }
            Tok::CStr(b) => Opnd::Agg(Rc::new(b.into_iter().map(|c| Opnd::C(c as u128)).collect())),
            Tok::P('[') => self.agg_body(']'),
            Tok::P('{') => self.agg_body('}'),
            Tok::P('<') => {
                if self.accept('{') {
                    let v = self.agg_body('}');
                    self.expect('>');
                    v
                } else {
                    self.agg_body('>')
                }
            }
            Tok::Word(w) => match w.as_str() {
                "true" => Opnd::C(1),
                "false" | "null" | "none" => Opnd::C(0),
                "undef" | "poison" | "zeroinitializer" => self.zero(t),
                "splat" => {
                    self.expect('(');
                    let (_, c) = self.typed_const();
                    self.expect(')');
                    let n = self.m.types.borrow().count(t);
                    Opnd::Agg(Rc::new(vec![Opnd::C(c); n]))
                }
                "getelementptr" => {
                    loop {
                        match self.peek() {
                            Tok::Word(_) => {
                                self.tok();
                                if self.peek_is('(') {
                                    // inrange(..) or the expression itself
                                    break;
                                }
                            }
                            _ => break,
                        }
                    }
                    // possibly 'inrange(a,b)' already consumed word: detect
                    self.expect('(');
                    if let Tok::Int(_) = self.peek() {
                        // was inrange(
                        while !self.accept(')') {
                            self.tok();
                        }
                        self.expect('(');
                    }
                    let bt = self.ty();
                    self.expect(',');
                    let (_, base) = self.typed_const();
                    let mut off = base as u64;
                    let mut cur = bt;
                    let mut first = true;
                    while self.accept(',') {
                        let (it, iv) = self.typed_const();
                        let w = self.m.types.borrow().bits(it);
                        let iv = sext64(iv, w);
                        let ts = self.m.types.borrow();
                        if first {
                            off = off.wrapping_add((iv as u64).wrapping_mul(ts.size(cur)));
                            first = false;
                        } else {
                            let (o, n) = ts.offset(cur, iv as usize);
                            off = off.wrapping_add(o);
                            cur = n;
                        }
                    }
                    self.expect(')');
                    Opnd::C(off as u128)
                }
                "ptrtoint" | "ptrtoaddr" | "inttoptr" | "trunc" | "bitcast" => {
                    while matches!(self.peek(), Tok::Word(_)) {
                        self.tok();
                    }
                    self.expect('(');
                    let (_, v) = self.typed_const();
                    self.tok(); // to
                    let tt = self.ty();
                    self.expect(')');
                    let w = self.m.types.borrow().bits(tt);
                    Opnd::C(mask(v, w))
                }
                "add" | "sub" | "xor" | "mul" => {
                    while matches!(self.peek(), Tok::Word(_)) {
                        self.tok();
                    }
                    self.expect('(');
                    let (at, a) = self.typed_const();
                    self.expect(',');
                    let (_, b) = self.typed_const();
                    self.expect(')');
                    let wd = self.m.types.borrow().bits(at);
                    let r = match w.as_str() {
                        "add" => a.wrapping_add(b),
                        "sub" => a.wrapping_sub(b),
                        "mul" => a.wrapping_mul(b),
                        _ => a ^ b,
                    };
                    Opnd::C(mask(r, wd))
                }
                _ => {
                    self.unsupported = Some(format!("const {}", w));
                    if self.peek_is('(') {
                        self.skip_parens();
                    }
                    Opnd::C(0)
                }
            },
            t => {
                let ctx = &self.lx.s[self.lx.i.saturating_sub(200)..self.lx.i];
                panic!("value {:?} near {}", t, String::from_utf8_lossy(ctx));
            }
        }
    }
    fn agg_body(&mut self, end: char) -> Opnd {
        let mut out = vec![];
        if !self.accept(end) {
            loop {
                let t = self.ty();
                self.skip_attrs();
                out.push(self.value(t));
                if self.accept(end) {
                    break;
                }
                self.expect(',');
            }
        }
        Opnd::Agg(Rc::new(out))
    }
    fn typed(&mut self) -> (TyId, Opnd) {
        let t = self.ty();
        self.skip_attrs();
        let v = self.value(t);
        (t, v)
    }
    fn skip_line(&mut self) {
        loop {
            match self.tok() {
                Tok::Nl | Tok::Eof => return,
                _ => {}
            }
        }
    }
    fn label(&mut self) -> u32 {
        match self.tok() {
            Tok::Word(w) if w == "label" => {}
            t => panic!("label expected {:?}", t),
        }
        match self.tok() {
            Tok::Loc(n) => self.blk(&n),
            t => panic!("label name {:?}", t),
        }
    }
}

pub fn mask(v: u128, w: u32) -> u128 {
    if w >= 128 {
        v
    } else {
        v & ((1u128 << w) - 1)
    }
}
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    if w == 0 {
        return 0;
    }
    let s = 128 - w;
    ((v << s) as i128) >> s
}
pub fn sext64(v: u128, w: u32) -> i64 {
    sext(v, w) as i64
}

fn parse_func(m: &Module, name: &str, s: usize, e: usize) -> Func {
    let empty = HashMap::new();
    let mut p = Parser::new(m, s, e, &empty);
    // Header: define ... @name(params) ... {
    loop {
        if let Tok::Glob(_) = p.tok() {
            break;
        }
    }
    p.expect('(');
    let mut nparams = 0;
    let mut varargs = false;
    let mut auto = 0;
    if !p.accept(')') {
        loop {
            if p.peek() == Tok::Dots {
                p.tok();
                varargs = true;
            } else {
                let _t = p.ty();
                p.skip_attrs();
                match p.peek() {
                    Tok::Loc(n) => {
                        p.tok();
                        p.reg(&n);
                    }
                    _ => {
                        p.reg(&format!("{}", auto));
                    }
                }
                auto += 1;
                nparams += 1;
            }
            if p.accept(')') {
                break;
            }
            p.expect(',');
        }
    }
    loop {
        match p.tok() {
            Tok::P('{') => {
                if p.peek() == Tok::Nl {
                    break;
                }
            }
            Tok::Eof => panic!("no body"),
            _ => {}
        }
    }
    // Pre-scan: block labels. In LLVM text, an unnamed entry block takes the next number; we
    // recognise labels as lines starting at column 0 with "name:".
    let mut blocks: Vec<Block> = vec![];
    let mut cur: Option<u32> = None;
    let mut bodies: HashMap<u32, Block> = HashMap::new();
    let mut curb = Block { insts: vec![], phis: vec![] };
    let mut ended = false;
    loop {
        let t = p.peek();
        match t {
            Tok::Nl => {
                p.tok();
                continue;
            }
            Tok::P('}') | Tok::Eof => break,
            _ => {}
        }
        // label?
        let is_label = {
            let save = p.lx.i;
            // after peek, lx.i is after token; check next char is ':'
            let c = p.lx.s.get(save).copied();
            matches!(t, Tok::Word(_) | Tok::Int(_) | Tok::Str(_)) && c == Some(b':')
        };
        if is_label {
            let n = match p.tok() {
                Tok::Word(w) => w,
                Tok::Int(s) => s,
                Tok::Str(s) => String::from_utf8_lossy(&s).to_string(),
                _ => unreachable!(),
            };
            p.expect(':');
            if let Some(c) = cur {
                bodies.insert(c, std::mem::replace(&mut curb, Block { insts: vec![], phis: vec![] }));
            }
            cur = Some(p.blk(&n));
            ended = false;
            continue;
        }
        if cur.is_none() {
            // unnamed entry: label number = number of params (all unnamed) or "start" etc.
            let entry = format!("{}", nparams);
            cur = Some(p.blk(&entry));
        }
        if ended {
            // skip stray lines
            p.skip_line();
            continue;
        }
        let before = p.lx.i;
        let _ = before;
        parse_inst(&mut p, &mut curb, &mut ended);
    }
    if let Some(c) = cur {
        bodies.insert(c, curb);
    }
    let nb = p.blocks.len() as u32;
    for i in 0..nb {
        blocks.push(bodies.remove(&i).unwrap_or(Block {
            insts: vec![Inst::Unsupported(format!(
                "missing block {:?}",
                p.blocks.iter().find(|x| *x.1 == i).map(|x| x.0)
            ))],
            phis: vec![],
        }));
    }
    Func { name: name.to_string(), blocks, nregs: p.nregs, nparams, varargs }
}

fn parse_inst(p: &mut Parser, b: &mut Block, ended: &mut bool) {
    p.unsupported = None;
    let mut d = u32::MAX;
    let mut t = p.tok();
    if let Tok::Loc(n) = &t {
        let r = p.reg(n);
        d = r;
        p.expect('=');
        t = p.tok();
    }
    let w = match t {
        Tok::Word(w) => w,
        Tok::P('#') => {
            // debug records (#dbg_value ...)
            p.skip_line();
            return;
        }
        t => {
            let ctx = &p.lx.s[p.lx.i.saturating_sub(200)..p.lx.i];
            panic!("inst {:?} near {}", t, String::from_utf8_lossy(ctx))
        }
    };
    let inst: Option<Inst> = match w.as_str() {
        "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr"
        | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
            let op = match w.as_str() {
                "add" => BinOp::Add,
                "sub" => BinOp::Sub,
                "mul" => BinOp::Mul,
                "udiv" => BinOp::UDiv,
                "sdiv" => BinOp::SDiv,
                "urem" => BinOp::URem,
                "srem" => BinOp::SRem,
                "and" => BinOp::And,
                "or" => BinOp::Or,
                "xor" => BinOp::Xor,
                "shl" => BinOp::Shl,
                "lshr" => BinOp::LShr,
                "ashr" => BinOp::AShr,
                "fadd" => BinOp::FAdd,
                "fsub" => BinOp::FSub,
                "fmul" => BinOp::FMul,
                "fdiv" => BinOp::FDiv,
                _ => BinOp::FRem,
            };
            skip_flags(p);
            let ty = p.ty();
            let a = p.value(ty);
            p.expect(',');
            let bb = p.value(ty);
            Some(Inst::Bin { op, ty, a, b: bb, d })
        }
        "fneg" => {
            skip_flags(p);
            let ty = p.ty();
            let a = p.value(ty);
            Some(Inst::FNeg { ty, a, d })
        }
        "icmp" => {
            p.accept_word("samesign");
            let pr = match p.tok() {
                Tok::Word(w) => w,
                t => panic!("{:?}", t),
            };
            let pr = match pr.as_str() {
                "eq" => Pred::Eq,
                "ne" => Pred::Ne,
                "ugt" => Pred::Ugt,
                "uge" => Pred::Uge,
                "ult" => Pred::Ult,
                "ule" => Pred::Ule,
                "sgt" => Pred::Sgt,
                "sge" => Pred::Sge,
                "slt" => Pred::Slt,
                "sle" => Pred::Sle,
                x => panic!("pred {}", x),
            };
            let ty = p.ty();
            let a = p.value(ty);
            p.expect(',');
            let bb = p.value(ty);
            Some(Inst::ICmp { p: pr, ty, a, b: bb, d })
        }
        "fcmp" => {
            let mut pr;
            loop {
                pr = match p.tok() {
                    Tok::Word(w) => w,
                    t => panic!("{:?}", t),
                };
                if !matches!(pr.as_str(), "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") {
                    break;
                }
            }
            let ty = p.ty();
            let a = p.value(ty);
            p.expect(',');
            let bb = p.value(ty);
            Some(Inst::FCmp { p: pr, ty, a, b: bb, d })
        }
        "select" => {
            skip_flags(p);
            let (cty, c) = p.typed();
            p.expect(',');
            let (ty, a) = p.typed();
            p.expect(',');
            let (_, bb) = p.typed();
            Some(Inst::Select { cty, c, ty, a, b: bb, d })
        }
        "zext" | "sext" | "trunc" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "addrspacecast" | "fpext" | "fptrunc" | "uitofp"
        | "sitofp" | "fptoui" | "fptosi" => {
            let op = match w.as_str() {
                "zext" => Cast::ZExt,
                "sext" => Cast::SExt,
                "trunc" => Cast::Trunc,
                "ptrtoint" | "ptrtoaddr" => Cast::Trunc,
                "inttoptr" => Cast::ZExt,
                "bitcast" | "addrspacecast" => Cast::Bit,
                "fpext" => Cast::FpExt,
                "fptrunc" => Cast::FpTrunc,
                "uitofp" => Cast::UiToFp,
                "sitofp" => Cast::SiToFp,
                "fptoui" => Cast::FpToUi,
                _ => Cast::FpToSi,
            };
            skip_flags(p);
            let (from, a) = p.typed();
            p.tok(); // to
            let to = p.ty();
            Some(Inst::Cast { op, from, to, a, d })
        }
        "load" => {
            p.accept_word("atomic");
            p.accept_word("volatile");
            let ty = p.ty();
            p.expect(',');
            let (_, a) = p.typed();
            Some(Inst::Load { ty, p: a, d })
        }
        "store" => {
            p.accept_word("atomic");
            p.accept_word("volatile");
            let (ty, v) = p.typed();
            p.expect(',');
            let (_, a) = p.typed();
            Some(Inst::Store { ty, v, p: a })
        }
        "getelementptr" => {
            skip_flags(p);
            let bt = p.ty();
            p.expect(',');
            let (pt, base) = p.typed();
            if p.m.types.borrow().is_agg(pt) {
                p.unsupported = Some("vector gep".into());
            }
            let mut off = 0u64;
            let mut idx = vec![];
            let mut cur = bt;
            let mut first = true;
            while p.peek_is(',') {
                p.tok();
                if matches!(p.peek(), Tok::Meta(_) | Tok::P('!')) {
                    break;
                }
                let (it, iv) = p.typed();
                let ts = p.m.types.borrow();
                let wdt = ts.bits(it);
                let scale;
                if first {
                    scale = ts.size(cur);
                    first = false;
                } else {
                    match ts.get(cur).clone() {
                        Ty::Struct(..) => {
                            if let Opnd::C(c) = iv {
                                let (o, n) = ts.offset(cur, c as usize);
                                off = off.wrapping_add(o);
                                cur = n;
                                continue;
                            } else {
                                panic!("struct idx not const")
                            }
                        }
                        Ty::Arr(_, e) | Ty::Vec(_, e) => {
                            cur = e;
                            scale = ts.size(e);
                        }
                        x => panic!("gep into {:?}", x),
                    }
                }
                match iv {
                    Opnd::C(c) => off = off.wrapping_add((sext64(c, wdt) as u64).wrapping_mul(scale)),
                    o => idx.push((o, wdt, scale)),
                }
            }
            Some(Inst::Gep { base, off, idx, d })
        }
        "alloca" => {
            let ty = p.ty();
            let size = p.m.types.borrow().size(ty);
            let mut n = Opnd::C(1);
            if p.peek_is(',') {
                p.tok();
                if !p.peek_word("align") && !p.peek_word("addrspace") && !matches!(p.peek(), Tok::Meta(_)) {
                    let (_, v) = p.typed();
                    n = v;
                }
            }
            Some(Inst::Alloca { size, n, d })
        }
        "tail" | "musttail" | "notail" | "call" | "invoke" => {
            let mut w = w.clone();
            while w != "call" && w != "invoke" {
                w = match p.tok() {
                    Tok::Word(w) => w,
                    t => panic!("{:?}", t),
                };
            }
            let is_invoke = w == "invoke";
            // flags / cc / ret attrs until a type
            loop {
                match p.peek() {
                    Tok::Word(x) => {
                        let is_ty = matches!(x.as_str(), "void" | "ptr" | "half" | "float" | "double" | "fp128" | "x86_fp80")
                            || (x.starts_with('i') && x.len() > 1 && x[1..].chars().all(|c| c.is_ascii_digit()));
                        if is_ty {
                            break;
                        }
                        p.tok();
                        if x == "align" {
                            p.tok();
                            continue;
                        }
                        if p.peek_is('(') {
                            p.skip_parens();
                        }
                    }
                    _ => break,
                }
            }
            let ret = p.ty();
            if p.peek_is('(') {
                p.skip_parens();
            }
            let mut callee = match p.tok() {
                Tok::Glob(n) => match p.m.func_ix.get(&n) {
                    Some(&f) => Callee::Func(f),
                    None => {
                        p.unsupported = Some(format!("callee {}", n));
                        Callee::Asm(n)
                    }
                },
                Tok::Loc(n) => Callee::Ptr(Opnd::Reg(p.reg(&n))),
                Tok::Word(x) if x == "asm" => {
                    let mut txt = String::new();
                    let mut n = 0;
                    loop {
                        match p.tok() {
                            Tok::Str(s) => {
                                if n == 0 {
                                    txt = String::from_utf8_lossy(&s).to_string();
                                }
                                n += 1;
                                if n == 2 {
                                    break;
                                }
                            }
                            Tok::Eof => panic!("asm"),
                            _ => {}
                        }
                    }
                    Callee::Asm(txt)
                }
                Tok::Word(x) if x == "inttoptr" || x == "null" || x == "undef" || x == "poison" => {
                    if x == "inttoptr" {
                        p.skip_parens();
                    }
                    p.unsupported = Some("odd callee".into());
                    Callee::Asm(x)
                }
                t => panic!("callee {:?}", t),
            };
            let mut args = vec![];
            p.expect('(');
            if !p.accept(')') {
                loop {
                    let t = p.ty();
                    if *p.m.types.borrow().get(t) == Ty::Meta {
                        // skip metadata arg
                        let mut depth = 0;
                        loop {
                            match p.peek() {
                                Tok::P('(') => depth += 1,
                                Tok::P(')') => {
                                    if depth == 0 {
                                        break;
                                    }
                                    depth -= 1
                                }
                                Tok::P(',') if depth == 0 => break,
                                _ => {}
                            }
                            p.tok();
                        }
                    } else {
                        p.skip_attrs();
                        let v = p.value(t);
                        args.push((t, v));
                    }
                    if p.accept(')') {
                        break;
                    }
                    p.expect(',');
                }
            }
            let mut next = None;
            if is_invoke {
                // ... to label %x unwind label %y (maybe on next line)
                loop {
                    match p.tok() {
                        Tok::Word(x) if x == "to" => break,
                        Tok::Eof => panic!("invoke"),
                        _ => {}
                    }
                }
                next = Some(p.label());
                loop {
                    match p.tok() {
                        Tok::Word(x) if x == "unwind" => break,
                        Tok::Eof => panic!("invoke"),
                        _ => {}
                    }
                }
                p.label();
                *ended = true;
            }
            if let Callee::Func(f) = &callee {
                let n = &p.m.funcs[*f as usize].name;
                if n.starts_with("llvm.lifetime")
                    || n.starts_with("llvm.experimental.noalias")
                    || n.starts_with("llvm.dbg")
                    || n.starts_with("llvm.assume")
                    || n.starts_with("llvm.donothing")
                    || n.starts_with("llvm.prefetch")
                    || n.starts_with("llvm.invariant")
                    || n.starts_with("llvm.var.annotation")
                {
                    callee = Callee::Asm(String::new());
                    p.unsupported = None;
                    args.clear();
                }
            }
            Some(Inst::Call { f: callee, ret, args, d, next })
        }
        "extractvalue" => {
            let (ty, a) = p.typed();
            let mut path = vec![];
            while p.peek_is(',') {
                p.tok();
                if let Tok::Int(_) = p.peek() {
                    path.push(p.int() as u32);
                } else {
                    break;
                }
            }
            Some(Inst::Extract { ty, a, path, d })
        }
        "insertvalue" => {
            let (ty, a) = p.typed();
            p.expect(',');
            let (_, v) = p.typed();
            let mut path = vec![];
            while p.peek_is(',') {
                p.tok();
                if let Tok::Int(_) = p.peek() {
                    path.push(p.int() as u32);
                } else {
                    break;
                }
            }
            Some(Inst::Insert { ty, a, v, path, d })
        }
        "extractelement" => {
            let (ty, a) = p.typed();
            p.expect(',');
            let (_, i) = p.typed();
            Some(Inst::ExtElem { ty, a, i, d })
        }
        "insertelement" => {
            let (ty, a) = p.typed();
            p.expect(',');
            let (_, v) = p.typed();
            p.expect(',');
            let (_, i) = p.typed();
            Some(Inst::InsElem { ty, a, v, i, d })
        }
        "shufflevector" => {
            let (ty, a) = p.typed();
            p.expect(',');
            let (_, bb) = p.typed();
            p.expect(',');
            let (_, mk) = p.typed();
            let mask = match mk {
                Opnd::Agg(v) => v
                    .iter()
                    .map(|o| match o {
                        Opnd::C(c) => *c as i64,
                        _ => -1,
                    })
                    .collect(),
                _ => vec![],
            };
            Some(Inst::Shuffle { ty, a, b: bb, mask, d })
        }
        "freeze" => {
            let (_, a) = p.typed();
            Some(Inst::Freeze { a, d })
        }
        "phi" => {
            skip_flags(p);
            let ty = p.ty();
            let mut inc = vec![];
            loop {
                if !p.peek_is('[') {
                    break;
                }
                p.expect('[');
                let v = p.value(ty);
                p.expect(',');
                let l = match p.tok() {
                    Tok::Loc(n) => p.blk(&n),
                    t => panic!("phi label {:?}", t),
                };
                p.expect(']');
                inc.push((l, v));
                if !p.accept(',') {
                    break;
                }
            }
            b.phis.push((d, inc));
            None
        }
        "ret" => {
            *ended = true;
            let t = p.ty();
            if *p.m.types.borrow().get(t) == Ty::Void {
                Some(Inst::Ret { v: None })
            } else {
                p.skip_attrs();
                let v = p.value(t);
                Some(Inst::Ret { v: Some(v) })
            }
        }
        "br" => {
            *ended = true;
            if p.peek_word("label") {
                let t = p.label();
                Some(Inst::Br { t })
            } else {
                let (_, c) = p.typed();
                p.expect(',');
                let t = p.label();
                p.expect(',');
                let e = p.label();
                Some(Inst::CondBr { c, t, e })
            }
        }
        "switch" => {
            *ended = true;
            let (ty, v) = p.typed();
            p.expect(',');
            let def = p.label();
            p.expect('[');
            let mut cases = vec![];
            loop {
                match p.peek() {
                    Tok::Nl => {
                        p.tok();
                    }
                    Tok::P(']') => {
                        p.tok();
                        break;
                    }
                    _ => {
                        let (_, c) = p.typed_const();
                        p.expect(',');
                        let l = p.label();
                        cases.push((c, l));
                    }
                }
            }
            let w = p.m.types.borrow().bits(ty);
            Some(Inst::Switch { w, v, def, cases })
        }
        "unreachable" => {
            *ended = true;
            Some(Inst::Unreachable)
        }
        "resume" => {
            *ended = true;
            Some(Inst::Unsupported("resume".into()))
        }
        "landingpad" => {
            // skip clauses on following lines
            p.skip_line();
            loop {
                match p.peek() {
                    Tok::Word(x) if x == "cleanup" || x == "catch" || x == "filter" => p.skip_line(),
                    _ => break,
                }
            }
            b.insts.push(Inst::Unsupported("landingpad".into()));
            return;
        }
        "fence" => Some(Inst::Nop),
        "atomicrmw" => {
            p.accept_word("volatile");
            let op = match p.tok() {
                Tok::Word(w) => w,
                t => panic!("{:?}", t),
            };
            let (_, ptr) = p.typed();
            p.expect(',');
            let (ty, v) = p.typed();
            Some(Inst::Rmw { op, ty, p: ptr, v, d })
        }
        "cmpxchg" => {
            p.accept_word("weak");
            p.accept_word("volatile");
            let (_, ptr) = p.typed();
            p.expect(',');
            let (ty, a) = p.typed();
            p.expect(',');
            let (_, bb) = p.typed();
            Some(Inst::CmpXchg { ty, p: ptr, a, b: bb, d })
        }
        x => Some(Inst::Unsupported(x.to_string())),
    };
    if let Some(i) = inst {
        if let Some(u) = p.unsupported.take() {
            b.insts.push(Inst::Unsupported(u));
        } else {
            b.insts.push(i);
        }
    }
    if !matches!(p.peek(), Tok::P('}')) {
        p.skip_line();
    }
}

fn skip_flags(p: &mut Parser) {
    loop {
        match p.peek() {
            Tok::Word(w)
                if matches!(
                    w.as_str(),
                    "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "inbounds" | "nusw" | "fast" | "nnan" | "ninf" | "nsz"
                        | "arcp" | "contract" | "afn" | "reassoc" | "samesign"
                ) =>
            {
                p.tok();
            }
            Tok::Word(w) if w == "inrange" => {
                p.tok();
                p.skip_parens();
            }
            _ => return,
        }
    }
}
