#![allow(dead_code)]
//! Proto files as data: a description, its text, and what a context made from the text has to say.
use crate::schema::K;
use crate::sym::*;
use protofish::context::*;

#[derive(Clone)]
pub struct Tok {
    pub s: String,
    pub word: bool,
}

pub fn w<S: Into<String>>(s: S) -> Tok {
    Tok { s: s.into(), word: true }
}
pub fn pt(s: &str) -> Tok {
    Tok { s: s.to_string(), word: false }
}

/// A dotted name, as tokens. What is stored is the tokens without anything between them.
#[derive(Clone)]
pub struct Path(pub Vec<Tok>);

impl Path {
    /// Each character of `. ( )` is a token of its own.
    pub fn of(s: &str) -> Path {
        let mut v: Vec<Tok> = vec![];
        let mut cur = String::new();
        for c in s.chars() {
            if c == '.' || c == '(' || c == ')' {
                if !cur.is_empty() {
                    v.push(w(std::mem::take(&mut cur)));
                }
                v.push(pt(&c.to_string()));
            } else {
                cur.push(c);
            }
        }
        if !cur.is_empty() {
            v.push(w(cur));
        }
        Path(v)
    }
    /// Identifiers, with dots between them.
    pub fn ids(ids: &[String]) -> Path {
        let mut v = vec![];
        for (i, s) in ids.iter().enumerate() {
            if i > 0 {
                v.push(pt("."));
            }
            v.push(w(s.clone()));
        }
        Path(v)
    }
    pub fn global(ids: &[String]) -> Path {
        let mut p = Path::ids(ids);
        p.0.insert(0, pt("."));
        p
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        for t in &self.0 {
            s.push_str(&t.s);
        }
        s
    }
}

#[derive(Clone)]
pub enum Want {
    B(K),
    M(String),
    E(String),
}

#[derive(Clone)]
pub struct Ty {
    pub path: Path,
    pub want: Want,
}

pub fn builtin(k: K) -> Ty {
    Ty { path: Path(vec![w(k.word())]), want: Want::B(k) }
}
pub fn msg_ty(path: &str, full: &str) -> Ty {
    Ty { path: Path::of(path), want: Want::M(full.to_string()) }
}
pub fn enum_ty(path: &str, full: &str) -> Ty {
    Ty { path: Path::of(path), want: Want::E(full.to_string()) }
}

#[derive(Clone)]
pub struct Op {
    pub name: Path,
    pub toks: Vec<Tok>,
    pub val: Constant,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Kw {
    None,
    Optional,
    Repeated,
}

#[derive(Clone)]
pub struct Fd {
    pub kw: Kw,
    pub ty: Ty,
    pub name: String,
    pub num: u64,
    pub num_text: String,
    pub opts: Vec<Op>,
}

pub fn fd(ty: Ty, name: &str, num: u64) -> Fd {
    Fd { kw: Kw::None, ty, name: name.to_string(), num, num_text: num.to_string(), opts: vec![] }
}

#[derive(Clone)]
pub struct On {
    pub name: String,
    pub items: Vec<OnIt>,
}
#[derive(Clone)]
pub enum OnIt {
    F(Fd),
    Op(Op),
    Raw(Vec<Tok>),
}

#[derive(Clone)]
pub struct Ms {
    pub name: String,
    pub items: Vec<It>,
}
#[derive(Clone)]
pub enum It {
    F(Fd),
    O(On),
    M(Ms),
    E(En),
    Op(Op),
    Raw(Vec<Tok>),
}

#[derive(Clone)]
pub struct Ev {
    pub name: String,
    pub val: i64,
    pub toks: Vec<Tok>,
    pub opts: Vec<Op>,
}
#[derive(Clone)]
pub struct En {
    pub name: String,
    pub items: Vec<EnIt>,
}
#[derive(Clone)]
pub enum EnIt {
    V(Ev),
    Op(Op),
    Raw(Vec<Tok>),
}

pub fn ev(name: &str, val: i64) -> EnIt {
    let mut toks = vec![];
    if val < 0 {
        toks.push(pt("-"));
    }
    toks.push(w((val as i128).abs().to_string()));
    EnIt::V(Ev { name: name.to_string(), val, toks, opts: vec![] })
}

#[derive(Clone)]
pub struct Arg {
    pub stream: bool,
    pub path: Path,
    pub full: String,
}
pub fn arg(path: &str, full: &str) -> Arg {
    Arg { stream: false, path: Path::of(path), full: full.to_string() }
}
pub fn sarg(path: &str, full: &str) -> Arg {
    Arg { stream: true, path: Path::of(path), full: full.to_string() }
}
#[derive(Clone)]
pub struct Rp {
    pub name: String,
    pub input: Arg,
    pub output: Arg,
    pub body: bool,
    pub opts: Vec<Op>,
}
#[derive(Clone)]
pub struct Sv {
    pub name: String,
    pub items: Vec<SvIt>,
}
#[derive(Clone)]
pub enum SvIt {
    R(Rp),
    Op(Op),
    Raw(Vec<Tok>),
}

#[derive(Clone)]
pub enum Top {
    M(Ms),
    E(En),
    S(Sv),
    Op(Op),
    Import(Vec<Tok>),
    Raw(Vec<Tok>),
}
#[derive(Clone)]
pub struct File {
    pub package: Option<Path>,
    pub items: Vec<Top>,
    /// The items before the package statement.
    pub at: usize,
}

// ------------------------------------------------------------------ text

fn p_op(o: &mut Vec<Tok>, op: &Op) {
    o.extend(op.name.0.iter().cloned());
    o.push(pt("="));
    o.extend(op.toks.iter().cloned());
}
fn p_opt_stmt(o: &mut Vec<Tok>, op: &Op) {
    o.push(w("option"));
    p_op(o, op);
    o.push(pt(";"));
}
fn p_opts(o: &mut Vec<Tok>, ops: &[Op]) {
    if ops.is_empty() {
        return;
    }
    o.push(pt("["));
    for (i, op) in ops.iter().enumerate() {
        if i > 0 {
            o.push(pt(","));
        }
        p_op(o, op);
    }
    o.push(pt("]"));
}
fn p_fd(o: &mut Vec<Tok>, f: &Fd) {
    match f.kw {
        Kw::None => {}
        Kw::Optional => o.push(w("optional")),
        Kw::Repeated => o.push(w("repeated")),
    }
    o.extend(f.ty.path.0.iter().cloned());
    o.push(w(f.name.clone()));
    o.push(pt("="));
    o.push(w(f.num_text.clone()));
    p_opts(o, &f.opts);
    o.push(pt(";"));
}
fn p_en(o: &mut Vec<Tok>, e: &En) {
    o.push(w("enum"));
    o.push(w(e.name.clone()));
    o.push(pt("{"));
    for i in &e.items {
        match i {
            EnIt::V(v) => {
                o.push(w(v.name.clone()));
                o.push(pt("="));
                o.extend(v.toks.iter().cloned());
                p_opts(o, &v.opts);
                o.push(pt(";"));
            }
            EnIt::Op(op) => p_opt_stmt(o, op),
            EnIt::Raw(t) => o.extend(t.iter().cloned()),
        }
    }
    o.push(pt("}"));
}
fn p_ms(o: &mut Vec<Tok>, m: &Ms) {
    o.push(w("message"));
    o.push(w(m.name.clone()));
    o.push(pt("{"));
    for i in &m.items {
        match i {
            It::F(f) => p_fd(o, f),
            It::O(on) => {
                o.push(w("oneof"));
                o.push(w(on.name.clone()));
                o.push(pt("{"));
                for i in &on.items {
                    match i {
                        OnIt::F(f) => p_fd(o, f),
                        OnIt::Op(op) => p_opt_stmt(o, op),
                        OnIt::Raw(t) => o.extend(t.iter().cloned()),
                    }
                }
                o.push(pt("}"));
            }
            It::M(m) => p_ms(o, m),
            It::E(e) => p_en(o, e),
            It::Op(op) => p_opt_stmt(o, op),
            It::Raw(t) => o.extend(t.iter().cloned()),
        }
    }
    o.push(pt("}"));
}
fn p_arg(o: &mut Vec<Tok>, a: &Arg) {
    o.push(pt("("));
    if a.stream {
        o.push(w("stream"));
    }
    o.extend(a.path.0.iter().cloned());
    o.push(pt(")"));
}
fn p_sv(o: &mut Vec<Tok>, s: &Sv) {
    o.push(w("service"));
    o.push(w(s.name.clone()));
    o.push(pt("{"));
    for i in &s.items {
        match i {
            SvIt::R(r) => {
                o.push(w("rpc"));
                o.push(w(r.name.clone()));
                p_arg(o, &r.input);
                o.push(w("returns"));
                p_arg(o, &r.output);
                if r.body {
                    o.push(pt("{"));
                    for op in &r.opts {
                        p_opt_stmt(o, op);
                    }
                    o.push(pt("}"));
                } else {
                    o.push(pt(";"));
                }
            }
            SvIt::Op(op) => p_opt_stmt(o, op),
            SvIt::Raw(t) => o.extend(t.iter().cloned()),
        }
    }
    o.push(pt("}"));
}

pub fn tokens(f: &File) -> Vec<Tok> {
    let mut o = vec![w("syntax"), pt("="), pt("\"proto3\""), pt(";")];
    let package = |o: &mut Vec<Tok>| {
        if let Some(p) = &f.package {
            o.push(w("package"));
            o.extend(p.0.iter().cloned());
            o.push(pt(";"));
        }
    };
    for (k, i) in f.items.iter().enumerate() {
        if k == f.at {
            package(&mut o);
        }
        match i {
            Top::M(m) => p_ms(&mut o, m),
            Top::E(e) => p_en(&mut o, e),
            Top::S(s) => p_sv(&mut o, s),
            Top::Op(op) => p_opt_stmt(&mut o, op),
            Top::Import(t) => {
                o.push(w("import"));
                o.extend(t.iter().cloned());
                o.push(pt(";"));
            }
            Top::Raw(t) => o.extend(t.iter().cloned()),
        }
    }
    if f.at >= f.items.len() {
        package(&mut o);
    }
    o
}

/// Text with the least separation.
pub fn text(f: &File) -> String {
    let t = tokens(f);
    let mut s = String::new();
    for i in 0..t.len() {
        if i > 0 && t[i - 1].word && t[i].word {
            s.push(' ');
        }
        s.push_str(&t[i].s);
    }
    s
}

pub fn texts(fs: &[File]) -> Vec<String> {
    fs.iter().map(text).collect()
}

// ------------------------------------------------------------------ what the context has to say

pub const NAMES: u32 = 1; // names, parents, lookups, inner types, oneofs
pub const TYPES: u32 = 2; // field and rpc types
pub const MULT: u32 = 4; // multiplicities
pub const OPTS: u32 = 8; // options

pub fn scalar(k: K) -> bool {
    !matches!(k, K::Str | K::Bytes | K::Enum | K::Msg(_))
}

/// The rule for multiplicities of the proto3 specification, for at most one `packed` option.
pub fn multiplicity(f: &Fd) -> Multiplicity {
    match (f.kw, &f.ty.want) {
        (Kw::None, _) => Multiplicity::Single,
        (Kw::Optional, _) => Multiplicity::Optional,
        (Kw::Repeated, Want::B(k)) if scalar(*k) => {
            for o in &f.opts {
                if o.name.text() == "packed" {
                    return match o.val {
                        Constant::Bool(true) => Multiplicity::RepeatedPacked,
                        _ => Multiplicity::Repeated,
                    };
                }
            }
            Multiplicity::RepeatedPacked
        }
        _ => Multiplicity::Repeated,
    }
}

pub fn eq_const(a: &Constant, b: &Constant) -> bool {
    match (a, b) {
        (Constant::Float(x), Constant::Float(y)) => x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()),
        (Constant::Integer(x), Constant::Integer(y)) => x == y,
        (Constant::Bool(x), Constant::Bool(y)) => x == y,
        (Constant::Ident(x), Constant::Ident(y)) => x == y,
        (Constant::String(x), Constant::String(y)) => crate::schema::same(x, y),
        _ => false,
    }
}

pub fn eq_opts(want: &[Op], got: &[ProtoOption]) -> bool {
    if want.len() != got.len() {
        return false;
    }
    want.iter().zip(got).all(|(a, b)| a.name.text() == b.name && eq_const(&a.val, &b.value))
}

fn want_type(ctx: &Context, want: &Want, got: &ValueType) -> bool {
    match (want, got) {
        (Want::M(full), ValueType::Message(r)) => ctx.resolve_message(*r).full_name == *full,
        (Want::E(full), ValueType::Enum(r)) => ctx.resolve_enum(*r).full_name == *full,
        (Want::B(k), t) => matches!(
            (k, t),
            (K::Double, ValueType::Double)
                | (K::Float, ValueType::Float)
                | (K::Int32, ValueType::Int32)
                | (K::Int64, ValueType::Int64)
                | (K::UInt32, ValueType::UInt32)
                | (K::UInt64, ValueType::UInt64)
                | (K::SInt32, ValueType::SInt32)
                | (K::SInt64, ValueType::SInt64)
                | (K::Fixed32, ValueType::Fixed32)
                | (K::Fixed64, ValueType::Fixed64)
                | (K::SFixed32, ValueType::SFixed32)
                | (K::SFixed64, ValueType::SFixed64)
                | (K::Bool, ValueType::Bool)
                | (K::Str, ValueType::String)
                | (K::Bytes, ValueType::Bytes)
        ),
        _ => false,
    }
}

pub fn join(scope: &str, name: &str) -> String {
    if scope.is_empty() {
        name.to_string()
    } else {
        format!("{}.{}", scope, name)
    }
}

pub enum Parent {
    Package(Option<PackageRef>),
    Message(MessageRef),
}

struct Vf<'a> {
    ctx: &'a Context,
    flags: u32,
    base: u64,
}

impl<'a> Vf<'a> {
    fn on(&self, f: u32) -> bool {
        self.flags & f != 0
    }
    fn ck(&self, f: u32, b: bool, code: u64) {
        if self.on(f) {
            check(b, self.base + code);
        }
    }

    fn parent(&self, want: &mut Parent, got: TypeParent) {
        match (want, got) {
            // Everything in one file is in one package.
            (Parent::Package(p), TypeParent::Package(r)) => match p {
                None => *p = Some(r),
                Some(x) => self.ck(NAMES, *x == r, 1),
            },
            (Parent::Message(m), TypeParent::Message(r)) => self.ck(NAMES, *m == r, 2),
            _ => self.ck(NAMES, false, 3),
        }
    }

    fn field(&self, m: &MessageInfo, f: &Fd, oneof: Option<usize>) {
        let got = match m.get_field(f.num) {
            Some(g) => g,
            None => {
                check(false, self.base + 10);
                return;
            }
        };
        self.ck(NAMES, got.number == f.num, 11);
        self.ck(NAMES, got.name == f.name, 12);
        self.ck(TYPES, want_type(self.ctx, &f.ty.want, &got.field_type), 13);
        self.ck(MULT, got.multiplicity == multiplicity(f), 14);
        self.ck(OPTS, eq_opts(&f.opts, &got.options), 15);
        if self.on(NAMES) {
            match m.get_field_by_name(&f.name) {
                Some(g) => self.ck(NAMES, g.number == f.num && g.name == f.name, 16),
                None => self.ck(NAMES, false, 17),
            }
            match (oneof, got.oneof) {
                (None, None) => {}
                (Some(i), Some(r)) => {
                    self.ck(NAMES, m.oneofs[i].self_ref == r, 18);
                    match m.get_oneof(r) {
                        Some(o) => self.ck(NAMES, o.name == m.oneofs[i].name, 19),
                        None => self.ck(NAMES, false, 20),
                    }
                    self.ck(NAMES, m.oneofs[i].fields.iter().filter(|n| **n == f.num).count() == 1, 21);
                }
                _ => self.ck(NAMES, false, 22),
            }
        }
    }

    fn message(&self, scope: &str, ms: &Ms, parent: &mut Parent) -> Option<MessageRef> {
        let full = join(scope, &ms.name);
        let m = match self.ctx.get_message(&full) {
            Some(m) => m,
            None => {
                check(false, self.base + 30);
                return None;
            }
        };
        if self.on(NAMES) {
            self.ck(NAMES, m.name == ms.name && m.full_name == full, 31);
            match self.ctx.get_type(&full) {
                Some(TypeInfo::Message(x)) => self.ck(NAMES, std::ptr::eq(x, m), 32),
                _ => self.ck(NAMES, false, 33),
            }
            let t = self.ctx.get_type(&full).unwrap();
            self.ck(NAMES, t.name() == ms.name && t.full_name() == full && t.parent() == m.parent, 34);
            self.ck(NAMES, std::ptr::eq(self.ctx.resolve_message(m.self_ref), m), 35);
            self.ck(NAMES, self.ctx.get_service(&full).is_none(), 36);
            self.parent(parent, m.parent);
        }
        let mut nf = 0;
        let mut no = 0;
        let mut inner = vec![];
        for it in &ms.items {
            match it {
                It::F(f) => {
                    nf += 1;
                    self.field(m, f, None);
                }
                It::O(on) => {
                    if no >= m.oneofs.len() {
                        check(false, self.base + 40);
                        return None;
                    }
                    let got = &m.oneofs[no];
                    self.ck(NAMES, got.name == on.name, 41);
                    let mut ops = vec![];
                    let mut nums = 0;
                    for i in &on.items {
                        match i {
                            OnIt::F(f) => {
                                nf += 1;
                                nums += 1;
                                self.field(m, f, Some(no));
                            }
                            OnIt::Op(op) => ops.push(op.clone()),
                            OnIt::Raw(_) => {}
                        }
                    }
                    self.ck(NAMES, got.fields.len() == nums, 42);
                    self.ck(OPTS, eq_opts(&ops, &got.options), 43);
                    no += 1;
                }
                It::M(im) => {
                    if let Some(r) = self.message(&full, im, &mut Parent::Message(m.self_ref)) {
                        inner.push(TypeRef::Message(r));
                    }
                }
                It::E(e) => {
                    if let Some(r) = self.en(&full, e, &mut Parent::Message(m.self_ref)) {
                        inner.push(TypeRef::Enum(r));
                    }
                }
                It::Op(_) | It::Raw(_) => {}
            }
        }
        if self.on(NAMES) {
            self.ck(NAMES, m.oneofs.len() == no, 44);
            self.ck(NAMES, m.inner_types == inner, 45);
            let nums: Vec<u64> = m.iter_fields().map(|f| f.number).collect();
            self.ck(NAMES, nums.len() == nf, 46);
            for i in 1..nums.len() {
                self.ck(NAMES, nums[i - 1] < nums[i], 47);
            }
        }
        Some(m.self_ref)
    }

    fn en(&self, scope: &str, e: &En, parent: &mut Parent) -> Option<EnumRef> {
        let full = join(scope, &e.name);
        let got = match self.ctx.get_type(&full) {
            Some(TypeInfo::Enum(g)) => g,
            _ => {
                check(false, self.base + 50);
                return None;
            }
        };
        if self.on(NAMES) {
            self.ck(NAMES, got.name == e.name && got.full_name == full, 51);
            self.ck(NAMES, std::ptr::eq(self.ctx.resolve_enum(got.self_ref), got), 52);
            self.ck(NAMES, self.ctx.get_message(&full).is_none() && self.ctx.get_service(&full).is_none(), 53);
            self.parent(parent, got.parent);
            let t = self.ctx.get_type(&full).unwrap();
            self.ck(NAMES, t.name() == e.name && t.full_name() == full && t.parent() == got.parent, 54);
        }
        for i in &e.items {
            if let EnIt::V(v) = i {
                match got.get_field_by_value(v.val) {
                    Some(g) => {
                        self.ck(NAMES, g.name == v.name && g.value == v.val, 55);
                        self.ck(OPTS, eq_opts(&v.opts, &g.options), 56);
                    }
                    None => check(false, self.base + 57),
                }
            }
        }
        Some(got.self_ref)
    }

    fn arg(&self, a: &Arg, g: &RpcArg) {
        self.ck(TYPES, self.ctx.resolve_message(g.message).full_name == a.full, 60);
        self.ck(NAMES, g.stream == a.stream, 61);
    }

    fn service(&self, scope: &str, s: &Sv, parent: &mut Parent) {
        let full = join(scope, &s.name);
        let got = match self.ctx.get_service(&full) {
            Some(g) => g,
            None => {
                check(false, self.base + 62);
                return;
            }
        };
        if self.on(NAMES) {
            self.ck(NAMES, got.name == s.name && got.full_name == full, 63);
            self.ck(NAMES, self.ctx.get_type(&full).is_none(), 64);
            self.parent(parent, TypeParent::Package(got.parent));
        }
        let mut n = 0;
        let mut ops = vec![];
        for i in &s.items {
            match i {
                SvIt::R(r) => {
                    if n >= got.rpcs.len() {
                        check(false, self.base + 65);
                        return;
                    }
                    let g = &got.rpcs[n];
                    self.ck(NAMES, g.name == r.name, 66);
                    self.arg(&r.input, &g.input);
                    self.arg(&r.output, &g.output);
                    self.ck(OPTS, eq_opts(&r.opts, &g.options), 67);
                    if self.on(NAMES) {
                        match got.rpc_by_name(&r.name) {
                            Some(x) => self.ck(NAMES, std::ptr::eq(x, g), 68),
                            None => self.ck(NAMES, false, 69),
                        }
                    }
                    n += 1;
                }
                SvIt::Op(op) => ops.push(op.clone()),
                SvIt::Raw(_) => {}
            }
        }
        self.ck(NAMES, got.rpcs.len() == n, 70);
        self.ck(OPTS, eq_opts(&ops, &got.options), 71);
    }
}

/// Asserts what the files say of the context. Codes are `base` + 1 to 99.
pub fn verify(ctx: &Context, files: &[File], flags: u32, base: u64) {
    let v = Vf { ctx, flags, base };
    for f in files {
        let scope = f.package.as_ref().map(|p| p.text()).unwrap_or_default();
        let mut parent = Parent::Package(None);
        for i in &f.items {
            match i {
                Top::M(m) => {
                    v.message(&scope, m, &mut parent);
                }
                Top::E(e) => {
                    v.en(&scope, e, &mut parent);
                }
                Top::S(s) => v.service(&scope, s, &mut parent),
                _ => {}
            }
        }
        if let Parent::Package(Some(p)) = parent {
            let _ = ctx.resolve_package(p);
        }
    }
}
