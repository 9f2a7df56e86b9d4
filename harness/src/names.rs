//! Checks of how the declarations of a set of files end up in the context: name resolution,
//! consistency of the names, references and indexes, the errors, and the order of the files.
use crate::ast::*;
use crate::schema::{same, K};
use crate::sym::*;
use crate::text::*;
use protofish::context::*;

#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    M,
    E,
    S,
}

pub struct Item {
    pub full: String,
    pub kind: Kind,
}

pub struct Ref {
    /// The scope in which the reference occurs: the message or service.
    pub scope: String,
    pub path: Path,
    pub rpc: bool,
}

/// Whether `b` occurs in `a`, as one condition.
fn contains(a: &str, b: &str) -> bool {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    let mut r = false;
    for i in 0..(a.len() + 1).saturating_sub(b.len()) {
        r |= same(&a[i..i + b.len()], b);
    }
    r
}

fn eq(a: &str, b: &str) -> bool {
    same(a.as_bytes(), b.as_bytes())
}

fn msg_items(scope: &str, m: &Ms, o: &mut Vec<Item>, r: &mut Vec<Ref>) {
    let full = join(scope, &m.name);
    o.push(Item { full: full.clone(), kind: Kind::M });
    let mut f = |f: &Fd, r: &mut Vec<Ref>| {
        if !matches!(f.ty.want, Want::B(_)) {
            r.push(Ref { scope: full.clone(), path: f.ty.path.clone(), rpc: false });
        }
    };
    for i in &m.items {
        match i {
            It::F(x) => f(x, r),
            It::O(on) => {
                for i in &on.items {
                    if let OnIt::F(x) = i {
                        f(x, r);
                    }
                }
            }
            It::M(x) => msg_items(&full, x, o, r),
            It::E(e) => o.push(Item { full: join(&full, &e.name), kind: Kind::E }),
            _ => {}
        }
    }
}

/// Everything that is declared, and every reference that has to be resolved.
pub fn items(files: &[File]) -> (Vec<Item>, Vec<Ref>) {
    let (mut o, mut r) = (vec![], vec![]);
    for f in files {
        let scope = f.package.as_ref().map(|p| p.text()).unwrap_or_default();
        for i in &f.items {
            match i {
                Top::M(m) => msg_items(&scope, m, &mut o, &mut r),
                Top::E(e) => o.push(Item { full: join(&scope, &e.name), kind: Kind::E }),
                Top::S(s) => {
                    let full = join(&scope, &s.name);
                    o.push(Item { full: full.clone(), kind: Kind::S });
                    for i in &s.items {
                        if let SvIt::R(x) = i {
                            r.push(Ref { scope: full.clone(), path: x.input.path.clone(), rpc: true });
                            r.push(Ref { scope: full.clone(), path: x.output.path.clone(), rpc: true });
                        }
                    }
                }
                _ => {}
            }
        }
    }
    (o, r)
}

/// The scopes from the innermost one outwards, the last one being the unnamed one.
fn scopes(s: &str) -> Vec<&str> {
    let mut o = vec![];
    let mut s = s;
    while !s.is_empty() {
        o.push(s);
        s = match s.rfind('.') {
            Some(i) => &s[..i],
            None => "",
        };
    }
    o.push("");
    o
}

pub fn resolve<'a>(items: &'a [Item], scope: &str, path: &Path) -> Option<&'a Item> {
    let t = path.text();
    if t.starts_with('.') {
        return items.iter().find(|i| eq(&i.full, &t[1..]));
    }
    for s in scopes(scope) {
        let full = join(s, &t);
        if let Some(i) = items.iter().find(|i| eq(&i.full, &full)) {
            return Some(i);
        }
    }
    None
}

/// Full names are distinct, and no package has the name of an item.
fn assume_distinct(items: &[Item], files: &[File]) {
    for i in 0..items.len() {
        for j in 0..i {
            assume(!eq(&items[i].full, &items[j].full));
        }
    }
    assume_packages(items, files);
}

fn assume_packages(items: &[Item], files: &[File]) {
    for f in files {
        if let Some(p) = &f.package {
            let t = p.text();
            for s in scopes(&t) {
                for i in items {
                    assume(s.is_empty() || !eq(&i.full, s));
                }
            }
        }
    }
}

// ------------------------------------------------------------------ builders

pub fn ms(name: &str, items: Vec<It>) -> Ms {
    Ms { name: name.to_string(), items }
}
pub fn en(name: &str, items: Vec<EnIt>) -> En {
    En { name: name.to_string(), items }
}
pub fn on(name: &str, items: Vec<OnIt>) -> On {
    On { name: name.to_string(), items }
}
pub fn rp(name: &str, i: Arg, o: Arg) -> SvIt {
    SvIt::R(Rp { name: name.to_string(), input: i, output: o, body: false, opts: vec![] })
}
pub fn file(package: Option<Path>, items: Vec<Top>) -> File {
    File { package, items, at: 0 }
}
/// A reference that is still to be resolved.
fn un(path: &Path) -> Ty {
    Ty { path: path.clone(), want: Want::M(String::new()) }
}
fn unarg(path: &Path) -> Arg {
    Arg { stream: false, path: path.clone(), full: String::new() }
}

fn settle_msg(its: &[Item], scope: &str, m: &mut Ms, bad: &mut Vec<u64>) {
    let full = join(scope, &m.name);
    let f = |f: &mut Fd, bad: &mut Vec<u64>| {
        if !matches!(f.ty.want, Want::B(_)) {
            match resolve(its, &full, &f.ty.path) {
                None => bad.push(3),
                Some(Item { kind: Kind::S, .. }) => bad.push(4),
                Some(Item { kind: Kind::M, full }) => f.ty.want = Want::M(full.clone()),
                Some(Item { kind: Kind::E, full }) => f.ty.want = Want::E(full.clone()),
            }
        }
    };
    for i in &mut m.items {
        match i {
            It::F(x) => f(x, bad),
            It::O(on) => {
                for i in &mut on.items {
                    if let OnIt::F(x) = i {
                        f(x, bad);
                    }
                }
            }
            It::M(x) => settle_msg(its, &full, x, bad),
            _ => {}
        }
    }
}

/// Resolves the references; returns what is wrong with them.
pub fn settle(files: &mut [File]) -> Vec<u64> {
    let (its, _) = items(files);
    let mut bad = vec![];
    for f in files {
        let scope = f.package.as_ref().map(|p| p.text()).unwrap_or_default();
        for i in &mut f.items {
            match i {
                Top::M(m) => settle_msg(&its, &scope, m, &mut bad),
                Top::S(s) => {
                    let full = join(&scope, &s.name);
                    for i in &mut s.items {
                        if let SvIt::R(x) = i {
                            for a in [&mut x.input, &mut x.output] {
                                match resolve(&its, &full, &a.path) {
                                    None => bad.push(3),
                                    Some(Item { kind: Kind::M, full }) => a.full = full.clone(),
                                    Some(_) => bad.push(4),
                                }
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }
    bad
}

/// A path of `n` symbolic single-letter names.
fn sym_path(n: u64, global: bool, alpha: u64) -> Path {
    path_with(n, global, &|| cap(alpha))
}
fn path_with(n: u64, global: bool, c: &dyn Fn() -> String) -> Path {
    let ids: Vec<String> = (0..n).map(|_| c()).collect();
    if global {
        Path::global(&ids)
    } else {
        Path::ids(&ids)
    }
}

// ------------------------------------------------------------------ C13: name resolution

/// Parameters: shape, components of the reference, global, letters, components of the package(s),
/// length of the names (0: one letter, 1 and 2: one and two letters by turns, 3: two letters).
#[no_mangle]
pub extern "C" fn h_c13() {
    let alpha = p(3);
    let names = std::cell::Cell::new(0);
    let c = || {
        let k = names.get();
        names.set(k + 1);
        let n = match p(5) {
            0 => 1,
            1 => 1 + k % 2,
            2 => 2 - k % 2,
            _ => 2,
        };
        (0..n).map(|_| cap(alpha)).collect::<String>()
    };
    let x = path_with(p(1), p(2) != 0, &c);
    let np = p(4);
    let pk = |n: u64| if n == 0 { None } else { Some(path_with(n, false, &c)) };
    let mut files = match p(0) {
        // The reference in the outermost, middle and innermost message.
        0 | 1 | 2 => {
            let f = It::F(fd(un(&x), "f", 1));
            let d = p(0);
            let mut inner = ms(&c(), vec![]);
            let mut mid = ms(&c(), vec![]);
            let mut outer = ms(&c(), vec![]);
            if d == 2 {
                inner.items.push(f.clone());
            }
            mid.items.push(It::M(inner));
            if d == 1 {
                mid.items.push(f.clone());
            }
            outer.items.push(It::M(mid));
            outer.items.push(It::E(en(&c(), vec![])));
            if d == 0 {
                outer.items.push(f);
            }
            vec![file(pk(np), vec![Top::M(outer), Top::M(ms(&c(), vec![]))])]
        }
        // In a oneof, to something that is declared later.
        3 => vec![file(
            pk(np),
            vec![
                Top::M(ms(&c(), vec![It::O(on("o", vec![OnIt::F(fd(un(&x), "f", 1))])), It::M(ms(&c(), vec![It::E(en(&c(), vec![]))]))])),
                Top::M(ms(&c(), vec![It::M(ms(&c(), vec![]))])),
            ],
        )],
        // Across files.
        4 => vec![
            file(pk(np), vec![Top::M(ms(&c(), vec![It::F(fd(un(&x), "f", 1)), It::M(ms(&c(), vec![]))]))]),
            file(pk(np + 1), vec![Top::M(ms(&c(), vec![]))]),
        ],
        5 => vec![
            file(pk(np + 1), vec![Top::M(ms(&c(), vec![])), Top::E(en(&c(), vec![]))]),
            file(pk(np), vec![Top::M(ms(&c(), vec![It::M(ms(&c(), vec![It::F(fd(un(&x), "f", 1))]))]))]),
        ],
        // Services.
        6 => vec![file(
            pk(np),
            vec![
                Top::M(ms(&c(), vec![It::M(ms(&c(), vec![]))])),
                Top::S(Sv { name: c(), items: vec![rp("R", unarg(&x), unarg(&x))] }),
            ],
        )],
        // The same reference in several scopes.
        8 => vec![file(
            pk(np),
            vec![
                Top::M(ms(&c(), vec![It::F(fd(un(&x), "f", 1)), It::M(ms(&c(), vec![]))])),
                Top::M(ms(&c(), vec![It::F(fd(un(&x), "g", 1)), It::M(ms(&c(), vec![]))])),
            ],
        )],
        9 => vec![file(
            pk(np),
            vec![Top::M(ms(
                &c(),
                vec![
                    It::F(fd(un(&x), "f", 1)),
                    It::M(ms(&c(), vec![It::O(on("o", vec![OnIt::F(fd(un(&x), "g", 1))])), It::E(en(&c(), vec![]))])),
                    It::F(fd(un(&x), "h", 2)),
                ],
            ))],
        )],
        10 => vec![
            file(pk(np), vec![Top::M(ms(&c(), vec![It::F(fd(un(&x), "f", 1))])), Top::E(en(&c(), vec![]))]),
            file(pk(np), vec![Top::M(ms(&c(), vec![It::F(fd(un(&x), "g", 1))]))]),
        ],
        11 => vec![file(
            pk(np),
            vec![
                Top::S(Sv { name: c(), items: vec![rp("R", unarg(&x), unarg(&x))] }),
                Top::M(ms(&c(), vec![It::M(ms(&c(), vec![It::F(fd(un(&x), "f", 1))])), It::F(fd(un(&x), "g", 1))])),
            ],
        )],
        // Two references in one scope.
        12 => {
            let y = path_with(3 - p(1).min(2), p(2) != 0, &c);
            vec![file(
                pk(np),
                vec![
                    Top::M(ms(&c(), vec![It::F(fd(un(&x), "f", 1)), It::F(fd(un(&y), "g", 2)), It::M(ms(&c(), vec![]))])),
                    Top::M(ms(&c(), vec![])),
                ],
            )]
        }
        _ => {
            let a = c();
            vec![
                file(pk(np + 1), vec![Top::M(ms(&a, vec![]))]),
                file(pk(np), vec![Top::S(Sv { name: c(), items: vec![rp("R", unarg(&x), sarg(".Z", "Z"))] })]),
                file(None, vec![Top::M(ms("Z", vec![]))]),
            ]
        }
    };
    let (its, _) = items(&files);
    assume_distinct(&its, &files);
    let bad = settle(&mut files);
    let r = parse(&texts(&files));
    emit(outcome(&r));
    if bad.is_empty() {
        cover(0);
        match r {
            Ok(c) => verify(&c, &files, TYPES, 1300),
            Err(_) => check(false, 1390),
        }
    } else {
        cover(bad[0]);
        let o = outcome(&r);
        check(bad.contains(&o), 1391);
    }
}

// ------------------------------------------------------------------ C14: the context says what the files say

fn num2() -> (u64, String) {
    let mut s = class(1, |b| (b >= b'1') & (b <= b'9'));
    s.push_str(&class(1, is_digit));
    let b = s.as_bytes();
    ((b[0] - b'0') as u64 * 10 + (b[1] - b'0') as u64, s)
}

/// A field with a symbolic two-digit number.
fn fdn(ty: Ty, name: &str) -> Fd {
    let (num, num_text) = num2();
    Fd { kw: Kw::None, ty, name: name.to_string(), num, num_text, opts: vec![] }
}

fn distinct(v: &[&str]) {
    for i in 0..v.len() {
        for j in 0..i {
            assume(!eq(v[i], v[j]));
        }
    }
}
fn distinct_n(v: &[u64]) {
    for i in 0..v.len() {
        for j in 0..i {
            assume(v[i] != v[j]);
        }
    }
}

fn all_fields<'a>(m: &'a Ms, o: &mut Vec<&'a Fd>) {
    for i in &m.items {
        match i {
            It::F(f) => o.push(f),
            It::O(on) => {
                for i in &on.items {
                    if let OnIt::F(f) = i {
                        o.push(f);
                    }
                }
            }
            _ => {}
        }
    }
}

/// The context has nothing but what was declared: any name and any number is found only if it was.
fn nothing_else(c: &Context, files: &[File], len: usize, base: u64) {
    let (its, _) = items(files);
    let name = ascii(len);
    let mut ty = None;
    let mut sv = false;
    for i in &its {
        if eq(&i.full, &name) {
            match i.kind {
                Kind::S => sv = true,
                k => ty = Some(k),
            }
        }
    }
    check(c.get_service(&name).is_some() == sv, base);
    check(c.get_type(&name).is_some() == ty.is_some(), base + 1);
    check(c.get_message(&name).is_some() == (ty == Some(Kind::M)), base + 2);
    cover(1000 + sv as u64 + 2 * ty.is_some() as u64);
}

fn nothing_else_field(m: &MessageInfo, fields: &[&Fd], len: usize, base: u64) {
    let n = u64_();
    let want = fields.iter().any(|f| f.num == n);
    check(m.get_field(n).is_some() == want, base);
    let s = ascii(len);
    let want = fields.iter().any(|f| eq(&f.name, &s));
    check(m.get_field_by_name(&s).is_some() == want, base + 1);
    check(m.iter_fields().count() == fields.len(), base + 2);
}

/// Parameters: shape, characters in the names, probe (0: none, n: names of n characters).
#[no_mangle]
pub extern "C" fn h_c14() {
    let n = p(1) as usize;
    let id = || ident(n);
    let (files, which) = match p(0) {
        // Fields in any order of numbers.
        0 => {
            let (a, b, c) = (id(), id(), id());
            distinct(&[&a, &b, &c]);
            let f = [fdn(builtin(K::Int32), &a), fdn(builtin(K::Str), &b), fdn(msg_ty("M", "M"), &c)];
            distinct_n(&[f[0].num, f[1].num, f[2].num]);
            (vec![file(None, vec![Top::M(ms("M", f.iter().cloned().map(It::F).collect()))])], "M")
        }
        // Oneofs between fields.
        1 => {
            let (a, b, c) = (id(), id(), id());
            distinct(&[&a, &b, &c]);
            let (o1, o2) = (id(), id());
            distinct(&[&o1, &o2]);
            let f = [fdn(builtin(K::Bool), &a), fdn(builtin(K::Bytes), &b), fdn(enum_ty("E", "M.E"), &c)];
            distinct_n(&[f[0].num, f[1].num, f[2].num]);
            let [x, y, z] = f;
            (
                vec![file(
                    None,
                    vec![Top::M(ms(
                        "M",
                        vec![
                            It::O(on(&o1, vec![OnIt::F(x), OnIt::F(fd(builtin(K::Double), "fixed", 500))])),
                            It::F(y),
                            It::E(en("E", vec![ev("A", 0)])),
                            It::O(on(&o2, vec![OnIt::F(fd(msg_ty("M", "M"), "low", 5)), OnIt::F(z)])),
                        ],
                    ))],
                )],
                "M",
            )
        }
        // Types in types.
        2 => {
            let (a, b, c, d, e) = (id(), id(), id(), id(), id());
            distinct(&[&b, &d, &e]);
            let full = format!("{}.{}.{}", a, b, c);
            (
                vec![file(
                    None,
                    vec![Top::M(ms(
                        &a,
                        vec![
                            It::E(en(&d, vec![ev("Z", 0)])),
                            It::M(ms(&b, vec![It::M(ms(&c, vec![It::F(fd(msg_ty(&format!(".{}", full), &full), "f", 1))]))])),
                            It::M(ms(&e, vec![])),
                        ],
                    ))],
                )],
                "",
            )
        }
        // Packages and files.
        3 => {
            let (p1, p2, p3) = (id(), id(), id());
            let (a, b, c, d) = (id(), id(), id(), id());
            distinct(&[&p1, &p2]);
            distinct(&[&a, &b]);
            distinct(&[&p3, &c]);
            let f3 = format!("{}.{}", p2, p3);
            let full = format!("{}.{}", f3, d);
            (
                vec![
                    file(Some(Path::of(&p1)), vec![Top::M(ms(&a, vec![It::F(fd(msg_ty(&format!(".{}", full), &full), "f", 1))])), Top::E(en(&b, vec![]))]),
                    file(Some(Path::of(&p2)), vec![Top::E(en(&c, vec![ev("A", 1)]))]),
                    file(Some(Path::of(&f3)), vec![Top::M(ms(&d, vec![]))]),
                ],
                "",
            )
        }
        // Services.
        4 => {
            let (s, t, a) = (id(), id(), id());
            distinct(&[&s, &t, &a]);
            let (r1, r2, r3) = (id(), id(), id());
            distinct(&[&r1, &r2]);
            let g = format!(".pa.{}", a);
            let full = &g[1..];
            (
                vec![file(
                    Some(Path::of("pa")),
                    vec![
                        Top::S(Sv {
                            name: s.clone(),
                            items: vec![rp(&r1, arg(&g, full), sarg(&g, full)), rp(&r2, sarg(&g, full), sarg(".pa.N.I", "pa.N.I"))],
                        }),
                        Top::M(ms(&a, vec![])),
                        Top::S(Sv { name: t.clone(), items: vec![rp(&r3, sarg("N.I", "pa.N.I"), arg("N.I", "pa.N.I"))] }),
                        Top::M(ms("N", vec![It::M(ms("I", vec![]))])),
                    ],
                )],
                "",
            )
        }
        // Enum values.
        _ => {
            let (a, b, c) = (id(), id(), id());
            distinct(&[&a, &b, &c]);
            let (x, xt) = num2();
            let (y, yt) = num2();
            let v = |n: &str, val: i64, t: &str, neg: bool| {
                let mut toks = vec![];
                if neg {
                    toks.push(pt("-"));
                }
                toks.push(w(t));
                EnIt::V(Ev { name: n.to_string(), val, toks, opts: vec![] })
            };
            (
                vec![file(
                    None,
                    vec![Top::E(en("E", vec![v(&a, x as i64, &xt, false), v(&b, -(y as i64), &yt, true), ev(&c, 0)]))],
                )],
                "",
            )
        }
    };
    // Every name but the field, oneof and rpc names is part of a full name.
    let (its, _) = items(&files);
    assume_distinct(&its, &files);
    let c = must(&texts(&files), 1400);
    cover(1);
    verify(&c, &files, NAMES | TYPES, 1400);
    if p(2) != 0 {
        nothing_else(&c, &files, p(2) as usize, 1490);
        if !which.is_empty() {
            let m = c.get_message(which).unwrap();
            if let Top::M(x) = &files[0].items[0] {
                let mut o = vec![];
                all_fields(x, &mut o);
                nothing_else_field(m, &o, n, 1493);
                if m.oneofs.len() == 2 {
                    check(m.oneofs[0].self_ref != m.oneofs[1].self_ref, 1496);
                }
            }
        }
        if p(0) == 4 {
            let s = ascii(n);
            for i in &files[0].items {
                if let Top::S(x) = i {
                    let got = c.get_service(&format!("pa.{}", x.name)).unwrap();
                    let mut want = false;
                    for i in &x.items {
                        if let SvIt::R(r) = i {
                            want |= eq(&r.name, &s);
                        }
                    }
                    check(got.rpc_by_name(&s).is_some() == want, 1497);
                }
            }
        }
        if p(0) == 5 {
            if let Some(TypeInfo::Enum(e)) = c.get_type("E") {
                let v = u64_() as i64;
                if let Top::E(x) = &files[0].items[0] {
                    let mut want = false;
                    for i in &x.items {
                        if let EnIt::V(y) = i {
                            want |= y.val == v;
                        }
                    }
                    check(e.get_field_by_value(v).is_some() == want, 1498);
                }
            }
        }
    }
}

/// Numbers of any size, and declarations in any number.
/// Parameters: shape, digits in the numbers or how many, base of the numbers (0: 10, 1: 16, 2: 8).
#[no_mangle]
pub extern "C" fn h_c14_num() {
    let n = p(1) as usize;
    let num = || -> (u64, String) {
        let (radix, pre) = [(10u64, ""), (16, "0x"), (8, "0")][p(2) as usize];
        let d = match radix {
            10 => class(1, |b| (b >= b'1') & (b <= b'9')) + &class(n - 1, is_digit),
            16 => class(n, is_hex),
            _ => class(n, is_octal),
        };
        let mut v = 0u64;
        for &b in d.as_bytes() {
            let x = (b & 15) + if b > b'9' { 9 } else { 0 };
            v = v.wrapping_mul(radix).wrapping_add(x as u64);
        }
        (v, format!("{}{}", pre, d))
    };
    let f = |ty: Ty, name: &str| {
        let (num, num_text) = num();
        Fd { kw: Kw::None, ty, name: name.to_string(), num, num_text, opts: vec![] }
    };
    let files = match p(0) {
        0 => {
            let v = [f(builtin(K::Int32), "a"), fd(builtin(K::Str), "b", 70000), f(builtin(K::Bool), "c"), fd(builtin(K::Double), "d", 3)];
            distinct_n(&[v[0].num, v[1].num, v[2].num, v[3].num]);
            let [a, b, x, d] = v;
            let o = |n: &str, f: Vec<Fd>| It::O(on(n, f.into_iter().map(OnIt::F).collect()));
            vec![file(None, vec![Top::M(ms("M", vec![o("o", vec![a, b]), It::F(x), o("q", vec![d])]))])]
        }
        1 => {
            let v = |n: &str, neg: bool| {
                let (x, t) = num();
                let mut toks = vec![];
                if neg {
                    toks.push(pt("-"));
                }
                toks.push(w(t));
                EnIt::V(Ev { name: n.to_string(), val: if neg { -(x as i64) } else { x as i64 }, toks, opts: vec![] })
            };
            let (a, b) = (v("A", false), v("B", true));
            if let (EnIt::V(a), EnIt::V(b)) = (&a, &b) {
                assume(a.val != b.val);
                assume((a.val >= 0) & (b.val <= 0));
            }
            vec![file(None, vec![Top::E(en("E", vec![a, b]))])]
        }
        _ => unreachable!(),
    };
    let c = must(&texts(&files), 1400);
    cover(1);
    verify(&c, &files, NAMES | TYPES, 1400);
    if p(0) == 0 {
        let m = c.get_message("M").unwrap();
        if let Top::M(x) = &files[0].items[0] {
            let mut o = vec![];
            all_fields(x, &mut o);
            nothing_else_field(m, &o, 1, 1493);
        }
    }
}

/// Many declarations of one sort. Parameters: sort, how many / 10, the rest.
#[no_mangle]
pub extern "C" fn h_c14_many() {
    let n = p(1) * 10 + p(2);
    let odd = ident(2);
    let name = |i: u64| if i == n / 2 { odd.clone() } else { format!("n{}_", i) };
    let field = |i: u64| fd(builtin(if i % 2 == 0 { K::Int32 } else { K::Str }), &name(i), if i % 3 == 0 { 1000 - i } else { 2000 + i });
    let all = 0..n;
    let top = match p(0) {
        0 => vec![Top::M(ms("M", all.map(|i| It::F(field(i))).collect()))],
        1 => vec![Top::M(ms("M", vec![It::O(on("o", all.map(|i| OnIt::F(field(i))).collect()))]))],
        2 => vec![Top::M(ms("M", all.map(|i| It::O(on(&name(i), vec![OnIt::F(fd(builtin(K::Bool), &format!("f{}", i), 3 * i + 1))]))).collect()))],
        3 => vec![Top::M(ms("M", all.map(|i| It::M(ms(&name(i), vec![It::F(fd(builtin(K::Bool), "f", 1))]))).collect()))],
        4 => vec![Top::M(ms("M", all.map(|i| if i % 2 == 0 { It::E(en(&name(i), vec![ev("A", 0)])) } else { It::M(ms(&name(i), vec![])) }).collect()))],
        5 => vec![Top::E(en("E", all.map(|i| ev(&name(i), i as i64 * 7 - 50)).collect()))],
        6 => vec![
            Top::S(Sv { name: "S".to_string(), items: all.map(|i| rp(&name(i), arg("M", "M"), sarg("M", "M"))).collect() }),
            Top::M(ms("M", vec![])),
        ],
        7 => all
            .map(|i| match i % 3 {
                0 => Top::M(ms(&name(i), vec![It::F(fd(msg_ty("n0_", "n0_"), "f", 1))])),
                1 => Top::E(en(&name(i), vec![ev("A", 0)])),
                _ => Top::S(Sv { name: name(i), items: vec![rp("R", arg("n0_", "n0_"), arg("n0_", "n0_"))] }),
            })
            .collect(),
        // A deep nest.
        _ => {
            let mut m = ms("in", vec![It::E(en("E", vec![ev("A", 0)]))]);
            for i in all.rev() {
                m = ms(&name(i), vec![It::M(m)]);
            }
            vec![Top::M(m)]
        }
    };
    let files = if p(0) == 7 && p(3) != 0 {
        top.into_iter().map(|t| file(None, vec![t])).collect()
    } else if p(3) != 0 {
        vec![file(Some(Path::of("p")), vec![]), file(None, top)]
    } else {
        vec![file(None, top)]
    };
    // The innermost message of the nest has a name of that length, too.
    assume(!eq(&odd, "in"));
    let c = must(&texts(&files), 1410);
    cover(1);
    verify(&c, &files, NAMES | TYPES, 1400);
}

// ------------------------------------------------------------------ C15: errors

/// Parameters: shape, letters, components of the references, global, length of the names (as in h_c13).
#[no_mangle]
pub extern "C" fn h_c15() {
    let alpha = p(1);
    let names = std::cell::Cell::new(0);
    let c = || {
        let k = names.get();
        names.set(k + 1);
        let n = match p(4) {
            0 => 1,
            1 => 1 + k % 2,
            2 => 2 - k % 2,
            _ => 2,
        };
        (0..n).map(|_| cap(alpha)).collect::<String>()
    };
    let rf = || path_with(p(2), p(3) != 0, &c);
    let ev0 = || vec![];
    let files = match p(0) {
        0 => vec![file(
            None,
            vec![Top::M(ms(&c(), vec![])), Top::S(Sv { name: c(), items: vec![] }), Top::E(en(&c(), ev0())), Top::M(ms(&c(), vec![]))],
        )],
        1 => vec![file(
            Some(Path::of("p")),
            vec![
                Top::M(ms(&c(), vec![It::M(ms(&c(), vec![It::E(en(&c(), ev0()))])), It::E(en(&c(), ev0())), It::M(ms(&c(), vec![]))])),
                Top::S(Sv { name: c(), items: vec![] }),
            ],
        )],
        2 => vec![
            file(Some(Path::of(&c())), vec![Top::M(ms(&c(), vec![It::E(en(&c(), ev0()))]))]),
            file(Some(Path::of(&c())), vec![Top::S(Sv { name: c(), items: vec![] })]),
            file(None, vec![Top::M(ms("Q", vec![])), Top::E(en(&c(), ev0()))]),
        ],
        3 => vec![file(
            None,
            vec![
                Top::M(ms(&c(), vec![It::F(fd(un(&rf()), "f", 1)), It::F(fd(un(&rf()), "g", 2))])),
                Top::E(en(&c(), ev0())),
                Top::S(Sv { name: c(), items: vec![] }),
            ],
        )],
        4 => vec![file(
            None,
            vec![
                Top::S(Sv { name: c(), items: vec![rp("R", unarg(&rf()), unarg(&rf()))] }),
                Top::M(ms(&c(), vec![])),
                Top::E(en(&c(), ev0())),
            ],
        )],
        5 => vec![
            file(
                Some(Path::of(&c())),
                vec![
                    Top::M(ms(&c(), vec![It::M(ms(&c(), vec![It::O(on("o", vec![OnIt::F(fd(un(&rf()), "f", 1))]))]))])),
                    Top::E(en(&c(), ev0())),
                ],
            ),
            file(Some(Path::of(&c())), vec![Top::S(Sv { name: c(), items: vec![] })]),
        ],
        // The same file twice, next to each other or not; without declarations, this is no conflict.
        7 => {
            let f = file(None, vec![Top::M(ms(&c(), vec![It::F(fd(builtin(K::Bool), "f", 1))])), Top::E(en(&c(), ev0()))]);
            vec![f.clone(), f]
        }
        8 => {
            let f = file(Some(Path::of(&c())), vec![Top::S(Sv { name: c(), items: vec![] })]);
            vec![f.clone(), file(Some(Path::of(&c())), vec![Top::M(ms(&c(), vec![]))]), f]
        }
        9 => {
            let f = file(Some(Path::of(&c())), vec![]);
            vec![f.clone(), file(Some(Path::of("Q")), vec![Top::M(ms(&c(), vec![])), Top::S(Sv { name: c(), items: vec![] })]), f]
        }
        // Siblings in the innermost of several nested messages.
        10 => {
            let mut m = ms("A", vec![It::M(ms(&c(), vec![])), It::E(en(&c(), ev0())), It::M(ms(&c(), vec![]))]);
            for _ in 1..p(2) {
                m = ms("A", vec![It::M(m)]);
            }
            vec![file(None, vec![Top::M(m)])]
        }
        // One more among many.
        11 => {
            let mut v: Vec<Top> = (0..p(2)).map(|i| {
                let n = format!("M{:02}", i);
                match i % 3 {
                    0 => Top::M(ms(&n, vec![])),
                    1 => Top::E(en(&n, ev0())),
                    _ => Top::S(Sv { name: n, items: vec![] }),
                }
            }).collect();
            let n = format!("M{}", class(2, is_digit));
            v.push(if p(3) == 0 { Top::M(ms(&n, vec![])) } else { Top::S(Sv { name: n, items: vec![] }) });
            vec![file(None, v)]
        }
        _ => vec![
            file(None, vec![Top::S(Sv { name: c(), items: vec![rp("Q", arg("Z", "Z"), arg("Z", "Z")), rp("R", unarg(&rf()), arg("Z", "Z"))] })]),
            file(Some(Path::of(&c())), vec![Top::M(ms(&c(), vec![It::M(ms(&c(), vec![])), It::E(en(&c(), ev0()))]))]),
            file(None, vec![Top::M(ms("Z", vec![]))]),
        ],
    };
    let (its, refs) = items(&files);
    assume_packages(&its, &files);
    let r = parse(&texts(&files));
    let mut dup = vec![];
    for i in 0..its.len() {
        for j in 0..i {
            if eq(&its[i].full, &its[j].full) {
                dup.push(its[i].full.clone());
            }
        }
    }
    let mut missing = vec![];
    let mut wrong = vec![];
    for x in &refs {
        match resolve(&its, &x.scope, &x.path) {
            None => missing.push(x),
            // If the name is not unique, what it means is not known.
            Some(i) if dup.is_empty() && (i.kind == Kind::S || (x.rpc && i.kind == Kind::E)) => wrong.push((x, i)),
            _ => {}
        }
    }
    emit(outcome(&r));
    // What is printed says it, too.
    if let Err(e) = &r {
        let text = e.to_string();
        let says = |s: &str| check(contains(&text, s), 1507);
        match e {
            ParseError::DuplicateType { name } => says(name),
            ParseError::TypeNotFound { name, context } => {
                says(name);
                says(context);
            }
            ParseError::InvalidTypeKind { type_name, actual, .. } => {
                says(type_name);
                says(match actual {
                    ItemType::Message => "essage",
                    ItemType::Enum => "num",
                    ItemType::Service => "ervice",
                });
            }
            _ => {}
        }
    }
    match &r {
        Ok(_) => {
            cover(0);
            check(dup.is_empty() && missing.is_empty() && wrong.is_empty(), 1501);
        }
        Err(ParseError::DuplicateType { name }) => {
            cover(2);
            check(dup.iter().any(|d| eq(d, name)), 1502);
        }
        Err(ParseError::TypeNotFound { name, context }) => {
            cover(3);
            check(missing.iter().any(|x| eq(&x.path.text(), name) && eq(&x.scope, context)), 1503);
        }
        Err(ParseError::InvalidTypeKind { type_name, expected, actual, .. }) => {
            cover(4);
            let k = |k: Kind| match k {
                Kind::M => ItemType::Message,
                Kind::E => ItemType::Enum,
                Kind::S => ItemType::Service,
            };
            check(*expected == ItemType::Message, 1504);
            check(
                wrong.iter().any(|(x, i)| (eq(&x.path.text(), type_name) || eq(&i.full, type_name)) && k(i.kind) == *actual),
                1505,
            );
        }
        Err(_) => check(false, 1506),
    }
}

// ------------------------------------------------------------------ C19: order and number of files

/// Declarations of two packages, in any order and in any number of files.
/// Parameters: order of the declarations, letters, files per package (0: one, 1: two, 2: one each).
#[no_mangle]
pub extern "C" fn h_c19() {
    let alpha = p(1);
    let (a, b, e, s) = (cap(alpha), cap(alpha), cap(alpha), cap(alpha));
    distinct(&[&a, &b, &e, &s]);
    let (i, j) = (cap(alpha), cap(alpha));
    distinct(&[&i, &j]);
    let q = cap(alpha);
    let pb = |x: &str| format!("p.{}", x);
    let inner = format!("{}.{}", pb(&a), i);
    let f = |t: Ty, n: u64| It::F(fd(t, &format!("f{}", n), n));
    let m1 = ms(
        &a,
        vec![
            f(msg_ty(&format!(".{}", pb(&b)), &pb(&b)), 3),
            It::M(ms(&i, vec![f(enum_ty(&format!(".{}", pb(&e)), &pb(&e)), 1)])),
            It::E(en(&j, vec![ev("X", 0)])),
            f(msg_ty(&format!(".r.{}", q), &format!("r.{}", q)), 1),
        ],
    );
    let m2 = ms(&b, vec![f(msg_ty(&format!(".{}", inner), &inner), 1), f(enum_ty(&format!("p.{}.{}", a, j), &format!("{}.{}", pb(&a), j)), 2)]);
    let mq = ms(&q, vec![f(msg_ty(&format!(".{}", pb(&a)), &pb(&a)), 1)]);
    let svc = Sv {
        name: s.clone(),
        items: vec![rp("R", arg(&format!(".{}", inner), &inner), sarg(&format!(".r.{}", q), &format!("r.{}", q)))],
    };
    let all = vec![Top::M(m1), Top::M(m2), Top::E(en(&e, vec![ev("A", 0), ev("B", -1)])), Top::S(svc)];
    // A permutation from its number.
    let mut rest = all;
    let mut k = p(0);
    let mut order = vec![];
    while !rest.is_empty() {
        let n = rest.len() as u64;
        order.push(rest.remove((k % n) as usize));
        k /= n;
    }
    let pp = || Some(Path::of("p"));
    let other = file(Some(Path::of("r")), vec![Top::M(mq)]);
    let files = match p(2) {
        0 => vec![file(pp(), order), other],
        1 => {
            let tail = order.split_off(1 + (p(0) % 3) as usize);
            vec![file(pp(), order), other, file(pp(), tail)]
        }
        2 => {
            let mut v = vec![other];
            v.extend(order.into_iter().map(|t| file(pp(), vec![t])));
            v
        }
        _ => {
            let mut v: Vec<File> = order.into_iter().map(|t| file(pp(), vec![t])).collect();
            v.push(file(None, vec![]));
            v.insert(2, other);
            v
        }
    };
    let c = must(&texts(&files), 1900);
    cover(1);
    verify(&c, &files, NAMES | TYPES | MULT, 1900);
}

/// Statements of every kind in any order, the package statement among them, in two files.
/// Parameters: order of the declarations, position of the package statement, characters of the package name,
/// whether the second file is in the same package.
#[no_mangle]
pub extern "C" fn h_c19_stmts() {
    let (a, b, e, s) = (cap(4), cap(4), cap(4), cap(4));
    distinct(&[&a, &b, &e, &s]);
    let pk = ident(p(2) as usize);
    let full = |x: &str| format!("{}.{}", pk, x);
    let inner = full(&format!("{}.{}", a, b));
    let ops = |n: &str| Op { name: Path::of(n), toks: vec![w("1")], val: Constant::Integer(1) };
    let all = vec![
        Top::M(ms(&a, vec![It::M(ms(&b, vec![])), It::F(fd(enum_ty(&e, &full(&e)), "f", 2)), It::F(fd(msg_ty(&format!("{}.{}", a, b), &inner), "g", 1))])),
        Top::Import(vec![w("\"a.proto\"")]),
        Top::E(en(&e, vec![ev("A", 0)])),
        Top::Op(ops("o")),
        Top::S(Sv { name: s.clone(), items: vec![rp("R", arg(&a, &full(&a)), arg(&format!(".{}", inner), &inner))] }),
    ];
    let mut rest = all;
    let mut k = p(0);
    let mut order = vec![];
    while !rest.is_empty() {
        let n = rest.len() as u64;
        order.push(rest.remove((k % n) as usize));
        k /= n;
    }
    let other = if p(3) != 0 { Some(Path::of(&pk)) } else { None };
    let z = |full: &str| {
        ms("Zz", vec![It::F(fd(msg_ty(&format!(".{}", full), full), "f", 1))])
    };
    let mut files = vec![file(Some(Path::of(&pk)), order), file(other, vec![Top::M(z(&inner)), Top::Op(ops("q")), Top::Import(vec![w("weak"), w("'b'")])])];
    files[0].at = p(1) as usize;
    files[1].at = (p(0) % 4) as usize;
    let (its, _) = items(&files);
    assume_distinct(&its, &files);
    let c = must(&texts(&files), 1910);
    cover(1);
    verify(&c, &files, NAMES | TYPES | MULT, 1900);
}

/// A chain of messages, one in the other, with a reference at one level and another declaration at one level.
/// Parameters: depth, level of the reference, level of the declaration, components of the reference, global,
/// letters + 10 * components of the package + 100 * whether a second reference is in the innermost message.
#[no_mangle]
pub extern "C" fn h_c13_deep() {
    let (depth, at, decl) = (p(0), p(1), p(2));
    let (alpha, np) = (p(5) % 10, p(5) / 10 % 10);
    let c = || cap(alpha);
    let x = path_with(p(3), p(4) != 0, &c);
    let mut m: Option<Ms> = None;
    for i in (0..depth).rev() {
        let mut its = vec![];
        if i == at {
            its.push(It::F(fd(un(&x), "f", 1)));
        }
        if let Some(inner) = m {
            its.push(It::M(inner));
        } else if p(5) >= 100 {
            its.push(It::O(on("o", vec![OnIt::F(fd(un(&x), "g", 2))])));
        }
        if i == decl {
            its.push(if p(1) % 2 == 0 { It::E(en(&c(), vec![])) } else { It::M(ms(&c(), vec![])) });
        }
        m = Some(ms(&c(), its));
    }
    let mut top = vec![Top::M(m.unwrap())];
    if decl >= depth {
        top.push(Top::M(ms(&c(), vec![It::M(ms(&c(), vec![]))])));
    }
    let mut files = vec![file(if np == 0 { None } else { Some(path_with(np, false, &c)) }, top)];
    let (its, _) = items(&files);
    assume_distinct(&its, &files);
    let bad = settle(&mut files);
    let r = parse(&texts(&files));
    emit(outcome(&r));
    if bad.is_empty() {
        cover(0);
        match r {
            Ok(c) => verify(&c, &files, TYPES, 1300),
            Err(_) => check(false, 1390),
        }
    } else {
        cover(bad[0]);
        check(bad.contains(&outcome(&r)), 1391);
    }
}

/// Files with and without packages, in any order. Parameters: order of the files, declarations in the file without
/// a package, letters, files (0: of different packages, 1: one of them contains another, 2: two are of one package).
#[no_mangle]
pub extern "C" fn h_c19_files() {
    let c = || cap(p(2));
    let (a, b, e, x, y) = (c(), c(), c(), c(), c());
    distinct(&[&a, &e]);
    let (p1, p2) = [("p", "q"), ("p", "p.q"), ("p", "p")][p(3) as usize];
    distinct(&[&x, &y]);
    let fx = join(p1, &x);
    let fy = join(p2, &y);
    let f = |t: Ty, n: u64| It::F(fd(t, &format!("f{}", n), n));
    let mut none = vec![
        Top::M(ms(&a, vec![It::M(ms(&b, vec![f(msg_ty(&format!(".{}", fy), &fy), 2)])), f(msg_ty(&format!(".{}", fx), &fx), 1)])),
        Top::E(en(&e, vec![ev("A", 0)])),
        Top::S(Sv { name: "Sa".to_string(), items: vec![rp("R", arg(&format!(".{}", a), &a), sarg(&format!(".{}", fx), &fx))] }),
        Top::Op(Op { name: Path::of("o"), toks: vec![w("1")], val: Constant::Integer(1) }),
    ];
    none.truncate(p(1) as usize);
    let to_e = if p(1) > 1 { enum_ty(&format!(".{}", e), &e) } else { builtin(K::Bool) };
    let mut rest = vec![
        file(None, none),
        file(Some(Path::of(p1)), vec![Top::M(ms(&x, vec![f(to_e, 3), f(msg_ty(&format!(".{}.{}", a, b), &format!("{}.{}", a, b)), 1)]))]),
        file(
            Some(Path::of(p2)),
            vec![
                Top::M(ms(&y, vec![f(msg_ty(&format!(".{}", a), &a), 1)])),
                Top::S(Sv { name: "Sb".to_string(), items: vec![rp("R", arg(&format!(".{}", a), &a), arg(&format!(".{}", fy), &fy))] }),
            ],
        ),
        file(None, vec![]),
    ];
    let mut k = p(0);
    let mut files = vec![];
    while !rest.is_empty() {
        let n = rest.len() as u64;
        files.push(rest.remove((k % n) as usize));
        k /= n;
    }
    let (its, _) = items(&files);
    assume_distinct(&its, &files);
    let c = must(&texts(&files), 1920);
    cover(1);
    verify(&c, &files, NAMES | TYPES | MULT, 1900);
}
