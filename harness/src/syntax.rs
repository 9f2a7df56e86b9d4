//! Checks of multiplicities, options, separators and names.
use crate::ast::*;
use crate::names::*;
use crate::schema::{same, K, KINDS};
use crate::sym::*;
use crate::text::*;
use protofish::context::*;

fn eq(a: &str, b: &str) -> bool {
    same(a.as_bytes(), b.as_bytes())
}
fn lower(n: usize) -> String {
    class(n, |b| (b >= b'a') & (b <= b'z'))
}
fn op(name: &str, text: &str, val: Constant) -> Op {
    Op { name: Path::of(name), toks: vec![w(text)], val }
}

// ------------------------------------------------------------------ C17: multiplicities

/// The type with number `t`: the 15 scalar types, then an enum, a message and an inner enum.
fn typ(t: u64) -> Ty {
    match t {
        15 => enum_ty("E", "E"),
        16 => msg_ty("N", "N"),
        17 => enum_ty("I", "M.I"),
        18 => msg_ty(".N", "N"),
        t => builtin(KINDS[t as usize]),
    }
}

fn bools(b: bool) -> (&'static str, Constant) {
    if b {
        ("true", Constant::Bool(true))
    } else {
        ("false", Constant::Bool(false))
    }
}

/// Some value for an option, and its text.
fn some_value() -> (String, Constant) {
    match choice(6) {
        0 => ("true".to_string(), Constant::Bool(true)),
        1 => ("false".to_string(), Constant::Bool(false)),
        2 => ("1".to_string(), Constant::Integer(1)),
        3 => ("packed".to_string(), Constant::Ident("packed".to_string())),
        4 => ("\"true\"".to_string(), Constant::String("true".into())),
        _ => ("0.5".to_string(), Constant::Float(0.5)),
    }
}

/// Parameters: keyword (0: none, 1: optional, 2: repeated, 3: in a oneof), type, options.
#[no_mangle]
pub extern "C" fn h_c17() {
    let mut f = fd(typ(p(1)), "f", 1);
    f.kw = [Kw::None, Kw::Optional, Kw::Repeated, Kw::None][p(0) as usize];
    let val = |n: &str| {
        let (t, v) = some_value();
        op(n, &t, v)
    };
    f.opts = match p(2) {
        0 => vec![],
        1 => vec![val(&lower(6))],
        2 => vec![op("a", "1", Constant::Integer(1)), val("packed"), op("b", "true", Constant::Bool(true))],
        3 => vec![val("(packed)")],
        4 => vec![val("packed.a")],
        5 => vec![val(&format!("packed{}", class(1, is_ident)))],
        6 => vec![op("unpacked", "true", Constant::Bool(true)), val("packed")],
        _ => vec![val("Packed"), op("(a.packed)", "false", Constant::Bool(false)), val("packe")],
    };
    let item = if p(0) == 3 { It::O(on("o", vec![OnIt::F(f)])) } else { It::F(f) };
    let files = [file(
        None,
        vec![
            Top::M(ms("M", vec![item, It::F(fd(builtin(K::Int32), "g", 2)), It::E(en("I", vec![ev("A", 0)]))])),
            Top::E(en("E", vec![ev("A", 0)])),
            Top::M(ms("N", vec![])),
        ],
    )];
    let c = must(&texts(&files), 1700);
    cover(1);
    verify(&c, &files, MULT | TYPES, 1700);
}

/// The type is any word. Parameters: keyword, length.
#[no_mangle]
pub extern "C" fn h_c17_word() {
    let t = class(p(1) as usize, |b| ((b >= b'a') & (b <= b'z')) | ((b >= b'0') & (b <= b'9')));
    assume(!is_digit(t.as_bytes()[0]));
    // A statement of another kind.
    for k in ["option", "optional", "repeated", "group", "enum", "message", "oneof", "map", "reserved", "extend", "extensions", "required"] {
        assume(!eq(&t, k));
    }
    let kw = ["", "optional ", "repeated "][p(0) as usize];
    let r = parse(&[format!("syntax=\"proto3\";message M{{{}{} f=1;}}", kw, t)]);
    emit(outcome(&r));
    match KINDS[..15].iter().find(|k| eq(k.word(), &t)) {
        Some(k) => {
            let c = match r {
                Ok(c) => c,
                Err(_) => {
                    check(false, 1780);
                    return;
                }
            };
            cover(1);
            let mut f = fd(builtin(*k), "f", 1);
            f.kw = [Kw::None, Kw::Optional, Kw::Repeated][p(0) as usize];
            let files = [file(None, vec![Top::M(ms("M", vec![It::F(f)]))])];
            verify(&c, &files, MULT | TYPES, 1700);
        }
        None => {
            cover(2);
            match r {
                Err(ParseError::TypeNotFound { name, .. }) => check(eq(&name, &t), 1781),
                _ => check(false, 1782),
            }
        }
    }
}

// ------------------------------------------------------------------ C18: options

fn opt_name(form: u64) -> Path {
    let l = || ident(1);
    match form {
        0 => Path::of(&ident(2)),
        1 => Path::of(&format!("({})", l())),
        2 => Path::of(&format!("({}.{})", l(), l())),
        3 => Path::of(&format!("{}.{}", l(), l())),
        _ => Path::of(&format!("({}.b).{}.{}", l(), l(), l())),
    }
}

fn opt_value(form: u64) -> (Vec<Tok>, Constant) {
    match form {
        0 => {
            let d = class(1, is_octal);
            let v = d.as_bytes()[0] - b'0';
            (vec![w(format!("1{}", d))], Constant::Integer(10 + v as i64))
        }
        1 => {
            let d = class(1, is_octal);
            let v = d.as_bytes()[0] - b'0';
            (vec![pt("-"), w(format!("0{}", d))], Constant::Integer(-(v as i64)))
        }
        2 => {
            let s = class(2, |b| (b >= b' ') & (b != b'"') & (b != b'\\'));
            (vec![w(format!("\"{}\"", s))], Constant::String(s.into_bytes().into()))
        }
        3 => {
            let s = ident(2);
            (vec![w(s.clone())], Constant::Ident(s))
        }
        4 => {
            let (a, b) = (ident(1), ident(1));
            let s = format!("{}.{}", a, b);
            (vec![w(a), pt("."), w(b)], Constant::Ident(s))
        }
        5 => {
            let (t, v) = bools(choice(2) == 1);
            (vec![w(t)], v)
        }
        6 => (vec![w("2.5e1")], Constant::Float(25.0)),
        7 => (vec![pt("-"), w("inf")], Constant::Float(f64::NEG_INFINITY)),
        _ => (vec![w("'\\x41\\101\\n\"'")], Constant::String("AA\n\"".into())),
    }
}

fn opt(name: u64, value: u64) -> Op {
    let (toks, val) = opt_value(value);
    Op { name: opt_name(name), toks, val }
}

/// Parameters: position, first option (name form, value form), second option (name form, value form), more.
#[no_mangle]
pub extern "C" fn h_c18() {
    let a = opt(p(1), p(2));
    let b = opt(p(3), p(4));
    let mut ops = vec![a.clone(), b.clone()];
    match p(5) {
        0 => {}
        1 => ops.push(Op { name: a.name.clone(), ..b.clone() }),
        2 => ops = vec![a.clone()],
        _ => ops.extend((0..6).map(|i| op(&format!("x{}", 9 - i), &i.to_string(), Constant::Integer(i)))),
    }
    let raw = |s: &str| vec![pt(s)];
    let f = |n: &str, i: u64, o: Vec<Op>| Fd { opts: o, ..fd(builtin(K::Int32), n, i) };
    let none = op("u", "0", Constant::Integer(0));
    let items = match p(0) {
        // A field between other fields; options of the message are not options of the fields.
        0 => vec![Top::M(ms(
            "M",
            vec![It::F(f("g", 2, vec![])), It::Op(none.clone()), It::F(f("f", 1, ops)), It::F(f("h", 3, vec![none.clone()]))],
        ))],
        1 => vec![Top::M(ms(
            "M",
            vec![
                It::F(f("e", 4, vec![none.clone()])),
                It::O(on("o", vec![OnIt::F(f("g", 2, vec![])), OnIt::Op(none.clone()), OnIt::F(f("f", 1, ops)), OnIt::F(f("h", 3, vec![]))])),
            ],
        ))],
        // An enum value.
        2 => {
            let v = |n: &str, i: i64, o: Vec<Op>| EnIt::V(Ev { name: n.to_string(), val: i, toks: vec![w(i.to_string())], opts: o });
            vec![Top::E(en("E", vec![v("Z", 0, vec![]), EnIt::Op(none.clone()), v("F", 2, ops), v("Y", 1, vec![none.clone()])]))]
        }
        // A oneof, with the options around its fields.
        3 => {
            let mut its = vec![];
            for (i, o) in ops.into_iter().enumerate() {
                its.push(OnIt::Op(o));
                if i == 0 {
                    its.push(OnIt::F(f("f", 1, vec![none.clone()])));
                    its.push(OnIt::Raw(raw(";")));
                }
            }
            vec![Top::M(ms("M", vec![It::O(on("p", vec![OnIt::F(f("g", 2, vec![]))])), It::O(on("o", its)), It::Op(none.clone())]))]
        }
        // A service, with the options around its operations.
        4 => {
            let mut its = vec![];
            for (i, o) in ops.into_iter().enumerate() {
                its.push(SvIt::Op(o));
                if i == 0 {
                    its.push(rp("R", arg("M", "M"), sarg("M", "M")));
                    its.push(SvIt::Raw(raw(";")));
                }
            }
            vec![
                Top::Op(none.clone()),
                Top::S(Sv { name: "S".to_string(), items: its }),
                Top::M(ms("M", vec![])),
                Top::S(Sv { name: "T".to_string(), items: vec![SvIt::Op(none.clone())] }),
            ]
        }
        // Fields of all multiplicities and types, in nested messages, too.
        6 | 7 | 8 | 9 => {
            let x = Fd { opts: ops, ..fd(builtin([K::Int32, K::Str, K::Double, K::Int32][p(0) as usize - 6]), "f", 1) };
            let x = Fd { kw: [Kw::Optional, Kw::Repeated, Kw::Repeated, Kw::None][p(0) as usize - 6], ..x };
            let x = if p(0) == 9 { Fd { ty: msg_ty("I", "M.I"), ..x } } else { x };
            vec![Top::M(ms("M", vec![It::M(ms("I", vec![It::F(Fd { opts: vec![none.clone()], ..x.clone() }), It::M(ms("J", vec![It::F(x.clone())]))])), It::F(x)]))]
        }
        // An enum value in a nested enum, negative and not the first.
        10 => {
            let v = |n: &str, i: i64, o: Vec<Op>| EnIt::V(Ev { name: n.to_string(), val: i, toks: if i < 0 { vec![pt("-"), w((-i).to_string())] } else { vec![w(i.to_string())] }, opts: o });
            vec![Top::M(ms("M", vec![It::E(en("E", vec![v("Z", 0, ops.clone()), v("F", -2, ops), v("Y", 70000, vec![none.clone()])])), It::F(f("f", 1, vec![]))]))]
        }
        // Operations with streams.
        11 | 12 | 13 => {
            let a = |s: bool| if s { sarg("M", "M") } else { arg("M", "M") };
            let r = |n: &str, o: Vec<Op>| SvIt::R(Rp { name: n.to_string(), input: a(p(0) != 12), output: a(p(0) != 11), body: true, opts: o });
            vec![Top::S(Sv { name: "S".to_string(), items: vec![r("Q", vec![none.clone()]), r("R", ops)] }), Top::M(ms("M", vec![]))]
        }
        // An operation among others.
        _ => {
            let r = |n: &str, o: Vec<Op>, body: bool| {
                SvIt::R(Rp { name: n.to_string(), input: sarg("M", "M"), output: arg("M", "M"), body, opts: o })
            };
            vec![
                Top::S(Sv {
                    name: "S".to_string(),
                    items: vec![r("Q", vec![], true), r("R", ops, true), r("P", vec![], false), SvIt::Op(none.clone()), r("O", vec![none.clone()], true)],
                }),
                Top::M(ms("M", vec![])),
            ]
        }
    };
    let files = [file(None, items)];
    let c = must(&texts(&files), 1800);
    cover(1);
    verify(&c, &files, OPTS, 1800);
}

// ------------------------------------------------------------------ C20: separators

/// Whether the text is white space and complete comments (the last comment may end with the file).
fn is_sep(b: &[u8], eof: bool) -> bool {
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b'/' => {
                i += 1;
                if i == b.len() {
                    return false;
                }
                if b[i] == b'/' {
                    i += 1;
                    loop {
                        if i == b.len() {
                            return eof;
                        }
                        i += 1;
                        if b[i - 1] == b'\n' {
                            break;
                        }
                    }
                } else if b[i] == b'*' {
                    i += 1;
                    loop {
                        if i + 1 >= b.len() {
                            return false;
                        }
                        if b[i] == b'*' && b[i + 1] == b'/' {
                            i += 2;
                            break;
                        }
                        i += 1;
                    }
                } else {
                    return false;
                }
            }
            _ => return false,
        }
    }
    true
}

pub fn wide(t: u64) -> Vec<File> {
    let o = |n: &str, t: &str, v: Constant| op(n, t, v);
    match t {
        0 => {
            let mut f = fd(msg_ty("N.I", "p.q.M.N.I"), "f", 1);
            f.kw = Kw::Repeated;
            f.opts = vec![
                o("a", "\"a//b/*c*/ d\"", Constant::String("a//b/*c*/ d".into())),
                Op { name: Path::of("(x.y).z"), toks: vec![pt("-"), w("5")], val: Constant::Integer(-5) },
            ];
            let mut g = fd(msg_ty(".p.q.M", "p.q.M"), "g", 2);
            g.kw = Kw::Optional;
            vec![file(
                Some(Path::of("p.q")),
                vec![Top::M(ms(
                    "M",
                    vec![
                        It::F(f),
                        It::M(ms("N", vec![It::M(ms("I", vec![]))])),
                        It::F(g),
                        It::O(on("o", vec![OnIt::F(fd(builtin(K::Str), "s", 3)), OnIt::Op(o("k", "1.5", Constant::Float(1.5)))])),
                    ],
                ))],
            )]
        }
        1 => vec![file(
            None,
            vec![
                Top::Import(vec![w("public"), w("\"x.proto\"")]),
                Top::Op(o("java", "x", Constant::Ident("x".to_string()))),
                Top::M(ms("M", vec![It::Raw(vec![w("reserved"), w("2"), w("to"), w("4"), pt(","), w("9"), w("to"), w("max"), pt(";"), pt(";")])])),
                Top::S(Sv {
                    name: "S".to_string(),
                    items: vec![
                        SvIt::Op(Op { name: Path::of("v"), toks: vec![w("a"), pt("."), w("b")], val: Constant::Ident("a.b".to_string()) }),
                        rp("R", arg("M", "M"), sarg(".M", "M")),
                        SvIt::R(Rp { name: "Q".to_string(), input: sarg("M", "M"), output: arg("M", "M"), body: true, opts: vec![o("t", "true", Constant::Bool(true))] }),
                    ],
                }),
                Top::Raw(vec![pt(";")]),
            ],
        )],
        _ => vec![file(
            None,
            vec![
                Top::E(en(
                    "E",
                    vec![
                        EnIt::V(Ev { name: "A".to_string(), val: -1, toks: vec![pt("-"), w("1")], opts: vec![o("a", "0x1F", Constant::Integer(31)), o("b", "'//'", Constant::String("//".into()))] }),
                        EnIt::Raw(vec![w("reserved"), w("\"Q\""), pt(","), w("'R'"), pt(";")]),
                        EnIt::Op(Op { name: Path::of("c"), toks: vec![pt("-"), w("inf")], val: Constant::Float(f64::NEG_INFINITY) }),
                        EnIt::Raw(vec![pt(";")]),
                        ev("B", 7),
                    ],
                )),
                Top::M(ms("M", vec![It::Op(o("d", "017", Constant::Integer(15))), It::E(en("I", vec![ev("Z", 0)])), It::F(fd(enum_ty("I", "M.I"), "i", 12))])),
            ],
        )],
    }
}

/// A separator of `n` symbolic bytes in one gap. Parameters: text, gap, length, alphabet (0: ASCII, 1: any), gaps.
#[no_mangle]
pub extern "C" fn h_c20() {
    let files = wide(p(0));
    let toks = tokens(&files[0]);
    let n = p(2) as usize;
    let gap = p(1) as usize;
    let all = p(4) != 0;
    // The same text with single spaces everywhere.
    let mut t = String::new();
    for x in &toks {
        t.push_str(&x.s);
        t.push(' ');
    }
    let d = must(&[t], 2001);
    verify(&d, &files, NAMES | TYPES | MULT | OPTS, 2010);
    let sep = if p(3) == 0 { ascii(n) } else { utf8(n) };
    assume(is_sep(sep.as_bytes(), gap == toks.len() && !all));
    let mut s = String::new();
    for (i, t) in toks.iter().enumerate() {
        if i == gap || all {
            s.push_str(&sep);
        } else if i > 0 && toks[i - 1].word && t.word {
            s.push(' ');
        }
        s.push_str(&t.s);
    }
    if gap >= toks.len() {
        s.push_str(&sep);
    }
    let c = must(&[s], 2000);
    cover(1);
    check(c == d, 2002);
}

// ------------------------------------------------------------------ C11: any token anywhere

const MORE: &[&str] = &[
    ";", "{", "}", "(", ")", "[", "]", "<", ">", ",", ".", "=", "-", "+", "\"", "'", "\\", "/", "//", "/*", "*/", "$", "\u{feff}", "\u{e9}",
    "0", "1", "0x1F", "07", "08", "18446744073709551616", "1.5", ".5", "1e400", "-0x8000000000000000", "\"a\"", "'\\377'", "'\\x9g'", "M", "a.b", ".M",
    "option o = 1;", "int32 y = 55;", "repeated M z = 0x38;", "oneof oo { int32 w = 57; }", "oneof e {}", "map<int32, M> mm = 58;", "message X {}",
    "enum Y { V = 0; }", "enum W {}", "service U {}", "rpc P(M) returns (M);", "import 'x';", "package k;", "syntax = 'proto3';", "reserved 1, 2 to max;",
    "reserved 'a', \"b\";", "reserved c;", "extensions 1 to 2;", "extend M { int32 v = 59; }", "[a = 1, (b).c = 'd']", "[packed = maybe]", "returns (stream M)",
];

/// Parameters: text, what is done with the token (0: before one, 1: instead of one, 2: instead of two, 3: at both ends of one).
#[no_mangle]
pub extern "C" fn h_c11_token() {
    let files = wide(p(0));
    let toks = tokens(&files[0]);
    let new = choice((WORDS.len() + MORE.len()) as u64) as usize;
    let new = if new < WORDS.len() { WORDS[new] } else { MORE[new - WORDS.len()] };
    let at = choice(toks.len() as u64 + 1) as usize;
    let mut s = String::new();
    let mut i = 0;
    while i <= toks.len() {
        if i == at {
            s.push_str(new);
            s.push(' ');
            match p(1) {
                1 => i += 1,
                2 => i += 2,
                3 if i < toks.len() => {
                    s.push_str(&toks[i].s);
                    s.push_str(new);
                    i += 1;
                }
                _ => {}
            }
        }
        if i < toks.len() {
            s.push_str(&toks[i].s);
            s.push(' ');
        }
        i += 1;
    }
    let r = parse(&[s]);
    let o = outcome(&r);
    emit(o);
    cover(o);
}

// ------------------------------------------------------------------ C21: names

pub const WORDS: &[&str] = &[
    "syntax", "import", "weak", "public", "package", "option", "message", "enum", "service", "rpc", "returns", "stream", "oneof",
    "map", "reserved", "to", "max", "repeated", "optional", "true", "false", "inf", "nan", "extend", "extensions", "group",
    "required", "default", "double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64",
    "sfixed32", "sfixed64", "bool", "string", "bytes",
];

/// A file that has the name in one position.
fn named(pos: u64, n: &str) -> Vec<File> {
    let int = |name: &str| fd(builtin(K::Int32), name, 1);
    let field = |kw: Kw, path: String, full: &str| {
        let mut f = fd(msg_ty(&path, full), "f", 1);
        f.kw = kw;
        It::F(f)
    };
    let one = |t: Top| vec![file(None, vec![t])];
    match pos {
        0 => one(Top::M(ms(n, vec![]))),
        1 => one(Top::M(ms("M", vec![It::M(ms(n, vec![])), It::F(int("f"))]))),
        2 => one(Top::E(en(n, vec![ev("A", 0)]))),
        3 => one(Top::M(ms("M", vec![It::E(en(n, vec![ev("A", 0)])), It::F(int("f"))]))),
        4 => one(Top::M(ms("M", vec![It::F(int(n))]))),
        5 => one(Top::M(ms("M", vec![It::O(on(n, vec![OnIt::F(int("f"))]))]))),
        6 => one(Top::M(ms("M", vec![It::O(on("o", vec![OnIt::F(int(n))]))]))),
        7 => one(Top::S(Sv { name: n.to_string(), items: vec![] })),
        8 => vec![file(None, vec![Top::M(ms("M", vec![])), Top::S(Sv { name: "S".to_string(), items: vec![rp(n, arg("M", "M"), arg("M", "M"))] })])],
        9 => vec![file(Some(Path::of(n)), vec![Top::M(ms("M", vec![]))])],
        10 => vec![file(Some(Path::of(&format!("a.{}", n))), vec![Top::M(ms("M", vec![]))])],
        11 => one(Top::M(ms("M", vec![It::F(Fd { opts: vec![op(n, "1", Constant::Integer(1))], ..int("f") })]))),
        12 => one(Top::M(ms(
            "M",
            vec![It::F(Fd { opts: vec![op(&format!("({}.a).{}", n, n), "1", Constant::Integer(1))], ..int("f") })],
        ))),
        // Qualified references: the whole word is a part of a name.
        13 => vec![file(None, vec![Top::M(ms("M", vec![field(Kw::None, format!(".{}.I", n), &format!("{}.I", n))])), Top::M(ms(n, vec![It::M(ms("I", vec![]))]))])],
        14 => vec![file(None, vec![Top::M(ms("M", vec![It::M(ms("N", vec![It::M(ms(n, vec![]))])), field(Kw::Optional, format!("N.{}", n), &format!("M.N.{}", n))]))])],
        15 => vec![file(
            None,
            vec![
                Top::M(ms(n, vec![])),
                Top::S(Sv { name: "S".to_string(), items: vec![rp("R", sarg(&format!(".{}", n), n), sarg(&format!(".{}", n), n))] }),
            ],
        )],
        // From here on, the exact word can be something else.
        16 => one(Top::E(en("E", vec![ev("A", 0), ev(n, 1)]))),
        17 => vec![file(None, vec![Top::M(ms(n, vec![])), Top::M(ms("M", vec![field(Kw::None, n.to_string(), n), It::F(fd(builtin(K::Bool), "g", 2))]))])],
        18 => vec![file(None, vec![Top::M(ms(n, vec![])), Top::M(ms("M", vec![field(Kw::Repeated, n.to_string(), n)]))])],
        19 => vec![file(None, vec![Top::M(ms(n, vec![])), Top::M(ms("M", vec![field(Kw::Optional, n.to_string(), n)]))])],
        20 => vec![file(None, vec![Top::M(ms(n, vec![])), Top::M(ms("M", vec![It::O(on("o", vec![OnIt::F(fd(msg_ty(n, n), "f", 1))]))]))])],
        21 => vec![file(
            None,
            vec![Top::M(ms(n, vec![])), Top::S(Sv { name: "S".to_string(), items: vec![rp("R", arg(n, n), arg(n, n)), rp("Q", sarg(n, n), sarg(n, n))] })],
        )],
        22 => one(Top::M(ms(
            "M",
            vec![It::F(Fd { opts: vec![op("a", n, Constant::Ident(n.to_string()))], ..int("f") })],
        ))),
        // Absolute and qualified references to the exact word.
        24 => vec![file(None, vec![Top::M(ms(n, vec![])), Top::M(ms("M", vec![field(Kw::Repeated, format!(".{}", n), n)]))])],
        25 => vec![file(
            None,
            vec![Top::M(ms(
                "M",
                vec![
                    It::F(Fd { kw: Kw::Optional, ..fd(enum_ty(&format!(".M.{}", n), &format!("M.{}", n)), "f", 1) }),
                    It::E(en(n, vec![ev("A", 0)])),
                    It::F(Fd { kw: Kw::Repeated, ..fd(enum_ty(&format!("M.{}", n), &format!("M.{}", n)), "g", 2) }),
                ],
            ))],
        )],
        26 => vec![file(
            Some(Path::of("p.q")),
            vec![Top::M(ms(
                "M",
                vec![
                    It::M(ms(n, vec![])),
                    It::O(on("o", vec![OnIt::F(fd(msg_ty(&format!("p.q.M.{}", n), &format!("p.q.M.{}", n)), "h", 2))])),
                    field(Kw::None, format!("q.M.{}", n), &format!("p.q.M.{}", n)),
                ],
            ))],
        )],
        // Every position at once.
        _ => {
            let q = format!("{}.{}", n, n);
            vec![file(
                Some(Path::of(n)),
                vec![Top::M(ms(
                    n,
                    vec![
                        It::F(Fd { kw: Kw::Repeated, ..fd(msg_ty(&format!(".{}", q), &q), n, 1) }),
                        It::O(on(n, vec![OnIt::F(fd(builtin(K::Bool), "f", 2))])),
                    ],
                ))],
            )]
        }
    }
}

const EXACT: u64 = 16;

/// Words of the language, and words that begin with them. Parameters: position, characters after the word.
#[no_mangle]
pub extern "C" fn h_c21() {
    let k = choice(WORDS.len() as u64) as usize;
    let n = p(1) as usize;
    let mut s = WORDS[k].to_string();
    s.push_str(&class(n, is_ident));
    let pos = p(0);
    // A longer word of the language.
    if pos >= EXACT && pos < 23 {
        for x in WORDS {
            assume(!eq(x, &s));
        }
    }
    let files = named(pos, &s);
    let c = must(&texts(&files), 2100);
    cover(1);
    verify(&c, &files, NAMES | TYPES | MULT | OPTS, 2100);
}

/// Any identifier. Parameters: position, length.
#[no_mangle]
pub extern "C" fn h_c21_any() {
    let s = ident(p(1) as usize);
    if p(0) >= EXACT && p(0) < 23 {
        for x in WORDS {
            assume(!eq(x, &s));
        }
    }
    // The names of the templates.
    for x in ["M", "N", "S", "E", "A", "I", "R", "Q"] {
        assume(!eq(x, &s));
    }
    if p(0) < 2 || p(0) == 4 || p(0) == 6 || p(0) == 23 {
        assume(!eq("f", &s) & !eq("g", &s));
    }
    let files = named(p(0), &s);
    let c = must(&texts(&files), 2150);
    cover(1);
    verify(&c, &files, NAMES | TYPES | MULT | OPTS, 2100);
}

/// Long names. Parameters: position, length, free characters at the end.
#[no_mangle]
pub extern "C" fn h_c21_long() {
    let (len, k) = (p(1) as usize, p(2) as usize);
    let mut s: String = (0..len - k).map(|i| (b'a' + (i * 7 % 26) as u8) as char).collect();
    s.push_str(&class(k, is_ident));
    let files = named(p(0), &s);
    let c = must(&texts(&files), 2150);
    cover(1);
    verify(&c, &files, NAMES | TYPES | MULT | OPTS, 2100);
    // A name that differs in the last character only, or that is shorter, is another name.
    let mut t = s[..len - 1].to_string();
    t.push_str(&class(choice(3) as usize, is_ident));
    let want = eq(&s, &t);
    let m = |n: &str| c.get_message(n).is_some();
    let got = match p(0) {
        0 | 17..=20 => m(&t),
        1 => m(&format!("M.{}", t)),
        2 => c.get_type(&t).is_some(),
        3 => c.get_type(&format!("M.{}", t)).is_some(),
        4 | 6 => c.get_message("M").unwrap().get_field_by_name(&t).is_some(),
        7 => c.get_service(&t).is_some(),
        8 => c.get_service("S").unwrap().rpc_by_name(&t).is_some(),
        9 => m(&format!("{}.M", t)),
        10 => m(&format!("a.{}.M", t)),
        13 => m(&format!("{}.I", t)),
        14 => m(&format!("M.N.{}", t)),
        _ => want,
    };
    check(got == want, 2190);
}
