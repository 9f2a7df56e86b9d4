//! Checks that results depend on the arguments alone and not on what was done before.
use crate::ast::*;
use crate::names::*;
use crate::schema::*;
use crate::sym::*;
use crate::text::*;
use crate::wire::*;
use protofish::context::*;
use protofish::decode::*;

/// Bytes of form `f`: any `n` bytes; a field of an integer, string, packed or message type of `recursive()`
/// with any `n` bytes as value; the same cut; a field that is not declared.
fn sample(f: u64, n: usize) -> Vec<u8> {
    let b = bytes(n);
    let mut o = vec![];
    match f {
        0 => {}
        1 => put_tag(&mut o, 2, 0),
        2 => put_tag(&mut o, 1, 0),
        3 => {
            put_tag(&mut o, 4, 2);
            o.push(n as u8);
        }
        4 => {
            put_tag(&mut o, 3, 2);
            o.push(n as u8);
        }
        5 => {
            put_tag(&mut o, 1, 2);
            o.push(n as u8 + 2);
            put_tag(&mut o, 2, 0);
            o.push(u8_() & 0x7f);
        }
        6 => {
            put_tag(&mut o, 4, 2);
            o.push(n as u8 + 1);
        }
        7 => {
            put_tag(&mut o, 5, 2);
            o.push(n as u8 + 2);
            put_tag(&mut o, 1, 0);
            o.push(u8_() & 0x7f);
        }
        _ => {
            put_tag(&mut o, 9, 2);
            o.push(n as u8);
        }
    }
    o.extend_from_slice(&b);
    o
}

/// Decoding and encoding in turns. Parameters: form and length of the first, form and length of the second,
/// message type of the second, whether the other contexts are made after the first messages are decoded.
#[no_mangle]
pub extern "C" fn h_c23_wire() {
    let w = recursive();
    let (a, b) = (sample(p(0), p(1) as usize), sample(p(2), p(3) as usize));
    let j = p(4) as usize;
    let others = || (world(vec![vec![f(1, K::Fixed32), f(2, K::Str)], vec![f(1, K::Bytes)]]), recursive());
    let early = if p(5) == 0 { Some(others()) } else { None };
    let x = w.decode(0, &a);
    let ex = x.encode(&w.ctx);
    let y = w.decode(j, &b);
    let ey = y.encode(&w.ctx);
    emit_msg(&x);
    emit_msg(&y);
    cover(x.fields.len() as u64 * 8 + y.fields.len() as u64);
    // Another context that knows other messages does not mix with this one.
    let (v, u) = early.unwrap_or_else(others);
    let z = v.decode(0, &a);
    let ez = z.encode(&v.ctx);
    let x2 = w.ctx.decode(w.msgs[0], &a);
    check(eq_msg(&x, &x2), 2300);
    check(same(&x2.encode(&w.ctx), &ex), 2301);
    check(same(&x.encode(&w.ctx), &ex), 2302);
    let y2 = w.decode(j, &b);
    check(eq_msg(&y, &y2), 2303);
    check(same(&y2.encode(&w.ctx), &ey), 2304);
    check(eq_msg(&z, &v.decode(0, &a)), 2305);
    check(same(&z.encode(&v.ctx), &ez), 2306);
    // A context made alike gives the same.
    let y3 = u.decode(j, &b);
    check(eq_msg(&y, &y3), 2307);
    check(same(&y3.encode(&u.ctx), &ey), 2308);
    let x3 = u.decode(0, &a);
    check(eq_msg(&x, &x3), 2309);
    check(same(&x3.encode(&u.ctx), &ex), 2310);
    // The context is unchanged.
    check(w.ctx == u.ctx, 2311);
}

/// Values of two kinds, encoded in turns, and what they encode to, decoded in turns.
/// Parameters: kind and length of the first, kind and length of the second, and for each whether it is
/// a single value, packed, or both.
#[no_mangle]
pub extern "C" fn h_c23_kinds() {
    let (k, l) = (KINDS[p(0) as usize], KINDS[p(2) as usize]);
    let fields = |k: K| vec![f(1, k), fm(2, k, if packable(k) { Mu::Packed } else { Mu::Rep })];
    let w = world(vec![fields(k), fields(l)]);
    let value = |i: usize, k: K, n: usize, what: u64| {
        let mut v = vec![];
        if what > 0 && packable(k) {
            v.push((2, any_packed(k, n)));
        }
        if what != 1 {
            v.push((1, any_value(&w, k, n)));
        }
        msg_of(&w, i, v)
    };
    let (x, y) = (value(0, k, p(1) as usize, p(4)), value(1, l, p(3) as usize, p(5)));
    let (ex, ey) = (x.encode(&w.ctx), y.encode(&w.ctx));
    emit_msg(&x);
    emit_msg(&y);
    cover(1);
    let ok = |m: &MessageValue, b: &[u8], code: u64| {
        let mut want = vec![];
        enc_msg(m, &mut want);
        check(same(&want, b), code);
    };
    ok(&y, &ey, 2350);
    ok(&x, &x.encode(&w.ctx), 2351);
    ok(&x, &ex, 2352);
    let (x2, y2) = (w.decode(0, &ex), w.decode(1, &ey));
    check(eq_msg(&x, &x2) && eq_msg(&y, &y2), 2353);
    check(eq_msg(&x, &w.decode(0, &ex)), 2354);
    check(same(&y2.encode(&w.ctx), &ey), 2355);
    check(same(&x2.encode(&w.ctx), &ex), 2356);
}

/// Declarations of shape `s` with symbolic names and numbers.
fn decls(s: u64) -> Vec<File> {
    let d = || {
        let n = u8_();
        assume((n >= 1) & (n <= 9));
        n as u64
    };
    let num = |ty: Ty, name: &str| {
        let v = d();
        Fd { kw: Kw::None, ty, name: name.to_string(), num: v, num_text: unsafe { String::from_utf8_unchecked(vec![v as u8 + b'0']) }, opts: vec![] }
    };
    let un = |x: &str| Ty { path: Path::of(x), want: Want::M(String::new()) };
    match s {
        0 => vec![file(None, vec![Top::M(ms(&cap(3), vec![It::F(num(builtin(K::Int32), "f"))])), Top::E(en(&cap(3), vec![ev("V", 0)]))])],
        1 => vec![file(
            Some(Path::of("p")),
            vec![Top::M(ms("A", vec![It::F(num(un(&cap(3)), "f"))])), Top::M(ms("B", vec![It::M(ms(&cap(3), vec![]))]))],
        )],
        2 => vec![file(None, vec![Top::M(ms("A", vec![It::F(num(un("B"), "f"))])), Top::E(en("B", vec![ev("V", 0)])), Top::M(ms("C", vec![]))])],
        3 => vec![file(
            None,
            vec![
                Top::M(ms("A", vec![It::M(ms("B", vec![])), It::F(num(un("B"), "f"))])),
                Top::M(ms(&cap(3), vec![])),
            ],
        )],
        4 => vec![
            file(Some(Path::of(&cap(3))), vec![Top::M(ms("A", vec![It::F(num(un("B"), "f"))])), Top::M(ms("B", vec![]))]),
            file(Some(Path::of("p")), vec![Top::M(ms("B", vec![]))]),
        ],
        5 => {
            let a = Arg { stream: false, path: Path::of(&cap(3)), full: String::new() };
            vec![file(None, vec![Top::M(ms("A", vec![])), Top::E(en("B", vec![])), Top::S(Sv { name: "S".to_string(), items: vec![rp("R", a.clone(), a)] })])]
        }
        _ => vec![file(None, vec![Top::M(ms(&cap(3), vec![It::O(on("o", vec![OnIt::F(num(builtin(K::Bool), "f"))]))]))])],
    }
}

fn result_is(r: &Result<Context, ParseError>, fs: &[File], dup: bool, bad: &[u64], base: u64) {
    let o = outcome(r);
    if dup {
        check((o == 2) | bad.contains(&o), base + 90);
    } else if bad.is_empty() {
        match r {
            Ok(c) => verify(c, fs, NAMES | TYPES, base),
            Err(_) => check(false, base + 91),
        }
    } else {
        check(bad.contains(&o), base + 92);
    }
}

fn prepare(s: u64) -> (Vec<File>, bool, Vec<u64>) {
    let mut a = decls(s);
    let (its, _) = items(&a);
    let mut dup = false;
    for (i, x) in its.iter().enumerate() {
        for y in &its[..i] {
            dup |= same(x.full.as_bytes(), y.full.as_bytes());
        }
    }
    // References may be ambiguous between the duplicates then.
    assume(!dup | (s == 0) | (s == 3));
    let bad = settle(&mut a);
    (a, dup, bad)
}

/// Parsing in turns: what a set of files gives depends neither on the sets parsed before nor on
/// whether those were in order. Parameters: shapes of the two sets, what is between them
/// (0: nothing, 1: a syntax error, 2: an error in the last of several files).
#[no_mangle]
pub extern "C" fn h_c23_parse() {
    let (a, da, ba) = prepare(p(0));
    let (b, db, bb) = prepare(p(1));
    let (ta, tb) = (texts(&a), texts(&b));
    let r1 = parse(&ta);
    emit(outcome(&r1));
    match p(2) {
        0 => {}
        1 => check(outcome(&parse(&["syntax = \"proto3\"; message A { B f = 1; } message B { }}".to_string()])) == 1, 2380),
        _ => {
            let mut t = tb.clone();
            t.push("syntax = \"proto3\"; package p; message A { .Q.Z f = 1; }".to_string());
            check(outcome(&parse(&t)) != 0, 2381);
        }
    }
    let r2 = parse(&tb);
    emit(outcome(&r2));
    cover(outcome(&r1) * 8 + outcome(&r2));
    let r3 = parse(&ta);
    result_is(&r2, &b, db, &bb, 2400);
    result_is(&r3, &a, da, &ba, 2500);
    result_is(&r1, &a, da, &ba, 2600);
    match (&r1, &r3) {
        (Ok(x), Ok(y)) => check(x == y, 2382),
        (Err(_), Err(_)) => check(outcome(&r1) == outcome(&r3), 2383),
        _ => check(false, 2384),
    }
}

/// Contexts one after the other, each gone (and its memory used again) when the next one is made.
/// Parameters: shapes of the two sets of files.
#[no_mangle]
pub extern "C" fn h_c23_again() {
    let (a, da, ba) = prepare(p(0));
    let (b, db, bb) = prepare(p(1));
    let (ta, tb) = (texts(&a), texts(&b));
    for i in 0..3 {
        let (t, f, d, bad) = if i == 1 { (&tb, &b, db, &bb) } else { (&ta, &a, da, &ba) };
        let r = parse(t);
        cover(outcome(&r));
        result_is(&r, f, d, bad, 2700);
    }
}

/// The same for decoding and encoding. Parameters: kinds of the fields, form of the schemas.
#[no_mangle]
pub extern "C" fn h_c23_worlds() {
    let (a, b) = (kind(p(0)), kind(p(1)));
    for i in 0..3 {
        let k = if i == 1 { b } else { a };
        let w = match p(2) {
            0 => world(vec![vec![f(1, k)], vec![fm(3, K::Msg(0), Mu::Rep)]]),
            1 => world_parsed(vec![vec![f(1, k)], vec![fm(3, K::Msg(0), Mu::Rep)]]),
            // The types change places.
            _ if i == 1 => world_parsed(vec![vec![fm(3, K::Msg(1), Mu::Rep)], vec![f(1, k)]]),
            _ => world_parsed(vec![vec![f(1, k)], vec![fm(3, K::Msg(0), Mu::Rep)]]),
        };
        let (inner, outer) = if p(2) == 2 && i == 1 { (1, 0) } else { (0, 1) };
        let v = msg_of(&w, inner, vec![(1, any_value(&w, k, 1))]);
        let v = msg_of(&w, outer, vec![(3, Value::Message(Box::new(v)))]);
        let e = v.encode(&w.ctx);
        let mut want = vec![];
        enc_msg(&v, &mut want);
        check(same(&e, &want), 2710);
        check(eq_msg(&w.decode(outer, &e), &v), 2711);
    }
    cover(1);
}

/// The same names at other places: three contexts, one after the other, and the same lookups in each.
/// Parameters: order of the declarations and members of the first and third one and of the second one, sort of the declarations
/// (messages; a message, an enum and a service by position; enums; services), whether the contexts are looked at once more.
#[no_mangle]
pub extern "C" fn h_c23_orders() {
    const PERM: [[usize; 3]; 6] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
    const TYPES: [&str; 3] = ["int32", "string", "bool"];
    let (x, y) = (u8_(), u8_());
    assume((x < 3) & (y < 3));
    let (x, y) = (concretize(x as u64) as usize, concretize(y as u64) as usize);
    let (num, val) = (u64_(), u64_() as i64);
    let (top, member) = (["A", "B", "C"], ["a", "b", "c"]);
    for i in 0..3 {
        let o = PERM[if i == 1 { p(1) } else { p(0) } as usize];
        let sort = |at: usize| match p(2) {
            0 => 0,
            1 => at,
            2 => 1,
            _ => 2,
        };
        let mut t = "syntax = \"proto3\"; message X { } message Y { } message Z { }".to_string();
        for at in 0..3 {
            t.push_str(&format!("{} {} {{", ["message", "enum", "service"][sort(at)], top[o[at]]));
            for k in 0..3 {
                let m = member[o[k]];
                t.push_str(&match sort(at) {
                    0 => format!("{} {} = {};", TYPES[k], m, k + 1),
                    1 => format!("{} = {};", m, k),
                    _ => format!("rpc {} ({}) returns (X);", m, ["X", "Y", "Z"][k]),
                });
            }
            t.push('}');
        }
        let c = must(&[t], 2720);
        let at = o.iter().position(|k| *k == x).unwrap();
        let my = o.iter().position(|k| *k == y).unwrap();
        for _ in 0..1 + p(3) {
            let (ty, ms, sv) = (c.get_type(top[x]), c.get_message(top[x]), c.get_service(top[x]));
            check(ty.is_some() == (sort(at) < 2) && ms.is_some() == (sort(at) == 0) && sv.is_some() == (sort(at) == 2), 2721);
            cover(sort(at) as u64);
            if let Some(t) = ty {
                check(t.name() == top[x] && t.full_name() == top[x], 2722);
            }
            if let Some(m) = ms {
                check(m.name == top[x] && c.resolve_message(m.self_ref).name == top[x], 2723);
                let f = m.get_field_by_name(member[y]);
                check(f.map(|f| f.number) == Some(my as u64 + 1), 2724);
                let f = m.get_field(num);
                check(f.is_some() == ((num >= 1) & (num <= 3)), 2725);
                if let Some(f) = f {
                    check(f.number == num && f.name == member[o[(num - 1) as usize]], 2726);
                }
                let v = m.decode(&[my as u8 * 8 + 8, 1], &c);
                check(v.fields.len() == 1 && v.fields[0].number == my as u64 + 1, 2727);
                check(
                    match &v.fields[0].value {
                        Value::Int32(1) => my == 0,
                        Value::Unknown(..) => my == 1,
                        Value::Bool(true) => my == 2,
                        _ => false,
                    },
                    2728,
                );
            }
            if let Some(TypeInfo::Enum(e)) = ty {
                let f = e.get_field_by_value(val);
                check(f.is_some() == ((val >= 0) & (val <= 2)), 2729);
                if let Some(f) = f {
                    check(f.value == val && f.name == member[o[val as usize]], 2730);
                }
            }
            if let Some(s) = sv {
                check(s.name == top[x] && s.rpcs.len() == 3, 2731);
                let r = s.rpc_by_name(member[y]).unwrap();
                check(r.name == member[y] && c.resolve_message(r.input.message).name == ["X", "Y", "Z"][my], 2732);
            }
        }
    }
}

/// Lookups in turns. Parameters: length of the names looked up.
#[no_mangle]
pub extern "C" fn h_c23_lookup() {
    let t = "syntax = \"proto3\"; package p; message A { int32 a = 1; A b = 2; message A { bool a = 2; oneof o { A b = 7; string c = 3; } } } \
             enum E { Z = 0; Y = 1; X = -1; } service S { rpc R (A) returns (A.A); rpc Q (A) returns (A); } service A1 { }";
    let c = must(&[t.to_string()], 2390);
    let full = |s: String| format!("p.{}", s);
    let (x, y) = (class(p(0) as usize, |b| is_ident(b) | (b == b'.')), class(p(0) as usize, |b| is_ident(b) | (b == b'.')));
    let ty = |n: &String| c.get_type(&full(n.clone())).map(|t| (t.full_name().to_string(), matches!(t, TypeInfo::Message(_))));
    let ms = |n: &String| c.get_message(&full(n.clone())).map(|t| t.self_ref);
    let sv = |n: &String| c.get_service(&full(n.clone())).map(|t| t.name.clone());
    let (a, d, e) = (ty(&x), ms(&x), sv(&x));
    let (a2, d2, e2) = (ty(&y), ms(&y), sv(&y));
    check(ty(&x) == a && ms(&x) == d && sv(&x) == e, 2391);
    check(ty(&y) == a2 && ms(&y) == d2 && sv(&y) == e2, 2392);
    for (n, got) in [(&x, &a), (&y, &a2)] {
        match got {
            Some((f, msg)) => check(same(f.as_bytes(), full(n.clone()).as_bytes()) && *msg == (f != "p.E"), 2393),
            None => check(!["A", "E", "A.A"].iter().any(|k| same(k.as_bytes(), n.as_bytes())), 2394),
        }
    }
    for (n, got) in [(&x, &e), (&y, &e2)] {
        check(got.is_some() == ["S", "A1"].iter().any(|k| same(k.as_bytes(), n.as_bytes())), 2395);
    }
    cover(a.is_some() as u64 * 2 + a2.is_some() as u64);
    // Members of two messages.
    let (m, i) = (c.get_message("p.A").unwrap(), c.get_message("p.A.A").unwrap());
    let (k, l) = (u64_(), u64_());
    let f = |m: &MessageInfo, k: u64| m.get_field(k).map(|f| (f.name.clone(), f.number));
    let (fa, fb) = (f(m, k), f(i, l));
    let (fc, fd) = (f(i, k), f(m, l));
    check(f(m, k) == fa && f(i, l) == fb && f(i, k) == fc && f(m, l) == fd, 2396);
    check(fa.is_some() == ((k == 1) | (k == 2)) && fb.is_some() == ((l == 2) | (l == 7) | (l == 3)), 2397);
    check(fd.is_some() == ((l == 1) | (l == 2)) && fc.is_some() == ((k == 2) | (k == 7) | (k == 3)), 2398);
    let g = |m: &MessageInfo, s: &str| m.get_field_by_name(s).map(|f| f.number);
    check(g(m, "a") == Some(1) && g(i, "a") == Some(2) && g(m, "a") == Some(1) && g(i, "c") == Some(3) && g(m, "c").is_none(), 2399);
    let s = c.get_service("p.S").unwrap();
    let t = c.get_service("p.A1").unwrap();
    let q = |n: &String| (s.rpc_by_name(n).map(|r| r.name.clone()), t.rpc_by_name(n).is_some());
    let (qa, qb) = (q(&x), q(&y));
    check(q(&x) == qa && q(&y) == qb && !qa.1 && !qb.1, 2388);
    check(qa.0.is_some() == (same(x.as_bytes(), b"R") | same(x.as_bytes(), b"Q")), 2389);
}
