//! Checks of building contexts through the insertion functions.
use crate::ast::*;
use crate::names::*;
use crate::schema::{same, K};
use crate::sym::*;
use crate::text::*;
use protofish::context::*;

fn eq(a: &str, b: &str) -> bool {
    same(a.as_bytes(), b.as_bytes())
}

#[derive(Clone)]
enum Op1 {
    Pkg(Option<String>),
    Msg(String, Par),
    En(String, Par),
}
#[derive(Clone, Copy)]
enum Par {
    P(usize),
    T(usize),
}

struct Ty1 {
    name: String,
    full: String,
    msg: bool,
    parent: Par,
    r: TypeRef,
}

/// What the context has to contain.
#[derive(Default)]
struct Model {
    pkgs: Vec<(Option<String>, PackageRef)>,
    types: Vec<Ty1>,
}

impl Model {
    fn parent(&self, p: Par) -> TypeParent {
        match p {
            Par::P(i) => TypeParent::Package(self.pkgs[i].1),
            Par::T(i) => match self.types[i].r {
                TypeRef::Message(r) => TypeParent::Message(r),
                TypeRef::Enum(_) => unreachable!(),
            },
        }
    }
    fn full(&self, name: &str, p: Par) -> String {
        match p {
            Par::P(i) => join(self.pkgs[i].0.as_deref().unwrap_or(""), name),
            Par::T(i) => join(&self.types[i].full, name),
        }
    }
}

fn apply(c: &mut Context, m: &mut Model, op: &Op1) -> bool {
    match op {
        Op1::Pkg(name) => {
            let old = m.pkgs.iter().position(|p| match (&p.0, name) {
                (None, None) => true,
                (Some(a), Some(b)) => eq(a, b),
                _ => false,
            });
            match (c.insert_package(Package::new(name.clone())), old) {
                (Ok(r), None) => {
                    cover(1);
                    check(!m.pkgs.iter().any(|p| p.1 == r), 1600);
                    m.pkgs.push((name.clone(), r));
                    true
                }
                (Err(r), Some(i)) => {
                    cover(2);
                    check(r == m.pkgs[i].1, 1601);
                    false
                }
                _ => {
                    check(false, 1602);
                    false
                }
            }
        }
        Op1::Msg(name, p) | Op1::En(name, p) => {
            let full = m.full(name, *p);
            let parent = m.parent(*p);
            let msg = matches!(op, Op1::Msg(..));
            let old = m.types.iter().position(|t| eq(&t.full, &full));
            let r = if msg {
                c.insert_message(MessageInfo::new(name.clone(), parent)).map(TypeRef::Message)
            } else {
                c.insert_enum(EnumInfo::new(name.clone(), parent)).map(TypeRef::Enum)
            };
            match (r, old) {
                (Ok(r), None) => {
                    cover(3);
                    check(!m.types.iter().any(|t| t.r == r), 1603);
                    m.types.push(Ty1 { name: name.clone(), full, msg, parent: *p, r });
                    true
                }
                (Err(InsertError::TypeExists { original }), Some(i)) => {
                    cover(4);
                    check(original == m.types[i].r, 1604);
                    false
                }
                _ => {
                    check(false, 1605);
                    false
                }
            }
        }
    }
}

fn compare(c: &Context, m: &Model) {
    for p in &m.pkgs {
        let _ = c.resolve_package(p.1);
    }
    for (i, t) in m.types.iter().enumerate() {
        let got = match c.get_type(&t.full) {
            Some(g) => g,
            None => {
                check(false, 1610);
                return;
            }
        };
        check(got.name() == t.name && got.full_name() == t.full && got.parent() == m.parent(t.parent), 1611);
        check(c.get_message(&t.full).is_some() == t.msg, 1612);
        match (t.r, got) {
            (TypeRef::Message(r), TypeInfo::Message(x)) => {
                check(x.self_ref == r && std::ptr::eq(c.resolve_message(r), x), 1613);
                let inner: Vec<TypeRef> =
                    m.types.iter().filter(|u| matches!(u.parent, Par::T(j) if j == i)).map(|u| u.r).collect();
                check(x.inner_types == inner, 1614);
            }
            (TypeRef::Enum(r), TypeInfo::Enum(x)) => check(x.self_ref == r && std::ptr::eq(c.resolve_enum(r), x), 1615),
            _ => check(false, 1616),
        }
    }
}

/// Any sequence of insertions of packages, messages and enums. Parameters: length, letters, packages at the start.
#[no_mangle]
pub extern "C" fn h_c16_ctx() {
    let (mut c, mut m) = (Context::new(), Model::default());
    let mut done = vec![];
    for i in 0..p(2) {
        let op = Op1::Pkg(if i == 0 { None } else { Some("A".to_string()) });
        apply(&mut c, &mut m, &op);
        done.push(op);
    }
    for _ in 0..p(0) {
        let mut parents: Vec<Par> = (0..m.pkgs.len()).map(Par::P).collect();
        parents.extend((0..m.types.len()).filter(|i| m.types[*i].msg).map(Par::T));
        let np = parents.len() as u64;
        let k = choice(2 + 2 * np);
        let op = match k {
            0 => Op1::Pkg(None),
            1 => Op1::Pkg(Some(cap(p(1)))),
            k if k % 2 == 0 => Op1::Msg(cap(p(1)), parents[(k / 2 - 1) as usize]),
            k => Op1::En(cap(p(1)), parents[(k / 2 - 1) as usize]),
        };
        if apply(&mut c, &mut m, &op) {
            done.push(op);
        }
        compare(&c, &m);
    }
    // What failed left no trace.
    let (mut c2, mut m2) = (Context::new(), Model::default());
    for op in &done {
        check(apply(&mut c2, &mut m2, op), 1620);
    }
    check(c == c2, 1621);
    let probe = cap(p(1));
    check(c.get_type(&probe).is_some() == m.types.iter().any(|t| eq(&t.full, &probe)), 1622);
}

// ------------------------------------------------------------------ members of messages

#[derive(Clone)]
enum Op2 {
    Field(u64, String, Option<usize>),
    Oneof(String, Vec<u64>),
}

#[derive(Default)]
struct MMod {
    fields: Vec<(u64, String, Option<usize>)>,
    oneofs: Vec<(String, Vec<u64>)>,
}

/// References to oneofs, by their position.
fn oneof_refs(n: usize, parent: TypeParent) -> Vec<OneofRef> {
    let mut x = MessageInfo::new("X".to_string(), parent);
    (0..n).map(|i| x.add_oneof(Oneof::new(format!("o{}", i))).ok().unwrap()).collect()
}

fn apply2(x: &mut MessageInfo, m: &mut MMod, op: &Op2, refs: &[OneofRef]) -> bool {
    match op {
        Op2::Field(n, name, o) => {
            let mut f = MessageField::new(name.clone(), *n, ValueType::Int32);
            f.oneof = o.map(|i| refs[i]);
            let num = m.fields.iter().any(|f| f.0 == *n);
            let nam = m.fields.iter().any(|f| eq(&f.1, name));
            let miss = o.map_or(false, |i| i >= m.oneofs.len());
            match x.add_field(f) {
                Ok(()) => {
                    cover(1);
                    check(!num & !nam & !miss, 1630);
                    m.fields.push((*n, name.clone(), *o));
                    if let Some(i) = o {
                        m.oneofs[*i].1.push(*n);
                    }
                    true
                }
                Err(e) => {
                    match e {
                        MemberInsertError::NumberConflict => {
                            cover(2);
                            check(num, 1631)
                        }
                        MemberInsertError::NameConflict => {
                            cover(3);
                            check(nam, 1632)
                        }
                        MemberInsertError::MissingOneof => {
                            cover(4);
                            check(miss, 1633)
                        }
                        _ => check(false, 1634),
                    }
                    false
                }
            }
        }
        Op2::Oneof(name, fs) => {
            let mut o = Oneof::new(name.clone());
            o.fields = fs.clone();
            let nam = m.oneofs.iter().any(|o| eq(&o.0, name));
            let find = |n: u64| m.fields.iter().position(|f| f.0 == n);
            let taken = |n: u64| find(n).map_or(false, |i| m.fields[i].2.is_some());
            match x.add_oneof(o) {
                Ok(r) => {
                    cover(5);
                    check(!nam && fs.iter().all(|n| find(*n).is_some() && !taken(*n)), 1640);
                    check(r == refs[m.oneofs.len()], 1641);
                    let i = m.oneofs.len();
                    let ks: Vec<usize> = fs.iter().filter_map(|n| find(*n)).collect();
                    for k in ks {
                        m.fields[k].2 = Some(i);
                    }
                    m.oneofs.push((name.clone(), fs.clone()));
                    true
                }
                Err(e) => {
                    match e {
                        OneofInsertError::NameConflict => {
                            cover(6);
                            check(nam, 1642)
                        }
                        OneofInsertError::FieldNotFound { field } => {
                            cover(7);
                            check(fs.iter().any(|n| *n == field) && find(field).is_none(), 1643)
                        }
                        OneofInsertError::FieldInOneof { field } => {
                            cover(8);
                            check(fs.iter().any(|n| *n == field) && taken(field), 1644)
                        }
                        _ => check(false, 1645),
                    }
                    false
                }
            }
        }
    }
}

fn compare2(x: &MessageInfo, m: &MMod, refs: &[OneofRef]) {
    check(x.iter_fields().count() == m.fields.len() && x.oneofs.len() == m.oneofs.len(), 1650);
    let mut last = 0;
    for f in x.iter_fields() {
        check(f.number > last, 1651);
        last = f.number;
    }
    for (n, name, o) in &m.fields {
        match (x.get_field(*n), x.get_field_by_name(name)) {
            (Some(a), Some(b)) => {
                check(std::ptr::eq(a, b), 1652);
                check(a.number == *n && eq(&a.name, name) && a.oneof == o.map(|i| refs[i]), 1653);
                if let Some(r) = a.oneof {
                    match x.get_oneof(r) {
                        Some(g) => check(eq(&g.name, &m.oneofs[o.unwrap()].0), 1654),
                        None => check(false, 1655),
                    }
                }
            }
            _ => check(false, 1656),
        }
    }
    for (i, (name, fs)) in m.oneofs.iter().enumerate() {
        let g = &x.oneofs[i];
        check(eq(&g.name, name) && g.self_ref == refs[i] && g.fields.len() == fs.len(), 1657);
        for f in fs {
            check(g.fields.contains(f), 1658);
        }
    }
}

/// A number between 1 and `n`.
fn small(n: u64) -> u64 {
    let v = u8_() as u64;
    assume((v >= 1) & (v <= n));
    v
}

/// Any sequence of additions to a message. Parameters: additions, letters, numbers, fields at the start,
/// oneofs at the start.
#[no_mangle]
pub extern "C" fn h_c16_msg() {
    let mut c = Context::new();
    let pkg = c.insert_package(Package::new(None)).unwrap();
    let parent = TypeParent::Package(pkg);
    let refs = oneof_refs(8, parent);
    let (mut x, mut m) = (MessageInfo::new("M".to_string(), parent), MMod::default());
    let mut done = vec![];
    let (letters, numbers) = (p(1), p(2));
    for i in 0..p(4) {
        let op = Op2::Oneof(["A", "Y"][i as usize].to_string(), vec![]);
        apply2(&mut x, &mut m, &op, &refs);
        done.push(op);
    }
    for i in 0..p(3) {
        let o = if i == 2 && p(4) > 0 { Some(0) } else { None };
        let op = Op2::Field([1, 3, 2][i as usize], ["B", "A", "Z"][i as usize].to_string(), o);
        apply2(&mut x, &mut m, &op, &refs);
        done.push(op);
    }
    for _ in 0..p(0) {
        let op = match choice(6) {
            0 => Op2::Field(small(numbers), cap(letters), None),
            1 => Op2::Field(small(numbers), cap(letters), Some(0)),
            2 => Op2::Field(small(numbers), cap(letters), Some(1)),
            3 => Op2::Oneof(cap(letters), vec![]),
            4 => Op2::Oneof(cap(letters), vec![small(numbers)]),
            _ => {
                let (a, b) = (small(numbers), small(numbers));
                assume(a != b);
                Op2::Oneof(cap(letters), vec![a, b])
            }
        };
        if apply2(&mut x, &mut m, &op, &refs) {
            done.push(op);
        }
        compare2(&x, &m, &refs);
    }
    let (mut x2, mut m2) = (MessageInfo::new("M".to_string(), parent), MMod::default());
    for op in &done {
        check(apply2(&mut x2, &mut m2, op, &refs), 1660);
    }
    check(x == x2, 1661);
    let n = u64_();
    check(x.get_field(n).is_some() == m.fields.iter().any(|f| f.0 == n), 1662);
    let s = cap(letters);
    check(x.get_field_by_name(&s).is_some() == m.fields.iter().any(|f| eq(&f.1, &s)), 1663);
    for r in 0..8 {
        check(x.get_oneof(refs[r]).is_some() == (r < m.oneofs.len()), 1664);
    }
    // The message is in the context as it was made.
    let r = c.insert_message(x).unwrap();
    compare2(c.resolve_message(r), &m, &refs);
}

/// Additions of values to an enum. Parameters: additions, letters, values (0: any, n: from -1 up to n - 2).
#[no_mangle]
pub extern "C" fn h_c16_enum() {
    let mut c = Context::new();
    let pkg = c.insert_package(Package::new(None)).unwrap();
    let parent = TypeParent::Package(pkg);
    let mut x = EnumInfo::new("E".to_string(), parent);
    let mut x2 = EnumInfo::new("E".to_string(), parent);
    let mut m: Vec<(i64, String)> = vec![];
    for _ in 0..p(0) {
        let v = if p(2) == 0 { u64_() as i64 } else { small(p(2)) as i64 - 2 };
        let name = cap(p(1));
        let val = m.iter().any(|f| f.0 == v);
        let nam = m.iter().any(|f| eq(&f.1, &name));
        match x.add_field(EnumField::new(name.clone(), v)) {
            Ok(()) => {
                cover(1);
                check(!val & !nam, 1670);
                check(x2.add_field(EnumField::new(name.clone(), v)).is_ok(), 1671);
                m.push((v, name));
            }
            Err(MemberInsertError::NumberConflict) => {
                cover(2);
                check(val, 1672);
            }
            Err(MemberInsertError::NameConflict) => {
                cover(3);
                check(nam, 1673);
            }
            Err(_) => check(false, 1674),
        }
        check(x == x2, 1675);
    }
    let v = u64_() as i64;
    let r = c.insert_enum(x).unwrap();
    let e = c.resolve_enum(r);
    check(e.get_field_by_value(v).is_some() == m.iter().any(|f| f.0 == v), 1676);
    for (v, name) in &m {
        match e.get_field_by_value(*v) {
            Some(f) => check(f.value == *v && eq(&f.name, name) && f.options.is_empty(), 1677),
            None => check(false, 1678),
        }
    }
}

/// The same declarations, parsed and inserted. Parameters: shape.
#[no_mangle]
pub extern "C" fn h_c16_same() {
    let mut c = Context::new();
    let pk = if p(0) == 1 { Some(ident(2)) } else { None };
    let pkg = c.insert_package(Package::new(pk.clone())).unwrap();
    let pp = TypeParent::Package(pkg);
    let id = || ident(1);
    let files = match p(0) {
        // Fields in an order that is not the order of their numbers, and a oneof among them.
        0 => {
            let (a, b, d, o) = (id(), id(), id(), id());
            assume(!eq(&a, &b) & !eq(&a, &d) & !eq(&b, &d));
            let (na, nb, nd) = (small(9), small(9), small(9));
            assume((na != nb) & (na != nd) & (nb < nd));
            let mut x = MessageInfo::new("M".to_string(), pp);
            let r = x.add_oneof(Oneof::new(o.clone())).ok().unwrap();
            let mut fa = MessageField::new(a.clone(), na, ValueType::SInt64);
            fa.multiplicity = Multiplicity::RepeatedPacked;
            check(x.add_field(fa).is_ok(), 1680);
            for (n, s, t) in [(nb, &b, ValueType::String), (nd, &d, ValueType::Bool)] {
                let mut f = MessageField::new(s.clone(), n, t);
                f.oneof = Some(r);
                check(x.add_field(f).is_ok(), 1681);
            }
            check(c.insert_message(x).is_ok(), 1682);
            let num = |n: u64| unsafe { String::from_utf8_unchecked(vec![n as u8 + b'0']) };
            let f = |k: Kw, t: K, n: &str, v: u64| Fd { kw: k, ty: builtin(t), name: n.to_string(), num: v, num_text: num(v), opts: vec![] };
            vec![file(
                None,
                vec![Top::M(ms(
                    "M",
                    vec![
                        It::O(on(&o, vec![OnIt::F(f(Kw::None, K::Bool, &d, nd)), OnIt::F(f(Kw::None, K::Str, &b, nb))])),
                        It::F(f(Kw::Repeated, K::SInt64, &a, na)),
                    ],
                ))],
            )]
        }
        // Nested types and references.
        1 => {
            let (a, b, e) = (id(), id(), id());
            assume(!eq(&b, &e));
            let pk = pk.unwrap();
            let outer = c.insert_message(MessageInfo::new(a.clone(), pp)).ok().unwrap();
            let mut y = EnumInfo::new(e.clone(), TypeParent::Message(outer));
            check(y.add_field(EnumField::new("V".to_string(), -3)).is_ok(), 1683);
            let er = c.insert_enum(y).ok().unwrap();
            let mut x = MessageInfo::new(b.clone(), TypeParent::Message(outer));
            check(x.add_field(MessageField::new("m".to_string(), 2, ValueType::Message(outer))).is_ok(), 1684);
            let mut f = MessageField::new("e".to_string(), 1, ValueType::Enum(er));
            f.multiplicity = Multiplicity::Repeated;
            check(x.add_field(f).is_ok(), 1685);
            check(c.insert_message(x).is_ok(), 1686);
            let fa = format!("{}.{}", pk, a);
            let fe = format!("{}.{}", fa, e);
            vec![file(
                Some(Path::of(&pk)),
                vec![Top::M(ms(
                    &a,
                    vec![
                        It::E(en(&e, vec![ev("V", -3)])),
                        It::M(ms(
                            &b,
                            vec![
                                It::F(Fd { kw: Kw::Repeated, ..fd(enum_ty(&format!(".{}", fe), &fe), "e", 1) }),
                                It::F(fd(msg_ty(&format!(".{}", fa), &fa), "m", 2)),
                            ],
                        )),
                    ],
                ))],
            )]
        }
        // An enum with options on a value, and a oneof with options.
        _ => {
            let (a, o, v) = (id(), id(), id());
            let k = small(9);
            let mut y = EnumInfo::new(a.clone(), pp);
            let mut f = EnumField::new(v.clone(), k as i64);
            f.options.push(ProtoOption { name: o.clone(), value: Constant::Integer(k as i64) });
            check(y.add_field(f).is_ok(), 1687);
            check(y.add_field(EnumField::new("Zero".to_string(), 0)).is_ok(), 1688);
            check(c.insert_enum(y).is_ok(), 1689);
            let num = unsafe { String::from_utf8_unchecked(vec![k as u8 + b'0']) };
            let op = Op { name: Path::of(&o), toks: vec![w(num.clone())], val: Constant::Integer(k as i64) };
            vec![file(
                None,
                vec![Top::E(en(
                    &a,
                    vec![ev("Zero", 0), EnIt::V(Ev { name: v.clone(), val: k as i64, toks: vec![w(num)], opts: vec![op] })],
                ))],
            )]
        }
    };
    let got = must(&texts(&files), 1690);
    cover(1);
    check(got == c, 1691);
    verify(&got, &files, NAMES | TYPES | MULT | OPTS, 1700);
    verify(&c, &files, NAMES | TYPES | MULT | OPTS, 1800);
}

/// Insertions into a context that was parsed. Parameters: insertions, letters, files.
#[no_mangle]
pub extern "C" fn h_c16_parsed() {
    let c1 = || cap(p(1));
    let (a, b, e, f) = (c1(), c1(), c1(), c1());
    let (pk, files) = match p(2) {
        // No package.
        0 => (
            vec![None],
            vec![file(None, vec![Top::M(ms(&a, vec![It::M(ms(&b, vec![])), It::E(en(&e, vec![ev("V", 0)]))])), Top::E(en(&f, vec![ev("V", 0)]))])],
        ),
        // Two files of one package, and a type named as the package.
        1 => (
            vec![Some("A"), Some("A"), None],
            vec![
                file(Some(Path::of("A")), vec![Top::M(ms(&a, vec![It::E(en(&b, vec![ev("V", 0)]))]))]),
                file(Some(Path::of("A")), vec![Top::E(en(&e, vec![ev("V", 0)]))]),
                file(None, vec![Top::M(ms(&f, vec![]))]),
            ],
        ),
        // Deep, with a service.
        _ => (
            vec![Some("A.B")],
            vec![file(
                Some(Path::of("A.B")),
                vec![
                    Top::M(ms(&a, vec![It::M(ms(&b, vec![It::M(ms(&e, vec![])), It::E(en(&f, vec![ev("V", 0)]))]))])),
                    Top::S(Sv { name: "Sv".to_string(), items: vec![rp("R", arg(&a, &format!("A.B.{}", a)), arg(&a, &format!("A.B.{}", a)))] }),
                ],
            )],
        ),
    };
    let (its, _) = items(&files);
    for i in 0..its.len() {
        for j in 0..i {
            assume(!eq(&its[i].full, &its[j].full));
        }
    }
    let start = || {
        let c = must(&texts(&files), 1640);
        let mut m = Model::default();
        for (i, name) in pk.iter().enumerate() {
            let first = match &files[i].items[0] {
                Top::M(x) => &x.name,
                Top::E(x) => &x.name,
                _ => unreachable!(),
            };
            match c.get_type(&join(name.unwrap_or(""), first)).unwrap().parent() {
                TypeParent::Package(r) => m.pkgs.push((name.map(|n| n.to_string()), r)),
                _ => check(false, 1641),
            }
        }
        // Types in the order in which their parents list them.
        for i in its.iter().filter(|i| i.kind != Kind::S) {
            let t = c.get_type(&i.full).unwrap();
            let r = match t {
                TypeInfo::Message(x) => TypeRef::Message(x.self_ref),
                TypeInfo::Enum(x) => TypeRef::Enum(x.self_ref),
            };
            let parent = match t.parent() {
                TypeParent::Package(r) => Par::P(m.pkgs.iter().position(|p| p.1 == r).unwrap()),
                TypeParent::Message(r) => Par::T(m.types.iter().position(|t| t.r == TypeRef::Message(r)).unwrap()),
            };
            m.types.push(Ty1 { name: t.name().to_string(), full: i.full.clone(), msg: i.kind == Kind::M, parent, r });
        }
        (c, m)
    };
    let (mut c, mut m) = start();
    compare(&c, &m);
    let mut done = vec![];
    for _ in 0..p(0) {
        let mut parents: Vec<Par> = (0..m.pkgs.len()).map(Par::P).collect();
        parents.extend((0..m.types.len()).filter(|i| m.types[*i].msg).map(Par::T));
        let k = choice(2 + 2 * parents.len() as u64);
        let op = match k {
            0 => Op1::Pkg(None),
            1 => Op1::Pkg(Some(cap(p(1)))),
            k if k % 2 == 0 => Op1::Msg(cap(p(1)), parents[(k / 2 - 1) as usize]),
            k => Op1::En(cap(p(1)), parents[(k / 2 - 1) as usize]),
        };
        if apply(&mut c, &mut m, &op) {
            done.push(op);
        }
        compare(&c, &m);
        check(c.get_service("A.B.Sv").is_some() == (p(2) == 2), 1642);
    }
    let (mut c2, mut m2) = start();
    for op in &done {
        check(apply(&mut c2, &mut m2, op), 1643);
    }
    check(c == c2, 1644);
}

/// The packages of a context that was parsed: each can be found (as the one that is in the way of another of that name).
/// Parameters: files, letters, bits that say which files have no declarations, which file has no package statement (or none).
#[no_mangle]
pub extern "C" fn h_c16_pkgs() {
    let n = p(0) as usize;
    let mut files = vec![];
    let mut names: Vec<Option<String>> = vec![];
    for i in 0..n {
        let name = if p(3) == i as u64 { None } else { Some(cap(p(1))) };
        let items = if p(2) >> i & 1 == 1 { vec![] } else { vec![Top::M(ms(&format!("M{}", i), vec![])), Top::E(en(&format!("E{}", i), vec![ev("V", 0)]))] };
        files.push(file(name.as_ref().map(|s| Path::of(s)), items));
        names.push(name);
    }
    let mut c = must(&texts(&files), 1690);
    let same_name = |a: &Option<String>, b: &Option<String>| match (a, b) {
        (Some(a), Some(b)) => eq(a, b),
        (None, None) => true,
        _ => false,
    };
    for i in 0..n {
        let first = (0..n).find(|j| same_name(&names[*j], &names[i])).unwrap();
        match c.insert_package(Package::new(names[i].clone())) {
            Ok(_) => check(false, 1691),
            Err(r) => {
                let _ = c.resolve_package(r);
                if !files[first].items.is_empty() {
                    for k in ["M", "E"].iter() {
                        let full = join(names[first].as_deref().unwrap_or(""), &format!("{}{}", k, first));
                        check(c.get_type(&full).unwrap().parent() == TypeParent::Package(r), 1692);
                    }
                }
            }
        }
    }
    // Others are new.
    for probe in [Some(cap(p(1))), None].iter() {
        let has = names.iter().any(|x| same_name(x, probe));
        let r = c.insert_package(Package::new(probe.clone()));
        cover(has as u64);
        check(r.is_err() == has, 1693);
    }
}
