//! Checks of the work done: how instructions executed and bytes allocated grow with the input.
//!
//! The engine counts both. A run whose cost is reported is confirmed natively with the processor time (see rt.c),
//! on inputs that are larger by the factor `scale()`.
use crate::schema::*;
use crate::sym::*;
use crate::text::parse;
use protofish::decode::*;
use K::*;

struct Cost {
    steps: u64,
    mem: u64,
}

fn measure<T>(mut f: impl FnMut() -> T) -> Cost {
    let mut r = Cost { steps: u64::MAX, mem: u64::MAX };
    // Natively the least of several runs.
    for _ in 0..if scale() > 1 { 5 } else { 1 } {
        let (s, m) = (cost(), mem());
        let t = f();
        let (s2, m2) = (cost(), mem());
        std::mem::forget(t);
        r.steps = r.steps.min(s2 - s);
        r.mem = r.mem.min(m2 - m);
    }
    r
}

/// `b` is the cost of an input `times` times as large as that of `a`.
fn proportional(a: &Cost, b: &Cost, times: u64, code: u64) {
    check(b.steps <= a.steps * times * 2 + 20_000, code);
    check(b.mem <= a.mem * times * 2 + 8192, code + 1);
}

fn pieces(e: &[u8], n: usize, tail: &[u8]) -> Vec<u8> {
    let mut b = Vec::with_capacity(e.len() * n + tail.len());
    for _ in 0..n {
        b.extend_from_slice(e);
    }
    b.extend_from_slice(tail);
    b
}

fn wrapped(num: u64, inner: &[u8]) -> Vec<u8> {
    let mut b = Vec::with_capacity(inner.len() + 12);
    put_tag(&mut b, num, 2);
    put_varint(&mut b, inner.len() as u64);
    b.extend_from_slice(inner);
    b
}

fn pair(w: &World, i: usize, small: &[u8], large: &[u8], back: bool) {
    let mut m = None;
    let a = measure(|| m = Some(w.decode(i, small)));
    let mut l = None;
    let b = measure(|| l = Some(w.decode(i, large)));
    let (m, l) = (m.unwrap(), l.unwrap());
    emit(m.fields.len() as u64);
    emit(l.fields.len() as u64);
    proportional(&a, &b, 4, 2400);
    // The memory is bounded by the size of the data alone.
    check(b.mem <= 600 * large.len() as u64 + 8192, 2402);
    if back {
        let mut n = 0;
        let a = measure(|| m.encode(&w.ctx));
        let b = measure(|| {
            let e = l.encode(&w.ctx);
            n = e.len();
            e
        });
        emit(n as u64);
        proportional(&a, &b, 4, 2403);
        cover(2);
    }
    cover(if m.garbage.is_some() { 1 } else { 0 });
}

/// An element that starts with any byte, or with one of a few if there are to be many of them.
fn elem(k: K) -> Vec<u8> {
    let mut e = vec![0u8; match k.wt() {
        1 => 8,
        5 => 4,
        _ => 1,
    }];
    if p(2) > 1 {
        e[0] = [0, 1, 0x41, 0x7f, 0x80, 0xff][choice(6) as usize];
    } else {
        fill(&mut e[..1]);
    }
    e
}

/// Parameters: shape, kind, hundreds of repetitions, free bytes behind.
#[no_mangle]
pub extern "C" fn h_c24_wire() {
    let k = KINDS[p(1) as usize];
    let n = p(2) as usize * 100 * scale() as usize;
    let mut tail = vec![0u8; p(3) as usize];
    fill(&mut tail);
    let rec = crate::wire::recursive();
    let of = if k.wt() == 2 || k == Enum { Mu::Rep } else { Mu::Packed };
    let flat = world(vec![vec![f(1, k), fm(2, k, of), f(3, Bytes), fm(4, k, Mu::Rep)]]);
    let mut e = vec![];
    let (w, i, small, large) = match p(0) {
        // the same field again and again
        0 => {
            put_tag(&mut e, 1, k.wt());
            if k.wt() == 2 {
                e.push(1);
            }
            e.extend(elem(k));
            (&flat, 0, pieces(&e, n, &tail), pieces(&e, 4 * n, &tail))
        }
        // a packed array
        1 => {
            let e = elem(k);
            (&flat, 0, wrapped(2, &pieces(&e, n, &tail)), wrapped(2, &pieces(&e, 4 * n, &tail)))
        }
        // unknown fields
        2 => {
            put_tag(&mut e, 9, k.wt());
            if k.wt() == 2 {
                e.push(1);
            }
            e.extend(elem(k));
            (&flat, 0, pieces(&e, n, &tail), pieces(&e, 4 * n, &tail))
        }
        // one long value
        3 => {
            let e = elem(Bytes);
            (&flat, 0, wrapped(3, &pieces(&e, n, &tail)), wrapped(3, &pieces(&e, 4 * n, &tail)))
        }
        4 => {
            let e = elem(Bytes);
            (&flat, 0, wrapped(1, &pieces(&e, n, &tail)), wrapped(1, &pieces(&e, 4 * n, &tail)))
        }
        // one long unknown value
        5 => {
            let e = elem(Bytes);
            (&flat, 0, wrapped(9, &pieces(&e, n, &tail)), wrapped(9, &pieces(&e, 4 * n, &tail)))
        }
        // values of another wire type than that of the field
        6 => {
            let num = 1 + u8_() as u64 % 4;
            put_tag(&mut e, concretize(num), if k.wt() == 0 { 5 } else { 0 });
            e.extend(if k.wt() == 0 { elem(Float) } else { vec![u8_() & 127] });
            (&flat, 0, pieces(&e, n, &tail), pieces(&e, 4 * n, &tail))
        }
        // many small arrays
        7 => {
            put_tag(&mut e, 2, 2);
            let x = elem(k);
            e.push(2 * x.len() as u8);
            e.extend(&x);
            e.extend(&x);
            (&flat, 0, pieces(&e, n, &tail), pieces(&e, 4 * n, &tail))
        }
        // many nested messages
        8 => {
            let m = [0x10, u8_() & 127, 0x22, 1, u8_()];
            let e = wrapped(1, &m);
            (&rec, 0, pieces(&e, n, &tail), pieces(&e, 4 * n, &tail))
        }
        // many fields in a nested message
        9 => {
            let m = [0x10, u8_() & 127, 0x22, 1, u8_()];
            (&rec, 0, wrapped(1, &pieces(&m, n, &tail)), wrapped(1, &pieces(&m, 4 * n, &tail)))
        }
        // many messages in a nested message
        _ => {
            let m = wrapped(2, &wrapped(1, &[0x10, u8_() & 127]));
            (&rec, 0, wrapped(5, &pieces(&m, n, &tail)), wrapped(5, &pieces(&m, 4 * n, &tail)))
        }
    };
    pair(w, i, &small, &large, true);
}

/// Messages within messages: parameters are the depth, the free bytes inside and those at the end of each level.
#[no_mangle]
pub extern "C" fn h_c24_deep() {
    let w = crate::wire::recursive();
    let mut core = vec![0u8; p(1) as usize];
    fill(&mut core);
    let mut end = vec![0u8; p(2) as usize];
    fill(&mut end);
    let at = |n: usize| {
        let mut b = core.clone();
        for _ in 0..n {
            b = wrapped(1, &b);
            b.extend_from_slice(&end);
        }
        b
    };
    let n = p(0) as usize * if scale() > 1 { 16 } else { 1 };
    pair(&w, 0, &at(n), &at(4 * n), false);
}

/// Lengths that announce more than there is: parameters are the kind, the field, the bytes of the length, those behind.
#[no_mangle]
pub extern "C" fn h_c24_claim() {
    let k = KINDS[p(0) as usize];
    let of = if k.wt() == 2 || k == Enum { Mu::Rep } else { Mu::Packed };
    let w = world(vec![vec![f(1, k), fm(2, k, of), f(3, Bytes), fm(4, k, Mu::Rep)]]);
    let mut b = vec![];
    put_tag(&mut b, p(1), 2);
    let n = p(2) as usize;
    let mut v = vec![0u8; n + p(3) as usize];
    fill(&mut v);
    for (i, x) in v[..n].iter_mut().enumerate() {
        *x = *x & 127 | if i + 1 < n { 128 } else { 0 };
    }
    b.extend(v);
    let mut m = None;
    // Natively five milliseconds.
    let bound = if scale() > 1 { 5_000_000 } else { 10_000 * b.len() as u64 + 20_000 };
    let c = measure(|| m = Some(w.decode(0, &b)));
    check(c.mem <= 600 * b.len() as u64 + 8192, 2405);
    check(c.steps <= bound, 2406);
    let m = m.unwrap();
    emit(m.fields.len() as u64);
    cover(m.garbage.is_some() as u64);
    let c = measure(|| m.encode(&w.ctx));
    check(c.mem <= 600 * b.len() as u64 + 8192, 2407);
    check(c.steps <= bound, 2408);
}

/// Schemas: parameters are the shape, the repetitions and the free characters.
#[no_mangle]
pub extern "C" fn h_c24_parse() {
    let x = crate::text::ascii(p(2) as usize);
    let n = p(1) as usize;
    let shape = p(0);
    let at = |n: usize| {
        let mut t = String::from("syntax = \"proto3\";\n");
        let each = |t: &mut String, f: &dyn Fn(usize) -> String| {
            for i in 0..n {
                t.push_str(&f(i));
            }
        };
        match shape {
            0 => {
                t += "message M {";
                each(&mut t, &|i| format!("optional int32 a{} = {};", i, i + 1));
                t += &x;
                t += "}";
            }
            1 => {
                each(&mut t, &|i| format!("message M{} {{ repeated M0 a = 1; }}", i));
                t += &x;
            }
            2 => {
                t += "enum E {";
                each(&mut t, &|i| format!("V{} = {};", i, i));
                t += &x;
                t += "}";
            }
            // nested declarations, closed or not
            3 | 4 => {
                each(&mut t, &|_| "message M {".to_string());
                t += &x;
                if shape == 3 {
                    each(&mut t, &|_| "}".to_string());
                }
            }
            5 => {
                t += "service S {";
                each(&mut t, &|i| format!("rpc R{}(stream M) returns (M) {{ option a = 1; }}", i));
                t += &x;
                t += "} message M {}";
            }
            6 => {
                each(&mut t, &|i| format!("option (a.b{}).c = \"x\";", i));
                t += &x;
            }
            // long names
            7 => {
                t += "message M";
                each(&mut t, &|_| "a".to_string());
                t += &x;
                t += "{}";
            }
            8 => {
                t += "message M { a";
                each(&mut t, &|_| ".a".to_string());
                t += &x;
                t += " a = 1; }";
            }
            9 => {
                t += "package a";
                each(&mut t, &|_| ".a".to_string());
                t += &x;
                t += "; message M { M m = 1; }";
            }
            // comments and space, closed or not
            10 | 11 => {
                t += "message M { /*";
                each(&mut t, &|_| "/*".to_string());
                t += &x;
                if shape == 10 {
                    t += "*/";
                }
                t += "}";
            }
            12 => {
                t += "message M {";
                each(&mut t, &|_| " //\n".to_string());
                t += &x;
                t += "}";
            }
            // texts
            13 => {
                t += "option a = \"";
                each(&mut t, &|_| "\\x41\\1'".to_string());
                t += &x;
                t += "\";";
            }
            14 => {
                t += "message M { int32 a = 1 [";
                each(&mut t, &|i| format!("{}(a{}) = 1", if i > 0 { "," } else { "" }, i));
                t += &x;
                t += "]; }";
            }
            15 => {
                t += "message M { reserved ";
                each(&mut t, &|i| format!("{}{} to {}", if i > 0 { "," } else { "" }, 2 * i, 2 * i + 1));
                t += &x;
                t += "; }";
            }
            16 => {
                t += "message M { oneof o {";
                each(&mut t, &|i| format!("int32 a{} = {};", i, i + 1));
                t += &x;
                t += "} }";
            }
            17 => {
                each(&mut t, &|_| "message M { oneof o { int32 a = 1; } map<int32, M> m = 2; enum E { A = 0;".to_string());
                t += &x;
            }
            18 => {
                t += "message M { int32 a = 1";
                each(&mut t, &|_| "0".to_string());
                t += &x;
                t += "; }";
            }
            // names that start with a keyword, and keywords as names
            19 => {
                t += "message M {";
                each(&mut t, &|i| format!("messages{} oneof = {};", i, i + 1));
                t += &x;
                t += "}";
            }
            20 => {
                t += "option a = ";
                each(&mut t, &|_| "{".to_string());
                t += &x;
                t += ";";
            }
            _ => {
                t += "message M { ";
                each(&mut t, &|_| "(".to_string());
                t += &x;
                each(&mut t, &|_| ")".to_string());
                t += "}";
            }
        }
        t
    };
    let up = if scale() > 1 { 4 } else { 1 };
    let (small, large) = ([at(n * up)], [at(2 * n * up)]);
    let a = measure(|| parse(&small));
    let mut ok = false;
    let b = measure(|| {
        let r = parse(&large);
        ok = r.is_ok();
        r
    });
    emit(ok as u64);
    cover(ok as u64);
    // At most quadratic.
    check(b.steps <= 6 * a.steps + 100_000, 2410);
    check(b.mem <= 6 * a.mem + 16384, 2411);
}
