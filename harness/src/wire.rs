//! Checks of the wire format: decoding and encoding of messages.
use crate::schema::*;
use crate::sym::*;
use protofish::context::*;
use protofish::decode::*;
use K::*;

pub fn kind(i: u64) -> K {
    KINDS[i as usize]
}

pub fn packable(k: K) -> bool {
    k.wt() != 2 && k != Enum
}

/// Field 1: a `k`, field 2: repeated `k`, field 3: bytes. Fields 1 and 3 are plain, optional or in a oneof.
fn simple(k: K) -> World {
    let rep = if packable(k) { Mu::Packed } else { Mu::Rep };
    let (a, b) = match KINDS.iter().position(|x| *x == k) {
        Some(i) if i % 2 == 1 => (Mu::Of, Mu::Of),
        Some(i) if i % 4 == 2 => (Mu::Opt, Mu::One),
        _ => (Mu::One, Mu::One),
    };
    world(vec![vec![fm(1, k, a), fm(2, k, rep), fm(3, Bytes, b)]])
}

/// A message that contains itself.
pub fn recursive() -> World {
    world_parsed(vec![vec![f(2, Int32), fm(3, SInt32, Mu::Packed), fm(1, Msg(0), Mu::Of), fm(4, Str, Mu::Of), f(5, Msg(1))], vec![f(1, UInt32), fm(2, Msg(0), Mu::Rep)]])
}

fn nested() -> World {
    world(vec![vec![f(1, UInt32), fm(2, Bool, Mu::Packed), f(3, Bytes)], vec![fm(1, Msg(0), Mu::Of), fm(2, Int64, Mu::Of), fm(3, Msg(0), Mu::Rep)]])
}

pub fn bytes(n: usize) -> Vec<u8> {
    let mut b = vec![0u8; n];
    fill(&mut b);
    b
}

/// A varint of exactly `n` bytes, not necessarily minimal.
fn varint(n: usize) -> Vec<u8> {
    let mut v = bytes(n);
    for i in 0..n {
        if i + 1 < n {
            v[i] |= 0x80;
        } else {
            v[i] &= 0x7f;
        }
    }
    v
}

/// `n` bytes of a varint that has not ended yet.
fn open_varint(n: usize) -> Vec<u8> {
    let mut v = bytes(n);
    for x in v.iter_mut() {
        *x |= 0x80;
    }
    v
}

fn touch(w: &World, i: usize, b: &[u8]) {
    let m = w.decode(i, b);
    emit_msg(&m);
    let e = m.encode(&w.ctx);
    emit(e.len() as u64);
    let m2 = w.ctx.decode(w.msgs[i], &e);
    emit(m2.fields.len() as u64);
    cover(m.fields.len() as u64);
}

fn full(w: &World, i: usize, b: &[u8]) -> MessageValue {
    let m = w.decode(i, b);
    check_msg(w, i, b, &m);
    emit_msg(&m);
    m
}

fn restable(w: &World, i: usize, b: &[u8]) {
    let m = w.decode(i, b);
    emit_msg(&m);
    let e = m.encode(&w.ctx);
    let mut want = vec![];
    canon(w, i, b, &mut want);
    check(same(&e, &want), 200);
    if same(&want, b) {
        cover(1);
        check(same(&e, b), 201);
    } else {
        cover(2);
    }
    let m2 = w.decode(i, &e);
    check(eq_msg(&m, &m2), 202);
}

// ------------------------------------------------------------------ C01: totality

/// Parameters: number of bytes, kind.
#[no_mangle]
pub extern "C" fn h_c01_free() {
    let w = simple(kind(p(1)));
    touch(&w, 0, &bytes(p(0) as usize));
}

#[no_mangle]
pub extern "C" fn h_c01_rec() {
    touch(&recursive(), 0, &bytes(p(0) as usize));
}

/// Wide varints everywhere a varint can stand: tags, lengths, values, packed elements.
#[no_mangle]
pub extern "C" fn h_c01_wide() {
    let w = simple(kind(p(1)));
    let n = p(2) as usize;
    let v = if p(3) == 0 { varint(n) } else { open_varint(n) };
    let mut b = vec![];
    match p(0) {
        0 => b.extend_from_slice(&v),
        1 => {
            put_tag(&mut b, 1, kind(p(1)).wt());
            b.extend_from_slice(&v);
        }
        2 => {
            put_tag(&mut b, 2, 2);
            b.extend_from_slice(&v);
        }
        3 => {
            put_tag(&mut b, 2, 2);
            b.push(n as u8);
            b.extend_from_slice(&v);
        }
        4 => {
            put_tag(&mut b, 9, 0);
            b.extend_from_slice(&v);
        }
        5 => {
            put_tag(&mut b, 9, 2);
            b.extend_from_slice(&v);
        }
        _ => {
            put_tag(&mut b, 3, 2);
            b.extend_from_slice(&v);
        }
    }
    b.extend_from_slice(&bytes(p(4) as usize));
    touch(&w, 0, &b);
}

/// Large payloads around the boundaries of the length encoding, with symbolic ends.
#[no_mangle]
pub extern "C" fn h_c01_large() {
    const L: [usize; 10] = [126, 127, 128, 129, 255, 256, 16383, 16384, 65536, 100_000];
    let n = L[p(0) as usize];
    let k = kind(p(1));
    let w = simple(k);
    let mut c = vec![0x41u8; n];
    fill(&mut c[..if n > 1000 { 1 } else { 2 }]);
    let mut b = vec![];
    put_tag(&mut b, if k.wt() == 2 { 1 } else { 2 }, 2);
    put_varint(&mut b, n as u64);
    b.extend_from_slice(&c);
    b.extend_from_slice(&bytes(if n > 1000 { 1 } else { 2 }));
    touch(&w, 0, &b);
}

/// Nested messages `depth` levels deep with a symbolic core.
#[no_mangle]
pub extern "C" fn h_c01_deep() {
    let w = recursive();
    let mut b = bytes(p(1) as usize);
    for _ in 0..p(0) {
        let mut o = vec![];
        put_tag(&mut o, 1, 2);
        put_varint(&mut o, b.len() as u64);
        o.extend_from_slice(&b);
        b = o;
    }
    touch(&w, 0, &b);
}

/// Natively only: nesting without a bound (known finding).
#[no_mangle]
pub extern "C" fn h_deep_native() {
    let w = recursive();
    let mut b: Vec<u8> = vec![];
    // Build from the inside out without quadratic copying: lengths first.
    let mut pre: Vec<Vec<u8>> = vec![];
    let mut len = 0usize;
    for _ in 0..p(0) * 1000 {
        let mut o = vec![];
        put_tag(&mut o, 1, 2);
        put_varint(&mut o, len as u64);
        len += o.len();
        pre.push(o);
    }
    for o in pre.iter().rev() {
        b.extend_from_slice(o);
    }
    let m = w.decode(0, &b);
    emit(m.fields.len() as u64);
    std::mem::forget(m);
}

/// Values a user can put together by hand: any of them can be encoded.
#[no_mangle]
pub extern "C" fn h_c01_encode() {
    let w = nested();
    let m = any_message(&w, p(0), p(1));
    let e = m.encode(&w.ctx);
    emit(e.len() as u64);
    let m2 = w.decode(1, &e);
    emit(m2.fields.len() as u64);
    cover(1);
}

/// Values of every type. Parameters as of `h_c03`.
#[no_mangle]
pub extern "C" fn h_c01_made() {
    let (w, i, m) = made(p(0), kind(p(1)), p(2), NUMS[p(3) as usize], p(4) as usize);
    let e = m.encode(&w.ctx);
    emit(e.len() as u64);
    let m2 = w.decode(i, &e);
    emit(m2.fields.len() as u64);
    cover(1);
}

// ------------------------------------------------------------------ C02: re-encoding

#[no_mangle]
pub extern "C" fn h_c02_free() {
    let w = simple(kind(p(1)));
    restable(&w, 0, &bytes(p(0) as usize));
}

#[no_mangle]
pub extern "C" fn h_c02_rec() {
    restable(&recursive(), 0, &bytes(p(0) as usize));
}

/// One field of every sort with a symbolic value, followed by symbolic bytes.
#[no_mangle]
pub extern "C" fn h_c02_field() {
    let k = kind(p(1));
    let w = simple(k);
    let mut b = vec![];
    match p(0) {
        0 => {
            put_tag(&mut b, 1, k.wt());
            if k.wt() == 2 {
                b.push(p(2) as u8);
            }
        }
        1 => {
            put_tag(&mut b, 2, 2);
            b.push(p(2) as u8);
        }
        2 => {
            put_tag(&mut b, 1000, 0);
        }
        _ => {
            put_tag(&mut b, 1000, 2);
            b.push(p(2) as u8);
        }
    }
    if p(0) == 2 || (p(0) == 0 && k.wt() == 0) {
        b.extend_from_slice(&if p(4) == 0 { varint(p(2) as usize) } else { open_varint(p(2) as usize) });
    } else {
        b.extend_from_slice(&bytes(p(2) as usize));
    }
    b.extend_from_slice(&bytes(p(3) as usize));
    restable(&w, 0, &b);
}

const LENS: [usize; 12] = [0, 1, 127, 128, 129, 16383, 16384, 20_000, 65_535, 65_536, 2_097_151, 2_097_152];

/// Payload lengths around the boundaries of the length encoding.
#[no_mangle]
pub extern "C" fn h_c02_len() {
    let n = LENS[p(0) as usize];
    let w = nested();
    let mut c = vec![];
    if n > 0 {
        // As a nested message: a bytes field, then an unknown varint up to the wanted size.
        let mut q = vec![];
        put_tag(&mut q, 3, 2);
        let pad = n.saturating_sub(if n < 129 { 4 } else if n < 16386 { 5 } else { 6 });
        put_varint(&mut q, pad as u64);
        q.extend(std::iter::repeat(0x55).take(pad));
        q.push(0x48);
        q.push(if n > 1000 { 9 } else { u8_() });
        c = q;
    }
    let mut b = vec![];
    put_tag(&mut b, if p(1) == 0 { 1 } else { 3 }, 2);
    put_varint(&mut b, c.len() as u64);
    b.extend_from_slice(&c);
    b.extend_from_slice(&[0x10]);
    b.extend_from_slice(&bytes(if n > 1000 { 1 } else { 2 }));
    restable(&w, 1, &b);
}

/// Many fields in one message.
#[no_mangle]
pub extern "C" fn h_c02_many() {
    let w = simple(kind(p(1)));
    let mut b = vec![];
    for i in 0..p(0) {
        match i % 3 {
            0 => b.extend_from_slice(&[0x1a, 1, i as u8]),
            1 => b.extend_from_slice(&[0x28, i as u8 & 127]),
            _ => b.extend_from_slice(&[0x32, 0]),
        }
    }
    b.extend_from_slice(&bytes(3));
    restable(&w, 0, &b);
}

// ------------------------------------------------------------------ values made by hand

fn text(n: usize) -> String {
    let b = bytes(n);
    match String::from_utf8(b) {
        Ok(s) => s,
        Err(_) => {
            assume(false);
            unreachable!()
        }
    }
}

/// A value of kind `k`, every bit pattern of it. Strings and bytes have `n` symbolic bytes.
pub fn any_value(w: &World, k: K, n: usize) -> Value {
    match k {
        Double => Value::Double(f64::from_bits(u64_())),
        Float => Value::Float(f32::from_bits(u32_())),
        Int32 => Value::Int32(u32_() as i32),
        Int64 => Value::Int64(u64_() as i64),
        UInt32 => Value::UInt32(u32_()),
        UInt64 => Value::UInt64(u64_()),
        SInt32 => Value::SInt32(u32_() as i32),
        SInt64 => Value::SInt64(u64_() as i64),
        Fixed32 => Value::Fixed32(u32_()),
        Fixed64 => Value::Fixed64(u64_()),
        SFixed32 => Value::SFixed32(u32_() as i32),
        SFixed64 => Value::SFixed64(u64_() as i64),
        Bool => Value::Bool(u8_() & 1 == 1),
        Str => Value::String(text(n)),
        Bytes => Value::Bytes(bytes::Bytes::from(bytes(n))),
        Enum => Value::Enum(EnumValue { enum_ref: w.en, value: u64_() as i64 }),
        Msg(_) => unreachable!(),
    }
}

pub fn any_packed(k: K, n: usize) -> Value {
    macro_rules! v {
        ($n:ident, $e:expr) => {
            Value::Packed(PackedArray::$n((0..n).map(|_| $e).collect()))
        };
    }
    match k {
        Double => v!(Double, f64::from_bits(u64_())),
        Float => v!(Float, f32::from_bits(u32_())),
        Int32 => v!(Int32, u32_() as i32),
        Int64 => v!(Int64, u64_() as i64),
        UInt32 => v!(UInt32, u32_()),
        UInt64 => v!(UInt64, u64_()),
        SInt32 => v!(SInt32, u32_() as i32),
        SInt64 => v!(SInt64, u64_() as i64),
        Fixed32 => v!(Fixed32, u32_()),
        Fixed64 => v!(Fixed64, u64_()),
        SFixed32 => v!(SFixed32, u32_() as i32),
        SFixed64 => v!(SFixed64, u64_() as i64),
        _ => v!(Bool, u8_() & 1 == 1),
    }
}

/// `n` elements, all zero except a symbolic first and last one.
fn long_packed(k: K, n: usize) -> Value {
    macro_rules! v {
        ($n:ident, $z:expr, $e:expr) => {
            Value::Packed(PackedArray::$n((0..n).map(|i| if i == 0 || i == n - 1 { $e } else { $z }).collect()))
        };
    }
    match k {
        Double => v!(Double, 1.5, f64::from_bits(u64_())),
        Float => v!(Float, 1.5, f32::from_bits(u32_())),
        Int32 => v!(Int32, 3, u8_() as i8 as i32),
        Int64 => v!(Int64, 3, u8_() as i8 as i64),
        UInt32 => v!(UInt32, 3, u8_() as u32),
        UInt64 => v!(UInt64, 3, u8_() as u64),
        SInt32 => v!(SInt32, -3, u8_() as i8 as i32),
        SInt64 => v!(SInt64, -3, u8_() as i8 as i64),
        Fixed32 => v!(Fixed32, 3, u32_()),
        Fixed64 => v!(Fixed64, 3, u64_()),
        SFixed32 => v!(SFixed32, -3, u32_() as i32),
        SFixed64 => v!(SFixed64, -3, u64_() as i64),
        _ => v!(Bool, true, u8_() & 1 == 1),
    }
}

const NUMS: [u64; 8] = [1, 15, 16, 2047, 2048, 262_143, 262_144, 536_870_911];

pub fn msg_of(w: &World, i: usize, fields: Vec<(u64, Value)>) -> MessageValue {
    MessageValue {
        msg_ref: w.msgs[i],
        fields: fields.into_iter().map(|(number, value)| FieldValue { number, value }).collect(),
        garbage: None,
    }
}

/// Hand-made values with parts that are not typed: `sort` selects which.
fn any_message(w: &World, sort: u64, n: u64) -> MessageValue {
    let n = n as usize;
    let tail = (2u64, Value::Int64(5));
    let one = |num: u64, v: Value| msg_of(w, 1, vec![(num, v), tail.clone()]);
    match sort {
        0 => one(9, Value::Unknown(UnknownValue::Varint(u64_() as u128))),
        1 => one(9, Value::Unknown(UnknownValue::Fixed64(u64_()))),
        2 => one(9, Value::Unknown(UnknownValue::Fixed32(u32_()))),
        3 => one(9, Value::Unknown(UnknownValue::VariableLength(bytes(n).into()))),
        4 => {
            let wt = u8_();
            assume(wt == 3 || wt == 4 || wt == 6 || wt == 7);
            msg_of(w, 1, vec![tail, (9, Value::Unknown(UnknownValue::Invalid(wt, bytes(n).into())))])
        }
        5 => {
            let inner = msg_of(w, 0, vec![(1, Value::UInt32(u32_())), (2, any_packed(Bool, 2)), (3, Value::Bytes(bytes(n).into()))]);
            one(1, Value::Message(Box::new(inner)))
        }
        6 => {
            // A symbolic field number.
            let num = u32_() as u64;
            assume(num >= 1 && num < 1 << 29);
            one(num, Value::Fixed32(7))
        }
        7 => {
            let mut m = msg_of(w, 1, vec![tail]);
            let g = bytes(n);
            // Garbage is a tag that does not end.
            for x in &g {
                assume(*x >= 128);
            }
            m.garbage = Some(g.into());
            m
        }
        8 => {
            // A varint that does not end.
            let g = bytes(n);
            for x in &g {
                assume(*x >= 128);
            }
            msg_of(w, 1, vec![tail, (2, Value::Incomplete(0, g.into()))])
        }
        // From here on: what decoding does not give back as it was.
        10 => one(9, Value::Unknown(UnknownValue::Varint((u64_() as u128) << 64 | u64_() as u128))),
        11 => one(u64_() >> 3, Value::Incomplete(u8_() & 7, bytes(n).into())),
        12 => one(u64_() >> 3, Value::Unknown(UnknownValue::Invalid(u8_() & 7, bytes(n).into()))),
        13 => {
            let mut m = msg_of(w, 1, vec![tail]);
            m.garbage = Some(bytes(n).into());
            m
        }
        14 => {
            // A value that does not fit the declared type.
            let v = any_value(w, kind(n as u64), 2);
            one([1, 2, 3][choice(3) as usize], v)
        }
        15 => one(u64_() >> 3, Value::Message(Box::new(msg_of(w, 1, vec![(u64_() >> 3, Value::Bool(u8_() & 1 == 1))])))),
        _ => msg_of(w, 1, vec![]),
    }
}

/// What kinds may be wrapped in: alone, next to others, inside a message.
fn holder(w: &World, k: K, place: u64, v: Value, num: u64) -> (usize, MessageValue) {
    let _ = k;
    match place {
        0 => (0, msg_of(w, 0, vec![(num, v)])),
        1 => (0, msg_of(w, 0, vec![(3, Value::Bytes(bytes::Bytes::from_static(b"ab"))), (num, v), (3, Value::Bytes(bytes::Bytes::from_static(b"")))])),
        _ => {
            let m = msg_of(w, 0, vec![(num, v)]);
            (1, msg_of(w, 1, vec![(1, Value::Message(Box::new(m))), (2, Value::Int64(-1))]))
        }
    }
}

fn holder_world(k: K, packed: bool, num: u64) -> World {
    let i = KINDS.iter().position(|x| *x == k).unwrap_or(0) % 3;
    let (one, of) = (if i == 2 { Mu::Opt } else { Mu::One }, if i == 1 { Mu::Of } else { Mu::One });
    world(vec![
        vec![fm(num, k, if packed { Mu::Packed } else if i == 1 { of } else { one }), fm(3, Bytes, of)],
        vec![fm(1, Msg(0), of), fm(2, Int64, of)],
    ])
}

fn made(sort: u64, k: K, place: u64, num: u64, n: usize) -> (World, usize, MessageValue) {
    let w = holder_world(k, sort != 0 && sort != 3, num);
    let v = match sort {
        0 => any_value(&w, k, n),
        1 => any_packed(k, n),
        2 => long_packed(k, LENS[n]),
        _ => {
            // A long string or byte array.
            let mut c = vec![0x41u8; LENS[n]];
            let l = c.len();
            if l > 0 {
                let a = u8_();
                let z = u8_();
                if k == Str {
                    assume(a < 128 && z < 128);
                }
                c[0] = a;
                c[l - 1] = z;
            }
            match k {
                Str => Value::String(String::from_utf8(c).unwrap()),
                _ => Value::Bytes(c.into()),
            }
        }
    };
    let (i, m) = holder(&w, k, place, v, num);
    (w, i, m)
}

// ------------------------------------------------------------------ C03: typed values survive encode, decode

/// Parameters: sort, kind, place, field number index, length.
#[no_mangle]
pub extern "C" fn h_c03() {
    let k = kind(p(1));
    let (w, i, m) = made(p(0), k, p(2), NUMS[p(3) as usize], p(4) as usize);
    let e = m.encode(&w.ctx);
    let back = w.decode(i, &e);
    emit_msg(&back);
    check(eq_msg(&m, &back), 300);
    cover(1);
}

/// The untyped values.
#[no_mangle]
pub extern "C" fn h_c03_raw() {
    let w = nested();
    let m = any_message(&w, p(0), p(1));
    let e = m.encode(&w.ctx);
    let back = w.decode(1, &e);
    emit_msg(&back);
    cover(1);
    if p(0) == 6 {
        let n = m.fields[0].number;
        if n == 1 || n == 2 || n == 3 {
            // A field of the message: the wire type no longer fits.
            check(back.fields.len() == 2 && back.fields[0].number == n, 302);
            match &back.fields[0].value {
                Value::Unknown(UnknownValue::Fixed32(7)) => {}
                _ => check(false, 303),
            }
            return;
        }
        check(back.fields.len() == 2 && back.fields[0].number == n, 304);
        match &back.fields[0].value {
            Value::Unknown(UnknownValue::Fixed32(7)) => {}
            _ => check(false, 305),
        }
        check(eq_field(&m.fields[1], &back.fields[1]), 306);
        return;
    }
    check(eq_msg(&m, &back), 301);
    cover(1);
}

// ------------------------------------------------------------------ C04: scalars

/// Parameters: kind, field number index, number of payload bytes, trailing bytes.
#[no_mangle]
pub extern "C" fn h_c04() {
    let k = kind(p(0));
    let num = NUMS[p(1) as usize];
    let of = if p(0) % 2 == 1 { Mu::Of } else { Mu::One };
    let w = world(vec![vec![fm(num, k, of), fm(5, Fixed32, of)]]);
    let mut b = vec![];
    put_tag(&mut b, num, k.wt());
    if k.wt() == 2 {
        b.push(p(2) as u8);
    }
    if k.wt() == 0 {
        b.extend_from_slice(&if p(4) == 0 { varint(p(2) as usize) } else { open_varint(p(2) as usize) });
    } else {
        b.extend_from_slice(&bytes(p(2) as usize));
    }
    if p(3) != 0 {
        b.extend_from_slice(&[0x2d, 1, 2, 3, 4]);
    }
    let m = full(&w, 0, &b);
    cover(m.fields.len() as u64);
}

/// Long strings and byte arrays.
#[no_mangle]
pub extern "C" fn h_c04_long() {
    let k = if p(0) == 0 { Str } else { Bytes };
    let w = world(vec![vec![f(1, k), f(5, Fixed32)]]);
    let n = LENS[p(1) as usize];
    let mut c = vec![0x61u8; n];
    let m = if n > 1000 { 1 } else { n.min(2) };
    fill(&mut c[..m]);
    if n > 1000 {
        fill(&mut c[n - 1..]);
    } else if n > 8 {
        fill(&mut c[n - 2..]);
    }
    let mut b = vec![];
    put_tag(&mut b, 1, 2);
    put_varint(&mut b, n as u64);
    b.extend_from_slice(&c);
    b.extend_from_slice(&[0x2d, 1, 2, 3, 4]);
    full(&w, 0, &b);
    cover(1);
}

/// Several fields of several kinds in one message, in symbolic order.
#[no_mangle]
pub extern "C" fn h_c04_mix() {
    let w = world(vec![vec![f(1, Int32), fm(2, SInt64, Mu::Of), fm(3, Bool, Mu::Of), f(4, Fixed64), fm(5, Str, Mu::Of), fm(6, Enum, Mu::Opt), fm(7, Float, Mu::Of)]]);
    let mut b = vec![];
    for _ in 0..p(0) {
        let n = choice(7) + 1;
        let k = w.schema[0][n as usize - 1].k;
        put_tag(&mut b, n, k.wt());
        match k.wt() {
            0 => b.extend_from_slice(&[0x80 | u8_(), u8_() & 127]),
            1 => b.extend_from_slice(&bytes(8)),
            5 => b.extend_from_slice(&bytes(4)),
            _ => {
                b.push(2);
                b.extend_from_slice(&[u8_() & 127, u8_() & 127]);
            }
        }
    }
    let m = full(&w, 0, &b);
    check(m.fields.len() as u64 == p(0), 400);
    cover(1);
}

// ------------------------------------------------------------------ C05: encoded bytes

#[no_mangle]
pub extern "C" fn h_c05() {
    let k = kind(p(1));
    let (w, _, m) = made(p(0), k, p(2), NUMS[p(3) as usize], p(4) as usize);
    let e = m.encode(&w.ctx);
    let mut want = vec![];
    enc_msg(&m, &mut want);
    emit(e.len() as u64);
    check(same(&e, &want), 500);
    cover(1);
}

#[no_mangle]
pub extern "C" fn h_c05_raw() {
    let w = nested();
    let m = any_message(&w, p(0), p(1));
    let e = m.encode(&w.ctx);
    let mut want = vec![];
    enc_msg(&m, &mut want);
    emit(e.len() as u64);
    check(same(&e, &want), 501);
    cover(1);
}

/// Values nested `depth` deep with payload lengths around the boundaries of the length encoding.
#[no_mangle]
pub extern "C" fn h_c05_deep() {
    let w = recursive();
    let n = LENS[p(1) as usize];
    let mut v = msg_of(&w, 0, vec![(4, Value::String("x".repeat(n))), (2, Value::Int32(u32_() as i32))]);
    for _ in 0..p(0) {
        v = msg_of(&w, 0, vec![(2, Value::Int32(1)), (1, Value::Message(Box::new(v))), (2, Value::Int32(2))]);
    }
    let e = v.encode(&w.ctx);
    let mut want = vec![];
    enc_msg(&v, &mut want);
    check(same(&e, &want), 502);
    let back = w.decode(0, &e);
    check(eq_msg(&v, &back), 503);
    cover(1);
}

/// Fields with any number, at some depth, known or not.
/// Parameters: levels, value (0: Int32, 1: String, 2: Unknown varint, 3: Fixed64), numbers that are free (1: of the field, 2: of the messages around).
#[no_mangle]
pub extern "C" fn h_c05_number() {
    let w = recursive();
    let num = || {
        let n = u32_() & 0x1fff_ffff;
        assume(n > 0);
        n as u64
    };
    let val = match p(1) {
        0 => Value::Int32(-5),
        1 => Value::String("text".to_string()),
        2 => Value::Unknown(UnknownValue::Varint(300)),
        _ => Value::Fixed64(u64_()),
    };
    let mut v = msg_of(&w, 0, vec![(if p(2) & 1 == 1 { num() } else { 1 << 20 }, val), (2, Value::Int32(1))]);
    for _ in 0..p(0) {
        let n = if p(2) & 2 == 2 { num() } else { 1 };
        v = msg_of(&w, 0, vec![(n, Value::Message(Box::new(v))), (2, Value::Int32(2))]);
    }
    let e = v.encode(&w.ctx);
    let mut want = vec![];
    enc_msg(&v, &mut want);
    check(same(&e, &want), 504);
    cover(1);
}

// ------------------------------------------------------------------ C06: unknown fields

fn known_world() -> World {
    world(vec![vec![f(1, UInt32), f(16, Str), f(2048, Fixed32), f(536_870_911, SInt32)]])
}

/// A known field, a field with any number and wire type, a known field.
/// Parameters: wire type, bytes of the tag, payload length, use known fields around.
#[no_mangle]
pub extern "C" fn h_c06_field() {
    let w = known_world();
    let wt = p(0) as u8;
    let tl = p(1) as usize;
    let mut b = vec![];
    if p(3) & 1 == 1 {
        b.extend_from_slice(&[0x08, 0xac, 0x02]);
    }
    // A tag of `tl` bytes with this wire type, field number symbolic (possibly not minimal).
    let mut t = varint(tl);
    t[0] = (t[0] & 0xf8) | wt;
    let at = b.len();
    b.extend_from_slice(&t);
    match wt {
        0 => {
            let n = p(2) as usize;
            b.extend_from_slice(&varint(n));
        }
        1 => b.extend_from_slice(&bytes(8)),
        5 => b.extend_from_slice(&bytes(4)),
        2 => {
            b.push(p(2) as u8);
            b.extend_from_slice(&bytes(p(2) as usize));
        }
        _ => b.extend_from_slice(&bytes(p(2) as usize)),
    }
    let end = b.len();
    if p(3) & 2 == 2 {
        b.extend_from_slice(&[0x85, 0x80, 0x01, 1, 2, 3, 4, 0x82, 0x01, 1, 0x6f]);
    }
    let m = full(&w, 0, &b);
    // The neighbours are what they are without the field.
    if wt != 3 && wt != 4 && wt < 6 {
        let mut without = b[..at].to_vec();
        without.extend_from_slice(&b[end..]);
        let m2 = w.decode(0, &without);
        let before = (p(3) & 1) as usize;
        check(m.fields.len() == m2.fields.len() + 1, 600);
        for (i, x) in m2.fields.iter().enumerate() {
            check(eq_field(x, &m.fields[if i < before { i } else { i + 1 }]), 601);
        }
        // And the field itself comes back byte by byte when it was minimal.
        let e = m.encode(&w.ctx);
        let mut want = vec![];
        canon(&w, 0, &b, &mut want);
        check(same(&e, &want), 602);
    }
    cover(1);
}

/// Decoding a concatenation is the concatenation of the decodings.
#[no_mangle]
pub extern "C" fn h_c06_concat() {
    let w = simple(kind(p(2)));
    let a = bytes(p(0) as usize);
    let ma = w.decode(0, &a);
    if ma.garbage.is_some() {
        return;
    }
    match ma.fields.last().map(|f| &f.value) {
        Some(Value::Incomplete(..)) | Some(Value::Unknown(UnknownValue::Invalid(..))) => return,
        _ => {}
    }
    cover(1);
    let b = bytes(p(1) as usize);
    let mb = w.decode(0, &b);
    let mut ab = a.clone();
    ab.extend_from_slice(&b);
    let mab = w.decode(0, &ab);
    emit_msg(&mab);
    check(mab.fields.len() == ma.fields.len() + mb.fields.len(), 610);
    for (i, x) in ma.fields.iter().chain(&mb.fields).enumerate() {
        check(eq_field(x, &mab.fields[i]), 611);
    }
    match (&mab.garbage, &mb.garbage) {
        (None, None) => {}
        (Some(x), Some(y)) => check(same(x, y), 612),
        _ => check(false, 613),
    }
}

/// The same message read with a schema that lacks fields: what both know is the same, and
/// re-encoding through the poorer schema loses nothing.
#[no_mangle]
pub extern "C" fn h_c06_poor() {
    let k = kind(p(1));
    let rich = world(vec![vec![f(1, k), f(2, UInt32), f(3, Bytes)]]);
    let poor = world(vec![vec![f(2, UInt32)]]);
    let b = bytes(p(0) as usize);
    let mr = rich.decode(0, &b);
    let mp = poor.decode(0, &b);
    emit_msg(&mp);
    check(mr.fields.len() == mp.fields.len(), 620);
    for (x, y) in mr.fields.iter().zip(&mp.fields) {
        check(x.number == y.number, 621);
        if x.number == 2 {
            check(eq_value(&x.value, &y.value), 622);
        }
    }
    let e = mp.encode(&poor.ctx);
    let again = rich.decode(0, &e);
    check(eq_msg_fields(&mr, &again), 623);
    cover(1);
}

fn eq_msg_fields(a: &MessageValue, b: &MessageValue) -> bool {
    if a.fields.len() != b.fields.len() {
        return false;
    }
    a.fields.iter().zip(&b.fields).all(|(x, y)| eq_field(x, y))
        && match (&a.garbage, &b.garbage) {
            (None, None) => true,
            (Some(x), Some(y)) => same(x, y),
            _ => false,
        }
}

// ------------------------------------------------------------------ C07: truncation

fn truncated(w: &World, idx: usize, b: &[u8], cut: usize) {
    let whole = w.decode(idx, b);
    let part = &b[..cut];
    let m = full(w, idx, part);
    // Nothing is lost: encoding what was reported gives the bytes that were there.
    let e = m.encode(&w.ctx);
    let mut want = vec![];
    canon(w, idx, part, &mut want);
    check(same(&e, &want), 700);
    // Everything before the cut is what it is in the whole message.
    let n = m.fields.len();
    let cutoff = match m.fields.last().map(|f| &f.value) {
        Some(Value::Incomplete(_, x)) => {
            check(same(x, &part[part.len() - x.len().min(part.len())..]) || eq_or(&whole, &m, n - 1), 701);
            true
        }
        Some(Value::Unknown(UnknownValue::Invalid(_, x))) => {
            check(same(x, &part[part.len() - x.len().min(part.len())..]), 702);
            true
        }
        _ => false,
    };
    if let Some(g) = &m.garbage {
        check(same(g, &part[part.len() - g.len().min(part.len())..]), 703);
    }
    check(whole.fields.len() >= n, 704);
    for i in 0..n {
        check(whole.fields[i].number == m.fields[i].number, 705);
        if i + 1 < n || !cutoff {
            check(eq_value(&whole.fields[i].value, &m.fields[i].value), 706);
        }
    }
    cover(cutoff as u64);
}

fn eq_or(a: &MessageValue, b: &MessageValue, i: usize) -> bool {
    i < a.fields.len() && eq_field(&a.fields[i], &b.fields[i])
}

/// Any bytes, cut at every position.
#[no_mangle]
pub extern "C" fn h_c07_free() {
    let w = simple(kind(p(1)));
    let b = bytes(p(0) as usize);
    let cut = choice(p(0) + 1) as usize;
    truncated(&w, 0, &b, cut);
}

/// A well-formed message with symbolic values, cut at every position.
#[no_mangle]
pub extern "C" fn h_c07_msg() {
    let w = nested();
    let mut b = vec![];
    let mut inner = vec![0x08, 0x80 | u8_(), u8_() & 127, 0x1a, 3];
    inner.extend_from_slice(&bytes(3));
    inner.extend_from_slice(&[0x12, 2, u8_() & 127, u8_() & 127]);
    match p(0) {
        0 => {
            put_tag(&mut b, 1, 2);
            b.push(inner.len() as u8);
            b.extend_from_slice(&inner);
            b.extend_from_slice(&[0x10, 0x80 | u8_(), 0x80 | u8_(), u8_() & 127]);
        }
        1 => {
            b.extend_from_slice(&[0x10, 5]);
            put_tag(&mut b, 300, 1);
            b.extend_from_slice(&bytes(8));
            put_tag(&mut b, 301, 5);
            b.extend_from_slice(&bytes(4));
            put_tag(&mut b, 302, 2);
            b.push(3);
            b.extend_from_slice(&bytes(3));
            put_tag(&mut b, 303, 0);
            b.extend_from_slice(&[0x80 | u8_(), u8_() & 127]);
        }
        2 => {
            put_tag(&mut b, 3, 2);
            b.push(inner.len() as u8);
            b.extend_from_slice(&inner);
            put_tag(&mut b, 3, 2);
            b.push(2);
            b.extend_from_slice(&[0x08, u8_() & 127]);
        }
        _ => {
            // A long field: the cut falls around the length boundaries.
            put_tag(&mut b, 1, 2);
            let mut q = vec![0x1a, 0x84, 0x01];
            q.extend(std::iter::repeat(0x33).take(132));
            put_varint(&mut b, q.len() as u64);
            b.extend_from_slice(&q);
            b.extend_from_slice(&[0x10, u8_() & 127]);
        }
    }
    let n = b.len() as u64 + 1;
    let cut = choice(n) as usize;
    truncated(&w, 1, &b, cut);
}

/// Scalars of every kind, cut at every position.
#[no_mangle]
pub extern "C" fn h_c07_scalar() {
    let k = kind(p(0));
    let w = simple(k);
    let mut b = vec![];
    put_tag(&mut b, p(1), if p(1) == 1 { k.wt() } else { 2 });
    match (p(1), k.wt()) {
        (1, 0) => b.extend_from_slice(&[0x80 | u8_(), 0x80 | u8_(), u8_() & 127]),
        (1, 1) => b.extend_from_slice(&bytes(8)),
        (1, 5) => b.extend_from_slice(&bytes(4)),
        (1, _) => {
            b.push(3);
            b.extend_from_slice(&[u8_() & 127, u8_() & 127, u8_() & 127]);
        }
        (_, 0) => b.extend_from_slice(&[4, 0x80 | u8_(), u8_() & 127, 0x80 | u8_(), u8_() & 127]),
        (_, 1) => {
            b.push(16);
            b.extend_from_slice(&bytes(16));
        }
        (_, 5) => {
            b.push(8);
            b.extend_from_slice(&bytes(8));
        }
        _ => {
            b.push(2);
            b.extend_from_slice(&[u8_() & 127, u8_() & 127]);
        }
    }
    b.extend_from_slice(&[0x1a, 1, 9]);
    let n = b.len() as u64 + 1;
    let cut = choice(n) as usize;
    truncated(&w, 0, &b, cut);
}

// ------------------------------------------------------------------ C08: wire type mismatch

/// A field whose wire type is not the one of its type. Parameters: kind, multiplicity, wire type, field number.
#[no_mangle]
pub extern "C" fn h_c08() {
    let k = kind(p(0));
    let num = NUMS[p(3) as usize];
    let mu = match p(1) {
        0 => Mu::One,
        1 if p(0) % 2 == 1 => Mu::Of,
        1 => Mu::Opt,
        2 => Mu::Rep,
        3 => Mu::Packed,
        4 => Mu::Of,
        _ => Mu::Opt,
    };
    let w = world(vec![vec![fm(num, k, mu), f(4, UInt64)]]);
    let wt = p(2) as u8;
    let mut b = vec![0x20, 1];
    put_tag(&mut b, num, wt);
    match wt {
        0 => b.extend_from_slice(&[0x80 | u8_(), 0x80 | u8_(), u8_() & 127]),
        1 => b.extend_from_slice(&bytes(8)),
        5 => b.extend_from_slice(&bytes(4)),
        2 => {
            b.push(4);
            b.extend_from_slice(&bytes(4));
        }
        _ => b.extend_from_slice(&bytes(3)),
    }
    b.extend_from_slice(&[0x20, 0x80 | u8_(), u8_() & 127]);
    let m = full(&w, 0, &b);
    if wt < 3 || wt == 5 {
        check(m.fields.len() == 3, 800);
        check(m.fields[2].number == 4, 801);
    } else {
        check(m.fields.len() == 2, 802);
    }
    check(same(&m.encode(&w.ctx), &{
        let mut o = vec![];
        canon(&w, 0, &b, &mut o);
        o
    }), 803);
    cover(1);
}

/// Mismatches inside a nested message stay inside.
#[no_mangle]
pub extern "C" fn h_c08_nested() {
    let w = nested();
    let mut c = bytes(p(0) as usize);
    c[0] = (c[0] & 0xf8) | p(1) as u8;
    c[0] &= 0x7f;
    let mut b = vec![0x10, 3, 0x0a, c.len() as u8];
    b.extend_from_slice(&c);
    b.extend_from_slice(&[0x10, u8_() & 127]);
    let m = full(&w, 1, &b);
    check(m.fields.len() == 3, 810);
    match (&m.fields[0].value, &m.fields[2].value) {
        (Value::Int64(3), Value::Int64(x)) => check(*x == b[b.len() - 1] as i64, 811),
        _ => check(false, 812),
    }
    cover(1);
}

// ------------------------------------------------------------------ C09: packed arrays

/// Parameters: kind, payload length, field number.
#[no_mangle]
pub extern "C" fn h_c09() {
    let k = kind(p(0));
    let num = NUMS[p(2) as usize];
    let w = world(vec![vec![fm(num, k, Mu::Packed), f(4, UInt64)]]);
    let mut b = vec![];
    put_tag(&mut b, num, 2);
    b.push(p(1) as u8);
    b.extend_from_slice(&bytes(p(1) as usize));
    b.extend_from_slice(&[0x20, u8_() & 127]);
    let m = full(&w, 0, &b);
    check(m.fields.len() == 2, 900);
    check(m.fields[0].number == num, 901);
    match &m.fields[1].value {
        Value::UInt64(x) => check(*x == b[b.len() - 1] as u64, 902),
        _ => check(false, 903),
    }
    cover(1);
}

/// Long arrays: `n` elements, concrete but for the first and the last.
#[no_mangle]
pub extern "C" fn h_c09_long() {
    let k = kind(p(0));
    let n = LENS[p(1) as usize];
    let w = world(vec![vec![fm(1, k, Mu::Packed), f(4, UInt64)]]);
    let v = long_packed(k, n);
    let mut b = vec![];
    put_tag(&mut b, 1, 2);
    enc_value(&v, &mut b);
    b.extend_from_slice(&[0x20, u8_() & 127]);
    let m = full(&w, 0, &b);
    check(m.fields.len() == 2, 910);
    check(eq_value(&m.fields[0].value, &v), 911);
    let e = m.encode(&w.ctx);
    check(same(&e, &b), 912);
    cover(1);
}

/// Two arrays of the same field in one message stay two, in order.
#[no_mangle]
pub extern "C" fn h_c09_two() {
    let k = kind(p(0));
    let w = world(vec![vec![fm(1, k, Mu::Packed), f(4, UInt64)]]);
    let v1 = any_packed(k, p(1) as usize);
    let v2 = any_packed(k, p(2) as usize);
    let mut b = vec![];
    for v in [&v1, &v2] {
        put_tag(&mut b, 1, 2);
        enc_value(v, &mut b);
        b.extend_from_slice(&[0x20, 1]);
    }
    let m = full(&w, 0, &b);
    check(m.fields.len() == 4, 920);
    check(eq_value(&m.fields[0].value, &v1) && eq_value(&m.fields[2].value, &v2), 921);
    cover(1);
}

// ------------------------------------------------------------------ C10: nested messages

fn wrap(num: u64, c: &[u8]) -> Vec<u8> {
    let mut b = vec![];
    put_tag(&mut b, num, 2);
    put_varint(&mut b, c.len() as u64);
    b.extend_from_slice(c);
    b
}

/// Any payload: the nested value is what the payload decodes to on its own, the neighbours are untouched.
#[no_mangle]
pub extern "C" fn h_c10() {
    let w = if p(1) == 0 { nested() } else { recursive() };
    let (outer, inner) = if p(1) == 0 { (1, 0) } else { (0, 0) };
    let c = bytes(p(0) as usize);
    let mut b = vec![0x10, 3];
    b.extend_from_slice(&wrap(1, &c));
    b.extend_from_slice(&[0x10, u8_() & 127]);
    let m = full(&w, outer, &b);
    check(m.fields.len() == 3, 1000);
    let alone = w.decode(inner, &c);
    match &m.fields[1].value {
        Value::Message(x) => check(eq_msg(x, &alone), 1001),
        _ => check(false, 1002),
    }
    match (&m.fields[0].value, &m.fields[2].value) {
        (Value::Int64(3), Value::Int64(x)) => check(*x == b[b.len() - 1] as i64, 1003),
        (Value::Int32(3), Value::Int32(x)) => check(*x == b[b.len() - 1] as i32, 1004),
        _ => check(false, 1005),
    }
    cover(alone.garbage.is_some() as u64);
}

/// `depth` levels, with a sibling on every level, and a symbolic core.
#[no_mangle]
pub extern "C" fn h_c10_deep() {
    let w = recursive();
    let d = p(0);
    let core = bytes(p(1) as usize);
    let mut b = core.clone();
    for i in 0..d {
        let mut o = vec![0x10, i as u8 & 127];
        o.extend_from_slice(&wrap(1, &b));
        o.extend_from_slice(&[0x10, 0x7f]);
        b = o;
    }
    let m = full(&w, 0, &b);
    let mut cur = &m;
    for i in 0..d {
        check(cur.fields.len() == 3 && cur.garbage.is_none(), 1010);
        check(eq_value(&cur.fields[0].value, &Value::Int32(((d - 1 - i) & 127) as i32)), 1011);
        check(eq_value(&cur.fields[2].value, &Value::Int32(0x7f)), 1012);
        cur = match &cur.fields[1].value {
            Value::Message(x) => x,
            _ => {
                check(false, 1013);
                return;
            }
        };
    }
    check(eq_msg(cur, &w.decode(0, &core)), 1014);
    cover(1);
}

/// Siblings: repeated nested messages, nested messages of different types, empty ones.
#[no_mangle]
pub extern "C" fn h_c10_sib() {
    let w = recursive();
    let mut b = vec![];
    let c1 = bytes(p(0) as usize);
    let c2 = bytes(p(1) as usize);
    b.extend_from_slice(&wrap(5, &wrap(2, &c1)));
    b.extend_from_slice(&wrap(1, &[]));
    b.extend_from_slice(&wrap(5, &c2));
    let m = full(&w, 0, &b);
    check(m.fields.len() == 3, 1020);
    let v: Vec<&MessageValue> = m
        .fields
        .iter()
        .map(|f| match &f.value {
            Value::Message(x) => &**x,
            _ => {
                check(false, 1021);
                unreachable!()
            }
        })
        .collect();
    check(v[0].msg_ref == w.msgs[1] && v[1].msg_ref == w.msgs[0] && v[2].msg_ref == w.msgs[1], 1022);
    check(eq_msg(v[2], &w.decode(1, &c2)), 1023);
    check(v[1].fields.is_empty() && v[1].garbage.is_none(), 1024);
    check(v[0].fields.len() == 1, 1025);
    match &v[0].fields[0].value {
        Value::Message(x) => check(eq_msg(x, &w.decode(0, &c1)), 1026),
        _ => check(false, 1027),
    }
    cover(1);
}

/// Payloads with lengths around the boundaries of the length encoding.
#[no_mangle]
pub extern "C" fn h_c10_len() {
    let w = nested();
    let n = LENS[p(0) as usize];
    let mut c = vec![];
    c.extend_from_slice(&wrap(3, &vec![0x77u8; n]));
    c.extend_from_slice(&[0x08, u8_(), u8_() & 127]);
    let mut b = wrap(1, &c);
    b.extend_from_slice(&[0x10, u8_() & 127]);
    let m = full(&w, 1, &b);
    match &m.fields[0].value {
        Value::Message(x) => check(eq_msg(x, &w.decode(0, &c)), 1030),
        _ => check(false, 1031),
    }
    cover(1);
}

/// A nested message behind many other fields.
/// Parameters: fields, what they are (0: numbers, 1: messages, 2: both and strings, 3: unknown ones), free bytes.
#[no_mangle]
pub extern "C" fn h_c10_many() {
    let w = world_parsed(vec![vec![f(1, UInt32), f(3, Bytes)], vec![fm(1, Msg(0), Mu::Rep), fm(2, Int64, Mu::Rep), f(3, Str), f(4, Msg(1))]]);
    let mut b = vec![];
    for i in 0..p(0) {
        match p(1) {
            0 => b.extend_from_slice(&[0x10, i as u8 & 127]),
            1 => b.extend_from_slice(&[0x0a, 2, 8, i as u8 & 127]),
            3 => b.extend_from_slice(&[0x52, 1, i as u8]),
            _ => match i % 4 {
                0 => b.extend_from_slice(&[0x10, i as u8 & 127]),
                1 => b.extend_from_slice(&[0x0a, 0]),
                2 => b.extend_from_slice(&[0x1a, 1, b'a']),
                _ => b.extend_from_slice(&[0x22, 4, 0x0a, 2, 8, i as u8 & 127]),
            },
        }
    }
    let c = bytes(p(2) as usize);
    b.extend_from_slice(&wrap(1, &c));
    b.extend_from_slice(&[0x10, u8_() & 127]);
    let m = full(&w, 1, &b);
    let n = p(0) as usize;
    check(m.fields.len() == n + 2, 1050);
    match &m.fields[n].value {
        Value::Message(x) => check(eq_msg(x, &w.decode(0, &c)), 1051),
        _ => check(false, 1052),
    }
    cover(1);
}

/// A nested message of over two megabytes, of which the decoder has to look at the ends. Parameter: index of the length.
#[no_mangle]
pub extern "C" fn h_c10_huge() {
    let w = nested();
    let n = LENS[p(0) as usize];
    let v = u8_() & 127;
    let mut c = wrap(3, &vec![0x77u8; n]);
    c.extend_from_slice(&[0x08, v]);
    let mut b = wrap(1, &c);
    b.extend_from_slice(&[0x10, v]);
    let m = w.decode(1, &b);
    check(m.fields.len() == 2 && m.garbage.is_none(), 1060);
    match &m.fields[0].value {
        Value::Message(x) => {
            check(x.msg_ref == w.msgs[0] && x.fields.len() == 2 && x.garbage.is_none(), 1061);
            match (&x.fields[0].value, &x.fields[1].value) {
                (Value::Bytes(y), Value::UInt32(z)) => check((y.len() == n) & (*z == v as u32), 1062),
                _ => check(false, 1063),
            }
        }
        _ => check(false, 1064),
    }
    match &m.fields[1].value {
        Value::Int64(x) => check(*x == v as i64, 1065),
        _ => check(false, 1066),
    }
    cover(1);
}

/// A message with many fields of all sorts, and a field of any number.
/// Parameters: fields, made by (0: the parser, 1: the API), bytes of the tag, bytes after it, check (0: encoding, 1: types).
#[no_mangle]
pub extern "C" fn h_c04_schema() {
    let n = p(0);
    let mut v = vec![];
    // Fields of the oneof are declared one after the other.
    for of in [false, true] {
        for i in 0..n {
            if (i % 5 == 4) != of {
                continue;
            }
            let k = match i % 17 {
                16 => Msg(0),
                k => kind(k),
            };
            let mu = match i % 5 {
                0 | 3 => Mu::One,
                1 => Mu::Opt,
                2 if packable(k) => if i % 2 == 0 { Mu::Packed } else { Mu::Rep },
                2 => Mu::Rep,
                _ => Mu::Of,
            };
            // Neither in order nor without gaps.
            v.push(fm((i * 7) % n * 3 + 1, k, mu));
        }
    }
    let schema = vec![vec![f(1, kind(4)), f(2, kind(0))], v];
    let w = if p(1) == 0 { world_parsed(schema) } else { world(schema) };
    let mut b = varint(p(2) as usize);
    b.extend_from_slice(&bytes(p(3) as usize));
    if p(4) == 0 {
        restable(&w, 1, &b);
    } else {
        full(&w, 1, &b);
        cover(1);
    }
}

/// Nested messages of types of every sort. Parameters: bytes, type, multiplicity, made by (0: the API, 1: the parser).
#[no_mangle]
pub extern "C" fn h_c10_types() {
    let inner = match p(1) {
        0 => vec![],
        1 => vec![fm(1, Int32, Mu::Packed)],
        2 => vec![fm(1, Bool, Mu::Of), fm(2, Str, Mu::Of)],
        3 => vec![fm(1, Fixed32, Mu::Rep)],
        4 => vec![f(1000, Bytes)],
        5 => vec![fm(2, Enum, Mu::Opt)],
        _ => vec![f(1, SInt64), f(536_870_911, Double)],
    };
    let mu = [Mu::One, Mu::Of, Mu::Opt, Mu::Rep][p(2) as usize];
    let schema = vec![inner, vec![fm(1, Msg(0), mu), f(2, Int64)]];
    let w = if p(3) == 0 { world(schema) } else { world_parsed(schema) };
    let c = bytes(p(0) as usize);
    let mut b = wrap(1, &c);
    b.extend_from_slice(&wrap(1, &[]));
    b.extend_from_slice(&[0x10, u8_() & 127]);
    let m = full(&w, 1, &b);
    check(m.fields.len() == 3, 1040);
    match &m.fields[0].value {
        Value::Message(x) => {
            check(x.msg_ref == w.msgs[0] && eq_msg(x, &w.decode(0, &c)), 1041);
            let mut want = vec![];
            canon(&w, 0, &c, &mut want);
            check(same(&x.encode(&w.ctx), &want), 1042);
        }
        _ => check(false, 1043),
    }
    match &m.fields[2].value {
        Value::Int64(x) => check(*x == b[b.len() - 1] as i64, 1044),
        _ => check(false, 1045),
    }
    cover(1);
}

/// A field of any sort, in a message of any sort, received with any wire type.
/// Parameters: kind, multiplicity, wire type, message, check (0: the values, 1: encoding, 2: cut anywhere, 3: nested).
#[no_mangle]
pub extern "C" fn h_any() {
    let k = kind(p(0));
    let mu = [Mu::One, Mu::Opt, Mu::Of, Mu::Rep, Mu::Packed][p(1) as usize];
    let num = if p(3) < 2 { 1 } else { 70 };
    let mut fields = vec![fm(num, k, mu)];
    // Neighbours of the same type with other multiplicities, and of the same multiplicity with other types.
    if p(3) % 2 == 1 {
        fields.extend([f(2, k), fm(3, k, Mu::Opt), fm(4, k, if packable(k) { Mu::Packed } else { Mu::Rep }), fm(5, k, Mu::Rep)]);
        fields.push(fm(6, if mu == Mu::Packed { SFixed32 } else { Str }, mu));
    }
    let schema = vec![fields, vec![f(1, Msg(0))]];
    let w = if p(3) < 4 { world_parsed(schema) } else { world(schema) };
    let wt = p(2) as u8;
    let mut b = vec![];
    put_tag(&mut b, num, wt);
    match wt {
        0 => b.extend_from_slice(&[0x80 | u8_(), 0x80 | u8_(), u8_() & 127]),
        1 => b.extend_from_slice(&bytes(8)),
        5 => b.extend_from_slice(&bytes(4)),
        2 => {
            b.push(4);
            b.extend_from_slice(&bytes(4));
        }
        _ => b.extend_from_slice(&bytes(3)),
    }
    b.extend_from_slice(&[0x12, 1, u8_() & 127]);
    match p(4) {
        0 => {
            full(&w, 0, &b);
            cover(1);
        }
        1 => restable(&w, 0, &b),
        2 => {
            let cut = choice(b.len() as u64 + 1) as usize;
            truncated(&w, 0, &b, cut);
        }
        _ => {
            let o = wrap(1, &b);
            full(&w, 1, &o);
            restable(&w, 1, &o);
        }
    }
}
