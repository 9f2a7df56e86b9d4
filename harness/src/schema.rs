#![allow(dead_code)]
//! Message schemas used by the wire-format checks, and the reference semantics of the wire format
//! against which the crate is compared. Nothing here calls into the crate's decoder or encoder:
//! the reader, the writer and the zigzag/varint rules are written from the protobuf specification.

use crate::sym::*;
use protofish::context::*;
use protofish::decode::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K {
    Double,
    Float,
    Int32,
    Int64,
    UInt32,
    UInt64,
    SInt32,
    SInt64,
    Fixed32,
    Fixed64,
    SFixed32,
    SFixed64,
    Bool,
    Str,
    Bytes,
    Enum,
    Msg(usize),
}
use K::*;

pub const KINDS: [K; 16] = [
    Double, Float, Int32, Int64, UInt32, UInt64, SInt32, SInt64, Fixed32, Fixed64, SFixed32, SFixed64, Bool, Str,
    Bytes, Enum,
];

impl K {
    pub fn wt(self) -> u8 {
        match self {
            Double | Fixed64 | SFixed64 => 1,
            Float | Fixed32 | SFixed32 => 5,
            Str | Bytes | Msg(_) => 2,
            _ => 0,
        }
    }
    pub fn word(self) -> &'static str {
        match self {
            Double => "double",
            Float => "float",
            Int32 => "int32",
            Int64 => "int64",
            UInt32 => "uint32",
            UInt64 => "uint64",
            SInt32 => "sint32",
            SInt64 => "sint64",
            Fixed32 => "fixed32",
            Fixed64 => "fixed64",
            SFixed32 => "sfixed32",
            SFixed64 => "sfixed64",
            Bool => "bool",
            Str => "string",
            Bytes => "bytes",
            Enum => "E",
            Msg(_) => "?",
        }
    }
    pub fn vt(self, w: &World) -> ValueType {
        match self {
            Double => ValueType::Double,
            Float => ValueType::Float,
            Int32 => ValueType::Int32,
            Int64 => ValueType::Int64,
            UInt32 => ValueType::UInt32,
            UInt64 => ValueType::UInt64,
            SInt32 => ValueType::SInt32,
            SInt64 => ValueType::SInt64,
            Fixed32 => ValueType::Fixed32,
            Fixed64 => ValueType::Fixed64,
            SFixed32 => ValueType::SFixed32,
            SFixed64 => ValueType::SFixed64,
            Bool => ValueType::Bool,
            Str => ValueType::String,
            Bytes => ValueType::Bytes,
            Enum => ValueType::Enum(w.en),
            Msg(i) => ValueType::Message(w.msgs[i]),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mu {
    One,
    Opt,
    Rep,
    Packed,
    /// Single, in the oneof of the message.
    Of,
}

#[derive(Clone, Copy)]
pub struct F {
    pub num: u64,
    pub k: K,
    pub mu: Mu,
}

pub fn f(num: u64, k: K) -> F {
    F { num, k, mu: Mu::One }
}
pub fn fm(num: u64, k: K, mu: Mu) -> F {
    F { num, k, mu }
}

/// A context plus the description it was made from. Messages refer to messages of lower index only.
pub struct World {
    pub ctx: Context,
    pub schema: Vec<Vec<F>>,
    pub msgs: Vec<MessageRef>,
    pub en: EnumRef,
}

pub fn world(schema: Vec<Vec<F>>) -> World {
    let mut ctx = Context::new();
    let pkg = ctx.insert_package(Package::new(Some("p".to_string()))).unwrap();
    let mut e = EnumInfo::new("E".to_string(), TypeParent::Package(pkg));
    e.add_field(EnumField::new("Z".to_string(), 0)).unwrap();
    e.add_field(EnumField::new("O".to_string(), 1)).unwrap();
    let en = ctx.insert_enum(e).unwrap();
    let mut w = World { ctx, schema: vec![], msgs: vec![], en };
    for (i, fields) in schema.iter().enumerate() {
        let mut m = MessageInfo::new(format!("M{}", i), TypeParent::Package(pkg));
        for fd in fields {
            let mut mf = MessageField::new(format!("f{}", fd.num), fd.num, fd.k.vt(&w));
            mf.multiplicity = match fd.mu {
                Mu::One | Mu::Of => Multiplicity::Single,
                Mu::Opt => Multiplicity::Optional,
                Mu::Rep => Multiplicity::Repeated,
                Mu::Packed => Multiplicity::RepeatedPacked,
            };
            m.add_field(mf).unwrap();
        }
        let of: Vec<u64> = fields.iter().filter(|f| f.mu == Mu::Of).map(|f| f.num).collect();
        if !of.is_empty() {
            let mut o = Oneof::new("o".to_string());
            o.fields = of;
            m.add_oneof(o).ok().unwrap();
        }
        let r = w.ctx.insert_message(m).unwrap();
        w.msgs.push(r);
    }
    w.schema = schema;
    w
}

/// The same through the parser; messages may refer to themselves and to each other.
pub fn world_parsed(schema: Vec<Vec<F>>) -> World {
    let mut t = String::from("syntax = \"proto3\"; package p; enum E { Z = 0; O = 1; }\n");
    for (i, fields) in schema.iter().enumerate() {
        t += &format!("message M{} {{\n", i);
        let mut inside = false;
        for fd in fields {
            if inside != (fd.mu == Mu::Of) {
                inside = !inside;
                t += if inside { "oneof o { " } else { "}\n" };
            }
            t += match fd.mu {
                Mu::One | Mu::Of => "",
                Mu::Opt => "optional ",
                _ => "repeated ",
            };
            match fd.k {
                Msg(j) => t += &format!("M{}", j),
                k => t += k.word(),
            }
            t += &format!(" f{} = {}", fd.num, fd.num);
            if fd.mu == Mu::Rep && fd.k.wt() != 2 && fd.k != Enum {
                t += " [packed = false]";
            }
            t += ";\n";
        }
        t += if inside { "}}\n" } else { "}\n" };
    }
    let ctx = Context::parse(&[t]).unwrap();
    let msgs = (0..schema.len()).map(|i| ctx.get_message(&format!("p.M{}", i)).unwrap().self_ref).collect();
    let en = match ctx.get_type("p.E").unwrap() {
        TypeInfo::Enum(e) => e.self_ref,
        _ => unreachable!(),
    };
    World { ctx, schema, msgs, en }
}

impl World {
    pub fn info(&self, i: usize) -> &MessageInfo {
        self.ctx.resolve_message(self.msgs[i])
    }
    pub fn decode(&self, i: usize, b: &[u8]) -> MessageValue {
        self.info(i).decode(b, &self.ctx)
    }
    fn field(&self, i: usize, num: u64) -> Option<F> {
        self.schema[i].iter().copied().find(|f| f.num == num)
    }
    pub fn nums(&self, i: usize) -> Vec<u64> {
        self.schema[i].iter().map(|f| f.num).collect()
    }
}

// ---------------------------------------------------------------- byte helpers

/// Equality as one condition: no branch per byte.
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    let mut i = 0;
    while i < a.len() {
        d |= a[i] ^ b[i];
        i += 1;
    }
    d == 0
}

pub fn put_varint(out: &mut Vec<u8>, mut v: u64) {
    while v > 127 {
        out.push(v as u8 | 128);
        v >>= 7;
    }
    out.push(v as u8);
}

pub fn put_tag(out: &mut Vec<u8>, num: u64, wt: u8) {
    put_varint(out, num << 3 | wt as u64);
}

/// Reads a varint. `None`: it does not end within the data or within 10 bytes.
pub fn get_varint(b: &[u8], p: &mut usize) -> Option<u64> {
    let mut v = 0u64;
    let mut n = 0;
    while n < 10 && *p + n < b.len() {
        let x = b[*p + n];
        if n < 9 {
            v |= ((x & 127) as u64) << (7 * n);
        } else {
            v |= ((x & 1) as u64) << 63;
        }
        n += 1;
        if x < 128 {
            *p += n;
            return Some(v);
        }
    }
    None
}

fn le(b: &[u8]) -> u64 {
    let mut v = 0u64;
    for (i, x) in b.iter().enumerate() {
        v |= (*x as u64) << (8 * i);
    }
    v
}

pub fn zig32(u: u32) -> i32 {
    // 0, -1, 1, -2, ...
    let half = (u >> 1) as i32;
    if u & 1 == 1 {
        !half
    } else {
        half
    }
}
pub fn zig64(u: u64) -> i64 {
    let half = (u >> 1) as i64;
    if u & 1 == 1 {
        !half
    } else {
        half
    }
}
pub fn zag32(v: i32) -> u32 {
    if v < 0 {
        (!(v as u32) << 1) | 1
    } else {
        (v as u32) << 1
    }
}
pub fn zag64(v: i64) -> u64 {
    if v < 0 {
        (!(v as u64) << 1) | 1
    } else {
        (v as u64) << 1
    }
}

// ---------------------------------------------------------------- reference semantics: decoding

/// How a value found on the wire has to be read.
enum How {
    Typed(K),
    Packed(K),
    Unknown,
}

fn how(fd: Option<F>, wt: u8) -> How {
    match fd {
        None => How::Unknown,
        Some(fd) if fd.mu == Mu::Packed => {
            if wt == 2 {
                How::Packed(fd.k)
            } else {
                How::Unknown
            }
        }
        Some(fd) if fd.k.wt() == wt => How::Typed(fd.k),
        Some(_) => How::Unknown,
    }
}

/// Asserts that `mv` is what the wire format makes of `b` for message `idx`.
pub fn check_msg(w: &World, idx: usize, b: &[u8], mv: &MessageValue) {
    check(mv.msg_ref == w.msgs[idx], 100);
    let mut p = 0;
    let mut i = 0;
    while p < b.len() {
        let start = p;
        let tag = match get_varint(b, &mut p) {
            Some(t) => t,
            None => {
                check(mv.fields.len() == i, 101);
                match &mv.garbage {
                    Some(g) => check(same(g, &b[start..]), 102),
                    None => check(false, 103),
                }
                return;
            }
        };
        check(i < mv.fields.len(), 104);
        let fv = &mv.fields[i];
        i += 1;
        check(fv.number == tag >> 3, 105);
        let wt = (tag & 7) as u8;
        let fd = w.field(idx, tag >> 3);
        p = check_value(w, b, p, wt, how(fd, wt), &fv.value);
    }
    check(mv.fields.len() == i, 106);
    check(mv.garbage.is_none(), 107);
}

fn incomplete(v: &Value, wt: u8, rest: &[u8]) {
    match v {
        Value::Incomplete(w, g) => {
            check(*w == wt, 110);
            check(same(g, rest), 111);
        }
        _ => check(false, 112),
    }
}

fn chunk<'a>(b: &'a [u8], p: &mut usize) -> Option<&'a [u8]> {
    let mut q = *p;
    let n = get_varint(b, &mut q)?;
    if n > (b.len() - q) as u64 {
        return None;
    }
    let r = &b[q..q + n as usize];
    *p = q + n as usize;
    Some(r)
}

fn check_value(w: &World, b: &[u8], p0: usize, wt: u8, how: How, v: &Value) -> usize {
    let mut p = p0;
    match how {
        How::Typed(k) => match wt {
            0 => match get_varint(b, &mut p) {
                None => {
                    incomplete(v, wt, &b[p0..]);
                    return b.len();
                }
                Some(u) => check_num(w, k, u, v, 120),
            },
            1 | 5 => {
                let n = if wt == 1 { 8 } else { 4 };
                if b.len() - p < n {
                    incomplete(v, wt, &b[p0..]);
                    return b.len();
                }
                check_num(w, k, le(&b[p..p + n]), v, 121);
                p += n;
            }
            _ => match chunk(b, &mut p) {
                None => {
                    incomplete(v, wt, &b[p0..]);
                    return b.len();
                }
                Some(c) => match (k, v) {
                    (Str, Value::String(s)) => check(same(s.as_bytes(), String::from_utf8_lossy(c).as_bytes()), 122),
                    (Bytes, Value::Bytes(x)) => check(same(x, c), 123),
                    (Msg(j), Value::Message(m)) => check_msg(w, j, c, m),
                    _ => check(false, 124),
                },
            },
        },
        How::Packed(k) => match chunk(b, &mut p) {
            None => {
                incomplete(v, wt, &b[p0..]);
                return b.len();
            }
            Some(c) => check_packed(w, k, c, &b[p0..p], wt, v),
        },
        How::Unknown => match wt {
            0 => match get_varint(b, &mut p) {
                None => {
                    incomplete(v, wt, &b[p0..]);
                    return b.len();
                }
                Some(u) => match v {
                    Value::Unknown(UnknownValue::Varint(x)) => check(*x == u as u128, 130),
                    _ => check(false, 131),
                },
            },
            1 | 5 => {
                let n = if wt == 1 { 8 } else { 4 };
                if b.len() - p < n {
                    incomplete(v, wt, &b[p0..]);
                    return b.len();
                }
                let u = le(&b[p..p + n]);
                match v {
                    Value::Unknown(UnknownValue::Fixed64(x)) if n == 8 => check(*x == u, 132),
                    Value::Unknown(UnknownValue::Fixed32(x)) if n == 4 => check(*x as u64 == u, 133),
                    _ => check(false, 134),
                }
                p += n;
            }
            2 => match chunk(b, &mut p) {
                None => {
                    incomplete(v, wt, &b[p0..]);
                    return b.len();
                }
                Some(c) => match v {
                    Value::Unknown(UnknownValue::VariableLength(x)) => check(same(x, c), 135),
                    _ => check(false, 136),
                },
            },
            _ => {
                match v {
                    Value::Unknown(UnknownValue::Invalid(x, g)) => {
                        check(*x == wt, 137);
                        check(same(g, &b[p..]), 138);
                    }
                    _ => check(false, 139),
                }
                return b.len();
            }
        },
    }
    p
}

/// `u`: the varint, or the little-endian integer of a fixed-width value.
fn check_num(w: &World, k: K, u: u64, v: &Value, code: u64) {
    let ok = match (k, v) {
        (Double, Value::Double(x)) => x.to_bits() == u,
        (Float, Value::Float(x)) => x.to_bits() == u as u32,
        (Int32, Value::Int32(x)) => *x == u as i32,
        (Int64, Value::Int64(x)) => *x == u as i64,
        (UInt32, Value::UInt32(x)) => *x == u as u32,
        (UInt64, Value::UInt64(x)) => *x == u,
        (SInt32, Value::SInt32(x)) => *x == zig32(u as u32),
        (SInt64, Value::SInt64(x)) => *x == zig64(u),
        (Fixed32, Value::Fixed32(x)) => *x == u as u32,
        (Fixed64, Value::Fixed64(x)) => *x == u,
        (SFixed32, Value::SFixed32(x)) => *x == u as i32,
        (SFixed64, Value::SFixed64(x)) => *x == u as i64,
        (Bool, Value::Bool(x)) => *x == (u != 0),
        (Enum, Value::Enum(x)) => x.enum_ref == w.en && x.value == u as i64,
        _ => false,
    };
    check(ok, code);
}

fn check_packed(w: &World, k: K, c: &[u8], raw: &[u8], wt: u8, v: &Value) {
    if k.wt() == 2 || k == Enum {
        // Not a type that can be packed: only the raw bytes can be reported.
        match v {
            Value::Unknown(UnknownValue::VariableLength(x)) => check(same(x, c), 140),
            _ => check(false, 141),
        }
        return;
    }
    // Split the payload into elements; if that fails the field as a whole is incomplete.
    let mut us = vec![];
    let mut p = 0;
    while p < c.len() {
        match k.wt() {
            0 => match get_varint(c, &mut p) {
                Some(u) => us.push(u),
                None => return incomplete(v, wt, raw),
            },
            t => {
                let n = if t == 1 { 8 } else { 4 };
                if c.len() - p < n {
                    return incomplete(v, wt, raw);
                }
                us.push(le(&c[p..p + n]));
                p += n;
            }
        }
    }
    let a = match v {
        Value::Packed(a) => a,
        _ => return check(false, 142),
    };
    check(packed_len(a) == us.len(), 143);
    for (i, u) in us.iter().enumerate() {
        match packed_get(w, a, i) {
            Some(e) => check_num(w, k, *u, &e, 144),
            None => check(false, 145),
        }
    }
    // An empty array still has to be of the right kind.
    check(packed_kind(a) == k, 146);
}

pub fn packed_kind(a: &PackedArray) -> K {
    match a {
        PackedArray::Double(_) => Double,
        PackedArray::Float(_) => Float,
        PackedArray::Int32(_) => Int32,
        PackedArray::Int64(_) => Int64,
        PackedArray::UInt32(_) => UInt32,
        PackedArray::UInt64(_) => UInt64,
        PackedArray::SInt32(_) => SInt32,
        PackedArray::SInt64(_) => SInt64,
        PackedArray::Fixed32(_) => Fixed32,
        PackedArray::Fixed64(_) => Fixed64,
        PackedArray::SFixed32(_) => SFixed32,
        PackedArray::SFixed64(_) => SFixed64,
        PackedArray::Bool(_) => Bool,
    }
}

pub fn packed_len(a: &PackedArray) -> usize {
    match a {
        PackedArray::Double(x) => x.len(),
        PackedArray::Float(x) => x.len(),
        PackedArray::Int32(x) => x.len(),
        PackedArray::Int64(x) => x.len(),
        PackedArray::UInt32(x) => x.len(),
        PackedArray::UInt64(x) => x.len(),
        PackedArray::SInt32(x) => x.len(),
        PackedArray::SInt64(x) => x.len(),
        PackedArray::Fixed32(x) => x.len(),
        PackedArray::Fixed64(x) => x.len(),
        PackedArray::SFixed32(x) => x.len(),
        PackedArray::SFixed64(x) => x.len(),
        PackedArray::Bool(x) => x.len(),
    }
}

pub fn packed_get(_w: &World, a: &PackedArray, i: usize) -> Option<Value> {
    match a {
        PackedArray::Double(x) => x.get(i).map(|x| Value::Double(*x)),
        PackedArray::Float(x) => x.get(i).map(|x| Value::Float(*x)),
        PackedArray::Int32(x) => x.get(i).map(|x| Value::Int32(*x)),
        PackedArray::Int64(x) => x.get(i).map(|x| Value::Int64(*x)),
        PackedArray::UInt32(x) => x.get(i).map(|x| Value::UInt32(*x)),
        PackedArray::UInt64(x) => x.get(i).map(|x| Value::UInt64(*x)),
        PackedArray::SInt32(x) => x.get(i).map(|x| Value::SInt32(*x)),
        PackedArray::SInt64(x) => x.get(i).map(|x| Value::SInt64(*x)),
        PackedArray::Fixed32(x) => x.get(i).map(|x| Value::Fixed32(*x)),
        PackedArray::Fixed64(x) => x.get(i).map(|x| Value::Fixed64(*x)),
        PackedArray::SFixed32(x) => x.get(i).map(|x| Value::SFixed32(*x)),
        PackedArray::SFixed64(x) => x.get(i).map(|x| Value::SFixed64(*x)),
        PackedArray::Bool(x) => x.get(i).map(|x| Value::Bool(*x)),
    }
}

// ---------------------------------------------------------------- reference semantics: canonical form

/// The varint that carries the value of `u` for type `k` after decoding.
fn normal(k: K, u: u64) -> u64 {
    match k {
        Int32 => u as i32 as i64 as u64,
        UInt32 | SInt32 => u as u32 as u64,
        Bool => (u != 0) as u64,
        _ => u,
    }
}

/// What decoding `b` as message `idx` and encoding the result has to give: every varint in its
/// shortest form and truncated to its type, everything else untouched.
pub fn canon(w: &World, idx: usize, b: &[u8], out: &mut Vec<u8>) {
    let mut p = 0;
    while p < b.len() {
        let start = p;
        let tag = match get_varint(b, &mut p) {
            Some(t) => t,
            None => {
                out.extend_from_slice(&b[start..]);
                return;
            }
        };
        put_varint(out, tag);
        let wt = (tag & 7) as u8;
        let fd = w.field(idx, tag >> 3);
        let p0 = p;
        let how = how(fd, wt);
        match wt {
            0 => match get_varint(b, &mut p) {
                None => {
                    out.extend_from_slice(&b[p0..]);
                    return;
                }
                Some(u) => put_varint(out, if let How::Typed(k) = how { normal(k, u) } else { u }),
            },
            1 | 5 => {
                let n = if wt == 1 { 8 } else { 4 };
                if b.len() - p < n {
                    out.extend_from_slice(&b[p0..]);
                    return;
                }
                out.extend_from_slice(&b[p..p + n]);
                p += n;
            }
            2 => match chunk(b, &mut p) {
                None => {
                    out.extend_from_slice(&b[p0..]);
                    return;
                }
                Some(c) => {
                    let mut c2 = vec![];
                    match how {
                        How::Typed(Str) => c2.extend_from_slice(String::from_utf8_lossy(c).as_bytes()),
                        How::Typed(Msg(j)) => canon(w, j, c, &mut c2),
                        How::Packed(k) if k.wt() == 0 && k != Enum => {
                            let mut q = 0;
                            let mut bad = false;
                            while q < c.len() {
                                match get_varint(c, &mut q) {
                                    Some(u) => put_varint(&mut c2, normal(k, u)),
                                    None => {
                                        bad = true;
                                        break;
                                    }
                                }
                            }
                            if bad {
                                out.extend_from_slice(&b[p0..p]);
                                continue;
                            }
                        }
                        How::Packed(k) if (k.wt() == 1 && c.len() % 8 != 0) || (k.wt() == 5 && c.len() % 4 != 0) => {
                            out.extend_from_slice(&b[p0..p]);
                            continue;
                        }
                        _ => c2.extend_from_slice(c),
                    }
                    put_varint(out, c2.len() as u64);
                    out.extend_from_slice(&c2);
                }
            },
            _ => {
                out.extend_from_slice(&b[p..]);
                return;
            }
        }
    }
}

// ---------------------------------------------------------------- reference semantics: encoding

/// The bytes of `v`, tag excluded.
pub fn enc_value(v: &Value, out: &mut Vec<u8>) {
    match v {
        Value::Double(x) => out.extend_from_slice(&x.to_bits().to_le_bytes()),
        Value::Float(x) => out.extend_from_slice(&x.to_bits().to_le_bytes()),
        Value::Int32(x) => put_varint(out, *x as i64 as u64),
        Value::Int64(x) => put_varint(out, *x as u64),
        Value::UInt32(x) => put_varint(out, *x as u64),
        Value::UInt64(x) => put_varint(out, *x),
        Value::SInt32(x) => put_varint(out, zag32(*x) as u64),
        Value::SInt64(x) => put_varint(out, zag64(*x)),
        Value::Fixed32(x) => out.extend_from_slice(&x.to_le_bytes()),
        Value::Fixed64(x) => out.extend_from_slice(&x.to_le_bytes()),
        Value::SFixed32(x) => out.extend_from_slice(&x.to_le_bytes()),
        Value::SFixed64(x) => out.extend_from_slice(&x.to_le_bytes()),
        Value::Bool(x) => out.push(*x as u8),
        Value::String(x) => {
            put_varint(out, x.len() as u64);
            out.extend_from_slice(x.as_bytes());
        }
        Value::Bytes(x) => {
            put_varint(out, x.len() as u64);
            out.extend_from_slice(x);
        }
        Value::Enum(x) => put_varint(out, x.value as u64),
        Value::Message(m) => {
            let mut c = vec![];
            enc_msg(m, &mut c);
            put_varint(out, c.len() as u64);
            out.extend_from_slice(&c);
        }
        Value::Packed(a) => {
            let mut c = vec![];
            macro_rules! each {
                ($($n:ident)*) => { match a { $(PackedArray::$n(x) => for e in x { enc_value(&Value::$n(*e), &mut c) })* } };
            }
            each!(Double Float Int32 Int64 UInt32 UInt64 SInt32 SInt64 Fixed32 Fixed64 SFixed32 SFixed64 Bool);
            put_varint(out, c.len() as u64);
            out.extend_from_slice(&c);
        }
        Value::Incomplete(_, x) => out.extend_from_slice(x),
        Value::Unknown(UnknownValue::Varint(x)) => put_varint(out, *x as u64),
        Value::Unknown(UnknownValue::Fixed64(x)) => out.extend_from_slice(&x.to_le_bytes()),
        Value::Unknown(UnknownValue::Fixed32(x)) => out.extend_from_slice(&x.to_le_bytes()),
        Value::Unknown(UnknownValue::VariableLength(x)) => {
            put_varint(out, x.len() as u64);
            out.extend_from_slice(x);
        }
        Value::Unknown(UnknownValue::Invalid(_, x)) => out.extend_from_slice(x),
    }
}

pub fn value_wt(v: &Value) -> u8 {
    match v {
        Value::Double(_) | Value::Fixed64(_) | Value::SFixed64(_) => 1,
        Value::Float(_) | Value::Fixed32(_) | Value::SFixed32(_) => 5,
        Value::String(_) | Value::Bytes(_) | Value::Message(_) | Value::Packed(_) => 2,
        Value::Incomplete(w, _) => *w,
        Value::Unknown(UnknownValue::Varint(_)) => 0,
        Value::Unknown(UnknownValue::Fixed64(_)) => 1,
        Value::Unknown(UnknownValue::VariableLength(_)) => 2,
        Value::Unknown(UnknownValue::Fixed32(_)) => 5,
        Value::Unknown(UnknownValue::Invalid(w, _)) => *w,
        _ => 0,
    }
}

pub fn enc_msg(m: &MessageValue, out: &mut Vec<u8>) {
    for f in &m.fields {
        put_tag(out, f.number, value_wt(&f.value));
        enc_value(&f.value, out);
    }
    if let Some(g) = &m.garbage {
        out.extend_from_slice(g);
    }
}

// ---------------------------------------------------------------- equality

/// Same value; floating point numbers are compared bit by bit.
pub fn eq_value(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Double(x), Value::Double(y)) => x.to_bits() == y.to_bits(),
        (Value::Float(x), Value::Float(y)) => x.to_bits() == y.to_bits(),
        (Value::Int32(x), Value::Int32(y)) => x == y,
        (Value::Int64(x), Value::Int64(y)) => x == y,
        (Value::UInt32(x), Value::UInt32(y)) => x == y,
        (Value::UInt64(x), Value::UInt64(y)) => x == y,
        (Value::SInt32(x), Value::SInt32(y)) => x == y,
        (Value::SInt64(x), Value::SInt64(y)) => x == y,
        (Value::Fixed32(x), Value::Fixed32(y)) => x == y,
        (Value::Fixed64(x), Value::Fixed64(y)) => x == y,
        (Value::SFixed32(x), Value::SFixed32(y)) => x == y,
        (Value::SFixed64(x), Value::SFixed64(y)) => x == y,
        (Value::Bool(x), Value::Bool(y)) => x == y,
        (Value::String(x), Value::String(y)) => same(x.as_bytes(), y.as_bytes()),
        (Value::Bytes(x), Value::Bytes(y)) => same(x, y),
        (Value::Enum(x), Value::Enum(y)) => x.enum_ref == y.enum_ref && x.value == y.value,
        (Value::Message(x), Value::Message(y)) => eq_msg(x, y),
        (Value::Packed(x), Value::Packed(y)) => {
            if packed_kind(x) != packed_kind(y) || packed_len(x) != packed_len(y) {
                return false;
            }
            macro_rules! each {
                ($($n:ident)*) => { match (x, y) {
                    (PackedArray::Double(x), PackedArray::Double(y)) => x.iter().zip(y).all(|(x, y)| x.to_bits() == y.to_bits()),
                    (PackedArray::Float(x), PackedArray::Float(y)) => x.iter().zip(y).all(|(x, y)| x.to_bits() == y.to_bits()),
                    $((PackedArray::$n(x), PackedArray::$n(y)) => x.iter().zip(y).fold(true, |a, (x, y)| a & (x == y)),)*
                    _ => false
                } };
            }
            each!(Int32 Int64 UInt32 UInt64 SInt32 SInt64 Fixed32 Fixed64 SFixed32 SFixed64 Bool)
        }
        (Value::Incomplete(v, x), Value::Incomplete(w, y)) => v == w && same(x, y),
        (Value::Unknown(x), Value::Unknown(y)) => match (x, y) {
            (UnknownValue::Varint(x), UnknownValue::Varint(y)) => x == y,
            (UnknownValue::Fixed64(x), UnknownValue::Fixed64(y)) => x == y,
            (UnknownValue::Fixed32(x), UnknownValue::Fixed32(y)) => x == y,
            (UnknownValue::VariableLength(x), UnknownValue::VariableLength(y)) => same(x, y),
            (UnknownValue::Invalid(v, x), UnknownValue::Invalid(w, y)) => v == w && same(x, y),
            _ => false,
        },
        _ => false,
    }
}

pub fn eq_field(a: &FieldValue, b: &FieldValue) -> bool {
    a.number == b.number && eq_value(&a.value, &b.value)
}

pub fn eq_msg(a: &MessageValue, b: &MessageValue) -> bool {
    if a.msg_ref != b.msg_ref || a.fields.len() != b.fields.len() {
        return false;
    }
    for (x, y) in a.fields.iter().zip(&b.fields) {
        if !eq_field(x, y) {
            return false;
        }
    }
    match (&a.garbage, &b.garbage) {
        (None, None) => true,
        (Some(x), Some(y)) => same(x, y),
        _ => false,
    }
}

/// Observable digest of a decoded message, compared between symbolic and native execution.
pub fn emit_msg(m: &MessageValue) {
    emit(m.fields.len() as u64);
    for f in &m.fields {
        emit(f.number);
        let mut o = vec![];
        enc_value(&f.value, &mut o);
        emit(value_wt(&f.value) as u64);
        emit(o.len() as u64);
        // Long values are compared by their ends.
        let n = o.len();
        let s = if n > 64 { [&o[..32], &o[n - 32..]].concat() } else { o };
        for c in s.chunks(8) {
            emit(le(c));
        }
    }
    match &m.garbage {
        Some(g) => emit(g.len() as u64),
        None => emit(u64::MAX),
    }
}
