//! Checks of the parser: what it accepts, and what the context says of the text.
use crate::ast::*;
use crate::schema::{same, K, KINDS};
use crate::sym::*;
use protofish::context::*;

// ------------------------------------------------------------------ symbolic text

pub fn ascii(n: usize) -> String {
    let mut b = vec![0u8; n];
    fill(&mut b);
    for x in &b {
        assume(*x < 128);
    }
    unsafe { String::from_utf8_unchecked(b) }
}

/// Every string of `n` bytes.
pub fn utf8(n: usize) -> String {
    let mut b = vec![0u8; n];
    fill(&mut b);
    match String::from_utf8(b) {
        Ok(s) => s,
        Err(_) => {
            assume(false);
            unreachable!()
        }
    }
}

pub fn is_letter(b: u8) -> bool {
    ((b >= b'a') & (b <= b'z')) | ((b >= b'A') & (b <= b'Z'))
}
pub fn is_digit(b: u8) -> bool {
    (b >= b'0') & (b <= b'9')
}
pub fn is_ident(b: u8) -> bool {
    is_letter(b) | is_digit(b) | (b == b'_')
}
pub fn is_octal(b: u8) -> bool {
    (b >= b'0') & (b <= b'7')
}
pub fn is_hex(b: u8) -> bool {
    is_digit(b) | ((b >= b'a') & (b <= b'f')) | ((b >= b'A') & (b <= b'F'))
}

/// `n` bytes that satisfy `f`.
pub fn class(n: usize, f: fn(u8) -> bool) -> String {
    let mut b = vec![0u8; n];
    fill(&mut b);
    for x in &b {
        assume(f(*x) & (*x < 128));
    }
    unsafe { String::from_utf8_unchecked(b) }
}

/// Any identifier of `n` characters.
pub fn ident(n: usize) -> String {
    let mut s = class(1, is_letter);
    s.push_str(&class(n - 1, is_ident));
    s
}

/// Any single letter of the first `n` capital ones; from 10 on, any identifier of `n - 9` characters.
pub fn cap(n: u64) -> String {
    if n >= 10 {
        return ident(n as usize - 9);
    }
    let b = u8_();
    assume((b >= b'A') & ((b as u64) < b'A' as u64 + n));
    unsafe { String::from_utf8_unchecked(vec![b]) }
}

pub fn parse(files: &[String]) -> Result<Context, ParseError> {
    Context::parse(files)
}

/// 0: a context, 1: syntax, 2: duplicate, 3: not found, 4: kind.
pub fn outcome(r: &Result<Context, ParseError>) -> u64 {
    match r {
        Ok(_) => 0,
        Err(ParseError::SyntaxError { .. }) => 1,
        Err(ParseError::DuplicateType { .. }) => 2,
        Err(ParseError::TypeNotFound { .. }) => 3,
        Err(ParseError::InvalidTypeKind { .. }) => 4,
        Err(_) => 5,
    }
}

const HEAD: &str = "syntax=\"proto3\";";

pub fn must(files: &[String], code: u64) -> Context {
    match parse(files) {
        Ok(c) => c,
        Err(_) => {
            check(false, code);
            unreachable!()
        }
    }
}

// ------------------------------------------------------------------ C11: the parser is total

/// Texts with a hole (`@`); `$` stands for the syntax statement.
const HOLES: &[&str] = &[
    "@",
    "$@",
    "@$",
    "syntax@\"proto3\";",
    "syntax=\"proto@\";",
    "$package @;",
    "$package a@;",
    "$import @;",
    "$import \"@\";",
    "$option @;",
    "$option a=@;",
    "$option (@)=1;", // 11
    "$message @{}",
    "$message M@",
    "$message M{@",
    "$message M{@}",
    "$message M{@ f=1;}",
    "$message M{int32 @=1;}",
    "$message M{int32 f=@;}",
    "$message M{int32 f=1@;}",
    "$message M{int32 f=1[@];}",
    "$message M{int32 f=1[@=1];}", // 21
    "$message M{int32 f=1[a=@];}",
    "$message M{int32 f=1[a=1@];}",
    "$message M{int32 f=1[a=\"@\"];}",
    "$message M{int32 f=1[a='\\@'];}",
    "$message M{int32 f=1[a=-@];}",
    "$message M{int32 f=1[a=1.@];}",
    "$message M{int32 f=1[a=1e@];}",
    "$message M{int32 f=1[a=0x@];}",
    "$message M{int32 f=1[a=0@];}",
    "$message M{int32 f=1,@];}", // 31
    "$message M{repeated @ f=1;}",
    "$message M{.@ f=1;}",
    "$message M{M@ f=1;}",
    "$message M{M.@ f=1;}",
    "$message M{oneof @{}}",
    "$message M{oneof o{@}}",
    "$message M{oneof o{int32 f=@;}}",
    "$message M{reserved @;}",
    "$message M{reserved \"@\";}",
    "$message M{reserved 1 to @;}", // 41
    "$message M{map<@>f=1;}",
    "$message M{map@}",
    "$message M{message N{@}}",
    "$message M{enum N{@}}",
    "$message M{option @=1;}",
    "$message M{option a=@;}",
    "$enum @{}",
    "$enum E{@}",
    "$enum E{A=@;}",
    "$enum E{A=-@;}", // 51
    "$enum E{A=1@;}",
    "$enum E{A=1[@];}",
    "$enum E{A=1[a=1]@;}",
    "$enum E{reserved @;}",
    "$enum E{option a=@;}",
    "$service @{}",
    "$service S{@}",
    "$message M{}service S{rpc R(@)returns(M);}",
    "$message M{}service S{rpc R(M)@(M);}",
    "$message M{}service S{rpc R(M)returns(M)@}", // 61
    "$message M{}service S{rpc R(M)returns(M){@}}",
    "$message M{}service S{rpc R(stream@M)returns(M);}",
    "$message M{}service S{option a=@;}",
    "$message M{}@",
    "$;@;",
    "$//@\n",
    "$/*@*/",
    "$/@",
    "\u{feff}@",
    "$message M{int32 f=1;@int32 g=2;}", // 71
    "$message M{int32 f=18446744073709551@;}",
    "$enum E{A=922337203685477580@;}",
    "$message M{int32 f=1[a=-922337203685477580@];}",
    "$message M{int32 f=0x1234567812345678@;}",
    "$message M{int32 f=017777777777777777777@;}",
    "$option a='\\x@';",
    "$option a=\"\\x4@\";",
    "$message M{int32 f=1[a='\\x41@'];}",
    "$enum E{A=0[a=\"\\1@\"];}",
    "$service S{option a='\\@\\@';}", // 81
    "$message M{reserved 18446744073709551@;}",
    "$message M{reserved 1 to -922337203685477580@;}",
    "$option a=1844674407370955161@;",
    "$enum E{A=-922337203685477580@;}",
    "$enum E{A=-0x800000000000000@;}",
    "$message M{oneof o{int32 f=1;@}}",
    "$message M{oneof o{option a=@;int32 f=1;}}",
    "$message M{oneof o{int32 f=1[@];}}",
    "$message M{map<int32,@>f=1;}",
    "$message M{map<int32,M>f=1[@];}", // 91
    "$message M{oneof o{M@ f=1;}}",
    "$message M{}service S{rpc R(M)returns(M){option a=@;}}",
    "$message M{}service S{rpc R(.@)returns(stream M);}",
    "$message M{}service M@{}",
    "$message M{message M{M @=1;}}",
    "$message M{message N{message O{@ f=1;}}}",
    "$message A{A f=1;A @=2;}",
    "$message A{A f=1;A g=@;}",
    "$enum A{F=1;G=@;}",
    "$enum A{F=1;@=2;}", // 101
    "$message A{oneof o{A f=1;}oneof @{A g=2;}}",
    "$service S{rpc @(S)returns(S);}",
    "$package a.b;message A{.a.@ f=1;}",
];

fn hole(i: usize, win: &str) -> String {
    let t = HOLES[i];
    let mut s = String::new();
    for c in t.chars() {
        match c {
            '$' => s.push_str(HEAD),
            '@' => s.push_str(win),
            c => s.push(c),
        }
    }
    s
}

/// Parameters: hole, bytes in it, alphabet (0: ASCII, 1: any).
#[no_mangle]
pub extern "C" fn h_c11() {
    let n = p(1) as usize;
    let win = if p(2) == 0 { ascii(n) } else { utf8(n) };
    let t = hole(p(0) as usize, &win);
    let r = parse(&[t]);
    let o = outcome(&r);
    emit(o);
    cover(o);
}

// ------------------------------------------------------------------ C12: literals

/// Where a literal can stand. The name of what it belongs to is always the same.
const LITS: &[&str] = &[
    "$message M{int32 f=@;}",
    "$message M{oneof o{int32 f=@;}}",
    "$enum E{A=@;}",
    "$message M{int32 f=1[a=@];}",
    "$message M{int32 f=1[b=7,a=@,c=9];}",
    "$message M{oneof o{int32 f=1[a=@];}}",
    "$enum E{A=1[a=@];}",
    "$message M{oneof o{option a=@;int32 f=1;}}",
    "$service S{option a=@;}",
    "$message M{}service S{rpc R(M)returns(M){option a=@;}}",
];

fn lit_text(i: usize, win: &str) -> String {
    let mut s = String::new();
    for c in LITS[i].chars() {
        match c {
            '$' => s.push_str(HEAD),
            '@' => s.push_str(win),
            c => s.push(c),
        }
    }
    s
}

enum Lit {
    Num(u64),
    Val(i64),
    Const(Constant),
}

/// What the context holds for the literal at position `i`.
fn lit_value(i: usize, c: &Context) -> Option<Lit> {
    let m = || c.get_message("M");
    let opt = |o: &[ProtoOption], k: usize| o.get(k).filter(|o| o.name == "a").map(|o| Lit::Const(o.value.clone()));
    match i {
        0 | 1 => m()?.get_field_by_name("f").map(|f| Lit::Num(f.number)),
        2 => {
            // Enum values are only reachable through their number.
            match c.get_type("E")? {
                TypeInfo::Enum(_) => Some(Lit::Val(0)),
                _ => None,
            }
        }
        3 | 5 => opt(&m()?.get_field(1)?.options, 0),
        4 => {
            let o = &m()?.get_field(1)?.options;
            if o.len() != 3 || o[0].name != "b" || o[2].name != "c" {
                return None;
            }
            opt(o, 1)
        }
        6 => match c.get_type("E")? {
            TypeInfo::Enum(e) => opt(&e.get_field_by_value(1)?.options, 0),
            _ => None,
        },
        7 => opt(&m()?.oneofs.get(0)?.options, 0),
        8 => opt(&c.get_service("S")?.options, 0),
        _ => opt(&c.get_service("S")?.rpc_by_name("R")?.options, 0),
    }
}

fn has_enum_value(c: &Context, v: i64) -> bool {
    match c.get_type("E") {
        Some(TypeInfo::Enum(e)) => match e.get_field_by_value(v) {
            Some(f) => f.value == v && f.name == "A",
            None => false,
        },
        _ => false,
    }
}

/// The literal is `mag`, negative or not (`None`: it does not fit 128 bits).
fn judge_int(pos: usize, text: &str, neg: bool, mag: Option<u128>) {
    judge_int_after(pos, text, neg, mag, 0)
}

/// The same after `more` other messages.
fn judge_int_after(pos: usize, text: &str, neg: bool, mag: Option<u128>, more: u64) {
    let fill: String = (0..more).map(|i| format!("message X{} {{ int32 a = 0x1 [b = 07]; X{} c = 2; }} ", i, i)).collect();
    let r = parse(&[lit_text(pos, text).replacen(HEAD, &format!("{}{}", HEAD, fill), 1)]);
    emit(outcome(&r));
    let fits = match mag {
        None => false,
        Some(m) if pos < 2 => !neg & (m <= u64::MAX as u128),
        Some(m) => (neg & (m <= 1 << 63)) | (!neg & (m < 1 << 63)),
    };
    if !fits {
        cover(1);
        check(outcome(&r) == 1, 1200);
        return;
    }
    cover(2);
    let m = mag.unwrap();
    let c = match r {
        Ok(c) => c,
        Err(_) => {
            check(false, 1201);
            return;
        }
    };
    let v = if neg { (m as u64).wrapping_neg() as i64 } else { m as u64 as i64 };
    match lit_value(pos, &c) {
        Some(Lit::Num(n)) => {
            emit(n);
            check(n == m as u64, 1202);
        }
        Some(Lit::Val(_)) => check(has_enum_value(&c, v), 1203),
        Some(Lit::Const(Constant::Integer(n))) => {
            emit(n as u64);
            check(n == v, 1204);
        }
        _ => check(false, 1205),
    }
}

fn digits(s: &str, radix: u128) -> Option<u128> {
    let mut v: u128 = 0;
    for c in s.bytes() {
        let d = match radix {
            16 => {
                let lower = c | 0x20;
                let is = (lower >= b'a') as u8;
                // Without a branch: 0-9 or a-f.
                (c & 15) + 9 * is * ((c >= b'A') as u8)
            }
            _ => c - b'0',
        };
        v = v * radix + d as u128;
    }
    Some(v)
}

/// Decimal, octal and hexadecimal literals. Parameters: position, radix, digits, sign (0: none, 1: -, 2: +).
#[no_mangle]
pub extern "C" fn h_c12_int() {
    let n = p(2) as usize;
    let (pre, ds, radix) = match p(1) {
        10 => {
            let mut s = class(1, |b| (b >= b'1') & (b <= b'9'));
            s.push_str(&class(n - 1, is_digit));
            ("", s, 10)
        }
        8 => ("0", class(n, is_octal), 8),
        _ => (if n % 2 == 0 { "0x" } else { "0X" }, class(n, is_hex), 16),
    };
    let sign = ["", "-", "+"][p(3) as usize];
    let text = format!("{}{}{}", sign, pre, ds);
    if p(0) < 2 && p(3) != 0 {
        // A field number has no sign.
        let r = parse(&[lit_text(p(0) as usize, &text)]);
        cover(3);
        check(outcome(&r) == 1, 1206);
        return;
    }
    judge_int(p(0) as usize, &text, p(3) == 1, digits(&ds, radix));
}

/// Octal and hexadecimal literals with many leading zeros. Parameters: position, radix, zeros, free digits, sign.
#[no_mangle]
pub extern "C" fn h_c12_zeros() {
    let n = p(3) as usize;
    let (pre, ds, radix) = match p(1) {
        8 => ("0", class(n, is_octal), 8),
        _ => ("0x", class(n, is_hex), 16),
    };
    let neg = p(4) == 1 && p(0) >= 2;
    let text = format!("{}{}{}{}", if neg { "-" } else { "" }, pre, "0".repeat(p(2) as usize), ds);
    judge_int(p(0) as usize, &text, neg, digits(&ds, radix));
}

/// Long literals, which mostly do not fit. Parameters: position, radix, digits, free digits at both ends, sign,
/// number of declarations before it.
#[no_mangle]
pub extern "C" fn h_c12_wide() {
    let (n, k) = (p(2) as usize, p(3) as usize);
    let (pre, f, radix): (&str, fn(u8) -> bool, u32) = match p(1) {
        8 => ("0", is_octal, 8),
        10 => ("", is_digit, 10),
        _ => ("0x", is_hex, 16),
    };
    let ds = format!("{}{}{}", class(k, f), "0".repeat(n - 2 * k), class(k, f));
    if radix == 10 {
        assume(ds.as_bytes()[0] != b'0');
    }
    let neg = p(4) == 1 && p(0) >= 2;
    let text = format!("{}{}{}", if neg { "-" } else { "" }, pre, ds);
    judge_int_after(p(0) as usize, &text, neg, digits(&ds, radix as _), p(5));
}

/// Decimal literals around the limits: the high digits are those of the limit, the low ones are free.
/// Parameters: position, limit (0: u64, 1: i64, 2: -i64), free low digits.
#[no_mangle]
pub extern "C" fn h_c12_limit() {
    let lim = if p(1) == 0 { "18446744073709551615" } else { "9223372036854775808" };
    let n = p(2) as usize;
    let low = class(n, is_digit);
    let text = format!("{}{}", &lim[..lim.len() - n], low);
    let mag = digits(&text, 10);
    let text = format!("{}{}", if p(1) == 2 { "-" } else { "" }, text);
    judge_int(p(0) as usize, &text, p(1) == 2, mag);
}

/// Any characters that occur in numbers. The lexer of the oracle decides what they are.
/// Parameters: position, length.
#[no_mangle]
pub extern "C" fn h_c12_lex() {
    let pos = p(0) as usize;
    let s = class(p(1) as usize, |b| is_hex(b) | (b == b'x') | (b == b'X') | (b == b'-') | (b == b'+'));
    let b = s.as_bytes();
    let (sign, rest) = match b[0] {
        b'-' => (1, &b[1..]),
        b'+' => (2, &b[1..]),
        _ => (0, b),
    };
    // Integers only: everything that could be a float or an identifier is left to the other entries.
    if rest.is_empty() {
        check(outcome(&parse(&[lit_text(pos, &s)])) == 1, 1210);
        cover(0);
        return;
    }
    let all = |f: fn(u8) -> bool, r: &[u8]| {
        for x in r {
            if !f(*x) {
                return false;
            }
        }
        true
    };
    let radix = if rest[0] == b'0' && rest.len() > 2 && (rest[1] == b'x' || rest[1] == b'X') && all(is_hex, &rest[2..]) {
        16
    } else if rest[0] == b'0' && all(is_octal, rest) {
        8
    } else if rest[0] != b'0' && all(is_digit, rest) {
        10
    } else {
        0
    };
    if radix == 0 {
        let r = parse(&[lit_text(pos, &s)]);
        cover(4);
        if pos < 3 {
            check(outcome(&r) == 1, 1211);
        } else if let Ok(c) = &r {
            // Not an integer, whatever it is.
            if let Some(Lit::Const(Constant::Integer(_))) = lit_value(pos, c) {
                check(false, 1212);
            }
        }
        return;
    }
    if sign != 0 && pos < 2 {
        check(outcome(&parse(&[lit_text(pos, &s)])) == 1, 1213);
        cover(5);
        return;
    }
    let ds = std::str::from_utf8(if radix == 16 { &rest[2..] } else { rest }).unwrap();
    judge_int(pos, &s, sign == 1, digits(ds, radix));
}

enum Str {
    Bytes(Vec<u8>),
    Reject,
    Free,
}

/// The string literal rules of the proto3 specification, for the text between two quotes.
fn unescape(b: &[u8], q: u8) -> Str {
    let mut o = vec![];
    let mut i = 0;
    let mut free = false;
    while i < b.len() {
        let c = b[i];
        if c == 0 || c == b'\n' {
            return Str::Reject;
        }
        if c == q {
            assume(false);
        }
        if c != b'\\' {
            o.push(c);
            i += 1;
            continue;
        }
        i += 1;
        if i == b.len() {
            // The closing quote is escaped: the literal does not end.
            return Str::Reject;
        }
        let c = b[i];
        i += 1;
        match c {
            b'a' => o.push(7),
            b'b' => o.push(8),
            b'f' => o.push(12),
            b'n' => o.push(10),
            b'r' => o.push(13),
            b't' => o.push(9),
            b'v' => o.push(11),
            b'\\' => o.push(b'\\'),
            b'\'' => o.push(b'\''),
            b'"' => o.push(b'"'),
            b'x' | b'X' => {
                if i + 1 < b.len() && is_hex(b[i]) && is_hex(b[i + 1]) {
                    let d = |c: u8| (c & 15) + 9 * ((c >= b'A') as u8);
                    o.push(d(b[i]) * 16 + d(b[i + 1]));
                    i += 2;
                } else if i < b.len() && is_hex(b[i]) {
                    // One digit: allowed by newer versions of the specification only.
                    free = true;
                    i += 1;
                } else {
                    return Str::Reject;
                }
            }
            c if is_octal(c) => {
                let mut v = (c - b'0') as u32;
                for _ in 0..2 {
                    if i < b.len() && is_octal(b[i]) {
                        v = v * 8 + (b[i] - b'0') as u32;
                        i += 1;
                    } else {
                        break;
                    }
                }
                if v > 255 {
                    return Str::Reject;
                }
                o.push(v as u8);
            }
            // Later additions to the specification.
            b'?' | b'u' | b'U' => free = true,
            _ => return Str::Reject,
        }
    }
    if free {
        Str::Free
    } else {
        Str::Bytes(o)
    }
}

/// Parameters: position, length, quote (0: double), alphabet (0: ASCII, 1: any), leading backslash.
#[no_mangle]
pub extern "C" fn h_c12_str() {
    let pos = p(0) as usize;
    let q = if p(2) == 0 { '"' } else { '\'' };
    let n = p(1) as usize;
    let mut body = String::new();
    if p(4) != 0 {
        body.push('\\');
    }
    body.push_str(&if p(3) == 0 { ascii(n) } else { utf8(n) });
    let want = unescape(body.as_bytes(), q as u8);
    let r = parse(&[lit_text(pos, &format!("{}{}{}", q, body, q))]);
    emit(outcome(&r));
    match want {
        Str::Free => cover(0),
        Str::Reject => {
            cover(1);
            check(outcome(&r) == 1, 1220);
        }
        Str::Bytes(w) => {
            cover(2);
            match r.ok().and_then(|c| lit_value(pos, &c)) {
                Some(Lit::Const(Constant::String(b))) => check(same(&b, &w), 1221),
                _ => check(false, 1222),
            }
        }
    }
}

/// Words. Parameters: position, length.
#[no_mangle]
pub extern "C" fn h_c12_word() {
    let pos = p(0) as usize;
    let s = ident(p(1) as usize);
    let r = parse(&[lit_text(pos, &s)]);
    let got = match r.ok().and_then(|c| lit_value(pos, &c)) {
        Some(Lit::Const(c)) => c,
        _ => {
            check(false, 1230);
            return;
        }
    };
    let want = if s == "true" {
        Constant::Bool(true)
    } else if s == "false" {
        Constant::Bool(false)
    } else if s == "inf" {
        Constant::Float(f64::INFINITY)
    } else if s == "nan" {
        Constant::Float(f64::NAN)
    } else {
        Constant::Ident(s)
    };
    cover(1);
    check(eq_const(&want, &got), 1231);
}

/// Floats with few digits. Parameters: position, form.
#[no_mangle]
pub extern "C" fn h_c12_float() {
    let pos = p(0) as usize;
    let a = choice(10);
    let b = choice(10);
    const P10: [f64; 11] = [1., 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10];
    let (text, want) = match p(1) {
        0 => (format!("{}.{}", a, b), (a * 10 + b) as f64 / 10.),
        1 => (format!("-{}.{}", a, b), -((a * 10 + b) as f64 / 10.)),
        2 => (format!(".{}{}", a, b), (a * 10 + b) as f64 / 100.),
        3 => (format!("{}{}.", a, b), (a * 10 + b) as f64),
        4 => (format!("{}e{}", a, b), a as f64 * P10[b as usize]),
        5 => (format!("{}E-{}", a, b), a as f64 / P10[b as usize]),
        6 => (format!("+{}.5e+{}", a, b), (a * 10 + 5) as f64 / 10. * P10[b as usize]),
        7 => (format!("- {}.{}", a, b), -((a * 10 + b) as f64 / 10.)),
        10 | 11 => {
            let c = choice(10);
            match p(1) {
                10 => (format!("{}.{}{}", a, b, c), (a * 100 + b * 10 + c) as f64 / 100.),
                _ => (format!("{}{}.{}07", a, b, c), (a * 10000 + b * 1000 + c * 100 + 7) as f64 / 1000.),
            }
        }
        8 => ("-inf".to_string(), f64::NEG_INFINITY),
        _ => ("+inf".to_string(), f64::INFINITY),
    };
    let r = parse(&[lit_text(pos, &text)]);
    match r.ok().and_then(|c| lit_value(pos, &c)) {
        Some(Lit::Const(Constant::Float(v))) => {
            emit(v.to_bits());
            check(v.to_bits() == want.to_bits(), 1240);
        }
        _ => check(false, 1241),
    }
    cover(1);
}

#[allow(dead_code)]
fn unused() -> (K, [K; 16]) {
    (K::Bool, KINDS)
}
