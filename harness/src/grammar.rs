//! Checks that schema texts are accepted exactly when they follow the grammar.
//!
//! Two recognizers over the tokens of a text judge it: the strict one takes what every proto3 compiler takes (within the
//! supported language), the liberal one also what some compilers take or what lies outside the supported language. A
//! text that the strict one takes must not be a syntax error, a text that the liberal one rejects must be one.
use crate::ast::*;
use crate::schema::same;
use crate::sym::*;
use crate::syntax::wide;
use crate::text::*;

struct G<'a> {
    t: &'a [String],
    strict: bool,
}

type P = Option<usize>;

fn is(a: &str, b: &str) -> bool {
    same(a.as_bytes(), b.as_bytes())
}

fn id(s: &str) -> bool {
    let b = s.as_bytes();
    !b.is_empty() && is_letter(b[0]) && b.iter().all(|&c| is_ident(c))
}

/// The value of an integer token.
fn int(s: &str) -> Option<u64> {
    let b = s.as_bytes();
    if b.is_empty() || !is_digit(b[0]) {
        return None;
    }
    let (r, d): (u64, &[u8]) = if b[0] != b'0' {
        (10, b)
    } else if b.len() > 2 && (b[1] == b'x' || b[1] == b'X') {
        (16, &b[2..])
    } else {
        (8, b)
    };
    let mut v = 0u64;
    for &c in d {
        let ok = match r {
            8 => is_octal(c),
            10 => is_digit(c),
            _ => is_hex(c),
        };
        if !ok {
            return None;
        }
        let x = (c & 15) + if c > b'9' { 9 } else { 0 };
        v = v.wrapping_mul(r).wrapping_add(x as u64);
    }
    Some(v)
}

/// Only the forms that occur in the texts.
fn float(s: &str) -> bool {
    is(s, "1.5") || is(s, ".5") || is(s, "1e3")
}

fn string(s: &str) -> bool {
    let b = s.as_bytes();
    b.len() > 1 && (b[0] == b'"' || b[0] == b'\'')
}

const NOT_TYPES: &[&str] = &[
    "message", "enum", "oneof", "option", "reserved", "extensions", "extend", "map", "group", "required", "optional", "repeated", "stream", "rpc",
    "service", "import", "package", "syntax", "returns",
];

const BUILTIN: &[&str] = &[
    "double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "string", "bytes",
];

impl<'a> G<'a> {
    fn at(&self, i: usize) -> &'a str {
        self.t.get(i).map(|s| s.as_str()).unwrap_or("")
    }
    fn tok(&self, i: usize, s: &str) -> P {
        if is(self.at(i), s) {
            Some(i + 1)
        } else {
            None
        }
    }
    fn ident(&self, i: usize) -> P {
        if id(self.at(i)) {
            Some(i + 1)
        } else {
            None
        }
    }
    fn full(&self, i: usize) -> P {
        let mut i = self.ident(i)?;
        while let Some(j) = self.tok(i, ".") {
            i = self.ident(j)?;
        }
        Some(i)
    }
    fn path(&self, i: usize) -> P {
        // Many compilers take the word for the whole type.
        if self.strict && BUILTIN.iter().any(|k| is(self.at(i), k)) && is(self.at(i + 1), ".") {
            return None;
        }
        self.full(self.tok(i, ".").unwrap_or(i))
    }
    fn number(&self, i: usize) -> P {
        let v = int(self.at(i))?;
        if self.strict && (v < 1 || v > 18999) {
            return None;
        }
        Some(i + 1)
    }
    fn string(&self, i: usize) -> P {
        if string(self.at(i)) {
            Some(i + 1)
        } else {
            None
        }
    }
    fn strings(&self, i: usize) -> P {
        let mut i = self.string(i)?;
        while !self.strict && self.string(i).is_some() {
            i += 1;
        }
        Some(i)
    }
    /// An integer with an optional minus sign; some take a plus sign, too.
    fn signed(&self, i: usize) -> P {
        let mut j = i;
        if is(self.at(i), "-") || !self.strict && is(self.at(i), "+") {
            j += 1;
        }
        int(self.at(j)).map(|_| j + 1)
    }
    fn option_name(&self, i: usize) -> P {
        let part = |i: usize, paren: bool| {
            if let Some(i) = self.ident(i) {
                return Some(i);
            }
            if !paren {
                return None;
            }
            let i = self.tok(i, "(")?;
            let i = if self.strict { self.full(i)? } else { self.path(i)? };
            self.tok(i, ")")
        };
        let mut i = part(i, true)?;
        while let Some(j) = self.tok(i, ".") {
            i = part(j, !self.strict)?;
        }
        Some(i)
    }
    fn constant(&self, i: usize) -> P {
        if let Some(j) = self.strings(i) {
            return Some(j);
        }
        let signed = is(self.at(i), "-") || !self.strict && is(self.at(i), "+");
        let j = if signed { i + 1 } else { i };
        let s = self.at(j);
        if int(s).is_some() || float(s) || is(s, "inf") || is(s, "nan") {
            // A name that begins like a word with a meaning of its own.
            if !self.strict && !signed {
                if let Some(k) = self.full(j) {
                    return Some(k);
                }
            }
            return Some(j + 1);
        }
        if signed {
            return None;
        }
        if let Some(k) = self.full(j) {
            if self.strict && k > j + 1 && (is(s, "true") || is(s, "false")) {
                return None;
            }
            return Some(k);
        }
        if !self.strict && is(s, "{") {
            let mut depth = 0;
            let mut k = j;
            while k < self.t.len() {
                if is(self.at(k), "{") {
                    depth += 1;
                }
                if is(self.at(k), "}") {
                    depth -= 1;
                    if depth == 0 {
                        return Some(k + 1);
                    }
                }
                k += 1;
            }
        }
        None
    }
    fn assign(&self, i: usize) -> P {
        let i = self.option_name(i)?;
        let i = self.tok(i, "=")?;
        self.constant(i)
    }
    fn option(&self, i: usize) -> P {
        let i = self.tok(i, "option")?;
        let i = self.assign(i)?;
        self.tok(i, ";")
    }
    fn brackets(&self, i: usize) -> P {
        match self.tok(i, "[") {
            None => Some(i),
            Some(mut i) => {
                i = self.assign(i)?;
                while let Some(j) = self.tok(i, ",") {
                    i = self.assign(j)?;
                }
                self.tok(i, "]")
            }
        }
    }
    fn plain_field(&self, i: usize) -> P {
        if self.strict && NOT_TYPES.iter().any(|k| is(self.at(i), k)) {
            return None;
        }
        let i = self.path(i)?;
        self.rest(i)
    }
    fn rest(&self, i: usize) -> P {
        let i = self.ident(i)?;
        let i = self.tok(i, "=")?;
        let i = self.number(i)?;
        let i = self.brackets(i)?;
        self.tok(i, ";")
    }
    fn field(&self, i: usize) -> P {
        if is(self.at(i), "repeated") || is(self.at(i), "optional") {
            if let Some(j) = self.plain_field(i + 1) {
                return Some(j);
            }
            if self.strict {
                return None;
            }
        }
        if let Some(j) = self.plain_field(i) {
            return Some(j);
        }
        if self.strict {
            return None;
        }
        // Groups and maps.
        let j = if is(self.at(i), "repeated") || is(self.at(i), "optional") { i + 1 } else { i };
        if let Some(j) = self.tok(j, "group") {
            let j = self.ident(j)?;
            let j = self.tok(j, "=")?;
            let j = self.number(j)?;
            let j = self.brackets(j)?;
            return self.body(j, 0);
        }
        let j = self.tok(i, "map")?;
        let j = self.tok(j, "<")?;
        let j = self.ident(j)?;
        let j = self.tok(j, ",")?;
        let j = self.path(j)?;
        let j = self.tok(j, ">")?;
        self.rest(j)
    }
    fn reserved(&self, i: usize) -> P {
        let first = self.tok(i, "reserved")?;
        let range = |i: usize| -> P {
            let strict = |i: usize| if self.strict { self.number(i) } else { self.signed(i) };
            let j = strict(i)?;
            let Some(k) = self.tok(j, "to") else { return Some(j) };
            if let Some(k) = self.tok(k, "max") {
                return Some(k);
            }
            let e = strict(k)?;
            if self.strict && int(self.at(i)) > int(self.at(k)) {
                return None;
            }
            Some(e)
        };
        let name = |i: usize| self.strings(i).or_else(|| if self.strict { None } else { self.ident(i) });
        let any = |i: usize| range(i).or_else(|| name(i));
        let list = |f: &dyn Fn(usize) -> P| -> P {
            let mut i = f(first)?;
            while let Some(j) = self.tok(i, ",") {
                i = f(j)?;
            }
            self.tok(i, ";")
        };
        if self.strict {
            list(&range).or_else(|| list(&name))
        } else {
            list(&any)
        }
    }
    /// The statements of a body, each by the first of the alternatives that takes it.
    /// Sort: 0: message, 1: oneof, 2: enum, 3: service, 4: rpc, 5: extend.
    fn body(&self, i: usize, sort: u8) -> P {
        let mut i = self.tok(i, "{")?;
        let mut items = 0;
        loop {
            if let Some(j) = self.tok(i, "}") {
                if self.strict && items == 0 && (sort == 1 || sort == 2) {
                    return None;
                }
                return Some(j);
            }
            if let Some(j) = self.tok(i, ";") {
                i = j;
                continue;
            }
            let mut o = self.option(i);
            if o.is_none() {
                o = match sort {
                    0 => self
                        .message(i)
                        .or_else(|| self.enum_(i))
                        .or_else(|| self.oneof(i))
                        .or_else(|| self.reserved(i))
                        .or_else(|| self.field(i))
                        .or_else(|| self.foreign(i)),
                    1 => self.plain_field(i),
                    2 => self.reserved(i).or_else(|| self.enum_value(i)),
                    3 => self.rpc(i),
                    4 => None,
                    _ => self.field(i),
                };
                items += 1;
            }
            i = o?;
        }
    }
    /// Statements outside of the supported language.
    fn foreign(&self, i: usize) -> P {
        if self.strict {
            return None;
        }
        if let Some(j) = self.tok(i, "extend") {
            let j = self.path(j)?;
            return self.body(j, 5);
        }
        let mut j = self.tok(i, "extensions")?;
        loop {
            j = self.signed(j)?;
            if let Some(k) = self.tok(j, "to") {
                j = self.tok(k, "max").or_else(|| self.signed(k))?;
            }
            match self.tok(j, ",") {
                Some(k) => j = k,
                None => break,
            }
        }
        let j = self.brackets(j)?;
        self.tok(j, ";")
    }
    fn message(&self, i: usize) -> P {
        let i = self.tok(i, "message")?;
        let i = self.ident(i)?;
        self.body(i, 0)
    }
    fn oneof(&self, i: usize) -> P {
        let i = self.tok(i, "oneof")?;
        let i = self.ident(i)?;
        self.body(i, 1)
    }
    fn enum_(&self, i: usize) -> P {
        let i = self.tok(i, "enum")?;
        let i = self.ident(i)?;
        self.body(i, 2)
    }
    fn enum_value(&self, i: usize) -> P {
        if self.strict && (is(self.at(i), "option") || is(self.at(i), "reserved")) {
            return None;
        }
        let i = self.ident(i)?;
        let i = self.tok(i, "=")?;
        let i = self.signed(i)?;
        let mut i = self.brackets(i)?;
        while !self.strict && is(self.at(i), "[") {
            i = self.brackets(i)?;
        }
        self.tok(i, ";")
    }
    fn service(&self, i: usize) -> P {
        let i = self.tok(i, "service")?;
        let i = self.ident(i)?;
        self.body(i, 3)
    }
    fn rpc(&self, i: usize) -> P {
        let i = self.tok(i, "rpc")?;
        let i = self.ident(i)?;
        let i = self.arg(i)?;
        let i = self.tok(i, "returns")?;
        let i = self.arg(i)?;
        if let Some(j) = self.tok(i, ";") {
            return Some(j);
        }
        self.body(i, 4)
    }
    fn arg(&self, i: usize) -> P {
        let i = self.tok(i, "(")?;
        if let Some(j) = self.tok(i, "stream") {
            if let Some(k) = self.path(j).and_then(|j| self.tok(j, ")")) {
                return Some(k);
            }
            if self.strict {
                return None;
            }
        }
        let j = self.path(i)?;
        self.tok(j, ")")
    }
    fn syntax(&self, i: usize) -> P {
        if !is(self.at(i), "syntax") {
            // Other compilers take this for an older version of the language.
            return if self.strict { None } else { Some(i) };
        }
        let i = self.tok(i, "syntax")?;
        let i = self.tok(i, "=")?;
        if !is(self.at(i), "\"proto3\"") && !is(self.at(i), "'proto3'") {
            return None;
        }
        self.tok(i + 1, ";")
    }
    fn file(&self) -> bool {
        let Some(mut i) = self.syntax(0) else { return false };
        let mut packages = 0;
        while i < self.t.len() {
            if let Some(j) = self.tok(i, "package").and_then(|j| self.full(j)).and_then(|j| self.tok(j, ";")) {
                packages += 1;
                if self.strict && packages > 1 {
                    return false;
                }
                i = j;
                continue;
            }
            let j = self
                .tok(i, ";")
                .or_else(|| {
                    let j = self.tok(i, "import")?;
                    let j = self.tok(j, "weak").or_else(|| self.tok(j, "public")).unwrap_or(j);
                    let j = self.strings(j)?;
                    self.tok(j, ";")
                })
                .or_else(|| self.option(i))
                .or_else(|| self.message(i))
                .or_else(|| self.enum_(i))
                .or_else(|| self.service(i))
                .or_else(|| self.foreign(i));
            match j {
                Some(j) => i = j,
                None => return false,
            }
        }
        true
    }
}

/// Some(true): must be accepted, Some(false): must be a syntax error.
fn judge(t: &[String]) -> Option<bool> {
    if (G { t, strict: true }).file() {
        return Some(true);
    }
    // Many compilers take a byte order mark at the start.
    let t = if !t.is_empty() && is(&t[0], "\u{feff}") { &t[1..] } else { t };
    if (G { t, strict: false }).file() {
        return None;
    }
    Some(false)
}

/// Tokens of more than one character other than words. The ones at the end are none.
const SIGNS: &[&str] = &[
    "0x1F", "07", "17", "1.5", ".5", "1e3", "\"a\"", "'b'", "''", "\"proto2\"", "M . I", "- 7", "08", "0x", "_a", "$", "\u{e9}", "\u{feff}", "; ;", "{ }", "[ ]", "option a = 1 ;",
    "reserved 1 ;", "int32 y = 55 ;", "repeated M z = 56 ;", "optional int32 w = 57 ;", "oneof p { int32 v = 58 ; }", "message X { }", "enum Y { V = 0 ; }", "V = 0 ;", "service U { }",
    "rpc P ( M ) returns ( M ) ;", "import 'x' ;", "package k ;", "[ x = 1 ]",
];

fn base(t: u64) -> Vec<String> {
    if t < 3 {
        return tokens(&wide(t)[0]).into_iter().map(|t| t.s).collect();
    }
    const MORE: &str = "syntax = 'proto3' ; import weak 'a' ; ; option ( a . b ) . c = -  5 ; message M { option o = inf ; reserved 3 , 5 to 7 ; \
        reserved \"q\" , 'r' ; optional int32 f = 1 [ a = true , ( b ) = .5 ] ; ; oneof o { option p = nan ; M g = 2 [ c = d . e ] ; ; } enum E { A = - 0x1F [ g = 'h' ] ; } } \
        service S { ; option x = 1e3 ; rpc R ( stream . M ) returns ( M ) { ; option y = 07 ; } }";
    MORE.split_ascii_whitespace().map(|s| s.to_string()).collect()
}

fn verdict(t: &[String]) {
    let want = judge(t);
    let o = outcome(&parse(&[t.join(" ")]));
    emit(o);
    match want {
        None => cover(10),
        Some(w) => {
            cover(w as u64);
            check((o != 1) == w, 2200 + w as u64);
        }
    }
}

/// One token put before another one or instead of it. Parameters: text, instead, first position / 16.
#[no_mangle]
pub extern "C" fn h_c22() {
    let mut t = base(p(0));
    let new = SIGNS[choice(SIGNS.len() as u64) as usize];
    let at = (p(2) * 16 + choice(16)) as usize;
    if at > t.len() || at == t.len() && p(1) != 0 {
        return cover(11);
    }
    if p(1) != 0 {
        t.remove(at);
    }
    // What would be several tokens is written as such.
    for s in new.split(' ').rev() {
        t.insert(at, s.to_string());
    }
    verdict(&t);
}

/// Tokens left out, doubled, exchanged, or everything before or behind left out. Parameters: text.
#[no_mangle]
pub extern "C" fn h_c22_edit() {
    let mut t = base(p(0));
    let at = choice(t.len() as u64) as usize;
    match choice(7) {
        0 => {
            t.remove(at);
        }
        1 => t.insert(at, t[at].clone()),
        2 => {
            if at + 1 < t.len() {
                t.swap(at, at + 1)
            }
        }
        3 => t.truncate(at),
        4 => {
            t.drain(..at);
        }
        5 => {
            t.drain(at..(at + 2).min(t.len()));
        }
        _ => {
            let x = t[at..(at + 2).min(t.len())].to_vec();
            for s in x.into_iter().rev() {
                t.insert(at, s);
            }
        }
    }
    verdict(&t);
}

/// Any `n` characters before a token or instead of it. Parameters: text, instead, first position / 16, characters.
#[no_mangle]
pub extern "C" fn h_c22_char() {
    let mut t = base(p(0));
    let n = p(3) as usize;
    let c = ascii(n);
    let at = (p(2) * 16 + choice(16)) as usize;
    if at > t.len() || at == t.len() && p(1) != 0 {
        return cover(11);
    }
    // Quotes reach further than one token. White space is none, but which characters it has is not the same everywhere.
    for &b in c.as_bytes() {
        assume((b != b'"') & (b != b'\'') & (b > b' '));
        // Several characters that are separate tokens also where there is no space.
        assume(n == 1 || !is_ident(b) & (b != b'.') & (b != b'/'));
    }
    if p(1) != 0 {
        t.remove(at);
    }
    for i in (0..n).rev() {
        t.insert(at, c[i..i + 1].to_string());
    }
    verdict(&t);
}

/// Any name before a token or instead of it. Parameters: text, instead, first position / 16, characters, alphabet.
#[no_mangle]
pub extern "C" fn h_c22_name() {
    let mut t = base(p(0));
    let n = p(3) as usize;
    // Longer ones are of small letters, or end in two digits.
    let c = match p(4) {
        0 => ident(n),
        1 => class(n, |b| (b >= b'a') & (b <= b'z')),
        _ => class(n - 2, |b| (b >= b'a') & (b <= b'z')) + &class(2, is_digit),
    };
    let at = (p(2) * 16 + choice(16)) as usize;
    if at > t.len() || at == t.len() && p(1) != 0 {
        return cover(11);
    }
    if p(1) != 0 {
        t[at] = c;
    } else {
        t.insert(at, c);
    }
    verdict(&t);
}

/// The version in the syntax statement. Parameters: characters, quote before, quote behind.
#[no_mangle]
pub extern "C" fn h_c22_version() {
    let c = ascii(p(0) as usize);
    let q = |i| if p(i) == 0 { "\"" } else { "'" };
    for &b in c.as_bytes() {
        assume((b != b'"') & (b != b'\'') & (b != b'\\'));
    }
    let o = outcome(&parse(&[format!("syntax = {}{}{} ; message M {{ }}", q(1), c, q(2))]));
    emit(o);
    let want = p(1) == p(2) && is(&c, "proto3");
    cover(want as u64);
    check((o != 1) == want, 2202);
}
