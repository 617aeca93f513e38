//! Literals: the text and the value they denote, made together.
use crate::gen::*;
use crate::rng::Rng;
use crate::term::*;
use crate::tok::*;
use num::bigint::{BigInt, BigUint};
use num::{One, Zero};

// ---- numbers ----------------------------------------------------------

/// Value of an integer literal, digit by digit.
pub fn int_value(s: &str) -> BigInt {
    let s: String = s.chars().filter(|c| *c != '_').collect();
    let (digits, radix): (&str, u32) = if let Some(r) = s.strip_prefix("0x") {
        (r, 16)
    } else if let Some(r) = s.strip_prefix("0b") {
        (r, 2)
    } else if let Some(r) = s.strip_prefix("0o") {
        (r, 8)
    } else if s.len() > 1 && s.starts_with('0') {
        (&s[1..], 8)
    } else {
        (&s, 10)
    };
    let mut v = BigInt::zero();
    for c in digits.chars() {
        v = v * radix + c.to_digit(radix).unwrap();
    }
    v
}

fn underscores(r: &mut Rng, s: &str) -> String {
    if !r.p(1, 4) {
        return s.to_string();
    }
    let mut out = String::new();
    let mut prev = false;
    for c in s.chars() {
        if prev && r.p(1, 3) {
            out.push('_');
        }
        out.push(c);
        prev = true;
    }
    out
}

/// A non-negative integer of interesting size.
pub fn random_uint(r: &mut Rng) -> BigUint {
    match r.below(10) {
        0 | 1 | 2 => BigUint::from(r.below(10)),
        3 => BigUint::from(r.below(1000)),
        4 => BigUint::from(r.next() & 0xffff_ffff),
        5 => BigUint::from(r.next()),
        6 | 7 => {
            // around powers of two
            let k = *r.pick(&[7u32, 8, 15, 16, 29, 30, 31, 32, 53, 61, 62, 63, 64, 65, 127, 128]);
            let p = BigUint::one() << k;
            match r.below(5) {
                0 => p - 1u32,
                1 => p + 1u32,
                2 => p - 2u32,
                _ => p,
            }
        }
        8 => {
            let n = 1 + r.below(40);
            let mut v = BigUint::zero();
            for _ in 0..n {
                v = (v << 16) + BigUint::from(r.next() & 0xffff);
            }
            v
        }
        _ => {
            let mut v = BigUint::one();
            for _ in 0..r.below(40) {
                v *= 10u32;
            }
            v
        }
    }
}

pub fn write_uint(r: &mut Rng, v: &BigUint, kind: usize) -> String {
    match kind {
        0 => {
            let mut s = v.to_str_radix(16);
            if r.coin() {
                s = s.chars().map(|c| if r.coin() { c.to_ascii_uppercase() } else { c }).collect();
            }
            if r.p(1, 6) {
                s = format!("00{}", s);
            }
            format!("0x{}", underscores(r, &s))
        }
        1 => format!("0b{}", underscores(r, &v.to_str_radix(2))),
        2 => format!("0o{}", underscores(r, &v.to_str_radix(8))),
        3 => format!("0{}{}", if r.p(1, 4) { "_" } else { "" }, underscores(r, &v.to_str_radix(8))),
        _ => underscores(r, &v.to_str_radix(10)),
    }
}

pub fn uint_text(r: &mut Rng) -> (String, BigInt) {
    let v = random_uint(r);
    let k = if r.p(1, 3) { r.below(4) } else { 9 };
    let s = write_uint(r, &v, k);
    (s, BigInt::from(v))
}

/// Decimal digits (without point) and exponent of ten of m * 2^e, exactly.
fn exact_decimal(m: &BigUint, e: i64) -> (String, i64) {
    if e >= 0 {
        ((m << (e as usize)).to_str_radix(10), 0)
    } else {
        let mut v = m.clone();
        for _ in 0..(-e) {
            v *= 5u32;
        }
        (v.to_str_radix(10), e)
    }
}

/// Write digits * 10^exp as a float literal.
fn write_float(r: &mut Rng, digits: &str, exp: i64) -> String {
    let d = digits.trim_start_matches('0');
    let d = if d.is_empty() { "0" } else { d };
    // Move the point to a random place.
    let style = r.below(4);
    let n = d.len() as i64;
    let point = n + exp; // digits before the point
    if style < 2 && point > -20 && point < 60 {
        let (a, b) = if point <= 0 {
            ("0".to_string(), format!("{}{}", "0".repeat((-point) as usize), d))
        } else if point >= n {
            (format!("{}{}", d, "0".repeat((point - n) as usize)), String::new())
        } else {
            (d[..point as usize].to_string(), d[point as usize..].to_string())
        };
        let b = if b.is_empty() { "0".to_string() } else { b };
        return format!("{}.{}{}", underscores(r, &a), underscores(r, &b), if r.p(1, 8) { "000" } else { "" });
    }
    let cut = if n == 1 { 1 } else { 1 + r.below((n - 1).min(30) as usize) };
    let e = exp + (n - cut as i64);
    let es = match r.below(3) {
        0 if e >= 0 => format!("+{}", e),
        1 if e >= 0 && e < 100 => format!("0{}", e),
        _ => format!("{}", e),
    };
    let ec = if r.coin() { 'e' } else { 'E' };
    if cut as i64 == n && r.coin() {
        format!("{}{}{}", underscores(r, d), ec, es)
    } else {
        let rest = if cut as i64 == n { "0" } else { &d[cut..] };
        format!("{}.{}{}{}", underscores(r, &d[..cut]), underscores(r, rest), ec, es)
    }
}

pub fn float_text(r: &mut Rng) -> (String, f64) {
    match r.below(10) {
        0 => {
            // Halfway between two doubles, just above, just below.
            let m = (1u64 << 52) + (r.next() & ((1 << 52) - 1));
            let e = r.below(140) as i64 - 70;
            let lo = scale(m, e);
            let hi = scale(m + 1, e);
            let mid = BigUint::from(m) * 2u32 + 1u32;
            let (mut d, mut x) = exact_decimal(&mid, e - 1);
            let f = match r.below(3) {
                0 => {
                    if m % 2 == 0 {
                        lo
                    } else {
                        hi
                    }
                }
                1 => {
                    d.push_str("0000001");
                    x -= 7;
                    hi
                }
                _ => {
                    // one unit below, with more digits
                    let v = BigUint::parse_bytes(d.as_bytes(), 10).unwrap() * 10u32 - 1u32;
                    d = v.to_str_radix(10);
                    x -= 1;
                    lo
                }
            };
            (write_float(r, &d, x), f)
        }
        1 => {
            // exactly a double
            let m = r.next() >> 11;
            let e = r.below(200) as i64 - 100;
            let (d, x) = exact_decimal(&BigUint::from(m), e);
            (write_float(r, &d, x), scale(m, e))
        }
        2 => {
            let (s, f) = *r.pick(&[
                ("0.0", 0.0),
                ("1.0", 1.0),
                ("0.1", 0.1),
                ("1e0", 1.0),
                ("0e5", 0.0),
                ("1e400", f64::INFINITY),
                ("1e-400", 0.0),
                ("5e-324", 5e-324),
                ("2.4703282292062328e-324", 5e-324),
                ("2e-324", 0.0),
                ("1.7976931348623157e308", f64::MAX),
                ("1.7976931348623159e308", f64::INFINITY),
                ("2.2250738585072014e-308", f64::MIN_POSITIVE),
                ("9007199254740993.0", 9007199254740992.0),
                ("9007199254740995.0", 9007199254740996.0),
                ("123_456.789_01", 123456.78901),
                ("1_0e1_0", 1e11),
                ("0.5", 0.5),
                ("00000.5", f64::NAN),
                ("3.14159", 3.14159),
            ]);
            if f.is_nan() {
                ("0.5".into(), 0.5)
            } else {
                (s.into(), f)
            }
        }
        3 | 4 => {
            // any finite double, in its shortest form and with all digits
            let f = loop {
                let f = f64::from_bits(r.next() & 0x7fff_ffff_ffff_ffff);
                if f.is_finite() {
                    break f;
                }
            };
            let s = match r.below(3) {
                0 => format!("{:e}", f),
                1 => format!("{:.16e}", f),
                _ => format!("{:.40E}", f),
            };
            (s, f)
        }
        _ => {
            let a = r.below(1000);
            let b = r.below(1000);
            let k = r.below(4);
            // a.bbb as a fraction of integers: exact division is correctly rounded
            let v = (a * 1000 + b) as f64 / 1000.0;
            match k {
                0 if b == 0 => (format!("{}e0", a), v),
                _ => (format!("{}.{:03}", a, b), v),
            }
        }
    }
}

fn scale(m: u64, e: i64) -> f64 {
    // exact while the result is normal
    (m as f64) * 2f64.powi(e as i32)
}

// ---- text -------------------------------------------------------------

#[derive(Clone, Default)]
pub struct Buf {
    pub text: String,
    pub bytes: Vec<u8>,
    pub isb: bool,
}

impl Buf {
    fn plain(&mut self, s: &str) {
        self.text.push_str(s);
        self.bytes.extend_from_slice(s.as_bytes());
    }
    fn esc(&mut self, t: &str, v: &str) {
        self.text.push_str(t);
        self.bytes.extend_from_slice(v.as_bytes());
    }
    fn lit(&self) -> T {
        lit(self.bytes.clone(), self.isb)
    }
}

/// How text is quoted.
#[derive(Clone, Copy)]
pub struct Quote {
    pub open: Option<char>,
    /// None in a here-document.
    pub term: Option<char>,
    pub nl: bool,
    pub bytes: bool,
}

const WORDS: &[&str] = &[
    "a", "abc", "Hello", " ", "x y", "0", "12", "-", "_", "a.b", ":", "@", "$x", "end", "é", "日本語", "😀", "z;", "~",
    "if x", "&", "%", "*", "=", "?", "!", ",", "^", "+1", "\t", "e\u{301}", "\u{3000}", "do |x|", "\r",
];

fn clash(q: &Quote, s: &str) -> bool {
    s.chars().any(|c| Some(c) == q.open || Some(c) == q.term || c == '\\' || c == '#')
}

fn plain_piece(r: &mut Rng, q: &Quote, b: &mut Buf) {
    for _ in 0..5 {
        let w = r.s(WORDS);
        if !clash(q, w) {
            b.plain(w);
            return;
        }
    }
    b.plain("z");
}

/// Content between double quotes or the like.
pub fn dq(r: &mut Rng, q: &Quote, b: &mut Buf, n: usize, cov: &mut dyn FnMut(&'static str)) {
    for _ in 0..n {
        match r.below(16) {
            0 => {
                let (t, v) = *r.pick(&[
                    ("\\n", "\n"),
                    ("\\t", "\t"),
                    ("\\s", " "),
                    ("\\r", "\r"),
                    ("\\0z", "\0z"),
                    ("\\e", "\x1b"),
                    ("\\a", "\x07"),
                    ("\\b", "\x08"),
                    ("\\v", "\x0b"),
                    ("\\f", "\x0c"),
                    ("\\\\", "\\"),
                    ("\\\"", "\""),
                    ("\\'", "'"),
                    ("\\?", "?"),
                    ("\\#", "#"),
                    ("\\#{x}", "#{x}"),
                    ("\\#@a", "#@a"),
                    ("\\#$a", "#$a"),
                ]);
                // The tail of an entry must not end the literal.
                if !clash(
                    &Quote { open: q.open, term: q.term, ..*q },
                    &t.chars().skip(2).filter(|c| *c != '#').collect::<String>(),
                ) {
                    cov("esc-simple");
                    b.esc(t, v);
                }
            }
            1 => {
                // any other character stands for itself
                let t = r.s(&["\\c", "\\d", "\\z", "\\q", "\\8", "\\9", "\\é", "\\日", "\\ ", "\\-", "\\G", "\\K", "\\(", "\\)", "\\/", "\\$", "\\@", "\\`", "\\{", "\\}", "\\|"]);
                if t == "\\c" {
                    continue;
                }
                cov("esc-other");
                b.esc(t, &t[1..]);
            }
            2 => {
                // \xHH
                let v = if q.bytes && r.p(1, 3) { 0x80 + r.below(0x80) } else { r.below(0x80) };
                let one = v < 16 && r.coin();
                let up = r.coin();
                let h = match (one, up) {
                    (true, true) => format!("{:X}", v),
                    (true, false) => format!("{:x}", v),
                    (false, true) => format!("{:02X}", v),
                    (false, false) => format!("{:02x}", v),
                };
                b.text.push_str(&format!("\\x{}", h));
                b.bytes.push(v as u8);
                if v > 0x7f {
                    b.isb = true;
                    cov("esc-byte");
                }
                cov("esc-hex");
                if one {
                    b.plain(r.s(&["z", "g", " "]));
                }
            }
            3 => {
                // octal
                let v = if q.bytes && r.p(1, 4) { 0x80 + r.below(0x80) } else { r.below(0x80) };
                let short = r.coin();
                let o = if short { format!("{:o}", v) } else { format!("{:03o}", v) };
                b.text.push_str(&format!("\\{}", o));
                b.bytes.push(v as u8);
                if v > 0x7f {
                    b.isb = true;
                    cov("esc-byte");
                }
                cov("esc-octal");
                if o.len() < 3 {
                    b.plain(r.s(&["z", "8", "9", " "]));
                } else if r.coin() {
                    b.plain(r.s(&["0", "7", "1"]));
                }
            }
            4 => {
                let c = random_char(r, 0xffff);
                let up = r.coin();
                let t = if up { format!("\\u{:04X}", c as u32) } else { format!("\\u{:04x}", c as u32) };
                cov("esc-u4");
                b.esc(&t, &c.to_string());
                if r.p(1, 3) {
                    b.plain(r.s(&["0", "f", "a1"]));
                }
            }
            5 => {
                if q.open == Some('{') {
                    continue;
                }
                let k = if r.p(1, 5) { 4 + r.below(12) } else { 1 + r.below(3) };
                let mut t = String::from("\\u{");
                let mut v = String::new();
                if r.p(1, 4) {
                    t.push(' ');
                }
                for i in 0..k {
                    if i > 0 {
                        t.push_str(r.s(&[" ", "  "]));
                    }
                    let c = random_char(r, 0x10ffff);
                    t.push_str(&match r.below(5) {
                        0 => format!("{:x}", c as u32),
                        1 => format!("{:X}", c as u32),
                        2 => format!("{:04X}", c as u32),
                        3 => format!("{:05x}", c as u32),
                        _ => format!("{:06x}", c as u32),
                    });
                    v.push(c);
                }
                if r.p(1, 4) {
                    t.push(' ');
                }
                t.push('}');
                cov("esc-u-brace");
                b.esc(&t, &v);
            }
            6 if q.nl => {
                cov("esc-newline");
                b.text.push_str("\\\n");
            }
            7 if q.nl => {
                cov("raw-newline");
                b.plain("\n");
            }
            8 => {
                // a plain '#'
                let t = r.s(&["#z", "# ", "##z", "#1", "#@1", "#@@1", "#$ ", "#-", "#\\n"]);
                cov("plain-hash");
                match t {
                    "#\\n" => b.esc(t, "#\n"),
                    t => {
                        if !clash(q, &t.replace('#', "")) {
                            b.plain(t)
                        }
                    }
                }
            }
            9 => {
                // delimiters
                if let Some(o) = q.open {
                    let t = q.term.unwrap();
                    cov("nested-delimiter");
                    let depth = nesting(r);
                    for i in 0..2 * depth {
                        b.plain(&if i < depth { o } else { t }.to_string());
                        b.plain(r.s(&["x", "x", "1 ", ""]));
                        if r.p(1, 4) {
                            dq(r, q, b, 1, cov);
                        }
                    }
                } else if let Some(t) = q.term {
                    if !"01234567abefnrstvxuMCc".contains(t) {
                        cov("escaped-delimiter");
                        b.esc(&format!("\\{}", t), &t.to_string());
                    }
                }
            }
            _ => plain_piece(r, q, b),
        }
    }
}

/// How deep brackets are nested within a literal.
fn nesting(r: &mut Rng) -> usize {
    *r.pick(&[1, 1, 1, 2, 3, 4, 6, 12])
}

pub fn random_char(r: &mut Rng, max: u32) -> char {
    loop {
        let v = match r.below(5) {
            0 => r.below(0x80) as u32,
            1 => r.below(0x800) as u32,
            2 => 0x3040 + r.below(0x60) as u32,
            3 => *r.pick(&[0u32, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff, 0x1f600]),
            _ => r.below(max as usize + 1) as u32,
        };
        if v <= max {
            if let Some(c) = char::from_u32(v) {
                return c;
            }
        }
    }
}

/// Content between single quotes or the like.
pub fn sq(r: &mut Rng, q: &Quote, b: &mut Buf, n: usize, cov: &mut dyn FnMut(&'static str)) {
    for _ in 0..n {
        match r.below(10) {
            0 => {
                cov("sq-backslash");
                b.esc("\\\\", "\\");
            }
            1 => {
                // kept as it is
                let t = r.s(&["\\n", "\\t", "\\x41", "\\u3042", "\\q", "\\#", "\\0", "\\ ", "\\é", "\\\"", "\\s"]);
                if !clash(q, &t[1..].replace('#', "")) {
                    cov("sq-kept-escape");
                    b.plain(t);
                }
            }
            2 => {
                let t = q.term.unwrap();
                cov("sq-escaped-delimiter");
                b.esc(&format!("\\{}", t), &t.to_string());
                if let (Some(o), true) = (q.open, r.coin()) {
                    b.esc(&format!("\\{}", o), &o.to_string());
                }
            }
            3 => {
                let t = r.s(&["#{x}", "#@a", "#$a", "#", "#{"]);
                if !t.chars().any(|c| Some(c) == q.open || Some(c) == q.term) {
                    cov("sq-hash");
                    b.plain(t);
                }
            }
            4 if q.open.is_some() => {
                cov("nested-delimiter");
                let depth = nesting(r);
                for i in 0..2 * depth {
                    b.plain(&if i < depth { q.open } else { q.term }.unwrap().to_string());
                    b.plain(r.s(&["x", "x", "1 ", ""]));
                    if r.p(1, 4) {
                        sq(r, q, b, 1, cov);
                    }
                }
            }
            5 if q.nl => {
                cov("raw-newline");
                b.plain("\n");
            }
            _ => plain_piece(r, q, b),
        }
    }
}

const BRACKETS: &[(char, char)] = &[('(', ')'), ('[', ']'), ('{', '}'), ('<', '>')];
const OTHERS: &[char] = &['!', '|', '/', ',', '^', '*', '"', '\'', '~', ':', ';', '-', '+', '.', '?', '&', '`', '_', '@'];

const OP_NAMES: &[&str] = &[
    "+", "-", "*", "/", "%", "**", "==", "===", "=~", "<=>", "<", "<=", ">", ">=", "<<", ">>", "!", "!=", "!~", "~",
    "^", "&", "|", "+@", "-@", "[]", "[]=", "`",
];

/// A character class, perhaps with others in it, and the pattern it stands for.
fn class(r: &mut Rng, depth: usize, t: &mut String, v: &mut String) {
    let mut put = |t: &mut String, v: &mut String, a: &str, b: &str| {
        t.push_str(a);
        v.push_str(b);
    };
    put(t, v, "[", "[");
    if r.p(1, 5) {
        put(t, v, "^", "^");
    }
    for _ in 0..1 + r.below(4) {
        match r.below(14) {
            0 | 1 if depth < 7 => class(r, depth + 1, t, v),
            2 if depth < 7 => {
                put(t, v, "x&&", "x&&");
                class(r, depth + 1, t, v);
            }
            3 => {
                let a = r.s(&["[:alpha:]", "[:space:]", "[:^digit:]", "a-z", "0-9", "\\d", "\\w", "\\W", "\\S", "\\h", "\\p{Alpha}", "\\u0041", "\\u{e9}", "\\-"]);
                put(t, v, a, a);
            }
            4 => put(t, v, "\\s", "[[:space:]]"),
            5 => put(t, v, "\\b", "\\x08"),
            6 => {
                let n = r.below(256);
                put(t, v, &format!("\\{:03o}", n), &format!("\\x{:02x}", n));
            }
            7 => {
                let n = r.below(256);
                put(t, v, &format!("\\x{:02x}", n), &format!("\\x{:02x}", n));
            }
            8 => {
                let a = r.s(&["\\]", "\\[", "\\\\", "\\/", "\\^", "\\&", "\\#", "\\ ", "\\n", "\\t", "\\r", "\\f", "\\v", "\\a", "\\.", "\\é"]);
                put(t, v, a, a);
            }
            9 => put(t, v, "\\e", "\\x1b"),
            10 | 11 => {
                // Blanks and comment signs are what they are.
                let a = r.s(&[" ", "  ", "\t", "#)", "# ", "#a", " # x"]);
                put(t, v, a, a);
            }
            _ => {
                let a = r.s(&["a", "abc", "é", "日", "0", "(", ")", "{", "}", "*", "+", "?", ".", "|", "$", "\"", "'", "<", ">", "!", ",", ":", "_"]);
                put(t, v, a, a);
            }
        }
    }
    put(t, v, "]", "]");
}

impl G {
    fn nl_ok(&self) -> bool {
        !self.flat && !self.here_pending && self.nonl == 0
    }
    fn delims(&mut self) -> (char, Option<char>, char) {
        if self.rng.p(2, 3) {
            let (a, b) = *self.rng.pick(BRACKETS);
            (a, Some(a), b)
        } else {
            let c = *self.rng.pick(OTHERS);
            (c, None, c)
        }
    }
    fn with_cov(&mut self, f: impl FnOnce(&mut Rng, &mut dyn FnMut(&'static str))) {
        let mut hits = vec![];
        f(&mut self.rng, &mut |k| hits.push(k));
        for h in hits {
            self.hit(h);
        }
    }
    fn len(&mut self) -> usize {
        *self.rng.pick(&[0, 1, 1, 2, 2, 3, 4, 8])
    }

    // ---- numbers ----

    pub fn uint_text(&mut self) -> (String, BigInt) {
        if self.f.num_rich {
            uint_text(&mut self.rng)
        } else {
            let n = self.rng.below(20);
            (n.to_string(), BigInt::from(n))
        }
    }
    pub fn number(&mut self) -> T {
        let rich = self.f.num_rich;
        let k = self.rng.below(if rich { 10 } else { 20 });
        match k {
            0 | 1 if rich => {
                self.hit("float");
                let (s, f) = float_text(&mut self.rng);
                self.ltok(flt(f), s)
            }
            0 => {
                self.hit("float");
                let n = self.rng.below(9);
                self.ltok(flt(n as f64 + 0.5), format!("{}.5", n))
            }
            2 => {
                self.hit("imaginary");
                if self.rng.coin() {
                    let n = if rich { random_uint(&mut self.rng) } else { BigUint::from(3u32) };
                    self.ltok(format!("imag:int:{}", n), format!("{}i", n))
                } else {
                    let (s, f) = if rich { float_text(&mut self.rng) } else { ("1.5".into(), 1.5) };
                    self.ltok(format!("imag:{}", flt(f)), format!("{}i", s))
                }
            }
            _ => {
                let (s, v) = self.uint_text();
                self.hit("integer");
                self.ltok(format!("int:{}", v), s)
            }
        }
    }
    pub fn neg_literal(&mut self) -> T {
        self.hit("negative-literal");
        if self.f.num_rich && self.rng.p(1, 3) {
            let (s, f) = float_text(&mut self.rng);
            self.ltok(flt(-f), format!("-{}", s))
        } else {
            let (s, v) = self.uint_text();
            self.ltok(format!("int:{}", -v), format!("-{}", s))
        }
    }

    // ---- strings ----

    fn one_string(&mut self) -> (usize, Buf) {
        let n = self.len();
        let nl = self.nl_ok();
        let mut b = Buf::default();
        match self.rng.below(10) {
            0 | 1 | 2 => {
                self.hit("string-single");
                let q = Quote { open: None, term: Some('\''), nl, bytes: true };
                self.with_cov(|r, c| sq(r, &q, &mut b, n, c));
                b.text = format!("'{}'", b.text);
            }
            3 => {
                self.hit("string-%q");
                let (o, open, t) = self.delims();
                let q = Quote { open, term: Some(t), nl, bytes: true };
                self.with_cov(|r, c| sq(r, &q, &mut b, n, c));
                b.text = format!("%q{}{}{}", o, b.text, t);
            }
            4 => {
                let (mut o, mut open, mut t) = self.delims();
                let pre = if self.rng.coin() && !"_".contains(o) { "%" } else { "%Q" };
                if pre == "%" && o == '_' {
                    (o, open, t) = ('(', Some('('), ')');
                }
                self.hit("string-%Q");
                let q = Quote { open, term: Some(t), nl, bytes: true };
                self.with_cov(|r, c| dq(r, &q, &mut b, n, c));
                b.text = format!("{}{}{}{}", pre, o, b.text, t);
            }
            _ => {
                self.hit("string-double");
                let q = Quote { open: None, term: Some('"'), nl, bytes: true };
                self.with_cov(|r, c| dq(r, &q, &mut b, n, c));
                b.text = format!("\"{}\"", b.text);
            }
        }
        let id = self.tk(b.text.clone());
        (id, b)
    }

    pub fn string(&mut self) -> T {
        let (s, b) = self.one_string();
        let mut x = b.lit();
        let mut e = s;
        if self.rng.p(1, 8) && b.text.starts_with(|c| c == '"' || c == '\'') {
            self.hit("string-adjacent");
            let k = 1 + self.rng.below(2);
            for _ in 0..k {
                let f = if self.rng.coin() { '"' } else { '\'' };
                let n = self.len();
                let q = Quote { open: None, term: Some(f), nl: self.nl_ok(), bytes: true };
                let mut b = Buf::default();
                self.with_cov(|r, c| if f == '"' { dq(r, &q, &mut b, n, c) } else { sq(r, &q, &mut b, n, c) });
                self.sep(Sep::Opt);
                e = self.tk(format!("{}{}{}", f, b.text, f));
                let (mut v, i) = x.raw.clone().unwrap();
                v.extend_from_slice(&b.bytes);
                x = lit(v, i || b.isb);
            }
        }
        x.loc = Some((s, e));
        x
    }

    /// `#{` statements `}` parts. `mk` makes the text of a piece.
    fn parts(
        &mut self,
        head: &str,
        tail: &str,
        n: usize,
        piece: &mut dyn FnMut(&mut G, bool) -> Buf,
    ) -> Vec<T> {
        let mut kids = vec![];
        let mut text = head.to_string();
        let mut first = true;
        for _ in 0..n {
            let b = piece(self, false);
            text.push_str(&b.text);
            kids.push(b.lit());
            if self.rng.p(1, 5) {
                // variable without braces
                self.hit("interp-var");
                let (n, k) = *self.rng.pick(&[
                    ("@a", "ivar:@a"),
                    ("@été", "ivar:@été"),
                    ("@@a", "cvar:@@a"),
                    ("$a", "gvar:$a"),
                    ("$1", "svar:101"),
                    ("$12", "svar:112"),
                    ("$~", "gvar:$~"),
                    ("$-w", "gvar:$-w"),
                    ("$&", "svar:0"),
                    ("$_x", "gvar:$_x"),
                ]);
                text.push('#');
                text.push_str(n);
                kids.push(leaf(k));
                // must not continue the name
                let re = head.starts_with('/') || head.starts_with("%r");
                let t = match self.rng.below(3) {
                    // whitespace is not significant in every regex
                    0 if !re => " z",
                    1 if !tail.starts_with('.') => ".z",
                    _ if !tail.starts_with('-') => "-z",
                    _ => ",z",
                };
                text.push_str(t);
                kids.push(lit(t.as_bytes().to_vec(), false));
                continue;
            }
            self.hit("interp");
            text.push_str("#{");
            if !first {
                self.sep(Sep::OptTerm);
            }
            self.opening(&text);
            if !first {
                self.act(0);
            }
            first = false;
            text = String::new();
            if self.here_pending {
                self.nonl += 1;
            }
            let nonl = self.here_pending;
            self.no_here += 1;
            let m = *self.rng.pick(&[1, 1, 1, 1, 1, 0, 2]);
            self.sep(Sep::OptTerm);
            let e = self.stmts(m);
            self.no_here -= 1;
            if nonl {
                self.nonl -= 1;
            }
            if m > 0 || self.next_sep.is_none() {
                self.sep(if nonl { Sep::Opt } else { Sep::OptTerm });
            }
            self.open -= 1;
            if let Some(x) = &e.raw {
                // A literal string in place is text as well.
                let mut l = lit(x.0.clone(), x.1);
                if e.tag.contains('\u{2}') {
                    l.tag = format!("\u{2}{}", l.tag);
                }
                kids.push(l);
            } else {
                kids.push(e);
            }
            text.push('}');
        }
        let b = piece(self, true);
        text.push_str(&b.text);
        kids.push(b.lit());
        text.push_str(tail);
        if !first {
            // The closing part belongs to the open construct before it.
            self.open += 1;
        }
        let fix = !first;
        self.tk(text);
        if fix {
            self.act(-1);
            self.open -= 1;
        }
        merge_text(kids)
    }

    /// Term of a text with parts: a plain string if nothing is interpolated.
    fn istr_t(kids: Vec<T>) -> T {
        t("istr", kids)
    }

    pub fn istring(&mut self) -> T {
        self.hit("istring");
        let (o, open, c, head) = match self.rng.below(4) {
            0 => {
                let (o, open, c) = self.delims();
                if o == '_' || o == '@' {
                    ('(', Some('('), ')', "%Q")
                } else {
                    (o, open, c, if self.rng.coin() { "%Q" } else { "%" })
                }
            }
            _ => ('"', None, '"', ""),
        };
        let bytes = self.rng.p(1, 3);
        let nl = self.nl_ok();
        let q = Quote { open, term: Some(c), nl, bytes };
        let n = 1 + self.rng.below(3);
        let mut depth = 0;
        let start = self.next_id;
        let mut kids = self.parts(&format!("{}{}", head, o), &c.to_string(), n, &mut |g, last| {
            let mut b = Buf::default();
            let k = g.len() / 2;
            // The pieces after the first interpolation may be on other lines.
            let q = Quote { nl: g.nl_ok(), ..q };
            g.with_cov(|r, cv| dq(r, &q, &mut b, k, cv));
            if let Some(o) = open {
                if !last && g.rng.p(1, 5) {
                    depth += 1;
                    b.plain(&o.to_string());
                }
                if last {
                    for _ in 0..depth {
                        b.plain(&c.to_string());
                    }
                }
            }
            b
        });
        if head.is_empty() && self.rng.p(1, 10) {
            self.hit("istring-adjacent");
            let mut b = Buf::default();
            let q = Quote { open: None, term: Some('\''), nl: self.nl_ok(), bytes };
            let k = self.len();
            self.with_cov(|r, cv| sq(r, &q, &mut b, k, cv));
            self.sep(Sep::Opt);
            self.tk(format!("'{}'", b.text));
            kids.push(b.lit());
            kids = merge_text(kids);
        }
        G::istr_t(kids).at(start, self.next_id - 1)
    }

    pub fn plain_quoted(&mut self) -> (String, Vec<u8>) {
        let n = self.len();
        let mut b = Buf::default();
        let dbl = self.rng.coin();
        let c = if dbl { '"' } else { '\'' };
        let q = Quote { open: None, term: Some(c), nl: false, bytes: false };
        self.with_cov(|r, cv| if dbl { dq(r, &q, &mut b, n, cv) } else { sq(r, &q, &mut b, n, cv) });
        (format!("{}{}{}", c, b.text, c), b.bytes)
    }

    pub fn xstring(&mut self) -> T {
        self.hit("xstring");
        if self.rng.coin() || self.small() {
            let n = self.len();
            let mut b = Buf::default();
            let q = Quote { open: None, term: Some('`'), nl: self.nl_ok(), bytes: false };
            self.with_cov(|r, cv| dq(r, &q, &mut b, n, cv));
            let id = self.tk(format!("`{}`", b.text));
            t("cmd", vec![b.lit()]).at(id, id)
        } else {
            let n = 1 + self.rng.below(2);
            let q = Quote { open: None, term: Some('`'), nl: false, bytes: false };
            let start = self.next_id;
            let kids = self.parts("`", "`", n, &mut |g, _| {
                let mut b = Buf::default();
                let k = g.len() / 2;
                let q = Quote { nl: g.nl_ok(), ..q };
                g.with_cov(|r, cv| dq(r, &q, &mut b, k, cv));
                b
            });
            t("cmd", vec![G::istr_t(kids)]).at(start, self.next_id - 1)
        }
    }

    pub fn char_lit(&mut self) -> T {
        self.hit("char");
        let mut b = Buf::default();
        match self.rng.below(6) {
            0 => {
                let (t, v) = *self.rng.pick(&[
                    ("\\n", "\n"),
                    ("\\t", "\t"),
                    ("\\s", " "),
                    ("\\\\", "\\"),
                    ("\\e", "\x1b"),
                    ("\\'", "'"),
                    ("\\0", "\0"),
                    ("\\q", "q"),
                    ("\\é", "é"),
                    ("\\x41", "A"),
                    ("\\101", "A"),
                    ("\\u3042", "あ"),
                    ("\\u{1F600}", "😀"),
                    ("\\u{41}", "A"),
                ]);
                b.esc(t, v);
            }
            1 => {
                b.text = "\\xff".into();
                b.bytes = vec![0xff];
                b.isb = true;
            }
            2 => b.plain(self.rng.s(&["é", "日", "😀", "ñ"])),
            3 => b.plain(self.rng.s(&["(", ")", "{", "}", "[", "]", "\"", "'", "#", "?", "/", "%", ":", ";", ",", "$", "@", "=", "+", "|"])),
            _ => b.plain(self.rng.s(&["a", "Z", "0", "_", "e"])),
        }
        let id = self.tk(format!("?{}", b.text));
        let mut r = b.lit();
        r.loc = Some((id, id));
        r
    }

    pub fn symbol(&mut self) -> T {
        self.hit("symbol");
        let simple = |g: &mut G, s: &str| g.ltok(format!("sym:{:?}", s), format!(":{}", s));
        match self.rng.below(12) {
            0 => {
                self.hit("symbol-operator");
                let n = self.rng.s(OP_NAMES);
                simple(self, n)
            }
            1 => {
                let n = self.rng.s(KEYWORDS);
                simple(self, n)
            }
            2 => {
                let n = self.rng.s(&["a=", "foo=", "Foo=", "é=", "end=", "a?", "b!", "Foo?", "nil", "self", "__FILE__"]);
                simple(self, n)
            }
            3 => {
                let n = self.rng.s(&["@a", "@@a", "@foo_1", "@@_x", "@aé"]);
                simple(self, n)
            }
            4 => {
                let n = self.rng.s(CONSTS);
                simple(self, n)
            }
            5 | 6 => {
                self.hit("symbol-quoted");
                let (t, b) = self.plain_quoted();
                let id = self.tk(format!(":{}", t));
                let mut r = leaf(format!("sym:{:?}", String::from_utf8(b).unwrap()));
                r.loc = Some((id, id));
                r
            }
            7 if !self.small() && self.f.istr > 0 => {
                self.hit("dsym");
                let q = Quote { open: None, term: Some('"'), nl: false, bytes: false };
                let start = self.next_id;
                let kids = self.parts(":\"", "\"", 1, &mut |g, _| {
                    let mut b = Buf::default();
                    let k = g.len() / 2;
                    g.with_cov(|r, cv| dq(r, &q, &mut b, k, cv));
                    b
                });
                t(".to_sym", vec![G::istr_t(kids), t("args", vec![])]).at(start, self.next_id - 1)
            }
            _ => {
                let n = if self.rng.coin() { self.local_name() } else { self.rng.s(METHODS).to_string() };
                simple(self, &n)
            }
        }
    }

    pub fn percent_list(&mut self) -> T {
        let sym = self.rng.coin();
        self.hit(if sym { "%i" } else { "%w" });
        let (o, open, c) = self.delims();
        let (o, open, c) = if o == '\\' { ('(', Some('('), ')') } else { (o, open, c) };
        let n = self.rng.below(5);
        let mut text = format!("%{}{}", if sym { "i" } else { "w" }, o);
        let mut kids = vec![];
        let nl = self.nl_ok();
        let space = |g: &mut G| -> &'static str {
            if nl && g.rng.p(1, 4) {
                g.rng.s(&["\n", " \n  ", "\n\n"])
            } else {
                g.rng.s(&[" ", " ", "  ", "\t", " \t "])
            }
        };
        if self.rng.p(1, 4) {
            text.push_str(space(self));
        }
        for i in 0..n {
            if i > 0 {
                text.push_str(space(self));
            }
            let mut b = Buf::default();
            loop {
                let w = self.rng.s(&["a", "foo", "B1", "é", "日本", "a-b", "#{x}", "#", "1", "a,b", "\"q\"", "x=", "?!", "@a", ":s", "\u{3000}x", "x\u{a0}y", "\u{3000}", "\u{a0}", "\u{2003}\u{85}", "\u{feff}x", "\u{200b}", "\u{2028}"]);
                if !w.chars().any(|x| Some(x) == open || x == c) {
                    b.plain(w);
                    break;
                }
            }
            match self.rng.below(12) {
                0 => b.esc("\\\\", "\\"),
                1 => b.esc(&format!("\\{}", c), &c.to_string()),
                2 if open.is_some() => b.plain(&format!("{}z{}", o, c)),
                3 => b.plain("\\n"),
                _ => {}
            }
            if b.text.ends_with("\\n") && c == 'n' {
                continue;
            }
            text.push_str(&b.text);
            let s = String::from_utf8(b.bytes.clone()).unwrap();
            kids.push(if sym { leaf(format!("sym:{:?}", s)) } else { lit(b.bytes, false) });
        }
        if self.rng.p(1, 4) {
            text.push_str(space(self));
        }
        text.push(c);
        let id = self.tk(text);
        array(kids).at(id, id)
    }

    // ---- regular expressions ----

    fn regex_piece(&mut self, x: bool, pct: Option<(Option<char>, char)>, b: &mut Buf, start: bool) {
        // pct: a %r literal, where everything is kept as it is.
        let kept = pct.is_some();
        let nl = self.nl_ok();
        let r = &mut self.rng;
        let bad = |s: &str| match pct {
            Some((o, c)) => s.chars().any(|k| Some(k) == o || k == c),
            None => false,
        };
        let k = r.below(22);
        let (t, v): (String, String) = match k {
            0 => {
                let t = r.s(&["\\d", "\\w+", "\\W", "\\D", "\\S", "\\h", "\\A", "\\z", "\\Z", "\\.", "\\*", "\\(", "\\[", "\\]", "\\\\", "\\-", "\\B", "\\p{Alpha}", "\\u0041", "\\$", "\\^", "\\|", "\\?", "\\+", "\\)", "\\{", "\\}", "\\é", "\\G", "\\K", "\\R", "\\#", "\\ ", "\\/"]);
                (t.into(), t.into())
            }
            1 => {
                let (t, v) = *r.pick(&[
                    ("\\s", "[[:space:]]"),
                    ("\\s+", "[[:space:]]+"),
                    ("\\e", "\\x1b"),
                    ("\\a", "\\a"),
                    ("\\n", "\\n"),
                    ("\\r", "\\r"),
                    ("\\t", "\\t"),
                    ("\\f", "\\f"),
                    ("\\v", "\\v"),
                    ("\\b", "\\b"),
                ]);
                (t.into(), if kept { t.into() } else { v.into() })
            }
            2 => {
                let v = r.below(256);
                let one = v < 16 && r.coin();
                let t = if one { format!("\\x{:x}z", v) } else { format!("\\x{:02x}", v) };
                let w = if kept { t.clone() } else { format!("\\x{:02x}{}", v, if one { "z" } else { "" }) };
                (t, w)
            }
            3 => {
                // back reference
                let t = format!("(a)\\{}{}", 1 + r.below(9), r.s(&["z", "", "b", "."]));
                // must not be followed by a digit
                let t = if t.ends_with(|c: char| c.is_ascii_digit()) { t + "z" } else { t };
                (t.clone(), t)
            }
            4 => {
                // octal: a leading zero, or two or three digits
                let v = r.below(0o400);
                let o = match r.below(3) {
                    0 => format!("{:03o}", v),
                    1 => format!("0{:o}", v % 64),
                    _ => "0".to_string(),
                };
                let val = u32::from_str_radix(&o, 8).unwrap();
                let t = format!("\\{}z", o);
                (t.clone(), if kept { t } else { format!("\\x{:02x}z", val) })
            }
            5 => {
                let (mut t, mut v) = (String::new(), String::new());
                class(r, 0, &mut t, &mut v);
                if kept {
                    v = t.clone();
                }
                (t, v)
            }
            6 => {
                let t = r.s(&["(?:a|b)", "(?<n>x)\\k<n>", "(?i:a)", "(?=b)", "(?!b)", "(?<=c)", "(a(b)c)", "a{2,3}", "x*?", "y+", "z??", "^", "$", ".*", "|"]);
                (t.into(), t.into())
            }
            7 if !kept => ("\\/".into(), "\\/".into()),
            8 if nl && !start => ("\n".into(), if x { "".into() } else { "\n".into() }),
            9 if x && nl => ("# note: [x] \\d (y)\n".into(), "".into()),
            10 | 11 if x && !start => {
                let t = r.s(&[" ", "  ", "\t"]);
                (t.into(), "".into())
            }
            12 if !x => {
                let t = r.s(&["#", "#z", "# "]);
                let t = if t == "#" { "#-" } else { t };
                (t.into(), t.into())
            }
            13 if !start => (" ".into(), if x { "".into() } else { " ".into() }),
            _ => {
                let t = r.s(&["a", "abc", "é", "日本", "0", "-", ",", "x=", ":", "@", "\"", "'", "end", "!", "~", "%", "&", "<", ">", ";", "_"]);
                (t.into(), t.into())
            }
        };
        let body: String = match pct {
            Some(_) => t.clone(),
            None => t.clone(),
        };
        if bad(&body) || (t.contains('\n') && !nl) {
            b.plain("q");
            return;
        }
        b.esc(&t, &v);
    }

    fn regex_flags(&mut self, x: bool) -> (String, String) {
        let mut fl: Vec<char> = vec![];
        if x {
            fl.push('x');
        }
        for c in ['i', 'm', 'o', 'u', 'n'] {
            if self.rng.p(1, 5) && !(c == 'n' && fl.contains(&'u')) {
                fl.push(c);
            }
        }
        self.rng.shuffle(&mut fl);
        let mut e = vec!['m'];
        if fl.contains(&'i') {
            e.push('i');
        }
        if fl.contains(&'m') {
            e.push('s');
        }
        e.sort();
        (fl.into_iter().collect(), e.into_iter().collect())
    }

    pub fn regex(&mut self) -> T {
        let cmd_first = self.cmd_first;
        let x = self.rng.p(1, 4);
        if self.rng.p(1, 4) {
            self.hit("regex-%r");
            let (o, open, c) = self.delims();
            let (o, open, c) = if "\\?*+.^|-".contains(o) { ('{', Some('{'), '}') } else { (o, open, c) };
            let mut b = Buf::default();
            for i in 0..self.len() {
                match open {
                    Some(o) if !(x && o == '[') && self.rng.p(1, 5) => {
                        self.hit("regex-%r-nested");
                        let depth = nesting(&mut self.rng);
                        for i in 0..2 * depth {
                            b.plain(&if i < depth { o } else { c }.to_string());
                            if self.rng.coin() {
                                self.regex_piece(x, Some((open, c)), &mut b, false);
                            }
                        }
                    }
                    _ => self.regex_piece(x, Some((open, c)), &mut b, i == 0),
                }
            }
            let (fl, e) = self.regex_flags(x);
            self.tk(format!("%r{}{}{}{}", o, b.text, c, fl));
            let kids = merge_text(vec![b.lit()]);
            return t(format!("regex!:{}", e), kids);
        }
        self.hit("regex");
        if x {
            self.hit("regex-x");
        }
        let first_piece = std::cell::Cell::new(true);
        let mut piece = |g: &mut G, _last: bool| {
            let mut b = Buf::default();
            let n = g.len();
            let f = first_piece.replace(false);
            if f && cmd_first {
                b.plain("q");
            }
            for i in 0..n {
                g.regex_piece(x, None, &mut b, i == 0 && f);
            }
            b
        };
        let n = if self.small() || self.f.istr == 0 { 0 } else { self.rng.below(3) };
        if n == 0 {
            let mut b = piece(self, true);
            if b.text.is_empty() {
                b.plain("q");
            }
            let (fl, e) = self.regex_flags(x);
            self.tk(format!("/{}/{}", b.text, fl));
            return t(format!("regex!:{}", e), merge_text(vec![b.lit()]));
        }
        self.hit("regex-interp");
        let old = self.f.clone();
        if x {
            // A string literal would be indistinguishable from the pattern.
            self.f = Feat::base();
            self.f.num = 0;
            self.f.mcall = old.mcall;
        }
        let (fl, e) = self.regex_flags(x);
        let kids = self.parts("/", &format!("/{}", fl), n, &mut piece);
        self.f = old;
        let c = kids.iter().all(is_const);
        t(format!("regex{}:{}", if c { "!" } else { "" }, e), kids)
    }

    // ---- here-documents ----

    pub fn heredoc(&mut self) -> T {
        self.hit("heredoc");
        let id = self.rng.s(&["A", "EOS", "_x", "E1", "SQL", "ÉT"]);
        let dash = self.rng.coin();
        let kind = self.rng.below(5); // 0,1 bare; 2 double; 3 single; 4 command
        let q = ["", "", "\"", "'", "`"][kind];
        let text = format!("<<{}{}{}{}", if dash { "-" } else { "" }, q, id, q);
        self.tk(text);
        let at = self.toks.len() - 1;
        let outer = std::mem::take(&mut self.toks);
        let (ap, lo, hp, cf, ns) = (self.awaiting, self.last_open, self.here_pending, self.cmd_first, self.next_sep);
        let open = self.open;
        self.nonl += 1;
        self.no_here += 1;
        let nlines = *self.rng.pick(&[0, 1, 1, 2, 3]);
        let hostile = |g: &mut G| -> Option<String> {
            if !g.rng.p(1, 5) {
                return None;
            }
            Some(match g.rng.below(6) {
                0 => format!("{}x", id),
                1 if !dash => format!(" {}", id),
                2 => format!("{} ", id),
                3 => "end".to_string(),
                4 => format!("<<{}", id),
                _ => "".to_string(),
            })
        };
        let r;
        if kind == 3 {
            let mut b = String::new();
            for _ in 0..nlines {
                let l = match hostile(self) {
                    Some(l) => l,
                    None => self
                        .rng
                        .s(&["abc", "a\\nb", "#{x}", "\\\\", "it's", "\"q\"", "日本 é", "  indented", "\\", "#@a", "\\'", "a\t"])
                        .to_string(),
                };
                b.push_str(&l);
                b.push('\n');
            }
            self.tk(b.clone());
            r = lit(b.into_bytes(), false);
        } else {
            let q = Quote { open: None, term: None, nl: false, bytes: kind != 4 };
            let interp = if self.small() { 0 } else { self.rng.below(3) };
            let mut started = false;
            let kids = self.parts("", "", interp, &mut |g, last| {
                let mut b = Buf::default();
                let k = if last { nlines } else { g.rng.below(2) };
                for _ in 0..k {
                    if started {
                        b.plain("\n");
                    }
                    started = true;
                    match hostile(g) {
                        Some(l) => b.plain(&l),
                        None => {
                            b.plain(g.rng.s(&["w", "x ", "  y", "\"z\""]));
                            let n = g.len();
                            g.with_cov(|r, cv| dq(r, &q, &mut b, n, cv));
                            if g.rng.p(1, 8) {
                                g.hit("heredoc-joined-lines");
                                b.text.push_str("\\\n");
                                b.plain("w");
                            }
                        }
                    }
                }
                if !last && (!started || g.rng.coin()) {
                    // The line on which the interpolation stands.
                    if started {
                        b.plain("\n");
                    }
                    started = true;
                    b.plain(g.rng.s(&["", "v ", "v"]));
                }
                if last && started {
                    b.plain("\n");
                }
                b
            });
            // A here-document without interpolation is a plain string.
            let x = if kids.iter().all(|k| k.raw.is_some()) && interp == 0 {
                kids.into_iter().next().unwrap_or(lit(vec![], false))
            } else {
                t("istr", kids)
            };
            r = if kind == 4 { t("cmd", vec![x]) } else { x };
        }
        self.no_here -= 1;
        self.nonl -= 1;
        let body = std::mem::replace(&mut self.toks, outer);
        self.open = open;
        let term = format!("{}{}", if dash { self.rng.s(&["", " ", "  ", "\t"]) } else { "" }, id);
        self.toks[at].here = Some((body, term));
        (self.awaiting, self.last_open, self.here_pending, self.cmd_first, self.next_sep) = (ap, lo, hp, cf, ns);
        self.here_pending = true;
        r
    }
}
