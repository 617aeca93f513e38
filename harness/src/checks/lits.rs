//! C09 numbers, C10 text, C11 here-documents, C12 regular expressions,
//! C13 collections.
use super::common::*;
use crate::gen::*;
use crate::lit;
use crate::mon::*;
use crate::run::*;
use crate::term::*;
use num::bigint::{BigInt, BigUint};
use num::ToPrimitive;
use ruruby_parse::*;

pub fn c09() -> Check {
    Check {
        id: "C09",
        rule: "Numeric literals written from a value (integers by digits in every radix with underscores, floats from exact decimal expansions of doubles and of midpoints between them, imaginary) at every kind of place; all integers within 300 of the 64-bit and other powers of two in every radix; literals made invalid; literals with a keyword directly behind them. Non-trivial: the literal was compared with its value or had to be rejected; distinct by text.",
        modes: vec![
            Mode { name: "value", quick: 600_000, thorough: 8_000_000, f: c09_value },
            Mode { name: "edge", quick: EDGE, thorough: EDGE, f: c09_edge },
            Mode { name: "invalid", quick: 160_000, thorough: 1_000_000, f: c09_invalid },
            Mode { name: "keyword", quick: 60_000, thorough: 600_000, f: c09_keyword },
            Mode { name: "program", quick: 80_000, thorough: 800_000, f: c09_program },
        ],
        assumptions: &["the nearest double of a decimal is known from exact integer arithmetic", "only the literal forms the parser documents: lower case radix prefixes, no rationals"],
        must: &["small", "big", "float", "imaginary", "negative", "rejected", "keyword"],
    }
}

/// The representation of an integer node must be the small one exactly inside
/// the 64-bit range.
fn check_repr(c: &mut Case, n: &Node, v: &BigInt) -> Result<(), String> {
    match &n.kind {
        NodeKind::Integer(i) => {
            if BigInt::from(*i) != *v {
                return Err(format!("value {} instead of {}", i, v));
            }
            c.hit("small");
            Ok(())
        }
        NodeKind::Bignum(b) => {
            if b != v {
                return Err(format!("value {} instead of {}", b, v));
            }
            if v.to_i64().is_some() {
                return Err(format!("{} fits in 64 bits, but has the big form", v));
            }
            c.hit("big");
            Ok(())
        }
        k => Err(format!("not an integer: {:?}", k)),
    }
}

fn int_alone(c: &mut Case, text: &str, v: &BigInt) {
    c.nontrivial(text);
    match c.parse(text) {
        Obs::Ok(r) => {
            if let Err(e) = check_repr(c, &r.node, v) {
                c.fail(text, e);
            }
        }
        o => c.fail(text, format!("{}; expected the integer {}", o.brief(), v)),
    }
}

fn c09_value(c: &mut Case) {
    let neg = c.rng.p(1, 3);
    let sign = if neg { "-" } else { "" };
    match c.rng.below(8) {
        0 | 1 | 2 => {
            let (s, v) = lit::uint_text(&mut c.rng);
            let v = if neg { -v } else { v };
            int_alone(c, &format!("{}{}", sign, s), &v);
        }
        3 | 4 => {
            let (s, v) = lit::uint_text(&mut c.rng);
            let v = if neg { -v } else { v };
            placed(c, &format!("{}{}", sign, s), leaf(format!("int:{}", v)));
        }
        5 | 6 => {
            let (s, f) = lit::float_text(&mut c.rng);
            let f = if neg { -f } else { f };
            c.hit("float");
            placed(c, &format!("{}{}", sign, s), leaf(flt(f)));
        }
        _ => {
            c.hit("imaginary");
            if c.rng.coin() {
                let v = lit::random_uint(&mut c.rng);
                expect_placed(c, &format!("{}i", v), leaf(format!("imag:int:{}", v)));
            } else {
                let (s, f) = lit::float_text(&mut c.rng);
                expect_placed(c, &format!("{}i", s), leaf(format!("imag:{}", flt(f))));
            }
            return;
        }
    }
    if neg {
        c.hit("negative");
    }
}

fn placed(c: &mut Case, s: &str, e: T) {
    let p = place(c);
    let neg = s.starts_with('-');
    if neg && p.name == "not" {
        return;
    }
    c.hit(format!("place:{}", p.name));
    expect_tree(c, &at(p, s), &(p.t)(e));
}

const POW: &[u32] = &[7, 8, 15, 16, 30, 31, 32, 52, 53, 61, 62, 63, 64, 65, 127, 128];
const SPAN: u64 = 24;
const EDGE: u64 = 16 * (2 * SPAN + 1) * 5 * 2;

fn c09_edge(c: &mut Case) {
    let mut i = c.idx;
    let neg = i % 2 == 1;
    i /= 2;
    let radix = (i % 5) as usize;
    i /= 5;
    let off = (i % (2 * SPAN + 1)) as i64 - SPAN as i64;
    i /= 2 * SPAN + 1;
    let v: BigInt = (BigInt::from(1) << POW[i as usize]) + off;
    let u: BigUint = v.to_biguint().unwrap();
    let s = lit::write_uint(&mut c.rng, &u, radix);
    let v = if neg { -v } else { v };
    int_alone(c, &format!("{}{}", if neg { "-" } else { "" }, s), &v);
}

pub fn c09_invalid(c: &mut Case) {
    let r = &mut c.rng;
    let d = |r: &mut crate::rng::Rng, set: &str, n: usize| -> String {
        let v: Vec<char> = set.chars().collect();
        (0..n).map(|_| *r.pick(&v)).collect()
    };
    let n = 1 + r.below(4);
    let dec = format!("{}{}", 1 + r.below(9), d(r, "0123456789", n - 1));
    let s = match r.below(22) {
        0 => r.s(&["0x", "0b", "0o"]).to_string(),
        1 => r.s(&["0x_1", "0b_1", "0o_1", "0x_", "0b_"]).to_string(),
        2 => format!("0b{}{}{}", d(r, "01", n), d(r, "23456789", 1), d(r, "01", n - 1)),
        3 => format!("0b{}", d(r, "23456789", n)),
        4 => format!("0o{}{}{}", d(r, "01234567", n), d(r, "89", 1), d(r, "0123", n - 1)),
        5 => format!("0{}{}{}", d(r, "01234567", n), d(r, "89", 1), d(r, "0123", n - 1)),
        6 => format!("0{}", d(r, "89", n)),
        7 => format!("0x{}{}", d(r, "0123456789abcdefABCDEF", n), d(r, "ghzGZ", 1)),
        8 => format!("0x{}", d(r, "ghzGZ", 1)),
        9 => format!("{}__{}", dec, dec),
        10 => format!("{}_", dec),
        11 => format!("{}e", dec),
        12 => format!("{}e{}", dec, r.s(&["+", "-"])),
        13 => format!("{}.{}e", dec, dec),
        14 => format!("{}.{}.{}", dec, dec, dec),
        15 => format!("{}{}", dec, r.s(&["a", "z", "foo", "A", "é", "_a", "ii", "ia"])),
        16 => format!("{}.{}{}", dec, dec, r.s(&["a", "_", "z", "Foo", "__1"])),
        17 => format!("{}e{}e{}", dec, dec, dec),
        18 => format!("{}e{}.{}", dec, dec, dec),
        19 => format!("0x{}_", d(r, "0123456789abcdef", n)),
        20 => format!("0{}{}__{}", r.s(&["b", "o", "x", ""]), d(r, "01", n), d(r, "01", n)),
        _ => format!("{}e_{}", dec, dec),
    };
    let neg = c.rng.p(1, 5);
    let s = if neg { format!("-{}", s) } else { s };
    if reject_placed(c, &s, "not a number") {
        c.hit("rejected");
    }
}

/// A literal ends before a keyword, even without a space between.
fn c09_keyword(c: &mut Case) {
    let (s, e) = if c.rng.coin() {
        let (s, v) = lit::uint_text(&mut c.rng);
        (s, leaf(format!("int:{}", v)))
    } else {
        let (s, f) = lit::float_text(&mut c.rng);
        (s, leaf(flt(f)))
    };
    let hex = s.starts_with("0x");
    let (pre, post) = *c.rng.pick(&[
        ("", "if true"), ("", "unless true"), ("", "while true"), ("", "until true"), ("", "rescue nil"), ("", "and nil"), ("", "or nil"),
        ("if true then ", "else nil end"), ("if true then nil else ", "end"), ("if true then ", "elsif nil then 2 end"), ("begin ", "ensure nil end"), ("begin; 1; rescue; ", "end"),
        ("while true do ", "end"), ("case ", "when 1 then nil end"), ("case 1 when ", "then 3 end"), ("case 1 when 2 then ", "else 3 end"), ("case 1 when 2 then ", "when 3 then 4 end"), ("def m; ", "end"), ("foo do ", "end"), ("for a in ", "do nil end"),
        ("while ", "do nil end"), ("until ", "do nil end"), ("if ", "then nil end"), ("[(", "if true)]"), ("foo((", "or nil))"), ("class A; ", "end"), ("x = ", "rescue nil"), ("return ", "if true"), ("foo 2, ", "unless true"), ("-> { ", "if true }"),
        ("foo do 1; ", "ensure nil end"), ("begin; nil; rescue; 2; else ", "ensure nil end"), ("def m(a = ", ") a end"),
    ]);
    // "0x1e", "0b", "0or"
    if hex && post.starts_with(|k: char| k.is_ascii_hexdigit()) || s == "0" && post.starts_with(['o', 'd', 'b', 'x']) {
        return;
    }
    c.hit("keyword");
    let apart = format!("{}{} {}", pre, s, post);
    let joint = format!("{}{}{}", pre, s, post);
    c.nontrivial(&joint);
    match (c.parse(&apart), c.parse(&joint)) {
        (Obs::Ok(a), Obs::Ok(b)) => {
            let (a, b) = (norm(&a.node), norm(&b.node));
            if let Some(d) = a.diff(&b, false) {
                c.fail(&joint, d);
            } else if !b.to_string().contains(&e.to_string()) {
                c.fail(&joint, format!("{} has no {}", b, e));
            }
        }
        (a, b) => c.fail(&joint, format!("{}; with a space {}", b.brief(), a.brief())),
    }
}

fn c09_program(c: &mut Case) {
    let f = Feat {
        num_rich: true,
        num: 30,
        neg: 16,
        var: 3,
        array: 4,
        hash: 2,
        index: 3,
        mcall: 3,
        fcall: 4,
        paren: 3,
        unop: 4,
        binop: 8,
        cmp: 3,
        range: 4,
        ternary: 2,
        stmt_assign: 3,
        cmd: 3,
        control: 1,
        istr: 1,
        ..Feat::base()
    };
    let fuel = *c.rng.pick(&[6, 12, 20]);
    let mut g = gen(c, f, fuel);
    let e = g.program(2);
    let st = style(c, &[0, 30]);
    judge(c, &mut g, e, st, TREE);
}

// ---- C10 ---------------------------------------------------------------------

pub fn c10() -> Check {
    Check {
        id: "C10",
        rule: "Every character below 256 and samples above, plain and after a backslash, in every quoting (sweep); every octal, hexadecimal and unicode escape at every width (escapes); random texts, %-literals with every delimiter and nesting, adjacent literals and interpolations in generated programs (program); random content encoded by randomly chosen escapes (content); malformed literals (invalid). Non-trivial: the content of a literal was compared or it had to be rejected; distinct by text.",
        modes: vec![
            Mode { name: "sweep", quick: SWEEP, thorough: SWEEP, f: c10_sweep },
            Mode { name: "escapes", quick: 24_000, thorough: 100_000, f: c10_escapes },
            Mode { name: "content", quick: 240_000, thorough: 3_000_000, f: c10_content },
            Mode { name: "adjacent", quick: 80_000, thorough: 1_000_000, f: c10_adjacent },
            Mode { name: "program", quick: 240_000, thorough: 2_000_000, f: c10_program },
            Mode { name: "invalid", quick: 80_000, thorough: 500_000, f: c10_invalid },
        ],
        assumptions: &["Ruby's escape table", "not covered: \\C- \\M- \\c escapes, %W %I %s %x, line-continued string pieces at newlines"],
        must: &["sweep:dq-escape", "sweep:sq-escape", "sweep:plain", "escape:octal", "escape:hex", "escape:u4", "escape:u-brace", "string-adjacent", "adjacent:few", "adjacent:many", "adjacent:dynamic", "istring", "%w", "%i", "symbol-quoted", "dsym", "xstring", "char", "rejected", "esc-byte"],
    }
}

/// What a backslash followed by this character denotes between double quotes.
fn simple_escape(ch: char) -> Option<String> {
    Some(match ch {
        'a' => "\x07".into(),
        'b' => "\x08".into(),
        'e' => "\x1b".into(),
        'f' => "\x0c".into(),
        'n' => "\n".into(),
        'r' => "\r".into(),
        's' => " ".into(),
        't' => "\t".into(),
        'v' => "\x0b".into(),
        '\n' => "".into(),
        'u' | 'x' | 'c' | 'C' | 'M' | '0'..='7' => return None,
        // A carriage return may be part of a line ending.
        '\r' => return None,
        c => c.to_string(),
    })
}

const EXTRA: &[char] = &['\u{100}', '\u{3bb}', '\u{7ff}', '\u{800}', '\u{3042}', '\u{d7ff}', '\u{e000}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{1f600}', '\u{10ffff}', '\u{301}', '\u{200b}', '\u{2028}', '\u{3000}'];
const KINDS: &[(&str, &str, char)] = &[
    ("\"", "\"", 'd'),
    ("'", "'", 's'),
    ("%Q(", ")", 'd'),
    ("%(", ")", 'd'),
    ("%q(", ")", 's'),
    ("%q[", "]", 's'),
    ("%Q{", "}", 'd'),
    ("%q<", ">", 's'),
    ("%Q!", "!", 'd'),
    ("%|", "|", 'd'),
    ("`", "`", 'x'),
    (":\"", "\"", 'y'),
    (":'", "'", 'z'),
    ("?", "", 'c'),
];
const SWEEP: u64 = (256 + 16) * 14 * 2;

/// The tree of a literal of the given kind.
fn lit_of(kind: char, bytes: Vec<u8>, isb: bool) -> T {
    match kind {
        'x' => t("cmd", vec![crate::term::lit(bytes, isb)]),
        'y' | 'z' => leaf(format!("sym:{:?}", String::from_utf8(bytes).unwrap())),
        _ => crate::term::lit(bytes, isb),
    }
}

fn c10_sweep(c: &mut Case) {
    let mut i = c.idx as usize;
    let esc = i % 2 == 1;
    i /= 2;
    let (open, close, kind) = KINDS[i % KINDS.len()];
    i /= KINDS.len();
    let ch = if i < 256 { char::from_u32(i as u32).unwrap() } else { EXTRA[i - 256] };
    let delim = |ch: char| (open.chars().last() == Some(ch) && kind != 'c') || close.chars().last() == Some(ch);
    let single = matches!(kind, 's' | 'z');
    let (text, value): (String, String) = if esc {
        if single {
            c.hit("sweep:sq-escape");
            let v = if ch == '\\' || delim(ch) { ch.to_string() } else { format!("\\{}", ch) };
            (format!("\\{}", ch), v)
        } else {
            let Some(v) = simple_escape(ch) else {
                return;
            };
            if kind == 'c' && v.is_empty() {
                return;
            }
            c.hit("sweep:dq-escape");
            (format!("\\{}", ch), v)
        }
    } else {
        if delim(ch) || ch == '\\' {
            return;
        }
        if kind == 'c' && (ch.is_whitespace() || (ch as u32) < 0x20 || ch == '\u{7f}') {
            return;
        }
        c.hit("sweep:plain");
        (ch.to_string(), ch.to_string())
    };
    if ch == '\r' && (kind == 'c' || single) {
        return;
    }
    let (a, b) = if kind == 'c' { ("", "") } else { *c.rng.pick(&[("", ""), ("x", "y"), ("", "0 "), ("é", "日")]) };
    let src = format!("{}{}{}{}{}", open, a, text, b, close);
    let e = lit_of(kind, format!("{}{}{}", a, value, b).into_bytes(), false);
    // A single character literal is followed by a separator.
    if kind == 'c' {
        expect_tree(c, &format!("q = {}\n", src), &asgn_q(e));
    } else {
        expect_placed(c, &src, e);
    }
}

fn asgn_q(e: T) -> T {
    t("asgn", vec![t("lhs", vec![leaf("lvar:0:q")]), t("rhs", vec![e])])
}

/// Numeric escapes; every value of the small ones, samples of the others.
fn c10_escapes(c: &mut Case) {
    let i = c.idx;
    let k = i / 256;
    let v = (i % 256) as u32;
    let (esc, bytes, isb): (String, Vec<u8>, bool) = match k {
        0 => ("octal", format!("\\{:o}", v)),
        1 => ("octal", format!("\\{:03o}", v)),
        2 => ("octal", format!("\\{:02o}", v)),
        3 => ("hex", format!("\\x{:02x}", v)),
        4 => ("hex", format!("\\x{:02X}", v)),
        5 => ("hex", format!("\\x{:x}", v)),
        _ => ("", String::new()),
    }
    .into_bytes_or(c, v);
    let (mut esc, mut bytes, isb) = (esc, bytes, isb);
    if bytes.is_empty() {
        // Unicode: around the boundaries of the encoded lengths.
        let base = *c.rng.pick(&[0u32, 0x40, 0x80, 0xff, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff]);
        let d = c.rng.below(20) as u32;
        let cp = if c.rng.coin() { base.saturating_add(d) } else { base.saturating_sub(d) };
        let Some(ch) = char::from_u32(cp) else {
            return;
        };
        let n = 1 + c.rng.below(3);
        if cp <= 0xffff && c.rng.coin() {
            c.hit("escape:u4");
            esc = format!("\\u{:04x}", cp).repeat(n);
            if c.rng.coin() {
                esc = format!("\\u{:04X}", cp).repeat(n);
            }
        } else {
            c.hit("escape:u-brace");
            let w = c.rng.below(7);
            let one = format!("{:01$x}", cp, w.min(6));
            esc = format!("\\u{{{}}}", vec![one; n].join(c.rng.s(&[" ", "  ", "\t"])));
        }
        bytes = ch.to_string().repeat(n).into_bytes();
    }
    if isb && c.rng.coin() {
        // A text around it is part of the byte string.
        let (a, b) = *c.rng.pick(&[("é", "z"), ("", "日"), ("x", "")]);
        esc = format!("{}{}{}", a, esc, b);
        let mut x = a.as_bytes().to_vec();
        x.extend_from_slice(&bytes);
        x.extend_from_slice(b.as_bytes());
        bytes = x;
    }
    let (open, close, kind) = KINDS[*c.rng.pick(&[0, 0, 2, 3, 6, 8])];
    let src = format!("{}{}{}", open, esc, close);
    expect_placed(c, &src, lit_of(kind, bytes, isb));
}

trait IntoEsc {
    fn into_bytes_or(self, c: &mut Case, v: u32) -> (String, Vec<u8>, bool);
}
impl IntoEsc for (&str, String) {
    fn into_bytes_or(self, c: &mut Case, v: u32) -> (String, Vec<u8>, bool) {
        if self.0.is_empty() {
            return (String::new(), vec![], false);
        }
        c.hit(format!("escape:{}", self.0));
        (self.1, vec![v as u8], v > 0x7f)
    }
}

/// Any content, written with randomly chosen escapes, comes back.
fn c10_content(c: &mut Case) {
    let (open, close, kind) = KINDS[*c.rng.pick(&[0, 0, 0, 1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12])];
    let single = matches!(kind, 's' | 'z');
    let bytes_ok = kind == 'd';
    let n = *c.rng.pick(&[0, 1, 2, 3, 5, 8, 20, 100]);
    let mut text = String::new();
    let mut bytes: Vec<u8> = vec![];
    let mut isb = false;
    let (o, cl) = (open.chars().last().unwrap(), close.chars().last().unwrap());
    let mut digits_bad = false; // a short octal or hex escape precedes
    let mut hash_before = false;
    for _ in 0..n {
        let mut ch = match c.rng.below(8) {
            0 => *c.rng.pick(&['\n', '\t', ' ', '\x1b', '\0', '\x7f', '\x08', '\x07', '\x0b', '\x0c']),
            1 => *c.rng.pick(EXTRA),
            2 => lit::random_char(&mut c.rng, 0x10ffff),
            3 => *c.rng.pick(&['\\', '"', '\'', '#', '{', '}', '(', ')', '[', ']', '<', '>', '!', '|', '`', '@', '$']),
            _ => char::from_u32(0x20 + c.rng.below(0x5f) as u32).unwrap(),
        };
        if ch == '\r' {
            ch = 'r';
        }
        if single {
            if ch == '\\' || ch == cl || ch == o {
                text.push('\\');
            }
            text.push(ch);
            bytes.extend_from_slice(ch.to_string().as_bytes());
            continue;
        }
        if bytes_ok && c.rng.p(1, 40) {
            let v = 0x80 + c.rng.below(0x80);
            text.push_str(&format!("\\x{:02x}", v));
            bytes.push(v as u8);
            isb = true;
            digits_bad = false;
            hash_before = false;
            continue;
        }
        bytes.extend_from_slice(ch.to_string().as_bytes());
        let must = ch == '\\' || ch == o || ch == cl || ch == '#' || (hash_before && "{@$".contains(ch)) || (digits_bad && ch.is_ascii_hexdigit());
        digits_bad = false;
        hash_before = false;
        let cp = ch as u32;
        match if must { 1 + c.rng.below(5) } else { c.rng.below(10) } {
            1 | 2 if ch.is_ascii_punctuation() => {
                text.push('\\');
                text.push(ch);
            }
            1 if cp < 0x80 => {
                text.push_str(&format!("\\{:o}", cp));
                digits_bad = true;
            }
            2 if cp < 0x80 => text.push_str(&format!("\\x{:02x}", cp)),
            3 => text.push_str(&format!("\\u{{{:x}}}", cp)),
            4 if cp <= 0xffff => text.push_str(&format!("\\u{:04x}", cp)),
            5 => text.push_str(&format!("\\u{{{:x}}}", cp)),
            _ if must => text.push_str(&format!("\\u{{{:x}}}", cp)),
            6 if simple_escape(ch).as_deref() == Some(&ch.to_string()) => {
                text.push('\\');
                text.push(ch);
            }
            _ => text.push(ch),
        }
        // `\u` escapes and raw bytes do not mix in Ruby.
    }
    if isb && text.contains("\\u") {
        return;
    }
    let src = format!("{}{}{}", open, text, close);
    expect_placed(c, &src, lit_of(kind, bytes, isb));
}

/// Literals which stand side by side are one, whatever kinds they are.
fn c10_adjacent(c: &mut Case) {
    let n = if c.rng.p(1, 10) { 5 + c.rng.below(30) } else { 2 + c.rng.below(4) };
    let dynamic = c.rng.coin();
    let bytes_ok = !dynamic && c.rng.p(1, 3);
    let (mut src, mut parts) = (String::new(), vec![]);
    let mut any = false;
    for i in 0..n {
        if i > 0 {
            src += c.rng.s(&[" ", " ", "", "  ", "\t", " \\\n", "\\\n  "]);
        }
        let single = c.rng.p(1, 3);
        let q = if single { '\'' } else { '"' };
        src.push(q);
        for _ in 0..c.rng.below(4) {
            let k = c.rng.below(if single { 4 } else { 9 });
            match k {
                0 => {
                    let x = c.rng.s(&["a", "b c", "é", "日本", "0", "1", "f", ";", "# ", "end", "\n", ":", "%", "{", "}", "<<A"]);
                    src += x;
                    parts.push(st(x));
                }
                1 if single => {
                    let (x, y) = *c.rng.pick(&[("\\'", "'"), ("\\\\", "\\"), ("\\n", "\\n"), ("\"", "\""), ("#{1}", "#{1}"), ("\\\"", "\\\"")]);
                    src += x;
                    parts.push(st(y));
                }
                1 => {
                    let (x, y) = *c.rng.pick(&[("\\\"", "\""), ("\\\\", "\\"), ("\\n", "\n"), ("'", "'"), ("\\#{1}", "#{1}"), ("\\u0041", "A"), ("\\101z", "Az"), ("\\x41z", "Az"), ("\\u{42 43}", "BC"), ("\\\n", "")]);
                    // What is not ASCII and bytes do not mix.
                    if bytes_ok && x.contains('u') {
                        continue;
                    }
                    src += x;
                    parts.push(st(y));
                }
                2 | 3 => {}
                4 if bytes_ok => {
                    src += "\\xff;";
                    parts.push(lit_of('d', vec![0xff, b';'], true));
                }
                _ if dynamic => {
                    let (x, e) = match c.rng.below(5) {
                        0 => ("#{1}", int(1)),
                        1 => ("#{foo}", leaf("call:foo")),
                        2 => ("#@a;", leaf("ivar:@a")),
                        3 => ("#{\"i\" 'j'}", st("ij")),
                        _ => ("#{ [\"a\" \"b\", 1] }", array(vec![st("ab"), int(1)])),
                    };
                    any = true;
                    src += x;
                    parts.push(e);
                    if x.ends_with(';') {
                        parts.push(st(";"));
                    }
                }
                _ => {}
            }
        }
        src.push(q);
    }
    c.hit(if n > 4 { "adjacent:many" } else { "adjacent:few" });
    let e = merge_text(parts);
    let e = if any {
        c.hit("adjacent:dynamic");
        t("istr", e)
    } else {
        match e.into_iter().next() {
            Some(x) => x,
            None => st(""),
        }
    };
    expect_placed(c, &src, e);
}

fn c10_program(c: &mut Case) {
    let f = Feat {
        num: 2,
        strs: 24,
        istr: 14,
        sym: 10,
        pct: 8,
        ch: 5,
        xstr: 5,
        var: 4,
        array: 3,
        hash: 3,
        index: 2,
        mcall: 3,
        fcall: 4,
        paren: 2,
        binop: 3,
        cmp: 2,
        ternary: 2,
        stmt_assign: 4,
        cmd: 4,
        control: 1,
        here: 1,
        block: 1,
        ..Feat::base()
    };
    let fuel = *c.rng.pick(&[3, 6, 12, 24]);
    let mut g = gen(c, f, fuel);
    let n = 1 + g.rng.below(2);
    let e = g.program(n);
    let st = style(c, &[0, 30, 80]);
    judge(c, &mut g, e, st, TREE);
}

pub fn c10_invalid(c: &mut Case) {
    let r = &mut c.rng;
    let q = r.s(&["\"{}\"", "%Q({})", "%({})", ":\"{}\"", "`{}`", "\"a{}z\"", "\"{}#{1}\"", "\"#{1}{}\""]);
    let esc = r.s(&[
        "\\u{110000}", "\\u{ffffffff}", "\\u{fffffffffffffffff}", "\\u{d800}", "\\u{dfff}", "\\ud800", "\\udfff", "\\xg", "\\x", "\\x z",
        "\\u12", "\\u12g4", "\\u", "\\u{g}", "\\u{12", "\\u{41 g}",
    ]);
    let s = match r.below(4) {
        // Never terminated.
        0 => {
            let (o, cl, k) = KINDS[r.below(13)];
            let body = r.s(&["", "a", "a b", "\\", "é", "\\\\x"]);
            let body = if body == "\\" { format!("\\{}", cl) } else { body.to_string() };
            let _ = k;
            let s = format!("{}{}", o, body);
            if expect_reject(c, &s, "the literal is not terminated") {
                c.hit("rejected");
            }
            return;
        }
        1 => {
            let s = r.s(&["%w(a b", "%i[a b", "%w<a <b>", "%q(a (b)", "%Q{a {b}", "%w(a (b)", "\"#{", "\"#{1", "\"#{1}", "\"a#{1}b", "`#{1}", ":\"#{1}", "%Q(#{1}", "\"#{\"}\"", "%za bz", "%1a1"]);
            if expect_reject(c, s, "not a literal") {
                c.hit("rejected");
            }
            return;
        }
        _ => q.replace("{}", esc),
    };
    if reject_placed(c, &s, "the escape is invalid") {
        c.hit("rejected");
    }
}
