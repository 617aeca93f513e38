//! Texts which are not programs, or only by accident: cut, changed, spliced
//! and random ones.
use crate::rng::Rng;

/// Pieces which mean something to a reader of Ruby, or almost do.
pub const PIECES: &[&str] = &[
    "(", ")", "[", "]", "{", "}", "|", "||", "&", "&&", "&.", "*", "**", "+", "-", "/", "%", "^", "~", "!", "!=", "!~", "=", "==", "===", "=~", "=>", "<", "<=", "<=>", "<<",
    ">", ">=", ">>", "?", ":", "::", ";", ",", ".", "..", "...", "->", "\\", "\n", "\r\n", "\\\n", "\\\r\n", "\t", " ", "\u{b}", "\u{c}", "\r", "#", "# c\n", "`", "\"", "'", "$", "@", "@@", "_",
    "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>=", "&&=", "||=", "**=",
    "BEGIN", "END", "alias", "begin", "break", "case", "class", "def", "defined?", "do", "else", "elsif", "end", "ensure", "false", "for", "if", "in", "module", "next", "nil", "not",
    "redo", "rescue", "retry", "return", "self", "super", "then", "true", "undef", "unless", "until", "when", "while", "yield", "and", "or", "__FILE__", "__LINE__", "__END__",
    "a", "b", "foo", "x", "A", "Foo", "é", "日本", "😀", "_1", "_2", "_9", "_10", "@a", "@@b", "$c", "$1", "$0", "$~", "$-w", "a?", "b!", "c=", "a:", "B:", "\"s\":", "if:", ":a", ":\"b\"", ":+", ":[]=", ":a?", ":A=",
    "0", "1", "12_3", "1_", "0x1f", "0x", "0b10", "0o7", "08", "1.5", "1.", "1e3", "1e", "1.5e-3i", "3i", "3r", "99999999999999999999", "0.1e400", "-1", "+1",
    "\"a\"", "'b'", "\"#{", "#{", "#@a", "#$b", "#@@", "%w(", "%i[", "%q{", "%Q<", "%r/", "%(", "%", "?a", "?\\n", "?\\", "?", "/a/", "/#{", "`ls`", "<<A", "<<-A", "<<~A", "<<\"A\"", "\nA\n", "\n  A\n",
    "\\n", "\\x", "\\xff", "\\u", "\\u{", "\\u{41}", "\\u{110000}", "\\u{d800}", "\\377", "\\400", "\\c", "\\M-a", "\\C-a",
    "\0", "\u{feff}", "\u{a0}", "\u{3000}", "\u{2028}", "\u{200d}", "\u{301}", "\u{7f}", "\u{1b}[31m", "\u{10ffff}",
    "|a|", "|a, b|", "|*a|", "|(a, b), c|", "|a = 1|", "(a, *b, c: 1, **d, &e)", "(...)", "&blk", "*a", "**h", "=begin\n", "\n=end\n", "\n__END__\n",
];

fn bounds(s: &str) -> Vec<usize> {
    s.char_indices().map(|(i, _)| i).chain([s.len()]).collect()
}

/// The beginning of a text, cut between any two characters.
pub fn cut(r: &mut Rng, s: &str) -> String {
    let b = bounds(s);
    s[..*r.pick(&b)].to_string()
}

fn is_word(c: char) -> bool {
    c.is_alphanumeric() || c == '_'
}

/// Rough tokens: words, runs of space, and single characters.
pub fn rough(s: &str) -> Vec<(usize, usize)> {
    let mut v: Vec<(usize, usize)> = vec![];
    let mut last: Option<u8> = None;
    for (i, c) in s.char_indices() {
        let k = if is_word(c) {
            1
        } else if c == ' ' || c == '\t' {
            2
        } else {
            0
        };
        let e = i + c.len_utf8();
        if k > 0 && last == Some(k) {
            v.last_mut().unwrap().1 = e;
        } else {
            v.push((i, e));
        }
        last = Some(k);
    }
    v
}

/// One random change.
pub fn change(r: &mut Rng, s: &str, other: &str) -> String {
    let b = bounds(s);
    let n = b.len() - 1;
    let at = |r: &mut Rng| r.below(n + 1);
    let mut o = String::with_capacity(s.len() + 16);
    match r.below(12) {
        // delete a piece
        0 => {
            let i = at(r);
            let j = (i + 1 + r.below(4)).min(n);
            o.push_str(&s[..b[i]]);
            o.push_str(&s[b[j]..]);
        }
        // insert a piece
        1 | 2 => {
            let i = at(r);
            o.push_str(&s[..b[i]]);
            o.push_str(r.s(PIECES));
            o.push_str(&s[b[i]..]);
        }
        // replace, delete, double or swap a token
        3..=8 => {
            let t = rough(s);
            if t.is_empty() {
                return r.s(PIECES).to_string();
            }
            let (i, e) = *r.pick(&t);
            let (p, x, q) = (&s[..i], &s[i..e], &s[e..]);
            o.push_str(p);
            match r.below(6) {
                0 | 1 => o.push_str(r.s(PIECES)),
                2 | 3 => {}
                4 => {
                    o.push_str(x);
                    if r.coin() {
                        o.push(' ');
                    }
                    o.push_str(x);
                }
                _ => {
                    let (i2, e2) = *r.pick(&t);
                    o.push_str(&s[i2..e2]);
                }
            }
            o.push_str(q);
        }
        // a piece of another text
        9 => {
            let ob = bounds(other);
            let (mut x, mut y) = (r.below(ob.len()), r.below(ob.len()));
            if x > y {
                (x, y) = (y, x);
            }
            let i = at(r);
            o.push_str(&s[..b[i]]);
            o.push_str(&other[ob[x]..ob[y]]);
            o.push_str(&s[b[i]..]);
        }
        // a piece of the text again
        10 => {
            let (mut x, mut y) = (at(r), at(r));
            if x > y {
                (x, y) = (y, x);
            }
            let i = at(r);
            o.push_str(&s[..b[i]]);
            o.push_str(&s[b[x]..b[y]]);
            o.push_str(&s[b[i]..]);
        }
        // the beginning only
        _ => o.push_str(&s[..b[at(r)]]),
    }
    o
}

/// Some random changes.
pub fn changed(r: &mut Rng, s: &str, other: &str) -> String {
    let mut x = change(r, s, other);
    while r.p(2, 5) {
        x = change(r, &x, other);
    }
    x
}

/// Random pieces in a row.
pub fn soup(r: &mut Rng, max: usize) -> String {
    let n = 1 + r.below(max);
    let mut s = String::new();
    let gap = r.below(4);
    for _ in 0..n {
        if r.p(1, 24) {
            // any character at all
            let c = loop {
                let x = match r.below(4) {
                    0 => r.below(0x80),
                    1 => r.below(0x800),
                    2 => r.below(0x10000),
                    _ => r.below(0x110000),
                };
                if let Some(c) = char::from_u32(x as u32) {
                    break c;
                }
            };
            s.push(c);
        } else {
            s.push_str(r.s(PIECES));
        }
        match gap {
            0 => {}
            1 => s.push(' '),
            2 if r.coin() => s.push(' '),
            _ if r.p(1, 6) => s.push('\n'),
            _ => {}
        }
    }
    s
}

/// Random characters of a small alphabet, which make up tokens of any kind.
pub fn noise(r: &mut Rng, max: usize) -> String {
    const ALPHA: &[&str] = &[
        "\"'`#{}@$%wiqQr()<>[]/\\ \n",
        "0123456789._eExXbBoOir+- \n",
        "abc_AB1é日@$:?!=.&,; \n",
        "<-~A\"'\n #{}\\abc",
        "|&*(){}:,=ab ->\n",
        "\\xuMCc-{}0123456789abf\"?' ",
        "+-*/%<>=&|^!~?: a1\n",
    ];
    let a: Vec<char> = r.s(ALPHA).chars().collect();
    let n = 1 + r.below(max);
    (0..n).map(|_| *r.pick(&a)).collect()
}
