//! C07: nothing is silently accepted, dropped or truncated.
use super::common::*;
use super::kinds::{FIRST, SECOND, TARGET, WRONG};
use crate::gen::*;
use crate::mon::*;
use crate::run::*;
use crate::term::*;
use crate::tok::*;
use std::collections::HashMap;

pub fn c07() -> Check {
    Check {
        id: "C07",
        rule: "every generated program gives the complete tree it was made from; in any accepted text without literals every name and number of the text occurs in the tree as often as in the text; \
               a newline at the end of a complete statement ends it; a program with a bracket, keyword or `end` removed, doubled, exchanged or misspelled, with one of a catalogue of wrong tokens, \
               two expressions in a row, an impossible target or a missing operand at any place, or an accepted text with a wrong statement after, before or between, is rejected; so are the wrong literals, parameters, calls, targets, control structures and definitions of the other checks",
        modes: vec![
            Mode { name: "complete", quick: 40_000, thorough: 600_000, f: complete },
            Mode { name: "conserve", quick: 150_000, thorough: 4_000_000, f: conserve },
            Mode { name: "newline", quick: 30_000, thorough: 600_000, f: newline },
            Mode { name: "corrupt", quick: 30_000, thorough: 600_000, f: corrupt },
            Mode { name: "placed", quick: 60_000, thorough: 600_000, f: placed },
            Mode { name: "lists", quick: 120_000, thorough: 1_500_000, f: lists },
            Mode { name: "operands", quick: 80_000, thorough: 600_000, f: operands },
            Mode { name: "tail", quick: 100_000, thorough: 2_000_000, f: tail },
            Mode { name: "forms", quick: 60_000, thorough: 600_000, f: forms },
        ],
        assumptions: &[
            "which names count as accounted for is judged by counting only, in texts without quotes, comments, escapes, %-literals and here-documents",
            "separators missing between arguments are judged only where the second expression cannot start an argument of a command",
        ],
        must: &[
            "conserve:accepted", "conserve:changed", "newline:accepted", "newline:rejected", "corrupt:delete", "corrupt:double", "corrupt:exchange", "corrupt:misspell", "corrupt:swap",
            "placed:wrong", "placed:second", "placed:target", "placed:operand", "placed:unseparated", "lists:right", "lists:double", "lists:leading", "lists:unseparated", "lists:separator", "lists:after-block", "lists:after-keyword", "lists:after-forward", "operands:right", "operands:wrong", "tail:accepted", "tail:after", "tail:before", "tail:between",
        ],
    }
}

/// What the other checks know to be wrong: literals, parameters, calls,
/// targets, control structures and definitions.
fn forms(c: &mut Case) {
    use super::{lits, lits2, names, trees};
    let f: [fn(&mut Case); 11] = [
        lits::c09_invalid,
        lits::c10_invalid,
        lits2::c11_invalid,
        lits2::c12_invalid,
        lits2::c13_invalid,
        names::c16_invalid,
        trees::c17_reject,
        trees::c18_reject,
        trees::c19_reject,
        trees::c20_reject,
        trees::c20_aliases,
    ];
    f[(c.idx % 11) as usize](c)
}

fn complete(c: &mut Case) {
    mixture(c, TREE);
}

/// Only constructs whose words all stand in the tree.
fn plain() -> Feat {
    Feat { num_rich: false, strs: 0, istr: 0, here: 0, regex: 0, pct: 0, ch: 0, xstr: 0, ..Feat::all() }
}

const KEYWORDS: &[&str] = &[
    "BEGIN", "END", "alias", "begin", "break", "case", "class", "def", "defined", "do", "else", "elsif", "end", "ensure", "for", "if", "in", "module", "next", "not", "redo", "rescue", "return",
    "super", "then", "undef", "unless", "until", "when", "while", "yield", "and", "or", "__FILE__", "__LINE__", "__END__", "_",
];

/// Where an operand is expected, a blank or digit may delimit a literal.
fn literal_at(s: &str, i: usize) -> bool {
    let before = s[..i].trim_end_matches([' ', '\t']);
    let word = before.rfind(|k: char| !(k.is_alphanumeric() || k == '_')).map_or(before, |k| &before[k + 1..]);
    !before.ends_with(|k: char| k.is_alphanumeric() || "_)]}".contains(k)) || KEYWORDS.contains(&word) && word != "end"
}

/// Whether the words of the text can be told without reading literals.
fn countable(s: &str) -> bool {
    let b = s.as_bytes();
    if s.contains(['"', '\'', '`', '#', '\\']) || s.chars().any(|c| !c.is_ascii() && !"é日本".contains(c)) {
        return false;
    }
    for (i, c) in b.iter().enumerate() {
        let next = b.get(i + 1).copied().unwrap_or(b' ');
        if *c == b'%' && !(next == b' ' || next.is_ascii_digit()) {
            return false;
        }
        if matches!(*c, b'%' | b'/') && literal_at(s, i) {
            return false;
        }
        if *c == b'<' && i > 0 && b[i - 1] == b'<' && !(next == b' ' || next.is_ascii_digit() || next == b'=') {
            return false;
        }
        // A slash may start a regular expression, with options after it.
        if *c == b'/' && !(next == b' ' || next == b'=') {
            return false;
        }
        // "?a" and "$-a" end after one letter, "1e-3" is one number.
        if *c == b'?' && next != b' ' && (i == 0 || !alnum(b[i - 1] as char)) || *c == b'-' && i > 0 && (b[i - 1] == b'$' || b[i - 1] == b'e' && next.is_ascii_digit()) {
            return false;
        }
    }
    true
}

fn words(s: &str) -> HashMap<String, usize> {
    let mut m = HashMap::new();
    let b = s.as_bytes();
    for (i, e) in crate::mutate::rough(s) {
        let w = &s[i..e];
        let Some(f) = w.chars().next() else { continue };
        if !(f.is_alphanumeric() || f == '_') || KEYWORDS.contains(&w) {
            continue;
        }
        let prev = if i > 0 { b[i - 1] } else { b' ' };
        let next = b.get(e).copied().unwrap_or(b' ');
        if prev == b'$' || prev == b'/' {
            continue;
        }
        if f.is_ascii_digit() {
            let frac = prev == b'.' && i > 1 && b[i - 2].is_ascii_digit();
            let point = next == b'.' && b.get(e + 1).is_some_and(|c| c.is_ascii_digit());
            if !w.bytes().all(|c| c.is_ascii_digit()) || (w.len() > 1 && f == '0') || frac || point {
                continue;
            }
        }
        *m.entry(w.to_string()).or_insert(0) += 1;
    }
    m
}

/// The words the tree accounts for.
fn tree_words(t: &T) -> HashMap<String, usize> {
    let mut m = HashMap::new();
    t.walk(&mut |n| {
        let tag = n.tag.as_str();
        if tag.starts_with("lv[") {
            return;
        }
        let name = match tag {
            "nil" | "true" | "false" | "self" | "redo" => tag,
            _ => {
                if let Some(x) = tag.strip_prefix("lvar:") {
                    x.split_once(':').map_or("", |x| x.1)
                } else if tag.starts_with("for[") || tag.starts_with(['.', '&']) {
                    tag
                } else {
                    tag.split_once(':').map_or("", |x| x.1)
                }
            }
        };
        for (i, e) in crate::mutate::rough(name) {
            *m.entry(name[i..e].to_string()).or_insert(0) += 1;
        }
    });
    m
}

fn conserve(c: &mut Case) {
    let fuel = *c.rng.pick(&[6, 12, 24, 40]);
    let mut g = gen(c, plain(), fuel);
    let n = 1 + g.rng.below(3);
    g.program(n);
    let mut src = render(&g.toks, Style { wild: 0, seed: 0 }).src;
    let change = !c.rng.p(1, 6);
    if change {
        let mut h = gen(c, plain(), 10);
        h.program(1);
        let other = render(&h.toks, Style { wild: 0, seed: 0 }).src;
        src = crate::mutate::changed(&mut c.rng, &src, &other);
    }
    if !countable(&src) {
        c.hit("conserve:literals");
        return;
    }
    let Obs::Ok(r) = c.parse(&src) else {
        c.hit("conserve:rejected");
        return;
    };
    c.nontrivial(&src);
    c.hit(if change { "conserve:changed" } else { "conserve:unchanged" });
    c.hit("conserve:accepted");
    let t = norm(&r.node);
    c.st.nodes += t.size() as u64;
    let have = tree_words(&t);
    let mut want: Vec<(String, usize)> = words(&src).into_iter().collect();
    want.sort();
    for (w, n) in want {
        c.add("conserve:words", n as u64);
        let k = have.get(&w).copied().unwrap_or(0);
        if k < n {
            c.fail(&src, format!("{:?} occurs {} times in the text, but {} times in the tree {}", w, n, k, clip_str(&t.to_string(), 600)));
            return;
        }
    }
}

fn outcome(c: &mut Case, s: &str) -> Result<T, String> {
    match c.parse(s) {
        Obs::Ok(r) => Ok(norm(&r.node)),
        o => Err(o.brief()),
    }
}

fn newline(c: &mut Case) {
    let fuel = *c.rng.pick(&[4, 8, 16, 30]);
    let mut g = gen(c, Feat { here: 0, ..Feat::all() }, fuel);
    let n = 1 + g.rng.below(2);
    g.program(n);
    let st = style(c, &[0]);
    let out = render(&g.toks, st);
    let mut at: Vec<usize> = (1..g.toks.len()).filter(|i| g.toks[*i].open == 0).collect();
    c.rng.shuffle(&mut at);
    at.truncate(8);
    for i in at {
        let t = &g.toks[i].text;
        let p = g.toks[i - 1].text.as_str();
        if t == "." || t == "&." || p == "defined?" || (t.starts_with(|c: char| c.is_ascii_digit()) && p == "-") || super::kinds::takes_name(&g.toks, i) {
            // The statement goes on, or a name is still to come.
            continue;
        }
        let (a, b) = (&out.src[..=out.spans[g.toks[i - 1].id].1], &out.src[out.spans[g.toks[i].id].0..]);
        let nl = c.rng.s(&["\n", "\r\n", " \n", "\n\n", " # c\n", "\n  ", "\n# c\n"]);
        let x = format!("{}{}{}", a, nl, b);
        let y = format!("{}{};{}", a, nl, b);
        c.nontrivial(&x);
        match (outcome(c, &x), outcome(c, &y)) {
            (Ok(p), Ok(q)) => {
                c.hit("newline:accepted");
                if let Some(d) = p.diff(&q, false) {
                    c.fail(&x, format!("the newline does not end the statement: {}", d));
                    return;
                }
            }
            (Err(_), Err(_)) => c.hit("newline:rejected"),
            (p, q) => {
                c.fail(&x, format!("with only a newline: {}; with newline and semicolon: {}", clip_str(&format!("{:?}", p), 500), clip_str(&format!("{:?}", q), 500)));
                return;
            }
        }
    }
}

const OPEN: &[&str] = &["(", "[", "{", "begin", "if", "unless", "case", "class", "module", "def", "do"];
const CLOSE: &[&str] = &[")", "]", "}", "end"];

/// Rebuild the text with some tokens replaced.
fn with(src: &str, out: &Out, reps: &[(&Tok, &str)]) -> String {
    let mut reps: Vec<(usize, usize, &str)> = reps.iter().map(|(t, s)| (out.spans[t.id].0, out.spans[t.id].1 + 1, *s)).collect();
    reps.sort();
    let mut o = String::new();
    let mut p = 0;
    for (a, b, s) in reps {
        o.push_str(&src[p..a]);
        o.push_str(s);
        p = b;
    }
    o.push_str(&src[p..]);
    o
}

fn corrupt(c: &mut Case) {
    let fuel = *c.rng.pick(&[4, 8, 16, 30, 50]);
    let mut g = gen(c, Feat { strs: 0, istr: 0, here: 0, regex: 0, pct: 0, ch: 0, xstr: 0, ..Feat::all() }, fuel);
    let n = 1 + g.rng.below(3);
    g.program(n);
    let out = render(&g.toks, Style { wild: 0, seed: 0 });
    let src = out.src.clone();
    // A symbol or variable may look like a delimiter of something.
    if src.contains(['"', '\'', '`', '#', '?']) || src.contains("$%") || src.contains("$/") {
        c.hit("corrupt:literals");
        return;
    }
    let toks: Vec<&Tok> = g.toks.iter().filter(|t| t.act > 0 && OPEN.contains(&t.text.as_str()) || t.act < 0 && CLOSE.contains(&t.text.as_str())).collect();
    if toks.is_empty() {
        return;
    }
    let closers: Vec<&Tok> = toks.iter().filter(|t| t.act < 0).copied().collect();
    for _ in 0..8 {
        let t = *c.rng.pick(&toks);
        let x = t.text.as_str();
        let (what, s) = match c.rng.below(5) {
            // "def if a end" and "def while a do end"
            0 if x == "def" => continue,
            0 => ("delete", with(&src, &out, &[(t, " ")])),
            1 => {
                if x == "def" {
                    continue;
                }
                ("double", with(&src, &out, &[(t, &format!("{} {}", x, x))]))
            }
            2 => {
                if closers.is_empty() {
                    continue;
                }
                let t = *c.rng.pick(&closers);
                let y = c.rng.s(CLOSE);
                if y == t.text {
                    continue;
                }
                ("exchange", with(&src, &out, &[(t, &format!(" {} ", y))]))
            }
            3 => {
                if x != "end" {
                    continue;
                }
                let y = c.rng.s(&["edn", "End", "ends", "END_", "ed", "nd", "END", "endd", "en d", "e nd", "_end", "end_", "fi", "done", "esac"]);
                ("misspell", with(&src, &out, &[(t, y)]))
            }
            _ => {
                if closers.len() < 2 {
                    continue;
                }
                let i = c.rng.below(closers.len() - 1);
                let (p, q) = (closers[i], closers[i + 1]);
                if p.text == q.text || g.toks.iter().any(|t| t.id > p.id && t.id < q.id && t.act > 0) {
                    continue;
                }
                ("swap", with(&src, &out, &[(p, &format!(" {} ", q.text)), (q, &format!(" {} ", p.text))]))
            }
        };
        if s.bytes().enumerate().any(|(i, b)| matches!(b, b'%' | b'/') && literal_at(&s, i)) {
            // A symbol, method name or operator which starts a literal now.
            c.hit("corrupt:operand");
            continue;
        }
        c.hit(format!("corrupt:{}", what));
        c.hit(format!("corrupt:{}:{}", what, x));
        if !expect_reject(c, &s, &format!("with {:?} of {:?} it is still accepted ({})", x, clip_str(&src, 500), what)) {
            return;
        }
    }
}

/// Operators without their second operand.
const HANGING: &[&str] = &[
    "self +", "nil -", "nil *", "nil /", "nil %", "nil **", "nil &&", "nil ||", "nil &", "nil |", "nil ^", "nil <<", "nil >>", "nil ==", "nil !=", "nil =~", "nil !~", "nil <=>", "nil ===", "nil <",
    "nil >=", "nil .", "nil &.", "nil ::", "nil ? 1", "nil ? 1 :", "nil ..", "nil ...", "!", "~", "q =", "q +=", "q ||=", "@q &&=", "nil[", "{", "{a:", "{nil =>", "{a: 1", "->", "(", "[", "q.r =", "nil[1] =",
    "nil and", "nil or", "begin", "if nil", "def x", "->(", "%w", "foo(", "nil.foo(1", ":", "::", "\"#{", "\"a", "'a", "%q", "/a", "`a", "@", "$", "=> 1", "== 1", "&& 1", ". 1", "= 1",
];

/// Parts of a construct without what separates them.
const UNSEPARATED: &[&str] = &[
    "class A < B 1 end", "class << self 1 end", "class << q\n1 2\nend", "def f a 1 end", "def f a, b 1; end", "if 1 2 end", "if true 2 else 3 end", "if nil; elsif 1 2 end", "unless 1 2 end", "while 1 2 end",
    "until 1 2 end", "for q in 1 2 end", "for q 1; end", "for q in; end", "for (q in 1; end", "for q, in; end", "case 1 when 2 3 end", "case 1 2\nwhen 3\nend", "case 1\nwhen 2 then 3 4 end", "begin 1 2 end",
    "begin; rescue => e 1; end", "begin 1 ensure 2 3 end", "begin 1; else 2 3; end", "->(a) 1 {}", "->a 1 {}", "foo { |a 1 }", "foo { |a| 1 2 }", "foo do |a| 1 2 end", "[1 2]", "{1 => 2 3 => 4}", "{a: 1 b: 2}",
    "foo(1 2)", "foo(a: 1 b: 2)", "foo(*@a 2)", "foo(&@a 1)", "foo(**@a 1)", "foo[1 2]", "foo.m(1 2)", "yield(1 2)", "super(1 2)", "->(a b) {}", "def f(a b); end", "foo { |a b| }", "q, r 1 = 2", "q = 1 r = 2",
    "module A B end 1", "alias a b c", "return 1 2", "defined?(1 2)", "(1 2)", "1 ? 2 3", "1 ? 2 : 3 4", "%w(a) 1", "\"#{1 2}\"", "/#{1 2}/", "nil if 1 2", "nil while 1 2", "nil rescue 1 2", "1..2 3", "q.r = 1 2", "q[1] = 1 2",
    "def f(a; end", "def f a b; end", "def 1; end", "def f(1); end", "def f(A); end", "def f(@a); end", "def f(a = ); end", "def f(a: 1 b:); end", "class a; end", "class 1; end", "module A < B; end", "class A <; end",
];

fn placed(c: &mut Case) {
    let p = place(c);
    c.hit(format!("place:{}", p.name));
    match c.rng.below(5) {
        4 => {
            let x = c.rng.s(UNSEPARATED);
            c.hit("placed:unseparated");
            c.hit(format!("placed:unseparated:{}", x));
            expect_reject(c, &at(p, x), "what is not separated is accepted");
        }
        0 => {
            let bad = c.rng.s(WRONG);
            if bad.starts_with(['"', '?', '$', '@', ':', '%']) || p.post.starts_with([' ', '\n', ')', ';']) || p.post.is_empty() {
                // "" after a place is the end of the text
                c.hit("placed:wrong");
                c.hit(format!("placed:wrong:{}", bad));
                expect_reject(c, &at(p, bad), "a wrong token is accepted");
            }
        }
        1 => {
            let (a, b) = (c.rng.s(FIRST), c.rng.s(SECOND));
            if a == "->{}" && b == "{}" || (a == "[]" || a.ends_with(')')) && b == "{}" || a == "?a" && b == "\"a\"" {
                return;
            }
            c.hit("placed:second");
            c.hit(format!("placed:second:{}:{}", a, b));
            expect_reject(c, &at(p, &format!("{} {}", a, b)), "two expressions in a row are accepted");
        }
        2 => {
            let (a, op) = (c.rng.s(TARGET), c.rng.s(&[" = ", " += ", " ||= ", " &&= ", "= ", " <<= ", " -= ", " **= ", ", @q = ", " = @q = "]));
            if op == ", @q = " && !matches!(p.name, "alone" | "newline" | "semicolon" | "comment" | "second" | "second-semicolon" | "then" | "modifier") {
                return;
            }
            c.hit("placed:target");
            c.hit(format!("placed:target:{}", a));
            expect_reject(c, &at(p, &format!("{}{}1", a, op)), "a value is accepted as the target of an assignment");
        }
        _ => {
            let a = c.rng.s(HANGING);
            if !p.post.starts_with([')', ']', '}', ',']) {
                return;
            }
            c.hit("placed:operand");
            c.hit(format!("placed:operand:{}", a));
            expect_reject(c, &at(p, a), "a missing operand is accepted");
        }
    }
}

/// Statements which are wrong in themselves.
const WRONG_TAIL: &[&str] = &[
    ")", "]", "}", "end", "1 2", "@1", "1 )", "nil]", "[1 2]", "foo(", "(", "[1", "{a: 1", "if nil", "def f", "class A", "begin", "1 +", "\"", "'", "\"#{", "08", "1__0", "0x", "=> 1", "nil = 1", "self = 1",
    "else", "when 1", "in", "nil.", "nil::", "a b c = ", "|a|", "=", "then", "do", "\u{0}", "\u{4}", "\u{1a}", "\u{feff})", "\u{0})", "\u{4})", "\u{1a}\n)", "\u{a0})", "\u{2028})", "__END__\n)", "=begin\n)", "(()", "[)", "\u{1}",
    "foo(1", "%w(a", "->", "alias", "alias a", "def", "class", "yield(", "return )", "1 ? 2", "1 ? 2 :", "case", "while", "for a", "for a in", "&& 1", "|| 1", "* ", "&.a", ", a", "? ", "$ ", "@@ ",
];
/// The ones which are wrong in front of anything.
const WRONG_HEAD: &[&str] = &[")", "]", "}", "end", "1 2", "@1", "1 )", "nil]", "[1 2]", "08", "1__0", "=> 1", "nil = 1", "self = 1", "else", "when 1", "then", "do", "&& 1", "|| 1", "nil nil", "= 1", "\u{1}", "[)", "(]", "{)", "(end"];

fn tail(c: &mut Case) {
    let p = any_text(c);
    if !matches!(c.parse(&p), Obs::Ok(_)) {
        let b = c.rng.s(WRONG_HEAD);
        c.hit("tail:before");
        expect_reject(c, &format!("{}\n{}", b, p), "a wrong beginning is accepted");
        return;
    }
    c.hit("tail:accepted");
    let sep = c.rng.s(&["\n", "\n", "\n", "\n\n", "\n ", "\n;", "\r\n", "\n# c\n"]);
    for _ in 0..3 {
        let b = c.rng.s(WRONG_TAIL);
        if b.starts_with("&.") && !sep.contains(';') {
            continue;
        }
        c.hit("tail:after");
        c.hit(format!("tail:after:{:?}", b));
        if !expect_reject(c, &format!("{}{}{}", p, sep, b), "a wrong end is accepted") {
            return;
        }
    }
    let b = c.rng.s(WRONG_HEAD);
    c.hit("tail:before");
    if !expect_reject(c, &format!("{}\n{}", b, p), "a wrong beginning is accepted") {
        return;
    }
    let q = any_text(c);
    let b = c.rng.s(WRONG_HEAD);
    c.hit("tail:between");
    expect_reject(c, &format!("{}{}{}\n{}", p, sep, b, q), "a wrong statement in the middle is accepted");
}

#[derive(Clone, Copy, PartialEq)]
enum L {
    /// Arguments; without a block; without keywords.
    Args,
    NoBlock,
    Values,
    Pairs,
    Params,
    BlockParams,
    Targets,
    Names,
}
const LIST_AT: &[(&str, &str, L)] = &[
    ("foo(", ")", L::Args), ("self.foo(", ")", L::Args), ("@a.foo(", ")", L::Args), ("@a&.foo(", ")", L::Args), ("super(", ")", L::Args), ("foo(1).foo(", ")", L::Args), ("foo[0].foo(", ").m", L::Args), ("A::b(", ")", L::Args), ("@a.(", ")", L::Args),
    ("foo(bar(", "), 2)", L::Args), ("foo bar(", ")", L::Args), ("foo ", "", L::Args), ("self.foo ", "", L::Args), ("@a.foo ", "", L::Args), ("super ", "", L::Args), ("yield(", ")", L::NoBlock), ("yield ", "", L::NoBlock), ("return ", "", L::Values), ("[", "]", L::Values), ("[[", "]]", L::Values),
    ("@a[", "]", L::Values), ("self[", "] = 1", L::Values), ("@a = ", "", L::Values), ("@a, @b = ", "", L::Values), ("case 1\nwhen ", "\n2\nend", L::Values), ("case 1\nwhen 3\n4\nwhen ", " then 2\nend", L::Values), ("begin\n1\nrescue ", "\n2\nend", L::Values), ("begin\n1\nrescue ", " => e\n2\nend", L::Values),
    ("@a = {", "}", L::Pairs), ("foo({", "})", L::Pairs), ("[{", "}]", L::Pairs), ("{a: {", "}}.m", L::Pairs), ("def m(", ") 1 end", L::Params), ("def self.m(", ")\n1\nend", L::Params), ("def m ", "\nend", L::Params), ("->(", ") { }", L::Params), ("->(", ") do end", L::Params), ("foo { |", "| 1 }", L::BlockParams), ("foo do |", "|\n1\nend", L::BlockParams),
    ("foo(1) { |", "| }", L::BlockParams), ("", " = 1, 2", L::Targets), ("", " = @c", L::Targets), ("for ", " in @a do end", L::Names), ("for ", " in 1..2\nend", L::Names),
];

/// Lists of any length with one comma, one separator or one place wrong.
fn lists(c: &mut Case) {
    let i = c.rng.below(LIST_AT.len());
    let (pre, post, kind) = LIST_AT[i];
    let big = c.rng.p(1, 6);
    let n = 1 + c.rng.below(if big { 20 } else { 5 });
    let mut v: Vec<String> = vec![];
    let value = |c: &mut Case| c.rng.s(&["1", "nil", "@a", "$b", "[1]", "[1, 2]", ":a", "'s'", "(1)", "foo(1)", "-1", "1.5", "self", "A", "->{}", "1 + 2", "!@a", "@a.b", "@a.c(1, 2)", "{k: 1}"]).to_string();
    let values = |c: &mut Case, n: usize, v: &mut Vec<String>| {
        for _ in 0..n {
            let x = value(c);
            v.push(if c.rng.p(1, 8) { format!("*{}", c.rng.s(&["@a", "[1]", "foo(1)"])) } else { x });
        }
    };
    let pair = |c: &mut Case, i: usize| match c.rng.below(3) {
        0 => format!("k{}: {}", i, value(c)),
        1 => format!("'k{}': {}", i, value(c)),
        _ => format!("{} => {}", value(c), value(c)),
    };
    // The two kinds do not mix among arguments.
    let arrows = c.rng.p(1, 3);
    let simple = |c: &mut Case, i: usize| match arrows as usize {
        0 => format!("k{}: {}", i, value(c)),
        _ => format!("{} => {}", value(c), value(c)),
    };
    match kind {
        L::Args | L::NoBlock => {
            let k = c.rng.below(n + 1);
            values(c, n - k, &mut v);
            for i in 0..k {
                let x = simple(c, i);
                v.push(if !arrows && c.rng.p(1, 8) { "**@h".to_string() } else { x });
            }
            if kind == L::Args && c.rng.p(1, 3) && !v.last().is_some_and(|x| x.contains("=>")) {
                v.push(c.rng.s(&["&@b", "&nil", "&:a", "&self"]).to_string());
            }
        }
        L::Values => values(c, n, &mut v),
        L::Pairs => (0..n).for_each(|i| {
            let x = pair(c, i);
            v.push(x)
        }),
        L::Params | L::BlockParams => {
            let f = c.rng.below(4);
            for i in 0..n {
                v.push(match f {
                    0 => format!("p{} = {}", i, c.rng.s(&["1", "nil", "@a"])),
                    1 if i == n / 2 => "*r".to_string(),
                    2 if i > n / 2 => format!("p{}: 1", i),
                    _ => format!("p{}", i),
                });
            }
            if c.rng.p(1, 4) {
                v.push("&b".to_string());
            }
        }
        L::Targets => {
            let s = c.rng.below(n * 2);
            for i in 0..n + 1 {
                v.push(if i == s { format!("*t{}", i) } else { c.rng.s(&["t", "@t", "$t", "@a.t", "@a[1]", "@@t"]).to_string() });
            }
        }
        L::Names => (0..n).for_each(|i| v.push(format!("t{}", i))),
    }
    if pre.starts_with("return") || pre.starts_with("yield ") || pre.ends_with("foo ") || pre == "super " {
        // What would belong to the word before.
        if v[0].starts_with(['[', '(', '-', '*', '{', '\'', ':']) {
            v[0] = "1".to_string();
        }
    }
    let comma = |c: &mut Case| c.rng.s(&[", ", ",", ", ", ",\n", " , "]).to_string();
    let cm: Vec<String> = (0..v.len()).map(|_| comma(c)).collect();
    let join = |v: &[String], cm: &[String]| -> String {
        let mut s = String::new();
        for (i, x) in v.iter().enumerate() {
            if i > 0 {
                s.push_str(&cm[(i - 1) % cm.len()]);
            }
            s.push_str(x);
        }
        s
    };
    let around = *c.rng.pick(&[("", ""), ("", "\nself"), ("nil\n", ""), ("if nil\n", "\nend"), ("def f\n", "\nend"), ("foo {\n", "\n}"), ("(", "\n)"), ("begin\n", "\nensure\nend")]);
    let put = |s: String| format!("{}{}{}{}{}", around.0, pre, s, post, around.1);
    let params = matches!(kind, L::Params | L::BlockParams | L::Names);
    let lit = |s: &str| ["1", "nil", "@a", "$b", "1.5", "self"].contains(&s);
    match c.rng.below(8) {
        0 => {
            c.hit("lists:right");
            expect_accept(c, &put(join(&v, &cm)));
        }
        1 | 2 => {
            // Two commas.
            let i = c.rng.below(v.len());
            if i + 1 == v.len() && matches!(kind, L::Targets | L::Names | L::BlockParams) {
                return;
            }
            c.hit("lists:double");
            let two = c.rng.s(&[",,", ", ,", ",, ", ",\n,", " ,,"]);
            let s = if i + 1 == v.len() { format!("{}{}", join(&v, &cm), two) } else { format!("{}{}{}", join(&v[..=i], &cm), two, join(&v[i + 1..], &cm)) };
            expect_reject(c, &put(s), "two commas in a row are accepted");
        }
        3 => {
            c.hit("lists:leading");
            expect_reject(c, &put(format!("{}{}", c.rng.clone().s(&[", ", ",", " , "]), join(&v, &cm))), "a comma in front is accepted");
        }
        4 => {
            // No comma at all.
            let i = c.rng.below(v.len());
            let (a, b) = if params { (v[i].clone(), "q9".to_string()) } else if lit(&v[i]) { (v[i].clone(), c.rng.s(&["1", "nil", "@a", "self", "foo"]).to_string()) } else { return };
            if kind == L::BlockParams && a.contains('=') {
                return;
            }
            c.hit("lists:unseparated");
            let mut w = v.clone();
            w[i] = format!("{} {}", a, b);
            // `= 1 q9` and the like are two expressions as well.
            expect_reject(c, &put(join(&w, &cm)), "what is not separated is accepted");
        }
        5 => {
            // Something else for a comma, within brackets.
            if !matches!(post.chars().next(), Some(')' | ']' | '}')) || v.len() < 2 {
                return;
            }
            let i = c.rng.below(v.len() - 1);
            let sep = c.rng.s(&["; ", "\n", ";", " and ", " or ", " if ", " => => ", " then ", " do "]);
            if params && sep == "\n" || kind == L::Params && sep.starts_with(';') || v[i + 1].starts_with(['*', '&', '-', '[', '(']) && !sep.starts_with(';') || v[i + 1].starts_with('-') {
                return;
            }
            c.hit("lists:separator");
            let s = format!("{}{}{}", join(&v[..=i], &cm), sep, join(&v[i + 1..], &cm));
            expect_reject(c, &put(s), "something else than a comma is accepted");
        }
        6 => {
            // What may not come after something.
            if !matches!(kind, L::Args) {
                return;
            }
            c.hit("lists:after-block");
            let w: Vec<String> = v.iter().filter(|x| !x.starts_with('&') && !x.contains("=>")).cloned().collect();
            let b = c.rng.s(&["&@b", "&nil", "&:a", "&self", "&->{}"]);
            let x = c.rng.s(&["1", "@a", "foo", "*@a", "**@h", "k: 1", "1 => 2", "&@c", "&:d", "nil", "[1]", "{}", "1, 2", "k: 1, l: 2"]);
            let s = format!("{}{}{}, {}", join(&w, &cm), if w.is_empty() { "" } else { ", " }, b, x);
            expect_reject(c, &put(s), "an argument after a block is accepted");
        }
        _ => {
            if !matches!(kind, L::Args | L::NoBlock) {
                return;
            }
            let w: Vec<String> = v.iter().filter(|x| !x.starts_with('&') && !x.contains("=>")).cloned().collect();
            if kind == L::Args && post.starts_with(')') && c.rng.p(1, 3) && !around.0.starts_with("def") {
                // Everything is forwarded by the last argument.
                c.hit("lists:after-forward");
                let x = c.rng.s(&["1", "*@a", "k: 1", "&@b", "...", "**@h", "@a => 1"]);
                let head: Vec<String> = w.iter().filter(|x| !x.contains(": ") && !x.contains("=>") && !x.starts_with("**")).cloned().collect();
                let s = format!("def m(...)\n{}\nend", put(format!("{}{}..., {}", join(&head, &cm), if head.is_empty() { "" } else { ", " }, x)));
                expect_reject(c, &s, "an argument after forwarded ones is accepted");
                return;
            }
            c.hit("lists:after-keyword");
            let key = c.rng.s(&["k: 1", "k: @a", "**@h", "k9: nil"]);
            let x = c.rng.s(&["1", "@a", "*@a", "nil", "[1]", "foo(1)", "'s'"]);
            let s = format!("{}{}{}, {}", join(&w, &cm), if w.is_empty() { "" } else { ", " }, key, x);
            expect_reject(c, &put(s), "a value after a keyword is accepted");
        }
    }
}

/// Where an operand stands, and what is no operand without parentheses.
const OPERAND_AT: &[(&str, &str)] = &[
    ("[", "]"), ("[1, ", "]"), ("[", ", 1]"), ("[*", "]"), ("foo(", ")"), ("foo(1, ", ")"), ("foo(k: ", ")"), ("foo(@a => ", ")"), ("foo(*", ")"), ("foo(**", ")"), ("foo(&", ")"), ("foo(", ", 1)"), ("self.foo(", ")"), ("@a.foo(1, ", ")"), ("super(", ")"), ("yield(", ")"), ("@a.(", ")"), ("@a[", "]"), ("@a[1, ", "]"),
    ("@a[", "] = 1"), ("{a: ", "}.m"), ("{'a': ", "}.m"), ("{@a => ", "}.m"), ("{1 => 2, 3 => ", ", a: 4}.m"), ("@a ? ", " : 1"), ("@a ? 1 : (2) ? ", " : 3"), ("def m(a = ", ") end"), ("def m(a: ", ") end"), ("->(a = ", ") { }"), ("case 1\nwhen ", "\n2\nend"), ("case 1\nwhen 3, ", "\n2\nend"), ("case 1\nwhen ", " then 2\nend"),
    ("begin\n1\nrescue ", "\n2\nend"), ("begin\n1\nrescue A, ", " => e\n2\nend"), ("[foo(", ")]"), ("foo([", "])"), ("foo {\n[", "]\n}"), ("@a = [", "]"), ("@a.b = foo(", ")"), ("return [", "]"), ("if [", "]\nend"), ("\"#{[", "]}\""), ("foo 1, [", "]"),
];
const NO_OPERAND: &[&str] = &[
    "1 and 2", "1 or 2", "@a and @b", "1 and 2 or 3", "@a or raise(1)", "1 if 2", "1 unless @a", "@a while @b", "1 until 2", "1; 2", "1;", "1\n2", "@a if @b if @c", "foo(1) and 2", "[1] or [2]", "nil and return", "1 if", "1 and", "or 1", "if", "and", "1 then 2", "1 do 2", "end", "1 in 2 and",
];

/// An operand may stand there, and anything in parentheses, but nothing which
/// binds less.
fn operands(c: &mut Case) {
    let n = c.idx as usize;
    let (a, b) = OPERAND_AT[n % OPERAND_AT.len()];
    let x = NO_OPERAND[(n / OPERAND_AT.len()) % NO_OPERAND.len()];
    let around = *c.rng.pick(&[("", ""), ("", "\nself"), ("nil; ", ""), ("if nil\n", "\nend"), ("def f\n", "\nend"), ("class A\n", "\nend"), ("foo do\n", "\nend"), ("(", "\n)"), ("@a = ", ""), ("@a = @b || ", ""), ("foo(nil, (", "\n))"), ("while nil\n", "\nend"), ("\"#{", "}\"")]);
    if c.rng.p(1, 4) {
        // The same in parentheses.
        let y = c.rng.s(&["1", "@a", "(1 and 2)", "(@a or @b)", "(1 if 2)", "(1 while 2)", "(1; 2)", "@a && @b", "@a ? 1 : 2", "!@a", "foo(1)"]);
        if a.ends_with('&') && y.starts_with('!') {
            return;
        }
        c.hit("operands:right");
        expect_accept(c, &format!("{}{}{}{}{}", around.0, a, y, b, around.1));
        return;
    }
    if x.starts_with("1\n2") && (a.contains("when") || a.contains("rescue")) || x == "1;" && (a.contains("when") || a.contains("rescue")) || x == "1; 2" && (a.contains("when") || a.contains("rescue")) || x == "1 then 2" && (a.contains("when") || a.contains("rescue")) || x == "end" && a.contains("rescue") {
        return;
    }
    if b == " => e\n2\nend" && x.contains('\n') || a.starts_with("def m(") && x.starts_with("1;") {
        return;
    }
    c.hit("operands:wrong");
    expect_reject(c, &format!("{}{}{}{}{}", around.0, a, x, b, around.1), "no operand, but it is accepted");
}
