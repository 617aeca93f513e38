//! C06: incomplete input and wrong input.
use super::common::*;
use crate::mon::*;
use crate::run::*;
use crate::tok::*;
use ruruby_parse::ParseErrKind;

pub fn c06() -> Check {
    Check {
        id: "C06",
        rule: "a generated valid program cut before or after any of its tokens with a construct open is rejected as unexpected end of input, with any layout at the end; \
               with a wrong closing token, stray keyword, or malformed token at a known position it is rejected as a syntax error located at that token, whatever follows",
        modes: vec![
            Mode { name: "cut", quick: 60_000, thorough: 900_000, f: cut },
            Mode { name: "inside", quick: 60_000, thorough: 900_000, f: inside },
            Mode { name: "literal", quick: 120_000, thorough: 900_000, f: literal },
            Mode { name: "closer", quick: 50_000, thorough: 1_500_000, f: closer },
            Mode { name: "stray", quick: 40_000, thorough: 1_500_000, f: stray },
            Mode { name: "token", quick: 40_000, thorough: 900_000, f: token },
        ],
        assumptions: &[
            "a text cut inside a token which is no literal, or on a line on which a here-document starts, is not judged",
        ],
        must: &["cut:before", "cut:after", "cut:newline", "cut:comment", "cut:operator", "cut:bracket", "inside:\"", "inside:'", "inside:%", "inside:/", "literal:nested", "closer", "stray", "stray:first", "token", "second", "target"],
    }
}

/// Whether the text up to the token is complete as far as here-documents go.
fn here_done(toks: &[Tok], out: &Out, i: usize, end: usize) -> bool {
    toks[..i]
        .iter()
        .filter(|t| t.here.is_some())
        .all(|t| out.src[out.spans[t.id].1 + 1..end].contains('\n'))
}

const ENDS: &[&str] = &["\n", " ", "\t\n", "\n\n", "\r\n", " # c\n", "# c", " # end\n", "\n# )\n", " \\\n"];

fn cut(c: &mut Case) {
    let (src, toks, out, _) = program(c, &[4, 10, 20, 40], 3, &[0, 0, 60]);
    let n = toks.len();
    let mut at: Vec<usize> = (1..n).filter(|i| toks[*i].open > 0).collect();
    c.rng.shuffle(&mut at);
    at.truncate(12);
    for i in at {
        let (a, b) = (out.spans[toks[i - 1].id].1 + 1, out.spans[toks[i].id].0);
        let before = c.rng.coin();
        let end = if before { b } else { a };
        if !here_done(&toks, &out, i, end) {
            c.hit("cut:here");
            continue;
        }
        let mut s = src[..end].to_string();
        let name = toks[i - 1].text.clone();
        if c.rng.p(1, 3) {
            // The cut text may still be followed by insignificant text.
            let e = c.rng.s(ENDS);
            if e.contains(['\n', '#']) && matches!(toks[i].sep, Sep::Opt | Sep::Sp | Sep::Glue | Sep::OptNlNc) {
                // The newline ends a statement here, or is not possible.
                continue;
            }
            if e.starts_with('#') && !before {
                s.push(' ');
            }
            s.push_str(e);
            c.hit(if e.contains('#') { "cut:comment" } else { "cut:newline" });
        }
        if toks[i].text.starts_with(['.', '&']) && s.ends_with('\n') {
            // Only the next line says that the expression goes on.
            continue;
        }
        c.hit(if before { "cut:before" } else { "cut:after" });
        if toks[i - 1].act > 0 {
            c.hit("cut:bracket");
        }
        if "+-*/%&|<>=^,.".contains(name.chars().next().unwrap_or('a')) {
            c.hit("cut:operator");
        }
        c.nontrivial(&s);
        match c.parse(&s) {
            Obs::Err(e) if e.kind == ParseErrKind::UnexpectedEOF => {}
            o => {
                let more = clip_str(&src[end..], 200);
                c.fail(&s, format!("not reported as incomplete, though it continues with {:?}: {}", more, o.brief()));
                return;
            }
        }
    }
}

/// Cut within a literal, where only its end is missing.
fn inside(c: &mut Case) {
    let (src, toks, out, _) = program(c, &[4, 10, 20, 40], 3, &[0, 0, 60]);
    let mut n = 0;
    for i in 0..toks.len() {
        let x = toks[i].text.as_str();
        let head = match x.as_bytes() {
            [b'"' | b'\'' | b'`', _, ..] | [b'}', _, ..] => 1,
            [b':', b'"' | b'\'', ..] => 2,
            [b'/', b, ..] if *b != b'=' => 1,
            [b'%', a, b, _, ..] if !a.is_ascii_alphanumeric() && *a < 128 && *a != b'=' && *a != b' ' || b"qQwir".contains(a) && *b < 128 => if a.is_ascii_alphanumeric() { 3 } else { 2 },
            _ => continue,
        };
        if !here_done(&toks, &out, i, out.spans[toks[i].id].0) {
            continue;
        }
        // Where the closing sign stands, or the next interpolation.
        let tail = if x.ends_with("#{") {
            x.len() - 2
        } else {
            match x.trim_end_matches(|k: char| k.is_ascii_alphabetic() || k == ':' && !x.starts_with("%")).char_indices().last() {
                Some((t, _)) => t,
                None => continue,
            }
        };
        if tail < head || x.starts_with('}') && !x.ends_with("#{") && !x.ends_with(['"', '`', '/', ')', ']', '}', '>']) {
            continue;
        }
        for _ in 0..3 {
            let p = head + c.rng.below(tail - head + 1);
            if !x.is_char_boundary(p) || x[..p].char_indices().rev().take(12).any(|(_, k)| k == '\\') || ["#", "#$", "#@", "#@@", "#$-"].iter().any(|k| x[..p].ends_with(k)) || x[..p].rfind("\\u{").is_some_and(|k| !x[k..p].contains('}')) {
                continue;
            }
            let mut s = src[..out.spans[toks[i].id].0 + p].to_string();
            if c.rng.p(1, 4) {
                s.push_str(c.rng.s(&["\n", " ", "\n\n", " # c\n", "\n# c"]));
            }
            // A name right after `#` would be an interpolation.
            c.hit(format!("inside:{}", &x[..1]));
            n += 1;
            c.nontrivial(&s);
            match c.parse(&s) {
                Obs::Err(e) if e.kind == ParseErrKind::UnexpectedEOF => {}
                o => {
                    c.fail(&s, format!("not reported as incomplete, though the literal continues with {:?}: {}", clip_str(&x[p..], 200), o.brief()));
                    return;
                }
            }
        }
        if n > 12 {
            return;
        }
    }
}

/// Literals of every delimiter with brackets in them which are still open.
fn literal(c: &mut Case) {
    let brackets = c.rng.p(2, 3);
    let (o, cl) = if brackets { *c.rng.pick(&[('(', ')'), ('[', ']'), ('{', '}'), ('<', '>')]) } else {
        let k = *c.rng.pick(&['!', '|', '/', '^', '"', '\'', '~', ':', ';', '-', '.', '`', '@', '$']);
        (k, k)
    };
    let pre = match c.rng.below(8) {
        0 => "%q", 1 => "%w", 2 => "%i", 3 => "%Q", 4 => "%r", 5 => "%", 6 => "\"", _ => "'",
    };
    let mut s = String::new();
    let (o, cl) = if pre.len() == 1 && pre != "%" {
        (pre.chars().next().unwrap(), pre.chars().next().unwrap())
    } else {
        s.push_str(pre);
        (o, cl)
    };
    s.push(o);
    let nests = o != cl;
    let mut depth = 0;
    for _ in 0..c.rng.below(8) {
        match c.rng.below(6) {
            0 | 1 if nests => {
                s.push(o);
                depth += 1;
            }
            2 if depth > 0 => {
                s.push(cl);
                depth -= 1;
            }
            3 => s.push_str(c.rng.s(&["\\\\ ", "\n", " ", "\n a", "é"])),
            4 => {
                s.push('\\');
                s.push(if c.rng.coin() { o } else { cl });
                s.push(' ');
            }
            _ => s.push_str(c.rng.s(&["a", "b c", "x", "日", "# ", "1", " ", "end "])),
        }
    }
    // `#` may begin an interpolation.
    let s = s.replace("#{", "{").replace("#@", "@").replace("#$", "$");
    if pre == "%r" && "-.^|$".contains(o) || s.starts_with("%:") && pre == "%" {
        return;
    }
    c.hit(if depth > 0 { "literal:nested" } else { "literal" });
    let tail = c.rng.s(&["", "\n", " \n", "\n\n# c\n"]);
    let text = match c.rng.below(6) {
        0 => s.clone(),
        1 => format!("x = {}", s),
        2 => format!("foo({}", s),
        3 => format!("[1, {}", s),
        4 => format!("def m\n{}", s),
        _ => {
            let p = place(c);
            format!("{}{}", p.pre, s)
        }
    };
    // A here-document around it would end on its own terms.
    if text.contains("<<") {
        return;
    }
    let text = format!("{}{}", text, tail);
    c.nontrivial(&text);
    match c.parse(&text) {
        Obs::Err(e) if e.kind == ParseErrKind::UnexpectedEOF => {}
        o => {
            c.fail(&text, format!("the literal {:?} is not ended, but: {}", s, o.brief()));
        }
    }
}

fn closing(s: &str) -> &str {
    if s.starts_with('}') {
        "}"
    } else {
        s
    }
}

/// The closing token of the innermost open construct before every token.
fn closers(toks: &[Tok]) -> Option<Vec<Option<String>>> {
    let mut v = vec![None; toks.len()];
    let mut stack: Vec<String> = vec![];
    for i in (0..toks.len()).rev() {
        match toks[i].act {
            -1 => {
                v[i] = Some(closing(&toks[i].text).to_string());
                stack.push(closing(&toks[i].text).to_string());
                continue;
            }
            1 => {
                stack.pop()?;
            }
            _ => {}
        }
        v[i] = stack.last().cloned();
    }
    if stack.is_empty() {
        Some(v)
    } else {
        None
    }
}

/// The error must be a syntax error at the token of `len` bytes at `at`.
fn expect_at(c: &mut Case, s: &str, at: usize, len: usize, what: &str) -> bool {
    c.nontrivial(s);
    match c.parse(s) {
        Obs::Err(e) => {
            if e.kind == ParseErrKind::UnexpectedEOF {
                c.fail(s, format!("{} at {} is reported as unexpected end of input", what, at));
                return false;
            }
            if e.loc.0 < at || e.loc.1 >= at + len {
                c.fail(s, format!("{} stands at {:?}, but the error is located at {:?}: {:?}", what, (at, at + len - 1), e.loc, e.kind));
                return false;
            }
            true
        }
        o => {
            c.fail(s, format!("{} at {} is not reported: {}", what, at, o.brief()));
            false
        }
    }
}

/// What may follow the offending token.
fn rest(c: &mut Case, src: &str, from: usize) -> String {
    match c.rng.below(6) {
        0 => String::new(),
        1 => "\n".into(),
        2 => format!(" {}", crate::mutate::soup(&mut c.rng, 8)),
        3 => format!("\n{}", src),
        _ => format!(" {}", &src[from..]),
    }
}

/// A name may stand after these.
pub fn takes_name(toks: &[Tok], i: usize) -> bool {
    let t = |k: usize| if i >= k { toks[i - k].text.as_str() } else { "" };
    matches!(t(1), "." | "&." | "::" | "def" | "alias" | ":") || t(2) == "alias" || t(2) == "undef"
}

fn closer(c: &mut Case) {
    let (src, toks, out, _) = program(c, &[4, 10, 20, 40], 3, &[0, 0, 60]);
    let Some(cl) = closers(&toks) else {
        c.hit("unbalanced");
        return;
    };
    for _ in 0..6 {
        let i = 1 + c.rng.below(toks.len());
        let end = if i == toks.len() { src.len() } else { out.spans[toks[i].id].0 };
        let end = if c.rng.coin() { end } else { out.spans[toks[i - 1].id].1 + 1 };
        if !here_done(&toks, &out, i, end) {
            continue;
        }
        let open = if i == toks.len() { None } else { cl[i].clone() };
        let bad = c.rng.s(&[")", "]", "}", "end"]);
        // "rescue => self )" is wrong because of self as well.
        let clause = |r: usize| {
            let ends = |t: &Tok| t.text == "then" || matches!(t.sep, Sep::Term | Sep::TermNl | Sep::SpTerm | Sep::OptTerm);
            let len = toks[r..i].iter().skip(1).take_while(|t| t.open > toks[r].open || !ends(t)).count();
            r + len + 1 >= i && toks[r..i].iter().any(|t| t.text == "=>" && t.open == toks[r].open)
        };
        if (0..i).any(|r| toks[r].text == "rescue" && clause(r)) {
            continue;
        }
        if Some(bad) == open.as_deref() || (bad == "end" && takes_name(&toks, i)) {
            continue;
        }
        let gap = &src[out.spans[toks[i - 1].id].1 + 1..end];
        let s = format!("{}{}{}", &src[..end], if gap.rsplit('\n').next().unwrap_or("").contains('#') { "\n" } else { " " }, bad);
        let at = s.len() - bad.len();
        if i < toks.len() && toks[i].text.starts_with(['.', '&']) && gap.contains('\n') {
            // Only the next line says that the expression goes on.
            continue;
        }
        let s = s + &rest(c, &src, end);
        c.hit("closer");
        c.hit(format!("closer:{}:{}", open.as_deref().unwrap_or("-"), bad));
        if !expect_at(c, &s, at, bad.len(), bad) {
            return;
        }
    }
}

/// Tokens which cannot start a statement.
const STRAY: &[&str] = &[
    ")", "]", "}", "end", "else", "elsif", "when", "then", "in", "do", "ensure", "rescue", "and", "or", "=>", "=", "==", "!=", "=~", "<=", ">=", "<=>", ">", "<", "^", "|", "||", "&&",
    ",", ".", "&.", "+=", "||=", "..", "...", "**=", "<<=",
];

fn stray(c: &mut Case) {
    // statements, then what cannot start one
    let k = c.rng.below(4);
    let (mut pre, bad);
    if k == 0 {
        pre = String::new();
        c.hit("stray:first");
    } else {
        pre = program(c, &[4, 10, 20], 3, &[0, 60]).0;
        // A comment may stand at the end.
        pre.push_str(c.rng.s(&["\n", "\n\n", "\n;", "\n  ", "\n# c\n"]));
    }
    bad = c.rng.s(STRAY);
    if k > 0 && (bad == "." || bad == "&.") {
        // continues the statement before
        return;
    }
    let s = format!("{}{}", pre, bad);
    let at = pre.len();
    let other = program(c, &[4, 10], 2, &[0]).0;
    let s = s + &rest(c, &other, 0);
    c.hit("stray");
    c.hit(format!("stray:{}", bad));
    expect_at(c, &s, at, bad.len(), bad);
}

/// Tokens which are wrong in themselves, whatever follows.
pub const WRONG: &[&str] = &[
    "08", "09", "1__2", "1_ ", "0x ", "0xg", "0b2", "0b ", "0o8", "1_.5", "1.5_ ", "@1", "@@1", "@ ", "@@ ", "@(", "$(", "\"\\xg\"", "\"\\u{110000}\"", "\"\\u{zz}\"",
    "\"\\u12\"", "\"\\ud800\"", "?\\xg", "\u{1}", "12abc", "0x1z", "1.5x", "1__0", "0b1__1", "0x_1", "08.5", "1e5x", "100_ ", "@9a", "$ ", ":)", ": a",
];

/// Two expressions in a row: the second one is wrong.
pub const SECOND: &[&str] = &["1", "2.5", "\"a\"", "nil", "true", ":a", "@a", "$a", "Foo", "foo", "->{}", "self", "3i", "!a", "@@b", "__LINE__", "{}", "def", "class", "alias", "if_", "case", "begin"];
pub const FIRST: &[&str] = &["1", "2.5", "nil", "true", ":a", "@a", "$a", "[]", "{}.b()", "self", "?a", "3i", "@@b", "__LINE__", "foo()", "(1)", "a.b(1)", "->{}", "%w(a)", "/a/", "1 + 2", "x = 1", "!1"];

/// Targets which cannot be assigned to.
pub const TARGET: &[&str] = &["1", "2.5", "nil", "true", "self", "\"a\"", "foo()", "->{}", "__LINE__", "__FILE__", "a.b(1)", "3i", "(1)", "/a/"];

fn token(c: &mut Case) {
    match c.rng.below(3) {
        0 => {
            let bad = c.rng.s(WRONG);
            let p = place(c);
            // Nothing in the text after the token may complete it.
            let post = if c.rng.coin() { p.post.to_string() } else { rest(c, "a + b\n", 0) };
            if bad.starts_with(['"', '?', '$', '@', ':', '%']) || post.starts_with([' ', '\n', ')', ';']) || post.is_empty() {
                let s = format!("{}{}{}", p.pre, bad, post);
                c.hit(format!("wrong:{}", bad));
                c.hit("token");
                expect_at(c, &s, p.pre.len(), bad.len(), bad);
            }
        }
        1 => {
            let (a, b) = (c.rng.s(FIRST), c.rng.s(SECOND));
            if a == "->{}" && b == "{}" || (a == "[]" || a.ends_with(')')) && b == "{}" || a == "?a" && b == "\"a\"" {
                return;
            }
            let mut pre = String::new();
            if c.rng.coin() {
                pre = program(c, &[4, 10], 2, &[0, 60]).0;
                pre.push('\n');
            }
            let pre = pre + a + " ";
            let s = format!("{}{}", pre, b);
            let s = s + &rest(c, "a + b\n", 0);
            c.hit("second");
            c.hit(format!("second:{}:{}", a, b));
            expect_at(c, &s, pre.len(), b.len(), b);
        }
        _ => {
            let (a, op) = (c.rng.s(TARGET), c.rng.s(&[" = ", " += ", " ||= ", " &&= ", "= ", " <<= "]));
            let mut pre = String::new();
            if c.rng.coin() {
                pre = program(c, &[4, 10], 2, &[0, 60]).0;
                pre.push('\n');
            }
            let s = format!("{}{}{}", pre, a, op);
            let s = s + &rest(c, "a + b\n", 0);
            c.hit("target");
            // The target or the operator is to blame.
            expect_at(c, &s, pre.len(), a.len() + op.trim_end().len(), a);
        }
    }
}
