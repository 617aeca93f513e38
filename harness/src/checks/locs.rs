//! C04: locations.
use super::common::*;
use crate::mon::*;
use crate::run::*;
use crate::term::*;
use ruruby_parse::{ParseErr, ParseResult};

pub fn c04() -> Check {
    Check {
        id: "C04",
        rule: "every location in the Debug rendering of a tree or error lies in the text, is not reversed and falls on character boundaries; \
               generated trees with the spans of their tokens are compared with the parsed ones; the text at the location of every name is that name and \
               the text at the location of every literal denotes that literal; a prefix of blank lines and comments shifts all locations by its length",
        modes: vec![
            Mode { name: "spans", quick: 60_000, thorough: 900_000, f: spans },
            Mode { name: "bounds", quick: 150_000, thorough: 3_000_000, f: bounds },
            Mode { name: "slices", quick: 80_000, thorough: 1_500_000, f: slices },
            Mode { name: "shift", quick: 100_000, thorough: 2_000_000, f: shift },
        ],
        assumptions: &[
            "the end of a location may be the first or the last byte of its last character",
            "the location of operators, definitions, ranges, regular expressions, here-documents and of the call made by `.()` is not specified beyond its bounds",
        ],
        must: &[
            "loc:lvar", "loc:call", "loc:fcall", "loc:.", "loc:ivar", "loc:gvar", "loc:cvar", "loc:svar", "loc:const", "loc:int", "loc:float", "loc:imag", "loc:str", "loc:bytes",
            "loc:istr", "loc:cmd", "loc:sym", "loc:nil", "loc:self", "loc:true", "loc:false", "loc:array", "loc:hash", "text:program", "text:cut", "text:changed", "text:pieces",
            "text:characters", "bounds:error", "bounds:tree", "shift:error", "shift:tree", "multibyte",
        ],
    }
}

fn kind(tag: &str) -> &str {
    if tag.starts_with('.') && tag != "..." || tag.starts_with("&.") {
        return ".";
    }
    let e = tag.find(|c| c == ':' || c == '!').unwrap_or(tag.len());
    &tag[..e]
}

fn spans(c: &mut Case) {
    // What is expected is counted, because a comparison with nothing says nothing.
    let (src, _, _, e) = program(c, &[10, 20, 40, 80], 4, &[0, 20, 60, 100]);
    c.nontrivial(&src);
    if !src.is_ascii() {
        c.hit("multibyte");
    }
    match c.parse_as(&Entry::Program, &src, "x.rb") {
        Obs::Ok(r) => {
            let act = norm(&r.node);
            c.st.nodes += act.size() as u64;
            let mut n = vec![];
            e.walk(&mut |t| {
                if t.loc.is_some() {
                    n.push(kind(&t.tag).to_string());
                }
            });
            for k in n {
                c.hit(format!("loc:{}", k));
            }
            if let Some(d) = e.diff(&act, true) {
                c.fail_as(&Entry::Program, "x.rb", &src, d);
            }
        }
        o => c.fail_as(&Entry::Program, "x.rb", &src, o.brief()),
    }
}

/// All `Loc(a, b)` of a Debug rendering.
pub fn locs_of(s: &str) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut rest = s;
    while let Some(i) = rest.find("Loc(") {
        rest = &rest[i + 4..];
        let Some(e) = rest.find(')') else { break };
        if let Some((a, b)) = rest[..e].split_once(", ") {
            if let (Ok(a), Ok(b)) = (a.parse(), b.parse()) {
                v.push((a, b));
            }
        }
    }
    v
}

/// The same rendering with all locations moved back by `n`.
fn moved(s: &str, n: usize) -> String {
    let mut o = String::with_capacity(s.len());
    let mut rest = s;
    while let Some(i) = rest.find("Loc(") {
        o.push_str(&rest[..i + 4]);
        rest = &rest[i + 4..];
        let Some(e) = rest.find(')') else { break };
        match rest[..e].split_once(", ").map(|(a, b)| (a.parse::<i64>(), b.parse::<i64>())) {
            Some((Ok(a), Ok(b))) => {
                o.push_str(&format!("{}, {}", a - n as i64, b - n as i64));
            }
            _ => o.push_str(&rest[..e]),
        }
        rest = &rest[e..];
    }
    o.push_str(rest);
    o
}

fn in_bounds(code: &str, (a, b): (usize, usize)) -> Result<(), String> {
    if a > b {
        return Err(format!("location {:?} is reversed", (a, b)));
    }
    // Where something is missing at the end: the end itself.
    if (a, b) == (code.len(), code.len()) {
        return Ok(());
    }
    if b >= code.len() {
        return Err(format!("location {:?} is outside the text of {} bytes", (a, b), code.len()));
    }
    if !code.is_char_boundary(a) {
        return Err(format!("location {:?} starts inside a character", (a, b)));
    }
    if !code.is_char_boundary(b) && !code.is_char_boundary(b + 1) {
        return Err(format!("location {:?} ends inside a character", (a, b)));
    }
    Ok(())
}

/// A random way to give a text to the parser.
pub fn any_entry(c: &mut Case) -> Entry {
    let ctx = |c: &mut Case| -> Option<Ctx> {
        if c.rng.coin() {
            return None;
        }
        let mut v = vec![];
        for n in ["a", "b", "foo", "x", "é", "_1"] {
            if c.rng.p(1, 3) {
                v.push((n.to_string(), 1 + c.rng.below(3)));
            }
        }
        Some(Ctx(v))
    };
    match c.rng.below(4) {
        0 | 1 => Entry::Program,
        2 => Entry::Eval(ctx(c)),
        _ => {
            let t = if c.rng.coin() {
                let mut v = vec![];
                for n in ["a", "b", "y"] {
                    if c.rng.coin() {
                        v.push(n.to_string());
                    }
                }
                Some(v)
            } else {
                None
            };
            let x = ctx(c);
            Entry::Binding(t, x)
        }
    }
}

fn debug_of(r: &Result<ParseResult, ParseErr>) -> (String, String) {
    match r {
        Ok(r) => (format!("{:?}", r.node), r.source_info.code.clone()),
        Err(e) => (format!("{:?} {:?}", e.kind, e.loc), e.source_info.code.clone()),
    }
}

fn split(o: Obs) -> Result<Result<ParseResult, ParseErr>, String> {
    match o {
        Obs::Ok(r) => Ok(Ok(r)),
        Obs::Err(e) => Ok(Err(e)),
        Obs::Panic(m) => Err(m),
    }
}

fn bounds(c: &mut Case) {
    let src = any_text(c);
    if src.contains("Loc") {
        return;
    }
    let en = any_entry(c);
    c.nontrivial(&src);
    match split(c.parse_as(&en, &src, "")) {
        Ok(r) => {
            let (d, code) = debug_of(&r);
            c.hit(if r.is_ok() { "bounds:tree" } else { "bounds:error" });
            let v = locs_of(&d);
            c.add("locations", v.len() as u64);
            for l in v {
                if let Err(m) = in_bounds(&code, l) {
                    c.fail_as(&en, "", &src, m);
                    return;
                }
            }
        }
        // C01 is about panics.
        Err(_) => c.hit("panic"),
    }
}

/// The text at the location of a node which has a name is the name, and that
/// of a literal is, alone, the same literal.
fn slices(c: &mut Case) {
    let src = any_text(c);
    c.nontrivial(&src);
    let Obs::Ok(r) = c.parse(&src) else { return };
    let act = norm(&r.node);
    let code = r.source_info.code.clone();
    let mut todo: Vec<(String, String)> = vec![];
    let mut bad = None;
    let mut seen = 0;
    walk(&act, false, &mut |n, words| {
        let Some((a, b)) = n.loc else { return };
        if let Err(m) = in_bounds(&code, (a, b)) {
            bad.get_or_insert(m);
            return;
        }
        if a == code.len() {
            return;
        }
        let Some(text) = code.get(a..(a.max(b) + 1..).find(|i| code.is_char_boundary(*i)).unwrap()) else { return };
        let tag = n.tag.as_str();
        let name = match kind(tag) {
            "lvar" => tag.splitn(3, ':').nth(2),
            "ivar" | "cvar" | "gvar" => tag.split_once(':').map(|x| x.1),
            "call" | "fcall" => tag.split_once(':').map(|x| x.1),
            "const" if n.kids.is_empty() && !tag[6..].contains("::") => Some(&tag[6..]),
            "." if tag.ends_with(".call") && (text == "." || text == "&." || text == "::") => None,
            "." if tag == ".to_sym" && text.starts_with(":\"") => None,
            "." => Some(tag.trim_start_matches('&').strip_prefix('.').unwrap()),
            "self" | "true" | "false" => Some(tag),
            "line" => None,
            "int" | "float" | "imag" if !words && text != "__LINE__" => {
                todo.push((text.to_string(), n.tag.clone()));
                None
            }
            _ => None,
        };
        if let Some(x) = name {
            seen += 1;
            if x != text && bad.is_none() {
                bad = Some(format!("the text at the location {:?} of {} is {:?}", (a, b), clip_str(&n.to_string(), 200), text));
            }
        }
    });
    c.add("names", seen);
    c.add("literals", todo.len() as u64);
    if let Some(m) = bad {
        c.fail(&src, m);
        return;
    }
    for (text, tag) in todo {
        match c.parse(&text) {
            Obs::Ok(r) if norm(&r.node).tag == tag => {}
            o => {
                c.fail(&src, format!("the text at the location of {} is {:?}: {}", tag, text, o.brief()));
                return;
            }
        }
    }
}

fn walk<'a>(n: &'a T, words: bool, f: &mut impl FnMut(&'a T, bool)) {
    f(n, words);
    for k in &n.kids {
        walk(k, words, f);
    }
}

const PREFIX: &[&str] = &[
    "\n", "\n\n", "\r\n", " \n", "\t\n", "# c\n", "#\n", "  # é日本😀\n", "# end \" ' { ( [\n", "#=begin\n", "# <<A\n", "# \\\n", "\t \n", "# a\r\n", "\n\n\n\n\n", "#!/usr/bin/env ruby\n", "# -*- coding: utf-8 -*-\n",
];

fn shift(c: &mut Case) {
    let src = any_text(c);
    // Line numbers in the tree differ, and locations in texts would look like locations.
    if src.contains("__LINE__") || src.contains("Loc") {
        return;
    }
    let mut pre = String::new();
    for _ in 0..1 + c.rng.below(3) {
        pre.push_str(c.rng.s(PREFIX));
    }
    if c.rng.p(1, 10) {
        pre = pre.repeat(1 + c.rng.below(200));
    } else if c.rng.p(1, 1000) {
        pre = pre.repeat(70_000 / pre.len());
        c.hit("shift:far");
    }
    let en = any_entry(c);
    let whole = format!("{}{}", pre, src);
    c.nontrivial(&whole);
    let (Ok(x), Ok(y)) = (split(c.parse_as(&en, &src, "")), split(c.parse_as(&en, &whole, ""))) else {
        c.hit("panic");
        return;
    };
    if src.trim().is_empty() && x.is_ok() {
        return;
    }
    c.hit(if y.is_ok() { "shift:tree" } else { "shift:error" });
    c.max("prefix", pre.len() as u64);
    let (a, b) = (debug_of(&x).0, debug_of(&y).0);
    let b = moved(&b, pre.len());
    if a != b {
        let i = a.bytes().zip(b.bytes()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
        let w = |s: &str| {
            let f = (0..=i.saturating_sub(150)).rev().find(|i| s.is_char_boundary(*i)).unwrap_or(0);
            clip_str(&s[f..], 300)
        };
        c.fail_as(&en, "", &whole, format!("a prefix of {} bytes changes more than locations: without it {} and with it {}", pre.len(), w(&a), w(&b)));
    }
}
