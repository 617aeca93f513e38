//! C22: statements parse independently of what surrounds them.
use super::common::*;
use super::trees::*;
use crate::gen::*;
use crate::mon::*;
use crate::run::*;
use crate::term::*;
use crate::tok::*;
use ruruby_parse::*;

pub fn c22() -> Check {
    Check {
        id: "C22",
        rule: "a distinct source text of which a part was compared with its separate parse, or an error with that of a longer text",
        modes: vec![
            Mode { name: "sequence", quick: 25_000, thorough: 700_000, f: c22_sequence },
            Mode { name: "bodies", quick: 80_000, thorough: 2_500_000, f: c22_bodies },
            Mode { name: "pairs", quick: 120_000, thorough: 2_000_000, f: c22_pairs },
            Mode { name: "parens", quick: 60_000, thorough: 2_000_000, f: c22_parens },
            Mode { name: "begin-end", quick: 40_000, thorough: 1_200_000, f: c22_begin },
            Mode { name: "errors", quick: 60_000, thorough: 2_000_000, f: c22_errors },
            Mode { name: "leaf", quick: 100_000, thorough: 2_000_000, f: c22_leaf },
        ],
        assumptions: &["The separate parse is given the surrounding variables as a table and a context, and white space in place of the surrounding text; results are compared to the last bit, locations included."],
        must: &["sequence", "body", "wrapped", "pair", "pair-error", "pair-within", "in-block", "in-method", "in-interpolation", "in-here-document", "outer-variable", "parens", "begin-end", "error-alone", "error-followed", "leaf"],
    }
}

/// White space which takes the place of a text: same length, same lines.
fn blank(s: &str) -> String {
    s.bytes().map(|b| if b == b'\n' { '\n' } else { ' ' }).collect()
}

fn feat(c: &mut Case) -> Feat {
    let mut f = Feat::all();
    if c.rng.p(1, 3) {
        f.here *= 3;
    }
    f
}

fn names(r: &ParseResult) -> String {
    let s = lvar_tag(&r.lvar_collector);
    s[..=s.find(']').unwrap()].to_string()
}

fn c22_sequence(c: &mut Case) {
    let f = feat(c);
    let mut g = gen(c, f, 0);
    let n = 2 + c.rng.below(5);
    let mut parts: Vec<String> = vec![];
    let mut vars: Vec<Vec<String>> = vec![];
    for _ in 0..n {
        vars.push(g.scopes[0].vars.clone());
        g.fuel = *c.rng.pick(&[1, 4, 10, 25]);
        g.toks.clear();
        g.next_sep = None;
        g.stmt(CX);
        let st = style(c, &[0, 0, 40, 100]);
        parts.push(render(&g.toks, st).src);
    }
    vars.push(g.scopes[0].vars.clone());
    let mut src = String::new();
    let mut at = vec![];
    for (i, p) in parts.iter().enumerate() {
        at.push(src.len());
        src.push_str(p);
        if i + 1 < n && !p.ends_with('\n') {
            src.push_str(if p.contains('#') { "\n" } else { *c.rng.pick(&["\n", ";", " ; ", ";\n", "\n\n", " # c\n"]) });
        }
    }
    c.hit("sequence");
    c.nontrivial(&src);
    let whole = match c.parse(&src) {
        Obs::Ok(r) => r,
        o => return c.fail(&src, o.brief()),
    };
    let NodeKind::CompStmt(v) = &whole.node.kind else {
        return c.fail(&src, "several statements are not a sequence");
    };
    if v.len() != n {
        return c.fail(&src, format!("{} statements instead of {}", v.len(), n));
    }
    for i in 0..n {
        let end = at.get(i + 1).copied().unwrap_or(src.len());
        let alone = format!("{}{}", blank(&src[..at[i]]), &src[at[i]..end]);
        let e = Entry::Binding(Some(vars[i].clone()), None);
        match c.parse_as(&e, &alone, "x.rb") {
            Obs::Ok(r) => {
                let (a, b) = (format!("{:?}", r.node), format!("{:?}", v[i]));
                if a != b {
                    let d = norm(&r.node).diff(&norm(&v[i]), true).unwrap_or_else(|| "location".to_string());
                    return c.fail(&src, format!("statement {} differs from its separate parse of {:?}: {}", i, &src[at[i]..end], d));
                }
                let want = format!("lv[{}]", vars[i + 1].join(","));
                if names(&r) != want {
                    return c.fail_as(&e, "x.rb", &alone, format!("variables: expected {} got {}", want, names(&r)));
                }
                c.st.nodes += norm(&r.node).size() as u64;
            }
            o => return c.fail_as(&e, "x.rb", &alone, format!("statement {} alone: {}", i, o.brief())),
        }
    }
    let want = format!("lv[{}]", vars[n].join(","));
    if names(&whole) != want {
        c.fail(&src, format!("variables: expected {} got {}", want, names(&whole)));
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Sc {
    /// The same scope.
    Flow,
    /// A new scope which sees the outer ones.
    Block,
    /// A new scope which does not.
    Method,
    Class,
}

struct W {
    pre: &'static str,
    post: &'static str,
    sc: Sc,
    /// Variables which are there before the body, in its scope.
    names: &'static [&'static str],
    /// The body's scope has nothing but plain variables.
    plain: bool,
}

const fn w(pre: &'static str, post: &'static str, sc: Sc) -> W {
    W { pre, post, sc, names: &[], plain: true }
}
const fn wn(pre: &'static str, post: &'static str, sc: Sc, names: &'static [&'static str]) -> W {
    W { pre, post, sc, names, plain: false }
}

use Sc::*;
const BODIES: &[W] = &[
    w("", "", Flow),
    w("nil;", "nil", Flow),
    w("bar9 1, 2\n", "\nbar9 -1", Flow),
    wn("q9 = 1\n", "\nq9", Flow, &["q9"]),
    wn("q9, *r9 = 1, 2;", "", Flow, &["q9", "r9"]),
    w("if nil then ", "end", Flow),
    w("if nil\n", "else 1 end", Flow),
    w("if nil\n1\nelse ", "end", Flow),
    w("if nil\n1\nelsif 2\n", "else\n3\nend", Flow),
    wn("if q9 = 1\n", "end", Flow, &["q9"]),
    w("unless nil\n", "end", Flow),
    w("unless nil then 1 else\n", "end", Flow),
    w("case 1\nwhen 2 then ", "end", Flow),
    w("case 1\nwhen 2\n3\nelse ", "end", Flow),
    w("case\nwhen nil, 1\n", "when 3\n4\nelse 5 end", Flow),
    w("while nil do ", "end", Flow),
    w("until nil\n", "end", Flow),
    wn("for q9 in 1..2 do ", "end", Flow, &["q9"]),
    wn("for q9, r9 in bar9\n", "end", Flow, &["q9", "r9"]),
    w("begin;", "end", Flow),
    w("begin\n", "rescue\n1\nend", Flow),
    w("begin\n1\nrescue A\n", "end", Flow),
    wn("begin\n1\nrescue A, B => q9\n", "else 2 end", Flow, &["q9"]),
    w("begin\n1\nrescue\n2\nelse\n", "ensure 3 end", Flow),
    w("begin\n1\nensure ", "end", Flow),
    w("(", ")", Flow),
    w("((\n", "))", Flow),
    w("(1;", "2)", Flow),
    w("bar9((", "))", Flow),
    w("bar9(1, (", "), k: 2)", Flow),
    w("[1, (", "), 2]", Flow),
    w("bar9 (", "), 1", Flow),
    w("nil && (", ")", Flow),
    w("!(", ")", Flow),
    w("nil ? (", ") : 1", Flow),
    w("nil ? 1 : (", ")", Flow),
    w("@a = (", ")", Flow),
    w("@a += (", ")", Flow),
    w("self[(", ")] = 1", Flow),
    w("return (", ")", Flow),
    w("while (", ") do end", Flow),
    w("if (", ")\n1 end", Flow),
    w("1 if (", ")", Flow),
    w("case (", ") when 1 then 2 end", Flow),
    w("1 + (", ") * 2", Flow),
    w("defined?((", "))", Flow),
    w("@a.b((", ")).c", Flow),
    w("bar9 1, k: (", ")", Flow),
    w("\"#{", "}\"", Flow),
    w("\"é#{1} \\n#{", "}b#@c\"", Flow),
    w("%(a(#{", "}))", Flow),
    w("%Q[#{", "}]", Flow),
    w("`#{", "}`", Flow),
    w("/a#{", "}b/m", Flow),
    w(":\"#{", "}\"", Flow),
    w("[\"#{", "}\", 1]", Flow),
    w("\"a\" \"#{", "}\" 'c'", Flow),
    w("<<H9\n#{", "}\nH9\n", Flow),
    w("bar9(<<-H9, 1)\n a #{1}\n#{", "} é\n H9\n", Flow),
    w("@a = <<\"H9\"\n\\n#{", "}\nH9\n", Flow),
    w("[<<`H9`]\n#{", "}\nH9\n", Flow),
    w("bar9 { ", "}", Block),
    w("bar9 do\n", "end", Block),
    w("bar9(1) { 2;", "}", Block),
    w("bar9 1, 2 do ", "end", Block),
    w("@a.bar9 { ", "}.c", Block),
    w("@a = bar9 1 do\n", "end", Block),
    w("[bar9 { ", "}, 2]", Block),
    w("-> { ", "}", Block),
    w("-> do ", "end", Block),
    w("bar9 -> { ", "}, 1", Block),
    w("{k: -> {\n", "}}.m", Block),
    w("while bar9 { ", "} do end", Block),
    w("super(1) { ", "}", Block),
    wn("bar9 { |q9| ", "}", Block, &["q9"]),
    wn("bar9 do |q9, *r9|\n", "end", Block, &["q9", "r9"]),
    wn("-> (q9, r9 = 1) { ", "}", Block, &["q9", "r9"]),
    wn("-> q9 { ", "}", Block, &["q9"]),
    wn("bar9 { |q9, k9: 1, &r9| ", "}", Block, &["q9", "k9", "r9"]),
    w("def bar9\n", "end", Method),
    w("def bar9; ", "end", Method),
    w("def self.bar9\n1\n", "2\nend", Method),
    w("@a = def bar9() ", "end", Method),
    w("def bar9\n", "rescue A\n1\nend", Method),
    w("def bar9\n1\nrescue A\n", "end", Method),
    w("def bar9\n1\nensure ", "end", Method),
    w("private def bar9\n", "end", Method),
    wn("def bar9(q9) ", "end", Method, &["q9"]),
    wn("def bar9 q9, *r9\n", "end", Method, &["q9", "r9"]),
    wn("def bar9(q9 = 1, k9: 2, **r9, &s9)\n", "end", Method, &["q9", "k9", "r9", "s9"]),
    w("class C9\n", "end", Class),
    w("class C9 < D9; ", "end", Class),
    w("module C9\n1\n", "2 end", Class),
    w("class << self\n", "end", Class),
    w("class C9\n", "rescue\n1\nend", Class),
];

/// A program within several constructs is the program alone.
fn c22_bodies(c: &mut Case) {
    let depth = match c.rng.below(10) {
        0..=4 => 1,
        5..=7 => 2,
        8 => 3,
        _ => 5,
    };
    let mut pre = String::new();
    let mut post = String::new();
    // Innermost scope last.
    let mut scopes: Vec<Vec<String>> = vec![vec![]];
    let mut bottom = 0;
    let mut in_method = false;
    let mut plain = true;
    let mut outer_flow = true;
    // Variables around.
    if c.rng.p(1, 2) {
        for n in ["a", "b", "x"] {
            if c.rng.coin() {
                pre.push_str(&format!("{} = 1\n", n));
                scopes[0].push(n.to_string());
                plain = false;
            }
        }
    }
    for level in 0..depth {
        let i = c.rng.below(BODIES.len());
        let w = &BODIES[i];
        if w.sc == Class && in_method || w.pre.contains("super") && !in_method {
            continue;
        }
        let id = format!("H{}", level);
        pre.push_str(&w.pre.replace("H9", &id));
        let p = w.post.replace("H9", &id);

        post = format!("{}{}{}", p, if p.ends_with('\n') || p.is_empty() { "" } else { "\n" }, post);
        match w.sc {
            Flow => {}
            Block => {
                scopes.push(vec![]);
                plain = true;
                outer_flow = false;
                c.hit("in-block");
            }
            Method | Class => {
                scopes.push(vec![]);
                bottom = scopes.len() - 1;
                in_method = w.sc == Method;
                plain = true;
                outer_flow = false;
                c.hit("in-method");
            }
        }
        let s = scopes.last_mut().unwrap();
        for n in w.names {
            if !s.iter().any(|x| x == n) {
                s.push(n.to_string());
            }
        }
        plain &= w.plain;
        if w.pre.ends_with("#{") {
            c.hit("in-interpolation");
        }
        if w.pre.contains("<<") && w.pre.contains("H9") {
            c.hit("in-here-document");
        }
    }
    // An assignment to a variable of the same name in an outer block scope
    // would not be new.
    let vis = &scopes[bottom..];
    let mut outer = vec![];
    for (d, s) in vis.iter().rev().enumerate().skip(1) {
        for n in s {
            if !outer.iter().any(|(m, _): &(String, usize)| m == n) {
                outer.push((n.clone(), d));
            }
        }
    }
    let inner = vis.last().unwrap().clone();
    let mut f = feat(c);
    if in_method {
        f.class = 0;
    }
    let fuel = *c.rng.pick(&[2, 6, 12, 25]);
    let mut g = gen(c, f, fuel);
    g.no_const = in_method;
    g.scopes[0].vars = inner.clone();
    g.outer = outer.clone();
    let n = 1 + c.rng.below(3);
    let mut e = g.program(n);
    let st = style(c, &[0, 0, 30, 80]);
    let out = render(&g.toks, st);
    resolve(&mut e, &out);
    let mut s = out.src;
    if !s.ends_with('\n') {
        s.push('\n');
    }
    if !outer.is_empty() && e.to_string().contains("lvar:1:") {
        c.hit("outer-variable");
    }
    let src = format!("{}{}{}", pre, s, post);
    let alone = format!("{}{}", blank(&pre), s);
    let entry = Entry::Binding(Some(inner), Some(Ctx(outer)));
    c.hit("body");
    c.nontrivial(&src);
    let whole = match c.parse(&src) {
        Obs::Ok(r) => r,
        o => return c.fail(&src, o.brief()),
    };
    let part = match c.parse_as(&entry, &alone, "x.rb") {
        Obs::Ok(r) => r,
        o => return c.fail_as(&entry, "x.rb", &alone, o.brief()),
    };
    let (a, b) = (format!("{:?}", whole.node), format!("{:?}", part.node));
    // The statements one by one: they may be part of a longer sequence.
    let mut at = 0;
    let parts: Vec<String> = match &part.node.kind {
        NodeKind::CompStmt(v) if v.len() > 1 => v.iter().map(|x| format!("{:?}", x)).collect(),
        _ => vec![b],
    };
    for p in &parts {
        match a[at..].find(p.as_str()) {
            Some(i) => at += i + p.len(),
            // Plain text which is interpolated may become a part of the text.
            None if norm(&part.node).raw.is_some() => {}
            None => {
                return c.fail(
                    &src,
                    format!("the body {:?} is not in the tree as it is alone: {} not within {}", s, clip_str(&norm(&part.node).to_string(), 1000), clip_str(&norm(&whole.node).to_string(), 2000)),
                );
            }
        }
    }
    c.hit("wrapped");
    c.st.nodes += norm(&part.node).size() as u64;
    if outer_flow {
        if names(&whole) != names(&part) {
            c.fail(&src, format!("variables: {} and alone {}", names(&whole), names(&part)));
        }
    } else if plain {
        let l = format!("{:?}", part.lvar_collector);
        if !a.contains(&l) {
            c.fail(&src, format!("the variables alone are {}, which is not in the tree", l));
        }
    }
}

fn splice(toks: &mut Vec<Tok>, a: usize, b: usize, open: &[(&str, Sep)], close: &[(&str, Sep)], next: &mut usize) -> bool {
    let (Some(i), Some(j)) = (toks.iter().position(|t| t.id == a), toks.iter().position(|t| t.id == b)) else {
        for t in toks.iter_mut() {
            if let Some(h) = &mut t.here {
                if splice(&mut h.0, a, b, open, close, next) {
                    return true;
                }
            }
        }
        return false;
    };
    let model = toks[i].clone();
    let after = toks[j].clone();
    let mut tok = |text: &str, sep: Sep, m: &Tok| {
        *next += 1;
        Tok { id: *next - 1, text: text.into(), sep, bin: false, nonl: m.nonl, here: None, open: m.open, act: 0 }
    };
    // The first new token stands where the expression stood.
    let mut new: Vec<Tok> = open.iter().map(|(t, s)| tok(t, *s, &model)).collect();
    new[0].sep = model.sep;
    let tail: Vec<Tok> = close.iter().map(|(t, s)| tok(t, *s, &after)).collect();
    for t in tail.into_iter().rev() {
        toks.insert(j + 1, t);
    }
    toks[i].sep = open.last().unwrap().1;
    for t in new.into_iter().rev() {
        toks.insert(i, t);
    }
    true
}

/// Redundant parentheses around random operands.
fn c22_parens(c: &mut Case) {
    let f = feat(c);
    let fuel = *c.rng.pick(&[6, 12, 25, 50]);
    let mut g = gen(c, f, fuel);
    let n = 1 + c.rng.below(3);
    let e = g.program(n);
    let marks = std::mem::take(&mut g.marks);
    if marks.is_empty() {
        return;
    }
    let k = 1 + c.rng.below(3);
    for _ in 0..k {
        let (a, b) = *c.rng.pick(&marks);
        if splice(&mut g.toks, a, b, &[("(", Sep::OptNl)], &[(")", Sep::OptNl)], &mut g.next_id) {
            c.hit("parens");
        }
    }
    let st = style(c, &[0, 0, 0, 30]);
    judge(c, &mut g, e, st, TREE_TABLE);
}

/// `begin` and `end` around random statements.
fn c22_begin(c: &mut Case) {
    let f = feat(c);
    let fuel = *c.rng.pick(&[6, 12, 25, 50]);
    let mut g = gen(c, f, fuel);
    let n = 1 + c.rng.below(3);
    let e = g.program(n);
    let marks = std::mem::take(&mut g.stmt_marks);
    let k = 1 + c.rng.below(2);
    for _ in 0..k {
        let (a, b) = *c.rng.pick(&marks);
        if splice(&mut g.toks, a, b, &[("begin", Sep::SpTerm)], &[("end", Sep::SpTerm)], &mut g.next_id) {
            c.hit("begin-end");
        }
    }
    let st = style(c, &[0, 0, 0, 30]);
    // Whether `begin 1 end` is as constant as 1 is not specified.
    let out = render(&g.toks, st);
    let mut e = e;
    resolve(&mut e, &out);
    unconst(&mut e);
    c.nontrivial(&out.src);
    match c.parse(&out.src) {
        Obs::Ok(r) => {
            let mut act = norm(&r.node);
            unconst(&mut act);
            c.st.nodes += act.size() as u64;
            if let Some(d) = e.diff(&act, false) {
                c.fail(&out.src, d);
            }
            let (l, x) = (lvar_tag(&r.lvar_collector), g.scopes[0].tag());
            if l != x {
                c.fail(&out.src, format!("variable table: expected {} got {}", x, l));
            }
        }
        o => c.fail(&out.src, format!("{}; expected {}", o.brief(), clip_str(&e.to_string(), 600))),
    }
}

fn unconst(e: &mut T) {
    if let Some(i) = e.tag.find('!') {
        let k = &e.tag[..i];
        if ["array", "hash", "range..", "range...", "regex"].contains(&k) {
            e.tag.remove(i);
        }
    }
    e.kids.iter_mut().for_each(unconst);
}

/// Expressions which need something of the parser's state.
const INNER: &[&str] = &[
    "1", "foo", "@a", "[1, 2]", "{k: 1}", "->{}", "-> do end", "->(v) { v }", "->(v = 1) do v end", "->v { }", "->v do end", "foo { }", "foo { |v| v }", "foo(1) { }", "(foo do end)", "(foo 1 do |v| v end)", "[foo { }, 1]", "[(foo do end)]", "foo((bar do end))",
    "foo(bar { })", "\"a\"", "\"#{foo}\"", "\"#{foo do end}\"", "\"#{foo 1 do end}\"", "\"a#{\"b#{1}\"}c\"", "%w(a b)", "%(a #{1})", ":a", ":\"a#{1}\"", "/a/", "/a#{1}b/m", "`a`", "?a", "begin 1 end", "begin 1; rescue; 2 end", "begin foo do end end", "if @a then 1 end",
    "unless @a then foo do end end", "case 1 when 2 then 3 end", "while @a do break end", "for u in @a do end", "def m; end", "def m(q = 1, *r, &s) q end", "def m; foo do end; end", "class << self; end", "(1; 2)", "()", "(foo)", "!foo", "-@a", "foo.bar", "foo.bar(1)", "foo&.bar { }", "foo.bar[1]",
    "foo[1]", "foo::Bar", "::Bar", "1..2", "1...@a", "(1..2)", "1 + 2", "@a && @b", "@a || foo { }", "@a ? 1 : 2", "@a ? foo { } : [1]", "@a ? (foo do end) : 2", "defined? foo", "defined?(@a)", "@a = 1", "@a = foo { }", "@a += 1", "foo.bar = 1", "foo[1] = 2", "u = 1", "(u = 1)",
    "self", "nil", "__FILE__", "1.5", "2i", "\"a\" 'b'", "-> { -> { } }", "-> { foo do end }", "foo(*@a)", "foo(**@a)", "foo(&@a)", "foo(&:a)", "foo(k: 1)", "foo(1 => 2)", "yield", "yield(1)", "super", "super(1) { }", "[*@a]", "{1 => {}}", "foo { { } }", "foo { {k: 1} }", "foo.()", "foo.(1)",
    "foo { |(v, w), *z| v }", "foo { _1 }", "-> { _1 }", "foo { |v; | v }",
];
/// Statements around one of them.
const OUTER: &[&str] = &[
    "X", "(X)", "@x = X", "x = X", "x, y = X, 1", "*x = X", "x, y = X", "@x += X", "x ||= X", "foo.x = X", "foo[X] = X", "foo(X)", "foo (X), 1", "foo X", "foo X, 1", "foo 1, X", "foo 1, k: X", "foo k: X", "foo.bar X", "foo X do end", "foo X do |v| v end", "foo X { }", "foo.bar X do end", "foo 1, X do end", "return X",
    "break X", "next X", "yield X", "super X", "if X then 1 end", "if X\n1\nend", "if X; else 2 end", "if @x then X end", "if @x then 1 else X end", "if @x then 1 elsif X then 2 end", "unless X; end", "unless X then X end", "while X do end", "while X\nend", "while X; X; end", "until X do end", "until X\nX\nend", "for i in X do end",
    "for i in X\nend", "for i, j in X do X end", "for i in X; i; end", "case X when X then X end", "case X\nwhen 1, X\n2\nelse X\nend", "case\nwhen X then 1\nend", "1 if X", "X if 1", "X unless X", "1 while X", "X until 1", "X rescue X", "X and X", "X or 1", "begin X end", "begin; X; rescue X; X; else X; ensure X; end",
    "begin; 1; rescue X => z; end", "begin; end while X", "begin; X; end until 1", "[X]", "[X, X]", "{k: X}.a", "{X => X}.a", "\"#{X}\"", "\"a#{X}b#{X}\"", "`#{X}`", "/#{X}/", ":\"#{X}\"", "foo { X }", "foo do X end", "foo do |v| X end", "foo { |v = X| v }", "-> { X }", "->(v = X) { }", "-> do X end", "def m; X; end", "def m(v = X) end", "def m v = X\nend", "def self.m; X; end",
    "def m; X; rescue X; X; ensure X; end", "class Foo; X; end", "class Foo < X; end", "module Foo; X; end", "class << X; X; end", "class << self; X; end", "defined?(X)", "!(X)", "(X) + (X)", "@x && (X)", "@x ? (X) : (X)", "(X)..(X)", "(X).foo", "(X).foo X", "(X)[X]", "foo[X]", "foo[X, X]", "puts <<H\n#{X}\nH", "alias m X", "alias m n",
    "while foo do X end", "while foo(X) { } do end", "for i in [X] do end", "until (X) do end", "while [X] do end", "while \"#{X}\" do end", "while foo X do end", "while foo { X } do end", "while -> { X } do end", "while begin X end do end", "while X and X do end", "while X ? X : X do end", "for i in foo X do end", "while x = X do end",
    "while foo[X] do end", "while !X do end", "while (X; X) do end", "if while X do end then 1 end", "while while X do end do end", "while if X then 1 end do end", "while case X when 1 then 2 end do end", "while foo(1, X) do break end", "while X..X do end", "while {k: X} do end", "while foo.bar X do end", "while def m; X; end do end",
];
/// What tells whether something was left over.
const PROBE: &[&str] = &[
    "foo do end", "foo do |v| v end", "foo 1 do end", "foo 1, 2 do |v| end", "foo.bar do end", "foo.bar 1 do end", "foo(1) do end", "x = foo do end", "x = foo 1 do end", "return foo do end", "-> do end", "->(v) do v end", "foo -> do end", "foo { }", "foo 1 { }", "foo(1) { }", "foo.bar { }", "super do end", "super 1 do end", "yield 1", "[foo { }]", "{k: 1}", "{}",
    "while foo do end", "while foo do bar do end end", "for i in foo do bar do end end", "until foo 1 do end", "foo /a/", "foo / 1", "/a/", "foo [1]", "foo -1", "foo - 1", "foo *@a", "foo &@a", "foo :a", "foo ? 1 : 2", "foo ?a", "foo %w(a)", "foo % 1", "foo <<H\na\nH\n", "foo << 1", "foo (1), 2", "x = 1, 2", "x, y = 1, 2", "*x = 1", "a = b = 1", "x", "y", "u", "v", "i", "_1", "foo { _1 }", "_1 + 1",
    "foo(_1) { |v| _1 }", "foo { foo { _1 } }", "break", "next 1", "redo", "retry", "return", "foo(...)", "def m(...) foo(...) end", "def m; A = 1; end", "A = 1", "class A; end", "module A; end", "class << self; end", "def m; class << self; end; end", "def m; class A; end; end", "defined? foo", "defined? x", "alias a b", "begin; 1; rescue; 2; end", "foo rescue 1", "foo if 1", "foo and 1", "!foo",
    "not_a_keyword 1", "__LINE__", "[__LINE__, __FILE__]", "\"#{foo do end}\"", "\"#{x}\"", "\"a\" \"b\"", "?a", "1 2", "foo bar baz", ")", "end", "}", "else", "do", "then", "=> 1", "foo(", "\"a", "x ? 1", "@x[1] = 2", "x.y += 1", "1..2", "1 == 2", "a == b == c", "foo.bar = 1", "(foo do end)", "foo (1) do end", "x do end", "x { }", "x 1", "x -1", "x [1]", "x /1", "y -1", "u -1", "i -1", "v -1", "z -1",
    "m -1", "m do end",
];

/// A statement after another one, everywhere, is that statement.
fn c22_pairs(c: &mut Case) {
    let outer = OUTER[c.idx as usize % OUTER.len()];
    let inner = INNER[(c.idx as usize / OUTER.len()) % INNER.len()];
    let mut a = String::new();
    let mut bits = outer.split('X').peekable();
    while let Some(b) = bits.next() {
        a.push_str(b);
        if bits.peek().is_some() {
            a.push_str(if c.rng.p(1, 4) { c.rng.s(INNER) } else { inner });
        }
    }
    let n = 1 + c.rng.below(2);
    let mut b = c.rng.s(PROBE).to_string();
    if n == 2 {
        b = format!("{}\n{}", b, c.rng.s(PROBE));
    } else if c.rng.p(1, 6) {
        b = c.rng.s(OUTER).replace('X', c.rng.s(INNER));
    }
    // Around the two of them, and the names which are there.
    let (pre, post) = if c.rng.p(2, 5) { ("", "") } else {
        *c.rng.pick(&[
            ("if @c\n", "\nend"), ("unless @c\n1\nelse\n", "\nend"), ("begin\n", "\nend"), ("begin\n1\nrescue\n", "\nend"), ("begin\n1\nensure\n", "\nend"), ("(", ")"), ("while @c do\n", "\nend"), ("until @c\n", "\nend"), ("case 1\nwhen 2\n", "\nend"), ("case 1\nwhen 2\n3\nelse\n", "\nend"),
            ("while (", ") do end"), ("while foo((", ")) do end"), ("foo((", "))"), ("[(", ")]"), ("\"#{", "}\""), ("@c = (", ")"), ("(", ") ? 1 : 2"), ("@c ? (", ") : 2"), ("/#{", "}/"), ("foo 1, (", ") do end"),
        ])
    };
    // Numbered parameters of blocks around each other are another matter.
    if a.contains("_1") && b.contains("_1") {
        return;
    }
    // The statement alone.
    let a = if a.contains("<<H") && !post.is_empty() && !post.starts_with('\n') { return } else { a };
    let one = match c.parse(&format!("{}{}{}", pre, a, if post.starts_with('\n') || post.is_empty() { post.to_string() } else { format!("\n{}", post) })) {
        Obs::Ok(r) => r,
        _ => {
            c.hit("pair-rejected");
            return;
        }
    };
    let head = format!("{}{}\n", pre, a);
    let alone = format!("{}{}", blank(&head), b);
    let v: Vec<String> = names(&one)[3..].trim_end_matches(']').split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    let en = Entry::Binding(Some(v), None);
    let part = match c.parse_as(&en, &alone, "x.rb") {
        Obs::Ok(r) => Ok(r),
        Obs::Err(e) => Err(e),
        o => return c.fail_as(&en, "x.rb", &alone, o.brief()),
    };
    let src = format!("{}{}\n{}", head, b, post.trim_start_matches('\n'));
    c.nontrivial(&src);
    let part = match part {
        Ok(r) => r,
        Err(e) => {
            // An error stays what it is, where the text goes on.
            if e.kind == ParseErrKind::UnexpectedEOF || e.loc.1 + 1 >= alone.len() {
                if post.is_empty() {
                    c.hit("pair-error");
                    if !matches!(c.parse(&src), Obs::Err(_)) {
                        c.fail(&src, format!("accepted, but {:?} alone is an error", b));
                    }
                }
                return;
            }
            // What ends a program may be what closes a construct around it.
            if !pre.is_empty() && !matches!(&e.kind, ParseErrKind::SyntaxError(m) if m != "Expected end-of-input.") {
                return;
            }
            c.hit("pair-error");
            match c.parse(&src) {
                Obs::Err(x) if x.kind == e.kind && x.loc == e.loc => {}
                o => c.fail(&src, format!("{}; {:?} alone: {:?} at {:?}", o.brief(), b, e.kind, e.loc)),
            }
            return;
        }
    };
    c.hit(if pre.is_empty() { "pair" } else { "pair-within" });
    let whole = match c.parse(&src) {
        Obs::Ok(r) => r,
        o => return c.fail(&src, format!("{}; {:?} alone is accepted", o.brief(), b)),
    };
    let w = format!("{:?}", whole.node);
    let parts: Vec<String> = match &part.node.kind {
        NodeKind::CompStmt(v) if v.len() > 1 => v.iter().map(|x| format!("{:?}", x)).collect(),
        _ => vec![format!("{:?}", part.node)],
    };
    let mut at = 0;
    for p in &parts {
        match w[at..].find(p.as_str()) {
            Some(i) => at += i + p.len(),
            None => {
                return c.fail(&src, format!("{:?} alone is {} but it is not in {}", b, clip_str(&norm(&part.node).to_string(), 1000), clip_str(&norm(&whole.node).to_string(), 2000)));
            }
        }
    }
    if names(&whole) != names(&part) {
        c.fail(&src, format!("variables: {} and alone {}", names(&whole), names(&part)));
    }
}

/// Texts with an error, without here-documents.
const BAD: &[&str] = &[
    "foo(1 2)", "foo(1,, 2)", "foo(,)", "x = )", "1 2", "a b c d = 1 2", "foo.1", "[1 2]", "[1,,2]", "{a: 1 b: 2}.m", "{1 2}.m", "1 + * 2", "1 +)", "* 2 *", "x = = 1", "1 = 2", "foo() = 1", "nil = 1", "self = 2", "a + b = 1", "@1 = 2", "@@1", "$ = 1", "@ = 1", "1a", "0x", "0b2", "1__2", "1_", "08", "1e", "1.e", "\"\\u{110000}\"", "\"\\xz\"",
    "\"\\u12\"", "def 1; end", "def a(1); end", "def a(b c); end", "def a(b, b); end", "def a(&b, c); end", "class a; end", "class A.b; end", "module a; end", "def m; class A; end; end", "def m; A = 1; end", "foo { |a b| }", "foo { |1| }", "foo { |a, a| }", "->(a a) { }", "-> 1 { }", "alias 1 2", "alias a", "if then else", "if 1 then 2 else 3 else 4 end",
    "unless 1 then 2 elsif 3 end", "case 1 2 when 3; end", "while do end", "for 1 in 2 do end", "for a on b do end", "begin 1 rescue 2 = 3; end", "end", "1 end", "}", ")", "]", "else", "elsif 1", "when 1", "rescue => 1", "ensure; 1", "then", "do", "foo do 1 } end", "foo { 1 end }", "(1]", "[1)", "{a: 1).m", "foo(1]", "x ? 1 2", "x ? : 1", "x ? 1 : : 2", "1 == 2 == 3", "1 <=> 2 <=> 3",
    "1..2..3", "1 === 2 != 3", "_1 = 2", "foo { _1; foo { _1 } }", "foo(...)", "def m; foo(...); end", "foo(&a, 1)", "foo(&a, &b)", "foo(**a, *b)", "foo(k: 1, 2)", "yield(&a)", "a, b += 1", "a, 1 = 2", "*a, *b = 1", "a, = = 1", "x.y.", "x..", "a &. = 1", "a.b.1", "A::1", "::", "::a", "%w(a b", "%", "a => b", "1 => 2", "a: 1", "?", "\\", "\\ 1", "&a", "foo & ", "!", "-", "~", "x = if", "return 1 2", "break 1 2",
    "next =", "redo 1 2", "\"#{1 2}\"", "\"#{)}\"", "\"#{end}\"", "`#{1 2}`", "/#{1 2}/", "/(/", "/a/q", "/[/", "/*/", ":\"#{1 2}\"", "%i(a) 1", "defined?()", "defined? 1 2", "\u{1}", "\u{7f}", "x \u{0} y", "super(1 2)", "yield(1 2)", "a.b(1 2)", "a[1 2]", "a[1", "foo 1,, 2", "foo *", "foo **", "foo 1 2", "@a @b", "$a $b", "A B C", "nil nil", "1.0 2.0", "\"a\" 1", ":a :b", "[] []", "self self", "true false",
];

/// What may follow an error on the next line.
const FOLLOW: &[&str] = &[
    "", "\n", "\nfoo", "\n1\n2\n3", "\nend", "\nend\nend", "\n)", "\n]", "\n}", "\n\"", "\n'abc", "\n#{", "\n\"#{", "\n(", "\n[", "\n{", "\ndef m", "\nclass A", "\nif 1", "\nfoo do", "\n)))", "\n1 2", "\n@1", "\n0x", "\n\u{1}", "\n# c", "\nx = 1", "\n\\", "\n%w(", "\n/", "\n:", "\n?", "\n=", "\n,", "\n.foo", "\n&.foo", "\n: 1", "\n? 1", "\nthen 1", "\ndo 1 end", "\nelse 1", "\nrescue 1", "\nwhen 1",
    "\nin 1", "\n|", "\n=> 1", "\n* 1", "\n- 1", "\n&& 1", "\nand 1", "\né", "\n\u{1F600}", "\n__END__\nfoo", "\n=begin\nfoo\n=end", "\n<<A\nA",
];

/// An error stays what it is whatever follows on later lines.
fn c22_errors(c: &mut Case) {
    let bad = BAD[(c.idx as usize) % BAD.len()];
    let pre = match c.rng.below(4) {
        0 => String::new(),
        1 => {
            let f = feat(c);
            let mut g = gen(c, f, 10);
            let n = 1 + c.rng.below(2);
            g.program(n);
            let st = style(c, &[0, 40]);
            let mut s = render(&g.toks, st).src;
            if !s.ends_with('\n') {
                s.push('\n');
            }
            s
        }
        _ => {
            let (a, _) = *c.rng.pick(STMT_AT);
            a.to_string()
        }
    };
    let head = format!("{}{}", pre, bad);
    let base = match c.parse(&head) {
        Obs::Err(e) => e,
        _ => return,
    };
    // Only an error which lies before the end of the text is decided by it.
    if base.kind == ParseErrKind::UnexpectedEOF || base.loc.1 + 1 >= head.len() {
        return;
    }
    c.hit("error-alone");
    for _ in 0..3 {
        let mut follow = c.rng.pick(FOLLOW).to_string();
        if follow.is_empty() || c.rng.p(1, 4) {
            let f = feat(c);
            let mut g = gen(c, f, 10);
            g.program(2);
            let st = style(c, &[0, 40]);
            follow = format!("\n{}", render(&g.toks, st).src);
        }
        let src = format!("{}{}", head, follow);
        c.nontrivial(&src);
        match c.parse(&src) {
            Obs::Err(e) if e.kind == base.kind && e.loc == base.loc => c.hit("error-followed"),
            o => c.fail(&src, format!("{}; without what follows: {:?} at {:?}", o.brief(), base.kind, base.loc)),
        }
    }
}

/// Closed expressions without variables of their own, which switch the
/// parser's modes in every way. `_` is another one.
const CLOSED: &[&str] = &[
    "case when _ then @a = 1, 2 end", "case\nwhen 1, _\n@a\nelse @b end", "case _ when 1 then 2 end", "case 3 when 1, *_ then @a = 4, 5 else @b end", "if _ then @a = 1, 2 end", "unless @a then _ else @b = *@c end",
    "if @a\n_\nelsif _ then @b\nend", "begin @a = 1, _ end", "begin\n_\nrescue => @e\n@a = 1, 2\nensure @b end", "begin 1 rescue @b = 3, 4 end", "while _ do @a = 1, 2 end", "until @a\n@b = _, 2 end", "while @x do m1 do _ end end",
    "def m2(q = _, r: 1) @a = q, r end", "def m2\n_\nend", "def self.m2(*q, &r) yield q, @a = 1, 2 end", "class M3 < _; end", "class M3\n@a = 1, 2\nend", "class << _\n@a = 1, 2 end", "module M3 @a = _, 2\nend", "-> { @a = 1, 2 }", "->(q = _, r: _) { @b = q, r }",
    "-> do @a = _, 2 end", "->(q = 1) do m1 do q | 2 end end", "m1 { @a = 1, _ }", "m1 { |q, r = _| @a = q, r }", "(m1(_) do |q| @a = q, 2 end)", "m1(@a = _, @b)", "m1(_, k: @a = 1, &@b)", "m1(*_, **@b)", "m1(*_)", "m1[_, @a = 1]", "m1[@a = 1, _]", "@s.m1(_) { @a = 1, 2 }",
    "@s.m1 { |q| q }", "@s&.m1(_)", "[_, @a = 1, *@b]", "[@a = _, 2]", "{k: _, j: @a = 1}", "{_ => 1, 2 => @a = 3}", "(_)", "(@a = 1, _)", "(@a, @b = 1, _)", "(_; @a = 1, 2)", "(m1 _, @a)", "(m1 do @a = _, 2 end)", "(m1 _ do |q| q end)", "(@a if _)", "(@a while _)",
    "(@a = _ rescue 2)", "(_ and @b = 1, 2)", "(*@a, @b = _, 1)", "(return _, 1)", "\"#{_}\"", "\"#{@a = 1, _}\"", "\"#{m1 do _ end}x\"", "`#{_}`", "/#{_}/", "%Q(#{@a = _, 1})", "(@a ? _ : @b)", "(@a ? m1(_) : @b)", "(!_)", "(_..3)", "(defined? _)", "-> q, r = 1 { @a = q | r }",
    "->(q, *r, s: 1, &u) do _ end", "super(_, @a = 1)", "yield(_, @a = 1)", "(@a[_] = 1)", "(@a[_], @b.c = 1, 2)", "(@a ||= _)", "-> { for q in _ do @a = 1, q end }", "(begin @a end until _)", "(alias m4 m5)", "%w(a b)", "%i[a b]", ":\"a#{_}\"", "->{}", "[]", "{}", "()", "m1 {}",
    "m1 { |q = [1 | 2], (r, s), u: 3, **v| q }", "(m1 k: _ do end)", "(m1 :a => _, 2 => @a = 3)", "(m1 *_, &@b)", "(_ ? 1 : 2)", "-> { m1 do @a end }", "(-> do @a end)", "while m1(-> do @a end) do @b end", "if [m1 do @a end] then @b end", "(break while _)", "while @a do break @b, _ end", "m1 { next 1, _ }",
];

/// What surrounds them: `n` is the head of a loop.
const AROUND: &[(&str, &str)] = &[
    (" ", "foo(_, @m = 1, k: 2)"), (" ", "foo(@m = _, @n = 1, 2)"), (" ", "foo(1, _, @m = @n, @o)"), (" ", "foo _, @m = 1, @n"), (" ", "foo _, 1 do |x| @m = x, 2 end"), (" ", "foo _ do @m end"), (" ", "foo @l, _ do |x| x | 1 end"), (" ", "foo @l, _, k: @m do end"), (" ", "[_, @m = 1, @n]"),
    (" ", "[1, _, @m = @n, @o]"), (" ", "foo[_, @m = @n, @o]"), (" ", "foo[_] = 1, 2"), (" ", "foo[_], @m = 1, 2"), (" ", "{a: _, b: @m = 1, c: 2}"), (" ", "{_ => 1, @m => @n = 2, 3 => 4}"), (" ", "return _, @m"), (" ", "x = _, @m"), (" ", "x = _\ny = x, 1\nfoo x, y"), (" ", "x = @m, _, 1"), (" ", "x, y = _, @n"),
    (" ", "x, *y = @m, *_"), (" ", "x = *_, 1"), (" ", "x += _"), (" ", "x ||= _\nx | 1"), (" ", "@m.n = _, 1"), (" ", "@m[1] = _, 1"), (" ", "def f(x = _, y: 1, **z) x | y end"), (" ", "def f(x: _, y: 1) x end"), (" ", "def f(x, y = _, *z, w)\n@m = 1, 2\nend"), (" ", "->(x = _, y: 1) { @m = x, y }"),
    (" ", "-> x = _, y = 1 do x | y end"), (" ", "foo { |x = _, y = 1| x | y }"), (" ", "foo do |x, k: _, j: 1| x | k end"), (" ", "case @m\nwhen _, @n = 1 then 1\nwhen 2 then 3 end"), (" ", "case _\nwhen 1 then @m = 1, 2 end"), (" ", "case\nwhen _ then @m = 1, 2\nelse @n = 3, 4 end"), (" ", "case @m when 1 then _\nwhen 2 then @n = 1, 2 end"),
    ("n", "while _ do foo @m = 1, 2 do end end"), ("n", "until foo(_) do @m = 1, 2 end"), ("n", "while foo(@m, _) do bar do |x| x end end"), ("n", "while @m || [_] do bar end"), ("n", "for i in _ do foo i do end end"), ("n", "for i, j in [_, 1] do @m = i, j end"), (" ", "while @m do _; foo 1 do end end"),
    (" ", "if _ then @m = 1, 2 else @n end"), (" ", "if @m then _ elsif @n then @o = 1, 2 end"), (" ", "@m if _\n@n = 1, 2"), (" ", "@m = 1, 2 unless _\nfoo @n do end"), ("n", "@m while _\nfoo @n do end"), (" ", "foo @m if _ and @n = 1, 2"), (" ", "\"a#{_}b#{foo 1, @m = 2, 3}\""), (" ", "\"#{_}\" \"#{@m}\""), (" ", "/#{_}#{@m}/ =~ @n"),
    (" ", "_ ? foo : bar"), (" ", "@m ? _ : bar"), (" ", "@m ? foo(_) : bar"), (" ", "@m ? @n : _"), (" ", "_.foo @m, @n = 1, 2 do end"), (" ", "_.foo(@m) { |x| x }"), (" ", "_.foo = 1, 2"), (" ", "_[1] = @m, 2"), (" ", "_.foo @m do |x| x end"), (" ", "_ + @m | @n"), (" ", "@m - _ / 2"), (" ", "@m || _ && @n"), (" ", "@m .. _"),
    (" ", "!_ | @m"), (" ", "_ == @m ? 1 : 2"), (" ", "@m = _ rescue 1"), (" ", "yield _, @m = 1, 2"), (" ", "yield(_, @m = 1, 2)"), (" ", "super(_, @m = 1, 2)"), (" ", "super _, @m = 1, 2"), (" ", "foo(*_, @m = 1, &@n)"), (" ", "foo(**_, &@n)"), (" ", "foo(&_)"), (" ", "foo(k: _, j: @m = 2)"), (" ", "foo k: _, j: 2 do end"),
    (" ", "foo :a => _, 2 => @m do end"), (" ", "foo(_ => 1, 2 => @m = 3)"), (" ", "begin\n@m\nrescue _, @n => x\n@m = 1, x\nend"), (" ", "begin @m ensure _\n@n = 1, 2 end"), (" ", "begin _\nrescue @n then @m = 1, 2 else 1 end"), (" ", "class A < _\n@m = 1, 2 end"), (" ", "class << _; @m = 1, 2; end"), (" ", "class A; _; @m = 1, 2 end"),
    (" ", "def f\n_\n@m = 1, 2\nend\n@n = 3, 4"), (" ", "-> { _ }.foo @m = 1, 2"), (" ", "-> do _ end.foo(@m) do end"), (" ", "foo { _ }.bar do |x| x end"), (" ", "foo do _ end.bar @m, 1"), (" ", "foo { |x| _; @m = x, 2 }"), (" ", "(_; @m = 1, 2)\n@n = 3, 4"), (" ", "(@m = _, 2)[@n = 1]"), (" ", "_\nfoo @m, @n do |x| x end"), (" ", "_\n@m = 1, 2"),
    (" ", "_; x, y = 1, 2; foo x do end"), (" ", "foo(_)\nwhile @m do end"), (" ", "foo(_).bar @m ? 1 : 2"), (" ", "foo(-> (x = _) { x }, @m = 1, 2)"), (" ", "[_, foo(1) { |x| x }, @m = 1]"), (" ", "@m and _ or @n = 1, 2"), (" ", "defined?(_)"), (" ", "@m = @n = _, 2"), (" ", "->(x = [_], y) { x | y }"), (" ", "%w(a b).foo _, @m = 1, 2"),
    ("n", "while _ == bar do @m = 1, 2 end"), ("n", "until _ && bar do @m end"), ("n", "while _ and foo bar do @m end"), ("n", "until foo @m, _, bar do @m end"), ("n", "for i in _ + bar do @m end"), ("n", "while foo(_).bar do @m end"), ("n", "while @m ? _ : bar do @n end"),
    ("n", "while [_] == bar do foo do end end"), ("n", "until foo _ and bar do foo do end end"), ("n", "while (_; foo do end) == bar do foo do end end"), ("n", "while foo[_].bar do foo do end end"), ("n", "while !_ || bar do foo do end end"), ("n", "for i in _.foo do foo do end end"), ("n", "while _.foo 1, bar do foo do end end"),
    (" ", "@m, _.foo = 1, 2"), (" ", "_.foo, @m = 1, 2"), (" ", "@m, foo[_], @n = 1, 2\n1 + @o = @n"), (" ", "@m, *foo(_).bar = 1, 2\n1 + @o = 3"), (" ", "1 + @m = _"), (" ", "_ + @m = 1"), (" ", "_ + @m[1] ||= 1"), (" ", "foo(_ + @m = 1, 2)"), (" ", "@m, @n = _ + @o = 1, 2"), (" ", "@m, foo(_, @o = 1).bar = 1, 2"), (" ", "@m, foo[_ + @o = 1] = 1, 2"),
    (" ", "while @m do foo _ do end end"), (" ", "foo(_) do @m end\nfoo { @m = 1, 2 }"), (" ", "@m if _ == foo\nfoo do end"), (" ", "foo @m, [_, bar do end] do end"), (" ", "foo bar { _ } do end"), (" ", "foo @m, { a: _, b: bar do end } do end"), (" ", "foo @m do |x = [_], y| bar do end end"), (" ", "-> (x = _, y = bar { 1 }) do bar do end end"),
    ("n", "loop_ while foo _, @m do end"), (" ", "foo bar(_, @m = 1), @n = 2, 3"), (" ", "foo(@m ? _ : 1, k: @n ? 2 : 3)"), (" ", "foo(<<A, _, @m = 1)\n#{@n}\nA\n"), (" ", "foo(<<A, @m = 1, 2)\n#{_}\nA\n"), (" ", "@m <<= _"), (" ", "foo[_] += 1\n@n = 1, 2"),
    (" ", "when_ = _, 1"), (" ", "while @m do break _, @n end"), (" ", "while @m do next _, @n end"), (" ", "foo { next _, @n }"), (" ", "foo { |x = (_), y = 2 | 1| x }"), (" ", "foo { |(x, y), k: [_] | x }"), (" ", "x = [_]; x /1 + 2/ 3"), (" ", "foo(_) /1 + 2/ 3"),
];

fn replace(e: &mut T, hole: &str, by: &T) -> usize {
    if e.tag == hole {
        *e = by.clone();
        return 1;
    }
    e.kids.iter_mut().map(|k| replace(k, hole, by)).sum()
}

/// A closed expression does not matter to what stands around it: there is
/// the tree of the surrounding text with the tree of the expression in it.
fn c22_leaf(c: &mut Case) {
    const HOLE: &str = "$hole_";
    let mut x = c.rng.s(CLOSED).to_string();
    for _ in 0..c.rng.below(4) {
        let y = c.rng.s(CLOSED);
        if x.contains("m1 _") && (y.starts_with(['(', '[', '{', '/', '%', ':', '-']) || y.contains("do ")) {
            continue;
        }
        if ["m1 _", "return _", "= _|", "def m2"].iter().any(|k| x.contains(k)) && (["if", "unless", "while", "until", "class", "module"].iter().any(|k| y.contains(k)) || y.contains("] =")) {
            continue;
        }
        if x.contains('_') && (y.contains("while") || y.contains("until")) {
            continue;
        }
        x = x.replacen('_', y, 1);
    }
    let x = x.replace('_', c.rng.s(&["@v", "1", ":a", "nil", "@@w", "Foo", "m6()"]));
    let (kind, around) = *c.rng.pick(AROUND);
    let command = ["foo _", "super _", "yield _", "break _", "next _"].iter().any(|k| around.contains(k));
    if command && (x.starts_with(['(', '[', '{', '/', '%', ':']) || x.starts_with("->") && around.contains(" do ")) {
        return;
    }
    if around.contains("<<A, _") && x.contains('\n') {
        return;
    }
    if (command || around.contains("return _")) && ["if", "unless", "while", "until"].iter().any(|k| x.starts_with(k)) {
        return;
    }
    if around.contains("def f") && (x.contains("class") || x.contains("module")) {
        return;
    }
    let lead = around.find('_').unwrap_or(0);
    let lead = &around[..lead];
    if (lead.is_empty() || lead.ends_with(['\n', ';', ' '])) && x.starts_with('{') && around.starts_with('_') {
        return;
    }
    // A loop's head ends with the first `do` outside of brackets.
    if kind == "n" && x.contains("do ") && !x.starts_with(['(', '[', '{', '"']) {
        return;
    }
    let hole = |by: &str| {
        // Only the underscore on its own.
        let mut s = String::new();
        let b = around.as_bytes();
        for (i, k) in around.char_indices() {
            let name = |j: Option<&u8>| j.is_some_and(|j| j.is_ascii_alphanumeric());
            if k == '_' && !name(i.checked_sub(1).and_then(|j| b.get(j))) && !name(b.get(i + 1)) {
                s.push_str(by);
            } else {
                s.push(k);
            }
        }
        s
    };
    let (a, b) = (hole(HOLE), hole(&x));
    let one = |o: Obs| match o {
        Obs::Ok(r) => {
            let mut e = norm(&r.node);
            unconst(&mut e);
            Some(e)
        }
        _ => None,
    };
    let Some(mut ea) = one(c.parse(&a)) else {
        c.fail(&a, "a correct text is rejected");
        return;
    };
    let Some(ex) = one(c.parse(&x)) else {
        c.fail(&x, "a correct expression is rejected");
        return;
    };
    c.nontrivial(&b);
    c.hit("leaf");
    let ex = if ex.tag == "seq" && ex.kids.len() == 1 { ex.kids[0].clone() } else { ex };
    let n = replace(&mut ea, &format!("gvar:{}", HOLE), &ex);
    if n != 1 {
        c.fail(&a, format!("the global variable stands {} times in the tree: {}", n, ea));
        return;
    }
    match c.parse(&b) {
        Obs::Ok(r) => {
            let mut e = norm(&r.node);
            unconst(&mut e);
            c.st.nodes += e.size() as u64;
            if let Some(d) = ea.diff(&e, false) {
                c.fail(&b, format!("not the tree of {:?} with {:?} in it: {}", a, x, d));
            }
        }
        o => c.fail(&b, format!("{:?} and {:?} are correct, but: {}", a, x, o.brief())),
    }
}
