//! C21: layout which does not matter to Ruby.
use super::common::*;
use super::trees::STMT_AT;
use crate::mon::*;
use crate::run::*;
use crate::gen::*;
use crate::term::*;
use crate::tok::*;

pub fn c21() -> Check {
    Check {
        id: "C21",
        rule: "a distinct source text whose tree was compared with that of the same tokens in another layout",
        modes: vec![
            Mode { name: "layouts", quick: 30_000, thorough: 900_000, f: c21_layouts },
            Mode { name: "boundary", quick: 150_000, thorough: 5_000_000, f: c21_boundary },
            Mode { name: "comments", quick: 20_000, thorough: 500_000, f: c21_comments },
            Mode { name: "chains", quick: 30_000, thorough: 1_000_000, f: c21_chains },
            Mode { name: "forms", quick: 30_000, thorough: 600_000, f: c21_forms },
            Mode { name: "endings", quick: 10_000, thorough: 300_000, f: c21_endings },
        ],
        assumptions: &["The generator inserts layout only where Ruby's grammar ignores it; carriage returns only directly before a newline outside literals; here-document terminators and bodies keep plain newlines."],
        must: &["layout:;", "layout:nl", "layout:comment", "layout:continuation", "layout:none", "layout:space", "in-interpolation", "near-here-document", "chain-comment", "same"],
    }
}

/// One program in several layouts: all have the tree which was meant.
fn c21_layouts(c: &mut Case) {
    let fuel = *c.rng.pick(&[8, 15, 30, 60]);
    let mut g = gen(c, Feat::all(), fuel);
    let n = 1 + g.rng.below(4);
    let e = g.program(n);
    let table = g.scopes[0].tag();
    for (k, v) in std::mem::take(&mut g.cov) {
        c.add(k, v);
    }
    // Literals with the line number depend on the layout.
    if e.to_string().contains("__LINE__") {
        return;
    }
    let mut first: Option<(String, String)> = None;
    for wild in [0, 30, 70, 100, 100] {
        let st = Style { wild, seed: c.rng.next() };
        let out = render(&g.toks, st);
        let mut x = e.clone();
        resolve(&mut x, &out);
        let path = g.path.clone();
        c.nontrivial(&out.src);
        match c.parse_as(&Entry::Program, &out.src, &path) {
            Obs::Ok(r) => {
                let act = norm(&r.node);
                c.st.nodes += act.size() as u64;
                if let Some(d) = x.diff(&act, false) {
                    c.fail_as(&Entry::Program, &path, &out.src, d);
                    return;
                }
                let l = lvar_tag(&r.lvar_collector);
                if l != table {
                    c.fail_as(&Entry::Program, &path, &out.src, format!("variable table: expected {} got {}", table, l));
                    return;
                }
                // Line numbers aside, the trees are equal to the last bit.
                let s = if out.src.contains("__LINE__") { String::new() } else { act.to_string() };
                match &first {
                    None => first = Some((s, out.src)),
                    Some((f, src)) => {
                        if *f != s {
                            c.fail_as(&Entry::Program, &path, &out.src, format!("not the tree of {:?}", src));
                            return;
                        }
                    }
                }
            }
            o => {
                let what = format!("{}; expected {}", o.brief(), clip_str(&x.to_string(), 600));
                c.fail_as(&Entry::Program, &path, &out.src, what);
                return;
            }
        }
    }
}

struct Bound {
    id: usize,
    lay: Vec<&'static str>,
    interp: bool,
    here: bool,
}

fn bounds(toks: &[Tok], interp: bool, v: &mut Vec<Bound>) {
    let mut pending = false;
    let mut depth = 0;
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            if t.sep == Sep::TermNl {
                pending = false;
            }
            let lay = layouts(&toks[i - 1], t, pending);
            if !lay.is_empty() {
                v.push(Bound { id: t.id, lay, interp: interp || depth > 0, here: pending });
            }
        }
        if t.text.ends_with("#{") {
            depth += 1;
        } else if depth > 0 && t.text.starts_with('}') && t.text.len() > 1 {
            depth -= 1;
        }
        if let Some(h) = &t.here {
            pending = true;
            bounds(&h.0, true, v);
        }
    }
}

fn kind(x: &str) -> &'static str {
    if x.is_empty() {
        "none"
    } else if x.contains('#') {
        "comment"
    } else if x.contains('\\') {
        "continuation"
    } else if x.contains(';') {
        ";"
    } else if x.contains('\n') {
        "nl"
    } else {
        "space"
    }
}

/// Exactly one boundary between two tokens gets a chosen layout.
fn c21_boundary(c: &mut Case) {
    let fuel = *c.rng.pick(&[4, 8, 12, 20]);
    let mut g = gen(c, Feat::all(), fuel);
    let n = 1 + g.rng.below(3);
    let e = g.program(n);
    for (k, v) in std::mem::take(&mut g.cov) {
        c.add(k, v);
    }
    let mut v = vec![];
    bounds(&g.toks, false, &mut v);
    if v.is_empty() {
        return;
    }
    let wild = *c.rng.pick(&[0, 0, 0, 40]);
    let st = Style { wild, seed: c.rng.next() };
    for _ in 0..4 {
        let b = &v[c.rng.below(v.len())];
        let x = *c.rng.pick(&b.lay);
        let out = render_with(&g.toks, st, Some((b.id, x)));
        let mut want = e.clone();
        resolve(&mut want, &out);
        c.hit(format!("layout:{}", kind(x)));
        if b.interp {
            c.hit("in-interpolation");
        }
        if b.here {
            c.hit("near-here-document");
        }
        c.nontrivial(&out.src);
        let path = g.path.clone();
        match c.parse_as(&Entry::Program, &out.src, &path) {
            Obs::Ok(r) => {
                let act = norm(&r.node);
                c.st.nodes += act.size() as u64;
                if let Some(d) = want.diff(&act, false) {
                    c.fail_as(&Entry::Program, &path, &out.src, format!("{:?} before token {}: {}", x, b.id, d));
                    return;
                }
            }
            o => {
                let what = format!("{:?} before token {}: {}; expected {}", x, b.id, o.brief(), clip_str(&want.to_string(), 600));
                c.fail_as(&Entry::Program, &path, &out.src, what);
                return;
            }
        }
    }
}

const COMMENT: &[&str] = &[
    "#", "# ", "#!", "#!/usr/bin/ruby", "# -*- coding: utf-8 -*-", "##", "# #", "#a", "# \"", "# '", "# `", "# \"a\" 'b'", "# <<A", "# <<-\"A\"", "# \\", "#\\", "# \\\\", "# a \\", "#{", "#{x}", "#{\"", "# }", "# {", "# )", "# (", "# ]", "# [", "# end", "# do", "# if x",
    "# ;", "#; x", "# |a|", "# é", "# 日本語", "# \u{1F600}", "#\u{a0}", "# \t", "#\t\t", "# \u{b}\u{c}", "# =begin", "#=end", "# __END__", "# %w(", "# /", "# ?", "# ?a", "# $x @y @@z", "# :a", "# 0x", "# 1.", "# &&", "# ||", "# and", "# not", "# .foo", "# &.foo", "# =>", "# a\r b",
    "# \u{0}", "# \u{7f}", "# \u{feff}", "# x = 1", "# def", "# class A", "# \u{1}\u{2}",
];

/// What is around: a text with a place where a comment may stand.
const COMMENT_AT: &[(&str, &str)] = &[
    ("x = 1 ", ""), ("x = 1", ""), ("", "\nx = 1"), ("x = 1\n", ""), ("x = 1\n  ", "\n"), ("x = ", "\n1"), ("x = 1 + ", "\n 2"), ("foo(", "\n1)"), ("foo(1, ", "\n2)"), ("foo(1 ", "\n)"), ("[", "\n1, 2]"), ("[1,", "\n2]"), ("[1, 2 ", "\n]"), ("{", "\na: 1}.m"), ("p({a: ", "\n1})"),
    ("p({a: 1, ", "\nb: 2})"), ("p({1 => ", "\n2})"), ("if x ", "\n1\nend"), ("if x\n", "\n1\nend"), ("if x\n1 ", "\nelse\n2\nend"), ("if x\n1\nelse ", "\n2\nend"), ("if x\n1\nelse\n2\n", "\nend"), ("while x ", "\n1\nend"), ("while x do ", "\n1\nend"), ("for a in b ", "\n1\nend"),
    ("case x ", "\nwhen 1\n2\nend"), ("case x\n", "\nwhen 1\n2\nend"), ("case x\nwhen 1 ", "\n2\nend"), ("case x\nwhen 1\n2\n", "\nwhen 3\n4\nend"), ("case x\nwhen 1, ", "\n2\n4\nend"), ("def m ", "\n1\nend"), ("def m(a, ", "\nb)\n1\nend"), ("def m(a) ", "\n1\nend"), ("def m\n", "\nend"),
    ("class A ", "\n1\nend"), ("class A < B ", "\n1\nend"), ("class A\n", "\nend"), ("module A ", "\nend"), ("begin ", "\n1\nrescue\n2\nend"), ("begin\n1\nrescue ", "\n2\nend"), ("begin\n1\nrescue A => e ", "\n2\nend"), ("begin\n1\nrescue A, ", "\nB\n2\nend"), ("begin\n1\nensure ", "\n2\nend"),
    ("foo { ", "\n1 }"), ("foo { |a| ", "\n1 }"), ("foo do ", "\n1\nend"), ("foo do |a| ", "\n1\nend"), ("foo do |a|\n1 ", "\nend"), ("-> ", "\n{ 1 }"), ("-> { ", "\n1 }"), ("-> do ", "\n1\nend"), ("foo ", "\n.bar"), ("foo\n", "\n.bar"), ("foo\n  ", "\n  &.bar"), ("foo.bar ", "\n .baz(1) ", ), ("a = b ", "\n.c"),
    ("x ? ", "\n1 : 2"), ("x ? 1 : ", "\n2"), ("x && ", "\ny"), ("x || ", "\ny"), ("x and ", "\ny"), ("x or ", "\ny"), ("a, b = ", "\n1, 2"), ("a, b = 1, ", "\n2"), ("a += ", "\n1"), ("x ||= ", "\n1"), ("foo 1, ", "\n2"), ("foo a: 1, ", "\nb: 2"), ("foo(a: ", "\n1)"), ("1 .. ", "\n2"), ("1 + 2 ", ""), ("(", "\n1)"),
    ("(1 ", "\n)"), ("(1\n", "\n2)"), ("x[", "\n1]"), ("x[1 ", "\n] "), ("\"#{", "\n1}\""), ("\"#{1 ", "\n}\""), ("\"a#{1;", "\n2}b\""), ("/#{", "\n1}/"), ("return ", ""), ("foo ", ""), ("foo; ", "\nbar"), ("yield ", "\n1"), ("$a ", ""), ("@a ", ""), ("A ", ""), ("x = <<A ", "\ntext\nA\n"), ("foo(<<A, ", "\ntext\nA\n1)"),
    ("foo(<<A, 1) ", "\ntext # x\nA\n"), ("x = <<A\ntext\nA\n", ""), ("alias a b ", ""), ("return 1 ", ""), ("next ", ""), ("x if y ", ""), ("x rescue ", "\ny"), ("!", "\nx"), ("- ", "\nx"), ("defined?(", "\nx)"), ("self ", ""), ("nil ", ""), (":a ", ""), ("\"a\" ", ""), ("%w(a b) ", ""), ("/a/ ", ""), ("1.0 ", ""), ("?a ", ""), ("a: ", ""),
];

fn c21_comments(c: &mut Case) {
    let k = COMMENT_AT.len() as u64;
    let (a, b) = COMMENT_AT[(c.idx % k) as usize];
    let com = if c.idx / k < COMMENT.len() as u64 {
        COMMENT[(c.idx / k) as usize].to_string()
    } else {
        // Anything but a newline.
        let n = c.rng.below(12);
        let mut s = String::from("#");
        for _ in 0..n {
            match c.rng.below(4) {
                0 => s.push(char::from_u32(c.rng.below(0x11_0000) as u32).filter(|c| *c != '\n').unwrap_or('é')),
                1 => s.push(char::from(32 + c.rng.below(95) as u8)),
                2 => s.push_str(*c.rng.pick(&["\"", "'", "#{", "}", "end", "\\", "<<A", "=begin", "%(", "\r", "\0", "`"])),
                _ => s.push_str(*c.rng.pick(COMMENT)),
            }
        }
        s
    };
    // `a: ` alone is no program.
    if a == "a: " || a == "!" {
        return;
    }
    let plain = format!("{}{}", a, b);
    let with = format!("{}{}{}", a, com, b);
    let crlf = format!("{}{}\r{}", a, com, b);
    // With the place of a comment empty, `return` and the like would continue
    // with the next line anyway only where the comment allows it as well.
    c.hit("comment");
    if expect_same(c, &plain, &with, "with a comment") && b.starts_with('\n') {
        expect_same(c, &plain, &crlf, "with a comment and a carriage return");
    }
}

/// Method chains over several lines.
fn c21_chains(c: &mut Case) {
    const HEAD: &[&str] = &["foo", "foo(1)", "x = foo", "foo 1, bar", "@a", "A", "self", "[1, 2]", "\"s\"", "(1)", "foo { 1 }", "foo do |a| a end", "if y then 1 end", "begin; 1; end", "case y when 1 then 2 end", "1", "1.5", "/r/", ":s", "nil", "$g", "A::B", "foo[1]", "-> { 1 }", "x = y = foo", "{a: 1}.m", "%w(a b)", "foo ? 1 : bar", "foo || bar", "return foo", "foo.bar", "x += foo", "foo!", "foo?", "yield(1)", "super", "while y do 1 end", "\"a#{b}\"", "?a", "a, b = foo"];
    const LINK: &[&str] = &["bar", "bar(1)", "bar(1, 2)", "bar { 1 }", "bar { |a| a }", "bar do |a| a end", "bar!", "bar?", "class", "if", "end", "A", "A(1)", "bar(&b)", "bar[1]", "call", "(1)", "map(&:a)", "bar(a: 1)", "+(1)", "then { _1 }"];
    let head = *c.rng.pick(HEAD);
    let n = 1 + c.rng.below(5);
    let (mut plain, mut with) = (head.to_string(), head.to_string());
    for _ in 0..n {
        let mut l = *c.rng.pick(LINK);
        let dot = *c.rng.pick(&[".", ".", "&."]);
        if l == "(1)" && dot == "&." {
            l = "bar";
        }
        plain.push_str(dot);
        plain.push_str(l);
        // Before the dot: spaces, newlines, comments on their own lines.
        let m = c.rng.below(4);
        for _ in 0..m {
            match c.rng.below(6) {
                0 => {
                    with.push(' ');
                    with.push_str(*c.rng.pick(COMMENT));
                    with.push('\n');
                    c.hit("chain-comment");
                }
                1 => with.push_str("\n"),
                2 => with.push_str("\n   "),
                3 => {
                    with.push_str("\n\t");
                    with.push_str(*c.rng.pick(COMMENT));
                    with.push_str("\r\n  ");
                    c.hit("chain-comment");
                }
                4 => with.push_str(" \r\n"),
                _ => with.push_str("  "),
            }
        }
        // Only blank lines right before the dot are the same without comments.
        with.push_str(dot);
        match c.rng.below(8) {
            0 => with.push(' '),
            1 => with.push_str("\n  "),
            2 => with.push_str("\t\n"),
            _ => {}
        }
        with.push_str(l);
    }
    let (a, b) = *c.rng.pick(&[("", ""), ("", "\n"), ("", "\nnil"), ("(", ")"), ("foo(", ")"), ("[", "]"), ("def m\n", "\nend"), ("foo { ", " }"), ("\"#{", "}\"")]);
    if (a == "foo(" || a == "[") && !head.chars().all(|c| c.is_alphanumeric()) {
        return;
    }
    // A `return` or several targets need to be statements; this is so in all.
    let (plain, with) = (format!("{}{}{}", a, plain, b), format!("{}{}{}", a, with, b));
    c.hit("chain");
    expect_same(c, &plain, &with, "the same chain");
}

/// Pairs of texts with the same meaning.
const FORMS: &[(&str, &str)] = &[
    ("foo;bar", "foo\nbar"), ("foo ; bar", "foo\n\n\nbar"), (";foo", "foo"), (";;foo;;", "foo"), ("\n\n\nfoo", "foo"), ("  foo", "foo"), ("foo   ", "foo"), ("\t\tfoo\t", "foo"), ("foo\r\nbar\r\n", "foo\nbar"), ("\r\nfoo", "foo"), ("\u{b}foo\u{c}", "foo"), ("foo\u{c}\n\u{b}bar", "foo\nbar"),
    ("x=1", "x = 1"), ("x  =\t1", "x = 1"), ("x =\n1", "x = 1"), ("x =\n\n\n 1", "x = 1"), ("x = \\\n1", "x = 1"), ("x \\\n= 1", "x = 1"), ("x\\\n=1", "x = 1"), ("a,b=1,2", "a, b = 1, 2"), ("a ,\nb = 1", "a, b = 1"), ("a, b =\n1,\n2", "a, b = 1, 2"), ("a += \n1", "a += 1"), ("a ||=\n1", "a ||= 1"),
    ("1+2", "1 + 2"), ("1 +\n2", "1 + 2"), ("1 +\n\n# c\n2", "1 + 2"), ("1 \\\n+ 2", "1 + 2"), ("1<<2", "1 << 2"), ("1&&\n2", "1 && 2"), ("1||\n2", "1 || 2"), ("1 and\n2", "1 and 2"), ("1 or\n\n2", "1 or 2"), ("1==\n2", "1 == 2"), ("1..\n2", "1..2"), ("a...\nb", "a...b"), ("1<=>\n2", "1 <=> 2"), ("a=~\nb", "a =~ b"), ("2**\n3", "2 ** 3"), ("!\na", "!a"),
    ("! a", "!a"), ("- a", "-a"), ("~ a", "~a"), ("+ a", "+a"), ("-\na", "-a"), ("a ?\n1 :\n2", "a ? 1 : 2"), ("1?2:3", "1 ? 2 : 3"), ("a ? 1\\\n: 2", "a ? 1 : 2"), ("foo(\n)", "foo()"), ("foo( )", "foo()"), ("foo(\n1\n)", "foo(1)"), ("foo(1,\n2,\n3\n)", "foo(1, 2, 3)"), ("foo(1,2)", "foo(1, 2)"), ("foo 1,\n2", "foo 1, 2"), ("foo 1, \\\n2", "foo 1, 2"),
    ("foo \\\n1", "foo 1"), ("foo\t1", "foo 1"), ("foo(a:1)", "foo(a: 1)"), ("foo(a:\n1)", "foo(a: 1)"), ("foo(a: 1,\nb: 2)", "foo(a: 1, b: 2)"), ("foo(1=>\n2)", "foo(1 => 2)"), ("foo(*\na)", "foo(*a)"), ("foo(* a)", "foo(*a)"), ("foo(** a)", "foo(**a)"), ("foo(& a)", "foo(&a)"), ("foo(&\na)", "foo(&a)"),
    ("[\n1,\n2\n]", "[1, 2]"), ("[1,2,]", "[1, 2]"), ("[ 1 , 2 , ]", "[1, 2]"), ("[\n\n]", "[]"), ("[*\na]", "[*a]"), ("[1,\n# c\n2]", "[1, 2]"), ("p({\n})", "p({})"), ("p({a:1})", "p({a: 1})"), ("p({\na: 1,\nb: 2,\n})", "p({a: 1, b: 2})"), ("p({1=>2})", "p({1 => 2})"), ("p({1 =>\n2})", "p({1 => 2})"), ("p({a:\n1})", "p({a: 1})"), ("x[\n1\n]", "x[1]"), ("x[ 1,\n2 ]", "x[1, 2]"),
    ("(\n1\n)", "(1)"), ("( 1 )", "(1)"), ("(1;2)", "(1\n2)"), ("(1;)", "(1)"), ("(;1)", "(1)"), ("(\n1;\n\n2\n)", "(1; 2)"), ("foo{1}", "foo { 1 }"), ("foo {\n1\n}", "foo { 1 }"), ("foo {;1;}", "foo { 1 }"), ("foo{|a|a}", "foo { |a| a }"), ("foo { |\na\n| a }", "foo { |a| a }"), ("foo { | a , b | a }", "foo { |a, b| a }"), ("foo { |a|\na }", "foo { |a| a }"), ("foo { |a|;a }", "foo { |a| a }"),
    ("foo do 1 end", "foo do\n1\nend"), ("foo do;1;end", "foo do 1 end"), ("foo do |a| 1 end", "foo do |a|\n1\nend"), ("foo do|a|1 end", "foo do |a| 1 end"), ("foo do |a|;1 end", "foo do |a| 1 end"), ("->{1}", "-> { 1 }"), ("->(a){a}", "-> (a) { a }"), ("-> a { a }", "->(a) { a }"), ("->(\na\n) { a }", "->(a) { a }"), ("-> do 1 end", "-> { 1 }"), ("-> do\n1\nend", "->{1}"),
    ("if a then 1 end", "if a\n1\nend"), ("if a;1;end", "if a\n1\nend"), ("if a\nthen 1 end", "if a then 1 end"), ("if a;then 1 end", "if a then 1 end"), ("if a then\n1\nelse 2 end", "if a\n1\nelse\n2\nend"), ("if(a)then 1 end", "if (a) then 1 end"), ("if(a)\n1 end", "if (a)\n1\nend"), ("if a then 1 elsif b then 2 else 3 end", "if a\n1\nelsif b\n2\nelse\n3\nend"), ("if a then 1 else;2;end", "if a\n1\nelse 2 end"), ("if\na\n1\nend", "if a\n1\nend"),
    ("unless a then 1 end", "unless a\n1\nend"), ("unless a;1;else;2;end", "unless a\n1\nelse\n2\nend"), ("while a do 1 end", "while a\n1\nend"), ("while a;1;end", "while a do 1 end"), ("while a do;1 end", "while a\n1 end"), ("until a do 1 end", "until a\n1\nend"), ("until(a)do 1 end", "until (a)\n1\nend"), ("for a in b do 1 end", "for a in b\n1\nend"), ("for a in b;1;end", "for a in b do 1 end"), ("for a,b in c do 1 end", "for a, b in c\n1\nend"), ("while\na\n1\nend", "while a\n1\nend"),
    ("case a when 1 then 2 end", "case a\nwhen 1\n2\nend"), ("case a;when 1;2;end", "case a\nwhen 1 then 2\nend"), ("case a\n\n\nwhen 1,\n2\n3 end", "case a\nwhen 1, 2 then 3 end"), ("case\nwhen a then 1 end", "case when a then 1 end"), ("case;when a then 1 end", "case\nwhen a\n1\nend"), ("case a when 1 then 2 else 3 end", "case a\nwhen 1\n2\nelse\n3\nend"), ("case a\nwhen 1\nthen 2 end", "case a\nwhen 1 then 2 end"), ("case a\nwhen\n1\n2\nend", "case a\nwhen 1\n2\nend"),
    ("begin 1 end", "begin\n1\nend"), ("begin;1;end", "begin 1 end"), ("begin 1;rescue;2 end", "begin\n1\nrescue\n2\nend"), ("begin 1;rescue A;2 end", "begin\n1\nrescue A\n2\nend"), ("begin 1;rescue A then 2 end", "begin\n1\nrescue A\n2\nend"), ("begin 1;rescue A=>e;2 end", "begin\n1\nrescue A => e\n2\nend"), ("begin 1;rescue=>e;2 end", "begin\n1\nrescue => e\n2\nend"), ("begin 1;rescue A,\nB;2 end", "begin\n1\nrescue A, B\n2\nend"), ("begin 1;rescue;2;else 3;ensure 4 end", "begin\n1\nrescue\n2\nelse\n3\nensure\n4\nend"),
    ("begin\n1\nrescue then 2\nend", "begin\n1\nrescue\n2\nend"), ("begin 1;ensure 2 end", "begin\n1\nensure\n2\nend"), ("def a;1;end", "def a\n1\nend"), ("def a()1 end", "def a\n1\nend"), ("def a();1;end", "def a()\n1\nend"), ("def a(b)1 end", "def a(b)\n1\nend"), ("def a(b,c=1,*d)1 end", "def a(b, c = 1, *d)\n1\nend"), ("def a(\nb,\nc\n) 1 end", "def a(b, c)\n1\nend"), ("def a b;1 end", "def a(b)\n1\nend"), ("def a b,\nc\n1 end", "def a(b, c)\n1\nend"), ("def a(b: 1,c:2) end", "def a(b: 1, c: 2)\nend"), ("def a(b=\n1) end", "def a(b = 1) end"),
    ("def\na; end", "def a; end"), ("def a (b) end", "def a(b) end"), ("def self.a;end", "def self.a\nend"), ("class A;end", "class A\nend"), ("class A<B;end", "class A < B\nend"), ("class A <\nB\nend", "class A < B\nend"), ("class\nA\nend", "class A\nend"), ("class<<self;end", "class << self\nend"), ("class <<\nself\nend", "class << self\nend"), ("module\nA\nend", "module A\nend"), ("module A;end", "module A\nend"), ("alias a\tb", "alias a b"), ("alias \\\na b", "alias a b"),
    ("a if b", "a \\\nif b"), ("a if\nb", "a if b"), ("a unless\nb", "a unless b"), ("a while\nb", "a while b"), ("a rescue\nb", "a rescue b"), ("return\\\n1", "return 1"), ("return \\\n1", "return 1"), ("yield \\\n1", "yield 1"), ("foo.\nbar", "foo.bar"), ("foo\n.bar", "foo.bar"), ("foo\n\n\n.bar", "foo.bar"), ("foo\n  &.bar", "foo&.bar"), ("foo . bar", "foo.bar"), ("foo &. bar", "foo&.bar"), ("foo\n# c\n.bar", "foo.bar"), ("foo # c\n .bar", "foo.bar"), ("foo\\\n.bar", "foo.bar"),
    ("foo.\n\nbar", "foo.bar"), ("foo.\n bar 1", "foo.bar 1"), ("A::\nB", "A::B"), ("foo::\nbar(1)", "foo::bar(1)"), ("\"a\" \"b\"", "\"a\"\"b\""), ("\"a\"\\\n\"b\"", "\"a\" \"b\""), ("\"a\" \\\n \"b\"", "\"a\" \"b\""), ("\"#{ 1 }\"", "\"#{1}\""), ("\"#{\n1\n}\"", "\"#{1}\""), ("\"#{1;2}\"", "\"#{1\n2}\""), ("\"#{1 # }\n}\"", "\"#{1}\""), ("\"#{;1}\"", "\"#{1}\""), ("`#{ 1 }`", "`#{1}`"), ("/#{ 1 }/", "/#{1}/"), (":\"#{ 1 }\"", ":\"#{1}\""),
    ("%w( a  b )", "%w(a b)"), ("%w(\na\nb\n)", "%w(a b)"), ("%w(\ta\tb)", "%w(a b)"), ("%i( a  b )", "%i(a b)"), ("defined? a", "defined?(a)"), ("defined?\ta", "defined? a"), ("defined?(\na\n)", "defined?(a)"), ("x = <<A\n1\nA\n", "x=<<A\n1\nA\n"), ("x = <<A # c\n1\nA\n", "x = <<A\n1\nA\n"), ("x = <<A;\n1\nA\n", "x = <<A\n1\nA\n"), ("foo(<<A,\n1\nA\n2)", "foo(<<A, 2)\n1\nA\n"), ("foo(<<A\n1\nA\n)", "foo(<<A)\n1\nA\n"), ("foo <<A, \\\n1\nA\n2", "foo <<A, 2\n1\nA\n"), ("[<<A,\n1\nA\n<<B]\n2\nB\n", "[<<A, <<B]\n1\nA\n2\nB\n"),
    ("<<A\n1\nA\n.foo", "<<A.foo\n1\nA\n"), ("<<A +\n1\nA\n2", "<<A + 2\n1\nA\n"), ("x = \\\n<<A\n1\nA\n", "x = <<A\n1\nA\n"), ("\"#{<<A}\"\n1\nA\n", "\"#{ <<A }\"\n1\nA\n"), ("<<A\n#{ 1 }\nA\n", "<<A\n#{1}\nA\n"), ("<<A\n#{\n1\n}\nA\n", "<<A\n#{1}\nA\n"), ("<<A\n#{1 # c\n}\nA\n", "<<A\n#{1}\nA\n"), ("foo { <<A }\n1\nA\n", "foo{<<A}\n1\nA\n"), ("foo do <<A end\n1\nA\n", "foo do\n<<A\n1\nA\nend\n"), ("if <<A then 1 end\n1\nA\n", "if <<A\n1\nA\n1\nend\n"),
];

fn c21_forms(c: &mut Case) {
    let n = FORMS.len();
    let (a, b) = FORMS[(c.idx as usize) % n];
    let (a, b) = if (c.idx as usize) < n {
        (a.to_string(), b.to_string())
    } else {
        let (x, y) = *c.rng.pick(STMT_AT);
        // Definitions of classes may not stand in a method; here-documents
        // and surroundings in one line have their own check.
        if (a.contains("class") || a.contains("module")) && x.contains("def ") || a.contains("<<A") && !(y.is_empty() || y.starts_with('\n')) {
            return;
        }
        if a.contains("yield") && !x.is_empty() {
            return;
        }
        let y = if a.ends_with("A\n") && y.starts_with('\n') { &y[1..] } else { y };
        let f = |s: &str| if a.contains("<<A") && !s.ends_with("A\n") && b.ends_with("A\n") && !y.is_empty() { format!("{}{}\n{}", x, s, y) } else { format!("{}{}{}", x, s, y) };
        (f(a), f(b))
    };
    c.hit("same");
    expect_same(c, &b, &a, "the same layout aside");
}

/// The end of the text: with and without newline, blank lines, spaces, comments.
fn c21_endings(c: &mut Case) {
    const END: &[&str] = &["", "\n", "\n\n", ";", ";\n", " ", "\t", " \n", "\r\n", "\n\r\n", " # c", " # c\n", "\n# c", "\n  # c\r\n", ";;", " ; ", "\n;", "\u{b}", "\u{c}\n", " \\\n", "\n\n\n#\n#", " # \\", "# c", ";# c", "\n\t"];
    const START: &[&str] = &["", "\n", ";", " ", "\t", "# c\n", "#\n\n#\n", "\r\n", "#!ruby\n", ";\n;", "  # c\r\n", "\\\n", "\u{c}", " \n ", "# é\n"];
    let fuel = *c.rng.pick(&[2, 5, 10, 20]);
    let mut g = gen(c, Feat::all(), fuel);
    let n = 1 + g.rng.below(2);
    let mut e = g.program(n);
    let st = Style { wild: 0, seed: 1 };
    let out = render(&g.toks, st);
    let here = g.toks.iter().any(|t| t.here.is_some());
    let src = out.src.trim_end_matches('\n');
    let (a, b) = (*c.rng.pick(START), *c.rng.pick(END));
    // The end of a here-document is a line of its own.
    let b = if here && !b.is_empty() && !b.starts_with('\n') { format!("\n{}", b) } else { b.to_string() };
    let with = format!("{}{}{}", a, src, b);
    // Lines are counted from the start of the text.
    let lines = a.matches('\n').count();
    resolve(&mut e, &out);
    let s = e.to_string();
    if lines > 0 && (s.contains("__LINE__") || src.contains("__LINE__")) {
        return;
    }
    let sp = src.chars().last();
    if (b.starts_with('#') || b.starts_with(" \\")) && sp == Some('?') {
        return;
    }
    c.hit("ending");
    c.nontrivial(&with);
    let path = g.path.clone();
    match c.parse_as(&Entry::Program, &with, &path) {
        Obs::Ok(r) => {
            if let Some(d) = e.diff(&norm(&r.node), false) {
                c.fail_as(&Entry::Program, &path, &with, d);
            }
        }
        o => {
            let what = format!("{}; expected {}", o.brief(), clip_str(&s, 600));
            c.fail_as(&Entry::Program, &path, &with, what);
        }
    }
}
