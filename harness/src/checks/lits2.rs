//! C11 here-documents, C12 regular expressions, C13 collections.
use super::common::*;
use crate::gen::*;
use crate::mon::*;
use crate::run::*;
use crate::term::*;

pub fn c11() -> Check {
    Check {
        id: "C11",
        rule: "One to four here-documents of every quoting on one line at the holes of a template (arguments, receivers, operands, collections, conditions, blocks, definitions) with bodies full of near terminators, escapes and interpolations, and a statement after them (lines); random programs dense in here-documents (program); names read and set by interpolations (names); `<<` as a shift or a here-document by what stands before it (shift); unterminated and misspelled ones (invalid). Non-trivial: a text with a here-document was compared or had to be rejected; distinct by text.",
        modes: vec![
            Mode { name: "lines", quick: 240_000, thorough: 3_000_000, f: c11_lines },
            Mode { name: "program", quick: 160_000, thorough: 1_500_000, f: c11_program },
            Mode { name: "names", quick: 24_000, thorough: 200_000, f: c11_names },
            Mode { name: "shift", quick: 16_000, thorough: 100_000, f: c11_shift },
            Mode { name: "invalid", quick: 24_000, thorough: 200_000, f: c11_invalid },
        ],
        assumptions: &["`<<~` keeps its indentation, as the parser documents", "not covered: here-documents inside the interpolation of another one"],
        must: &["heredoc", "several", "dash", "squote", "dquote", "command", "bare", "rejected", "interpolation", "names:set", "names:get"],
    }
}

struct Hd {
    start: String,
    body: String,
    t: T,
    cmd: bool,
}

const IDS: &[&str] = &["A", "EOS", "_x", "E1", "SQL", "eos", "Été", "AB", "B", "end", "EOF_2", "日本"];

fn hd(c: &mut Case, ids: &[&'static str]) -> Hd {
    let id = *c.rng.pick(ids);
    let (q, kind) = *c.rng.pick(&[("", 0), ("", 0), ("\"", 1), ("'", 2), ("`", 3)]);
    let dash = c.rng.s(&["", "", "-"]);
    c.hit(["bare", "dquote", "squote", "command"][kind]);
    if dash == "-" {
        c.hit("dash");
    }
    let n = *c.rng.pick(&[0, 1, 1, 2, 3, 6]);
    let mut body = String::new();
    let mut kids: Vec<T> = vec![];
    let mut cur = String::new();
    let mut interp = false;
    for _ in 0..n {
        // A line which must not end the document.
        let other = *c.rng.pick(ids);
        match c.rng.below(16) {
            0 => {
                let l = format!("{}x", id);
                body.push_str(&l);
                cur.push_str(&l);
            }
            1 if dash.is_empty() => {
                let l = format!("{}{}", c.rng.s(&[" ", "\t", "  "]), id);
                body.push_str(&l);
                cur.push_str(&l);
            }
            2 => {
                let l = format!("{}{}", id, c.rng.s(&[" ", "\t", ".", ";", ",", ")", " # c"]));
                body.push_str(&l);
                cur.push_str(&l);
            }
            3 if other != id => {
                body.push_str(other);
                cur.push_str(other);
            }
            4 => {
                let l = format!("<<{}{}", dash, id);
                body.push_str(&l);
                cur.push_str(&l);
            }
            5 => {}
            6 => {
                let l = c.rng.s(&["end", "}", ")", "]", "\"", "'", "`", "# c", "/", "=begin", "  x  ", "\t", "a;b", "|x|", "%w(", ":a", "é日本", "__END__x"]);
                let l = if l == id { "ende" } else { l };
                body.push_str(l);
                cur.push_str(l);
            }
            7 | 8 if kind != 2 => {
                let (a, b) = *c.rng.pick(&[
                    ("\\n", "\n"),
                    ("\\t|", "\t|"),
                    ("\\\\", "\\"),
                    ("\\\"", "\""),
                    ("\\'", "'"),
                    ("\\x41z", "Az"),
                    ("\\101", "A"),
                    ("\\u3042", "\u{3042}"),
                    ("\\u{41 42}", "AB"),
                    ("\\e[0m", "\u{1b}[0m"),
                    ("\\#{x}", "#{x}"),
                    ("#", "#"),
                    ("# {x}", "# {x}"),
                    ("\\q", "q"),
                    ("\\s\\0", " \0"),
                ]);
                body.push_str(a);
                cur.push_str(b);
            }
            9 if kind == 2 => {
                let l = c.rng.s(&["\\n", "\\\\", "#{x}", "\\'", "#@a", "\\", "'q'", "\\u0041"]);
                body.push_str(l);
                cur.push_str(l);
            }
            10 | 11 if kind != 2 => {
                interp = true;
                c.hit("interpolation");
                let (a, e) = match c.rng.below(8) {
                    0 => ("#{1}", int(1)),
                    1 => ("#{self}", leaf("self")),
                    2 => ("#@a", leaf("ivar:@a")),
                    3 => ("#$g", leaf("gvar:$g")),
                    4 => ("#{\"}\"}", st("}")),
                    5 => ("#{[1, 2]}", array(vec![int(1), int(2)])),
                    6 => ("#{}", nothing()),
                    _ => ("#{nil\n}", leaf("nil")),
                };
                let pre = c.rng.s(&["", "v ", "'"]);
                let post = if a.ends_with('}') { c.rng.s(&["", " w", "z"]) } else { c.rng.s(&["", " w", "-"]) };
                // A string alone in an interpolation joins the text.
                body.push_str(pre);
                body.push_str(a);
                body.push_str(post);
                cur.push_str(pre);
                kids.push(st(&std::mem::take(&mut cur)));
                kids.push(e);
                cur.push_str(post);
            }
            _ => {
                let l = c.rng.s(&["abc", "a b", "  indented", "select * from t", "x", "日本語", "0", "a = 1 if b", "it's", "say \"hi\""]);
                body.push_str(l);
                cur.push_str(l);
            }
        }
        body.push('\n');
        cur.push('\n');
    }
    if dash == "-" {
        body.push_str(c.rng.s(&["", " ", "    ", "\t", "\t  "]));
    }
    body.push_str(id);
    body.push('\n');
    let x = if interp {
        kids.push(st(&cur));
        t("istr", merge_text(kids))
    } else {
        st(&cur)
    };
    Hd { start: format!("<<{}{}{}{}", dash, q, id, q), body, t: if kind == 3 { t("cmd", vec![x]) } else { x }, cmd: kind == 3 }
}

/// Text with holes `@` on the first line, and the tree over their values.
struct Tpl {
    text: &'static str,
    t: fn(Vec<T>) -> T,
}

fn one(v: &mut Vec<T>) -> T {
    v.remove(0)
}

const TPLS: &[Tpl] = &[
    Tpl { text: "@", t: |mut v| one(&mut v) },
    Tpl { text: "q = @", t: |mut v| asg("q", one(&mut v)) },
    Tpl { text: "foo(@)", t: |v| fcall("foo", v) },
    Tpl { text: "foo(@, 1)", t: |mut v| fcall("foo", vec![one(&mut v), int(1)]) },
    Tpl { text: "foo @", t: |v| fcall("foo", v) },
    Tpl { text: "foo @, @", t: |v| fcall("foo", v) },
    Tpl { text: "foo(@, @, @)", t: |v| fcall("foo", v) },
    Tpl { text: "foo(@,@,@,@)", t: |v| fcall("foo", v) },
    Tpl { text: "foo 1, @, k: @", t: |mut v| fcall("foo", vec![int(1), one(&mut v), t("kw:k", vec![one(&mut v)])]) },
    Tpl { text: "[@, @]", t: array },
    Tpl { text: "[1, @].m", t: |mut v| mcall("m", array(vec![int(1), one(&mut v)]), vec![]) },
    Tpl { text: "[[@], [@]]", t: |mut v| array(vec![array(vec![one(&mut v)]), array(vec![one(&mut v)])]) },
    Tpl { text: "foo({k: @, j: @})", t: |mut v| fcall("foo", vec![hash(vec![s("k"), one(&mut v), s("j"), one(&mut v)])]) },
    Tpl { text: "@.m", t: |mut v| mcall("m", one(&mut v), vec![]) },
    Tpl { text: "@.m(@)", t: |mut v| mcall("m", one(&mut v), vec![one(&mut v)]) },
    Tpl { text: "@.m.n(1)", t: |mut v| mcall("n", mcall("m", one(&mut v), vec![]), vec![int(1)]) },
    Tpl { text: "@ + @", t: |mut v| bin("+", one(&mut v), one(&mut v)) },
    Tpl { text: "@ << @ << @", t: |mut v| bin("<<", bin("<<", one(&mut v), one(&mut v)), one(&mut v)) },
    Tpl { text: "@ * 2 == @", t: |mut v| bin("==", bin("*", one(&mut v), int(2)), one(&mut v)) },
    Tpl { text: "@[0]", t: |mut v| t("index", vec![one(&mut v), int(0)]) },
    Tpl { text: "self[@] = @", t: |mut v| t("asgn", vec![t("lhs", vec![t("index", vec![leaf("self"), one(&mut v)])]), t("rhs", vec![one(&mut v)])]) },
    Tpl { text: "self.x = @", t: |mut v| t("asgn", vec![t("lhs", vec![mcall("x", leaf("self"), vec![])]), t("rhs", vec![one(&mut v)])]) },
    Tpl { text: "q, w = @, @", t: |v| t("asgn", vec![t("lhs", vec![leaf("lvar:0:q"), leaf("lvar:0:w")]), t("rhs", v)]) },
    Tpl { text: "q ||= @", t: |mut v| bin("||", leaf("lvar:0:q"), asg("q", one(&mut v))) },
    Tpl { text: "foo(@) if @", t: |mut v| { let a = fcall("foo", vec![one(&mut v)]); t("if", vec![one(&mut v), a, nothing()]) } },
    Tpl { text: "foo @ if nil", t: |v| t("if", vec![leaf("nil"), fcall("foo", v), nothing()]) },
    Tpl { text: "foo(@) { 1 }", t: |mut v| fcall("foo", vec![one(&mut v), t("blk", vec![t("lambda", vec![t("info", vec![t("params", vec![]), leaf("lv[]kw[]kr-b-f-n-"), int(1)])])])]) },
    Tpl { text: "(@)", t: |mut v| one(&mut v) },
    Tpl { text: "nil ? @ : @", t: |mut v| t("if", vec![leaf("nil"), one(&mut v), one(&mut v)]) },
    Tpl { text: "return @", t: |v| t("return", v) },
    Tpl { text: "return @, @", t: |v| t("return", vec![array(v)]) },
    Tpl { text: "self; @", t: |mut v| seq(vec![leaf("self"), one(&mut v)]) },
    Tpl { text: "@; self", t: |mut v| seq(vec![one(&mut v), leaf("self")]) },
    Tpl { text: "@; @", t: seq },
    Tpl { text: "@ # comment <<X", t: |mut v| one(&mut v) },
    Tpl { text: "nil and @ or @", t: |mut v| bin("||", bin("&&", leaf("nil"), one(&mut v)), one(&mut v)) },
    Tpl { text: "!@", t: |mut v| t("un:!", vec![one(&mut v)]) },
    Tpl { text: "foo(*@)", t: |mut v| t("fcall:foo", vec![t("args*", vec![t("splat", vec![one(&mut v)])])]) },
    Tpl { text: "$a, @b = @, [@]", t: |mut v| { let a = one(&mut v); t("asgn", vec![t("lhs", vec![leaf("gvar:$a"), leaf("ivar:@b")]), t("rhs", vec![a, array(v)])]) } },
    Tpl { text: "self.m @, @", t: |v| mcall("m", leaf("self"), v) },
    Tpl { text: "self.m(@).n @", t: |mut v| { let a = mcall("m", leaf("self"), vec![one(&mut v)]); mcall("n", a, v) } },
];

/// Templates whose second part stands after the bodies.
const SPLIT: &[(&str, &str, fn(Vec<T>) -> T)] = &[
    ("foo(@,", "1)", |mut v| fcall("foo", vec![one(&mut v), int(1)])),
    ("foo @,", "1", |mut v| fcall("foo", vec![one(&mut v), int(1)])),
    ("foo(@", ")", |v| fcall("foo", v)),
    ("[@, @,", "3]", |mut v| array(vec![one(&mut v), one(&mut v), int(3)])),
    ("[@", "]", array),
    ("if @", "self\nend", |mut v| t("if", vec![one(&mut v), leaf("self"), nothing()])),
    ("if nil then @ else", "self\nend", |mut v| t("if", vec![leaf("nil"), one(&mut v), leaf("self")])),
    ("while @ do", "break\nend", |mut v| t("while", vec![one(&mut v), t("break", vec![leaf("nil")])])),
    ("case @", "when 1\n2\nend", |mut v| t("case", vec![one(&mut v), t("when", vec![int(1), int(2)]), nothing()])),
    ("case nil when @", "2\nend", |mut v| t("case", vec![leaf("nil"), t("when", vec![one(&mut v), int(2)]), nothing()])),
    ("begin; @", "end", |mut v| one(&mut v)),
    ("(@", ")", |mut v| one(&mut v)),
    ("@ +", "1", |mut v| bin("+", one(&mut v), int(1))),
    ("q =", "@", |mut v| asg("q", one(&mut v))),
    ("foo(k: @,", "j: 2)", |mut v| fcall("foo", vec![t("kw:k", vec![one(&mut v)]), t("kw:j", vec![int(2)])])),
    ("foo({1 => @,", "2 => 3})", |mut v| fcall("foo", vec![hash(vec![int(1), one(&mut v), int(2), int(3)])])),
    ("self[@,", "2]", |mut v| t("index", vec![leaf("self"), one(&mut v), int(2)])),
    ("nil ? @ :", "2", |mut v| t("if", vec![leaf("nil"), one(&mut v), int(2)])),
    ("def m; @", "end", |mut v| t("def:m", vec![t("info", vec![t("params", vec![]), leaf("lv[]kw[]kr-b-f-n-"), one(&mut v)])])),
    ("foo @ do", "1\nend", |mut v| fcall("foo", vec![one(&mut v), t("blk", vec![t("lambda", vec![t("info", vec![t("params", vec![]), leaf("lv[]kw[]kr-b-f-n-"), int(1)])])])])),
    ("foo @ \\", ", 1", |mut v| fcall("foo", vec![one(&mut v), int(1)])),
    ("@.", "m", |mut v| mcall("m", one(&mut v), vec![])),
    ("@", ".m", |mut v| mcall("m", one(&mut v), vec![])),
];

fn c11_lines(c: &mut Case) {
    let split = c.rng.p(1, 3);
    let (text, post, f) = if split {
        *c.rng.pick(SPLIT)
    } else {
        let t = c.rng.pick(TPLS);
        (t.text, "", t.t)
    };
    // Fewer names give more confusion.
    let k = c.rng.below(3);
    let ids: &[&'static str] = match k {
        0 => &IDS[..1],
        1 => &IDS[6..9],
        _ => IDS,
    };
    let mut head = String::new();
    let mut tail = String::new();
    let mut bodies = String::new();
    let mut ts = vec![];
    let mut n = 0;
    let fill = |s: &str, out: &mut String, bodies: &mut String, c: &mut Case, ts: &mut Vec<T>, n: &mut usize| {
        // "@b" in a template is an instance variable.
        let mut it = s.chars().peekable();
        while let Some(ch) = it.next() {
            if ch == '@' && it.peek() != Some(&'b') {
                let h = hd(c, ids);
                let _ = h.cmd;
                out.push_str(&h.start);
                bodies.push_str(&h.body);
                ts.push(h.t);
                *n += 1;
            } else {
                out.push(ch);
            }
        }
    };
    fill(text, &mut head, &mut bodies, c, &mut ts, &mut n);
    let mut tail_bodies = String::new();
    fill(post, &mut tail, &mut tail_bodies, c, &mut ts, &mut n);
    c.hit("heredoc");
    if n > 1 {
        c.hit("several");
    }
    let e = f(ts);
    let pre = c.rng.s(&["", "", "# <<A\n", "self\n", "\n"]);
    let after = c.rng.s(&["", "", "nil\n", "\nfoo(2)\n"]);
    let mut src = format!("{}{}\n{}{}", pre, head, bodies, tail);
    if !tail.is_empty() {
        src.push('\n');
        src.push_str(&tail_bodies);
    }
    src.push_str(after);
    let mut v = vec![];
    if pre == "self\n" {
        v.push(leaf("self"));
    }
    if let Some(x) = (e.tag == "seq").then(|| e.kids.clone()) {
        v.extend(x);
    } else {
        v.push(e);
    }
    match after {
        "nil\n" => v.push(leaf("nil")),
        "\nfoo(2)\n" => v.push(fcall("foo", vec![int(2)])),
        _ => {}
    }
    // The end of the text may serve as the last line end.
    if after.is_empty() && c.rng.p(1, 6) {
        src.pop();
    }
    expect_tree(c, &src, &seq(v));
}

fn c11_program(c: &mut Case) {
    let f = Feat {
        num: 3,
        strs: 2,
        istr: 2,
        here: 16,
        var: 6,
        array: 3,
        hash: 3,
        index: 2,
        mcall: 5,
        fcall: 6,
        block: 3,
        lambda: 1,
        paren: 2,
        begin: 1,
        binop: 4,
        cmp: 1,
        ternary: 1,
        stmt_assign: 5,
        stmt_massign: 2,
        stmt_opassign: 1,
        cmd: 8,
        modifier: 3,
        control: 2,
        loops: 2,
        def: 2,
        class: 1,
        jump: 1,
        ..Feat::base()
    };
    focus(c, f, &[4, 8, 16, 30], 3, &[0, 20, 60], TREE_TABLE);
}

/// Names set in an interpolation exist afterwards, and outer ones inside.
fn c11_names(c: &mut Case) {
    let q = c.rng.s(&["", "\"", "-", "`"]);
    let (start, cmd) = match q {
        "" => ("<<A".to_string(), false),
        "-" => ("<<-A".to_string(), false),
        "`" => ("<<`A`".to_string(), true),
        q => (format!("<<{}A{}", q, q), false),
    };
    let w = |x: T| if cmd { t("cmd", vec![x]) } else { x };
    let n = c.rng.s(&["q", "été", "foo_1", "_z"]);
    let lv = |d: usize| leaf(format!("lvar:{}:{}", d, n));
    let set = asg(n, int(1));
    match c.rng.below(6) {
        0 => {
            c.hit("names:set");
            let src = format!("foo({})\na #{{{} = 1}}\nA\n{}\n", start, n, n);
            let h = w(t("istr", vec![st("a "), set, st("\n")]));
            expect_tree(c, &src, &seq(vec![fcall("foo", vec![h]), lv(0)]));
        }
        1 => {
            c.hit("names:get");
            let src = format!("{} = 1\nfoo {}\n#{{{}}}\nA\n", n, start, n);
            let h = w(t("istr", vec![lv(0), st("\n")]));
            expect_tree(c, &src, &seq(vec![set, fcall("foo", vec![h])]));
        }
        2 => {
            // Through a block, on the same line, and afterwards.
            c.hit("names:get");
            let src = format!("{} = 1\nfoo {{ {} }}\n#{{{}}}\nA\n{}\n", n, start, n, n);
            let h = w(t("istr", vec![lv(1), st("\n")]));
            let b = t("blk", vec![t("lambda", vec![t("info", vec![t("params", vec![]), leaf("lv[]kw[]kr-b-f-n-"), h])])]);
            expect_tree(c, &src, &seq(vec![set, fcall("foo", vec![b]), lv(0)]));
        }
        3 => {
            // Set in a block: unknown after it.
            c.hit("names:set");
            let src = format!("foo {{ {} }}\n#{{{} = 1}}\nA\n{}\n", start, n, n);
            let h = w(t("istr", vec![set, st("\n")]));
            let b = t("blk", vec![t("lambda", vec![t("info", vec![t("params", vec![]), leaf(format!("lv[{}]kw[]kr-b-f-n-", n)), h])])]);
            expect_tree(c, &src, &seq(vec![fcall("foo", vec![b]), leaf(format!("call:{}", n))]));
        }
        4 => {
            // The rest of the line sees it.
            c.hit("names:set");
            let src = format!("foo({}, {})\n#{{{} = 1}}\nA\n", start, n, n);
            let h = w(t("istr", vec![set, st("\n")]));
            expect_tree(c, &src, &fcall("foo", vec![h, lv(0)]));
        }
        _ => {
            // The second one sees the names of the first.
            c.hit("names:get");
            let src = format!("foo({}, <<B)\n#{{{} = 1}}\nA\n#{{{}}}\nB\n", start, n, n);
            let h = w(t("istr", vec![set, st("\n")]));
            let h2 = t("istr", vec![lv(0), st("\n")]);
            expect_tree(c, &src, &fcall("foo", vec![h, h2]));
        }
    }
}

fn c11_shift(c: &mut Case) {
    // After an operand `<<` is a shift.
    let (x, e) = match c.rng.below(12) {
        0 => ("1", int(1)),
        1 => ("\"a\"", st("a")),
        2 => ("@a", leaf("ivar:@a")),
        3 => ("$a", leaf("gvar:$a")),
        4 => ("[]", array(vec![])),
        5 => ("(1)", int(1)),
        6 => ("foo()", leaf("call:foo")),
        7 => ("self", leaf("self")),
        8 => ("nil", leaf("nil")),
        9 => (":a", s("a")),
        10 => ("{}", hash(vec![])),
        _ => ("1.5", leaf(flt(1.5))),
    };
    let op = c.rng.s(&["<<", " << ", "<< ", " <<"]);
    let (y, f) = match c.rng.below(4) {
        0 => ("A", leaf("const:A")),
        1 => ("@b", leaf("ivar:@b")),
        2 => ("2", int(2)),
        _ => ("(3)", int(3)),
    };
    if x == "{}" {
        return;
    }
    match c.rng.below(4) {
        0 => {
            expect_placed_stmt(c, &format!("{}{}{}", x, op, y), bin("<<", e, f));
        }
        1 => {
            // A local variable is an operand, whatever the spaces.
            let src = format!("q = 1\nq{}{}", op, y);
            expect_tree(c, &src, &seq(vec![asg("q", int(1)), bin("<<", leaf("lvar:0:q"), f)]));
        }
        2 => {
            // An unknown name takes a here-document.
            let src = c.rng.s(&["foo <<A\nb\nA\n", "foo <<-A\nb\n A\n", "foo <<'A'\nb\nA\n", "foo <<\"A\"\nb\nA\n", "foo(<<A)\nb\nA\n"]);
            expect_tree(c, src, &fcall("foo", vec![st("b\n")]));
        }
        _ => {
            let src = c.rng.s(&["class << self\nend\n", "class <<self\nend\n", "class << self; end"]);
            expect_tree(c, src, &t("sclass", vec![leaf("self"), t("info", vec![t("params", vec![]), leaf("lv[]kw[]kr-b-f-n-"), nothing()])]));
        }
    }
}

/// At a place which takes any expression.
fn expect_placed_stmt(c: &mut Case, text: &str, e: T) {
    let p = loop {
        let p = place(c);
        if !["receiver", "not", "splat", "plus", "plus-left", "eq", "ternary-cond"].contains(&p.name) {
            break p;
        }
    };
    expect_tree(c, &at(p, text), &(p.t)(e));
}

pub fn c11_invalid(c: &mut Case) {
    let id = *c.rng.pick(&IDS[..9]);
    let body = c.rng.s(&["", "a\n", "a\n\nb\n", "  x\n"]);
    let src = match c.rng.below(12) {
        0 => format!("<<{}\n{}", id, body),
        1 => format!("foo(<<{})\n{}", id, body),
        2 => format!("<<{}\n{} {}\n", id, body, id),
        3 => format!("<<{}\n{}{} \n", id, body, id),
        4 => format!("<<-{}\n{}  {}x\n", id, body, id),
        5 => format!("<<\"{}\n{}{}\n", id, body, id),
        6 => format!("<<'{}\n{}{}\n", id, body, id),
        7 => format!("foo(<<{}\n{}{}\n", id, body, id),
        8 => format!("[<<{}, <<B_\n{}{}\nB_\n", id, body, id),
        9 => format!("foo(<<{}, <<B_)\n{}{}\nB\n", id, body, id),
        10 => format!("<<{}\n#{{1\n{}\n", id, id),
        _ => format!("foo(<<{} 1)\n{}{}\n", id, body, id),
    };
    if expect_reject(c, &src, "the here-document or its line is incomplete") {
        c.hit("rejected");
    }
}

// ---- C12 ---------------------------------------------------------------------

pub fn c12() -> Check {
    Check {
        id: "C12",
        rule: "Random programs dense in regular expression literals of every piece, flag and delimiter, with interpolation and the extended form (program); single literals of many pieces (pattern); what depends on standing in a class, after brackets, classes and interpolations (nested); every pair of a left context and a slash or percent sign with every spacing (position); malformed literals and flags (invalid). Non-trivial: the pattern and flags were compared or the text had to be rejected; distinct by text.",
        modes: vec![
            Mode { name: "program", quick: 200_000, thorough: 2_000_000, f: c12_program },
            Mode { name: "pattern", quick: 200_000, thorough: 2_000_000, f: c12_pattern },
            Mode { name: "position", quick: 48_000, thorough: 200_000, f: c12_position },
            Mode { name: "free", quick: 60_000, thorough: 600_000, f: c12_free },
            Mode { name: "nested", quick: 60_000, thorough: 600_000, f: c12_nested },
            Mode { name: "escapes", quick: 2_048, thorough: 2_048, f: c12_escapes },
            Mode { name: "flags", quick: 16_000, thorough: 50_000, f: c12_flags },
            Mode { name: "invalid", quick: 16_000, thorough: 50_000, f: c12_invalid },
        ],
        assumptions: &["the documented translations of escapes and flags (README and regex engine): \\s, \\e, \\h kept or translated as listed in DESIGN.md"],
        must: &["regex", "regex-%r", "regex-%r-nested", "regex-x", "regex-interp", "position:division", "position:regex", "position:percent", "position:modulo", "rejected", "free:comment", "free:class", "free:interp", "free:comment-interp", "nested:after-bracket", "nested:after-interp", "nested:in-class", "nested:class-interp"],
    }
}

fn c12_program(c: &mut Case) {
    let f = Feat {
        num: 2,
        istr: 2,
        regex: 24,
        var: 8,
        gvar: 1,
        array: 3,
        hash: 2,
        index: 2,
        mcall: 4,
        fcall: 5,
        block: 2,
        paren: 2,
        binop: 8,
        cmp: 4,
        logic: 2,
        ternary: 2,
        stmt_assign: 4,
        cmd: 5,
        modifier: 2,
        control: 2,
        andor: 1,
        jump: 1,
        ..Feat::base()
    };
    focus(c, f, &[4, 8, 16, 30], 3, &[0, 30, 80], TREE);
}

fn c12_pattern(c: &mut Case) {
    let f = Feat { num: 1, var: 1, regex: 1, istr: c.rng.below(2), ..Feat::base() };
    let mut g = gen(c, f, 4);
    let e = g.regex();
    let st = style(c, &[0]);
    judge(c, &mut g, e, st, TREE);
}

/// Blanks and comments of the extended form, around interpolations and classes.
/// What is interpolated in a comment is not judged.
fn c12_free(c: &mut Case) {
    let (mut src, mut v) = (String::new(), vec![]);
    let mut text = String::new();
    let flush = |text: &mut String, v: &mut Vec<T>| {
        v.push(st(text));
        text.clear();
    };
    let n = 1 + c.rng.below(12);
    for _ in 0..n {
        match c.rng.below(9) {
            0 | 1 => {
                // A comment to the end of the line.
                c.hit("free:comment");
                src.push('#');
                for _ in 0..c.rng.below(5) {
                    let x = c.rng.s(&[" ", "a", " b c", "[", "]", "(", "é", "\\d", "#", "\\/", "\\\\", "\t", "=", "'", "\"", "x{2}", "# ", "\\#"]);
                    // No interpolation by accident.
                    src.push_str(x);
                    if c.rng.p(1, 5) {
                        c.hit("free:comment-interp");
                        src.push_str(c.rng.s(&[" #{cmt}", " #{cmt} ", " #{ cmt }"]));
                    }
                }
                src.push_str(c.rng.s(&["\n", " \n"]));
            }
            2 => src.push_str(c.rng.s(&[" ", "  ", "\t", "\n", "\n\n", " \n ", "\u{b}", "\u{c}"])),
            3 => {
                c.hit("free:interp");
                flush(&mut text, &mut v);
                let k = c.rng.below(3);
                src.push_str(["#{z0}", "#{ z0 }", "#{z0\n}"][k]);
                v.push(leaf("call:z0"));
            }
            4 | 5 => {
                // Everything in a class is kept, over interpolations too.
                c.hit("free:class");
                src.push('[');
                text.push('[');
                let mut depth = 1;
                for _ in 0..1 + c.rng.below(6) {
                    match c.rng.below(8) {
                        0 if depth < 4 => {
                            src.push('[');
                            text.push('[');
                            depth += 1;
                        }
                        1 if depth > 1 => {
                            src.push_str("z]");
                            text.push_str("z]");
                            depth -= 1;
                        }
                        2 => {
                            flush(&mut text, &mut v);
                            src.push_str("#{z1}");
                            v.push(leaf("call:z1"));
                        }
                        _ => {
                            let x = c.rng.s(&["a", " ", "  ", "# ", "#a", "\\]", "\\[", "\\d", "\\\\", "\\ ", "\t", "é", "\\#", "a-z", "[:alpha:]", "\\w", "\\/"]);
                            src.push_str(x);
                            text.push_str(x);
                        }
                    }
                }
                for _ in 0..depth {
                    src.push_str("y]");
                    text.push_str("y]");
                }
            }
            6 => {
                // An escaped blank or sign is kept.
                let x = c.rng.s(&["\\ ", "\\#", "\\[", "\\]", "\\\\", "\\/", "\\d", "\\t", "\\n"]);
                src.push_str(x);
                text.push_str(x);
            }
            _ => {
                let x = c.rng.s(&["a", "b+", "(c|d)", "é", "日", "^", "$", "x*?", "(?:e)", "f{2}", "]", "\"", "=", "-"]);
                src.push_str(x);
                text.push_str(x);
            }
        }
    }
    flush(&mut text, &mut v);
    let v = merge_text(v);
    let src = format!("z0 = /{}/{}", src, c.rng.s(&["x", "x", "xo", "ox"]));
    let src = src.replacen("z0 = /", "z9 = /", 1);
    c.nontrivial(&src);
    let Some(r) = expect_accept(c, &src) else { return };
    let got = norm(&r.node);
    let Some(re) = got.kids.get(1).and_then(|r| r.kids.first()).filter(|x| x.tag.starts_with("regex")) else {
        return c.fail(&src, format!("no regular expression: {}", got));
    };
    let kids = merge_text(re.kids.iter().filter(|k| k.tag != "call:cmt").cloned().collect());
    let (a, b) = (t("re", v), t("re", kids));
    if let Some(d) = a.diff(&b, false) {
        c.fail(&src, format!("without the comments: {}", d));
    }
}

/// What depends on standing in a class, in and after nested classes, brackets
/// outside of classes and interpolations.
fn c12_nested(c: &mut Case) {
    let (mut src, mut text, mut v) = (String::new(), String::new(), vec![]);
    let (mut depth, mut odd, mut interp) = (0, false, false);
    let x = c.rng.p(1, 4);
    for _ in 0..2 + c.rng.below(14) {
        match c.rng.below(12) {
            0 | 1 if depth < 4 => {
                let a = c.rng.s(&["[a", "[^a", "[\\]", "[&", "[-", "[é"]);
                src.push_str(a);
                text.push_str(a);
                depth += 1;
            }
            2 | 3 => {
                if depth == 0 {
                    odd = true;
                } else {
                    // Not the first in a class.
                    src.push('z');
                    text.push('z');
                    depth -= 1;
                }
                src.push(']');
                text.push(']');
            }
            4 | 5 => {
                if depth > 0 {
                    c.hit("nested:class-interp");
                }
                interp = true;
                let (a, k) = match c.rng.below(4) {
                    0 => ("#{z0}", leaf("call:z0")),
                    1 => ("#@z1", leaf("ivar:@z1")),
                    2 => ("#$z2", leaf("gvar:$z2")),
                    _ => ("#{z0[1]}", t("index", vec![leaf("call:z0"), int(1)])),
                };
                src.push_str(a);
                // The name of a variable ends.
                src.push('-');
                v.push(st(&text));
                text = "-".into();
                v.push(k);
            }
            6 | 7 | 8 => {
                src.push_str("\\b");
                text.push_str(if depth > 0 { "\\x08" } else { "\\b" });
                if depth > 0 {
                    c.hit("nested:in-class");
                } else {
                    if odd {
                        c.hit("nested:after-bracket");
                    }
                    if interp {
                        c.hit("nested:after-interp");
                    }
                }
            }
            _ => {
                let (a, b) = *c.rng.pick(&[("a", "a"), ("\\]", "\\]"), ("\\[", "\\["), ("\\\\", "\\\\"), ("\\s", "[[:space:]]"), ("\\d", "\\d"), ("\\/", "\\/"), ("日", "日"), ("(b)", "(b)"), ("\\x5d", "\\x5d"), ("\\133", "\\x5b"), ("\\B", "\\B"), ("\\e", "\\x1b"), ("c", "c")]);
                src.push_str(a);
                text.push_str(b);
            }
        }
    }
    for _ in 0..depth {
        src.push_str("y]");
        text.push_str("y]");
    }
    if c.rng.coin() {
        src.push_str("\\b");
        text.push_str("\\b");
    }
    v.push(st(&text));
    let v = merge_text(v);
    let konst = if interp { "" } else { "!" };
    expect_placed(c, &format!("/{}/{}", src, if x { "x" } else { "" }), t(format!("regex{}:m", konst), v));
}

fn re(p: &str) -> T {
    t("regex!:m", vec![st(p)])
}

fn c12_position(c: &mut Case) {
    let pct = c.rng.coin();
    // Left contexts where an operand is expected.
    let operand: &[(&str, &str, fn(T) -> T)] = &[
        ("", "", |e| e),
        ("\n", "", |e| e),
        (";", "", |e| e),
        ("(", ")", |e| e),
        ("[", "]", |e| t("array", vec![e])),
        ("[1, ", "]", |e| t("array", vec![int(1), e])),
        ("[1,", "]", |e| t("array", vec![int(1), e])),
        ("foo(", ")", |e| fcall("foo", vec![e])),
        ("foo(1, ", ")", |e| fcall("foo", vec![int(1), e])),
        ("foo ", "", |e| fcall("foo", vec![e])),
        ("self.foo ", "", |e| mcall("foo", leaf("self"), vec![e])),
        ("foo? ", "", |e| fcall("foo?", vec![e])),
        ("foo! ", "", |e| fcall("foo!", vec![e])),
        ("foo 1, ", "", |e| fcall("foo", vec![int(1), e])),
        ("foo k: ", "", |e| fcall("foo", vec![t("kw:k", vec![e])])),
        ("q = ", "", |e| asg("q", e)),
        ("q=", "", |e| asg("q", e)),
        ("q ||= ", "", |e| bin("||", leaf("lvar:0:q"), asg("q", e))),
        ("1 + ", "", |e| bin("+", int(1), e)),
        ("1 == ", "", |e| bin("==", int(1), e)),
        ("1 =~ ", "", |e| bin("=~", int(1), e)),
        ("nil && ", "", |e| bin("&&", leaf("nil"), e)),
        ("nil and ", "", |e| bin("&&", leaf("nil"), e)),
        ("nil or ", "", |e| bin("||", leaf("nil"), e)),
        ("!", "", |e| t("un:!", vec![e])),
        ("nil ? ", " : 1", |e| t("if", vec![leaf("nil"), e, int(1)])),
        ("nil ? 1 : ", "", |e| t("if", vec![leaf("nil"), int(1), e])),
        ("if ", " then 1 end", |e| t("if", vec![e, int(1), nothing()])),
        ("unless ", " then 1 end", |e| t("if", vec![e, nothing(), int(1)])),
        ("if nil then ", " end", |e| t("if", vec![leaf("nil"), e, nothing()])),
        ("if nil\n", "\nend", |e| t("if", vec![leaf("nil"), e, nothing()])),
        ("if nil then 1 else ", " end", |e| t("if", vec![leaf("nil"), int(1), e])),
        ("case nil when ", " then 1 end", |e| t("case", vec![leaf("nil"), t("when", vec![e, int(1)]), nothing()])),
        ("case nil when 1, ", " then 1 end", |e| t("case", vec![leaf("nil"), t("when", vec![int(1), e, int(1)]), nothing()])),
        ("case ", " when 2 then 1 end", |e| t("case", vec![e, t("when", vec![int(2), int(1)]), nothing()])),
        ("1 if ", "", |e| t("if", vec![e, int(1), nothing()])),
        ("1 unless ", "", |e| t("if", vec![e, nothing(), int(1)])),
        ("return ", "", |e| t("return", vec![e])),
        ("begin ", " end", |e| e),
        ("{1 => ", "}.m", |e| mcall("m", t("hash", vec![int(1), e]), vec![])),
        ("{k: ", "}.m", |e| mcall("m", t("hash", vec![s("k"), e]), vec![])),
        ("\"#{", "}\"", |e| t("istr", vec![e])),
        ("self[", "]", |e| t("index", vec![leaf("self"), e])),
        ("foo(*", ")", |e| t("fcall:foo", vec![t("args*", vec![t("splat", vec![e])])])),
    ];
    let dividend: &[(&str, fn() -> T)] = &[
        ("1", || int(1)),
        ("1.5", || leaf(flt(1.5))),
        ("@a", || leaf("ivar:@a")),
        ("@@a", || leaf("cvar:@@a")),
        ("$a", || leaf("gvar:$a")),
        ("$-w", || leaf("gvar:$-w")),
        ("foo[1]", || t("index", vec![leaf("call:foo"), int(1)])),
        ("\"s\"", || st("s")),
        ("'s'", || st("s")),
        (":s", || s("s")),
        ("self", || leaf("self")),
        ("nil", || leaf("nil")),
        ("true", || leaf("true")),
        ("(1)", || int(1)),
        ("foo(2)", || fcall("foo", vec![int(2)])),
        ("foo()", || leaf("call:foo")),
        ("[1]", || array(vec![int(1)])),
        ("self[1]", || t("index", vec![leaf("self"), int(1)])),
        ("q", || leaf("lvar:0:q")),
        ("begin 1 end", || int(1)),
        ("if nil then 1 end", || t("if", vec![leaf("nil"), int(1), nothing()])),
        ("%w(a b)", || array(vec![st("a"), st("b")])),
        ("/r/", || re("r")),
        ("foo { 1 }", || fcall("foo", vec![t("blk", vec![t("lambda", vec![t("info", vec![t("params", vec![]), leaf("lv[]kw[]kr-b-f-n-"), int(1)])])])])),
        ("?a", || st("a")),
        ("self.foo()", || mcall("foo", leaf("self"), vec![])),
    ];
    if c.rng.coin() {
        let (pre, post, f) = *c.rng.pick(operand);
        let cmd = pre.starts_with("foo ") || pre.starts_with("self.foo ") || pre.starts_with("foo? ") || pre.starts_with("foo! ");
        let (text, e) = if pct {
            c.hit("position:percent");
            match c.rng.below(6) {
                0 => ("%(a)", st("a")),
                1 => ("%q[a]", st("a")),
                2 => ("%w(a b)", array(vec![st("a"), st("b")])),
                3 => ("%i<a b>", array(vec![s("a"), s("b")])),
                4 => ("%r{a/b}i", t("regex!:im", vec![st("a/b")])),
                _ => ("%Q{a}", st("a")),
            }
        } else {
            c.hit("position:regex");
            match c.rng.below(if cmd { 4 } else { 6 }) {
                0 => ("/a/", re("a")),
                1 => ("/a b/", re("a b")),
                2 => ("/(x)[\\/]y+/", re("(x)[\\/]y+")),
                3 => ("/a/.m", mcall("m", re("a"), vec![])),
                4 => ("/ a/", re(" a")),
                _ => ("/=a/", re("=a")),
            }
        };
        let sp = if pre.ends_with([' ', '\n', '(', '[', ',', '=', '{', ';']) && !cmd { c.rng.s(&["", " "]) } else { "" };
        let src = format!("{}{}{}{}", pre, sp, text, post);
        let mut e = f(e);
        // Arrays of literals are constants.
        fn fix(e: &mut T) {
            e.kids.iter_mut().for_each(fix);
            let k = std::mem::take(&mut e.kids);
            match e.tag.as_str() {
                "array" => *e = array(k),
                "hash" => *e = hash(k),
                _ => e.kids = k,
            }
        }
        fix(&mut e);
        if src.starts_with("\"#{%(a)") || e.tag == "istr" {
            e = t("istr", merge_text(e.kids));
        }
        expect_tree(c, &src, &e);
    } else {
        let (x, f) = *c.rng.pick(dividend);
        let op = if pct { "%" } else { "/" };
        c.hit(if pct { "position:modulo" } else { "position:division" });
        let (l, r) = *c.rng.pick(&[("", ""), (" ", " "), ("", " "), (" ", "")]);
        let (y, g): (&str, T) = match c.rng.below(5) {
            0 => ("2", int(2)),
            1 => ("@b", leaf("ivar:@b")),
            2 => ("(3)", int(3)),
            3 => ("q", leaf("lvar:0:q")),
            _ => ("foo(4)", fcall("foo", vec![int(4)])),
        };
        // The same operator again, so that a misread literal would end.
        let (z, h) = *c.rng.pick(&[("", 0), ("", 0), (" / 5", 1), ("/5", 1), (" % 5", 2)]);
        let mut e = bin(op, f(), g);
        match h {
            1 => e = bin("/", e, int(5)),
            2 => e = bin("%", e, int(5)),
            _ => {}
        }
        let src = format!("q = 1\n{}{}{}{}{}{}", x, l, op, r, y, z);
        // `foo { }` and compounds at the start of a statement are fine.
        expect_tree(c, &src, &seq(vec![asg("q", int(1)), e]));
    }
}

/// Every octal and hexadecimal escape, in and outside of a class.
fn c12_escapes(c: &mut Case) {
    let v = (c.idx % 256) as u32;
    let k = c.idx / 256;
    let (text, val) = match k {
        0 => (format!("\\x{:02x}", v), format!("\\x{:02x}", v)),
        1 => (format!("\\x{:02X}z", v), format!("\\x{:02x}z", v)),
        2 => (format!("[\\x{:02x}]", v), format!("[\\x{:02x}]", v)),
        3 => (format!("\\{:03o}", v), format!("\\x{:02x}", v)),
        4 => (format!("a\\{:03o}1", v), format!("a\\x{:02x}1", v)),
        5 if v < 64 => (format!("\\0{:o}z", v), format!("\\x{:02x}z", v)),
        5 => (format!("[\\{:03o}-\\{:03o}]", v, v), format!("[\\x{:02x}-\\x{:02x}]", v, v)),
        6 if v < 16 => (format!("\\x{:x}z", v), format!("\\x{:02x}z", v)),
        6 => (format!("#{{}}\\{:03o}", v), format!("\\x{:02x}", v)),
        _ => (format!("\\u{:04x}", 0x20 + v), format!("\\u{:04x}", 0x20 + v)),
    };
    if k == 6 && v >= 16 {
        let e = t("regex:m", vec![nothing(), st(&val)]);
        expect_tree(c, &format!("/{}/", text), &e);
        return;
    }
    expect_placed(c, &format!("/{}/", text), re(&val));
}

fn c12_flags(c: &mut Case) {
    let mut fl: Vec<&str> = vec![];
    for f in ["i", "m", "x", "o", "u"] {
        if c.rng.coin() {
            fl.push(f);
        }
    }
    c.rng.shuffle(&mut fl);
    let x = fl.contains(&"x");
    let mut e = String::new();
    if fl.contains(&"i") {
        e.push('i');
    }
    e.push('m');
    if fl.contains(&"m") {
        e.push('s');
    }
    let (o, cl) = *c.rng.pick(&[("/", "/"), ("%r{", "}"), ("%r(", ")"), ("%r!", "!"), ("%r[", "]"), ("%r<", ">")]);
    let text = "a b # c";
    let (text, want) = if x { (text, "ab".to_string()) } else { (text, text.to_string()) };
    let after = c.rng.s(&["", ".m", " if nil", "\nnil", ", 1"]);
    let src = format!("{}{}{}{}{}", o, text, cl, fl.concat(), if after == ", 1" { "" } else { after });
    let r = t(format!("regex!:{}", e), vec![st(&want)]);
    let e = match after {
        ".m" => mcall("m", r, vec![]),
        " if nil" => t("if", vec![leaf("nil"), r, nothing()]),
        "\nnil" => seq(vec![r, leaf("nil")]),
        _ => r,
    };
    expect_tree(c, &src, &e);
}

pub fn c12_invalid(c: &mut Case) {
    let s = match c.rng.below(8) {
        0 => c.rng.s(&["/a", "/a\\/", "/#{1}", "/a#{1}b", "/\\"]).to_string(),
        1 => c.rng.s(&["%r{a", "%r(a(b)", "%r/a", "%r<a\\>", "%r[[a]"]).to_string(),
        2 => format!("/a/{}", c.rng.s(&["q", "z", "a", "iz", "xq", "e1", "k"])),
        3 => format!("/a#{{1}}b/{}", c.rng.s(&["q", "z", "ab"])),
        4 => format!("%r{{a}}{}", c.rng.s(&["q", "z", "ab"])),
        5 => c.rng.s(&["/#{/", "/#{1/", "/#{)}/", "/#{1 2}/", "/#{end}/"]).to_string(),
        6 => c.rng.s(&["/a/ /b/", "/a/ 1", "/a/ @b", "/a/ \"s\""]).to_string(),
        _ => c.rng.s(&["1 /", "1 / / 2", "q = 1; q /2/", "1 /a/", "self /a/", "@a /b/"]).to_string(),
    };
    if expect_reject(c, &s, "not a regular expression, or an operand is missing") {
        c.hit("rejected");
    }
}

// ---- C13 ---------------------------------------------------------------------

pub fn c13() -> Check {
    Check {
        id: "C13",
        rule: "Random programs dense in arrays, hashes, ranges and indexes of every element (program); every element kind alone, nested and next to others, as an element, key, value and range end, with the constant mark (elements); every key form in order (keys); separators left out or doubled (invalid). Non-trivial: elements, order and constness were compared or the text had to be rejected; distinct by text.",
        modes: vec![
            Mode { name: "program", quick: 240_000, thorough: 2_500_000, f: c13_program },
            Mode { name: "elements", quick: 160_000, thorough: 1_000_000, f: c13_elements },
            Mode { name: "keys", quick: 80_000, thorough: 500_000, f: c13_keys },
            Mode { name: "invalid", quick: 40_000, thorough: 200_000, f: c13_invalid },
        ],
        assumptions: &["a simple literal is nil, true, false, an integer, float, symbol or string without interpolation"],
        must: &["array", "hash", "range", "index", "const-array", "dyn-array", "const-hash", "dyn-hash", "const-range", "dyn-range", "rejected"],
    }
}

fn c13_program(c: &mut Case) {
    let f = Feat {
        num: 6,
        neg: 3,
        strs: 3,
        istr: 1,
        here: 1,
        regex: 1,
        sym: 4,
        pct: 2,
        ch: 1,
        var: 6,
        gvar: 1,
        cst: 2,
        kwlit: 4,
        array: 14,
        hash: 14,
        index: 8,
        mcall: 3,
        fcall: 4,
        block: 2,
        lambda: 1,
        paren: 3,
        begin: 1,
        control: 1,
        unop: 2,
        binop: 3,
        cmp: 1,
        range: 8,
        ternary: 2,
        assign_e: 4,
        stmt_assign: 5,
        stmt_massign: 2,
        stmt_opassign: 2,
        cmd: 4,
        modifier: 1,
        jump: 1,
        ..Feat::base()
    };
    focus(c, f, &[4, 8, 16, 30, 60], 3, &[0, 20, 60, 100], TREE);
}

/// Element, its tree.
fn element(c: &mut Case, depth: usize) -> (String, T) {
    let simple: &[(&str, &str)] = &[
        ("1", "int:1"),
        ("-1", "int:-1"),
        ("0x1f", "int:31"),
        ("99999999999999999999", "int:99999999999999999999"),
        ("nil", "nil"),
        ("true", "true"),
        ("false", "false"),
        (":a", "sym:\"a\""),
        (":\"a b\"", "sym:\"a b\""),
        (":+", "sym:\"+\""),
        ("1.5", ""),
        ("\"s\"", ""),
        ("'s'", ""),
        ("%q(s)", ""),
        ("?s", ""),
        ("\"s\" 't'", ""),
        ("self", "self"),
        ("@a", "ivar:@a"),
        ("$a", "gvar:$a"),
        ("@@a", "cvar:@@a"),
        ("A", "const:A"),
        ("A::B", "const:A::B"),
        ("foo", "call:foo"),
        ("2i", "imag:int:2"),
    ];
    match c.rng.below(if depth > 2 { 2 } else { 10 }) {
        0..=4 => {
            let (s, tag) = *c.rng.pick(simple);
            let e = match s {
                "1.5" => leaf(flt(1.5)),
                "\"s\" 't'" => st("st"),
                _ if tag.is_empty() => st("s"),
                _ => leaf(tag),
            };
            (s.to_string(), e)
        }
        5 => {
            let (v, e): (Vec<String>, Vec<T>) = (0..c.rng.below(4)).map(|_| element(c, depth + 1)).unzip();
            let e = array(e);
            c.hit(if e.tag == "array!" { "const-array" } else { "dyn-array" });
            (format!("[{}]", v.join(c.rng.s(&[",", ", ", " , ", ",\n"]))), e)
        }
        6 => {
            let n = c.rng.below(3);
            let mut v = vec![];
            let mut e = vec![];
            for i in 0..n {
                let (a, b) = element(c, depth + 1);
                if c.rng.coin() {
                    v.push(format!("k{}: {}", i, a));
                    e.push(s(&format!("k{}", i)));
                } else {
                    let (k, kt) = element(c, depth + 1);
                    v.push(format!("{} => {}", k, a));
                    e.push(kt);
                }
                e.push(b);
            }
            let e = hash(e);
            c.hit(if e.tag == "hash!" { "const-hash" } else { "dyn-hash" });
            (format!("{{{}}}", v.join(c.rng.s(&[",", ", ", ",\n"]))), e)
        }
        7 => {
            let ((a, x), (b, y)) = (element(c, 3), element(c, 3));
            let excl = c.rng.coin();
            let e = range(x, y, excl);
            c.hit(if e.tag.ends_with('!') { "const-range" } else { "dyn-range" });
            (format!("({}{}{})", a, if excl { "..." } else { ".." }, b), e)
        }
        8 => {
            let (a, x) = element(c, 3);
            let (b, y) = element(c, 3);
            (format!("{} + {}", a, b), bin("+", x, y))
        }
        _ => {
            let (a, x) = element(c, 3);
            (format!("(q = {})", a), asg("q", x))
        }
    }
}

/// Few or many.
fn count(c: &mut Case, few: usize) -> usize {
    if c.rng.p(1, 8) {
        c.hit("many");
        few + c.rng.below(*[4, 12, 40].get(c.idx as usize % 3).unwrap())
    } else {
        c.rng.below(few)
    }
}

/// A literal which does not change.
fn constant(c: &mut Case) -> (String, T) {
    let (a, b) = *c.rng.pick(&[("1", "int:1"), ("-1", "int:-1"), ("nil", "nil"), ("true", "true"), ("false", "false"), (":a", "sym:\"a\""), (":+", "sym:\"+\""), ("0x1f", "int:31"), ("2i", "imag:int:2")]);
    (a.to_string(), leaf(b))
}

/// `foo` as an operand is followed by a separator.
fn c13_elements(c: &mut Case) {
    let n = count(c, 5);
    // Literals, and perhaps something else among them.
    let plain = c.rng.p(1, 3);
    let odd = c.rng.below(n + 2);
    let mut v = vec![];
    let mut e = vec![];
    for i in 0..n {
        if plain && i != odd {
            let (a, x) = constant(c);
            v.push(a);
            e.push(x);
            continue;
        }
        let (a, x) = element(c, 0);
        if c.rng.p(1, 8) {
            // An operator would need parentheses.
            v.push(format!("*({})", a));
            e.push(t("splat", vec![x]));
        } else {
            v.push(a);
            e.push(x);
        }
    }
    let sep = c.rng.s(&[",", ", ", " ,", ",\n", ", # c\n"]);
    let text = v.join(sep);
    let trail = if n > 0 && c.rng.p(1, 4) { c.rng.s(&[",", ", ", ",\n"]) } else { "" };
    let pad = c.rng.s(&["", " ", "\n"]);
    match c.rng.below(4) {
        0 if n > 0 => {
            c.hit("index");
            let mut k = vec![leaf("ivar:@x")];
            if e.iter().any(|x| x.tag == "splat") {
                return;
            }
            k.extend(e);
            expect_tree(c, &format!("@x[{}{}{}]", text, trail, pad.replace('\n', " ")), &t("index", k));
        }
        1 if n > 0 => {
            // Several values for one variable.
            let src = format!("q0 = {}\n", text);
            let x = if n == 1 && e[0].tag != "splat" { e.pop().unwrap() } else { array(e) };
            expect_tree(c, &src, &asg("q0", x));
        }
        _ => {
            c.hit("array");
            let e = array(e);
            c.hit(if e.tag == "array!" { "const-array" } else { "dyn-array" });
            let src = format!("[{}{}{}{}]", pad, text, trail, pad);
            let k = c.rng.below(4);
            match k {
                0 => expect_tree(c, &format!("q0 = {}", src), &asg("q0", e)),
                1 => expect_tree(c, &format!("foo({}, {})", src, src), &fcall("foo", vec![e.clone(), e])),
                2 => expect_tree(c, &format!("{}[0]", src), &t("index", vec![e, int(0)])),
                _ => expect_tree(c, &src, &e),
            };
        }
    }
}

const NAMES: &[&str] = &["a", "été", "Foo", "if", "end", "nil", "self", "class", "a1", "_", "true", "do", "and", "not", "x_y", "while", "then", "return", "yield", "begin", "def", "in", "__FILE__"];

fn c13_keys(c: &mut Case) {
    let n = 1 + count(c, 6);
    let plain = c.rng.p(1, 3);
    let odd = c.rng.below(n + 2);
    let mut v = vec![];
    let mut e = vec![];
    for i in 0..n {
        let (val, x) = if plain && i != odd { constant(c) } else { element(c, 2) };
        let k = if plain && i != odd { c.rng.below(5) } else { c.rng.below(9) };
        let (key, kt) = match k {
            0 | 1 => {
                let n = c.rng.s(NAMES);
                c.hit("key:label");
                (format!("{}:", n), s(n))
            }
            2 => {
                let n = c.rng.s(&["a?", "b!", "nil?", "end!"]);
                c.hit("key:label?");
                (format!("{}:", n), s(n))
            }
            3 => {
                c.hit("key:quoted");
                let (a, b) = *c.rng.pick(&[("\"a b\"", "a b"), ("'it'", "it"), ("\"\"", ""), ("\"\\n\"", "\n"), ("'x-y'", "x-y"), ("\"é\"", "é"), ("'\\n'", "\\n")]);
                (format!("{}:", a), s(b))
            }
            4 => {
                let n = c.rng.s(NAMES);
                c.hit("key:symbol");
                // `=` belongs to the arrow or to the name.
                match c.rng.below(6) {
                    0 => (format!(":{}=>", n), s(n)),
                    1 if !n.ends_with(['?', '!', '=']) => (format!(":{}==>", n), s(&format!("{}=", n))),
                    _ => (format!(":{} =>", n), s(n)),
                }
            }
            _ => {
                c.hit("key:any");
                let (a, b) = element(c, 2);
                (format!("{} =>", a), b)
            }
        };
        v.push(format!("{}{}{}", key, c.rng.s(&[" ", "  ", "\n"]), val));
        e.push(kt);
        e.push(x);
    }
    c.hit("hash");
    let sep = c.rng.s(&[",", ", ", ",\n", " , "]);
    let trail = if c.rng.p(1, 4) { c.rng.s(&[",", ",\n"]) } else { "" };
    let pad = c.rng.s(&["", " ", "\n"]);
    let src = format!("{{{}{}{}{}}}", pad, v.join(sep), trail, pad);
    let e = hash(e);
    c.hit(if e.tag == "hash!" { "const-hash" } else { "dyn-hash" });
    match c.rng.below(4) {
        0 => expect_tree(c, &format!("q0 = {}", src), &asg("q0", e)),
        1 => expect_tree(c, &format!("foo({}, 1)", src), &fcall("foo", vec![e, int(1)])),
        2 => expect_tree(c, &format!("[{}, {}]", src, src), &array(vec![e.clone(), e])),
        _ => expect_tree(c, &format!("({})", src), &e),
    };
}

pub fn c13_invalid(c: &mut Case) {
    let s = match c.rng.below(6) {
        0 => c.rng.s(&["[1 2]", "[1,, 2]", "[, 1]", "[,]", "[1, 2", "[1; 2]", "[1, 2}", "[1, 2)", "[*]", "[1\n2]", "[[1]", "[1]]", "[1 => ]", "[:a :b]", "[1, *]"]).to_string(),
        1 => c.rng.s(&["{a: 1 b: 2}", "{a: 1,, b: 2}", "{, a: 1}", "{,}", "{a: 1", "{1 => 2, 3}", "{1 =>}", "{=> 1}", "{1}.m", "{a: 1]", "{a: 1)", "{a: 1; b: 2}", "{1 2}", "{a: 1 => 2}", "{\"a\" 1}", "{a : 1}.m", "{1: 2}", "{@a: 1}"]).to_string(),
        2 => c.rng.s(&["1..2..3", "1...2..3", "(1..2", "1..)", "[1..2..3]", "(1..2..3)"]).to_string(),
        3 => c.rng.s(&["@x[", "@x[1", "@x[1 2]", "@x[1,,2]", "@x[,1]", "@x[1}", "@x[1)"]).to_string(),
        4 => {
            let (a, _) = element(c, 1);
            let (b, _) = element(c, 1);
            // A name or constant before a space and an operand is a command, and strings join.
            if a.starts_with(['f', 'A', '\'', '"', '%', '?', '(']) || b.starts_with(['-', '[', '(', '{', '?', ':', '*', '%', '\'', '"', '/']) || a.contains(" + ") {
                return;
            }
            if c.rng.coin() {
                format!("[{} {}]", a, b)
            } else {
                format!("{{k: {} {}: 1}}", a, "b")
            }
        }
        _ => {
            let (a, _) = element(c, 2);
            let (b, _) = element(c, 2);
            match c.rng.below(4) {
                0 => format!("[{},, {}]", a, b),
                1 => format!("[{}, {}", a, b),
                2 => format!("{{k: {},, j: {}}}.m", a, b),
                _ => format!("{{{} => {}, {}}}.m", a, b, "9"),
            }
        }
    };
    if expect_reject(c, &s, "a separator or bracket is missing or misplaced") {
        c.hit("rejected");
    }
}
