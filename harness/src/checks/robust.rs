//! C01: parsing any text ends, with a tree or an error, in bounded work.
use super::common::*;
use crate::mon::*;
use crate::mutate::*;
use crate::rng::Rng;
use crate::run::*;

pub fn c01() -> Check {
    Check {
        id: "C01",
        rule: "a call of a public parse function returns a result or an error, without a panic, an abort, 20 s of processor time or 2 GB of memory, on generated programs, every prefix and \
               suffix of them, every one-token edit of them, spliced, repeated and random texts and characters, through every entry point; and when a text of a family is doubled in size \
               (repeated units, nested and unfinished constructs, lists, long tokens), the allocated bytes, the number of allocations and the peak grow by no more than the factor four (twice in a row), \
               and the processor time by no more than the factor six when measured again",
        modes: vec![
            Mode { name: "any", quick: 200_000, thorough: 6_000_000, f: any },
            Mode { name: "prefix", quick: 1_500, thorough: 60_000, f: prefix },
            Mode { name: "suffix", quick: 500, thorough: 20_000, f: suffix },
            Mode { name: "edit", quick: 400, thorough: 20_000, f: edit },
            Mode { name: "twice", quick: 2_000, thorough: 100_000, f: twice },
            Mode { name: "repeat", quick: 6_000, thorough: 150_000, f: repeat },
            Mode { name: "nest", quick: 1_500, thorough: 30_000, f: nest },
            Mode { name: "list", quick: 700, thorough: 3_000, f: list },
            Mode { name: "token", quick: 400, thorough: 2_000, f: token },
            Mode { name: "known", quick: 1, thorough: 1, f: known },
        ],
        assumptions: &[
            "nesting is explored to the depth 1024 (a stack of 512 MB is provided); deeper nesting is excepted",
            "processor time is compared only above 40 ms, and only after the factor was seen three times",
        ],
        must: &[
            "text:program", "text:cut", "text:changed", "text:pieces", "text:characters", "entry:program", "entry:eval", "entry:binding", "scale:repeat", "scale:nest", "scale:list", "scale:token",
            "nest:closed", "nest:open", "nest:half", "nest:stray", "prefix", "suffix", "edit",
        ],
    }
}

const NAMES: &[&str] = &["a", "b", "foo", "x", "é", "_1", "q"];

/// Any way to give a text to the parser.
pub fn any_entry(c: &mut Case) -> Entry {
    fn ctx(c: &mut Case) -> Ctx {
        let n = c.rng.below(4);
        Ctx((0..n).map(|_| (c.rng.s(NAMES).to_string(), 1 + c.rng.below(3))).collect())
    }
    let (k, e) = match c.rng.below(6) {
        0..=2 => ("program", Entry::Program),
        3 => ("eval", Entry::Eval(None)),
        4 => ("eval", Entry::Eval(Some(ctx(c)))),
        _ => {
            let n = c.rng.below(4);
            let t = c.rng.coin().then(|| (0..n).map(|_| c.rng.s(NAMES).to_string()).collect());
            let x = c.rng.coin().then(|| ctx(c));
            ("binding", Entry::Binding(t, x))
        }
    };
    c.hit(format!("entry:{}", k));
    e
}

/// The call must return.
fn returns(c: &mut Case, e: &Entry, s: &str) -> bool {
    c.nontrivial(s);
    let o = c.parse_as(e, s, "x.rb");
    let (p, b) = (c.cost.peak.max(0) as u64, c.cost.bytes);
    c.max("peak bytes", p);
    c.max("allocated bytes", b);
    c.max("cpu ms", c.cost.cpu_ns / 1_000_000);
    c.max("text bytes", s.len() as u64);
    if let Obs::Panic(m) = o {
        c.fail_as(e, "x.rb", s, format!("panicked: {}", m));
        return false;
    }
    true
}

fn any(c: &mut Case) {
    let s = any_text(c);
    let e = any_entry(c);
    returns(c, &e, &s);
}

fn prefix(c: &mut Case) {
    let s = program(c, &[4, 10, 20, 30], 3, &[0, 60, 100]).0;
    let e = any_entry(c);
    for (i, _) in s.char_indices() {
        c.hit("prefix");
        if !returns(c, &e, &s[..i]) {
            return;
        }
    }
}

fn suffix(c: &mut Case) {
    let s = program(c, &[4, 10, 20, 30], 3, &[0, 60, 100]).0;
    let e = any_entry(c);
    for (i, _) in s.char_indices() {
        c.hit("suffix");
        if !returns(c, &e, &s[i..]) {
            return;
        }
    }
}

/// Every token deleted, doubled, exchanged with the next one, and replaced by
/// and followed by a piece.
fn edit(c: &mut Case) {
    let s = program(c, &[4, 10, 20], 2, &[0, 60]).0;
    let e = any_entry(c);
    let t = rough(&s);
    let piece = c.rng.s(PIECES);
    for (k, (i, j)) in t.iter().enumerate() {
        let (p, x, q) = (&s[..*i], &s[*i..*j], &s[*j..]);
        let other = c.rng.s(PIECES);
        let mut v = vec![
            format!("{}{}", p, q),
            format!("{}{}{}{}", p, x, x, q),
            format!("{}{}{}", p, other, q),
            format!("{}{}{}", p, piece, q),
            format!("{}{}{}{}", p, x, other, q),
            format!("{}{} {} {}", p, x, piece, q),
        ];
        if let Some((i2, j2)) = t.get(k + 1) {
            v.push(format!("{}{}{}{}", p, &s[*i2..*j2], x, &s[*j2..]));
        }
        for s in v {
            c.hit("edit");
            if !returns(c, &e, &s) {
                return;
            }
        }
    }
}

/// Two changes, then every prefix from the place of the first.
fn twice(c: &mut Case) {
    let s = match c.rng.below(3) {
        0 => soup(&mut c.rng, 16),
        1 => noise(&mut c.rng, 24),
        _ => {
            let s = program(c, &[4, 10], 2, &[0, 60]).0;
            changed(&mut c.rng, &s, "a")
        }
    };
    let e = any_entry(c);
    let n = s.chars().count();
    for (k, (i, _)) in s.char_indices().enumerate() {
        if n - k <= 48 && !returns(c, &e, &s[..i]) {
            return;
        }
    }
}

// ---- growth ------------------------------------------------------------------

/// Texts of doubling size: the work must not grow faster than with the square
/// of the size.
fn grows(c: &mut Case, name: &str, sizes: &[usize], text: &dyn Fn(usize) -> String) {
    c.hit(format!("scale:{}", name));
    let mut last: Option<(usize, Cost)> = None;
    // A single jump says nothing: the smaller text may just be given up early.
    let mut before: Option<String> = None;
    for n in sizes {
        let s = text(*n);
        if !returns(c, &Entry::Program, &s) {
            return;
        }
        let k = c.cost;
        c.hit("doubling");
        if let Some((len, l)) = last {
            // The texts may grow by a little more or less than the factor two.
            let g = (s.len() as f64 / len as f64).max(2.0);
            let f = g * g * 1.12;
            let over = |what: &str, a: f64, b: f64, slack: f64| -> Option<String> {
                if b > a * f + slack {
                    Some(format!("{} grew from {} to {} when the text grew from {} to {} bytes", what, a, b, len, s.len()))
                } else {
                    None
                }
            };
            let bad = over("allocated bytes", l.bytes as f64, k.bytes as f64, 60_000.0)
                .or_else(|| over("allocations", l.allocs as f64, k.allocs as f64, 500.0))
                .or_else(|| over("peak memory", l.peak as f64, k.peak as f64, 60_000.0));
            if let (Some(b), Some(a)) = (&bad, &before) {
                c.fail(&s, format!("{}; {}", a, b));
                return;
            }
            if bad.is_some() {
                c.hit("jump");
            }
            before = bad;
            // Beyond this factor it is not quadratic; measured again, because
            // the machine may be busy.
            let lim = g * g * 1.5;
            if k.cpu_ns > 40_000_000 && k.cpu_ns as f64 > l.cpu_ns as f64 * lim + 20e6 {
                c.hit("measured again");
                let small = text(n / 2);
                let mut a = l.cpu_ns;
                let mut b = k.cpu_ns;
                for _ in 0..3 {
                    c.parse(&small);
                    a = a.max(c.cost.cpu_ns);
                    c.parse(&s);
                    b = b.min(c.cost.cpu_ns);
                }
                if b as f64 > a as f64 * lim + 20e6 {
                    c.fail(
                        &s,
                        format!("processor time grew from {} to {} ms when the text grew from {} to {} bytes", a / 1_000_000, b / 1_000_000, len, s.len()),
                    );
                    return;
                }
            }
        }
        last = Some((s.len(), k));
    }
}

const SMALL: &[usize] = &[8, 16, 32, 64, 128, 256, 512];
const DEEP: &[usize] = &[4, 8, 16, 32, 64, 128, 256];

fn repeat(c: &mut Case) {
    let some = |r: &mut Rng, max: usize| -> String {
        match r.below(4) {
            0 => noise(r, max * 2),
            _ => soup(r, max),
        }
    };
    let unit = some(&mut c.rng, 4);
    let pre = if c.rng.coin() { String::new() } else { some(&mut c.rng, 3) };
    let post = if c.rng.coin() { String::new() } else { some(&mut c.rng, 3) };
    let gap = c.rng.s(&["", "", " ", "\n", ","]);
    let close = c.rng.p(1, 3).then(|| some(&mut c.rng, 2));
    // Units which open something nest.
    grows(c, "repeat", SMALL, &|n| {
        let mut s = pre.clone();
        for _ in 0..n {
            s.push_str(&unit);
            s.push_str(gap);
        }
        s.push_str(&post);
        if let Some(x) = &close {
            for _ in 0..n {
                s.push_str(x);
            }
        }
        s
    });
}

/// What may stand around an expression.
const AROUND: &[(&str, &str)] = &[
    ("(", ")"),
    ("[", "]"),
    ("[1, ", "]"),
    ("[*", "]"),
    ("{a: ", "}"),
    ("{1 => ", "}"),
    ("{\"k\": ", "}"),
    ("{", " => 1}"),
    ("foo(", ")"),
    ("foo(1, ", ")"),
    ("foo(*", ")"),
    ("foo(**", ")"),
    ("foo(&", ")"),
    ("foo(k: ", ")"),
    ("foo ", ""),
    ("foo 1, ", ""),
    ("x.y(", ")"),
    ("x.y ", ""),
    ("x&.y(", ")"),
    ("x.(", ")"),
    ("X::y(", ")"),
    ("x[", "]"),
    ("x[1, ", "]"),
    ("", ".y"),
    ("", "&.y"),
    ("", "::Y"),
    ("", "[1]"),
    ("", ".y(1)"),
    ("", ".y { }"),
    ("", "\n.y"),
    ("", " + 1"),
    ("1 + ", ""),
    ("2 ** ", ""),
    ("-", ""),
    ("- ", ""),
    ("!", ""),
    ("~", ""),
    ("+", ""),
    ("1 - ", ""),
    ("1 == (", ")"),
    ("1..", ""),
    ("1 && ", ""),
    ("1 || ", ""),
    ("1 and ", ""),
    ("x ? ", " : 1"),
    ("x ? 1 : ", ""),
    ("", " ? 1 : 2"),
    ("a = ", ""),
    ("a, b = ", ", 1"),
    ("a += ", ""),
    ("a ||= ", ""),
    ("a[", "] = 1"),
    ("a[", "] += 1"),
    ("a = *", ""),
    ("defined?(", ")"),
    ("defined? ", ""),
    ("\"#{", "}\""),
    ("\"a#{", "}b\""),
    ("`#{", "}`"),
    ("/#{", "}/"),
    ("%Q(#{", "})"),
    (":\"#{", "}\""),
    ("\"a\" \"#{", "}\""),
    ("<<A\n#{", "}\nA\n"),
    ("begin\n", "\nend"),
    ("begin; ", "; rescue; 1; end"),
    ("begin; 1; rescue; ", "; end"),
    ("begin; 1; ensure; ", "; end"),
    ("begin; 1; rescue A => e; ", "; else; 2; end"),
    ("if ", "; 1; end"),
    ("if 1; ", "; end"),
    ("if 1\n2\nelse\n", "\nend"),
    ("if 1\n2\nelsif ", "\n3\nend"),
    ("unless 1 then ", " end"),
    ("while ", "; 1; end"),
    ("while 1 do ", " end"),
    ("until 1\n", "\nend"),
    ("for i in ", "; 1; end"),
    ("for i in 1..2 do ", " end"),
    ("case ", "; when 1; 2; end"),
    ("case 1\nwhen ", "\n2\nend"),
    ("case 1\nwhen 1 then ", "\nend"),
    ("case 1\nwhen 1 then 2\nelse ", "\nend"),
    ("def f\n", "\nend"),
    ("def f(a = ", "); end"),
    ("def f(k: ", "); end"),
    ("def self.f; ", "; end"),
    ("class A\n", "\nend"),
    ("class A < ", "\nend"),
    ("class << ", "\nend"),
    ("module A; ", "; end"),
    ("foo { ", " }"),
    ("foo { |a| ", " }"),
    ("foo { |(a, b), c = 1| ", " }"),
    ("foo do ", " end"),
    ("foo do |a|\n", "\nend"),
    ("-> { ", " }"),
    ("->(a) { ", " }"),
    ("->(a = ", ") { }"),
    ("-> do ", " end"),
    ("return ", ""),
    ("break ", ""),
    ("yield ", ""),
    ("yield(", ")"),
    ("super(", ")"),
    ("super ", ""),
    ("", " if 1"),
    ("1 if ", ""),
    ("", " while 1"),
    ("1 unless ", ""),
    ("", " rescue 1"),
    ("1 rescue ", ""),
    ("# c\n", ""),
    ("1; ", ""),
    ("\\\n", ""),
    ("_1; ", ""),
    ("foo { _1 + ", " }"),
    ("a1 = 1; foo { a1; b1 = 1; ", " }"),
    ("foo { |;a| ", "}"),
    ("alias a b; ", ""),
    ("x.y = ", ""),
    ("A::B = ", ""),
    ("*a, b = ", ""),
    ("(a, b), c = ", ""),
];

fn nest(c: &mut Case) {
    let k = 1 + c.rng.below(3);
    let around: Vec<(&str, &str)> = (0..k).map(|_| *c.rng.pick(AROUND)).collect();
    let core = c.rng.s(&["1", "a", "nil", "\"s\"", "", "foo 1", "x.y", "a, b", "1; 2", "a = 1", "\"", "<<Z", ")", "end", "%", "1 +"]);
    let how = c.rng.below(7);
    c.hit(match how {
        0..=3 => "nest:closed",
        4 => "nest:open",
        5 => "nest:half",
        _ => "nest:stray",
    });
    let paren = c.rng.p(1, 3);
    grows(c, "nest", DEEP, &|n| {
        let mut pre = String::new();
        let mut post = vec![];
        for i in 0..n {
            let (a, b) = around[i % k];
            if paren {
                pre.push('(');
            }
            pre.push_str(a);
            post.push(if paren { format!("{})", b) } else { b.to_string() });
        }
        post.reverse();
        match how {
            0..=3 => format!("{}{}{}", pre, core, post.concat()),
            4 => format!("{}{}", pre, core),
            5 => format!("{}{}{}", pre, core, post[..n / 2].concat()),
            _ => format!("{}{}", core, post.concat()),
        }
    });
}

/// Lists: what comes first, every item (`%` stands for its number), what
/// separates them, and what comes last.
const LISTS: &[(&str, &str, &str, &str)] = &[
    ("", "foo", "\n", ""),
    ("", "1", ";", ""),
    ("", "a% = %", "\n", ""),
    ("", "a% = %", "\n", "\nfoo { a0 + b1 }"),
    ("", "A% = %", "\n", ""),
    ("", "@a% = a%", "\n", ""),
    ("", "# c %", "\n", ""),
    ("", "", "\n", "1"),
    ("", "  ", "", "1"),
    ("", "\t", "\r\n", "1"),
    ("", "\\", "\n", "1"),
    ("", ";", "", "1"),
    ("[", "1", ", ", "]"),
    ("[", "a%", ", ", "]"),
    ("[", "*a", ", ", "]"),
    ("[", "\"s%\"", ",\n", "]"),
    ("[", "1", ", ", ""),
    ("{", "a%: %", ", ", "}"),
    ("{", "% => %", ", ", "}"),
    ("{", "\"k%\": 1", ", ", "}"),
    ("{", "if: 1", ", ", "}"),
    ("{", "**a", ", ", "}"),
    ("foo(", "1", ", ", ")"),
    ("foo(", "k%: 1", ", ", ")"),
    ("foo(", "*a", ", ", ")"),
    ("foo(", "**a", ", ", ")"),
    ("foo(", "a% => 1", ", ", ")"),
    ("foo ", "1", ", ", ""),
    ("foo ", "k%: 1", ", ", ""),
    ("x[", "1", ", ", "]"),
    ("yield ", "1", ", ", ""),
    ("return ", "1", ", ", ""),
    ("super ", "1", ", ", ""),
    ("a = ", "1", ", ", ""),
    ("a = ", "*b", ", ", ""),
    ("", "a%", ", ", " = 1"),
    ("", "a[%]", ", ", " = 1, 2"),
    ("*", "a%", ", ", " = 1"),
    ("", "(a%, b%)", ", ", " = 1"),
    ("", "a%", " = ", " = 1"),
    ("1", "", " + 1", ""),
    ("1", " + %", "", ""),
    ("1", " * %", "", ""),
    ("1", " && a", "", ""),
    ("1", " || a", "", ""),
    ("1", " and a", "", ""),
    ("1", " or a", "", ""),
    ("1", " == 1 && 1", "", ""),
    ("1", " << 1", "", ""),
    ("1", " | 1 & 2", "", ""),
    ("a", ".b", "", ""),
    ("a", ".b%(%)", "", ""),
    ("a", "&.b", "", ""),
    ("a", "\n.b", "", ""),
    ("a", "\n  # c\n  .b", "", ""),
    ("a", "::B", "", ""),
    ("A", "::B%", "", ""),
    ("a", "[1]", "", ""),
    ("a", ".b { }", "", ""),
    ("a", ".b { |x| x }", "", ""),
    ("a", ".b do end", "", ""),
    ("a", ".()", "", ""),
    ("a", " if 1", "", ""),
    ("a", " while 1", "", ""),
    ("a", " rescue 1", "", ""),
    ("", "-", "", "1"),
    ("", "!", "", "1"),
    ("", "x ? 1 : ", "", "2"),
    ("", "2 ** ", "", "2"),
    ("\"", "a", "", "\""),
    ("\"", "\\n", "", "\""),
    ("\"", "\\u{41 42}", "", "\""),
    ("\"", "\\xff", "", "\""),
    ("\"", "#{1}", "", "\""),
    ("\"", "a#{b}", "", "\""),
    ("\"", "#@a ", "", "\""),
    ("\"", "#", "", "\""),
    ("\"", "\n", "", "\""),
    ("\"", "日", "", "\""),
    ("\"", "日#{é}", "", "\""),
    ("", "\"a\" ", "", "\"b\""),
    ("", "\"a#{1}\" ", "", "\"b\""),
    ("'", "a", "", "'"),
    ("'", "\\'", "", "'"),
    ("`", "a#{1}", "", "`"),
    ("/", "a", "", "/"),
    ("/", "\\/", "", "/"),
    ("/", "a#{1}", "", "/"),
    ("/", "(", "", "/"),
    ("%q(", "(a)", "", ")"),
    ("%q(", "(", "", ""),
    ("%Q(", "(#{1})", "", ")"),
    ("%(", "a", "", ")"),
    ("%w(", "a%", " ", ")"),
    ("%w(", "a\\ b", "\n", ")"),
    ("%w(", " ", "", "a)"),
    ("%i[", "a%", " ", "]"),
    (":\"", "a#{1}", "", "\""),
    ("<<A\n", "a\n", "", "A\n"),
    ("<<A\n", "#{1}\n", "", "A\n"),
    ("<<A\n", "\n", "", "A\n"),
    ("<<~A\n", "  a\n", "", "A\n"),
    ("<<-A\n", "  a\n", "", "  A\n"),
    ("<<'A'\n", "a#{\n", "", "A\n"),
    ("<<A\n", "a\n", "", ""),
    ("", "x = <<A\na\nA", "\n", "\n"),
    ("", "foo(<<A, <<B)\na\nA\nb\nB", "\n", "\n"),
    ("", "<<A\n#{1}\nA", "\n", "\n"),
    ("case a\n", "when %\n1\n", "", "end"),
    ("case a\nwhen ", "%", ", ", "\n1\nend"),
    ("case a\n", "when 1 then b% = 1\n", "", "else\n1\nend"),
    ("if a\n1\n", "elsif %\n1\n", "", "end"),
    ("begin\n1\n", "rescue A%\n1\n", "", "end"),
    ("begin\n1\nrescue ", "A%", ", ", "\n1\nend"),
    ("begin\n1\n", "rescue => e%\n1\n", "", "ensure\n1\nend"),
    ("def f(", "a%", ", ", "); end"),
    ("def f(", "a% = 1", ", ", "); end"),
    ("def f(", "a%:", ", ", "); end"),
    ("def f(", "a%: 1", ", ", ")\na0\nend"),
    ("def f ", "a%", ", ", "\nend"),
    ("def f(*r, ", "a%", ", ", "); end"),
    ("foo { |", "a%", ", ", "| a0 }"),
    ("foo { |", "(a%, b%)", ", ", "| a0 }"),
    ("foo { |", "a% = 1", ", ", "| a0 }"),
    ("foo { |*r, ", "a%:", ", ", "| }"),
    ("->(", "a%", ", ", ") { }"),
    ("", "def f%(a, b = 1, *c, d: 1, **e, &g)\na\nend", "\n", ""),
    ("", "class A% < B\ndef f; end\nend", "\n", ""),
    ("", "module A%; end", "\n", ""),
    ("class A\n", "def f%; @a; end\n", "", "end"),
    ("", "foo { |a| a + 1 }", "\n", ""),
    ("", "foo do |a| a% = a end", "\n", ""),
    ("", "if a then 1 else 2 end", "\n", ""),
    ("", "while a do 1 end", ";", ""),
    ("", "for a% in b do 1 end", "\n", ""),
    ("", "for a, b% in c\n1\nend", "\n", ""),
    ("", "foo { _1 }", "\n", ""),
    ("", "foo { _9 + _1 }", "\n", ""),
    ("", "alias a% b%", "\n", ""),
    ("", "alias $a% $b%", "\n", ""),
    ("", "->{}", ";", ""),
    ("", ":a%", "\n", ""),
    ("", "$a%", "\n", ""),
    ("", "?a", "\n", ""),
    ("", "1.5", "\n", ""),
    ("", "0x1f", "\n", ""),
    ("", "99999999999999999999%", "\n", ""),
    ("", "a% += 1", "\n", ""),
    ("", "a% ||= 1", "\n", ""),
    ("", "a[%] ||= 1", "\n", ""),
    ("", "foo k: %", "\n", ""),
    ("", "foo a, *b, k: 1, &c", "\n", ""),
    ("", "p a%: 1 do |x| x end", "\n", ""),
    ("def f(a, b)\n", "a% = a\n", "", "end"),
    ("foo { ", "a% = 1\n", "", "bar { a0 } }"),
    ("a = 1; ", "foo { a }", "; ", ""),
    ("", ")", "", ""),
    ("", "end", "\n", ""),
    ("1 ", "end ", "", ""),
    ("", "\0", "", ""),
    ("", "日本", " ", ""),
    ("", "\u{301}", "", ""),
];

fn many(l: &(&str, &str, &str, &str), n: usize) -> String {
    let mut s = l.0.to_string();
    for i in 0..n {
        if i > 0 {
            s.push_str(l.2);
        }
        s.push_str(&l.1.replace('%', &i.to_string()));
    }
    s.push_str(l.3);
    s
}

/// Repetitions which the parser follows by recursion.
fn recursive(l: &(&str, &str, &str, &str)) -> bool {
    ["-", "!", "x ? 1 : ", "2 ** "].contains(&l.1) || l.2 == " = "
}

fn list(c: &mut Case) {
    let k = c.idx as usize;
    // Every list by itself, then two lists in one text, or one list inside of
    // every item of another.
    let a = LISTS[k % LISTS.len()];
    let th = c.thorough();
    let big: &[usize] = if th { &[64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384] } else { &[64, 128, 256, 512, 1024, 2048, 4096] };
    let deep = &[64, 128, 256, 512];
    if k < LISTS.len() {
        grows(c, "list", if recursive(&a) { deep } else { big }, &|n| many(&a, n));
        return;
    }
    let b = *c.rng.pick(LISTS);
    let rec = recursive(&a) || recursive(&b);
    let big: &[usize] = if rec { &[16, 32, 64, 128, 256] } else { &[16, 32, 64, 128, 256, 512, 1024] };
    match c.rng.below(3) {
        0 => grows(c, "list", big, &|n| format!("{}\n{}", many(&a, n), many(&b, n))),
        1 => {
            let m = 1 + c.rng.below(6);
            let inner = many(&b, m);
            let sep = c.rng.s(&["\n", ";", "\n)\n", "\nend\n"]);
            grows(c, "list", big, &|n| {
                let mut s = String::new();
                for _ in 0..n {
                    s.push_str(&inner);
                    s.push_str(sep);
                }
                s.push_str(&many(&a, n));
                s
            })
        }
        // Cut somewhere in the middle.
        _ => {
            let cut = c.rng.below(12);
            grows(c, "list", big, &|n| {
                let s = many(&a, n);
                let mut e = s.len().saturating_sub(cut);
                while !s.is_char_boundary(e) {
                    e -= 1;
                }
                s[..e].to_string()
            })
        }
    }
}

/// One token which grows: first, every further character (in turn), last.
const TOKENS: &[(&str, &str, &str)] = &[
    ("", "a", ""),
    ("", "é", ""),
    ("", "_", ""),
    ("", "_1", ""),
    ("", "A", ""),
    ("@", "a", ""),
    ("@@", "a", ""),
    ("$", "a", ""),
    ("$", "1", ""),
    ("_", "1", ""),
    (":", "a", ""),
    ("", "a", "?"),
    ("", "a", ": 1"),
    ("foo.", "a", ""),
    ("def ", "a", "; end"),
    ("class A", "b", "; end"),
    ("", "a", " = 1"),
    ("", "1", ""),
    ("", "12", ""),
    ("", "0", ""),
    ("1", "_0", ""),
    ("1", "_", ""),
    ("9", "9", ""),
    ("-9", "9", ""),
    ("0x", "f", ""),
    ("0x", "_f", ""),
    ("0b", "1", ""),
    ("0b", "10", ""),
    ("0o", "7", ""),
    ("0", "7", ""),
    ("1.", "5", ""),
    ("0.", "0", "1"),
    ("1", "0", ".5"),
    ("1e", "9", ""),
    ("1e-", "9", ""),
    ("1e", "0", "1"),
    ("1.5e", "9", "i"),
    ("1", "0", "i"),
    ("1", "0", "e5"),
    ("0.", "0", "e99999"),
    ("", "1", "\n.foo"),
    ("[", "1", "..2]"),
    ("", " ", "1"),
    ("1", " ", ""),
    ("#", " ", ""),
    ("#", "é", "\n1"),
    ("", "\n", "1"),
    ("\"", "a", "\""),
    ("\"", "a", ""),
    ("'", "a", "'"),
    ("`", "a", "`"),
    ("/", "a", "/"),
    ("/", ".*", "/mix"),
    ("/", "[a]", "/"),
    ("/", "(a)", "/"),
    ("/", "a", ""),
    ("/a/", "i", ""),
    ("/a/", "mix", ""),
    ("%q(", "a", ")"),
    ("%w(", "a", ")"),
    ("\"\\u{", "0", "41}\""),
    ("\"\\u{", "41 ", "}\""),
    ("\"\\u{", "1", "}\""),
    ("\"\\x", "4", "\""),
    ("\"\\", "7", "\""),
    ("?", "a", ""),
    ("<<", "A", "\n1\n"),
    ("<<\"", "A", "\"\n1\n"),
    ("<<A", " ", "\na\nA\n"),
    ("<<A\n", "a", "\nA\n"),
    ("<<A\n", "A", "\nA\n"),
    ("<<-A\n", " ", "A\n"),
    ("<<~A\n", " ", "b\nA\n"),
    ("<<A # ", "c", "\na\nA\n"),
    ("\\", " ", "\n1"),
    ("", "\\\n", "1"),
    ("1 ", "\\\n", "+ 1"),
    ("x.y ", ":", ""),
    ("", "&", ""),
    ("", "|", ""),
    ("", "<", ""),
    ("", "=", ""),
    ("", ".", ""),
    ("", "*", ""),
    ("", "+", ""),
    ("", "%", ""),
    ("", "?", ""),
    ("", "$", ""),
    ("", "@", ""),
    ("", "\"", ""),
    ("", "'", ""),
    ("", "`", ""),
    ("", "/", ""),
    ("", "\r", ""),
    ("", "\u{feff}", ""),
    ("", "\0", ""),
    ("=begin\n", "a", "\n=end\n"),
    ("1\n__END__\n", "a\n", ""),
];

fn token(c: &mut Case) {
    let k = c.idx as usize;
    let t = TOKENS[k % TOKENS.len()];
    let round = k / TOKENS.len();
    let p = place(c);
    let th = c.thorough();
    let sizes: &[usize] = match (round, th) {
        (0, _) => &[1000, 2000, 4000, 8000, 16_000],
        (_, false) => &[1000, 2000, 4000],
        (_, true) => &[1000, 2000, 4000, 8000, 16_000],
    };
    let off = c.rng.below(3);
    let rec = ["*", "+", "&", "\\\n", "?", "%", "."].contains(&t.1);
    let sizes: &[usize] = if rec { &[64, 128, 256, 512, 1024] } else { sizes };
    grows(c, "token", sizes, &|n| {
        let s = format!("{}{}{}", t.0, t.1.repeat(n + off), t.2);
        if round == 0 {
            s
        } else {
            at(p, &s)
        }
    });
}

/// The finding which is recorded and not repaired: the target of `||=` and
/// `&&=` stands twice in the tree, so that nesting doubles it every time.
fn known(c: &mut Case) {
    let text = |n: usize| {
        let mut s = String::from("1");
        for _ in 0..n {
            s = format!("a[{}] ||= 1", s);
        }
        s
    };
    grows(c, "known", &[2, 4, 8, 16], &text);
}
