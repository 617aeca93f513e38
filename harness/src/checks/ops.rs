//! C08: precedence and associativity.
use super::common::*;
use crate::gen::*;
use crate::rng::Rng;
use crate::run::*;
use crate::term::*;

pub fn c08() -> Check {
    Check {
        id: "C08",
        rule: "Expressions from a grammar of Ruby's operators (grammar mode, with redundant parentheses, over all kinds of operands), random flat operator sequences judged by an independent operator-precedence reference (flat), all sequences of two and three operators (all), all chains of two non-associative operators (in all), and a text against its fully parenthesised form (paren). Non-trivial: at least one operator was grouped; distinct by text.",
        modes: vec![
            Mode { name: "grammar", quick: 180_000, thorough: 3_000_000, f: grammar },
            Mode { name: "flat", quick: 360_000, thorough: 6_000_000, f: flat },
            Mode { name: "all", quick: OPS.len() as u64 * OPS.len() as u64 * (OPS.len() as u64 + 1), thorough: OPS.len() as u64 * OPS.len() as u64 * (OPS.len() as u64 + 1), f: all },
            Mode { name: "paren", quick: 120_000, thorough: 2_000_000, f: paren },
        ],
        assumptions: &["Ruby's operator table, as in doc/syntax/precedence.rdoc"],
        must: &["flat:rejected-nonassoc", "flat:accepted", "all:accepted", "all:rejected-nonassoc", "**", "ternary", "range", "neg-literal**", "and", "or", "defined", "<=>", "!~"],
    }
}

pub fn feat() -> Feat {
    Feat {
        num: 8,
        neg: 3,
        strs: 2,
        sym: 1,
        gvar: 1,
        cst: 2,
        kwlit: 1,
        array: 1,
        index: 2,
        mcall: 3,
        fcall: 2,
        paren: 2,
        defined: 2,
        unop: 12,
        binop: 24,
        logic: 12,
        cmp: 12,
        range: 6,
        ternary: 8,
        assign_e: 6,
        def_e: 3,
        stmt_assign: 4,
        stmt_opassign: 3,
        andor: 6,
        modifier: 1,
        redundant: 10,
        ..Feat::base()
    }
}

fn grammar(c: &mut Case) {
    let mut f = feat();
    if c.rng.p(1, 4) {
        // Any operands.
        f.istr = 1;
        f.regex = 1;
        f.hash = 1;
        f.block = 1;
        f.lambda = 1;
        f.begin = 1;
        f.control = 1;
        f.pct = 1;
        f.ch = 1;
        f.xstr = 1;
        f.here = 1;
    }
    let fuel = *c.rng.pick(&[4, 8, 12, 20, 30]);
    let mut g = gen(c, f, fuel);
    let n = 1 + g.rng.below(2);
    let e = g.program(n);
    let st = style(c, &[0, 0, 20, 60]);
    judge(c, &mut g, e, st, TREE);
}

// ---- the reference ---------------------------------------------------------

/// Binary operators, their levels, and whether they associate to the left (l),
/// to the right (r) or not at all (n).
pub const OPS: &[(&str, u8, char)] = &[
    ("**", 17, 'r'),
    ("*", 15, 'l'),
    ("/", 15, 'l'),
    ("%", 15, 'l'),
    ("+", 14, 'l'),
    ("-", 14, 'l'),
    ("<<", 13, 'l'),
    (">>", 13, 'l'),
    ("&", 12, 'l'),
    ("|", 11, 'l'),
    ("^", 11, 'l'),
    ("<", 10, 'l'),
    ("<=", 10, 'l'),
    (">", 10, 'l'),
    (">=", 10, 'l'),
    ("==", 9, 'n'),
    ("!=", 9, 'n'),
    ("===", 9, 'n'),
    ("=~", 9, 'n'),
    ("!~", 9, 'n'),
    ("<=>", 9, 'n'),
    ("&&", 8, 'l'),
    ("||", 7, 'l'),
    ("..", 6, 'n'),
    ("...", 6, 'n'),
    ("and", 1, 'l'),
    ("or", 1, 'l'),
];

#[derive(Clone, Debug)]
enum It {
    Opnd(T, String),
    Bin(usize),
    Pre(&'static str),
    /// `-` glued to a number.
    Neg,
    Asgn(String),
    OpAsgn(String, &'static str),
    Q,
    Colon,
    Defined,
}

struct P<'a> {
    v: &'a [It],
    i: usize,
    /// Full parenthesisation of what was parsed.
    nonassoc: bool,
}

fn bin(op: &str, a: T, b: T) -> T {
    match op {
        ".." => range(a, b, false),
        "..." => range(a, b, true),
        "!~" => t("un:!", vec![t("bin:=~", vec![a, b])]),
        "and" => t("bin:&&", vec![a, b]),
        "or" => t("bin:||", vec![a, b]),
        _ => t(format!("bin:{}", op), vec![a, b]),
    }
}

type Tx = (T, String);

impl<'a> P<'a> {
    fn operand(&mut self, min: u8) -> Option<Tx> {
        let it = self.v.get(self.i)?.clone();
        self.i += 1;
        Some(match it {
            It::Opnd(t, s) => (t, s),
            It::Neg => {
                let It::Opnd(n, s) = self.v.get(self.i)?.clone() else {
                    return None;
                };
                if let Some(It::Bin(0)) = self.v.get(self.i + 1) {
                    // -2 ** x
                    let (a, s) = self.expr(17)?;
                    (t("un:-@", vec![a]), format!("(-({}))", s))
                } else {
                    self.i += 1;
                    (leaf(if n.tag.starts_with("float:") { flt(-1.5) } else { n.tag.replace("int:", "int:-") }), format!("(-{})", s))
                }
            }
            It::Pre("-") => {
                let (a, s) = self.expr(17)?;
                (t("un:-@", vec![a]), format!("(-({}))", s))
            }
            It::Pre(p) => {
                // `!x = 1` negates the assignment.
                let (a, s) = self.operand(18)?;
                (t(format!("un:{}", if p == "+" { "+@" } else { p }), vec![a]), format!("({}({}))", p, s))
            }
            It::Asgn(n) => {
                let (b, s) = self.expr(5)?;
                (
                    t("asgn", vec![t("lhs", vec![leaf(format!("lvar:0:{}", n))]), t("rhs", vec![b])]),
                    format!("({} = ({}))", n, s),
                )
            }
            It::OpAsgn(n, op) => {
                let (b, s) = self.expr(5)?;
                let v = leaf(format!("lvar:0:{}", n));
                (op_asgn(v, op, b), format!("({} {}= ({}))", n, op, s))
            }
            It::Defined => {
                let (a, s) = self.expr(5)?;
                let _ = min;
                (t("defined", vec![a]), format!("(defined?({}))", s))
            }
            _ => return None,
        })
    }

    fn expr(&mut self, min: u8) -> Option<Tx> {
        let (mut a, mut s) = self.operand(min)?;
        let mut non = 0;
        loop {
            match self.v.get(self.i) {
                Some(It::Bin(k)) => {
                    let (op, p, assoc) = OPS[*k];
                    if p < min {
                        break;
                    }
                    if p == non {
                        self.nonassoc = true;
                        return None;
                    }
                    self.i += 1;
                    let (b, sb) = self.expr(if assoc == 'r' { p } else { p + 1 })?;
                    a = bin(op, a, b);
                    s = format!("(({}) {} ({}))", s, op, sb);
                    non = if assoc == 'n' { p } else { 0 };
                }
                Some(It::Q) if min <= 5 => {
                    self.i += 1;
                    let (b, sb) = self.expr(5)?;
                    match self.v.get(self.i) {
                        Some(It::Colon) => self.i += 1,
                        _ => return None,
                    }
                    let (d, sd) = self.expr(5)?;
                    a = t("if", vec![a, b, d]);
                    s = format!("(({}) ? ({}) : ({}))", s, sb, sd);
                    non = 0;
                }
                _ => break,
            }
        }
        Some((a, s))
    }
}

fn op_asgn(v: T, op: &str, b: T) -> T {
    match op {
        "||" | "&&" => t(format!("bin:{}", op), vec![v.clone(), t("asgn", vec![t("lhs", vec![v]), t("rhs", vec![b])])]),
        _ => t(format!("opasgn:{}", op), vec![v, b]),
    }
}

fn text(v: &[It], r: &mut Rng) -> String {
    let mut s = String::new();
    let mut after_op = true;
    for it in v {
        if !after_op && !s.is_empty() {
            s.push(' ');
        }
        match it {
            It::Opnd(_, x) => s.push_str(x),
            It::Bin(k) => {
                s.push_str(OPS[*k].0);
                s.push_str(if r.p(1, 12) { "\n" } else { " " });
            }
            It::Pre(p) => s.push_str(p),
            It::Neg => s.push('-'),
            It::Asgn(n) => {
                s.push_str(n);
                s.push_str(" = ");
            }
            It::OpAsgn(n, op) => {
                s.push_str(n);
                s.push_str(&format!(" {}= ", op));
            }
            It::Q => s.push_str("? "),
            It::Colon => s.push_str(": "),
            It::Defined => s.push_str("defined? "),
        }
        after_op = !matches!(it, It::Opnd(..));
    }
    s
}

const VARS: &[&str] = &["a", "b", "c", "x"];

fn operand(r: &mut Rng) -> It {
    let v = |r: &mut Rng| *r.pick(VARS);
    match r.below(12) {
        0 => It::Opnd(leaf("int:2"), "2".into()),
        1 => It::Opnd(leaf("int:10"), "10".into()),
        2 => It::Opnd(leaf(flt(1.5)), "1.5".into()),
        3 => It::Opnd(t("fcall:foo", vec![t("args", vec![leaf("int:1")])]), "foo(1)".into()),
        4 => It::Opnd(t("index", vec![leaf("lvar:0:a"), leaf("int:1")]), "a[1]".into()),
        5 => It::Opnd(t(".m", vec![leaf("lvar:0:b"), leaf("args")]), "b.m".into()),
        6 => It::Opnd(leaf("const:Foo"), "Foo".into()),
        7 => It::Opnd(leaf("str:\"s\""), "\"s\"".into()),
        8 => It::Opnd(leaf("sym:\"k\""), ":k".into()),
        9 => It::Opnd(leaf("nil"), "nil".into()),
        _ => {
            let n = v(r);
            It::Opnd(leaf(format!("lvar:0:{}", n)), n.into())
        }
    }
}

/// One operand with its prefixes. `full` allows an assignment.
fn unit(r: &mut Rng, out: &mut Vec<It>, full: bool) {
    if full && r.p(1, 12) {
        let n = r.pick(VARS).to_string();
        if r.p(1, 3) {
            out.push(It::OpAsgn(n, r.s(&["+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^", "||", "&&"])));
        } else {
            out.push(It::Asgn(n));
        }
        return unit(r, out, true);
    }
    if full && r.p(1, 25) {
        out.push(It::Defined);
        return unit(r, out, true);
    }
    let mut k = 0;
    while r.p(1, 5) && k < 3 {
        let p = r.s(&["!", "-", "~", "+", "!"]);
        // Avoid `--x`, `+-x` and the like, where Ruby reads numbers differently.
        if k == 0 || matches!((out.last(), p), (Some(It::Pre("!")), "!" | "-") | (Some(It::Pre("-")), "!")) {
            out.push(It::Pre(p));
        }
        k += 1;
    }
    if full && k > 0 && r.p(1, 20) {
        // `!defined? x`
        out.push(It::Defined);
        return unit(r, out, true);
    }
    let o = operand(r);
    if let (It::Opnd(n, _), true) = (&o, k == 0) {
        if (n.tag.starts_with("int:") || n.tag.starts_with("float:")) && r.p(1, 3) {
            out.push(It::Neg);
        }
    }
    if let (It::Opnd(n, _), Some(It::Pre(p))) = (&o, out.last()) {
        if (n.tag.starts_with("int:") || n.tag.starts_with("float:")) && matches!(*p, "-" | "+") {
            out.push(It::Opnd(leaf("lvar:0:a"), "a".into()));
            return;
        }
    }
    out.push(o);
}

fn sequence(r: &mut Rng, n: usize, out: &mut Vec<It>, top: bool, depth: usize) {
    if top && r.p(1, 15) {
        out.push(It::Defined);
    }
    unit(r, out, true);
    for _ in 0..n {
        if depth < 3 && r.p(1, 10) {
            out.push(It::Q);
            let m = r.below(3);
            sequence(r, m, out, false, depth + 1);
            out.push(It::Colon);
            unit(r, out, true);
            continue;
        }
        let lim = if top { OPS.len() } else { OPS.len() - 2 };
        // Prefer the operators which associate, so that long chains are valid.
        let mut k = r.below(lim);
        if OPS[k].2 == 'n' && r.p(1, 2) {
            k = r.below(15);
        }
        out.push(It::Bin(k));
        let word = matches!(OPS[k].0, "and" | "or");
        if word && r.p(1, 12) {
            out.push(It::Defined);
        }
        // After `**` an assignment is not an operand.
        unit(r, out, k != 0);
    }
}

const HEAD: &str = "a = b = c = x = nil\n";

fn reference(v: &[It]) -> (Option<Tx>, bool) {
    let mut p = P { v, i: 0, nonassoc: false };
    let r = p.expr(1);
    let r = if p.i == v.len() { r } else { None };
    (r, p.nonassoc)
}

fn seq_t(e: T) -> T {
    let asg = |n: &str, b: T| t("asgn", vec![t("lhs", vec![leaf(format!("lvar:0:{}", n))]), t("rhs", vec![b])]);
    t("seq", vec![asg("a", asg("b", asg("c", asg("x", leaf("nil"))))), e])
}

fn flat(c: &mut Case) {
    let mut v = vec![];
    let n = *c.rng.pick(&[2, 2, 3, 3, 4, 5, 8, 14]);
    sequence(&mut c.rng, n, &mut v, true, 0);
    let (r, nonassoc) = reference(&v);
    let src = format!("{}{}", HEAD, text(&v, &mut c.rng));
    match r {
        Some((e, _)) => {
            if expect_tree(c, &src, &seq_t(e)) {
                c.hit("flat:accepted");
            }
        }
        None if nonassoc => {
            if expect_reject(c, &src, "operators which do not associate are chained") {
                c.hit("flat:rejected-nonassoc");
            }
        }
        None => c.hit("flat:undecided"),
    }
}

fn all(c: &mut Case) {
    let n = OPS.len() as u64;
    let i = c.idx % n;
    let j = c.idx / n % n;
    let k = c.idx / n / n;
    let name = |s: &str| It::Opnd(leaf(format!("lvar:0:{}", s)), s.to_string());
    let mut v = vec![name("a"), It::Bin(i as usize), name("b"), It::Bin(j as usize), name("c")];
    if k < n {
        v.push(It::Bin(k as usize));
        v.push(name("x"));
    }
    let (r, nonassoc) = reference(&v);
    let src = format!("{}{}", HEAD, text(&v, &mut Rng::new(1)));
    match r {
        Some((e, full)) => {
            if expect_tree(c, &src, &seq_t(e.clone())) {
                c.hit("all:accepted");
                if k >= n {
                    expect_tree(c, &format!("{}{}", HEAD, full), &seq_t(e));
                }
            }
        }
        None if nonassoc => {
            if expect_reject(c, &src, "operators which do not associate are chained") {
                c.hit("all:rejected-nonassoc");
            }
        }
        None => c.inconclusive("no reference"),
    }
}

/// A text and its fully parenthesised form have the same tree.
fn paren(c: &mut Case) {
    let mut v = vec![];
    let n = *c.rng.pick(&[1, 2, 3, 4, 6]);
    sequence(&mut c.rng, n, &mut v, true, 0);
    if let (Some((e, full)), _) = reference(&v) {
        let src = format!("{}{}", HEAD, full);
        expect_tree(c, &src, &seq_t(e));
    }
}
