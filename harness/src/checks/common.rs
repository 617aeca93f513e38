use crate::gen::*;
use crate::mon::*;
use crate::run::Case;
use crate::term::*;
use crate::tok::*;
use ruruby_parse::ParseResult;

/// A generator on the random stream of the case.
pub fn gen(c: &mut Case, f: Feat, fuel: isize) -> G {
    let seed = c.rng.next();
    let mut g = G::new(crate::rng::Rng::new(seed), f, fuel);
    g.path = "x.rb".to_string();
    g
}

pub fn style(c: &mut Case, wild: &[usize]) -> Style {
    let wild = *c.rng.pick(wild);
    Style { wild, seed: c.rng.next() }
}

/// What of the result is compared with the expectation.
#[derive(Clone, Copy)]
pub struct What {
    pub locs: bool,
    pub table: bool,
}

pub const TREE: What = What { locs: false, table: false };
pub const TREE_TABLE: What = What { locs: false, table: true };
pub const TREE_LOCS: What = What { locs: true, table: false };

/// Render what was generated, parse it, and compare the tree with the one
/// which was meant. Returns the text and the result if they agree.
pub fn judge(c: &mut Case, g: &mut G, e: T, st: Style, w: What) -> Option<(String, ParseResult)> {
    judge_as(c, &Entry::Program, g, e, st, w)
}

/// The same, for any way to give the text to the parser.
pub fn judge_as(c: &mut Case, en: &Entry, g: &mut G, mut e: T, st: Style, w: What) -> Option<(String, ParseResult)> {
    let out = render(&g.toks, st);
    resolve(&mut e, &out);
    let src = out.src;
    let path = g.path.clone();
    for (k, v) in std::mem::take(&mut g.cov) {
        c.add(k, v);
    }
    c.nontrivial(&src);
    let o = c.parse_as(en, &src, &path);
    match o {
        Obs::Ok(r) => {
            let act = norm(&r.node);
            c.st.nodes += act.size() as u64;
            if let Some(d) = e.diff(&act, w.locs) {
                c.fail_as(en, &path, &src, d);
                return None;
            }
            if w.table {
                let l = lvar_tag(&r.lvar_collector);
                let x = g.scopes[0].tag();
                if l != x {
                    c.fail_as(en, &path, &src, format!("variable table: expected {} got {}", x, l));
                    return None;
                }
            }
            Some((src, r))
        }
        o => {
            let what = format!("{}; expected {}", o.brief(), clip_str(&e.to_string(), 600));
            c.fail_as(en, &path, &src, what);
            None
        }
    }
}

/// The text must be accepted with exactly this tree.
pub fn expect_tree(c: &mut Case, src: &str, e: &T) -> bool {
    expect_table(c, src, e, None)
}

/// And with exactly these variables at the top level.
pub fn expect_table(c: &mut Case, src: &str, e: &T, table: Option<&str>) -> bool {
    c.nontrivial(src);
    match c.parse(src) {
        Obs::Ok(r) => {
            let act = norm(&r.node);
            c.st.nodes += act.size() as u64;
            if let Some(d) = e.diff(&act, false) {
                c.fail(src, d);
                return false;
            }
            let l = lvar_tag(&r.lvar_collector);
            if let Some(x) = table.filter(|x| *x != l) {
                c.fail(src, format!("variable table: expected {} got {}", x, l));
                return false;
            }
            true
        }
        o => {
            c.fail(src, format!("{}; expected {}", o.brief(), clip_str(&e.to_string(), 600)));
            false
        }
    }
}

/// The text must be rejected.
pub fn expect_reject(c: &mut Case, src: &str, why: &str) -> bool {
    c.nontrivial(src);
    match c.parse(src) {
        Obs::Err(_) => true,
        o => {
            c.fail(src, format!("{}: {}", why, o.brief()));
            false
        }
    }
}

/// The text must be accepted.
pub fn expect_accept(c: &mut Case, src: &str) -> Option<ParseResult> {
    c.nontrivial(src);
    match c.parse(src) {
        Obs::Ok(r) => Some(r),
        o => {
            c.fail(src, o.brief());
            None
        }
    }
}

/// A place where an expression may stand: text before and after it, and the
/// tree of the whole around the tree of the expression.
pub struct Place {
    pub name: &'static str,
    pub pre: &'static str,
    pub post: &'static str,
    pub t: fn(T) -> T,
}

fn asgn(n: &str, v: T) -> T {
    t("asgn", vec![t("lhs", vec![leaf(format!("lvar:0:{}", n))]), t("rhs", vec![v])])
}
fn empty() -> T {
    t("seq", vec![])
}

/// The expression must be a primary.
pub const PLACES: &[Place] = &[
    Place { name: "alone", pre: "", post: "", t: |e| e },
    Place { name: "newline", pre: "", post: "\n", t: |e| e },
    Place { name: "semicolon", pre: ";", post: ";", t: |e| e },
    Place { name: "comment", pre: "# c\n", post: " # c", t: |e| e },
    Place { name: "value", pre: "q = ", post: "\n", t: |e| asgn("q", e) },
    Place { name: "value-glued", pre: "q=", post: "\n", t: |e| asgn("q", e) },
    Place { name: "array", pre: "[", post: ", nil.k]", t: |e| array(vec![e, t(".k", vec![leaf("nil"), t("args", vec![])])]) },
    Place { name: "array-last", pre: "[nil.k, ", post: "]", t: |e| array(vec![t(".k", vec![leaf("nil"), t("args", vec![])]), e]) },
    Place { name: "argument", pre: "foo(", post: ")", t: |e| t("fcall:foo", vec![t("args", vec![e])]) },
    Place { name: "argument2", pre: "foo(nil,", post: ")", t: |e| t("fcall:foo", vec![t("args", vec![leaf("nil"), e])]) },
    Place { name: "keyword", pre: "foo(k: ", post: ")", t: |e| t("fcall:foo", vec![t("args", vec![t("kw:k", vec![e])])]) },
    Place { name: "hash", pre: "{k: ", post: "}.m", t: |e| t(".m", vec![hash(vec![leaf("sym:\"k\""), e]), t("args", vec![])]) },
    Place { name: "parens", pre: "(", post: ")", t: |e| e },
    Place { name: "plus", pre: "self + ", post: "", t: |e| t("bin:+", vec![leaf("self"), e]) },
    Place { name: "plus-left", pre: "", post: " + self", t: |e| t("bin:+", vec![e, leaf("self")]) },
    Place { name: "eq", pre: "self == ", post: " && nil", t: |e| t("bin:&&", vec![t("bin:==", vec![leaf("self"), e]), leaf("nil")]) },
    Place { name: "cond", pre: "if ", post: "\nself\nend", t: |e| t("if", vec![e, leaf("self"), empty()]) },
    Place { name: "then", pre: "if self then ", post: " else nil end", t: |e| t("if", vec![leaf("self"), e, leaf("nil")]) },
    Place { name: "modifier", pre: "self if ", post: "", t: |e| t("if", vec![e, leaf("self"), empty()]) },
    Place { name: "ternary-cond", pre: "", post: " ? self : nil", t: |e| t("if", vec![e, leaf("self"), leaf("nil")]) },
    Place { name: "ternary-then", pre: "self ? ", post: " : nil", t: |e| t("if", vec![leaf("self"), e, leaf("nil")]) },
    Place { name: "ternary-else", pre: "self ? nil : ", post: "", t: |e| t("if", vec![leaf("self"), leaf("nil"), e]) },
    Place { name: "and", pre: "self and ", post: "", t: |e| t("bin:&&", vec![leaf("self"), e]) },
    Place { name: "index", pre: "self[", post: "]", t: |e| t("index", vec![leaf("self"), e]) },
    Place { name: "receiver", pre: "", post: ".m", t: |e| t(".m", vec![e, t("args", vec![])]) },
    Place { name: "return", pre: "return ", post: "", t: |e| t("return", vec![e]) },
    Place { name: "interpolation", pre: "\"a#{", post: "}b\"", t: |e| t("istr", merge_text(vec![lit(b"a".to_vec(), false), e, lit(b"b".to_vec(), false)])) },
    Place { name: "second", pre: "self\n", post: "\nnil", t: |e| t("seq", vec![leaf("self"), e, leaf("nil")]) },
    Place { name: "second-semicolon", pre: "self;", post: ";nil", t: |e| t("seq", vec![leaf("self"), e, leaf("nil")]) },
    Place { name: "not", pre: "!", post: "", t: |e| t("un:!", vec![e]) },
    Place { name: "splat", pre: "[*", post: "]", t: |e| t("array", vec![t("splat", vec![e])]) },
    Place { name: "when", pre: "case self\nwhen ", post: "\nnil\nend", t: |e| t("case", vec![leaf("self"), t("when", vec![e, leaf("nil")]), empty()]) },
];

pub fn place<'a>(c: &mut Case) -> &'a Place {
    let i = c.rng.below(PLACES.len());
    &PLACES[i]
}

pub fn at(p: &Place, s: &str) -> String {
    format!("{}{}{}", p.pre, s, p.post)
}

/// An expression of known tree stands at a random place.
pub fn expect_placed(c: &mut Case, text: &str, e: T) -> bool {
    let p = place(c);
    c.hit(format!("place:{}", p.name));
    expect_tree(c, &at(p, text), &(p.t)(e))
}

/// An expression which is wrong stands at a random place.
pub fn reject_placed(c: &mut Case, text: &str, why: &str) -> bool {
    let p = place(c);
    c.hit(format!("place:{}", p.name));
    expect_reject(c, &at(p, text), why)
}

/// A random program over the given constructs, compared with its tree.
pub fn focus(c: &mut Case, f: Feat, fuels: &[isize], stmts: usize, wilds: &[usize], w: What) -> Option<(String, ParseResult)> {
    let fuel = *c.rng.pick(fuels);
    let mut g = gen(c, f, fuel);
    let n = 1 + g.rng.below(stmts);
    let e = g.program(n);
    let st = style(c, wilds);
    judge(c, &mut g, e, st, w)
}

/// A random program over all constructs.
pub fn mixture(c: &mut Case, w: What) -> Option<(String, ParseResult)> {
    focus(c, Feat::all(), &[10, 20, 40, 80], 4, &[0, 20, 60, 100], w)
}

pub fn s(tag: &str) -> T {
    leaf(format!("sym:{:?}", tag))
}
pub fn int(i: i64) -> T {
    leaf(format!("int:{}", i))
}
pub fn st(x: &str) -> T {
    lit(x.as_bytes().to_vec(), false)
}
pub fn args(v: Vec<T>) -> T {
    t("args", v)
}
pub fn fcall(n: &str, v: Vec<T>) -> T {
    t(format!("fcall:{}", n), vec![args(v)])
}
pub fn mcall(n: &str, r: T, v: Vec<T>) -> T {
    t(format!(".{}", n), vec![r, args(v)])
}
pub fn bin(op: &str, a: T, b: T) -> T {
    t(format!("bin:{}", op), vec![a, b])
}
pub fn asg(n: &str, v: T) -> T {
    asgn(n, v)
}
pub fn nothing() -> T {
    empty()
}

/// Both texts must be accepted with the same tree.
pub fn expect_same(c: &mut Case, a: &str, b: &str, why: &str) -> bool {
    c.nontrivial(b);
    match (c.parse(a), c.parse(b)) {
        (Obs::Ok(x), Obs::Ok(y)) => {
            let (x, y) = (norm(&x.node), norm(&y.node));
            c.st.nodes += y.size() as u64;
            if let Some(d) = x.diff(&y, false) {
                c.fail(b, format!("{}: {} (against {:?})", why, d, clip_str(a, 500)));
                return false;
            }
            true
        }
        (x, y) => {
            c.fail(b, format!("{}: {}; against {:?}: {}", why, y.brief(), clip_str(a, 500), x.brief()));
            false
        }
    }
}

/// The text of a random program over all constructs, and its tokens.
pub fn program(c: &mut Case, fuels: &[isize], stmts: usize, wilds: &[usize]) -> (String, Vec<Tok>, Out, T) {
    let fuel = *c.rng.pick(fuels);
    let mut g = gen(c, Feat::all(), fuel);
    let n = 1 + g.rng.below(stmts);
    let mut e = g.program(n);
    let st = style(c, wilds);
    let out = render(&g.toks, st);
    resolve(&mut e, &out);
    for (k, v) in std::mem::take(&mut g.cov) {
        c.add(k, v);
    }
    (out.src.clone(), g.toks, out, e)
}

/// A text of any kind: a program, or one which was cut or changed, or random
/// pieces or characters. Counts which kind it is.
pub fn any_text(c: &mut Case) -> String {
    use crate::mutate::*;
    let k = c.rng.below(10);
    let (kind, s) = match k {
        0 | 1 => ("program", program(c, &[4, 10, 20, 40], 3, &[0, 60]).0),
        2 => {
            let s = program(c, &[4, 10, 20, 40], 3, &[0, 60]).0;
            ("cut", cut(&mut c.rng, &s))
        }
        3..=6 => {
            let s = program(c, &[4, 10, 20, 40], 3, &[0, 60]).0;
            let o = program(c, &[10], 2, &[0]).0;
            ("changed", changed(&mut c.rng, &s, &o))
        }
        7 | 8 => ("pieces", soup(&mut c.rng, 24)),
        _ => ("characters", noise(&mut c.rng, 30)),
    };
    c.hit(format!("text:{}", kind));
    s
}
