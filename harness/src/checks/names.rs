//! C14 local variables, C15 surrounding contexts, C16 parameters.
use super::common::*;
use crate::gen::*;
use crate::mon::*;
use crate::run::*;
use crate::term::*;

pub fn feat() -> Feat {
    Feat {
        var: 26,
        istr: 2,
        here: 1,
        array: 3,
        hash: 2,
        index: 2,
        mcall: 3,
        fcall: 4,
        block: 8,
        lambda: 5,
        paren: 3,
        begin: 3,
        control: 4,
        defined: 1,
        binop: 3,
        logic: 2,
        ternary: 1,
        assign_e: 6,
        stmt_assign: 14,
        stmt_massign: 6,
        stmt_opassign: 5,
        cmd: 4,
        modifier: 4,
        andor: 2,
        loops: 6,
        def: 6,
        class: 4,
        jump: 1,
        ..Feat::base()
    }
}

pub fn c14() -> Check {
    Check {
        id: "C14",
        rule: "Random nestings of scopes with every way to define a name and uses of the names in between, judged by a small model of Ruby's scopes that is independent of the program generator: every marked use and every variable table is compared (model). Every way to define or not to define a name, followed by a use on every path of up to three nested scopes (paths). Random programs dense in scopes and variables, full trees and tables compared (program), and programs over all constructs (mixture). Non-trivial: at least one use of a name was resolved; distinct by text.",
        modes: vec![
            Mode { name: "model", quick: 200_000, thorough: 3_000_000, f: |c| model(c, false) },
            Mode { name: "paths", quick: 60_000, thorough: 1_000_000, f: paths },
            Mode { name: "program", quick: 120_000, thorough: 1_500_000, f: c14_program },
            Mode { name: "mixture", quick: 60_000, thorough: 1_000_000, f: c14_mixture },
        ],
        assumptions: &["not covered: block-local variables after `;`, pattern matching, named captures"],
        must: &["local", "call", "depth:0", "depth:1", "depth:2", "depth:3", "paths:defined", "paths:undefined"],
    }
}

fn c14_program(c: &mut Case) {
    focus(c, feat(), &[10, 20, 40], 5, &[0, 0, 40, 100], TREE_TABLE);
}
fn c14_mixture(c: &mut Case) {
    mixture(c, TREE_TABLE);
}

// ---- the model ------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq)]
enum K {
    Top,
    Fresh,
    Method,
    Block,
    For,
}

struct S {
    kind: K,
    vars: Vec<String>,
    /// Index among the tables, in the order of the text.
    at: usize,
}

struct M {
    rng: crate::rng::Rng,
    out: String,
    scopes: Vec<S>,
    outer: Vec<(String, usize)>,
    /// Expected tags of the marks.
    marks: Vec<String>,
    /// Expected tables below the top level, in the order of the text.
    tables: Vec<Vec<String>>,
    names: Vec<String>,
    instr: bool,
    fuel: isize,
}

/// Ways to define a name. `N` is the name, `B` and `A` uses of it before and
/// after it is defined.
const DEFS: &[&str] = &[
    "N = A",
    "N = 1",
    "B; N = 1; A",
    "N = N2 = A",
    "N, @z = A, 1",
    "@z, N = A, 1",
    "@z, *N = A",
    "*N = A",
    "*N, @z = A",
    "N, = A",
    "N += A",
    "N -= 1",
    "N ||= A",
    "N &&= A",
    "(N = A)",
    "B; (@z; N = 1); A",
    "foo(B, N = 1, A)",
    "foo(k: N = A)",
    "foo(B, k: (N = 1), &A)",
    "foo(*(N = 1), A)",
    "[B, N = 1, A]",
    "{k: N = 1, l: A}",
    "{B => (N = 1), 2 => A}",
    "foo[N = 1, A]",
    "@a[B] = N = A",
    "@a[N = 1] = A",
    "@a[N = 1] += A",
    "@a.b = N = A",
    "@a = N = A",
    "for N in A do A end",
    "for N in A\nA\nend",
    "for N, N2 in A do A end",
    "for N2, N in A do A end",
    "begin; B; rescue => N; A; end",
    "begin; B; rescue B => N; A; end; A",
    "begin; B; rescue E, B => N then A; else A; ensure A; end",
    "begin; N = 1; rescue; A; ensure; A; end",
    "if N = A then A else A end",
    "unless B then N = 1 else A end",
    "if B then B; N = 1; A elsif A then A end",
    "while N = A do A end",
    "until B do N = 1; A end",
    "case N = A when A then A else A end",
    "case B when N = 1, A then A else A end",
    "case B when 1 then N = 1 when A then A end",
    "B if N = A",
    "B unless N = 1",
    "B while N = 1",
    "N = A if B2",
    "N = 1 rescue A",
    "\"#{B}a#{N = 1}#{A}\"",
    "/#{B}a#{N = 1}/",
    "`#{N = 1}#{A}`",
    ":\"#{N = 1}\"",
    "%w(N) && N = 1; A",
    "(N = 1) ? A : A",
    "B ? (N = 1) : A",
    "B && (N = 1) && A",
    "B || N = 1; A",
    "B and N = 1; A",
    "!(N = 1)",
    "defined?(N = 1); A",
    "foo N = A, A",
    "foo B, (N = 1), A",
    "foo.bar N = 1, A",
    "@a.N = N = 1; A",
    "(N = 1).foo(A)",
    "(N = 1) + A",
    "B + (N = 1) + A",
    "(N = 1)..A",
    "-> { B }; N = 1; A",
    "foo { B }; N = 1; foo { A }",
    "foo(B) { }; N = 1; A",
    "class C < (N = 1); end",
    "class << (N = 1); end",
    "return N = A",
    "foo(N = 1) { A }",
    "foo (N = 1), A",
    "N = foo(A) { A }",
    "N = -> { A }",
    "N = foo { A }",
];

/// Definitions which contain a whole scope are not for the model of marks.
const NODEFS: &[&str] = &[
    ":N",
    "'N'",
    "\"N\"",
    "N()",
    "N(1)",
    "B; B",
    "{N: 1}",
    "foo(N: 1)",
    "@a.N",
    "@a.N = 1",
    "self.N = 1",
    "@a.N += 1",
    "@N = 1",
    "$N = 1",
    "@@N = 1",
    "@N, $N = 1, 2",
    "@a.N, @b = 1, 2",
    "N == 1",
    "N[0] = 1",
    "N[0] += 1",
    "N.foo = 1",
    "N.foo ||= 1",
    "B; foo.N = B",
    "def N; end",
    "def self.N; end",
    "def N=(q); end",
    "def foo(N); N; end",
    "def foo; N = 1; end",
    "def foo(q, N = 1, *z); end",
    "foo { |N| N }",
    "foo { |q, *N| N }",
    "foo { |(q, N)| N }",
    "foo { N = 1 }",
    "foo { foo { N = 1 } }",
    "foo do N = 1 end",
    "-> (N) { N }",
    "-> { N = 1; N }",
    "-> (q, N = 1) { N }",
    "class C; N = 1; end",
    "module C; N = 1; end",
    "class << self; N = 1; end",
    "foo(&:N)",
    "alias N foo",
    "alias foo N",
    "alias :N :foo",
    "@z # N = 1\n",
    "\"N = 1\"",
    "%w(N = 1)",
    "/N = 1/",
    "foo N",
    "N foo",
    "N 1",
    "N if N",
    "N :a",
    "N :a, N",
    "foo { |q| for N in q do end }",
    "foo { begin; rescue => N; end }",
    "N {}",
    "N do end",
    "N &:a",
];

impl M {
    fn lookup(&self, n: &str) -> Option<usize> {
        let mut d = 0;
        for (i, s) in self.scopes.iter().enumerate().rev() {
            if s.vars.iter().any(|v| v == n) {
                return Some(d);
            }
            if i == 0 {
                return self.outer.iter().find(|o| o.0 == n).map(|o| o.1 + d);
            }
            match s.kind {
                K::Block => d += 1,
                K::For => {}
                _ => return None,
            }
        }
        None
    }
    fn define(&mut self, n: &str) {
        if self.lookup(n).is_none() {
            let i = self.scopes.iter().rposition(|s| s.kind != K::For).unwrap();
            self.scopes[i].vars.push(n.to_string());
        }
    }
    fn tag(&self, n: &str) -> String {
        match self.lookup(n) {
            Some(d) => format!("lvar:{}:{}", d, n),
            None => format!("call:{}", n),
        }
    }
    fn mark(&mut self, n: &str) {
        let t = self.tag(n);
        self.out.push_str(&format!("[:m{}, {}]", self.marks.len(), n));
        self.marks.push(t);
    }
    fn name(&mut self) -> String {
        let i = self.rng.below(self.names.len());
        self.names[i].clone()
    }
    fn sep(&mut self) {
        let s = if self.rng.coin() { "\n" } else { "; " };
        self.out.push_str(s);
    }
    fn open(&mut self, kind: K) {
        self.scopes.push(S { kind, vars: vec![], at: self.tables.len() });
        self.tables.push(vec![]);
    }
    fn close(&mut self) {
        let s = self.scopes.pop().unwrap();
        self.tables[s.at] = s.vars;
    }
    /// A defining form, with its marks.
    fn def(&mut self, form: &str, n: &str) {
        let n2 = format!("{}_2", n);
        let b: Vec<char> = form.chars().collect();
        let alnum = |c: char| c.is_ascii_alphanumeric() || c == '_';
        let mut i = 0;
        while i < b.len() {
            let alone = |k: usize| (i == 0 || !alnum(b[i - 1])) && b.get(i + k).map_or(true, |c| !alnum(*c));
            if b[i] == '-' && b[i + 1] == '>' {
                // A lambda without parameters.
                self.out.push_str("-> {");
                self.open(K::Block);
                i += 4;
            } else if b[i] == '{' && i > 0 && b[i - 1] == ' ' && (b[i + 1] == ' ') {
                self.open(K::Block);
                self.out.push('{');
                i += 1;
            } else if b[i] == '}' && self.braces(&b, i) {
                self.close();
                self.out.push('}');
                i += 1;
            } else if b[i..].starts_with(&['c', 'l', 'a', 's', 's', ' ', '<', '<']) {
                self.out.push_str("class <<");
                i += 8;
            } else if b[i] == 'N' && b.get(i + 1) == Some(&'2') {
                self.out.push_str(&n2);
                i += 2;
                let rest: String = b[i..].iter().collect();
                if rest.starts_with(" =") || rest.starts_with(", N in") || rest.starts_with(" in") {
                    self.define(&n2);
                }
            } else if b[i] == 'B' && b.get(i + 1) == Some(&'2') {
                // A modifier: read after the name is defined.
                self.mark(n);
                i += 2;
            } else if b[i] == 'N' && alone(1) {
                let attr = i > 0 && b[i - 1] == '.';
                self.out.push_str(n);
                let word = i > 1 && b[i - 1] == '(' && b[i - 2] == 'w';
                if !attr && !word {
                    self.define(n);
                }
                i += 1;
            } else if (b[i] == 'A' || b[i] == 'B') && alone(1) {
                self.mark(n);
                i += 1;
            } else {
                self.out.push(b[i]);
                i += 1;
            }
        }
    }
    /// Whether the brace at `i` closes a block (and not a hash or `#{`).
    fn braces(&self, b: &[char], i: usize) -> bool {
        let mut d = 0;
        for j in (0..i).rev() {
            if b[j] == '}' {
                d += 1;
            } else if b[j] == '{' {
                if d == 0 {
                    return b.get(j + 1) == Some(&' ') && j > 0 && b[j - 1] == ' ';
                }
                d -= 1;
            }
        }
        false
    }
    fn in_method(&self) -> bool {
        for s in self.scopes.iter().rev() {
            match s.kind {
                K::Method => return true,
                K::Fresh | K::Top => return false,
                _ => {}
            }
        }
        false
    }
    fn params(&mut self, paren: bool) {
        let n = 1 + self.rng.below(3);
        let mut stage = 0;
        let (a, z) = if paren { ("(", ")") } else { ("|", "|") };
        let mut used: Vec<String> = vec![];
        self.out.push_str(a);
        for i in 0..n {
            let p = self.name();
            if used.contains(&p) {
                continue;
            }
            used.push(p.clone());
            if i > 0 {
                self.out.push_str(", ");
            }
            let k = (stage + self.rng.below(3)).min(6);
            stage = k.max(1);
            match k {
                0 | 1 => self.out.push_str(&p),
                2 => {
                    self.out.push_str(&format!("{} = ", p));
                    self.scopes.last_mut().unwrap().vars.push(p.clone());
                    let m = self.name();
                    if m != p {
                        self.mark(&m);
                    } else {
                        self.out.push('1');
                    }
                }
                3 => {
                    self.out.push_str(&format!("*{}", p));
                    stage = 4;
                }
                4 => {
                    self.out.push_str(&format!("{}: ", p));
                    self.scopes.last_mut().unwrap().vars.push(p.clone());
                    let m = self.name();
                    if m != p {
                        self.mark(&m);
                    } else {
                        self.out.push('1');
                    }
                }
                5 => {
                    self.out.push_str(&format!("**{}", p));
                    stage = 6;
                }
                _ => {
                    self.out.push_str(&format!("&{}", p));
                }
            }
            if k != 2 && k != 4 {
                self.scopes.last_mut().unwrap().vars.push(p);
            }
            if k == 6 {
                break;
            }
        }
        self.out.push_str(z);
    }
    fn body(&mut self) {
        let n = 1 + self.rng.below(3);
        for i in 0..n {
            if i > 0 {
                self.sep();
            }
            self.item();
        }
    }
    fn item(&mut self) {
        self.fuel -= 1;
        let n = self.name();
        let k = if self.fuel <= 0 { self.rng.below(8) } else { self.rng.below(30) };
        match k {
            0..=2 => self.mark(&n),
            3..=6 => {
                let f = *self.rng.pick(DEFS);
                // Forms with tables of their own are left to the paths.
                if f.contains("class") || f.contains("def ") || f.contains("for ") || f.contains("do") {
                    self.out.push_str(&format!("{} = 1", n));
                    self.define(&n);
                } else {
                    self.def(f, &n);
                }
            }
            7 => self.out.push_str(&format!("@{} = 1", n)),
            _ => self.scope(),
        }
    }
    fn scope(&mut self) {
        let m = self.in_method();
        match self.rng.below(18) {
            0..=3 => {
                let pre = *self.rng.pick(&["foo", "@a.foo", "foo(1)", "@a.b(:c).foo"]);
                self.out.push_str(pre);
                let brace = self.rng.coin();
                self.out.push_str(if brace { " { " } else { " do " });
                self.open(K::Block);
                if self.rng.coin() {
                    self.params(false);
                    self.out.push(' ');
                }
                self.body();
                self.close();
                self.out.push_str(if brace { " }" } else { "\nend" });
            }
            4 | 5 => {
                self.out.push_str("->");
                self.open(K::Block);
                if self.rng.coin() {
                    self.params(true);
                }
                let brace = self.rng.coin();
                self.out.push_str(if brace { " { " } else { " do " });
                self.body();
                self.close();
                self.out.push_str(if brace { " }" } else { "\nend" });
            }
            6 | 7 => {
                let s = *self.rng.pick(&["", "self.", "Foo."]);
                self.out.push_str(&format!("def {}m", s));
                self.open(K::Method);
                if self.rng.coin() {
                    self.params(true);
                }
                self.out.push('\n');
                self.body();
                self.close();
                self.out.push_str("\nend");
            }
            8 if !m => {
                let h = *self.rng.pick(&["class C", "class C < D", "module M", "class << self", "class ::C"]);
                self.out.push_str(h);
                self.out.push('\n');
                self.open(K::Fresh);
                self.body();
                self.close();
                self.out.push_str("\nend");
            }
            9 => {
                self.out.push_str("if ");
                self.item_expr();
                self.out.push('\n');
                self.body();
                self.out.push_str("\nelse\n");
                self.body();
                self.out.push_str("\nend");
            }
            10 => {
                let w = *self.rng.pick(&["while ", "until "]);
                self.out.push_str(w);
                self.item_expr();
                self.out.push('\n');
                self.body();
                self.out.push_str("\nend");
            }
            11 | 12 => {
                self.out.push_str("for ");
                let n = self.name();
                self.out.push_str(&n);
                self.define(&n);
                if self.rng.p(1, 3) {
                    let n = self.name();
                    self.out.push_str(&format!(", {}", n));
                    self.define(&n);
                }
                self.out.push_str(" in ");
                self.item_expr();
                let d = *self.rng.pick(&[" do ", "\n"]);
                self.out.push_str(d);
                self.open(K::For);
                self.body();
                self.close();
                self.out.push_str("\nend");
            }
            13 => {
                self.out.push_str("begin\n");
                self.body();
                self.out.push_str("\nrescue ");
                if self.rng.coin() {
                    let n = self.name();
                    self.out.push_str(&format!("E => {}", n));
                    self.define(&n);
                }
                self.out.push('\n');
                self.body();
                self.out.push_str("\nensure\n");
                self.body();
                self.out.push_str("\nend");
            }
            14 => {
                self.out.push('(');
                self.body();
                self.out.push(')');
            }
            15 => {
                let (a, z) = *self.rng.pick(&[("\"x#{", "}y\""), ("`#{", "}`"), ("/#{", "}/"), ("foo(\"#{", "}\")")]);
                self.out.push_str(a);
                let old = std::mem::replace(&mut self.instr, true);
                self.body();
                self.instr = old;
                self.out.push_str(z);
            }
            16 if !self.instr => {
                self.out.push_str("foo(<<H, 1)\nx\n#{");
                let old = std::mem::replace(&mut self.instr, true);
                self.body();
                self.instr = old;
                self.out.push_str("}\nH\n");
            }
            _ => {
                self.out.push_str("case ");
                self.item_expr();
                self.out.push_str("\nwhen 1, ");
                self.item_expr();
                self.out.push('\n');
                self.body();
                self.out.push_str("\nelse\n");
                self.body();
                self.out.push_str("\nend");
            }
        }
    }
    /// A mark or an assignment.
    fn item_expr(&mut self) {
        let n = self.name();
        if self.rng.p(1, 3) {
            self.out.push_str(&format!("({} = 1)", n));
            self.define(&n);
        } else {
            self.mark(&n);
        }
    }
}

/// What the tree says about the marks, and the tables of its scopes.
fn observed(t: &T) -> (std::collections::BTreeMap<usize, String>, Vec<Vec<String>>) {
    let mut marks = std::collections::BTreeMap::new();
    let mut tables = vec![];
    t.walk(&mut |x| {
        if x.tag.starts_with("array") && x.kids.len() == 2 {
            if let Some(i) = x.kids[0].tag.strip_prefix("sym:\"m").and_then(|s| s.strip_suffix('"')).and_then(|s| s.parse().ok()) {
                marks.insert(i, x.kids[1].tag.clone());
            }
        }
        if x.tag == "info" {
            tables.push(table_names(&x.kids[1].tag));
        }
    });
    (marks, tables)
}

fn table_names(tag: &str) -> Vec<String> {
    let s = tag.strip_prefix("lv[").and_then(|s| s.split_once(']')).map(|x| x.0).unwrap_or("");
    if s.is_empty() {
        vec![]
    } else {
        s.split(',').map(|x| x.to_string()).collect()
    }
}

fn new_model(c: &mut Case) -> M {
    let seed = c.rng.next();
    let mut rng = crate::rng::Rng::new(seed);
    let n = 2 + rng.below(4);
    let mut names: Vec<String> = vec![];
    while names.len() < n {
        let x = rng.s(LOCALS).to_string();
        if !names.contains(&x) {
            names.push(x);
        }
    }
    M {
        rng,
        out: String::new(),
        scopes: vec![S { kind: K::Top, vars: vec![], at: usize::MAX }],
        outer: vec![],
        marks: vec![],
        tables: vec![],
        names,
        instr: false,
        fuel: 0,
    }
}

fn judge_model(c: &mut Case, en: &Entry, mut m: M) {
    let src = std::mem::take(&mut m.out);
    c.nontrivial(&src);
    let top = m.scopes.pop().unwrap();
    match c.parse_as(en, &src, "x.rb") {
        Obs::Ok(r) => {
            let act = norm(&r.node);
            c.st.nodes += act.size() as u64;
            let (marks, tables) = observed(&act);
            for (i, x) in m.marks.iter().enumerate() {
                let y = marks.get(&i).map(|s| s.as_str()).unwrap_or("missing");
                if let Some(d) = x.strip_prefix("lvar:").and_then(|s| s.split_once(':')) {
                    c.hit("local");
                    c.hit(format!("depth:{}", d.0));
                } else {
                    c.hit("call");
                }
                if x != y {
                    c.fail_as(en, "x.rb", &src, format!("use m{}: expected {} got {}", i, x, y));
                    return;
                }
            }
            if tables != m.tables {
                c.fail_as(en, "x.rb", &src, format!("variable tables: expected {:?} got {:?}", m.tables, tables));
                return;
            }
            let l = r.lvar_collector.table();
            if *l != top.vars {
                c.fail_as(en, "x.rb", &src, format!("variable table of the text: expected {:?} got {:?}", top.vars, l));
            }
        }
        o => c.fail_as(en, "x.rb", &src, o.brief()),
    }
}

fn random_context(c: &mut Case, m: &M, in_ctx: &mut Vec<(String, usize)>, table: &mut Option<Vec<String>>) -> Entry {
    let names = &m.names;
    let mut ctx = vec![];
    for n in names {
        if c.rng.p(1, 2) {
            let big = c.rng.p(1, 20);
            ctx.push((n.clone(), if big { c.rng.below(100_000) } else { c.rng.below(6) }));
        }
    }
    // Names which cannot be written, too.
    if c.rng.p(1, 8) {
        ctx.push(("...".to_string(), 1));
        ctx.push(("self".to_string(), 1));
        ctx.push(("@a".to_string(), 1));
    }
    if c.rng.p(1, 2) {
        *in_ctx = ctx.clone();
        c.hit("eval");
        Entry::Eval(Some(Ctx(ctx)))
    } else {
        let with = c.rng.p(3, 4);
        if with {
            *in_ctx = ctx.clone();
        }
        let tab = c.rng.p(3, 4).then(|| {
            let mut v: Vec<String> = vec![];
            for n in names {
                if c.rng.p(1, 3) {
                    v.push(n.clone());
                }
            }
            if c.rng.p(1, 4) {
                v.push("unused".to_string());
            }
            v
        });
        *table = tab.clone();
        c.hit(if tab.is_some() { "binding-table" } else { "binding" });
        Entry::Binding(tab, with.then(|| Ctx(ctx)))
    }
}

fn model(c: &mut Case, surrounded: bool) {
    let mut m = new_model(c);
    m.fuel = *c.rng.pick(&[6, 12, 24]);
    let mut en = Entry::Program;
    if surrounded {
        let mut outer = vec![];
        let mut table = None;
        en = random_context(c, &m, &mut outer, &mut table);
        m.outer = outer;
        m.scopes[0].vars = table.unwrap_or_default();
        if matches!(en, Entry::Binding(..)) && !m.scopes[0].vars.is_empty() {
            c.hit("preset");
        }
    }
    let n = 2 + c.rng.below(5);
    for _ in 0..n {
        m.item();
        m.sep();
    }
    judge_model(c, &en, m);
}

// ---- every form, every path ------------------------------------------------------

/// Text before and after, the kind of scope (0 none, 1 block, 2 fresh).
const PATH: &[(&str, &str, u8)] = &[
    ("foo { ", " }", 1),
    ("foo do ", "\nend", 1),
    ("foo 1 do |q| ", "\nend", 1),
    ("foo { |q, w = 1| ", " }", 1),
    ("-> { ", " }", 1),
    ("->(q) do ", "\nend", 1),
    ("-> q { ", " }", 1),
    ("@a.foo(1) { ", " }", 1),
    ("@q = foo { ", " }", 1),
    ("foo(-> { ", " }, 1)", 1),
    ("[foo { ", " }]", 1),
    ("\"#{foo { ", " }}\"", 1),
    ("if @q\n", "\nend", 0),
    ("while @q do ", "\nend", 0),
    ("for q9 in @a do ", "\nend", 0),
    ("begin\n", "\nend", 0),
    ("begin\n@z\nrescue\n", "\nend", 0),
    ("begin\n@z\nensure\n", "\nend", 0),
    ("(", ")", 0),
    ("\"#{", "}\"", 0),
    ("foo(", ")", 0),
    ("[", "]", 0),
    ("{k: ", "}.m", 0),
    ("@z = ", "", 0),
    ("@z ? ", " : 1", 0),
    ("case @q\nwhen 1 then ", "\nend", 0),
    ("return ", "", 0),
    ("!", "", 0),
    ("1 + ", "", 0),
    ("def m\n", "\nend", 2),
    ("def self.m(q)\n", "\nend", 2),
    ("def m(q = 1, *w)\n", "\nend", 2),
    ("class << self\n", "\nend", 2),
];

fn paths(c: &mut Case) {
    let mut m = new_model(c);
    let k = c.idx as usize % (DEFS.len() + NODEFS.len());
    let n = m.names[0].clone();
    let defined = k < DEFS.len();
    if c.rng.p(1, 4) {
        m.mark(&n);
        m.out.push('\n');
    }
    if defined {
        let f = DEFS[k];
        // Only the uses, and the variables of the text, are compared here.
        m.def(f, &n);
        c.hit("paths:defined");
    } else {
        let f = NODEFS[k - DEFS.len()];
        let mut prev = ' ';
        for x in f.chars().collect::<Vec<_>>().windows(2).map(|w| (w[0], w[1])).chain(f.chars().last().map(|l| (l, ' '))) {
            let alone = !alnum_(prev) && !alnum_(x.1);
            match x.0 {
                'N' if alone => m.out.push_str(&n),
                'B' if alone => m.mark(&n),
                ch => m.out.push(ch),
            }
            prev = x.0;
        }
        c.hit("paths:undefined");
    }
    let hdr_tables = m.tables.len();
    let _ = hdr_tables;
    m.sep();
    let depth = c.rng.below(4);
    let mut post = vec![];
    for i in 0..depth {
        // Statements only where nothing narrower surrounds them.
        let p = loop {
            let p = c.rng.pick(PATH);
            let stmt = p.2 == 2 || ["while", "for", "return"].iter().any(|s| p.0.starts_with(s));
            if stmt && i > 0 && !post_is_body(post.last()) {
                continue;
            }
            // `return if x` is a modifier.
            if post.last().map_or(false, |l: &(&str, &str, u8)| l.0 == "return ") && p.1 == "\nend" {
                continue;
            }
            break p;
        };
        m.out.push_str(p.0);
        post.push(*p);
        match p.2 {
            1 => m.scopes.push(S { kind: K::Block, vars: vec![], at: 0 }),
            2 => m.scopes.push(S { kind: K::Fresh, vars: vec![], at: 0 }),
            _ => {}
        }
    }
    m.mark(&n);
    for p in post.iter().rev() {
        m.out.push_str(p.1);
        if p.2 > 0 {
            m.scopes.pop();
        }
    }
    m.sep();
    m.mark(&n);
    // Compare the uses only: the tables of the fixed forms differ.
    let src = m.out.clone();
    c.nontrivial(&src);
    match c.parse(&src) {
        Obs::Ok(r) => {
            let act = norm(&r.node);
            let (marks, _) = observed(&act);
            for (i, x) in m.marks.iter().enumerate() {
                let y = marks.get(&i).map(|s| s.as_str()).unwrap_or("missing");
                if x != y {
                    c.fail(&src, format!("use m{}: expected {} got {}", i, x, y));
                    return;
                }
            }
            let l = r.lvar_collector.table();
            let has = l.iter().filter(|x| **x == n).count();
            if has != defined as usize {
                c.fail(&src, format!("{} is {} times in the table {:?}", n, has, l));
            }
        }
        o => c.fail(&src, o.brief()),
    }
}

fn alnum_(c: char) -> bool {
    c.is_alphanumeric() || c == '_'
}

/// Whether statements may stand inside.
fn post_is_body(p: Option<&(&str, &str, u8)>) -> bool {
    p.map_or(true, |p| {
        p.2 > 0 && !p.0.contains("\"#{") || ["if", "while", "for", "begin", "(", "case"].iter().any(|s| p.0.starts_with(s)) && p.1 != ")" || p.0 == "("
    })
}

// ---- C15 ---------------------------------------------------------------------------

pub fn c15() -> Check {
    Check {
        id: "C15",
        rule: "Random nestings of scopes with uses and definitions of names, parsed with random contexts and supplied tables, judged by the small model of scopes (model); random programs over variables and over all constructs in random contexts, full trees and tables compared (program, mixture); the same text without a context, in an empty one, and as a binding without a table (empty); contexts that answer differently for every name, and long tables (fixed). Non-trivial: a text was parsed in a context; distinct by text.",
        modes: vec![
            Mode { name: "model", quick: 200_000, thorough: 3_000_000, f: |c| model(c, true) },
            Mode { name: "program", quick: 120_000, thorough: 1_500_000, f: |c| c15_program(c, feat()) },
            Mode { name: "mixture", quick: 60_000, thorough: 1_000_000, f: |c| c15_program(c, Feat::all()) },
            Mode { name: "empty", quick: 40_000, thorough: 500_000, f: c15_empty },
            Mode { name: "fixed", quick: 10_000, thorough: 100_000, f: c15_fixed },
        ],
        assumptions: &["the context answers the same for the same name"],
        must: &["eval", "binding-table", "binding", "preset", "local", "call", "depth:0", "depth:1", "depth:2", "empty"],
    }
}

fn c15_program(c: &mut Case, f: Feat) {
    let fuel = *c.rng.pick(&[6, 12, 24, 48]);
    let mut g = gen(c, f, fuel);
    let mut ctx: Vec<(String, usize)> = vec![];
    for n in LOCALS.iter().take(6).chain(LOCALS.iter().skip(6).filter(|n| n.len() % 2 == 0)) {
        if c.rng.p(1, 2) {
            ctx.push((n.to_string(), c.rng.below(6)));
        }
    }
    for n in METHODS.iter().filter(|n| !n.ends_with(|c| c == '?' || c == '!')) {
        if c.rng.p(1, 12) {
            ctx.push((n.to_string(), c.rng.below(3)));
        }
    }
    let en = match c.rng.below(3) {
        0 => {
            g.outer = ctx.clone();
            c.hit("eval");
            Entry::Eval(Some(Ctx(ctx)))
        }
        k => {
            let with = k == 1 || c.rng.coin();
            if with {
                g.outer = ctx.clone();
            }
            let tab = c.rng.p(3, 4).then(|| {
                let mut v: Vec<String> = vec![];
                for _ in 0..c.rng.below(5) {
                    let n = c.rng.s(LOCALS).to_string();
                    if !v.contains(&n) {
                        v.push(n);
                    }
                }
                v
            });
            c.hit(if tab.is_some() { "binding-table" } else { "binding" });
            g.scopes[0].kind = SK::Block;
            g.scopes[0].vars = tab.clone().unwrap_or_default();
            Entry::Binding(tab, with.then(|| Ctx(ctx)))
        }
    };
    let n = 1 + g.rng.below(4);
    let e = g.program(n);
    let st = style(c, &[0, 0, 40]);
    judge_as(c, &en, &mut g, e, st, TREE_TABLE);
}

fn c15_empty(c: &mut Case) {
    let fuel = *c.rng.pick(&[6, 12, 24, 48]);
    let mut g = gen(c, Feat::all(), fuel);
    let n = 1 + g.rng.below(4);
    let e = g.program(n);
    let st = style(c, &[0, 40]);
    if let Some((src, r)) = judge(c, &mut g, e, st, TREE_TABLE) {
        let want = format!("{:?} {}", r.node, lvar_tag(&r.lvar_collector));
        c.hit("empty");
        for en in [
            Entry::Eval(None),
            Entry::Eval(Some(Ctx(vec![]))),
            Entry::Eval(Some(Ctx(vec![("not_there".into(), 3)]))),
            Entry::Binding(None, None),
            Entry::Binding(Some(vec![]), Some(Ctx(vec![]))),
        ] {
            match c.parse_as(&en, &src, "x.rb") {
                Obs::Ok(x) => {
                    let got = format!("{:?} {}", x.node, lvar_tag(&x.lvar_collector));
                    if got != want {
                        c.fail_as(&en, "x.rb", &src, "another result than without a context");
                    }
                }
                o => c.fail_as(&en, "x.rb", &src, o.brief()),
            }
        }
    }
}

fn c15_fixed(c: &mut Case) {
    // Names at every depth and a table of many entries.
    let n = 1 + c.rng.below(60);
    let ctx: Vec<(String, usize)> = (0..n).map(|i| (format!("c{}", i), i * 7 % 31)).collect();
    let m = c.rng.below(300);
    let tab: Vec<String> = (0..m).map(|i| if i % 5 == 4 { format!("c{}", i / 5) } else { format!("t{}", i) }).collect();
    let blocks = c.rng.below(12);
    let mut src = String::new();
    for i in 0..blocks {
        src.push_str(if i % 2 == 0 { "foo { " } else { "-> do\n" });
    }
    let use_ = |r: &mut crate::rng::Rng| match r.below(3) {
        0 => format!("c{}", r.below(n + 3)),
        1 => format!("t{}", r.below(m + 3)),
        _ => format!("n{}", r.below(3)),
    };
    let mut expect = vec![];
    let mut vars: Vec<String> = tab.clone();
    let mut inner: Vec<String> = vec![];
    let k = 1 + c.rng.below(6);
    let find = |x: &str, vars: &Vec<String>, inner: &Vec<String>| -> Option<usize> {
        if inner.iter().any(|v| v == x) {
            return Some(0);
        }
        if vars.iter().any(|v| v == x) {
            return Some(blocks);
        }
        ctx.iter().find(|v| v.0 == x).map(|v| v.1 + blocks)
    };
    for i in 0..k {
        let x = use_(&mut c.rng);
        if c.rng.p(1, 3) {
            src.push_str(&format!("{} = 1; ", x));
            if find(&x, &vars, &inner).is_none() {
                if blocks == 0 {
                    vars.push(x);
                } else {
                    inner.push(x);
                }
            }
        } else {
            src.push_str(&format!("[:m{}, {}]; ", i, x));
            expect.push((
                i,
                match find(&x, &vars, &inner) {
                    Some(d) => format!("lvar:{}:{}", d, x),
                    None => format!("call:{}", x),
                },
            ));
        }
    }
    for i in (0..blocks).rev() {
        src.push_str(if i % 2 == 0 { " }" } else { "\nend" });
    }
    c.nontrivial(&src);
    let en = Entry::Binding(Some(tab), Some(Ctx(ctx.clone())));
    match c.parse_as(&en, &src, "x.rb") {
        Obs::Ok(r) => {
            let (marks, _) = observed(&norm(&r.node));
            for (i, x) in expect {
                let y = marks.get(&i).map(|s| s.as_str()).unwrap_or("missing");
                if x != y {
                    c.fail_as(&en, "x.rb", &src, format!("use m{}: expected {} got {}", i, x, y));
                    return;
                }
            }
            if *r.lvar_collector.table() != vars {
                c.fail_as(&en, "x.rb", &src, format!("table: expected {:?} got {:?}", vars, r.lvar_collector.table()));
            }
        }
        o => c.fail_as(&en, "x.rb", &src, o.brief()),
    }
}

// ---- C16 ---------------------------------------------------------------------------

const NKINDS: usize = 10;

fn seqs(len: u32) -> u64 {
    (NKINDS as u64).pow(len)
}

pub fn c16() -> Check {
    let upto4: u64 = (0..=4).map(seqs).sum();
    let upto5: u64 = (0..=5).map(seqs).sum();
    Check {
        id: "C16",
        rule: "All sequences of up to four (thorough: five) parameter kinds, in every form of definition (`def` with and without parentheses, `do` and brace blocks, lambdas with and without parentheses), judged by an independent grammar of the orders Ruby allows: the tree and variable table must be the meant ones, other orders must be rejected (all). Random longer lists with random defaults (long), valid lists with one name twice or one thing wrong (invalid), parameters in random programs (program). Non-trivial: a list of at least one parameter was judged; distinct by text.",
        modes: vec![
            Mode { name: "all", quick: upto4 * 6, thorough: upto5 * 6, f: c16_all },
            Mode { name: "long", quick: 60_000, thorough: 1_000_000, f: c16_long },
            Mode { name: "invalid", quick: 60_000, thorough: 1_000_000, f: c16_invalid },
            Mode { name: "program", quick: 100_000, thorough: 1_500_000, f: c16_program },
        ],
        assumptions: &["not covered: `**nil`, anonymous `**` and `&`, block-local variables, nested destructuring, endless methods"],
        must: &["def", "def-bare", "brace", "do", "lambda", "lambda-bare", "valid", "invalid-order", "duplicate", "forward", "destruct", "post"],
    }
}

fn c16_program(c: &mut Case) {
    let f = Feat {
        def: 30,
        block: 20,
        lambda: 20,
        fcall: 4,
        mcall: 3,
        array: 2,
        hash: 2,
        strs: 2,
        sym: 2,
        cst: 2,
        kwlit: 2,
        paren: 2,
        binop: 3,
        assign_e: 3,
        cmd: 6,
        stmt_assign: 3,
        begin: 1,
        class: 2,
        ..Feat::base()
    };
    focus(c, f, &[10, 20, 40], 3, &[0, 0, 40, 100], TREE_TABLE);
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum P {
    Req,
    Opt,
    Rest,
    Anon,
    Key,
    KeyOpt,
    KwRest,
    Block,
    Destruct,
    Fwd,
}
const PS: [P; NKINDS] = [P::Req, P::Opt, P::Rest, P::Anon, P::Key, P::KeyOpt, P::KwRest, P::Block, P::Destruct, P::Fwd];

#[derive(Clone, Copy, PartialEq, Debug)]
enum F {
    Def,
    DefBare,
    Brace,
    Do,
    Lambda,
    LambdaBare,
}
const FS: [F; 6] = [F::Def, F::DefBare, F::Brace, F::Do, F::Lambda, F::LambdaBare];

/// Whether Ruby allows this order.
fn allowed(v: &[P]) -> bool {
    let mut i = 0;
    let req = |p: P| matches!(p, P::Req | P::Destruct);
    while i < v.len() && req(v[i]) {
        i += 1;
    }
    while i < v.len() && v[i] == P::Opt {
        i += 1;
    }
    let mut rest = false;
    if i < v.len() && matches!(v[i], P::Rest | P::Anon) {
        i += 1;
        rest = true;
    }
    while i < v.len() && req(v[i]) {
        i += 1;
    }
    if i < v.len() && v[i] == P::Fwd {
        return i + 1 == v.len() && !rest;
    }
    while i < v.len() && matches!(v[i], P::Key | P::KeyOpt) {
        i += 1;
    }
    if i < v.len() && v[i] == P::KwRest {
        i += 1;
    }
    if i < v.len() && v[i] == P::Block {
        i += 1;
    }
    i == v.len()
}

/// Combinations of kinds and forms which are not judged.
fn unclear(v: &[P], f: F) -> bool {
    let bare = matches!(f, F::DefBare | F::LambdaBare);
    // In `def f (a, b), c` the parentheses would be those of the list.
    if bare && v.contains(&P::Destruct) {
        return true;
    }
    if f != F::Def && v.contains(&P::Fwd) {
        return true;
    }
    // What ends the list would be taken for a default or a name.
    if f == F::LambdaBare && v.last() == Some(&P::Key) || bare && v.last() == Some(&P::Anon) {
        return true;
    }
    false
}

/// Default values: text and tree. `p` is an earlier parameter.
fn default(c: &mut Case, p: Option<&str>, f: F) -> (String, T) {
    let r = &mut c.rng;
    match r.below(12) {
        0 => ("nil".into(), leaf("nil")),
        1 => ("\"s\"".into(), st("s")),
        2 => (":sym".into(), s("sym")),
        3 => ("[1, 2]".into(), array(vec![int(1), int(2)])),
        4 => ("(1 + 2)".into(), bin("+", int(1), int(2))),
        5 => ("@a".into(), leaf("ivar:@a")),
        6 => ("-1".into(), int(-1)),
        7 => ("A::B".into(), leaf("const:A::B")),
        8 if p.is_some() => (p.unwrap().into(), leaf(format!("lvar:0:{}", p.unwrap()))),
        9 if f == F::Def || f == F::Lambda => ("1 + 2 * 3".into(), bin("+", int(1), bin("*", int(2), int(3)))),
        10 if f == F::Def || f == F::Lambda => ("foo(1)".into(), fcall("foo", vec![int(1)])),
        11 if f == F::Def => ("{k: 1}".into(), hash(vec![s("k"), int(1)])),
        _ => {
            let i = r.below(1000) as i64;
            (i.to_string(), int(i))
        }
    }
}

struct List {
    text: String,
    params: Vec<T>,
    names: Vec<String>,
    kw: Vec<usize>,
    kwrest: Option<usize>,
    block: Option<usize>,
    fwd: Option<usize>,
}

impl List {
    fn tag(&self) -> String {
        let id = |x: Option<usize>| x.map(|i| i.to_string()).unwrap_or("-".into());
        format!(
            "lv[{}]kw{:?}kr{}b{}f{}n-",
            self.names.join(","),
            self.kw,
            id(self.kwrest),
            id(self.block),
            id(self.fwd)
        )
    }
}

/// The text of a list and what it means. With `dup`, that name is used again
/// for the parameter with the given number (of the named ones).
fn list(c: &mut Case, v: &[P], f: F, dup: Option<(usize, usize)>) -> List {
    let mut l = List { text: String::new(), params: vec![], names: vec![], kw: vec![], kwrest: None, block: None, fwd: None };
    let off = c.rng.below(LOCALS.len());
    let mut k = 0;
    let mut next = |l: &mut List| -> String {
        // Names beginning with an underscore may be used twice in Ruby.
        let pool: Vec<&&str> = LOCALS.iter().filter(|n| !n.starts_with('_')).collect();
        let i = (off + k) % pool.len();
        let mut n = pool[i].to_string();
        if k >= pool.len() {
            n = format!("{}_{}", n, k / pool.len());
        }
        if let Some((i, j)) = dup {
            if k == j {
                n = l.names[i].clone();
            }
        }
        k += 1;
        l.names.push(n.clone());
        n
    };
    let mut post = false;
    for (i, p) in v.iter().enumerate() {
        if i > 0 {
            let sp = if matches!(f, F::Def | F::Lambda) && c.rng.p(1, 12) { ",\n" } else { *c.rng.pick(&[", ", ", ", ",", " , "]) };
            l.text.push_str(sp);
        }
        let prev = l.names.iter().rev().find(|n| *n != "...").cloned();
        match p {
            P::Req => {
                let n = next(&mut l);
                l.text.push_str(&n);
                if post {
                    c.hit("post");
                }
                l.params.push(leaf(format!("{}:{}", if post { "post" } else { "req" }, n)));
            }
            P::Opt => {
                let n = next(&mut l);
                let (d, t_) = default(c, prev.as_deref(), f);
                let eq = *c.rng.pick(&[" = ", "=", " =", "= "]);
                l.text.push_str(&format!("{}{}{}", n, eq, d));
                l.params.push(t(format!("opt:{}", n), vec![t_]));
                post = true;
            }
            P::Rest => {
                let n = next(&mut l);
                l.text.push_str(&format!("*{}", n));
                l.params.push(leaf(format!("rest:{}", n)));
                post = true;
            }
            P::Anon => {
                l.text.push('*');
                l.params.push(leaf("rest:*"));
                post = true;
            }
            P::Key => {
                let n = next(&mut l);
                l.kw.push(l.names.len() - 1);
                l.text.push_str(&format!("{}:", n));
                l.params.push(leaf(format!("key:{}", n)));
            }
            P::KeyOpt => {
                let n = next(&mut l);
                l.kw.push(l.names.len() - 1);
                let (d, t_) = default(c, prev.as_deref(), f);
                let sp = *c.rng.pick(&[" ", "  ", "\t"]);
                l.text.push_str(&format!("{}:{}{}", n, sp, d));
                l.params.push(t(format!("key:{}", n), vec![t_]));
            }
            P::KwRest => {
                let n = next(&mut l);
                l.kwrest = Some(l.names.len() - 1);
                l.text.push_str(&format!("**{}", n));
                l.params.push(leaf(format!("keyrest:{}", n)));
            }
            P::Block => {
                let n = next(&mut l);
                l.block = Some(l.names.len() - 1);
                l.text.push_str(&format!("&{}", n));
                l.params.push(leaf(format!("block:{}", n)));
            }
            P::Destruct => {
                c.hit("destruct");
                let m = 1 + c.rng.below(3);
                let mut kids = vec![];
                l.text.push('(');
                for j in 0..m {
                    if j > 0 {
                        l.text.push_str(", ");
                    }
                    let n = next(&mut l);
                    l.text.push_str(&n);
                    kids.push(leaf(format!("d:{}", n)));
                }
                if m == 1 {
                    l.text.push(',');
                }
                l.text.push(')');
                l.params.push(t("destruct", kids));
            }
            P::Fwd => {
                c.hit("forward");
                l.text.push_str("...");
                l.names.push("...".into());
                l.fwd = Some(l.names.len() - 1);
                l.params.push(leaf("..."));
            }
        }
    }
    l
}

/// The definition with such a list, and its tree.
fn wrap(c: &mut Case, f: F, l: &List) -> (String, T) {
    let uses: Vec<&String> = l.names.iter().filter(|n| *n != "...").collect();
    // The body uses a parameter.
    let (b, bt) = match uses.last() {
        Some(n) => (format!("{}.k", n), mcall("k", leaf(format!("lvar:0:{}", n)), vec![])),
        None => ("nil".to_string(), leaf("nil")),
    };
    let info = t("info", vec![t("params", l.params.clone()), leaf(l.tag()), bt]);
    let x = &l.text;
    let blk = |i: T| fcall("foo", vec![t("blk", vec![t("lambda", vec![i])])]);
    let sp = |c: &mut Case| if c.rng.p(1, 4) { " " } else { "" };
    let (s1, s2) = (sp(c), sp(c));
    match f {
        F::Def => (format!("def foo{}({}{}){}{}\nend", s1, s2, x, *c.rng.pick(&["\n", ";", " "]), b), t("def:foo", vec![info])),
        F::DefBare => (format!("def foo {}{}{}\nend", x, *c.rng.pick(&["\n", ";", " ;"]), b), t("def:foo", vec![info])),
        F::Brace => (format!("foo {{{}|{}{}{}|{}{} }}", s1, s2, x, s2, s1, b), blk(info)),
        F::Do => (format!("foo do{}|{}{}|{}{}\nend", s1, s2, x, *c.rng.pick(&["\n", ";", " ", ""]), b), blk(info)),
        F::Lambda => (format!("->{}({}{}){}{{ {} }}", s1, s2, x, s2, b), t("lambda", vec![info])),
        F::LambdaBare => (format!("-> {} {{ {} }}", x, b), t("lambda", vec![info])),
    }
}

fn judge_list(c: &mut Case, v: &[P], f: F) {
    if unclear(v, f) || v.is_empty() && matches!(f, F::DefBare | F::LambdaBare) {
        return;
    }
    c.hit(["def", "def-bare", "brace", "do", "lambda", "lambda-bare"][FS.iter().position(|x| *x == f).unwrap()]);
    let l = list(c, v, f, None);
    let (src, e) = wrap(c, f, &l);
    if allowed(v) {
        c.hit("valid");
        let table = "lv[]kw[]kr-b-f-n-";
        expect_table(c, &src, &e, Some(table));
    } else {
        c.hit("invalid-order");
        expect_reject(c, &src, &format!("parameters in the order {:?}", v));
    }
}

fn c16_all(c: &mut Case) {
    let f = FS[(c.idx % 6) as usize];
    let mut k = c.idx / 6;
    let mut len = 0;
    while k >= seqs(len) {
        k -= seqs(len);
        len += 1;
    }
    let mut v = vec![];
    for _ in 0..len {
        v.push(PS[(k % NKINDS as u64) as usize]);
        k /= NKINDS as u64;
    }
    judge_list(c, &v, f);
}

fn valid_list(c: &mut Case, f: F, max: usize) -> Vec<P> {
    loop {
        let r = &mut c.rng;
        let mut v = vec![];
        let many = |r: &mut crate::rng::Rng| *r.pick(&[0, 0, 1, 1, 2, max]);
        for _ in 0..many(r) {
            v.push(if r.p(1, 5) { P::Destruct } else { P::Req });
        }
        for _ in 0..many(r) {
            v.push(P::Opt);
        }
        if r.p(1, 3) {
            v.push(*r.pick(&[P::Rest, P::Rest, P::Anon]));
        }
        for _ in 0..many(r) {
            v.push(if r.p(1, 5) { P::Destruct } else { P::Req });
        }
        if f == F::Def && r.p(1, 6) {
            v.push(P::Fwd);
        } else {
            for _ in 0..many(r) {
                v.push(*r.pick(&[P::Key, P::KeyOpt]));
            }
            if r.p(1, 3) {
                v.push(P::KwRest);
            }
            if r.p(1, 3) {
                v.push(P::Block);
            }
        }
        if !v.is_empty() && allowed(&v) && !unclear(&v, f) {
            return v;
        }
    }
}

fn c16_long(c: &mut Case) {
    let f = *c.rng.pick(&FS);
    let v = valid_list(c, f, 12);
    judge_list(c, &v, f);
    if c.rng.p(1, 4) {
        // Two neighbours exchanged.
        let mut w = v.clone();
        if w.len() > 1 {
            let i = c.rng.below(w.len() - 1);
            w.swap(i, i + 1);
            judge_list(c, &w, f);
        }
    }
}

/// Parameters which are never right: text, and whether also in a block.
const BAD_PARAMS: &[(&str, bool)] = &[
    ("A", true),
    ("@a", true),
    ("@@a", true),
    ("$a", true),
    ("1", true),
    ("\"a\"", true),
    (":a", true),
    ("nil", true),
    ("self", true),
    ("if", true),
    ("end", true),
    ("a?", true),
    ("a!", true),
    ("a b", true),
    ("a.b", true),
    ("a,, b", true),
    (", a", true),
    ("a,", false),
    ("*a b", true),
    ("**A", true),
    ("&A", true),
    ("*1", true),
    ("a = ", true),
    ("a =, b", true),
    ("*a = 1", true),
    ("&a = 1", true),
    ("**a = 1", true),
    ("A: 1", true),
    ("a: , A: 2", true),
    ("@a = 1", true),
    ("A = 1", true),
    ("(a", true),
    ("a)", false),
    ("(a, b", true),
    ("(A, b)", true),
    ("(1)", true),
    ("(a,, b)", true),
    ("**", false),
    ("a *b", true),
    ("a &b", true),
    ("a ...", true),
    ("a; ; b", false),
    ("..", true),
    ("a => b", true),
    ("a += 1", true),
    ("-a", true),
    ("a, 2", true),
    ("[a]", true),
    ("{a}", true),
    ("__FILE__", true),
    ("__LINE__", true),
    ("true", true),
    ("yield", true),
    ("*self", true),
    ("&nil", true),
    ("**true", true),
    ("*&a", true),
    ("&*a", true),
    ("***a", true),
];

pub fn c16_invalid(c: &mut Case) {
    let f = *c.rng.pick(&FS);
    let v = valid_list(c, f, 3);
    match c.rng.below(3) {
        0 => {
            let l = list(c, &v, f, None);
            let n = l.names.iter().filter(|n| *n != "...").count();
            if n < 2 {
                return;
            }
            let j = 1 + c.rng.below(n - 1);
            let i = c.rng.below(j);
            let l = list(c, &v, f, Some((i, j)));
            let names: std::collections::HashSet<&String> = l.names.iter().collect();
            if names.len() == l.names.len() {
                return;
            }
            let (src, _) = wrap(c, f, &l);
            c.hit("duplicate");
            expect_reject(c, &src, "a parameter name is used twice");
        }
        1 => {
            let (b, always) = *c.rng.pick(BAD_PARAMS);
            if !always && f != F::Def {
                return;
            }
            if matches!(f, F::DefBare | F::LambdaBare) && (b.starts_with('(') || b.contains('{') || b.ends_with("= ")) {
                return;
            }
            // Alone, or after a required one.
            let x = if c.rng.coin() { b.to_string() } else { format!("r, {}", b) };
            let l = List { text: x, params: vec![], names: vec![], kw: vec![], kwrest: None, block: None, fwd: None };
            let (src, _) = wrap(c, f, &l);
            c.hit("bad-parameter");
            expect_reject(c, &src, "a wrong parameter");
        }
        _ => {
            // The list is not closed, or closed by something else.
            if matches!(f, F::DefBare | F::LambdaBare) {
                return;
            }
            let l = list(c, &v, f, None);
            let (src, _) = wrap(c, f, &l);
            let close = if matches!(f, F::Def | F::Lambda) { ')' } else { '|' };
            let i = src.find(&l.text).unwrap() + l.text.len();
            let j = i + src[i..].find(close).unwrap();
            let with = *c.rng.pick(&["", "]", "}", ",,", "1", "=", "@", "end "]);
            let bad = format!("{}{}{}", &src[..j], with, &src[j + 1..]);
            // `a: 1` and the like can swallow what follows, never the missing end.
            c.hit("unclosed");
            expect_reject(c, &bad, "the list is not closed");
        }
    }
}
