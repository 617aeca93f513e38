//! Generator of programs together with the tree they must have.
//!
//! Tokens are produced from left to right while a model of the scopes is kept,
//! so the expected term is known by construction (it does not come from a
//! parser). Only forms for which Ruby's meaning is unambiguous are produced.
use crate::rng::Rng;
use crate::term::*;
use crate::tok::*;
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum SK {
    Eval,
    Class,
    Method,
    Block,
    For,
}

#[derive(Clone, Debug)]
pub struct Scope {
    pub kind: SK,
    pub vars: Vec<String>,
    pub params: Vec<String>,
    pub kw: Vec<usize>,
    pub kwrest: Option<usize>,
    pub block: Option<usize>,
    pub fwd: Option<usize>,
    pub np: bool,
    pub no_np: bool,
    pub has_params: bool,
}

impl Scope {
    pub fn new(kind: SK) -> Scope {
        Scope {
            kind,
            vars: vec![],
            params: vec![],
            kw: vec![],
            kwrest: None,
            block: None,
            fwd: None,
            np: false,
            no_np: false,
            has_params: false,
        }
    }
    pub fn tag(&self) -> String {
        let id = |x: Option<usize>| x.map(|i| i.to_string()).unwrap_or("-".into());
        format!(
            "lv[{}]kw{:?}kr{}b{}f{}n{}",
            self.vars.join(","),
            self.kw,
            id(self.kwrest),
            id(self.block),
            id(self.fwd),
            if self.np { "1" } else { "-" }
        )
    }
    fn param(&mut self, n: &str) -> usize {
        self.params.push(n.to_string());
        self.put(n)
    }
    /// Variables assigned in default values follow the parameters.
    fn params_first(&mut self) {
        let old = self.vars.clone();
        let ps = self.params.clone();
        self.vars.sort_by_key(|v| !ps.contains(v));
        let new = self.vars.clone();
        let f = |i: &mut usize| *i = new.iter().position(|v| *v == old[*i]).unwrap();
        self.kw.iter_mut().for_each(f);
        for o in [&mut self.kwrest, &mut self.block, &mut self.fwd] {
            o.iter_mut().for_each(f);
        }
    }
    fn put(&mut self, n: &str) -> usize {
        self.vars.push(n.to_string());
        self.vars.len() - 1
    }
}

/// Weights of the constructs; 0 disables one.
#[derive(Clone, Debug)]
pub struct Feat {
    // leaves
    /// Numbers of every form and size, not only small ones.
    pub num_rich: bool,
    pub num: usize,
    pub neg: usize,
    pub strs: usize,
    pub istr: usize,
    pub here: usize,
    pub regex: usize,
    pub sym: usize,
    pub pct: usize,
    pub ch: usize,
    pub xstr: usize,
    pub var: usize,
    pub gvar: usize,
    pub cst: usize,
    pub kwlit: usize,
    // composite primaries
    pub array: usize,
    pub hash: usize,
    pub index: usize,
    pub mcall: usize,
    pub fcall: usize,
    pub block: usize,
    pub lambda: usize,
    pub paren: usize,
    pub begin: usize,
    pub control: usize,
    pub defined: usize,
    pub np: usize,
    // operators
    pub unop: usize,
    pub binop: usize,
    pub logic: usize,
    pub cmp: usize,
    pub range: usize,
    pub ternary: usize,
    pub assign_e: usize,
    pub def_e: usize,
    // statements
    pub stmt_assign: usize,
    pub stmt_massign: usize,
    pub stmt_opassign: usize,
    pub cmd: usize,
    pub modifier: usize,
    pub andor: usize,
    pub loops: usize,
    pub def: usize,
    pub class: usize,
    pub alias: usize,
    pub jump: usize,
    // redundant parentheses
    pub redundant: usize,
}

impl Feat {
    pub fn base() -> Feat {
        Feat {
            num_rich: false,
            num: 6,
            neg: 0,
            strs: 0,
            istr: 0,
            here: 0,
            regex: 0,
            sym: 0,
            pct: 0,
            ch: 0,
            xstr: 0,
            var: 10,
            gvar: 0,
            cst: 0,
            kwlit: 0,
            array: 0,
            hash: 0,
            index: 0,
            mcall: 0,
            fcall: 0,
            block: 0,
            lambda: 0,
            paren: 0,
            begin: 0,
            control: 0,
            defined: 0,
            np: 0,
            unop: 0,
            binop: 0,
            logic: 0,
            cmp: 0,
            range: 0,
            ternary: 0,
            assign_e: 0,
            def_e: 0,
            stmt_assign: 0,
            stmt_massign: 0,
            stmt_opassign: 0,
            cmd: 0,
            modifier: 0,
            andor: 0,
            loops: 0,
            def: 0,
            class: 0,
            alias: 0,
            jump: 0,
            redundant: 0,
        }
    }
    pub fn all() -> Feat {
        Feat {
            num_rich: true,
            num: 6,
            neg: 3,
            strs: 4,
            istr: 3,
            here: 2,
            regex: 2,
            sym: 3,
            pct: 1,
            ch: 1,
            xstr: 1,
            var: 16,
            gvar: 3,
            cst: 3,
            kwlit: 3,
            array: 3,
            hash: 3,
            index: 3,
            mcall: 6,
            fcall: 5,
            block: 4,
            lambda: 2,
            paren: 2,
            begin: 1,
            control: 2,
            defined: 1,
            np: 2,
            unop: 3,
            binop: 6,
            logic: 3,
            cmp: 3,
            range: 2,
            ternary: 2,
            assign_e: 2,
            def_e: 1,
            stmt_assign: 10,
            stmt_massign: 4,
            stmt_opassign: 4,
            cmd: 6,
            modifier: 4,
            andor: 3,
            loops: 5,
            def: 5,
            class: 3,
            alias: 1,
            jump: 3,
            redundant: 3,
        }
    }
}

/// Restrictions on an expression from what follows or surrounds it.
#[derive(Clone, Copy, Debug)]
pub struct Cx {
    /// Nothing which an assignment could swallow follows.
    pub tail: bool,
    /// `do` would end a loop condition or belong to a command on the left.
    pub nodo: bool,
}

pub const CX: Cx = Cx {
    tail: true,
    nodo: false,
};
pub const INNER: Cx = Cx {
    tail: false,
    nodo: false,
};

impl Cx {
    pub fn notail(self) -> Cx {
        Cx {
            tail: false,
            ..self
        }
    }
    pub fn nodo(self) -> Cx {
        Cx { nodo: true, ..self }
    }
}

pub const LOCALS: &[&str] = &[
    "a", "b", "c", "x", "y", "z1", "foo_1", "_x", "été", "変数", "aB", "if_x", "endx", "do_it",
    "__x", "self_", "nil_1", "defx", "e", "i", "nilx", "_10", "_0", "a_b_c", "trueish", "inn", "or1",
    "p1", "k", "v2", "ñ",
];
pub const METHODS: &[&str] = &[
    "foo", "bar", "puts", "baz?", "qux!", "m1", "étude", "p", "is_a?", "do!", "end?", "if?",
    "raise", "attr_x", "print_", "x9", "nilly", "変換",
];
pub const CONSTS: &[&str] = &["Foo", "Bar", "A", "B1", "Str_x", "XÉ", "Nil", "END_", "Cls"];
pub const KEYWORDS: &[&str] = &[
    "alias", "and", "begin", "break", "case", "class", "def", "do", "else", "elsif", "end",
    "ensure", "for", "if", "in", "module", "next", "or", "redo", "rescue", "return", "super",
    "then", "until", "unless", "when", "while", "yield", "BEGIN", "END",
];

/// Levels of precedence.
pub const L_ASSIGN: u8 = 4;
pub const L_TERN: u8 = 5;
pub const L_RANGE: u8 = 6;
pub const L_OR: u8 = 7;
pub const L_AND: u8 = 8;
pub const L_EQ: u8 = 9;
pub const L_CMP: u8 = 10;
pub const L_BOR: u8 = 11;
pub const L_BAND: u8 = 12;
pub const L_SHIFT: u8 = 13;
pub const L_ADD: u8 = 14;
pub const L_MUL: u8 = 15;
pub const L_UMINUS: u8 = 16;
pub const L_POW: u8 = 17;
pub const L_UN: u8 = 18;
pub const L_PRIM: u8 = 19;
pub const L_DEFINED: u8 = 3;

pub struct G {
    pub rng: Rng,
    pub toks: Vec<Tok>,
    pub next_id: usize,
    pub next_sep: Option<Sep>,
    pub nonl: usize,
    pub here_pending: bool,
    pub no_here: usize,
    pub open: usize,
    pub awaiting: bool,
    pub cmd_first: bool,
    /// At the start of the value of `return`, where `if` would be a modifier.
    pub jump_first: bool,
    /// The expression just produced ends with a name which could be a command.
    pub last_open: bool,
    pub scopes: Vec<Scope>,
    /// Variables of the surrounding context: name and depth.
    pub outer: Vec<(String, usize)>,
    pub loops: usize,
    pub fuel: isize,
    pub f: Feat,
    pub cov: BTreeMap<&'static str, u64>,
    pub path: String,
    /// No multi-line text in literals.
    pub flat: bool,
    /// No assignment to constants outside definitions.
    pub no_const: bool,
    /// Expressions around which parentheses may be put: first and last token.
    pub marks: Vec<(usize, usize)>,
    /// Statements.
    pub stmt_marks: Vec<(usize, usize)>,
}

impl G {
    pub fn new(rng: Rng, f: Feat, fuel: isize) -> G {
        G {
            rng,
            toks: vec![],
            next_id: 0,
            next_sep: None,
            nonl: 0,
            here_pending: false,
            no_here: 0,
            open: 0,
            awaiting: false,
            cmd_first: false,
            jump_first: false,
            last_open: false,
            scopes: vec![Scope::new(SK::Eval)],
            outer: vec![],
            loops: 0,
            fuel,
            f,
            cov: BTreeMap::new(),
            path: String::new(),
            flat: false,
            no_const: false,
            marks: vec![],
            stmt_marks: vec![],
        }
    }

    pub fn hit(&mut self, k: &'static str) {
        *self.cov.entry(k).or_insert(0) += 1;
    }

    // ---- tokens -------------------------------------------------------

    pub fn sep(&mut self, s: Sep) {
        self.next_sep = Some(s);
    }

    pub fn tk(&mut self, text: impl Into<String>) -> usize {
        let id = self.next_id;
        self.next_id += 1;
        let mut sep = self.next_sep.take().unwrap_or(Sep::Opt);
        if sep == Sep::Term && self.here_pending && self.nonl == 0 {
            sep = Sep::TermNl;
            self.here_pending = false;
        }
        self.toks.push(Tok {
            id,
            text: text.into(),
            sep,
            bin: false,
            nonl: self.nonl > 0,
            here: None,
            open: self.open + self.awaiting as usize,
            act: 0,
        });
        self.awaiting = false;
        self.cmd_first = false;
        self.jump_first = false;
        self.last_open = false;
        id
    }
    pub fn glue(&mut self, text: impl Into<String>) -> usize {
        self.sep(Sep::Glue);
        self.tk(text)
    }
    /// A token which can only be followed by an operand.
    pub fn op(&mut self, text: &str, lhs_open: bool) -> usize {
        let id = self.tk(text);
        let n = self.toks.len();
        self.toks[n - 1].bin = lhs_open;
        self.awaiting = true;
        self.sep(Sep::OptNl);
        id
    }
    /// The last token opens or closes a construct.
    pub fn act(&mut self, a: i8) {
        let n = self.toks.len();
        self.toks[n - 1].act = a;
    }
    /// A keyword or bracket which opens a construct.
    pub fn opening(&mut self, text: &str) -> usize {
        let id = self.tk(text);
        self.act(1);
        self.open += 1;
        id
    }
    pub fn closing(&mut self, text: &str) -> usize {
        let id = self.tk(text);
        self.act(-1);
        self.open -= 1;
        id
    }
    pub fn ltok(&mut self, tag: impl Into<String>, text: impl Into<String>) -> T {
        let id = self.tk(text);
        let mut r = leaf(tag);
        r.loc = Some((id, id));
        r
    }

    // ---- scopes -------------------------------------------------------

    pub fn lookup(&self, name: &str) -> Option<usize> {
        let mut depth = 0;
        for (i, s) in self.scopes.iter().enumerate().rev() {
            if s.vars.iter().any(|v| v == name) {
                return Some(depth);
            }
            if i == 0 {
                break;
            }
            match s.kind {
                SK::Block => depth += 1,
                SK::For => {}
                _ => return None,
            }
        }
        self.outer
            .iter()
            .find(|(n, _)| n == name)
            .map(|(_, d)| d + depth)
    }
    pub fn define(&mut self, name: &str) -> usize {
        if let Some(d) = self.lookup(name) {
            return d;
        }
        let s = self.scopes.iter_mut().rev().find(|s| s.kind != SK::For).unwrap();
        s.put(name);
        0
    }
    pub fn top(&mut self) -> &mut Scope {
        self.scopes.last_mut().unwrap()
    }
    pub fn in_method(&self) -> bool {
        for s in self.scopes.iter().rev() {
            match s.kind {
                SK::Method => return true,
                SK::Class | SK::Eval => return false,
                _ => {}
            }
        }
        false
    }
    pub fn const_assignable(&self) -> bool {
        for s in self.scopes.iter().rev() {
            match s.kind {
                SK::Class => return true,
                SK::Eval => return !self.no_const,
                SK::Method => return false,
                _ => {}
            }
        }
        !self.no_const
    }
    pub fn local_name(&mut self) -> String {
        // Prefer few names, so that they meet.
        let n = if self.rng.p(3, 4) { 6 } else { LOCALS.len() };
        if self.rng.p(1, 60) {
            let n = 1 + self.rng.below(200);
            return format!("v{}", "abc_".repeat(n));
        }
        LOCALS[self.rng.below(n)].to_string()
    }
    /// A name which is not a variable here.
    pub fn func_name(&mut self) -> String {
        for _ in 0..4 {
            let n = if self.rng.p(1, 4) {
                self.local_name()
            } else {
                self.rng.s(METHODS).to_string()
            };
            if self.lookup(&n).is_none() {
                return n;
            }
        }
        "baz?".to_string()
    }
    pub fn np_ok(&self) -> bool {
        let n = self.scopes.len();
        let s = &self.scopes[n - 1];
        if s.kind != SK::Block || s.no_np || s.has_params || n == 1 {
            return false;
        }
        for (i, s) in self.scopes.iter().enumerate().rev().skip(1) {
            if s.np {
                return false;
            }
            if i == 0 || !matches!(s.kind, SK::Block | SK::For) {
                break;
            }
        }
        true
    }
    pub fn use_np(&mut self) {
        let n = self.scopes.len();
        self.scopes[n - 1].np = true;
        for s in self.scopes.iter_mut().rev().skip(1) {
            s.no_np = true;
            if !matches!(s.kind, SK::Block | SK::For) {
                break;
            }
        }
    }

    // ---- expressions --------------------------------------------------

    /// A length of a list: one of these, now and then much more.
    fn some(&mut self, of: &[usize]) -> usize {
        if self.fuel <= 0 {
            return *self.rng.pick(of);
        }
        some(&mut self.rng, of)
    }

    pub fn small(&mut self) -> bool {
        self.fuel <= 0
    }

    /// Expression of at least the given level of precedence.
    pub fn expr(&mut self, min: u8, cx: Cx) -> T {
        let ok = !self.cmd_first && !self.jump_first;
        let first = self.next_id;
        let r = self.expr_inner(min, cx);
        if ok {
            self.marks.push((first, self.next_id - 1));
        }
        r
    }
    fn expr_inner(&mut self, min: u8, cx: Cx) -> T {
        self.fuel -= 1;
        if self.small() {
            return self.primary(cx);
        }
        let f = &self.f;
        let prim = 12 + f.num;
        let ws = [
            prim,
            f.binop,
            f.logic,
            f.cmp,
            f.unop,
            f.range,
            f.ternary,
            f.assign_e,
            f.def_e,
            f.redundant,
        ];
        let k = self.rng.w(&ws);
        let level = match k {
            0 => L_PRIM,
            1 => *self.rng.pick(&[L_BOR, L_BAND, L_SHIFT, L_ADD, L_ADD, L_MUL, L_MUL, L_POW]),
            2 => *self.rng.pick(&[L_OR, L_AND]),
            3 => *self.rng.pick(&[L_EQ, L_CMP]),
            4 => *self.rng.pick(&[L_UMINUS, L_UN]),
            5 => L_RANGE,
            6 => L_TERN,
            7 => L_ASSIGN,
            8 => L_DEFINED,
            _ => L_PRIM,
        };
        if k == 9 {
            self.hit("redundant-paren");
            return self.paren(|g| g.expr(L_DEFINED, CX));
        }
        if k == 0 {
            return self.primary(cx);
        }
        let needs_tail = level == L_ASSIGN || level == L_DEFINED;
        // An assignment may stand as the right operand of a tighter operator.
        let asgn_ok = level == L_ASSIGN && cx.tail && min <= L_UMINUS && self.rng.p(1, 2);
        let def_ok = level == L_DEFINED && cx.tail && self.rng.p(1, 2);
        if (level < min && !asgn_ok && !def_ok) || needs_tail && !cx.tail {
            return self.paren(|g| g.level(level, CX));
        }
        self.level(level, cx)
    }

    pub fn paren(&mut self, body: impl FnOnce(&mut G) -> T) -> T {
        self.opening("(");
        self.sep(Sep::OptNl);
        let r = body(self);
        self.sep(Sep::OptNl);
        self.closing(")");
        r
    }

    fn level(&mut self, level: u8, cx: Cx) -> T {
        match level {
            L_DEFINED => self.defined_unparen(cx),
            L_ASSIGN => self.assign_expr(cx),
            L_TERN => self.ternary(cx),
            L_RANGE => {
                let a = self.expr(L_OR, cx.notail());
                let excl = self.rng.coin();
                let o = self.last_open;
                self.op(if excl { "..." } else { ".." }, o);
                let b = self.expr(L_OR, cx);
                self.hit("range");
                range(a, b, excl)
            }
            L_OR => self.left(level, &["||"], cx),
            L_AND => self.left(level, &["&&"], cx),
            L_EQ => {
                let a = self.expr(L_CMP, cx.notail());
                let o = self.last_open;
                let op = self.rng.s(&["==", "!=", "===", "=~", "!~", "<=>"]);
                self.op(op, o);
                let b = self.expr(L_CMP, cx);
                self.hit(op);
                if op == "!~" {
                    t("un:!", vec![t("bin:=~", vec![a, b])])
                } else {
                    t(format!("bin:{}", op), vec![a, b])
                }
            }
            L_CMP => self.left(level, &["<", "<=", ">", ">="], cx),
            L_BOR => self.left(level, &["|", "^"], cx),
            L_BAND => self.left(level, &["&"], cx),
            L_SHIFT => self.left(level, &["<<", ">>"], cx),
            L_ADD => self.left(level, &["+", "-"], cx),
            L_MUL => self.left(level, &["*", "/", "%"], cx),
            L_UMINUS => self.uminus(cx),
            L_POW => self.pow(cx),
            L_UN => self.unary(cx),
            _ => self.primary(cx),
        }
    }

    fn left(&mut self, level: u8, ops: &[&'static str], cx: Cx) -> T {
        let n = if self.rng.p(1, 4) { 2 } else { 1 };
        let mut a = self.expr(level, cx.notail());
        for i in 0..n {
            let o = self.last_open;
            let op = self.rng.s(ops);
            self.op(op, o);
            self.hit(op);
            let cx = if i + 1 == n { cx } else { cx.notail() };
            let b = self.expr(level + 1, cx);
            a = t(format!("bin:{}", op), vec![a, b]);
        }
        a
    }

    fn pow(&mut self, cx: Cx) -> T {
        self.hit("**");
        let neg = self.rng.p(1, 6);
        if neg {
            // -2 ** x is -(2 ** x)
            let s = self.uint_text().0;
            self.tk("-");
            let v = crate::lit::int_value(&s);
            self.glue(s);
            let a = leaf(format!("int:{}", v));
            self.op("**", false);
            let b = self.pow_rhs(cx);
            self.hit("neg-literal**");
            return t("un:-@", vec![t("bin:**", vec![a, b])]);
        }
        let a = self.expr(L_UN, cx.notail());
        let o = self.last_open;
        self.op("**", o);
        let b = self.pow_rhs(cx);
        t("bin:**", vec![a, b])
    }
    fn pow_rhs(&mut self, cx: Cx) -> T {
        match self.rng.below(6) {
            0 => self.uminus(cx.notail()),
            1 | 2 => self.pow(cx.notail()),
            _ => self.expr(L_UN, cx.notail()),
        }
    }

    /// Unary minus on something whose first token is not a number.
    fn uminus(&mut self, cx: Cx) -> T {
        self.hit("unary-minus");
        if self.rng.p(1, 3) {
            return self.neg_literal();
        }
        self.tk("-");
        self.awaiting = true;
        self.sep(Sep::Glue);
        let a = match self.rng.below(4) {
            0 => self.paren(|g| g.expr(L_DEFINED, CX)),
            1 => {
                // -x ** y
                let a = self.var_or_call();
                let o = self.last_open;
                self.op("**", o);
                let b = self.pow_rhs(cx);
                t("bin:**", vec![a, b])
            }
            _ => self.var_or_call(),
        };
        t("un:-@", vec![a])
    }

    fn unary(&mut self, cx: Cx) -> T {
        let op = self.rng.s(&["!", "!", "~", "+"]);
        self.hit("unary");
        self.tk(op);
        self.awaiting = true;
        self.sep(Sep::Glue);
        let a = if op == "!" && self.rng.p(1, 4) {
            // The operand must not start with '~' or '='.
            self.tk("!");
            self.awaiting = true;
            self.sep(Sep::Glue);
            let a = self.var_or_call();
            t("un:!", vec![a])
        } else if self.rng.p(1, 3) {
            self.paren(|g| g.expr(L_DEFINED, CX))
        } else if self.rng.p(1, 3) && op != "+" {
            self.number()
        } else if self.rng.p(1, 6) && cx.tail && op == "!" {
            // !x = 1
            self.hit("!x=");
            self.simple_assign(cx)
        } else if self.rng.p(1, 8) && cx.tail && op == "!" {
            self.defined_unparen(cx)
        } else {
            self.var_or_call()
        };
        t(
            format!("un:{}", if op == "+" { "+@" } else { op }),
            vec![a],
        )
    }

    fn ternary(&mut self, cx: Cx) -> T {
        self.hit("ternary");
        let c = self.expr(L_RANGE, cx.notail());
        self.sep(Sep::Sp);
        self.tk("?");
        self.awaiting = true;
        self.sep(Sep::SpNl);
        let level = if self.rng.p(1, 6) { L_ASSIGN } else { L_TERN };
        self.open += 1;
        let a = self.expr(level, Cx { tail: level == L_ASSIGN, ..cx });
        self.sep(Sep::SpNl);
        self.tk(":");
        self.open -= 1;
        self.awaiting = true;
        self.sep(Sep::SpNl);
        let b = self.expr(L_TERN, cx);
        t("if", vec![c, a, b])
    }

    fn defined_unparen(&mut self, cx: Cx) -> T {
        self.hit("defined");
        self.tk("defined?");
        self.awaiting = true;
        self.sep(Sep::Sp);
        let a = self.expr(L_DEFINED, cx);
        t("defined", vec![a])
    }

    // ---- primaries ----------------------------------------------------

    /// A variable, a call or the like: never starts with a number or operator.
    pub fn var_or_call(&mut self) -> T {
        match self.rng.below(5) {
            0 => self.gvar(),
            1 => {
                let r = self.var();
                self.suffix_call(r, INNER.nodo(), false)
            }
            _ => self.var(),
        }
    }

    /// A plain name: a variable when visible, else a call without arguments.
    pub fn var(&mut self) -> T {
        let n = if self.rng.p(1, 6) {
            self.rng.s(METHODS).to_string()
        } else {
            self.local_name()
        };
        self.name(&n)
    }
    pub fn name(&mut self, n: &str) -> T {
        match self.lookup(n) {
            Some(d) => {
                self.hit(match d {
                    0 => "lvar-depth0",
                    1 => "lvar-depth1",
                    2 => "lvar-depth2",
                    _ => "lvar-deeper",
                });
                self.ltok(format!("lvar:{}:{}", d, n), n)
            }
            None => {
                self.hit("name-call");
                let r = self.ltok(format!("call:{}", n), n);
                self.last_open = true;
                r
            }
        }
    }

    pub fn gvar(&mut self) -> T {
        self.hit("gvar");
        match self.rng.below(8) {
            0 | 1 | 2 => {
                let n = format!("@{}", self.local_name());
                self.ltok(format!("ivar:{}", n), n)
            }
            3 => {
                let n = format!("@@{}", self.local_name());
                self.ltok(format!("cvar:{}", n), n)
            }
            4 | 5 => {
                let n = self
                    .rng
                    .s(&["$a", "$foo_1", "$Stdout", "$stderr", "$_x", "$été", "$0", "$LOAD", "$LOAD_PATHS", "$-w", "$-0"]);
                self.ltok(format!("gvar:{}", n), n)
            }
            6 => {
                let n = self.rng.s(&["$!", "$@", "$;", "$/", "$,", "$~", "$$", "$*", "$?", "$.", "$<", "$>", "$`", "$+", "$\\"]);
                self.ltok(format!("gvar:{}", n), n)
            }
            _ => {
                let (n, i) = *self.rng.pick(&[
                    ("$&", 0u32),
                    ("$'", 1),
                    ("$:", 10),
                    ("$LOAD_PATH", 10),
                    ("$\"", 11),
                    ("$LOADED_FEATURES", 11),
                    ("$1", 101),
                    ("$2", 102),
                    ("$9", 109),
                    ("$10", 110),
                    ("$99", 199),
                    ("$123", 223),
                    ("$4294967195", u32::MAX),
                ]);
                self.ltok(format!("svar:{}", i), n)
            }
        }
    }

    pub fn constant(&mut self) -> T {
        self.hit("const");
        let n = self.rng.s(CONSTS);
        let mut tag = String::from("const:");
        let first;
        if self.rng.p(1, 6) {
            first = self.tk("::");
            self.awaiting = true;
            self.glue(n);
            tag += "::";
        } else {
            first = self.tk(n);
        }
        tag += n;
        while self.rng.p(1, 4) {
            self.glue("::");
            self.awaiting = true;
            let n = self.rng.s(CONSTS);
            self.glue(n);
            tag += "::";
            tag += n;
        }
        self.last_open = true;
        let mut r = leaf(tag);
        r.loc = Some((first, self.next_id - 1));
        r
    }

    pub fn kwlit(&mut self) -> T {
        match self.rng.below(6) {
            0 => self.ltok("true", "true"),
            1 => self.ltok("false", "false"),
            2 => self.ltok("nil", "nil"),
            3 if self.rng.p(1, 3) => {
                let p = self.path.clone();
                self.hit("__FILE__");
                let id = self.tk("__FILE__");
                let mut r = lit(p.into_bytes(), false);
                r.loc = Some((id, id));
                r
            }
            4 if self.rng.p(1, 3) => {
                self.hit("__LINE__");
                // The number is filled in after rendering.
                self.ltok("line", "__LINE__")
            }
            _ => self.ltok("self", "self"),
        }
    }

    pub fn primary(&mut self, cx: Cx) -> T {
        let cmd_first = self.cmd_first;
        let small = self.small();
        let f = self.f.clone();
        let c = |w: usize| if small { 0 } else { w };
        let here = if self.no_here > 0 || self.nonl > 0 { 0 } else { f.here };
        let np = if f.np > 0 && self.np_ok() { f.np } else { 0 };
        let ws = [
            f.num,                                      // 0
            f.strs,                                     // 1
            c(f.istr),                                  // 2
            here,                                       // 3
            f.regex,                                    // 4
            f.sym,                                      // 5
            f.pct,                                      // 6
            if cmd_first { 0 } else { f.ch },           // 7
            f.xstr,                                     // 8
            f.var,                                      // 9
            f.gvar,                                     // 10
            f.cst,                                      // 11
            f.kwlit,                                    // 12
            c(f.array),                                 // 13
            if cmd_first { 0 } else { c(f.hash) },      // 14
            c(f.index),                                 // 15
            c(f.mcall),                                 // 16
            c(f.fcall),                                 // 17
            c(f.block),                                 // 18
            c(f.lambda),                                // 19
            c(f.paren),                                 // 20
            c(f.begin),                                 // 21
            if cmd_first || self.jump_first || cx.nodo { 0 } else { c(f.control) }, // 22
            c(f.defined),                               // 23
            np,                                         // 24
            f.neg,                                      // 25
        ];
        self.fuel -= 1;
        match self.rng.w(&ws) {
            0 => self.number(),
            1 => self.string(),
            2 => self.istring(),
            3 => self.heredoc(),
            4 => self.regex(),
            5 => self.symbol(),
            6 => self.percent_list(),
            7 => self.char_lit(),
            8 => self.xstring(),
            9 => self.var(),
            10 => self.gvar(),
            11 => self.constant(),
            12 => self.kwlit(),
            13 => self.array(),
            14 => self.hash(),
            15 => self.index_expr(),
            16 => {
                let r = self.receiver();
                self.suffix_call(r, cx, true)
            }
            17 if self.rng.p(1, 5) && self.in_method() => self.yield_or_super(cx),
            17 => self.fcall(cx),
            18 => self.block_call(cx),
            19 => self.lambda(),
            20 => {
                self.hit("paren");
                if self.rng.p(1, 12) {
                    self.opening("(");
                    self.sep(Sep::OptNl);
                    self.closing(")");
                    t("seq", vec![])
                } else {
                    let n = self.rng.below(3) + 1;
                    self.paren(|g| g.stmts(n))
                }
            }
            21 => self.begin(),
            22 => self.control(),
            23 => {
                self.hit("defined()");
                self.tk("defined?");
                self.sep(Sep::Glue);
                let r = self.paren(|g| g.expr_stmt(CX));
                t("defined", vec![r])
            }
            24 => {
                self.hit("numbered-param");
                let n = format!("_{}", 1 + self.rng.below(3));
                self.use_np();
                let r = self.ltok(format!("call:{}", n), n);
                self.last_open = true;
                r
            }
            _ => self.neg_literal_primary(),
        }
    }

    /// A negative literal, parenthesised unless it stands at the start of an operand.
    fn neg_literal_primary(&mut self) -> T {
        self.paren(|g| g.neg_literal())
    }

    /// An operand to which `.name`, `[..]` can be attached.
    pub fn receiver(&mut self) -> T {
        let cmd_first = self.cmd_first;
        match self.rng.below(10) {
            0 => self.gvar(),
            1 => self.constant(),
            2 => self.paren(|g| g.expr(L_DEFINED, CX)),
            3 if self.f.strs > 0 => self.string(),
            4 if self.f.array > 0 => self.array(),
            5 => self.kwlit(),
            6 if !cmd_first && !self.jump_first && !self.small() => self.primary(INNER.nodo()),
            7 => self.number(),
            _ => self.var(),
        }
    }

    pub fn index_expr(&mut self) -> T {
        let b = self.receiver();
        self.index_on(b)
    }
    pub fn index_on(&mut self, b: T) -> T {
        self.hit("index");
        self.sep(Sep::Glue);
        self.opening("[");
        self.sep(Sep::OptNl);
        let mut kids = vec![b];
        let n = self.some(&[1, 1, 1, 1, 2, 3, 0]);
        for i in 0..n {
            if i > 0 {
                self.op(",", false);
            }
            kids.push(self.splat_or_arg(INNER));
        }
        if n > 0 && self.rng.p(1, 12) {
            self.tk(",");
            self.sep(Sep::OptNl);
        } else {
            self.sep(Sep::OptNl);
        }
        self.closing("]");
        t("index", kids)
    }

    /// Element of an array, index or right hand side.
    pub fn splat_or_arg(&mut self, cx: Cx) -> T {
        if self.rng.p(1, 10) {
            self.hit("splat");
            self.tk("*");
            self.awaiting = true;
            self.sep(Sep::Glue);
            let a = self.splat_operand();
            t("splat", vec![a])
        } else {
            self.expr(L_DEFINED, Cx { tail: true, ..cx })
        }
    }
    pub fn splat_operand(&mut self) -> T {
        match self.rng.below(4) {
            0 if self.f.array > 0 && !self.small() => self.array(),
            1 => self.paren(|g| g.expr(L_DEFINED, CX)),
            _ => self.var_or_call(),
        }
    }

    pub fn array(&mut self) -> T {
        self.hit("array");
        let s = self.opening("[");
        self.sep(Sep::OptNl);
        let n = self.some(&[0, 1, 1, 2, 2, 3, 4]);
        let mut kids = vec![];
        for i in 0..n {
            if i > 0 {
                self.op(",", false);
            }
            kids.push(self.splat_or_arg(INNER));
        }
        if n > 0 && self.rng.p(1, 8) {
            self.tk(",");
        }
        self.sep(Sep::OptNl);
        let e = self.closing("]");
        let mut r = array(kids);
        r.loc = Some((s, e));
        r
    }

    pub fn label_key(&mut self) -> String {
        match self.rng.below(8) {
            0 => self.rng.s(KEYWORDS).to_string(),
            1 => self.rng.s(CONSTS).to_string(),
            2 => self.rng.s(&["a?", "b!", "nil", "self", "true", "foo?"]).to_string(),
            _ => self.local_name(),
        }
    }

    pub fn hash(&mut self) -> T {
        self.hit("hash");
        let s = self.opening("{");
        self.sep(Sep::OptNl);
        let n = self.some(&[0, 1, 1, 2, 2, 3]);
        let mut kids = vec![];
        for i in 0..n {
            if i > 0 {
                self.op(",", false);
            }
            match self.rng.below(6) {
                0 | 1 => {
                    let k = self.label_key();
                    self.tk(format!("{}:", k));
                    self.hit("hash-label");
                    kids.push(leaf(format!("sym:{:?}", k)));
                    self.sep(Sep::SpNl);
                }
                2 => {
                    // "str": v
                    let (text, b) = self.plain_quoted();
                    self.tk(format!("{}:", text));
                    self.hit("hash-string-label");
                    kids.push(leaf(format!("sym:{:?}", String::from_utf8(b).unwrap())));
                    self.sep(Sep::SpNl);
                }
                _ => {
                    kids.push(self.expr(L_TERN, INNER));
                    let o = self.last_open;
                    self.op("=>", o);
                }
            }
            self.awaiting = true;
            kids.push(self.expr(L_DEFINED, CX));
        }
        if n > 0 && self.rng.p(1, 8) {
            self.tk(",");
        }
        self.sep(Sep::OptNl);
        let e = self.closing("}");
        let mut r = hash(kids);
        r.loc = Some((s, e));
        r
    }

    // ---- calls --------------------------------------------------------

    /// Arguments. Returns kids for an "args" term and whether there is a splat,
    /// a block argument, and a braceless hash at the end.
    pub fn args(&mut self, parens: bool, cx: Cx) -> (Vec<T>, bool, bool) {
        let mut pos: Vec<T> = vec![];
        let mut kws: Vec<T> = vec![];
        let mut ds: Vec<T> = vec![];
        let mut blk = None;
        let mut splat = false;
        let mut fwd = false;
        let n = if parens {
            self.some(&[0, 1, 1, 2, 2, 3, 4])
        } else {
            self.some(&[1, 1, 1, 2, 2, 3])
        };
        let sep_in = if parens { Sep::OptNl } else { Sep::Opt };
        let cx = Cx { tail: true, ..cx };
        let label_sep = if parens { Sep::SpNl } else { Sep::Sp };
        let can_fwd = parens && self.scopes.iter().rev().find(|s| s.kind == SK::Method).map_or(false, |s| s.fwd.is_some())
            && self.scopes.last().unwrap().kind == SK::Method;
        let mut hash_end = false;
        for i in 0..n {
            if i > 0 {
                self.op(",", false);
                // After a comma a newline is fine in both forms.
            }
            let last = i + 1 == n;
            let k = self.rng.below(20);
            if last && can_fwd && self.rng.p(1, 3) && kws.is_empty() && ds.is_empty() {
                self.hit("arg-forward");
                self.tk("...");
                fwd = true;
                break;
            }
            match k {
                0 | 1 if kws.is_empty() && ds.is_empty() => {
                    self.hit("arg-splat");
                    self.tk("*");
                    self.awaiting = true;
                    self.sep(Sep::Glue);
                    let a = self.splat_operand();
                    pos.push(t("splat", vec![a]));
                    splat = true;
                }
                2 | 3 => {
                    self.hit("arg-kw");
                    let key = self.local_name();
                    self.tk(format!("{}:", key));
                    self.awaiting = true;
                    self.sep(label_sep);
                    let v = self.expr(L_TERN, cx);
                    kws.push(t(format!("kw:{}", key), vec![v]));
                }
                4 => {
                    self.hit("arg-dsplat");
                    self.tk("**");
                    self.awaiting = true;
                    self.sep(Sep::Glue);
                    let a = self.var_or_call();
                    ds.push(a);
                }
                5 if last => {
                    self.hit("arg-block");
                    self.tk("&");
                    self.awaiting = true;
                    self.sep(Sep::Glue);
                    let a = match self.rng.below(3) {
                        0 => self.symbol(),
                        _ => self.var_or_call(),
                    };
                    blk = Some(a);
                }
                6 if last && kws.is_empty() && ds.is_empty() => {
                    self.hit("arg-hash");
                    let mut kids = vec![];
                    let m = self.some(&[1, 2, 3]);
                    for j in 0..m {
                        if j > 0 {
                            self.op(",", false);
                        }
                        kids.push(self.expr(L_TERN, cx.notail()));
                        let o = self.last_open;
                        self.op("=>", o);
                        kids.push(self.expr(L_TERN, cx));
                    }
                    pos.push(hash(kids));
                    hash_end = true;
                }
                _ if kws.is_empty() && ds.is_empty() => {
                    let a = self.expr(L_DEFINED, cx);
                    pos.push(a);
                }
                _ => {
                    self.hit("arg-kw");
                    let key = self.local_name();
                    self.tk(format!("{}:", key));
                    self.awaiting = true;
                    self.sep(label_sep);
                    let v = self.expr(L_TERN, cx);
                    kws.push(t(format!("kw:{}", key), vec![v]));
                }
            }
        }
        if parens && n > 0 && !fwd && blk.is_none() && self.rng.p(1, 12) {
            self.hit("arg-trailing-comma");
            self.tk(",");
        }
        let _ = (sep_in, hash_end);
        let has_blk = blk.is_some();
        pos.extend(kws);
        pos.extend(ds.into_iter().map(|d| t("dsplat", vec![d])));
        if fwd {
            pos.push(leaf("fwd"));
        }
        if let Some(b) = blk {
            pos.push(t("blk", vec![b]));
        }
        (pos, splat, has_blk)
    }

    pub fn args_t(kids: Vec<T>, splat: bool) -> T {
        t(if splat { "args*" } else { "args" }, kids)
    }

    /// Parenthesised arguments and an optional block.
    pub fn paren_args(&mut self, cx: Cx) -> T {
        self.sep(Sep::Glue);
        self.opening("(");
        self.sep(Sep::OptNl);
        let (mut kids, splat, blk) = self.args(true, INNER);
        self.sep(Sep::OptNl);
        self.closing(")");
        if !blk && self.f.block > 0 && !self.small() && self.rng.p(1, 6) {
            let b = self.block(cx);
            kids.push(t("blk", vec![b]));
        }
        G::args_t(kids, splat)
    }

    /// `foo(..)`, `Foo(..)`
    pub fn fcall(&mut self, cx: Cx) -> T {
        self.hit("fcall");
        let n = match self.rng.below(8) {
            0 => self.rng.s(CONSTS).to_string(),
            1 => self.local_name(), // also when it is a variable
            _ => self.func_name(),
        };
        let id = self.tk(n.clone());
        let a = self.paren_args(cx);
        fcall_t(&n, a).at(id, id)
    }

    /// Call with a block and perhaps without arguments.
    pub fn block_call(&mut self, cx: Cx) -> T {
        self.hit("block-call");
        if self.rng.coin() {
            let n = self.func_name();
            let id = self.tk(n.clone());
            let b = self.block(cx);
            fcall_t(&n, t("args", vec![t("blk", vec![b])])).at(id, id)
        } else {
            let r = self.receiver();
            let dot = self.dot();
            let n = self.method_name();
            let id = self.tk(n.clone());
            let b = self.block(cx);
            t(format!("{}{}", dot, n), vec![r, t("args", vec![t("blk", vec![b])])]).at(id, id)
        }
    }

    /// `.` or `&.`; the next token is the method name. Returns the tag prefix.
    pub fn dot(&mut self) -> &'static str {
        let d = if self.rng.p(1, 5) { "&." } else { "." };
        // A newline may precede the dot.
        self.sep(Sep::OptNl);
        self.tk(d);
        self.awaiting = true;
        self.sep(Sep::OptNlNc);
        self.hit(d);
        d
    }

    pub fn method_name(&mut self) -> String {
        match self.rng.below(8) {
            0 => self.local_name(),
            1 => {
                self.hit("keyword-method");
                self.rng.s(KEYWORDS).to_string()
            }
            2 => self.rng.s(&["nil?", "self", "new", "to_s", "class", "a?", "b!", "nil"]).to_string(),
            _ => self.rng.s(METHODS).to_string(),
        }
    }

    /// Attach a call to a receiver.
    pub fn suffix_call(&mut self, r: T, cx: Cx, chain: bool) -> T {
        self.hit("mcall");
        let mut r = r;
        loop {
            match self.rng.below(12) {
                0 => {
                    // a::b
                    self.glue("::");
                    self.awaiting = true;
                    let n = self.rng.s(METHODS);
                    let id = self.glue(n);
                    let args = if self.rng.coin() && !self.small() {
                        self.paren_args(cx)
                    } else {
                        self.last_open = true;
                        t("args", vec![])
                    };
                    self.hit("scope-call");
                    r = t(format!(".{}", n), vec![r, args]);
                    r.loc = Some((id, id));
                }
                1 if !self.small() => {
                    // a.(..)
                    let d = if self.rng.p(1, 4) { "&." } else { "." };
                    self.sep(Sep::OptNl);
                    self.tk(d);
                    let args = self.paren_args(cx);
                    self.hit("dot-paren");
                    r = t(format!("{}call", d), vec![r, args]);
                }
                2 if !self.small() => {
                    // operator as a method name
                    let d = self.dot();
                    let n = self.rng.s(&[
                        "+", "-", "*", "/", "%", "**", "==", "===", "=~", "<=>", "<", "<=", ">", ">=", "<<", ">>",
                        "!", "!=", "!~", "~", "^", "&", "|", "+@", "-@", "[]", "[]=", "`",
                    ]);
                    let id = self.tk(n);
                    let args = self.paren_args(cx);
                    self.hit("operator-call");
                    r = t(format!("{}{}", d, n), vec![r, args]);
                    r.loc = Some((id, id));
                }
                3 if !self.small() => {
                    let n = self.rng.s(CONSTS);
                    // a.Foo or a::Foo(..)
                    if self.rng.coin() {
                        let d = self.dot();
                        let id = self.tk(n);
                        let args = if self.rng.coin() {
                            self.paren_args(cx)
                        } else {
                            self.last_open = true;
                            t("args", vec![])
                        };
                        r = t(format!("{}{}", d, n), vec![r, args]);
                        r.loc = Some((id, id));
                    } else {
                        self.glue("::");
                        self.awaiting = true;
                        let id = self.glue(n);
                        let args = self.paren_args(cx);
                        r = t(format!(".{}", n), vec![r, args]).at(id, id);
                    }
                    self.hit("const-call");
                }
                4 if !self.small() => r = self.index_on(r),
                _ => {
                    let d = self.dot();
                    let n = self.method_name();
                    let id = self.tk(n.clone());
                    let args = if self.rng.p(2, 5) && !self.small() {
                        self.paren_args(cx)
                    } else {
                        self.last_open = true;
                        t("args", vec![])
                    };
                    r = t(format!("{}{}", d, n), vec![r, args]);
                    r.loc = Some((id, id));
                }
            }
            if !chain || !self.rng.p(1, 3) {
                return r;
            }
        }
    }

    /// Unparenthesised call: name, arguments, perhaps a do block.
    /// Only where nothing follows on the right.
    pub fn command(&mut self, cx: Cx) -> T {
        self.hit("command");
        let head = self.rng.below(10);
        let mk: Box<dyn Fn(T) -> T> = match head {
            0 | 1 | 2 => {
                let r = self.receiver();
                let r = if self.rng.p(1, 3) { self.suffix_call(r, INNER.nodo(), true) } else { r };
                let d = self.dot();
                let n = self.method_name();
                let id = self.tk(n.clone());
                Box::new(move |a| t(format!("{}{}", d, n), vec![r.clone(), a]).at(id, id))
            }
            3 if self.in_method() => {
                self.tk("super");
                self.hit("super-command");
                Box::new(|a| t("super", vec![a]))
            }
            4 if self.in_method() => {
                self.tk("yield");
                self.hit("yield-command");
                self.sep(Sep::Sp);
                self.cmd_first = true;
                let (kids, splat) = self.yield_args(false);
                return t("yield", vec![G::args_t(kids, splat)]);
            }
            5 if self.f.cst > 0 => {
                let n = self.rng.s(CONSTS).to_string();
                let id = self.tk(n.clone());
                self.hit("const-command");
                Box::new(move |a| fcall_t(&n, a).at(id, id))
            }
            _ => {
                let n = self.func_name();
                let id = self.tk(n.clone());
                Box::new(move |a| fcall_t(&n, a).at(id, id))
            }
        };
        self.sep(Sep::Sp);
        self.cmd_first = true;
        let (mut kids, splat, blk) = if self.f.cmd > 0 && !self.small() && self.rng.p(1, 8) {
            // the only argument is a command again
            self.hit("nested-command");
            let n = self.func_name();
            let id = self.tk(n.clone());
            self.sep(Sep::Sp);
            self.cmd_first = true;
            let (k, s, _) = self.args(false, INNER.nodo());
            (vec![fcall_t(&n, G::args_t(k, s)).at(id, id)], false, false)
        } else {
            self.args(false, INNER.nodo())
        };
        if !cx.nodo && !blk && self.f.block > 0 && !self.small() && self.rng.p(1, 3) {
            self.hit("command-do");
            let b = self.do_block();
            kids.push(t("blk", vec![b]));
        }
        mk(G::args_t(kids, splat))
    }

    /// Arguments of yield: no block argument.
    fn yield_args(&mut self, parens: bool) -> (Vec<T>, bool) {
        let n = self.some(&[1, 2, 3]);
        let mut kids = vec![];
        let mut splat = false;
        for i in 0..n {
            if i > 0 {
                self.op(",", false);
            }
            if self.rng.p(1, 6) {
                self.tk("*");
                self.awaiting = true;
                self.sep(Sep::Glue);
                let a = self.splat_operand();
                kids.push(t("splat", vec![a]));
                splat = true;
            } else {
                let a = self.expr(L_TERN, if parens { CX } else { CX.nodo() });
                kids.push(a);
            }
        }
        (kids, splat)
    }

    pub fn yield_or_super(&mut self, cx: Cx) -> T {
        if self.rng.coin() {
            self.hit("yield");
            self.tk("yield");
            if self.rng.coin() {
                self.last_open = true;
                t("yield", vec![t("args", vec![])])
            } else {
                self.sep(Sep::Glue);
                self.opening("(");
                self.sep(Sep::OptNl);
                let (kids, splat) = self.yield_args(true);
                self.sep(Sep::OptNl);
                self.closing(")");
                t("yield", vec![G::args_t(kids, splat)])
            }
        } else {
            self.hit("super");
            self.tk("super");
            if self.rng.coin() {
                self.last_open = true;
                leaf("zsuper")
            } else {
                let a = self.paren_args(cx);
                t("super", vec![a])
            }
        }
    }

    // ---- blocks and parameters ----------------------------------------

    pub fn block(&mut self, cx: Cx) -> T {
        if cx.nodo || self.rng.coin() {
            self.brace_block()
        } else {
            self.do_block()
        }
    }

    pub fn push_scope(&mut self, kind: SK) {
        self.scopes.push(Scope::new(kind));
    }
    /// Close a scope and build the term of its body.
    pub fn info(&mut self, params: Vec<T>, body: T) -> T {
        let s = self.scopes.pop().unwrap();
        t("info", vec![t("params", params), leaf(s.tag()), body])
    }

    pub fn brace_block(&mut self) -> T {
        self.hit("brace-block");
        self.opening("{");
        self.push_scope(SK::Block);
        let l = std::mem::replace(&mut self.loops, 1);
        let params = self.block_params();
        let n = self.some(&[0, 1, 1, 1, 2]);
        self.sep(Sep::OptTerm);
        let body = self.stmts(n);
        self.sep(Sep::OptTerm);
        self.closing("}");
        self.loops = l;
        t("lambda", vec![self.info(params, body)])
    }

    pub fn do_block(&mut self) -> T {
        self.hit("do-block");
        self.sep(Sep::Sp);
        self.opening("do");
        self.push_scope(SK::Block);
        let l = std::mem::replace(&mut self.loops, 1);
        let params = self.block_params();
        self.sep(Sep::SpTerm);
        let body = self.body_with_rescue();
        if self.next_sep.is_none() {
            self.sep(Sep::SpTerm);
        }
        self.closing("end");
        self.loops = l;
        t("lambda", vec![self.info(params, body)])
    }

    /// `|..|` or nothing
    pub fn block_params(&mut self) -> Vec<T> {
        if !self.rng.p(1, 2) {
            return vec![];
        }
        self.sep(Sep::Opt);
        self.top().has_params = true;
        if self.rng.p(1, 10) {
            self.tk("||");
            return vec![];
        }
        self.opening("|");
        self.sep(Sep::OptNl);
        let p = self.params(PK::Block);
        self.sep(Sep::OptNl);
        self.closing("|");
        p
    }

    pub fn lambda(&mut self) -> T {
        self.hit("lambda");
        self.tk("->");
        self.act(1);
        self.open += 1;
        self.push_scope(SK::Block);
        let l = std::mem::replace(&mut self.loops, 1);
        let mut params = vec![];
        match self.rng.below(4) {
            0 => {
                self.sep(Sep::Opt);
                self.top().has_params = true;
                self.opening("(");
                self.sep(Sep::OptNl);
                params = self.params(PK::Lambda);
                self.sep(Sep::OptNl);
                self.closing(")");
            }
            1 => {
                self.sep(Sep::Opt);
                self.top().has_params = true;
                params = self.params(PK::LambdaBare);
            }
            _ => {}
        }
        let brace = self.rng.coin();
        self.sep(if brace { Sep::Opt } else { Sep::Sp });
        let n = self.some(&[0, 1, 1, 1, 2]);
        let body;
        if brace {
            self.tk("{");
            self.sep(Sep::OptTerm);
            body = self.stmts(n);
            self.sep(Sep::OptTerm);
            self.closing("}");
        } else {
            self.tk("do");
            self.sep(Sep::SpTerm);
            body = self.stmts(n);
            self.sep(Sep::SpTerm);
            self.closing("end");
        }
        self.loops = l;
        t("lambda", vec![self.info(params, body)])
    }

    /// A parameter name which is new in the current scope.
    pub fn new_param_name(&mut self) -> String {
        for _ in 0..20 {
            let n = self.local_name();
            if !self.top().vars.contains(&n) {
                return n;
            }
        }
        format!("q{}", self.top().vars.len())
    }

    fn param_default(&mut self, k: PK) -> T {
        // A name alone directly after '=' or ':' is fine.
        let old = std::mem::replace(&mut self.f, Feat::base());
        self.f.num = 4;
        self.f.strs = old.strs;
        self.f.sym = old.sym;
        self.f.kwlit = old.kwlit;
        self.f.cst = old.cst;
        self.f.array = if old.array > 0 { 3 } else { 0 };
        self.f.hash = if old.hash > 0 { 2 } else { 0 };
        self.f.paren = old.paren;
        self.f.binop = old.binop;
        self.f.cmp = old.cmp;
        self.f.mcall = if matches!(k, PK::Block) { 0 } else { old.mcall };
        self.f.ternary = old.ternary;
        let r = match k {
            _ if old.assign_e > 0 && self.rng.p(1, 8) => {
                self.hit("assign-in-default");
                self.paren(|g| g.simple_assign(CX))
            }
            // Only a primary in block parameters.
            PK::Block => {
                if self.rng.p(1, 4) {
                    self.paren(|g| g.expr(L_TERN, CX))
                } else {
                    self.f.mcall = 0;
                    self.primary(INNER.nodo())
                }
            }
            // A brace or `do` after a call would be taken for its block.
            PK::LambdaBare if self.rng.coin() => self.number(),
            PK::Bare | PK::LambdaBare => {
                if matches!(k, PK::LambdaBare) || self.rng.p(1, 3) {
                    self.paren(|g| g.expr(L_TERN, CX))
                } else {
                    self.expr(L_ADD, INNER.nodo())
                }
            }
            _ => self.expr(L_TERN, INNER),
        };
        self.f = old;
        r
    }

    /// A parameter list in an order Ruby allows.
    pub fn params(&mut self, k: PK) -> Vec<T> {
        let mut out: Vec<T> = vec![];
        let mut plan: Vec<u8> = vec![];
        let r = &mut self.rng;
        if r.p(1, 10) && matches!(k, PK::Def) {
            // (a, ...)
            for _ in 0..some(r, &[0, 1, 2]) {
                plan.push(0);
            }
            if r.p(1, 4) {
                plan.push(1);
                if r.coin() {
                    plan.push(3);
                }
            }
            plan.push(8);
        } else {
            let destruct = matches!(k, PK::Block | PK::Lambda | PK::Def);
            for _ in 0..some(r, &[0, 0, 1, 1, 2]) {
                plan.push(if destruct && r.p(1, 6) { 9 } else { 0 });
            }
            for _ in 0..some(r, &[0, 0, 0, 1, 2]) {
                plan.push(1);
            }
            let rest = r.p(1, 4);
            if rest {
                plan.push(2);
            }
            if plan.iter().any(|p| *p == 1 || *p == 2) {
                for _ in 0..some(r, &[0, 0, 1, 2]) {
                    plan.push(if destruct && r.p(1, 6) { 9 } else { 3 });
                }
            }
            for _ in 0..some(r, &[0, 0, 0, 1, 2]) {
                plan.push(if r.coin() { 4 } else { 5 });
            }
            if r.p(1, 6) {
                plan.push(6);
            }
            if r.p(1, 6) {
                plan.push(7);
            }
            if plan.is_empty() {
                plan.push(0);
            }
        }
        let n = plan.len();
        let mut seen_opt = false;
        for (i, p) in plan.into_iter().enumerate() {
            if i > 0 {
                self.op(",", false);
            }
            let last = i + 1 == n;
            match p {
                0 | 3 => {
                    let name = self.new_param_name();
                    let id = self.tk(name.clone());
                    self.top().param(&name);
                    let post = seen_opt;
                    self.hit(if post { "param-post" } else { "param-req" });
                    let mut r = leaf(format!("{}:{}", if post { "post" } else { "req" }, name));
                    r.loc = Some((id, id));
                    out.push(r);
                }
                1 => {
                    let name = self.new_param_name();
                    self.tk(name.clone());
                    self.top().param(&name);
                    self.op("=", false);
                    self.open += 1;
                    let d = self.param_default(k);
                    self.open -= 1;
                    seen_opt = true;
                    self.hit("param-opt");
                    out.push(t(format!("opt:{}", name), vec![d]));
                }
                2 => {
                    let s = self.tk("*");
                    seen_opt = true;
                    if self.rng.p(1, 4) && !(last && matches!(k, PK::Bare | PK::LambdaBare)) {
                        self.hit("param-rest-anon");
                        out.push(leaf("rest:*"));
                    } else {
                        let name = self.new_param_name();
                        self.glue(name.clone());
                        let _ = s;
                        self.top().param(&name);
                        self.hit("param-rest");
                        out.push(leaf(format!("rest:{}", name)));
                    }
                }
                4 | 5 => {
                    let name = self.new_param_name();
                    self.tk(format!("{}:", name));
                    let s = self.top();
                    let id = s.param(&name);
                    s.kw.push(id);
                    let mut kids = vec![];
                    // Without parentheses a newline or terminator must follow directly.
                    let req_ok = !matches!(k, PK::LambdaBare) || !last;
                    if p == 5 || !req_ok {
                        self.awaiting = true;
                        self.sep(Sep::Sp);
                        self.open += 1;
                        let d = self.param_default(k);
                        self.open -= 1;
                        kids.push(d);
                        self.hit("param-key-default");
                    } else {
                        self.hit("param-key");
                    }
                    out.push(t(format!("key:{}", name), kids));
                }
                6 => {
                    let name = self.new_param_name();
                    self.tk("**");
                    self.glue(name.clone());
                    let s = self.top();
                    let id = s.param(&name);
                    s.kwrest = Some(id);
                    self.hit("param-kwrest");
                    out.push(leaf(format!("keyrest:{}", name)));
                }
                7 => {
                    let name = self.new_param_name();
                    self.tk("&");
                    self.glue(name.clone());
                    let s = self.top();
                    let id = s.param(&name);
                    s.block = Some(id);
                    self.hit("param-block");
                    out.push(leaf(format!("block:{}", name)));
                }
                8 => {
                    self.tk("...");
                    let s = self.top();
                    let id = s.param("...");
                    s.fwd = Some(id);
                    self.hit("param-forward");
                    out.push(leaf("..."));
                }
                _ => {
                    self.hit("param-destruct");
                    self.opening("(");
                    self.sep(Sep::OptNl);
                    let m = self.some(&[1, 2, 3]);
                    let mut kids = vec![];
                    for j in 0..m {
                        if j > 0 {
                            self.op(",", false);
                        }
                        let name = self.new_param_name();
                        let id = self.tk(name.clone());
                        self.top().param(&name);
                        let mut r = leaf(format!("d:{}", name));
                        r.loc = Some((id, id));
                        kids.push(r);
                    }
                    if m == 1 || self.rng.p(1, 6) {
                        self.tk(",");
                    }
                    self.sep(Sep::OptNl);
                    self.closing(")");
                    out.push(t("destruct", kids));
                }
            }
        }
        self.top().params_first();
        if matches!(k, PK::Block) && self.rng.p(1, 10) {
            let req = |p: &T| p.tag.starts_with("req:") || p.tag.starts_with("destruct");
            if !out.is_empty() && out.iter().all(req) {
                self.tk(",");
                self.hit("param-trailing-comma");
            }
        }
        out
    }

    // ---- statements ---------------------------------------------------

    /// n statements separated by terminators, as a sequence.
    pub fn stmts(&mut self, n: usize) -> T {
        let mut v = vec![];
        for i in 0..n {
            if i > 0 {
                self.sep(Sep::Term);
            }
            let first = self.next_id;
            v.push(self.stmt(CX));
            self.stmt_marks.push((first, self.next_id - 1));
        }
        seq(v)
    }

    pub fn program(&mut self, n: usize) -> T {
        self.stmts(n)
    }

    /// Statement with modifiers.
    pub fn stmt(&mut self, cx: Cx) -> T {
        self.fuel -= 1;
        let f = self.f.clone();
        let small = self.small();
        let c = |w: usize| if small { 0 } else { w };
        let in_m = self.in_method();
        let ws = [
            10,
            f.stmt_assign,
            f.stmt_massign,
            f.stmt_opassign,
            f.cmd,
            c(f.andor),
            c(f.loops),
            c(f.def),
            if in_m { 0 } else { c(f.class) },
            f.alias,
            f.jump,
            c(f.control),
        ];
        let mut assign = false;
        let first = self.toks.len();
        let mut r = match self.rng.w(&ws) {
            0 => self.expr(L_DEFINED, cx),
            1 => {
                assign = true;
                self.stmt_assign(cx)
            }
            2 => {
                assign = true;
                self.massign(cx)
            }
            3 => {
                assign = true;
                self.op_assign(cx)
            }
            4 => self.command(cx),
            5 => self.expr_stmt(cx),
            6 => self.loop_stmt(),
            7 => self.def(),
            8 => self.class(),
            9 => self.alias(),
            10 => self.jump(cx),
            _ => self.control(),
        };
        if !small && f.modifier > 0 && self.rng.p(f.modifier, 24) {
            let n = self.some(&[1, 2]);
            for _ in 0..n {
                let k = self.rng.below(5);
                if k == 4 && (assign || r.tag == "alias") {
                    continue;
                }
                if (k == 2 || k == 3) && self.toks[first].text == "(" {
                    // `(begin .. end) while x` differs between versions of Ruby.
                    continue;
                }
                let kw = ["if", "unless", "while", "until", "rescue"][k];
                self.sep(Sep::Sp);
                self.tk(kw);
                self.awaiting = true;
                self.sep(Sep::Sp);
                self.hit(["mod-if", "mod-unless", "mod-while", "mod-until", "mod-rescue"][k]);
                let is_begin = r.tag.starts_with('\u{1}');
                let e = if self.rng.p(1, 5) { self.expr_stmt(cx) } else { self.expr(L_DEFINED, cx.notail()) };
                r = match k {
                    0 => t("if", vec![e, strip(r), t("seq", vec![])]),
                    1 => t("if", vec![e, t("seq", vec![]), strip(r)]),
                    2 | 3 => t(
                        format!(
                            "{}{}",
                            if k == 2 { "while" } else { "until" },
                            if is_begin { "-dopost" } else { "-post" }
                        ),
                        vec![e, strip(r)],
                    ),
                    _ => t(
                        "begin",
                        vec![
                            strip(r),
                            t("rescue", vec![t("ex", vec![]), leaf("none"), e]),
                            leaf("none"),
                            leaf("none"),
                        ],
                    ),
                };
                assign = false;
            }
        }
        strip(r)
    }

    /// `and`/`or` chains.
    pub fn expr_stmt(&mut self, cx: Cx) -> T {
        let n = if self.f.andor > 0 { self.some(&[0, 1, 2]) } else { 0 };
        let mut a = self.expr_item(cx);
        for _ in 0..n {
            let (kw, op) = *self.rng.pick(&[("and", "&&"), ("or", "||")]);
            self.sep(Sep::Sp);
            self.tk(kw);
            self.hit(kw);
            self.awaiting = true;
            self.sep(Sep::SpNl);
            let b = self.expr_item(cx);
            a = t(format!("bin:{}", op), vec![a, b]);
        }
        a
    }
    fn expr_item(&mut self, cx: Cx) -> T {
        if self.f.cmd > 0 && !self.small() && self.rng.p(1, 6) {
            self.command(cx.nodo())
        } else {
            self.expr(L_DEFINED, cx)
        }
    }

    // ---- assignment ---------------------------------------------------

    /// A target. Local variables are returned undefined: the caller defines
    /// them when the `=` is reached.
    pub fn target(&mut self, in_mlhs: bool) -> Lhs {
        match self.rng.below(12) {
            0 | 1 => {
                let r = loop {
                    // Not every global can be assigned in Ruby.
                    let n = self.rng.s(&["@a", "@b_c", "@@a", "@@x", "$a", "$foo_1", "$0", "$,", "@été", "$-w"]);
                    let k = if n.starts_with("@@") {
                        "cvar"
                    } else if n.starts_with('@') {
                        "ivar"
                    } else {
                        "gvar"
                    };
                    break self.ltok(format!("{}:{}", k, n), n);
                };
                Lhs::T(r)
            }
            2 if self.const_assignable() => {
                let n = self.rng.s(CONSTS);
                self.hit("lhs-const");
                if self.rng.p(1, 3) {
                    let m = self.rng.s(CONSTS);
                    self.tk(m);
                    self.glue("::");
                    self.glue(n);
                    Lhs::T(leaf(format!("const:{}::{}", m, n)))
                } else {
                    Lhs::T(self.ltok(format!("const:{}", n), n))
                }
            }
            3 | 4 => {
                self.hit("lhs-index");
                let b = if in_mlhs { self.gvar_base() } else { self.lhs_base() };
                let old = std::mem::replace(&mut self.f, Feat::base());
                if in_mlhs {
                    self.f.var = 0;
                } else {
                    self.f = old.clone();
                }
                let r = self.index_on(b);
                self.f = old;
                Lhs::T(r)
            }
            5 | 6 => {
                self.hit("lhs-attr");
                let b = if in_mlhs { self.gvar_base() } else { self.lhs_base() };
                // Ruby refuses `&.` among several targets.
                let d = if in_mlhs {
                    self.tk(".");
                    self.awaiting = true;
                    self.sep(Sep::OptNlNc);
                    "."
                } else {
                    self.dot()
                };
                let n = self.rng.s(&["foo", "bar", "x", "a", "class", "end", "if", "Foo", "été"]);
                let id = self.tk(n);
                let mut r = t(format!("{}{}", d, n), vec![b, t("args", vec![])]);
                r.loc = Some((id, id));
                Lhs::T(r)
            }
            _ => {
                let n = self.local_name();
                let id = self.tk(n.clone());
                self.last_open = self.lookup(&n).is_none();
                Lhs::Var(n, id)
            }
        }
    }
    fn gvar_base(&mut self) -> T {
        match self.rng.below(3) {
            0 => self.ltok("self", "self"),
            1 => self.ltok("gvar:$g", "$g"),
            _ => self.ltok("ivar:@q", "@q"),
        }
    }
    fn lhs_base(&mut self) -> T {
        match self.rng.below(4) {
            0 => self.gvar_base(),
            1 => {
                let r = self.var();
                self.suffix_call(r, INNER.nodo(), false)
            }
            _ => self.var(),
        }
    }
    pub fn finish(&mut self, l: Lhs) -> T {
        match l {
            Lhs::T(t) => t,
            Lhs::Splat(l) => {
                let a = self.finish(*l);
                t("splat", vec![a])
            }
            Lhs::Discard => leaf("discard"),
            Lhs::Var(n, id) => {
                let d = self.define(&n);
                let mut r = leaf(format!("lvar:{}:{}", d, n));
                r.loc = Some((id, id));
                r
            }
        }
    }

    /// `=` after a target.
    fn eq(&mut self) {
        let o = self.last_open;
        self.op("=", o);
    }

    /// Assignment inside an expression: one value.
    pub fn assign_expr(&mut self, cx: Cx) -> T {
        if self.rng.p(1, 4) {
            return self.op_assign(cx);
        }
        self.simple_assign(cx)
    }
    pub fn simple_assign(&mut self, cx: Cx) -> T {
        self.hit("assign-expr");
        let l = self.target(false);
        self.eq();
        let l = self.finish(l);
        let r = self.expr(L_DEFINED, Cx { tail: true, ..cx });
        t("asgn", vec![t("lhs", vec![l]), t("rhs", vec![r])])
    }

    /// Assignment as a statement, with every form of the right hand side.
    pub fn stmt_assign(&mut self, cx: Cx) -> T {
        self.hit("assign");
        let l = self.target(false);
        self.eq();
        let l = self.finish(l);
        let rhs = match self.rng.below(8) {
            0 => {
                self.hit("assign-multi-rhs");
                let v = self.rhs_list(cx, 2);
                vec![array(v)]
            }
            1 => {
                self.hit("assign-splat-rhs");
                self.tk("*");
                self.awaiting = true;
                self.sep(Sep::Glue);
                let a = self.splat_operand();
                vec![array(vec![t("splat", vec![a])])]
            }
            2 if self.f.cmd > 0 && !self.small() => {
                self.hit("assign-command");
                vec![self.command(cx)]
            }
            3 => vec![self.simple_assign(cx)],
            _ => vec![self.expr(L_DEFINED, cx)],
        };
        t("asgn", vec![t("lhs", vec![l]), t("rhs", rhs)])
    }

    /// At least `min` values.
    fn rhs_list(&mut self, cx: Cx, min: usize) -> Vec<T> {
        let n = min + self.some(&[0, 1, 2]);
        let mut v = vec![];
        for i in 0..n {
            if i > 0 {
                self.op(",", false);
            }
            // An assignment among several values would be ambiguous.
            let save = self.f.assign_e;
            self.f.assign_e = 0;
            if self.rng.p(1, 6) {
                self.tk("*");
                self.awaiting = true;
                self.sep(Sep::Glue);
                let a = self.splat_operand();
                v.push(t("splat", vec![a]));
            } else {
                v.push(self.expr(L_TERN, cx.notail()));
            }
            self.f.assign_e = save;
        }
        v
    }

    pub fn massign(&mut self, cx: Cx) -> T {
        self.hit("massign");
        let n = self.some(&[1, 2, 3, 4]);
        let splat_at = if self.rng.p(1, 3) { Some(self.rng.below(n)) } else { None };
        let mut lhs = vec![];
        for i in 0..n {
            if i > 0 {
                self.op(",", false);
            }
            if splat_at == Some(i) {
                self.hit("massign-splat");
                self.tk("*");
                self.awaiting = true;
                self.sep(Sep::Glue);
                let l = self.target(true);
                lhs.push(Lhs::Splat(Box::new(l)));
            } else {
                lhs.push(self.target(true));
            }
        }
        if n == 1 && splat_at.is_none() {
            // a, = x
            self.hit("massign-discard");
            self.tk(",");
            self.sep(Sep::Opt);
            lhs.push(Lhs::Discard);
            self.op("=", false);
        } else {
            self.eq();
        }
        let nl = lhs.len();
        let lhs: Vec<T> = lhs.into_iter().map(|l| self.finish(l)).collect();
        let v = if self.rng.p(1, 4) {
            vec![self.expr(L_TERN, cx.notail())]
        } else {
            self.rhs_list(cx, 1)
        };
        let v = if v.iter().any(|x| x.tag == "splat") || nl == 1 && v.len() != 1 {
            vec![array(v)]
        } else {
            v
        };
        t("asgn", vec![t("lhs", lhs), t("rhs", v)])
    }

    pub fn op_assign(&mut self, cx: Cx) -> T {
        let l = self.target(false);
        let op = self.rng.s(&["+", "-", "*", "/", "%", "**", "<<", ">>", "&", "|", "^", "||", "&&", "||", "&&"]);
        if op == "**" {
            // not supported by the parser
            return self.op_assign_with(l, "+", cx);
        }
        self.op_assign_with(l, op, cx)
    }
    pub fn op_assign_with(&mut self, l: Lhs, op: &'static str, cx: Cx) -> T {
        self.hit("op-assign");
        let o = self.last_open;
        self.op(&format!("{}=", op), o);
        let l = self.finish(l);
        let r = self.expr(L_DEFINED, Cx { tail: true, ..cx });
        if op == "||" || op == "&&" {
            let asgn = t("asgn", vec![t("lhs", vec![l.clone()]), t("rhs", vec![r])]);
            t(format!("bin:{}", op), vec![l, asgn])
        } else {
            t(format!("opasgn:{}", op), vec![l, r])
        }
    }

    // ---- control ------------------------------------------------------

    pub fn then_sep(&mut self) {
        match self.rng.below(4) {
            0 => {
                self.sep(Sep::Sp);
                self.tk("then");
                self.sep(Sep::SpTerm);
            }
            1 => {
                self.sep(Sep::Term);
                self.tk("then");
                self.sep(Sep::SpTerm);
            }
            _ => self.sep(Sep::Term),
        }
    }
    pub fn do_sep(&mut self) {
        if self.rng.p(1, 3) {
            self.sep(Sep::Sp);
            self.tk("do");
            self.sep(Sep::SpTerm);
        } else {
            self.sep(Sep::Term);
        }
    }
    fn some_stmts(&mut self) -> T {
        let n = self.some(&[0, 1, 1, 1, 2, 3]);
        let r = self.stmts(n);
        // An empty body leaves the pending separator to the next token.
        if n > 0 || self.next_sep.is_none() {
            self.sep(Sep::SpTerm);
        }
        r
    }
    fn cond(&mut self, cx: Cx) -> T {
        self.awaiting = true;
        self.sep(Sep::Sp);
        if self.rng.p(1, 6) {
            self.expr_stmt(cx)
        } else {
            self.expr(L_DEFINED, cx)
        }
    }

    pub fn control(&mut self) -> T {
        match self.rng.below(8) {
            0 | 1 | 2 => self.if_stmt(),
            3 => self.unless_stmt(),
            4 | 5 => self.case_stmt(),
            6 => self.begin(),
            _ => self.loop_stmt(),
        }
    }

    pub fn if_stmt(&mut self) -> T {
        self.hit("if");
        self.opening("if");
        let r = self.if_rest();
        self.closing("end");
        r
    }
    fn if_rest(&mut self) -> T {
        let c = self.cond(INNER);
        self.then_sep();
        let a = self.some_stmts();
        let b = match self.rng.below(4) {
            0 if !self.small() => {
                self.hit("elsif");
                self.tk("elsif");
                self.if_rest()
            }
            1 | 2 => {
                self.hit("else");
                self.tk("else");
                self.sep(Sep::SpTerm);
                self.some_stmts()
            }
            _ => t("seq", vec![]),
        };
        t("if", vec![c, a, b])
    }
    pub fn unless_stmt(&mut self) -> T {
        self.hit("unless");
        self.opening("unless");
        let c = self.cond(INNER);
        self.then_sep();
        let a = self.some_stmts();
        let b = if self.rng.coin() {
            self.tk("else");
            self.sep(Sep::SpTerm);
            self.some_stmts()
        } else {
            t("seq", vec![])
        };
        self.closing("end");
        t("if", vec![c, b, a])
    }
    pub fn case_stmt(&mut self) -> T {
        self.hit("case");
        self.opening("case");
        let mut kids = vec![];
        if self.rng.p(3, 4) {
            kids.push(self.cond(INNER));
        } else {
            self.hit("case-nocond");
            kids.push(leaf("none"));
        }
        self.sep(Sep::Term);
        let n = self.some(&[1, 2, 3]);
        for _ in 0..n {
            self.tk("when");
            self.awaiting = true;
            self.sep(Sep::Sp);
            let m = self.some(&[1, 2, 3]);
            let mut w = vec![];
            for j in 0..m {
                if j > 0 {
                    self.op(",", false);
                }
                w.push(if self.rng.p(1, 10) {
                    self.tk("*");
                    self.awaiting = true;
                    self.sep(Sep::Glue);
                    let a = self.splat_operand();
                    t("splat", vec![a])
                } else {
                    self.expr(L_TERN, INNER)
                });
            }
            self.then_sep();
            w.push(self.some_stmts());
            kids.push(t("when", w));
        }
        if self.rng.coin() {
            self.hit("case-else");
            self.tk("else");
            self.sep(Sep::SpTerm);
            kids.push(self.some_stmts());
        } else {
            kids.push(t("seq", vec![]));
        }
        self.closing("end");
        t("case", kids)
    }

    pub fn loop_stmt(&mut self) -> T {
        match self.rng.below(3) {
            0 => self.for_stmt(),
            k => {
                let kw = if k == 1 { "while" } else { "until" };
                self.hit(if k == 1 { "while" } else { "until" });
                self.opening(kw);
                let c = self.cond(INNER.nodo());
                self.do_sep();
                self.loops += 1;
                let b = self.some_stmts();
                self.loops -= 1;
                self.closing("end");
                t(kw, vec![c, b])
            }
        }
    }
    pub fn for_stmt(&mut self) -> T {
        self.hit("for");
        self.opening("for");
        self.awaiting = true;
        self.sep(Sep::Sp);
        let par = self.rng.p(1, 8);
        if par {
            self.opening("(");
            self.sep(Sep::Opt);
        }
        let n = self.some(&[1, 1, 2, 3]);
        let mut vars = vec![];
        for i in 0..n {
            if i > 0 {
                self.tk(",");
                self.sep(Sep::Opt);
            }
            let name = self.local_name();
            self.tk(name.clone());
            let d = self.define(&name);
            vars.push(format!("{}:{}", d, name));
        }
        if par {
            self.closing(")");
        }
        self.sep(Sep::Sp);
        self.tk("in");
        let it = self.cond(INNER.nodo());
        self.do_sep();
        self.push_scope(SK::For);
        self.loops += 1;
        let b = self.some_stmts();
        self.loops -= 1;
        let info = self.info(vec![], b);
        self.closing("end");
        t(format!("for[{}]", vars.join(",")), vec![it, info])
    }

    pub fn begin(&mut self) -> T {
        self.hit("begin");
        self.opening("begin");
        self.sep(Sep::SpTerm);
        let (r, clauses) = self.body_and_clauses();
        if self.next_sep.is_none() {
            self.sep(Sep::SpTerm);
        }
        self.closing("end");
        if !clauses {
            // Marks a clause-less begin for a following loop modifier.
            let mut r = r;
            // A literal in begin/end is not a constant element of an array.
            let c = if is_const(&r) { "\u{2}" } else { "" };
            r.tag = format!("\u{1}{}{}", c, r.tag);
            return r;
        }
        r
    }

    /// Body of begin, def, class, do: statements and rescue clauses.
    pub fn body_with_rescue(&mut self) -> T {
        self.body_and_clauses().0
    }

    /// The second value tells if there is any clause.
    fn body_and_clauses(&mut self) -> (T, bool) {
        let n = self.some(&[0, 1, 1, 1, 2]);
        let pend = self.next_sep;
        let body = self.stmts(n);
        if n == 0 && pend.is_some() {
            self.next_sep = pend;
        }
        if self.small() || !(self.f.begin > 0 && self.rng.p(1, 4)) {
            return (body, false);
        }
        let mut kids = vec![body];
        let m = self.some(&[0, 1, 2]);
        if n > 0 {
            // `a rescue` would be a modifier.
            self.sep(Sep::Term);
        }
        for _ in 0..m {
            if self.next_sep.is_none() {
                self.sep(Sep::SpTerm);
            }
            self.hit("rescue");
            self.tk("rescue");
            let mut ex = vec![];
            let mut asgn = leaf("none");
            let mut bare = true;
            if self.rng.p(2, 3) {
                let k = self.some(&[1, 2]);
                for j in 0..k {
                    if j > 0 {
                        self.op(",", false);
                    } else {
                        self.sep(Sep::Sp);
                    }
                    ex.push(match self.rng.below(6) {
                        0 => {
                            self.tk("*");
                            self.awaiting = true;
                            self.sep(Sep::Glue);
                            let a = self.splat_operand();
                            t("splat", vec![a])
                        }
                        1 => self.expr(L_TERN, INNER.nodo()),
                        _ => self.constant(),
                    });
                }
                bare = false;
            }
            if self.rng.p(1, 2) {
                self.hit("rescue-var");
                self.sep(Sep::Sp);
                self.tk("=>");
                self.awaiting = true;
                self.sep(Sep::Sp);
                let l = self.target(false);
                asgn = self.finish(l);
                bare = false;
            }
            if bare && self.rng.p(1, 4) {
                self.sep(Sep::Term);
            } else {
                self.then_sep();
            }
            let n = self.some(&[0, 1, 1, 1, 2, 3]);
            let b = self.stmts(n);
            if n > 0 {
                self.sep(Sep::Term);
            } else if self.next_sep.is_none() {
                self.sep(Sep::SpTerm);
            }
            kids.push(t("rescue", vec![t("ex", ex), asgn, b]));
        }
        if m > 0 && self.rng.p(1, 3) {
            self.hit("rescue-else");
            if self.next_sep.is_none() {
                self.sep(Sep::SpTerm);
            }
            self.tk("else");
            self.sep(Sep::SpTerm);
            kids.push(self.some_stmts());
        } else {
            kids.push(leaf("none"));
        }
        if m == 0 || self.rng.p(1, 3) {
            self.hit("ensure");
            if self.next_sep.is_none() {
                self.sep(Sep::SpTerm);
            }
            self.tk("ensure");
            self.sep(Sep::SpTerm);
            kids.push(self.some_stmts());
        } else {
            kids.push(leaf("none"));
        }
        (t("begin", kids), true)
    }

    pub fn jump(&mut self, cx: Cx) -> T {
        let in_loop = self.loops > 0;
        let k = if in_loop { self.rng.below(5) } else { 0 };
        match k {
            4 => {
                self.hit("redo");
                self.tk("redo");
                return leaf("redo");
            }
            _ => {}
        }
        let kw = if in_loop {
            ["return", "break", "next", "next", "break"][k]
        } else {
            "return"
        };
        self.hit(kw);
        self.tk(kw);
        self.jump_first = true;
        let v = match self.rng.below(6) {
            0 | 1 => {
                self.jump_first = false;
                leaf("nil")
            }
            2 => {
                self.sep(Sep::Sp);
                array(self.rhs_list_for_jump(cx))
            }
            3 => {
                self.sep(Sep::Sp);
                self.tk("*");
                self.awaiting = true;
                self.sep(Sep::Glue);
                let a = self.splat_operand();
                array(vec![t("splat", vec![a])])
            }
            _ => {
                self.sep(Sep::Sp);
                if self.f.cmd > 0 && !self.small() && self.rng.p(1, 5) {
                    self.command(cx.nodo())
                } else {
                    self.expr(L_TERN, cx.notail().nodo())
                }
            }
        };
        t(kw, vec![v])
    }
    fn rhs_list_for_jump(&mut self, cx: Cx) -> Vec<T> {
        self.rhs_list(cx.nodo(), 2)
    }

    // ---- definitions --------------------------------------------------

    pub fn def_name(&mut self) -> String {
        match self.rng.below(10) {
            0 => {
                self.hit("def-operator");
                self.rng
                    .s(&[
                        "+", "-", "*", "/", "%", "==", "===", "=~", "<=>", "<", "<=", ">", ">=", "<<", ">>", "!=",
                        "&", "|", "+@", "-@", "[]", "[]=",
                    ])
                    .to_string()
            }
            1 => {
                self.hit("def-keyword");
                self.rng.s(KEYWORDS).to_string()
            }
            2 => {
                self.hit("def-setter");
                format!("{}=", self.rng.s(&["a", "foo", "Foo", "x_1", "été", "end", "nil"]))
            }
            3 => self.local_name(),
            4 => self.rng.s(&["a?", "b!", "Foo", "Bar1", "nil?", "nil", "true"]).to_string(),
            _ => self.rng.s(METHODS).to_string(),
        }
    }

    pub fn def(&mut self) -> T {
        self.hit("def");
        self.opening("def");
        self.sep(Sep::Sp);
        let mut singleton = None;
        if self.rng.p(1, 4) {
            self.hit("def-singleton");
            let s = match self.rng.below(5) {
                0 => self.ltok("self", "self"),
                1 => {
                    let n = self.rng.s(CONSTS);
                    self.ltok(format!("const:{}", n), n)
                }
                2 => self.ltok("gvar:$a", "$a"),
                3 => self.ltok("ivar:@a", "@a"),
                _ => {
                    let n = self.local_name();
                    self.name(&n)
                }
            };
            self.glue(".");
            self.sep(Sep::Glue);
            singleton = Some(s);
        }
        // Operators after a dot are read differently; names only.
        let n = loop {
            let n = self.def_name();
            if singleton.is_some() && n == "self" {
                continue;
            }
            break n;
        };
        self.tk(n.clone());
        self.scopes.push(Scope::new(SK::Method));
        let l = std::mem::replace(&mut self.loops, 0);
        let mut params = vec![];
        match self.rng.below(4) {
            0 => {
                self.sep(Sep::Opt);
                if !n.ends_with(|c: char| alnum(c)) {
                    self.sep(Sep::Glue);
                }
                self.opening("(");
                self.sep(Sep::OptNl);
                if self.rng.p(4, 5) {
                    params = self.params(PK::Def);
                }
                self.sep(Sep::OptNl);
                self.closing(")");
                self.sep(Sep::SpTerm);
            }
            1 => {
                self.sep(Sep::Sp);
                params = self.params(PK::Bare);
                self.sep(Sep::Term);
            }
            _ => self.sep(Sep::Term),
        }
        let body = self.body_with_rescue();
        if self.next_sep.is_none() {
            self.sep(Sep::SpTerm);
        }
        self.closing("end");
        self.loops = l;
        let info = self.info(params, body);
        match singleton {
            Some(s) => t(format!("sdef:{}", n), vec![s, info]),
            None => t(format!("def:{}", n), vec![info]),
        }
    }

    pub fn class(&mut self) -> T {
        let k = self.rng.below(5);
        if k == 0 {
            return self.sclass();
        }
        let is_module = k == 1;
        self.hit(if is_module { "module" } else { "class" });
        self.opening(if is_module { "module" } else { "class" });
        self.sep(Sep::Sp);
        let mut base = leaf("none");
        let mut top = false;
        if self.rng.p(1, 8) {
            self.tk("::");
            self.sep(Sep::Glue);
            top = true;
        }
        let mut names = vec![];
        loop {
            let n = self.rng.s(CONSTS);
            self.tk(n);
            names.push(n);
            if !self.rng.p(1, 5) {
                break;
            }
            self.glue("::");
            self.sep(Sep::Glue);
        }
        let name = names.pop().unwrap();
        if !names.is_empty() {
            base = leaf(format!("const:{}{}", if top { "::" } else { "" }, names.join("::")));
        } else if top {
            base = leaf("const:::Object");
        }
        let mut sup = leaf("none");
        if !is_module && self.rng.p(1, 3) {
            self.hit("superclass");
            self.sep(Sep::Sp);
            self.tk("<");
            self.awaiting = true;
            self.sep(Sep::Sp);
            sup = if self.rng.coin() { self.constant() } else { self.expr(L_TERN, INNER.nodo()) };
        }
        self.sep(Sep::Term);
        self.scopes.push(Scope::new(SK::Class));
        let l = std::mem::replace(&mut self.loops, 0);
        let body = self.body_with_rescue();
        if self.next_sep.is_none() {
            self.sep(Sep::SpTerm);
        }
        self.closing("end");
        self.loops = l;
        let info = self.info(vec![], body);
        t(
            format!("{}:{}", if is_module { "module" } else { "class" }, name),
            vec![base, sup, info],
        )
    }

    pub fn sclass(&mut self) -> T {
        self.hit("sclass");
        self.opening("class");
        self.sep(Sep::Sp);
        self.tk("<<");
        self.awaiting = true;
        self.sep(Sep::Sp);
        let s = match self.rng.below(3) {
            0 => self.ltok("self", "self"),
            1 => self.constant(),
            _ => self.var(),
        };
        self.sep(Sep::Term);
        self.scopes.push(Scope::new(SK::Class));
        let l = std::mem::replace(&mut self.loops, 0);
        let body = self.body_with_rescue();
        if self.next_sep.is_none() {
            self.sep(Sep::SpTerm);
        }
        self.closing("end");
        self.loops = l;
        let info = self.info(vec![], body);
        t("sclass", vec![s, info])
    }

    pub fn alias(&mut self) -> T {
        self.hit("alias");
        self.tk("alias");
        if self.rng.p(1, 6) {
            self.sep(Sep::Sp);
            self.tk("$a");
            self.sep(Sep::Sp);
            self.tk("$b");
            return t("alias", vec![leaf("sym:\"$a\""), leaf("sym:\"$b\"")]);
        }
        let mut kids = vec![];
        for _ in 0..2 {
            let n = match self.rng.below(4) {
                0 => self
                    .rng
                    .s(&["+", "-", "==", "<=>", "[]", "[]=", "<<", "!", "-@", "**", "foo=", "a?", "b!"])
                    .to_string(),
                1 => self.rng.s(KEYWORDS).to_string(),
                _ => self.rng.s(METHODS).to_string(),
            };
            self.sep(Sep::Sp);
            if self.rng.p(1, 3) {
                self.tk(format!(":{}", n));
            } else {
                self.tk(n.clone());
            }
            kids.push(leaf(format!("sym:{:?}", n)));
        }
        t("alias", kids)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum PK {
    Def,
    Bare,
    Block,
    Lambda,
    LambdaBare,
}

pub enum Lhs {
    T(T),
    Var(String, usize),
    Splat(Box<Lhs>),
    Discard,
}

pub fn fcall_t(n: &str, args: T) -> T {
    if args.tag == "args" && args.kids.is_empty() {
        leaf(format!("call:{}", n))
    } else {
        t(format!("fcall:{}", n), vec![args])
    }
}

pub fn seq(mut v: Vec<T>) -> T {
    if v.len() == 1 {
        v.pop().unwrap()
    } else {
        t("seq", v)
    }
}

/// Remove the marks of clause-less `begin` from the root.
fn strip(mut r: T) -> T {
    if r.tag.starts_with('\u{1}') {
        r.tag.remove(0);
    }
    r
}

/// Replace token indexes by source positions, and fill in line numbers.
pub fn resolve(t: &mut T, out: &Out) {
    while t.tag.starts_with(|c| c == '\u{1}' || c == '\u{2}') {
        t.tag.remove(0);
    }
    if let Some((a, b)) = t.loc {
        let s = out.span(a, b);
        if t.tag == "line" {
            let line = out.src[..s.0].bytes().filter(|c| *c == b'\n').count() + 1;
            t.tag = format!("int:{}", line);
        }
        t.loc = Some(s);
    }
    for k in &mut t.kids {
        resolve(k, out);
    }
}

fn some(r: &mut Rng, of: &[usize]) -> usize {
    let n = *r.pick(of);
    if r.p(1, 32) {
        n + r.below(9)
    } else {
        n
    }
}
