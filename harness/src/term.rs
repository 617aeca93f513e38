//! Canonical terms: the observable content of a syntax tree, without the
//! accidental differences between node kinds which mean the same thing.
use ruruby_parse::*;

#[derive(Clone, PartialEq)]
pub struct T {
    pub tag: String,
    pub kids: Vec<T>,
    /// Source span (start, inclusive end). In an expected term only the spans
    /// which are specified are given.
    pub loc: Option<(usize, usize)>,
    /// Content of a string literal: bytes, and whether it is a byte string.
    pub raw: Option<(Vec<u8>, bool)>,
}

/// A string literal.
pub fn lit(bytes: Vec<u8>, is_bytes: bool) -> T {
    let tag = if is_bytes {
        bytestag(&bytes)
    } else {
        strtag(std::str::from_utf8(&bytes).unwrap())
    };
    let mut r = leaf(tag);
    r.raw = Some((bytes, is_bytes));
    r
}

/// Join adjacent pieces of text, and drop empty ones: how a text is cut into
/// pieces is not observable.
pub fn merge_text(v: Vec<T>) -> Vec<T> {
    let mut out: Vec<T> = vec![];
    // What is not constant stays so.
    let mark = |l: T| T { tag: format!("\u{2}{}", l.tag), ..l };
    let mut pending = false;
    for x in v {
        if let Some((b, is_b)) = &x.raw {
            pending |= x.tag.contains('\u{2}');
            if b.is_empty() {
                continue;
            }
            let mut l = lit(b.clone(), *is_b);
            if let Some(last) = out.last() {
                if let Some((b0, is_b0)) = &last.raw {
                    pending |= last.tag.contains('\u{2}');
                    let mut nb = b0.clone();
                    nb.extend_from_slice(b);
                    l = lit(nb, *is_b || *is_b0);
                    out.pop();
                }
            }
            out.push(if pending { mark(l) } else { l });
            pending = false;
        } else {
            out.push(x);
        }
    }
    if pending {
        if let Some(l) = out.pop() {
            out.push(mark(l));
        }
    }
    out
}

/// Whether a literal made of such elements is a constant.
pub fn is_const(x: &T) -> bool {
    x.kids.is_empty()
        && (matches!(x.tag.as_str(), "nil" | "true" | "false" | "line")
            || ["int:", "float:", "sym:", "str:", "bytes:"].iter().any(|p| x.tag.starts_with(p)))
}

pub fn array(kids: Vec<T>) -> T {
    let c = kids.iter().all(is_const);
    t(if c { "array!" } else { "array" }, kids)
}
pub fn hash(kids: Vec<T>) -> T {
    let c = kids.iter().all(is_const);
    t(if c { "hash!" } else { "hash" }, kids)
}
pub fn range(a: T, b: T, excl: bool) -> T {
    let int = |x: &T| x.tag.starts_with("int:") || x.tag == "line";
    let c = int(&a) && int(&b);
    t(
        format!("range{}{}", if excl { "..." } else { ".." }, if c { "!" } else { "" }),
        vec![a, b],
    )
}

pub fn t(tag: impl Into<String>, kids: Vec<T>) -> T {
    T {
        tag: tag.into(),
        kids,
        loc: None,
        raw: None,
    }
}

pub fn leaf(tag: impl Into<String>) -> T {
    t(tag, vec![])
}

impl std::fmt::Display for T {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        // Iterative, because trees can be very deep.
        enum Job<'a> {
            Open(&'a T),
            Text(&'static str),
        }
        let mut stack = vec![Job::Open(self)];
        while let Some(job) = stack.pop() {
            match job {
                Job::Text(s) => f.write_str(s)?,
                Job::Open(n) => {
                    if n.kids.is_empty() {
                        f.write_str(&n.tag)?;
                    } else {
                        write!(f, "({}", n.tag)?;
                        stack.push(Job::Text(")"));
                        for k in n.kids.iter().rev() {
                            stack.push(Job::Open(k));
                            stack.push(Job::Text(" "));
                        }
                    }
                }
            }
        }
        Ok(())
    }
}

impl std::fmt::Debug for T {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self)
    }
}

impl T {
    pub fn at(mut self, s: usize, e: usize) -> T {
        self.loc = Some((s, e));
        self
    }
    pub fn size(&self) -> usize {
        1 + self.kids.iter().map(|k| k.size()).sum::<usize>()
    }
    /// First difference between an expected term and an actual one.
    /// Tags and structure must be equal; spans are compared where the expected
    /// term gives one and `locs` is set.
    pub fn diff(&self, act: &T, locs: bool) -> Option<String> {
        if self.tag != act.tag || self.kids.len() != act.kids.len() {
            // Compare children first for a short message.
            if self.tag == act.tag {
                for (a, b) in self.kids.iter().zip(act.kids.iter()) {
                    if a.tag != b.tag {
                        return Some(format!("expected {} got {} (in {} / {})", clip(a), clip(b), clip(self), clip(act)));
                    }
                }
            }
            return Some(format!("expected {} got {}", clip(self), clip(act)));
        }
        if locs {
            if let Some(l) = self.loc {
                if act.loc != Some(l) {
                    return Some(format!(
                        "location of {}: expected {:?} got {:?}",
                        clip(self),
                        l,
                        act.loc
                    ));
                }
            }
        }
        for (a, b) in self.kids.iter().zip(act.kids.iter()) {
            if let Some(d) = a.diff(b, locs) {
                return Some(d);
            }
        }
        None
    }
    pub fn walk<'a>(&'a self, f: &mut impl FnMut(&'a T)) {
        f(self);
        for k in &self.kids {
            k.walk(f);
        }
    }
}

fn clip(t: &T) -> String {
    let s = t.to_string();
    if s.chars().count() > 400 {
        let mut c: String = s.chars().take(400).collect();
        c.push_str("...");
        c
    } else {
        s
    }
}

pub fn flt(f: f64) -> String {
    format!("float:{:016x}:{:?}", f.to_bits(), f)
}

fn nreal(n: &NReal) -> String {
    match n {
        NReal::Integer(i) => format!("int:{}", i),
        NReal::Bignum(b) => format!("int:{}", b),
        NReal::Float(f) => flt(*f),
    }
}

pub fn strtag(s: &str) -> String {
    format!("str:{:?}", s)
}
pub fn bytestag(b: &[u8]) -> String {
    format!("bytes:{:?}", b)
}

pub fn binop_name(op: &BinOp) -> String {
    match op {
        BinOp::Add => "+".into(),
        BinOp::Sub => "-".into(),
        BinOp::Mul => "*".into(),
        BinOp::Div => "/".into(),
        BinOp::Rem => "%".into(),
        BinOp::Exp => "**".into(),
        BinOp::Shr => ">>".into(),
        BinOp::Shl => "<<".into(),
        BinOp::BitAnd => "&".into(),
        BinOp::BitOr => "|".into(),
        BinOp::BitXor => "^".into(),
        BinOp::Compare => "<=>".into(),
        BinOp::LAnd => "&&".into(),
        BinOp::LOr => "||".into(),
        BinOp::Match => "=~".into(),
        BinOp::Cmp(CmpKind::Eq) => "==".into(),
        BinOp::Cmp(CmpKind::Ne) => "!=".into(),
        BinOp::Cmp(CmpKind::Lt) => "<".into(),
        BinOp::Cmp(CmpKind::Le) => "<=".into(),
        BinOp::Cmp(CmpKind::Gt) => ">".into(),
        BinOp::Cmp(CmpKind::Ge) => ">=".into(),
        BinOp::Cmp(CmpKind::TEq) => "===".into(),
    }
}

pub fn unop_name(op: &UnOp) -> &'static str {
    match op {
        UnOp::BitNot => "~",
        UnOp::Not => "!",
        UnOp::Pos => "+@",
        UnOp::Neg => "-@",
    }
}

/// The table of a scope: names in order, and the designated slots.
pub fn lvar_tag(l: &LvarCollector) -> String {
    let id = |x: Option<LvarId>| match x {
        Some(i) => i.as_usize().to_string(),
        None => "-".to_string(),
    };
    format!(
        "lv[{}]kw{:?}kr{}b{}f{}n{}",
        l.table().join(","),
        l.kw.iter().map(|i| i.as_usize()).collect::<Vec<_>>(),
        id(l.kwrest_param()),
        id(l.block_param()),
        id(l.forwarding_param),
        if l.numbered_param.is_some() { "1" } else { "-" }
    )
}

pub fn norm_arglist(a: &ArgList) -> T {
    let mut kids: Vec<T> = a.args.iter().map(norm).collect();
    for (k, v) in &a.kw_args {
        kids.push(t(format!("kw:{}", k), vec![norm(v)]));
    }
    for v in &a.hash_splat {
        kids.push(t("dsplat", vec![norm(v)]));
    }
    if a.forwarding {
        kids.push(leaf("fwd"));
    }
    if let Some(b) = &a.block {
        kids.push(t("blk", vec![norm(b)]));
    }
    t(if a.splat { "args*" } else { "args" }, kids)
}

pub fn norm_param(p: &FormalParam) -> T {
    let mut r = match &p.kind {
        ParamKind::Param(n) => leaf(format!("req:{}", n)),
        ParamKind::Post(n) => leaf(format!("post:{}", n)),
        ParamKind::Optional(n, d) => t(format!("opt:{}", n), vec![norm(d)]),
        ParamKind::Rest(n) => leaf(format!("rest:{}", n.as_deref().unwrap_or("*"))),
        ParamKind::Keyword(n, d) => t(
            format!("key:{}", n),
            d.iter().map(|d| norm(d)).collect::<Vec<_>>(),
        ),
        ParamKind::KWRest(n) => leaf(format!("keyrest:{}", n)),
        ParamKind::Block(n) => leaf(format!("block:{}", n)),
        ParamKind::Delegate => leaf("..."),
        ParamKind::Destruct(v) => t(
            "destruct",
            v.iter()
                .map(|(n, l)| leaf(format!("d:{}", n)).at(l.0, l.1))
                .collect(),
        ),
    };
    r.loc = Some((p.loc.0, p.loc.1));
    r
}

pub fn norm_info(i: &BlockInfo) -> T {
    t(
        "info",
        vec![
            t("params", i.params.iter().map(norm_param).collect()),
            leaf(lvar_tag(&i.lvar)),
            norm(&i.body),
        ],
    )
}

fn opt(n: &Option<Box<Node>>) -> T {
    match n {
        Some(n) => norm(n),
        None => leaf("none"),
    }
}

fn arglist_empty(a: &ArgList) -> bool {
    a.args.is_empty()
        && a.kw_args.is_empty()
        && a.hash_splat.is_empty()
        && a.block.is_none()
        && !a.forwarding
        && !a.splat
}

pub fn norm(n: &Node) -> T {
    let mut r = norm_(n);
    r.loc = Some((n.loc.0, n.loc.1));
    r
}

fn cst(b: bool) -> &'static str {
    if b {
        "!"
    } else {
        ""
    }
}

fn norm_(n: &Node) -> T {
    let l = |v: &Vec<Node>| v.iter().map(norm).collect::<Vec<_>>();
    match &n.kind {
        NodeKind::SelfValue => leaf("self"),
        NodeKind::Nil => leaf("nil"),
        NodeKind::Integer(i) => leaf(format!("int:{}", i)),
        NodeKind::Bignum(b) => leaf(format!("int:{}", b)),
        NodeKind::Float(f) => leaf(flt(*f)),
        NodeKind::Imaginary(r) => leaf(format!("imag:{}", nreal(r))),
        NodeKind::Bool(b) => leaf(b.to_string()),
        NodeKind::String(s) => lit(s.clone().into_bytes(), false),
        NodeKind::Bytes(b) => lit(b.clone(), true),
        NodeKind::InterporatedString(v) => t("istr", merge_text(l(v))),
        NodeKind::Command(c) => t("cmd", vec![norm(c)]),
        NodeKind::Symbol(s) => leaf(format!("sym:{:?}", s)),
        NodeKind::Range {
            start,
            end,
            exclude_end,
            is_const,
        } => t(
            format!(
                "range{}{}",
                if *exclude_end { "..." } else { ".." },
                cst(*is_const)
            ),
            vec![norm(start), norm(end)],
        ),
        NodeKind::Array(v, c) => t(format!("array{}", cst(*c)), l(v)),
        NodeKind::Hash(v, c) => t(
            format!("hash{}", cst(*c)),
            v.iter().flat_map(|(k, v)| [norm(k), norm(v)]).collect(),
        ),
        NodeKind::RegExp(v, op, c) => {
            let mut op: Vec<char> = op.chars().collect();
            op.sort();
            op.dedup();
            t(
                format!("regex{}:{}", cst(*c), op.into_iter().collect::<String>()),
                merge_text(l(v)),
            )
        }
        NodeKind::LocalVar(o, s) => leaf(format!("lvar:{}:{}", o, s)),
        NodeKind::Ident(s) => leaf(format!("call:{}", s)),
        NodeKind::InstanceVar(s) => leaf(format!("ivar:{}", s)),
        NodeKind::GlobalVar(s) => leaf(format!("gvar:{}", s)),
        NodeKind::SpecialVar(i) => leaf(format!("svar:{}", i)),
        NodeKind::ClassVar(s) => leaf(format!("cvar:{}", s)),
        NodeKind::Const {
            toplevel,
            parent,
            prefix,
            name,
        } => {
            let mut s = String::from("const:");
            if *toplevel {
                s += "::";
            }
            for p in prefix {
                s += p;
                s += "::";
            }
            s += name;
            if *toplevel && parent.is_some() {
                s += "!toplevel with a parent";
            }
            t(s, parent.iter().map(|p| norm(p)).collect())
        }
        NodeKind::BinOp(op, a, b) => t(format!("bin:{}", binop_name(op)), vec![norm(a), norm(b)]),
        NodeKind::UnOp(op, a) => t(format!("un:{}", unop_name(op)), vec![norm(a)]),
        NodeKind::Index { base, index } => {
            let mut v = vec![norm(base)];
            v.extend(index.iter().map(norm));
            t("index", v)
        }
        NodeKind::Splat(a) => t("splat", vec![norm(a)]),
        NodeKind::AssignOp(op, a, b) => {
            t(format!("opasgn:{}", binop_name(op)), vec![norm(a), norm(b)])
        }
        NodeKind::MulAssign(a, b) => t("asgn", vec![t("lhs", l(a)), t("rhs", l(b))]),
        NodeKind::CompStmt(v) => t("seq", l(v)),
        NodeKind::If { cond, then_, else_ } => {
            t("if", vec![norm(cond), norm(then_), norm(else_)])
        }
        NodeKind::For { param, iter, body } => t(
            format!(
                "for[{}]",
                param
                    .iter()
                    .map(|(o, n)| format!("{}:{}", o, n))
                    .collect::<Vec<_>>()
                    .join(",")
            ),
            vec![norm(iter), norm_info(body)],
        ),
        NodeKind::While {
            cond,
            body,
            cond_op,
            postfix,
        } => t(
            format!(
                "{}{}",
                if *cond_op { "while" } else { "until" },
                match (*postfix, &body.kind) {
                    (true, NodeKind::Begin { rescue, else_, ensure, .. })
                        if rescue.is_empty() && else_.is_none() && ensure.is_none() =>
                        "-dopost",
                    (true, _) => "-post",
                    _ => "",
                }
            ),
            vec![norm(cond), norm(body)],
        ),
        NodeKind::Case { cond, when_, else_ } => {
            let mut v = vec![opt(cond)];
            for w in when_ {
                let mut k: Vec<T> = w.when.iter().map(norm).collect();
                k.push(norm(&w.body));
                v.push(t("when", k));
            }
            v.push(norm(else_));
            t("case", v)
        }
        NodeKind::Begin {
            body,
            rescue,
            else_,
            ensure,
        } => {
            if rescue.is_empty() && else_.is_none() && ensure.is_none() {
                return norm_(body);
            }
            let mut v = vec![norm(body)];
            for r in rescue {
                v.push(t(
                    "rescue",
                    vec![
                        t("ex", r.exception_list.iter().map(norm).collect()),
                        opt(&r.assign),
                        norm(&r.body),
                    ],
                ));
            }
            v.push(opt(else_));
            v.push(opt(ensure));
            t("begin", v)
        }
        NodeKind::Lambda(i) => t("lambda", vec![norm_info(i)]),
        NodeKind::Break(v) => t("break", vec![norm(v)]),
        NodeKind::Next(v) => t("next", vec![norm(v)]),
        NodeKind::Redo => leaf("redo"),
        NodeKind::Return(v) => t("return", vec![norm(v)]),
        NodeKind::Yield(a) => t("yield", vec![norm_arglist(a)]),
        NodeKind::MethodDef(name, i) => t(format!("def:{}", name), vec![norm_info(i)]),
        NodeKind::SingletonMethodDef(s, name, i) => {
            t(format!("sdef:{}", name), vec![norm(s), norm_info(i)])
        }
        NodeKind::ClassDef {
            base,
            name,
            superclass,
            info,
            is_module,
        } => t(
            format!("{}:{}", if *is_module { "module" } else { "class" }, name),
            vec![opt(base), opt(superclass), norm_info(info)],
        ),
        NodeKind::SingletonClassDef { singleton, info } => {
            t("sclass", vec![norm(singleton), norm_info(info)])
        }
        NodeKind::MethodCall {
            receiver,
            method,
            arglist,
            safe_nav,
        } => t(
            format!("{}{}", if *safe_nav { "&." } else { "." }, method),
            vec![norm(receiver), norm_arglist(arglist)],
        ),
        NodeKind::FuncCall {
            method,
            arglist,
            safe_nav,
        } => {
            if arglist_empty(arglist) && !safe_nav {
                leaf(format!("call:{}", method))
            } else {
                // There is no receiver which might be nil.
                t(format!("fcall{}:{}", if *safe_nav { "&." } else { "" }, method), vec![norm_arglist(arglist)])
            }
        }
        NodeKind::Defined(a) => t("defined", vec![norm(a)]),
        NodeKind::Super(None) => leaf("zsuper"),
        NodeKind::Super(Some(a)) => t("super", vec![norm_arglist(a)]),
        NodeKind::AliasMethod(a, b) => t("alias", vec![norm(a), norm(b)]),
        NodeKind::DiscardLhs => leaf("discard"),
    }
}
