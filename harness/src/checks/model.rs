//! C24: variable tables, locations and node helpers against simple models.
use super::common::*;
use crate::mon::*;
use crate::run::*;
use ruruby_parse::*;

pub fn c24() -> Check {
    Check {
        id: "C24",
        rule: "after every operation of a random history a variable table, starting empty, from a name, or from a parse, has the return value, names, positions, slots and equality of a list model; \
               merging locations, the integer, emptiness and splat tests and the constructors agree with their definitions over boundary and random values and over the nodes of parsed texts",
        modes: vec![
            Mode { name: "table", quick: 60_000, thorough: 2_000_000, f: table },
            Mode { name: "loc", quick: 20_000, thorough: 500_000, f: loc },
            Mode { name: "number", quick: 40_000, thorough: 1_000_000, f: number },
            Mode { name: "node", quick: 40_000, thorough: 1_000_000, f: node },
            Mode { name: "arguments", quick: 4_000, thorough: 40_000, f: arguments },
            Mode { name: "kinds", quick: 256, thorough: 256, f: kinds },
        ],
        assumptions: &[],
        must: &[
            "insert:new", "insert:old", "strict:new", "strict:old", "kwrest:new", "kwrest:old", "block:new", "block:old", "forward:new", "forward:old", "start:new", "start:name", "start:parse",
            "start:clone", "loc", "number:u32", "number:i32", "number:neither", "number:big", "number:text", "node:splat", "node:empty", "node:other", "kinds", "arguments:none", "arguments:some",
        ],
    }
}

#[derive(Clone, Default)]
struct Model {
    names: Vec<String>,
    kwrest: Option<usize>,
    block: Option<usize>,
    forward: Option<usize>,
}

impl Model {
    fn find(&self, n: &str) -> Option<usize> {
        self.names.iter().position(|x| x == n)
    }
    fn add(&mut self, n: &str) -> Option<usize> {
        if self.find(n).is_some() {
            return None;
        }
        self.names.push(n.to_string());
        Some(self.names.len() - 1)
    }
}

const NAMES: &[&str] = &["a", "b", "c", "foo", "é", "", "...", "*", "_1", "A", "a b", "日本", "\"", "block", "kw"];

fn same(l: &LvarCollector, m: &Model) -> Option<String> {
    let id = |x: Option<LvarId>| x.map(|i| i.as_usize());
    if l.len() != m.names.len() || *l.table() != m.names || l.table.0 != m.names {
        return Some(format!("names {:?}, expected {:?}", l.table(), m.names));
    }
    if id(l.kwrest_param()) != m.kwrest || id(l.block_param()) != m.block || id(*l.block()) != m.block || id(l.forwarding_param) != m.forward {
        return Some(format!(
            "slots kwrest {:?} block {:?} {:?} forwarding {:?}, expected {:?} {:?} {:?}",
            l.kwrest_param(), l.block_param(), l.block(), l.forwarding_param, m.kwrest, m.block, m.forward
        ));
    }
    for n in NAMES {
        let x = id(l.table.get_lvarid(n));
        if x != m.find(n) {
            return Some(format!("position of {:?} is {:?}, expected {:?}", n, x, m.find(n)));
        }
    }
    for i in 0..m.names.len() + 2 {
        let x = l.get_name(LvarId::from(i));
        let e = m.names.get(i).map_or("<unnamed>".to_string(), |n| format!("{:?}", n));
        if x != e || usize::from(LvarId::from(i)) != i || LvarId::from(i as u32).as_u32() as usize != i {
            return Some(format!("name at {} is {}, expected {}", i, x, e));
        }
    }
    None
}

fn table(c: &mut Case) {
    let mut hist = vec![];
    let mut m = Model::default();
    let mut l = match c.rng.below(4) {
        0 => {
            let n = c.rng.s(NAMES);
            hist.push(format!("from {:?}", n));
            m.add(n);
            c.hit("start:name");
            LvarCollector::from(n.to_string())
        }
        1 => {
            // as a parse leaves it
            let src = c.rng.s(&["a = 1; foo = 2", "b = a = 1", "for c in x; end", "->(a, *b, c: 1, **foo, &é) { x = 1 }", "def f(...) g(...) end", "é, a = 1"]);
            hist.push(format!("parse {:?}", src));
            c.hit("start:parse");
            match c.parse(src) {
                Obs::Ok(r) => {
                    let l = r.lvar_collector;
                    m.names = l.table().clone();
                    l
                }
                o => {
                    c.fail(src, o.brief());
                    return;
                }
            }
        }
        _ => {
            hist.push("new".into());
            c.hit("start:new");
            if c.rng.coin() { LvarCollector::new() } else { LvarCollector::default() }
        }
    };
    let n = 1 + c.rng.below(24);
    // Copies made on the way must stay as they were.
    let mut old: Vec<(LvarCollector, Model)> = vec![];
    for _ in 0..n {
        let name = c.rng.s(NAMES);
        let id = |x: Option<LvarId>| x.map(|i| i.as_usize());
        let (op, got, want) = match c.rng.below(6) {
            0 | 1 => {
                let w = m.find(name).or_else(|| None);
                c.hit(if w.is_some() { "insert:old" } else { "insert:new" });
                let w = w.or_else(|| m.add(name));
                ("insert", Some(l.insert(name).as_usize()), w)
            }
            2 => {
                let w = m.add(name);
                c.hit(if w.is_some() { "strict:new" } else { "strict:old" });
                ("insert_new", id(l.insert_new(name.to_string())), w)
            }
            3 => {
                let w = m.add(name);
                c.hit(if w.is_some() { "block:new" } else { "block:old" });
                m.block = w.or(m.block);
                ("insert_block_param", id(l.insert_block_param(name.to_string())), w)
            }
            4 => {
                let w = m.add(name);
                c.hit(if w.is_some() { "kwrest:new" } else { "kwrest:old" });
                m.kwrest = w.or(m.kwrest);
                ("insert_kwrest_param", id(l.insert_kwrest_param(name.to_string())), w)
            }
            _ => {
                let w = m.add("...");
                c.hit(if w.is_some() { "forward:new" } else { "forward:old" });
                m.forward = w.or(m.forward);
                ("insert_delegate_param", id(l.insert_delegate_param()), w)
            }
        };
        hist.push(format!("{} {:?}", op, name));
        let bad = if got != want {
            Some(format!("{} returned {:?}, expected {:?}", op, got, want))
        } else {
            same(&l, &m)
        };
        if let Some(b) = bad {
            c.fail_desc("variable table", &hist.join("; "), b);
            return;
        }
        if c.rng.p(1, 6) {
            c.hit("start:clone");
            old.push((l.clone(), m.clone()));
            if old.last().unwrap().0 != l {
                c.fail_desc("variable table", &hist.join("; "), "a copy is not equal");
                return;
            }
        }
    }
    c.add("operations", n as u64);
    for (o, om) in &old {
        if let Some(b) = same(o, om) {
            c.fail_desc("variable table", &hist.join("; "), format!("a copy changed: {}", b));
            return;
        }
        let eq = om.names == m.names && om.kwrest == m.kwrest && om.block == m.block && om.forward == m.forward;
        if (*o == l) != eq {
            c.fail_desc("variable table", &hist.join("; "), "equality does not follow the contents");
            return;
        }
    }
    c.nontrivial(&hist.join("; "));
}

fn pos(c: &mut Case) -> usize {
    match c.rng.below(4) {
        0 => c.rng.below(4),
        1 => usize::MAX - c.rng.below(3),
        2 => (c.rng.next() >> c.rng.below(64)) as usize,
        _ => c.rng.below(1000),
    }
}

fn loc(c: &mut Case) {
    let v: Vec<Loc> = (0..3).map(|_| Loc(pos(c), pos(c))).collect();
    c.hit("loc");
    c.nontrivial(&format!("{:?}", v));
    let m = |a: Loc, b: Loc| Loc(if a.0 < b.0 { a.0 } else { b.0 }, if a.1 > b.1 { a.1 } else { b.1 });
    for a in &v {
        for b in &v {
            if a.merge(*b) != m(*a, *b) {
                c.fail_desc("Loc::merge", &format!("{:?} {:?}", a, b), format!("{:?}, expected {:?}", a.merge(*b), m(*a, *b)));
                return;
            }
        }
    }
    let n = Node::new(NodeKind::Nil, v[0]);
    let b = Node::new_binop(BinOp::Add, Node::new(NodeKind::Integer(1), v[1]), Node::new_nil(v[2]));
    if n.loc() != v[0] || n != Node::new_nil(v[0]) || b.loc != m(v[1], v[2]) {
        c.fail_desc("Node::new_nil and Node::new_binop", &format!("{:?}", v), format!("{:?} {:?}", n, b));
        return;
    }
    match &b.kind {
        NodeKind::BinOp(BinOp::Add, x, y) if x.kind == NodeKind::Integer(1) && x.loc == v[1] && y.kind == NodeKind::Nil && y.loc == v[2] => {}
        k => c.fail_desc("Node::new_binop", &format!("{:?}", v), format!("{:?}", k)),
    }
}

fn number(c: &mut Case) {
    let i: i64 = match c.rng.below(6) {
        0 => *c.rng.pick(&[0, 1, -1, i32::MAX as i64, i32::MIN as i64, u32::MAX as i64, i64::MAX, i64::MIN]),
        1 => (*c.rng.pick(&[i32::MAX as i64, i32::MIN as i64, u32::MAX as i64, 0, 1 << 31, 1 << 32, 1 << 33])).wrapping_add(c.rng.below(5) as i64 - 2),
        2 => c.rng.next() as i64,
        3 => -((c.rng.next() >> (1 + c.rng.below(62))) as i64),
        4 => (1i64 << c.rng.below(63)) - c.rng.below(2) as i64,
        _ => (c.rng.next() >> (1 + c.rng.below(62))) as i64,
    };
    let text = i.to_string();
    c.nontrivial(&text);
    let (u, s) = (u32::try_from(i).ok(), i32::try_from(i).ok());
    c.hit(if s.is_some() { "number:i32" } else if u.is_some() { "number:u32" } else { "number:neither" });
    let n = Node::new(NodeKind::Integer(i), Loc(0, 0));
    if n.is_imm_u32() != u || n.is_imm_i32() != s {
        c.fail_desc("is_imm_u32 and is_imm_i32", &text, format!("{:?} {:?}, expected {:?} {:?}", n.is_imm_u32(), n.is_imm_i32(), u, s));
        return;
    }
    // The same, from the text of the number.
    if let Obs::Ok(r) = c.parse(&text) {
        c.hit("number:text");
        if r.node.is_imm_u32() != u || r.node.is_imm_i32() != s {
            c.fail(&text, format!("small integer tests {:?} {:?}, expected {:?} {:?}", r.node.is_imm_u32(), r.node.is_imm_i32(), u, s));
            return;
        }
    }
    let k = match c.rng.below(6) {
        0 => NodeKind::Bignum(num::BigInt::from(i)),
        1 => NodeKind::Float(i as f64),
        2 => NodeKind::Imaginary(NReal::Integer(i)),
        3 => NodeKind::SpecialVar(i as u32),
        4 => NodeKind::Bool(i == 1),
        _ => NodeKind::String(text.clone()),
    };
    c.hit("number:big");
    let n = Node::new(k, Loc(0, 0));
    if n.is_imm_u32().is_some() || n.is_imm_i32().is_some() {
        c.fail_desc("is_imm_u32 and is_imm_i32", &text, format!("{:?} passes for a small integer", n.kind));
    }
}

fn tested(c: &mut Case, src: &str, n: &Node) -> bool {
    let splat = matches!(n.kind, NodeKind::Splat(_));
    let empty = matches!(&n.kind, NodeKind::CompStmt(v) if v.is_empty());
    c.hit(if splat { "node:splat" } else if empty { "node:empty" } else { "node:other" });
    if n.is_splat() != splat || n.is_empty() != empty || n.loc() != n.loc || (n.is_imm_i32().is_some() && !matches!(n.kind, NodeKind::Integer(_))) {
        c.fail(src, format!("is_splat {} is_empty {} for {:?}", n.is_splat(), n.is_empty(), n));
        return false;
    }
    let mut kids: Vec<&Node> = vec![];
    match &n.kind {
        NodeKind::Array(v, _) | NodeKind::CompStmt(v) | NodeKind::InterporatedString(v) => kids.extend(v),
        NodeKind::MulAssign(a, b) => kids.extend(a.iter().chain(b)),
        NodeKind::BinOp(_, a, b) | NodeKind::AssignOp(_, a, b) => kids.extend([&**a, &**b]),
        NodeKind::If { cond, then_, else_ } => kids.extend([&**cond, &**then_, &**else_]),
        NodeKind::MethodCall { receiver, arglist, .. } => {
            kids.push(receiver);
            kids.extend(&arglist.args);
        }
        NodeKind::FuncCall { arglist, .. } => kids.extend(&arglist.args),
        NodeKind::MethodDef(_, i) | NodeKind::Lambda(i) => kids.push(&i.body),
        NodeKind::While { cond, body, .. } => kids.extend([&**cond, &**body]),
        _ => {}
    }
    kids.into_iter().all(|k| tested(c, src, k))
}

fn node(c: &mut Case) {
    let src = if c.rng.p(1, 8) { c.rng.s(&["", "()", "[*a]", "foo(*a)", "a = *b", "while a; end", "begin; end", "{}", "[]", "''", "def f; end"]).to_string() } else { program(c, &[4, 10, 20, 40], 3, &[0]).0 };
    c.nontrivial(&src);
    if let Obs::Ok(r) = c.parse(&src) {
        tested(c, &src, &r.node);
    }
}

fn kinds(c: &mut Case) {
    let i = (c.idx % 7) as u8;
    c.hit("kinds");
    let k = CmpKind::from(i);
    let name = ["==", "!=", "<", "<=", ">", ">=", "==="][i as usize];
    c.nontrivial(&format!("{}", i));
    if k as u8 != i || format!("{:?}", k) != name {
        c.fail_desc("CmpKind::from", &i.to_string(), format!("{:?}", k));
        return;
    }
    // The kind of that number is the one the operator of that name has.
    let src = format!("a {} b", name);
    match c.parse(&src) {
        Obs::Ok(r) if matches!(&r.node.kind, NodeKind::BinOp(BinOp::Cmp(x), ..) if *x == k) => {}
        o => c.fail(&src, o.brief()),
    }
}

/// Lists of arguments are made of what they are given, and of nothing else.
fn arguments(c: &mut Case) {
    let n = c.rng.below(6);
    let src = (0..n).map(|i| format!("{}{}", c.rng.s(&["", "", "*", ":"]), c.rng.s(&["a", "b", "c"]).to_string() + &i.to_string())).collect::<Vec<_>>().join(", ");
    let text = format!("[{}]", src);
    c.nontrivial(&text);
    let Obs::Ok(r) = c.parse(&text) else {
        c.fail(&text, "rejected".to_string());
        return;
    };
    let NodeKind::Array(v, _) = r.node.kind else {
        c.fail(&text, "not an array".to_string());
        return;
    };
    c.hit(if v.is_empty() { "arguments:none" } else { "arguments:some" });
    let a = ArgList::from_args(v.clone());
    let d = ArgList::default();
    if a.args != v || a.args.len() != n || !a.kw_args.is_empty() || !a.hash_splat.is_empty() || a.block.is_some() || a.forwarding || a.splat {
        c.fail_desc("ArgList::from_args", &text, format!("{:?}", a));
        return;
    }
    if !d.args.is_empty() || !d.kw_args.is_empty() || !d.hash_splat.is_empty() || d.block.is_some() || d.forwarding || d.splat || (a == d) != v.is_empty() {
        c.fail_desc("ArgList::default", "", format!("{:?}", d));
    }
}
