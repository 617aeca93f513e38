//! C17 calls, C18 assignments, C19 control structures, C20 definitions.
use super::common::*;
use crate::gen::*;
use crate::mon::*;
use crate::run::{Case, Check, Mode};
use crate::term::*;

/// Statement contexts: text before, text after.
pub const STMT_AT: &[(&str, &str)] = &[
    ("", ""),
    ("", "\n"),
    ("self;", ";self"),
    ("foo -1\n", "\nfoo -1"),
    ("(", ")"),
    ("foo { ", " }"),
    ("foo do |z|\n", "\nend"),
    ("-> { ", " }"),
    ("def m\n", "\nend"),
    ("def m(a)\n1\n", "\n2\nend"),
    ("if self\n", "\nend"),
    ("if self then ", " else 2 end"),
    ("unless self\n1\nelse\n", "\nend"),
    ("begin\n", "\nrescue\n1\nend"),
    ("begin\n1\nrescue E => e\n", "\nensure\n3\nend"),
    ("while self\n", "\nend"),
    ("while self do ", " end"),
    ("for i in 1..2\n", "\nend"),
    ("case 1\nwhen 2 then ", "\nend"),
    ("case 1\nwhen 2\n3\nelse\n", "\nend"),
    ("class C\n", "\nend"),
    ("module M\nself\n", "\nend"),
    ("class << self\n", "\nend"),
    ("\"#{", "}\""),
    ("\"a#{1}b#{", "}c\""),
    ("`#{", "}`"),
    ("/#{", "}/"),
    ("[(", ")]"),
    ("foo((", "))"),
    ("foo(k: (", "))"),
    ("q = (", ")"),
    ("self && (", ")"),
    ("self ? (", ") : 2"),
    ("x[(", ")]"),
    ("foo(1, 2) {\n", "\n}"),
    ("[1, foo { ", " }, 2]"),
    ("{k: -> { ", " }}.m"),
    ("while (", ") do\nend"),
    ("foo bar { ", " }"),
    ("foo 1 do\n", "\nend"),
    ("# c\n", " # c"),
    ("  ", "  "),
];

fn wrapped(c: &mut Case, a: &str, b: &str) -> (String, String) {
    let (x, y) = *c.rng.pick(STMT_AT);
    // A here-document needs its line, a definition of a class its place.
    let (x, y) = if (a.contains("class") || a.contains("A =") || a.contains("A ||=") || b.contains("yield")) && x.contains("def ") { ("", "") } else { (x, y) };
    (format!("{}{}{}", x, a, y), format!("{}{}{}", x, b, y))
}

/// A catalogue of texts with their unambiguous forms.
fn same(c: &mut Case, cat: &[(&str, &str)], subst: &[(&str, &[&str])], why: &str) {
    let (a, b) = cat[(c.idx as usize) % cat.len()];
    let (mut a, mut b) = (a.to_string(), b.to_string());
    for (k, v) in subst {
        let x = *c.rng.pick(v);
        a = a.replace(k, x);
        b = b.replace(k, x);
    }
    let (a, b) = if (c.idx as usize) < cat.len() { (a, b) } else { wrapped(c, &a, &b) };
    c.hit("same");
    expect_same(c, &b, &a, why);
}

// ---- C17 ---------------------------------------------------------------------------

pub fn c17() -> Check {
    Check {
        id: "C17",
        rule: "a distinct source text with a call whose tree was compared with the one meant, or which had to be rejected",
        modes: vec![
            Mode { name: "spacing", quick: 40_000, thorough: 400_000, f: c17_spacing },
            Mode { name: "touching", quick: 40_000, thorough: 400_000, f: c17_touching },
            Mode { name: "names", quick: 60_000, thorough: 400_000, f: c17_names },
            Mode { name: "args", quick: 80_000, thorough: 800_000, f: c17_args },
            Mode { name: "blocks", quick: 120_000, thorough: 2_000_000, f: c17_blocks },
            Mode { name: "reject", quick: 30_000, thorough: 300_000, f: c17_reject },
            Mode { name: "program", quick: 80_000, thorough: 1_500_000, f: c17_program },
            Mode { name: "mixture", quick: 30_000, thorough: 800_000, f: c17_mixture },
        ],
        assumptions: &["the order of keywords among double splats is not in the tree", "not covered: quoted and reserved-word labels in calls, `p ?a`, blocks on a bare local variable"],
        must: &["same", "brace", "do-outer", "do-inner", "loop-cond", "rejected", "arg-blk", "arg-dsplat", "keyword-name", "touching"],
    }
}

fn c17_mixture(c: &mut Case) {
    mixture(c, TREE);
}

fn c17_program(c: &mut Case) {
    let f = Feat {
        mcall: 12,
        fcall: 10,
        block: 14,
        lambda: 2,
        cmd: 30,
        array: 2,
        hash: 2,
        index: 3,
        strs: 2,
        sym: 2,
        cst: 2,
        kwlit: 2,
        paren: 2,
        binop: 3,
        logic: 1,
        unop: 2,
        neg: 2,
        ternary: 1,
        stmt_assign: 6,
        def: 4,
        loops: 4,
        modifier: 2,
        andor: 2,
        istr: 1,
        control: 1,
        ..Feat::base()
    };
    focus(c, f, &[10, 20, 40, 60], 3, &[0, 0, 40, 100], TREE_TABLE);
}

/// `F` a method name, `V` a local variable, `X` and `Y` operands.
const SPACING: &[(&str, &str)] = &[
    ("F -1", "F(-1)"),
    ("F - 1", "(F) - 1"),
    ("F-1", "(F) - 1"),
    ("F -X", "F((-X))"),
    ("F - X", "(F) - X"),
    ("F -@a.b", "F((-(@a.b)))"),
    ("F -2.abs", "F((-2).abs)"),
    ("F -2 ** 2", "F((-(2 ** 2)))"),
    ("F -1, -2", "F(-1, -2)"),
    ("F -1 - 2", "F((-1) - 2)"),
    ("F -1 => -2", "F((-1) => (-2))"),
    ("F +1", "F((+1))"),
    ("F + 1", "(F) + 1"),
    ("F+1", "(F) + 1"),
    ("F +@a", "F((+@a))"),
    ("F *@a", "F(*@a)"),
    ("F *@a, 1", "F(*(@a), 1)"),
    ("F *[1, 2]", "F(*([1, 2]))"),
    ("F *G", "F(*(G))"),
    ("F * @a", "(F) * @a"),
    ("F*@a", "(F) * @a"),
    ("F **@a", "F(**(@a))"),
    ("F ** @a", "(F) ** @a"),
    ("F**@a", "(F) ** @a"),
    ("F &@a", "F(&(@a))"),
    ("F &:a", "F(&(:a))"),
    ("F 1, &@a", "F(1, &(@a))"),
    ("F & @a", "(F) & @a"),
    ("F&@a", "(F) & @a"),
    ("F [1]", "F([1])"),
    ("F [1][0]", "F(([1])[0])"),
    ("F [1].m", "F(([1]).m)"),
    ("F [1], [2]", "F([1], [2])"),
    ("F [1] + [2]", "F([1] + [2])"),
    ("F []", "F([])"),
    ("F[1]", "(F)[1]"),
    ("F[1].m", "((F)[1]).m"),
    ("F[X, Y]", "(F)[X, Y]"),
    ("F (1)", "F(1)"),
    ("F (1).m", "F((1).m)"),
    ("F(1).m", "(F(1)).m"),
    ("F (1) + 2", "F((1) + 2)"),
    ("F(1) + 2", "(F(1)) + 2"),
    ("F (1), 2", "F(1, 2)"),
    ("F (X)[0]", "F((X)[0])"),
    ("F(X)[0]", "(F(X))[0]"),
    ("F (X) && Y", "F(((X) && Y))"),
    ("F (X) and Y", "(F((X))) and Y"),
    ("F ((X))", "F(X)"),
    ("F (X; Y)", "F((X; Y))"),
    ("F ::A", "F((::A))"),
    ("F ::A::B", "F((::A::B))"),
    ("F :a", "F((:a))"),
    ("F :a, :b", "F((:a), (:b))"),
    ("F :a => :b", "F((:a) => (:b))"),
    ("F \"s\"", "F((\"s\"))"),
    ("F \"s\".m", "F((\"s\").m)"),
    ("F 's'", "F(('s'))"),
    ("F `s`", "F((`s`))"),
    ("F %w(a b)", "F((%w(a b)))"),
    ("F %(s)", "F((%(s)))"),
    ("F %q(s), 1", "F((%q(s)), 1)"),
    ("F % @a", "(F) % @a"),
    ("F%@a", "(F) % @a"),
    ("F /a/", "F((/a/))"),
    ("F /a b/i, 1", "F((/a b/i), 1)"),
    ("F / @a", "(F) / @a"),
    ("F/@a", "(F) / @a"),
    ("F << @a", "(F) << @a"),
    ("F<<@a", "(F) << @a"),
    ("F >> @a", "(F) >> @a"),
    ("F !@a", "F((!@a))"),
    ("F !X", "F((!X))"),
    ("F !X == Y", "F(((!X) == Y))"),
    ("F != @a", "(F) != @a"),
    ("F ~@a", "F((~@a))"),
    ("F ~1, 2", "F((~1), 2)"),
    ("F -> {}", "F((-> {}))"),
    ("F -> { X }, 1", "F((-> { X }), 1)"),
    ("F ->(z) { z }", "F((->(z) { z }))"),
    ("F -> do X end", "F((-> { X }))"),
    ("F - -> { 1 }", "(F) - (-> { 1 })"),
    ("F {}", "F() {}"),
    ("F { X }", "F() { X }"),
    ("F {|z| z }", "F() { |z| z }"),
    ("F do X end", "F() { X }"),
    ("F() do X end", "F() { X }"),
    ("F(1) do X end", "F(1) { X }"),
    ("F 1 do X end", "F(1) { X }"),
    ("F 1 do |z| z end", "F(1) { |z| z }"),
    ("F({})", "F(({}))"),
    ("F({}, 1)", "F(({}), 1)"),
    ("F z: 1", "F(z: 1)"),
    ("F z: -1, y: 2", "F(z: (-1), y: (2))"),
    ("F z: [1], y: {}", "F(z: ([1]), y: ({}))"),
    ("F 1, z: 1", "F(1, z: 1)"),
    ("F z:1", "F(z: 1)"),
    ("F 1 => 2", "F(1 => 2)"),
    ("F 1 => 2, 3 => 4", "F(1 => 2, 3 => 4)"),
    ("F \"a\" => 2", "F((\"a\") => (2))"),
    ("F 1, 2 => 3", "F(1, 2 => 3)"),
    ("F nil", "F((nil))"),
    ("F nil, true, false, self", "F((nil), (true), (false), (self))"),
    ("F @a", "F((@a))"),
    ("F @@a", "F((@@a))"),
    ("F $a", "F(($a))"),
    ("F A", "F((A))"),
    ("F A::B", "F((A::B))"),
    ("F A.m", "F((A).m)"),
    ("F G", "F((G))"),
    ("F G, 1", "F((G), 1)"),
    ("F 1.5", "F(1.5)"),
    ("F 1..2", "F((1..2))"),
    ("F 1...2", "F((1...2))"),
    ("F 1", "F(1)"),
    ("F 1,2", "F(1, 2)"),
    ("F 1,\n2", "F(1, 2)"),
    ("F 1 +\n2", "F((1 + 2))"),
    ("F\t1", "F(1)"),
    ("F  1", "F(1)"),
    ("F \\\n1", "F(1)"),
    ("F __LINE__", "F((__LINE__))"),
    ("F __FILE__", "F((__FILE__))"),
    ("F defined? @a", "F((defined?(@a)))"),
    ("F defined?(@a)", "F((defined?(@a)))"),
    ("F X if Y", "(F(X)) if Y"),
    ("F if Y", "(F) if Y"),
    ("F unless Y", "(F) unless Y"),
    ("F while Y", "(F) while Y"),
    ("F until Y", "(F) until Y"),
    ("F rescue Y", "(F) rescue Y"),
    ("F X rescue Y", "(F(X)) rescue Y"),
    ("F and Y", "(F) and Y"),
    ("F or Y", "(F) or Y"),
    ("F X and Y", "(F(X)) and Y"),
    ("F X or Y", "(F(X)) or Y"),
    ("F X and G Y", "(F(X)) and (G(Y))"),
    ("F ? X : Y", "(F) ? (X) : (Y)"),
    ("F X ? 1 : 2", "F((X ? 1 : 2))"),
    ("F X && Y", "F((X && Y))"),
    ("F X || Y", "F((X || Y))"),
    ("F X == Y", "F((X == Y))"),
    ("F X + Y", "F((X + Y))"),
    ("F X, Y", "F((X), (Y))"),
    ("F X + Y, X * Y", "F((X + Y), (X * Y))"),
    ("F X =~ Y", "F((X =~ Y))"),
    ("F X <=> Y", "F((X <=> Y))"),
    ("F q = 1", "F((q = 1))"),
    ("F 1, q = 2", "F(1, (q = 2))"),
    ("F @q ||= 1", "F((@q ||= 1))"),
    ("F @q += 1, 2", "F((@q += 1), 2)"),
    ("F == 1", "(F) == 1"),
    ("F === 1", "(F) === 1"),
    ("F =~ @a", "(F) =~ @a"),
    ("F !~ @a", "(F) !~ @a"),
    ("F <=> 1", "(F) <=> 1"),
    ("F < 1", "(F) < 1"),
    ("F <1", "(F) < 1"),
    ("F<1", "(F) < 1"),
    ("F > 1", "(F) > 1"),
    ("F >1", "(F) > 1"),
    ("F <= 1", "(F) <= 1"),
    ("F >= 1", "(F) >= 1"),
    ("F | 1", "(F) | 1"),
    ("F |1", "(F) | 1"),
    ("F|1", "(F) | 1"),
    ("F ^ 1", "(F) ^ 1"),
    ("F ^1", "(F) ^ 1"),
    ("F && 1", "(F) && 1"),
    ("F &&1", "(F) && 1"),
    ("F || 1", "(F) || 1"),
    ("F ||1", "(F) || 1"),
    ("F .. 1", "(F)..1"),
    ("F..1", "(F)..1"),
    ("F ... 1", "(F)...1"),
    ("F .m", "(F).m"),
    ("F.m", "(F).m"),
    ("F &.m", "(F)&.m"),
    ("F\n.m", "(F).m"),
    ("F\n  &.m", "(F)&.m"),
    ("F.m.n", "((F).m).n"),
    ("F::m", "(F).m"),
    ("F.m -1", "(F).m(-1)"),
    ("F.m - 1", "((F).m) - 1"),
    ("F.m-1", "((F).m) - 1"),
    ("F.m *@a", "(F).m(*(@a))"),
    ("F.m * @a", "((F).m) * @a"),
    ("F.m &@a", "(F).m(&(@a))"),
    ("F.m & @a", "((F).m) & @a"),
    ("F.m [1]", "(F).m([1])"),
    ("F.m[1]", "((F).m)[1]"),
    ("F.m (1).n", "(F).m((1).n)"),
    ("F.m(1).n", "((F).m(1)).n"),
    ("F.m ::A", "(F).m((::A))"),
    ("F.m :a", "(F).m((:a))"),
    ("F.m /a/", "(F).m((/a/))"),
    ("F.m / 2", "((F).m) / 2"),
    ("F.m %w(a)", "(F).m((%w(a)))"),
    ("F.m % 2", "((F).m) % 2"),
    ("F.m ? X : Y", "((F).m) ? X : Y"),
    ("F.m !X", "(F).m((!X))"),
    ("F.m {}", "(F).m() {}"),
    ("F.m 1", "(F).m(1)"),
    ("F.m z: 1", "(F).m(z: 1)"),
    ("F.m X, *@a, z: 1, &@b", "(F).m((X), *(@a), z: (1), &(@b))"),
    ("F&.m 1", "(F)&.m(1)"),
    ("F&.m -1", "(F)&.m(-1)"),
    ("F.m 1 do X end", "(F).m(1) { X }"),
    ("F.m do X end", "(F).m() { X }"),
    ("F::m 1", "(F).m(1)"),
    ("F.m! 1", "(F).m!(1)"),
    ("F.m? 1", "(F).m?(1)"),
    ("F.m? ? 1 : 2", "((F).m?()) ? 1 : 2"),
    ("F.(1)", "(F).call(1)"),
    ("F.()", "(F).call()"),
    ("F::(1)", "(F).call(1)"),
    ("F.m.()", "((F).m).call()"),
    ("F&.(1)", "(F)&.call(1)"),
    ("@a -1", "(@a) - 1"),
    ("@a [1]", "(@a)[1]"),
    ("@a *2", "(@a) * 2"),
    ("@a &2", "(@a) & 2"),
    ("@a /2", "(@a) / 2"),
    ("@a %2", "(@a) % 2"),
    ("@a <<2", "(@a) << 2"),
    ("@a ? 1 : 2", "(@a) ? 1 : 2"),
    ("$a -1", "($a) - 1"),
    ("self -1", "(self) - 1"),
    ("nil -1", "(nil) - 1"),
    ("1 -1", "(1) - 1"),
    ("1 +1", "(1) + 1"),
    ("1.m -1", "(1).m(-1)"),
    ("1.m - 1", "((1).m) - 1"),
    ("\"s\" *2", "(\"s\") * 2"),
    ("\"s\" %[1]", "(\"s\") % ([1])"),
    (":a -1", "(:a) - 1"),
    ("(X) -1", "((X)) - 1"),
    ("(X) *2", "((X)) * 2"),
    ("[X] -1", "([X]) - 1"),
    ("[X] *2", "([X]) * 2"),
    ("[X] &[2]", "([X]) & ([2])"),
    ("[X] [0]", "([X])[0]"),
    ("F(1) -1", "(F(1)) - 1"),
    ("F(1) *2", "(F(1)) * 2"),
    ("F(1) /2", "(F(1)) / 2"),
    ("F(1) [0]", "(F(1))[0]"),
    ("F[1] -1", "((F)[1]) - 1"),
    ("F[1] *2", "((F)[1]) * 2"),
    ("F { 1 } -1", "(F() { 1 }) - 1"),
    ("V = 1; V -1", "V = 1; (V) - 1"),
    ("V = 1; V - 1", "V = 1; (V) - 1"),
    ("V = 1; V-1", "V = 1; (V) - 1"),
    ("V = 1; V *2", "V = 1; (V) * 2"),
    ("V = 1; V &2", "V = 1; (V) & 2"),
    ("V = 1; V /2", "V = 1; (V) / 2"),
    ("V = 1; V /2/3", "V = 1; ((V) / 2) / 3"),
    ("V = 1; V %2", "V = 1; (V) % 2"),
    ("V = 1; V <<2", "V = 1; (V) << 2"),
    ("V = 1; V <<V", "V = 1; (V) << (V)"),
    ("V = 1; V [1]", "V = 1; (V)[1]"),
    ("V = 1; V[1]", "V = 1; (V)[1]"),
    ("V = 1; V ? 1 : 2", "V = 1; (V) ? 1 : 2"),
    ("V = 1; V ?1 : 2", "V = 1; (V) ? (1) : (2)"),
    ("V = 1; V .m", "V = 1; (V).m"),
    ("V = 1; V.m -1", "V = 1; (V).m(-1)"),
    ("V = 1; F V", "V = 1; F((V))"),
    ("V = 1; F V -1", "V = 1; F((V) - 1)"),
    ("V = 1; F V [1]", "V = 1; F((V)[1])"),
    ("V = 1; F V *2, V /2", "V = 1; F((V) * 2, (V) / 2)"),
    ("V = 1; F -V", "V = 1; F((-(V)))"),
    ("V = 1; F *V", "V = 1; F(*(V))"),
    ("V = 1; F &V", "V = 1; F(&(V))"),
    ("V = 1; F **V", "V = 1; F(**(V))"),
    ("F G X", "F((G((X))))"),
    ("F G X, Y", "F((G((X), (Y))))"),
    ("F G H X", "F((G((H(X)))))"),
    ("F.m G X", "(F).m((G(X)))"),
    ("F G.m X", "F(((G).m(X)))"),
    ("F @a.m X", "F(((@a).m(X)))"),
    ("q = F X", "q = (F(X))"),
    ("q = F X, Y", "q = (F((X), (Y)))"),
    ("q = F -1", "q = (F(-1))"),
    ("q = F - 1", "q = ((F) - 1)"),
    ("q = F [1]", "q = (F([1]))"),
    ("q = @a.m X", "q = ((@a).m(X))"),
    ("@q = F X", "@q = (F(X))"),
    ("@q.r = F X", "(@q).r = (F(X))"),
    ("@q[0] = F X, Y", "(@q)[0] = (F((X), (Y)))"),
    ("q = r = F X", "q = (r = (F(X)))"),
    ("q += F X", "q += (F(X))"),
    ("@q ||= F X", "@q ||= (F(X))"),
    ("return F X", "return (F(X))"),
    ("!F X", "!(F(X))"),
    ("F(X,)", "F((X))"),
    ("F(\nX\n)", "F((X))"),
    ("F(X,\nY)", "F((X), (Y))"),
    ("F( X , Y )", "F((X), (Y))"),
    ("F(*@a, X)", "F(*(@a), (X))"),
    ("F(X, z: 1, **@a, &@b)", "F((X), z: (1), **(@a), &(@b))"),
    ("F(X => Y)", "F((X) => (Y))"),
    ("F(q = X, Y)", "F((q = (X)), (Y))"),
    ("F(X) { Y }", "F((X)) do Y end"),
    ("F(X) {|z| z }", "F((X)) do |z| z end"),
    ("F(&:a)", "F(&(:a))"),
    ("F(& @a)", "F(&(@a))"),
    ("F(* @a)", "F(*(@a))"),
    ("F(X).m { Y }", "(F((X))).m() { Y }"),
    ("F { X }.m", "(F() { X }).m"),
    ("F { X }.m { Y }", "(F() { X }).m() { Y }"),
    ("F do X end.m", "(F() { X }).m"),
    ("F 1 do X end.m", "(F(1) { X }).m"),
    ("F 1 do X end.m(2)", "(F(1) { X }).m(2)"),
    ("F { X }[0]", "(F() { X })[0]"),
    ("F { X } + 1", "(F() { X }) + 1"),
    ("F.m { X } + 1", "((F).m() { X }) + 1"),
    ("def m\nyield -1\nend", "def m\nyield(-1)\nend"),
    ("def m\nyield - 1\nend", "def m\n(yield) - 1\nend"),
    ("def m\nyield [1]\nend", "def m\nyield([1])\nend"),
    ("def m\nyield[1]\nend", "def m\n(yield)[1]\nend"),
    ("def m\nyield (1) + 2\nend", "def m\nyield((1) + 2)\nend"),
    ("def m\nyield(1) + 2\nend", "def m\n(yield(1)) + 2\nend"),
    ("def m\nyield X, Y\nend", "def m\nyield((X), (Y))\nend"),
    ("def m\nyield *@a\nend", "def m\nyield(*(@a))\nend"),
    ("def m\nyield if X\nend", "def m\n(yield) if X\nend"),
    ("def m\nyield && X\nend", "def m\n(yield) && X\nend"),
    ("def m\nyield.m\nend", "def m\n(yield).m\nend"),
    ("def m\nX + yield\nend", "def m\nX + (yield)\nend"),
    ("def m\n[yield, yield(1)]\nend", "def m\n[(yield), (yield(1))]\nend"),
    ("def m\nyield :a\nend", "def m\nyield(:a)\nend"),
    ("def m\nsuper -1\nend", "def m\nsuper(-1)\nend"),
    ("def m\nsuper - 1\nend", "def m\n(super) - 1\nend"),
    ("def m\nsuper [1]\nend", "def m\nsuper([1])\nend"),
    ("def m\nsuper[1]\nend", "def m\n(super)[1]\nend"),
    ("def m\nsuper (1) + 2\nend", "def m\nsuper((1) + 2)\nend"),
    ("def m\nsuper(1) + 2\nend", "def m\n(super(1)) + 2\nend"),
    ("def m\nsuper X, Y\nend", "def m\nsuper((X), (Y))\nend"),
    ("def m\nsuper *@a, z: 1, &@b\nend", "def m\nsuper(*(@a), z: 1, &(@b))\nend"),
    ("def m\nsuper if X\nend", "def m\n(super) if X\nend"),
    ("def m\nsuper.m\nend", "def m\n(super).m\nend"),
    ("def m\nsuper X do Y end\nend", "def m\nsuper(X) { Y }\nend"),
    ("def m\nsuper(X) { Y }\nend", "def m\nsuper((X)) do Y end\nend"),
    ("def m\nsuper && X\nend", "def m\n(super) && X\nend"),
    ("def m\nq = super\nend", "def m\nq = (super)\nend"),
    ("def m\nq = yield X\nend", "def m\nq = (yield(X))\nend"),
    ("while F do X end", "while (F)\nX\nend"),
    ("while F X do Y end", "while (F(X))\nY\nend"),
    ("until F.m X do Y end", "until ((F).m(X))\nY\nend"),
    ("while F { X } do Y end", "while (F() { X })\nY\nend"),
    ("while F X, Y do end", "while (F((X), (Y)))\nend"),
    ("for z in F do X end", "for z in (F)\nX\nend"),
    ("for z in F.m do X end", "for z in ((F).m)\nX\nend"),
    ("for z in F { X } do Y end", "for z in (F() { X })\nY\nend"),
    ("while F && G do X end", "while ((F) && (G))\nX\nend"),
    ("while !F do X end", "while (!(F))\nX\nend"),
    ("while q = F do X end", "while (q = (F))\nX\nend"),
    ("while (F do X end) do Y end", "while (F() { X })\nY\nend"),
    ("while [F do X end] do Y end", "while ([F() { X }])\nY\nend"),
    ("while F(G do X end) do Y end", "while (F(G() { X }))\nY\nend"),
    ("while F { G do X end } do Y end", "while (F() { G() { X } })\nY\nend"),
    ("while -> { G do X end } do Y end", "while (-> { G() { X } })\nY\nend"),
    ("while \"#{G do X end}\" do Y end", "while (\"#{G() { X }}\")\nY\nend"),
    ("while F[G do X end] do Y end", "while ((F)[G() { X }])\nY\nend"),
    ("while {k: G do X end} do Y end", "while ({k: G() { X }})\nY\nend"),
    ("while F\nG do X end\nend", "while (F)\nG() { X }\nend"),
    ("while F do\nG do X end\nend", "while (F)\nG() { X }\nend"),
    ("while F do\nG X do Y end\nend", "while (F)\nG(X) { Y }\nend"),
    ("for z in [1] do\nG X do Y end\nend", "for z in ([1])\nG(X) { Y }\nend"),
    ("F X if G do Y end", "(F(X)) if (G() { Y })"),
    ("F G do X end", "F((G)) { X }"),
    ("F G { X }", "F((G() { X }))"),
    ("F G(Y) do X end", "F((G(Y))) { X }"),
    ("F G(Y) { X }", "F((G(Y) { X }))"),
    ("F @a.m do X end", "F(((@a).m)) { X }"),
    ("F @a.m { X }", "F(((@a).m() { X }))"),
    ("F 1, G do X end", "F(1, (G)) { X }"),
    ("F 1, G { X }", "F(1, (G() { X }))"),
    ("F G Y do X end", "F((G(Y))) { X }"),
    ("F G H do X end", "F((G((H)))) { X }"),
    ("F G H { X }", "F((G((H() { X }))))"),
    ("q = F G do X end", "q = (F((G)) { X })"),
    ("q = F do X end", "q = (F() { X })"),
    ("q = F 1 do X end", "q = (F(1) { X })"),
    ("@q = @a.m G do X end", "@q = ((@a).m((G)) { X })"),
    ("F [G do X end]", "F([G() { X }])"),
    ("F [G do X end] do Y end", "F([G() { X }]) { Y }"),
    ("F (G do X end)", "F((G() { X }))"),
    ("F (G do X end), 1 do Y end", "F((G() { X }), 1) { Y }"),
    ("F H(G do X end) do Y end", "F((H(G() { X }))) { Y }"),
    ("F -> { G do X end } do Y end", "F((-> { G() { X } })) { Y }"),
    ("F -> do X end do Y end", "F((-> { X })) { Y }"),
    ("F k: G do X end", "F(k: (G)) { X }"),
    ("F k: G { X }", "F(k: (G() { X }))"),
    ("F *G do X end", "F(*(G)) { X }"),
    ("F 1 => G do X end", "F(1 => (G)) { X }"),
    ("F { G do X end }", "F() { G() { X } }"),
    ("F do G { X } end", "F() { G() { X } }"),
    ("F do G do X end end", "F() { G() { X } }"),
    ("F 1 do G 2 do X end end", "F(1) { G(2) { X } }"),
    ("F G { H do X end } do Y end", "F((G() { H() { X } })) { Y }"),
    ("F and G do X end", "(F) and (G() { X })"),
    ("F X and G Y do 1 end", "(F(X)) and (G(Y) { 1 })"),
    ("F X do 1 end and G", "(F(X) { 1 }) and (G)"),
    ("F && G do X end", "(F) && (G() { X })"),
    ("F + G { X }", "(F) + (G() { X })"),
    ("F + G do X end", "(F) + (G() { X })"),
];

const SUBST: &[(&str, &[&str])] = &[
    ("F", &["foo", "bar", "p", "puts", "étude", "m1", "raise", "x9", "if_x", "do_it", "_f"]),
    ("G", &["baz", "goo", "nilly", "変換", "g"]),
    ("H", &["hoo", "h2"]),
    ("V", &["v", "été", "v_1", "ifx"]),
    ("X", &["1", "\"s\"", ":a", "@a", "g(1)", "A::B", "nil", "[1, 2]", "@a.k", "-> { 1 }", "2.5", "(1; 2)", "\"a#{1}\"", "$a", "@a[0]"]),
    ("Y", &["2", "'t'", ":b", "@@b", "gg(2, 3)", "::C", "self", "[]", "@b&.k", "true", "/r/", "%w(a b)", "$1"]),
];

fn c17_spacing(c: &mut Case) {
    let (a, b) = SPACING[(c.idx as usize) % SPACING.len()];
    let (mut a, mut b) = (a.to_string(), b.to_string());
    // Names in capitals are replaced where they stand alone.
    for (k, v) in SUBST {
        let x = *c.rng.pick(v);
        let f = |s: &str| {
            let cs: Vec<char> = s.chars().collect();
            let mut o = String::new();
            for (i, ch) in cs.iter().enumerate() {
                let alone = (i == 0 || !(cs[i - 1].is_ascii_alphanumeric() || cs[i - 1] == '_')) && !cs.get(i + 1).map_or(false, |d| d.is_ascii_alphanumeric() || *d == '_');
                if alone && k.len() == 1 && *ch == k.chars().next().unwrap() {
                    o.push_str(x);
                } else {
                    o.push(*ch);
                }
            }
            o
        };
        a = f(&a);
        b = f(&b);
    }
    // A name and a variable of the same spelling would change the meaning.
    let (a, b) = if (c.idx as usize) < SPACING.len() { (a, b) } else { wrapped(c, &a, &b) };
    if a.contains("return") && b.contains("#{") && !a.starts_with("return") {
        return;
    }
    c.hit("same");
    expect_same(c, &b, &a, "the same call with and without parentheses");
}

/// Arguments of a command which begin directly after its name.
const TOUCHING: &[&str] = &[
    "\"s\"", "'s'", "\"a#{1}b\"", "\"#{@a}\"", "\"#@a\"", "\"s\" 't'", "`ls`", "`ls #{1}`", "@a", "@@b", "$c", "$&", "$1", "$:", "-> { 1 }", "->(v) { v }", "->{ 1 }", "-> do 2 end", "\"s\".m", "@a.m(1)", "@a + 1", "'s' * 2", "@a[0]", "$c ? 1 : 2", "@a && 'x'", "-> { 1 }.()", "\"#{foo \"t\"}\"",
];
const TOUCHING_FORMS: &[(&str, &str)] = &[
    ("FX", "F(X)"), ("@q.FX", "@q.F(X)"), ("@q&.FX", "@q&.F(X)"), ("A::FX", "A.F(X)"), ("FX, 1", "F(X, 1)"), ("FX, z: 1", "F(X, z: 1)"), ("FX, *@r, &@b", "F(X, *@r, &@b)"), ("FX do |w| w end", "F(X) { |w| w }"),
    ("q = FX", "q = F(X)"), ("@q ||= FX", "@q ||= F(X)"), ("FX if 1", "F(X) if 1"), ("FX rescue 2", "F(X) rescue 2"), ("FX and 3", "F(X) and 3"), ("(FX)", "(F(X))"), ("[(FX)]", "[F(X)]"), ("g FX", "g(F(X))"), ("g h.FX", "g(h.F(X))"),
    ("if FX then 1 end", "if F(X) then 1 end"), ("while FX do 1 end", "while F(X); 1 end"), ("def m; FX; end", "def m; F(X); end"), ("{ k: (FX) }.m", "{ k: F(X) }.m"), ("\"#{FX}\"", "\"#{F(X)}\""), ("!FX", "!F(X)"), ("g { FX }", "g { F(X) }"), ("FX\n1", "F(X)\n1"), ("F(1).FX", "F(1).F(X)"), ("1; FX;", "1; F(X)"),
    ("def m; yieldX; end", "def m; yield(X); end"), ("def m; superX; end", "def m; super(X); end"), ("def m; superX, 1; end", "def m; super(X, 1); end"), ("def m; q = yieldX; end", "def m; q = yield(X); end"),
];
fn c17_touching(c: &mut Case) {
    let (a, b) = *c.rng.pick(TOUCHING_FORMS);
    let x = *c.rng.pick(TOUCHING);
    let f = c.rng.s(&["foo", "p", "puts", "été", "x9", "a?", "b!", "raise", "expect", "_f", "if_x", "A1"]);
    let f = if a.contains("::") { "a1" } else { f };
    // "do" belongs to the outer call.
    let x = if a.contains(" do ") && x.contains(" do ") { "@a" } else { x };
    let x = if a.starts_with("\"#{") && x.contains('"') { "@a" } else { x };
    let x = if a.contains('?') && x.contains("? ") { "@a" } else { x };
    let sub = |s: &str| s.replace("X", "\u{1}").replace('F', f).replace('\u{1}', x);
    let (a, b) = (sub(a), sub(b));
    c.hit("touching");
    let (a, b) = wrapped(c, &a, &b);
    expect_same(c, &b, &a, "the same call with and without parentheses");
}

fn empty_info() -> T {
    t("info", vec![t("params", vec![]), leaf("lv[]kw[]kr-b-f-n-"), nothing()])
}
fn blk(body: T) -> T {
    let mut i = empty_info();
    i.kids[2] = body;
    t("blk", vec![t("lambda", vec![i])])
}

const NAMES: &[&str] = &[
    "foo", "bar?", "baz!", "Foo", "été", "変", "_", "x1", "class", "def", "end", "if", "unless", "while", "until", "for", "in", "do", "begin", "rescue", "ensure", "else", "elsif", "case", "when", "then",
    "and", "or", "not", "nil", "true", "false", "self", "super", "yield", "return", "break", "next", "redo", "retry", "alias", "undef", "module", "defined?", "__FILE__", "__LINE__", "BEGIN", "END",
    "class?", "end!", "if?", "nil?", "nil!", "Foo?", "Foo!", "self?", "_x?", "p", "q",
];

/// Every name in every form of a call with a receiver.
fn c17_names(c: &mut Case) {
    let n = NAMES[(c.idx as usize) % NAMES.len()];
    let k = (c.idx as usize) / NAMES.len();
    let (d, tag) = *c.rng.pick(&[(".", "."), ("&.", "&."), (".", "."), (" .", "."), ("\n.", "."), (".\n", "."), ("&.\n", "&.")]);
    let (r, rt) = match c.rng.below(7) {
        0 => ("@a", leaf("ivar:@a")),
        1 => ("1", int(1)),
        2 => ("foo(1)", fcall("foo", vec![int(1)])),
        3 => ("[1]", array(vec![int(1)])),
        4 => ("(2)", int(2)),
        5 => ("@a.class", mcall("class", leaf("ivar:@a"), vec![])),
        _ => ("foo", leaf("call:foo")),
    };
    let m = |v: Vec<T>| t(format!("{}{}", tag, n), vec![rt.clone(), args(v)]);
    let setter = !n.ends_with(|ch| ch == '?' || ch == '!');
    if KEYWORDS.contains(&n) {
        c.hit("keyword-name");
    }
    let h = format!("{}{}{}", r, d, n);
    let (src, e) = match k % 22 {
        0 => (h.clone(), m(vec![])),
        1 => (format!("{}()", h), m(vec![])),
        2 => (format!("{}(1, 2)", h), m(vec![int(1), int(2)])),
        3 => (format!("{} 1, 2", h), m(vec![int(1), int(2)])),
        4 => (format!("{} {{ 1 }}", h), m(vec![blk(int(1))])),
        5 => (format!("{} do 1 end", h), m(vec![blk(int(1))])),
        6 => (format!("{}(1) {{ 2 }}", h), m(vec![int(1), blk(int(2))])),
        7 => (format!("{} 1 do 2 end", h), m(vec![int(1), blk(int(2))])),
        8 if setter => (format!("{} = 1", h), t("asgn", vec![t("lhs", vec![m(vec![])]), t("rhs", vec![int(1)])])),
        9 if setter => (format!("{}=1", h), t("asgn", vec![t("lhs", vec![m(vec![])]), t("rhs", vec![int(1)])])),
        10 if setter => (format!("{} += 1", h), t("opasgn:+", vec![m(vec![]), int(1)])),
        11 if setter => (format!("{} ||= 1", h), t("bin:||", vec![m(vec![]), t("asgn", vec![t("lhs", vec![m(vec![])]), t("rhs", vec![int(1)])])])),
        12 => (format!("{} - 1", h), bin("-", m(vec![]), int(1))),
        13 => (format!("{} -1", h), m(vec![int(-1)])),
        14 => (format!("{}[1]", h), t("index", vec![m(vec![]), int(1)])),
        15 => (format!("{} [1]", h), m(vec![array(vec![int(1)])])),
        16 => (format!("{}.{}", h, n), t(format!(".{}", n), vec![m(vec![]), args(vec![])])),
        17 => (format!("{} == 1", h), bin("==", m(vec![]), int(1))),
        18 => (format!("{}\n1", h), t("seq", vec![m(vec![]), int(1)])),
        19 => (format!("{} if 1", h), t("if", vec![int(1), m(vec![]), nothing()])),
        20 => (format!("foo({}, 1)", h), fcall("foo", vec![m(vec![]), int(1)])),
        21 => (format!("[{}]", h), array(vec![m(vec![])])),
        _ => (format!("{} && 1", h), bin("&&", m(vec![]), int(1))),
    };
    if k < 22 || c.rng.coin() {
        expect_tree(c, &src, &e);
    } else {
        // The same within a block or a method.
        match c.rng.below(3) {
            0 => expect_tree(c, &format!("foo {{ {} }}", src), &fcall("foo", vec![blk(e)])),
            1 => expect_tree(c, &format!("if self\n{}\nend", src), &t("if", vec![leaf("self"), e, nothing()])),
            _ => {
                let mut i = empty_info();
                i.kids[2] = e;
                expect_tree(c, &format!("def k\n{}\nend", src), &t("def:k", vec![i]))
            }
        };
    }
}

/// Every sequence of kinds of arguments in every form of a call.
fn c17_args(c: &mut Case) {
    // 0 positional, 1 splat, 2 keyword, 3 double splat, 4 pairs, 5 block.
    let len = *c.rng.pick(&[0, 1, 2, 2, 3, 3, 4, 6]);
    let v: Vec<usize> = (0..len).map(|_| c.rng.below(6)).collect();
    let stage = |k: usize| match k {
        0 | 1 => 0,
        2 | 3 => 1,
        4 => 1,
        _ => 2,
    };
    let ordered = v.windows(2).all(|w| stage(w[0]) <= stage(w[1])) && v.iter().filter(|k| **k == 5).count() < 2;
    // Pairs together with keywords are not judged.
    if v.contains(&4) && (v.contains(&2) || v.contains(&3) || v.contains(&5)) {
        return;
    }
    let mut text = vec![];
    let (mut pos, mut kws, mut ds, mut pairs, mut b) = (vec![], vec![], vec![], vec![], None);
    let mut splat = false;
    for (i, k) in v.iter().enumerate() {
        let x = i as i64 + 10;
        let (vt, vs) = match c.rng.below(7) {
            0 => (int(-x), format!("-{}", x)),
            1 => (array(vec![int(x), s("k")]), format!("[{}, :k]", x)),
            2 => (fcall("g", vec![int(x)]), format!("g({})", x)),
            3 => (leaf(format!("ivar:@v{}", x)), format!("@v{}", x)),
            4 => (st(&format!("s{}", x)), format!("\"s{}\"", x)),
            5 => (mcall("k", leaf(format!("ivar:@v{}", x)), vec![int(x)]), format!("@v{}.k({})", x, x)),
            _ => (int(x), x.to_string()),
        };
        match k {
            0 => {
                text.push(vs);
                pos.push(vt);
            }
            1 => {
                c.hit("arg-splat");
                text.push(format!("*@s{}", i));
                pos.push(t("splat", vec![leaf(format!("ivar:@s{}", i))]));
                splat = true;
            }
            2 => {
                c.hit("arg-kw");
                let sp = *c.rng.pick(&[" ", " ", "  "]);
                text.push(format!("k{}:{}{}", i, sp, vs));
                kws.push(t(format!("kw:k{}", i), vec![vt]));
            }
            3 => {
                c.hit("arg-dsplat");
                text.push(format!("**@d{}", i));
                ds.push(t("dsplat", vec![leaf(format!("ivar:@d{}", i))]));
            }
            4 => {
                c.hit("arg-pair");
                text.push(format!(":p{} => {}", i, vs));
                pairs.push(s(&format!("p{}", i)));
                pairs.push(vt);
            }
            _ => {
                c.hit("arg-blk");
                let (a, y) = if c.rng.coin() { (format!("&@b{}", i), leaf(format!("ivar:@b{}", i))) } else { (format!("&:b{}", i), s(&format!("b{}", i))) };
                text.push(a);
                b = Some(y);
            }
        }
    }
    if !pairs.is_empty() {
        pos.push(hash(pairs));
    }
    pos.extend(kws);
    pos.extend(ds);
    let has_b = b.is_some();
    if let Some(x) = b {
        pos.push(t("blk", vec![x]));
    }
    let sep = *c.rng.pick(&[", ", ", ", ",", " , ", ",\n", ",  "]);
    let list = text.join(sep);
    let paren = len == 0 || c.rng.coin();
    let open = match (paren, c.rng.below(4)) {
        (true, 0) => format!("(\n{}\n)", list),
        (true, 1) => format!("( {} )", list),
        (true, _) => format!("({})", list),
        (false, _) => format!(" {}", list),
    };
    // A block after the arguments.
    let tail = match c.rng.below(6) {
        0 if paren => " { 7 }",
        1 => " do 7 end",
        _ => "",
    };
    let mut kids = pos;
    if !tail.is_empty() {
        kids.push(blk(int(7)));
    }
    let a = G::args_t(kids, splat);
    let (src, e) = match c.rng.below(8) {
        0 | 1 => (format!("foo{}{}", open, tail), fcall_t("foo", a)),
        2 => (format!("@a.foo{}{}", open, tail), t(".foo", vec![leaf("ivar:@a"), a])),
        3 => (format!("@a&.foo{}{}", open, tail), t("&.foo", vec![leaf("ivar:@a"), a])),
        4 => {
            let mut i = empty_info();
            i.kids[2] = t("super", vec![a]);
            (format!("def m\nsuper{}{}\nend", open, tail), t("def:m", vec![i]))
        }
        5 => (format!("q = foo{}{}", open, tail), asg("q", fcall_t("foo", a))),
        6 if paren => (format!("@a.({}){}", list, tail), t(".call", vec![leaf("ivar:@a"), a])),
        _ => (format!("foo.bar?{}{}", open, tail), t(".bar?", vec![leaf("call:foo"), a])),
    };
    if !ordered || has_b && !tail.is_empty() {
        c.hit("rejected");
        expect_reject(c, &src, "arguments in an order Ruby does not allow, or two blocks");
    } else {
        c.hit("accepted");
        expect_tree(c, &src, &e);
    }
}

// ---- blocks ------------------------------------------------------------------------

/// Commands and blocks nested in each other. Whether a `do` is allowed at the
/// current bracket level is tracked on its own.
struct B<'a, 'b> {
    c: &'a mut Case<'b>,
    fuel: i32,
}

impl<'a, 'b> B<'a, 'b> {
    fn n(&mut self, k: usize) -> usize {
        self.c.rng.below(k)
    }
    fn id(&mut self) -> String {
        self.c.rng.s(&["foo", "bar", "baz", "m1", "puts", "qux!", "ok?"]).to_string()
    }
    fn body(&mut self) -> (String, T) {
        match self.n(4) {
            0 => (String::new(), nothing()),
            1 => {
                let (a, x) = self.stmt();
                let (b, y) = self.stmt();
                (format!("{}\n{}", a, b), t("seq", vec![x, y]))
            }
            _ => self.stmt(),
        }
    }
    fn brace(&mut self) -> (String, T) {
        self.c.hit("brace");
        let (a, x) = self.body();
        (format!("{{ {} }}", a), blk(x))
    }
    fn dob(&mut self) -> (String, T) {
        let (a, x) = self.body();
        let s = *self.c.rng.pick(&[" ", "\n", "; "]);
        (format!("do{}{}\nend", s, a), blk(x))
    }
    /// A call without command arguments, `d` if a do block may be its own.
    fn call(&mut self, d: bool) -> (String, T) {
        let n = self.id();
        let (mut a, tag, recv) = match self.n(4) {
            0 => (format!("@a.{}", n), format!(".{}", n), Some(leaf("ivar:@a"))),
            1 if self.fuel > 0 => {
                let (r, x) = self.call(d);
                (format!("{}.{}", r, n), format!(".{}", n), Some(x))
            }
            _ => (n.clone(), format!("fcall:{}", n), None),
        };
        let mut kids = vec![];
        if self.n(2) == 0 {
            let k = self.n(3);
            let mut v = vec![];
            for _ in 0..k {
                // Within the parentheses every do is free again.
                let (x, y) = self.arg(true);
                v.push(x);
                kids.push(y);
            }
            a = format!("{}({})", a, v.join(", "));
        }
        match self.n(5) {
            0 | 1 if self.fuel > 0 => {
                    let (x, y) = self.brace();
                a = format!("{} {}", a, x);
                kids.push(y);
            }
            2 if self.fuel > 0 && d => {
                    self.c.hit("do-inner");
                let (x, y) = self.dob();
                a = format!("{} {}", a, x);
                kids.push(y);
            }
            _ => {}
        }
        let e = match recv {
            Some(r) => t(tag, vec![r, args(kids)]),
            None => fcall_t(&n, args(kids)),
        };
        (a, e)
    }
    fn arg(&mut self, d: bool) -> (String, T) {
        self.fuel -= 1;
        if self.fuel < 0 {
            let i = self.n(100) as i64;
            return (i.to_string(), int(i));
        }
        match self.n(12) {
            0 => (":s".into(), s("s")),
            1 => ("@a".into(), leaf("ivar:@a")),
            2 => {
                let mut v = vec![];
                let mut k = vec![];
                for _ in 0..1 + self.n(2) {
                    let (x, y) = self.arg(true);
                    v.push(x);
                    k.push(y);
                }
                (format!("[{}]", v.join(", ")), array(k))
            }
            3 => {
                let (x, y) = self.stmt();
                (format!("({})", x), y)
            }
            4 => {
                let (x, y) = self.body();
                let mut i = empty_info();
                i.kids[2] = y;
                (format!("-> {{ {} }}", x), t("lambda", vec![i]))
            }
            5 => {
                let (x, y) = self.arg(true);
                (format!("{{k: {}}}.m", x), mcall("m", hash(vec![s("k"), y]), vec![]))
            }
            6 => {
                let (x, y) = self.call(true);
                (format!("\"a#{{{}}}b\"", x), t("istr", vec![st("a"), y, st("b")]))
            }
            7 => {
                let (x, y) = self.arg(d);
                let (z, w) = self.call(d);
                (format!("{} + {}", x, z), bin("+", y, w))
            }
            _ => self.call(d),
        }
    }
    /// A chain of commands, the last of which has the arguments.
    fn command(&mut self, d: bool) -> (String, T) {
        let k = 1 + self.n(3);
        let mut heads = vec![];
        for i in 0..k {
            let n = self.id();
            if self.n(3) == 0 {
                // The first receiver may be a call with a brace block.
                let (r, x) = if i == 0 && self.n(3) == 0 && self.fuel > 0 { self.call(false) } else { ("@r".to_string(), leaf("ivar:@r")) };
                heads.push((format!("{}.{}", r, n), format!(".{}", n), Some(x)));
            } else {
                heads.push((n.clone(), format!("fcall:{}", n), None));
            }
        }
        let mut v = vec![];
        let mut kids = vec![];
        let m = 1 + self.n(2);
        for _ in 0..m {
            // The do would be taken by the outermost command.
            let (x, y) = self.arg(false);
            // A brace or bracket first would be a block or an index.
            v.push(if x.starts_with('{') { format!("({})", x) } else { x });
            kids.push(y);
        }
        let mut text: Vec<String> = heads.iter().map(|h| h.0.clone()).collect();
        text.push(v.join(", "));
        let mut a = text.join(" ");
        let mut e = None;
        let mut own = None;
        if d && self.n(2) == 0 {
            self.c.hit("do-outer");
            let (x, y) = self.dob();
            a = format!("{} {}", a, x);
            own = Some(y);
        }
        for (i, (_, tag, r)) in heads.into_iter().enumerate().rev() {
            let mut k = match e.take() {
                Some(x) => vec![x],
                None => std::mem::take(&mut kids),
            };
            if i == 0 {
                k.extend(own.take());
            }
            e = Some(match r {
                Some(r) => t(tag, vec![r, args(k)]),
                None => t(tag, vec![args(k)]),
            });
        }
        (a, e.unwrap())
    }
    fn stmt(&mut self) -> (String, T) {
        self.fuel -= 2;
        match self.n(10) {
            0 | 1 => self.call(true),
            2 if self.fuel > 0 => {
                self.c.hit("loop-cond");
                let (x, y) = if self.n(2) == 0 { self.command(false) } else { self.call(false) };
                let (z, w) = self.body();
                let (k, tag) = *self.c.rng.pick(&[("while", "while"), ("until", "until")]);
                let s = *self.c.rng.pick(&[" do ", " do\n", "\n", "; "]);
                (format!("{} {}{}{}\nend", k, x, s, z), t(tag, vec![y, w]))
            }
            3 => {
                let (x, y) = self.command(true);
                (format!("@q = {}", x), t("asgn", vec![t("lhs", vec![leaf("ivar:@q")]), t("rhs", vec![y])]))
            }
            4 => {
                let (x, y) = self.command(true);
                let (z, w) = self.call(true);
                (format!("{} if {}", x, z), t("if", vec![w, y, nothing()]))
            }
            5 => {
                let (x, y) = self.command(true);
                let (z, w) = self.command(true);
                (format!("{} and {}", x, z), bin("&&", y, w))
            }
            _ => self.command(true),
        }
    }
}

fn c17_blocks(c: &mut Case) {
    let fuel = *c.rng.pick(&[2, 4, 8, 14]);
    let mut b = B { c, fuel };
    let (src, e) = b.stmt();
    expect_tree(c, &src, &e);
}

const BAD_CALLS: &[&str] = &[
    "foo(", "foo(1", "foo(1,", "foo(1 2)", "foo(,)", "foo(, 1)", "foo(1,, 2)", "foo(&@a, 1)", "foo(&@a, &@b)", "foo(1 => )", "foo(1 =>, 2)", "foo(k: 1 j: 2)", "foo(&@a) { 1 }", "foo(&@a) do 1 end",
    "foo 1, &@a do 2 end", "foo 1,", "foo 1 2", "foo - 1, 2", "foo.", "foo&.", "foo.1", "foo.@a", "foo.$a", "foo.\"a\"", "foo(1) 2", "foo 1, do 2 end", "@a.foo 2 3", "foo do", "foo {",
    "foo { |", "foo { |a", "foo(1))", "foo [1", "foo(k: 1, 2)", "foo(**@a, 2)", "foo(k: 1, *@a)", "foo(1 => 2, 3)", "foo(1 => 2, *@a)", "foo do 1 }", "foo { 1 end", "foo(1]", "foo[1)", "foo(1}",
    "foo.bar(", "foo.bar(1 2)", "foo.bar 1 2", "foo.bar { } { }", "foo { } { }", "foo() { } { }", "foo do end { }", "foo do end do end", "foo(1) { } do end", "foo..", "foo 1, *", "foo 1, **",
    "foo 1, &", "foo(*)2", "foo(1; 2)", "foo(1\n2)", "foo(if)", "foo(end)", "foo(def)", "foo 1 => ", "foo k:", "foo k: ,", "foo(k: , j: 1)", "foo(:a => 1, 2)", "foo(*, *)", "foo((1, 2))", "foo(1 if 2)",
    "foo(1 and 2)", "foo(...)", "foo(1, ...)",
    "foo::", "foo::1", "foo::@a", "foo.()()", "1()", "\"a\"()", ":a(1)", "nil()", "@a()", "@a(1)", "[1](2)", "(1)(2)", "foo(1)(2)", "foo[1](2)", "foo { }(1)", "@a { }", "1 { }", "nil { }", "1 do end", "@a do end",
    "foo = 1 do end", "while foo do end end", "until foo 1 do end end", "while foo do 1 end do 2 end", "for i in foo do 1 end do 2 end", "foo.bar = 1 do end", "foo.bar = 1 { }", "foo[1] do end",
    "foo bar do end do end",
];

pub fn c17_reject(c: &mut Case) {
    let x = BAD_CALLS[(c.idx as usize) % BAD_CALLS.len()];
    let src = if (c.idx as usize) < BAD_CALLS.len() {
        x.to_string()
    } else {
        let (a, b) = *c.rng.pick(STMT_AT);
        // What is missing might be supplied by what follows.
        let ends = |v: &[&str]| v.iter().any(|y| x.ends_with(y));
        if ends(&["(", ",", ".", "{", "|", "|a", "do", "=>", "=> ", ":", "[1", "(1", "foo..", "*", "&", "::"]) && !(a.is_empty() && b.is_empty()) {
            return;
        }
        format!("{}{}{}", a, x, b)
    };
    c.hit("rejected");
    expect_reject(c, &src, "not a call Ruby accepts");
}

// ---- C18 ---------------------------------------------------------------------------

pub fn c18() -> Check {
    Check {
        id: "C18",
        rule: "a distinct source text with an assignment whose tree was compared with the one meant, or which had to be rejected",
        modes: vec![
            Mode { name: "single", quick: 80_000, thorough: 800_000, f: c18_single },
            Mode { name: "multiple", quick: 100_000, thorough: 1_000_000, f: c18_multiple },
            Mode { name: "chain", quick: 40_000, thorough: 400_000, f: c18_chain },
            Mode { name: "forms", quick: 30_000, thorough: 300_000, f: c18_forms },
            Mode { name: "reject", quick: 60_000, thorough: 600_000, f: c18_reject },
            Mode { name: "program", quick: 80_000, thorough: 1_500_000, f: c18_program },
            Mode { name: "mixture", quick: 30_000, thorough: 800_000, f: c18_mixture },
        ],
        assumptions: &["not covered: nested targets `(a, b), c = ..`, anonymous `*` among targets, `**=`, assignment with a `rescue` modifier"],
        must: &["target:local", "target:ivar", "target:gvar", "target:cvar", "target:const", "target:index", "target:attr", "op:||", "op:+", "splat-target", "splat-value", "same", "rejected"],
    }
}

fn c18_mixture(c: &mut Case) {
    mixture(c, TREE_TABLE);
}

fn c18_program(c: &mut Case) {
    let f = Feat {
        stmt_assign: 20,
        stmt_massign: 20,
        stmt_opassign: 20,
        assign_e: 12,
        gvar: 4,
        cst: 4,
        index: 4,
        mcall: 4,
        fcall: 4,
        cmd: 3,
        array: 4,
        hash: 3,
        block: 3,
        lambda: 2,
        paren: 3,
        strs: 2,
        sym: 2,
        kwlit: 2,
        binop: 3,
        logic: 2,
        ternary: 2,
        modifier: 2,
        control: 1,
        def: 3,
        ..Feat::base()
    };
    focus(c, f, &[8, 16, 30], 4, &[0, 0, 40, 100], TREE_TABLE);
}

/// A target and its tree. In several targets, some forms are left out.
fn target(c: &mut Case, i: usize) -> (String, T) {
    let k = *c.rng.pick(&[0, 0, 0, 1, 2, 3, 4, 5, 6, 6, 7, 7, 8]);
    c.hit(["target:local", "target:ivar", "target:gvar", "target:cvar", "target:const", "target:const", "target:index", "target:attr", "target:attr"][k]);
    match k {
        0 => {
            let n = format!("{}{}", c.rng.s(&["a", "v", "été", "_x", "ifx", "do_", "nil_"]), i);
            (n.clone(), leaf(format!("lvar:0:{}", n)))
        }
        1 => (format!("@i{}", i), leaf(format!("ivar:@i{}", i))),
        2 => (format!("$g{}", i), leaf(format!("gvar:$g{}", i))),
        3 => (format!("@@c{}", i), leaf(format!("cvar:@@c{}", i))),
        4 => (format!("C{}", i), leaf(format!("const:C{}", i))),
        5 => match c.rng.below(3) {
            0 => (format!("A::C{}", i), leaf(format!("const:A::C{}", i))),
            1 => (format!("::C{}", i), leaf(format!("const:::C{}", i))),
            _ => (format!("A::B::C{}", i), leaf(format!("const:A::B::C{}", i))),
        },
        6 => {
            let (b, x) = *c.rng.pick(&[("@b", "ivar:@b"), ("self", "self"), ("$b", "gvar:$b"), ("A", "const:A"), ("foo", "call:foo")]);
            let (s_, v) = match c.rng.below(6) {
                0 => (String::new(), vec![]),
                1 => (format!("{}, :k", i), vec![int(i as i64), s("k")]),
                2 => ("*@z".to_string(), vec![t("splat", vec![leaf("ivar:@z")])]),
                3 => ("foo(1, 2)".to_string(), vec![fcall("foo", vec![int(1), int(2)])]),
                4 => ("-1".to_string(), vec![int(-1)]),
                _ => (i.to_string(), vec![int(i as i64)]),
            };
            let mut kids = vec![leaf(x)];
            kids.extend(v);
            (format!("{}[{}]", b, s_), t("index", kids))
        }
        7 => {
            let (b, x) = match c.rng.below(6) {
                0 => ("self", leaf("self")),
                1 => ("@b", leaf("ivar:@b")),
                2 => ("foo", leaf("call:foo")),
                3 => ("foo(1)", fcall("foo", vec![int(1)])),
                4 => ("@b[0]", t("index", vec![leaf("ivar:@b"), int(0)])),
                _ => ("@b.c", mcall("c", leaf("ivar:@b"), vec![])),
            };
            let n = c.rng.s(&["x", "class", "end", "if", "Foo", "nil", "self", "été", "do"]);
            let d = *c.rng.pick(&[".", ".", "\n.", ".\n"]);
            (format!("{}{}{}", b, d, n), mcall(n, x, vec![]))
        }
        _ => (format!("@b::m{}", i), mcall(&format!("m{}", i), leaf("ivar:@b"), vec![])),
    }
}

/// A value and its tree.
fn value(c: &mut Case, i: usize) -> (String, T) {
    let k = i as i64 + 100;
    match c.rng.below(16) {
        0 => (format!("-{}", k), int(-k)),
        1 => (format!("[{}, 2]", k), array(vec![int(k), int(2)])),
        2 => (format!("foo({})", k), fcall("foo", vec![int(k)])),
        3 => (format!("@a.k{}", k), mcall(&format!("k{}", k), leaf("ivar:@a"), vec![])),
        4 => (format!("\"s{}\"", k), st(&format!("s{}", k))),
        5 => (format!(":s{}", k), s(&format!("s{}", k))),
        6 => (format!("{{k: {}}}", k), hash(vec![s("k"), int(k)])),
        7 => (format!("1 + {}", k), bin("+", int(1), int(k))),
        8 => (format!("nil ? {} : 2", k), t("if", vec![leaf("nil"), int(k), int(2)])),
        9 => (format!("({}; 2)", k), t("seq", vec![int(k), int(2)])),
        10 => (format!("-> {{ {} }}", k), {
            let mut x = empty_info();
            x.kids[2] = int(k);
            t("lambda", vec![x])
        }),
        11 => (format!("foo {{ {} }}", k), fcall("foo", vec![blk(int(k))])),
        12 => (format!("!{}", k), t("un:!", vec![int(k)])),
        13 => (format!("@x || {}", k), bin("||", leaf("ivar:@x"), int(k))),
        14 => (format!("@x[{}]", k), t("index", vec![leaf("ivar:@x"), int(k)])),
        _ => (k.to_string(), int(k)),
    }
}

fn eq_text(c: &mut Case, op: &str) -> String {
    match c.rng.below(5) {
        0 => op.to_string(),
        1 => format!(" {}", op) + " ",
        2 => format!("{} ", op),
        3 => format!(" {}\n  ", op),
        _ => format!(" {} ", op),
    }
}

fn assignment(l: T, op: &str, r: T) -> T {
    match op {
        "" => t("asgn", vec![t("lhs", vec![l]), t("rhs", vec![r])]),
        "||" | "&&" => t(format!("bin:{}", op), vec![l.clone(), t("asgn", vec![t("lhs", vec![l]), t("rhs", vec![r])])]),
        _ => t(format!("opasgn:{}", op), vec![l, r]),
    }
}

const OPS: &[&str] = &["", "", "", "+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^", "||", "&&"];

/// A text with its tree at the top level, in parentheses anywhere, or as a
/// statement of a block.
fn anywhere(c: &mut Case, src: &str, e: T) -> bool {
    match c.rng.below(4) {
        0 => expect_tree(c, src, &e),
        1 => {
            let (a, b, f): (&str, &str, fn(T) -> T) = *c.rng.pick(&[
                ("self;", ";self", (|e| t("seq", vec![leaf("self"), e, leaf("self")])) as fn(T) -> T),
                ("if self\n", "\nend", |e| t("if", vec![leaf("self"), e, nothing()])),
                ("while self do ", " end", |e| t("while", vec![leaf("self"), e])),
                ("begin\n", "\nensure\n1\nend", |e| t("begin", vec![e, leaf("none"), int(1)])),
                ("case 1\nwhen 2 then ", "\nelse 3 end", |e| t("case", vec![int(1), t("when", vec![int(2), e]), int(3)])),
                ("", " if self", |e| t("if", vec![leaf("self"), e, nothing()])),
                ("", " unless self", |e| t("if", vec![leaf("self"), nothing(), e])),
                ("", " and self", |e| bin("&&", e, leaf("self"))),
                ("\"", "", |e| e),
            ]);
            if a == "\"" {
                expect_tree(c, &format!("\"x#{{{}}}y\"", src), &t("istr", vec![st("x"), e, st("y")]))
            } else {
                expect_tree(c, &format!("{}{}{}", a, src, b), &f(e))
            }
        }
        _ => expect_placed(c, &format!("({})", src), e),
    }
}

fn c18_single(c: &mut Case) {
    let (l, lt) = target(c, 1);
    let op = *c.rng.pick(OPS);
    c.hit(format!("op:{}", op));
    // `&.` is allowed here.
    let (l, lt) = if c.rng.p(1, 10) {
        let n = c.rng.s(&["x", "class", "Foo"]);
        (format!("@b&.{}", n), t(format!("&.{}", n), vec![leaf("ivar:@b"), args(vec![])]))
    } else {
        (l, lt)
    };
    let (r, rt) = match c.rng.below(8) {
        0 if op.is_empty() => {
            let n = 2 + c.rng.below(3);
            let v: Vec<(String, T)> = (0..n).map(|i| value(c, i)).collect();
            let sep = *c.rng.pick(&[", ", ",", " , ", ",\n"]);
            c.hit("several-values");
            (v.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(sep), array(v.into_iter().map(|x| x.1).collect()))
        }
        1 if op.is_empty() => {
            c.hit("splat-value");
            let (v, x) = value(c, 0);
            let (v, x) = if v.contains(' ') || v.starts_with('-') || v.starts_with('!') { ("@s".to_string(), leaf("ivar:@s")) } else { (v, x) };
            if c.rng.coin() {
                (format!("*{}", v), array(vec![t("splat", vec![x])]))
            } else {
                (format!("1, *{}", v), array(vec![int(1), t("splat", vec![x])]))
            }
        }
        2 => {
            let (v, x) = value(c, 0);
            let v2 = if v.starts_with('{') || v.starts_with('-') || v.starts_with('(') || v.starts_with('[') { "1".to_string() } else { v };
            let x = if v2 == "1" { int(1) } else { x };
            c.hit("command-value");
            (format!("bar {}", v2), fcall("bar", vec![x]))
        }
        _ => value(c, 0),
    };
    let eq = eq_text(c, &format!("{}=", op));
    // `a *=` and the like after a name need care with a space on one side only.
    let src = format!("{}{}{}", l, eq, r);
    let e = assignment(lt, op, rt);
    anywhere(c, &src, e);
}

fn c18_multiple(c: &mut Case) {
    let n = *c.rng.pick(&[1, 2, 2, 2, 3, 3, 4, 6]);
    let splat = if c.rng.p(1, 3) { c.rng.below(n) } else { usize::MAX };
    if splat != usize::MAX {
        c.hit("splat-target");
    }
    let mut ls = vec![];
    let mut lt = vec![];
    for i in 0..n {
        let (a, x) = target(c, i);
        if i == splat {
            ls.push(format!("*{}", a));
            lt.push(t("splat", vec![x]));
        } else {
            ls.push(a);
            lt.push(x);
        }
    }
    let trailing = n == 1 && splat == usize::MAX || c.rng.p(1, 12) && splat != n - 1;
    if trailing {
        lt.push(leaf("discard"));
    }
    let m = *c.rng.pick(&[1, 1, 2, 2, 3, 4]);
    let mut rs = vec![];
    let mut rt = vec![];
    let mut rsplat = false;
    for i in 0..m {
        let (a, x) = value(c, i);
        if c.rng.p(1, 5) {
            rs.push(format!("*@s{}", i));
            rt.push(t("splat", vec![leaf(format!("ivar:@s{}", i))]));
            rsplat = true;
            c.hit("splat-value");
        } else if m == 1 && c.rng.p(1, 5) {
            rs.push("bar 1, 2".to_string());
            rt.push(fcall("bar", vec![int(1), int(2)]));
        } else {
            rs.push(a);
            rt.push(x);
        }
    }
    let single = lt.len() == 1;
    let rt = if rsplat || single && rt.len() != 1 { vec![array(rt)] } else { rt };
    let s1 = *c.rng.pick(&[", ", ",", " , "]);
    let s2 = *c.rng.pick(&[", ", ",", " , ", ",\n"]);
    let eq = eq_text(c, "=");
    let src = format!("{}{}{}{}", ls.join(s1), if trailing { "," } else { "" }, eq, rs.join(s2));
    c.hit(format!("targets:{}", n));
    let e = t("asgn", vec![t("lhs", lt), t("rhs", rt)]);
    anywhere(c, &src, e);
}

/// `a = b += c = value`
fn c18_chain(c: &mut Case) {
    let n = 2 + c.rng.below(4);
    let mut v = vec![];
    for i in 0..n {
        let (l, lt) = target(c, i);
        let op = *c.rng.pick(OPS);
        let eq = eq_text(c, &format!("{}=", op));
        v.push((format!("{}{}", l, eq), lt, op));
    }
    let (r, mut e) = value(c, 9);
    let mut src = r;
    let several = v[0].2.is_empty() && c.rng.p(1, 5);
    for (i, (a, lt, op)) in v.into_iter().enumerate().rev() {
        if i == 0 && several {
            // A second value belongs to the first target.
            src = format!("{}{}, 7", a, src);
            e = assignment(lt, op, array(vec![e, int(7)]));
        } else {
            src = format!("{}{}", a, src);
            e = assignment(lt, op, e);
        }
    }
    anywhere(c, &src, e);
}

/// Where an assignment ends, by the same text with parentheses.
const ASSIGN_FORMS: &[(&str, &str)] = &[
    ("foo(a = X, Y)", "foo((a = (X)), (Y))"),
    ("foo(1, a = X, Y)", "foo(1, (a = (X)), (Y))"),
    ("foo(a = X, b = Y)", "foo((a = (X)), (b = (Y)))"),
    ("foo(a += X, Y)", "foo((a += (X)), (Y))"),
    ("foo(a ||= X, Y)", "foo((a ||= (X)), (Y))"),
    ("foo(@a = X, Y)", "foo((@a = (X)), (Y))"),
    ("foo(@a.b = X, Y)", "foo((@a.b = (X)), (Y))"),
    ("foo(@a[0] = X, Y)", "foo((@a[0] = (X)), (Y))"),
    ("foo(a = b = X, Y)", "foo((a = (b = (X))), (Y))"),
    ("foo a = X, Y", "foo((a = (X)), (Y))"),
    ("foo 1, a = X, Y", "foo(1, (a = (X)), (Y))"),
    ("foo a = X, b = Y", "foo((a = (X)), (b = (Y)))"),
    ("@a.foo a = X, Y", "@a.foo((a = (X)), (Y))"),
    ("@a.foo(a = X, Y)", "@a.foo((a = (X)), (Y))"),
    ("foo(k: a = X, j: Y)", "foo(k: (a = (X)), j: (Y))"),
    ("foo(:k => a = X, :j => Y)", "foo(:k => (a = (X)), :j => (Y))"),
    ("foo(*a = X, Y)", "foo(*(a = (X)), (Y))"),
    ("foo(&a = X)", "foo(&(a = (X)))"),
    ("foo(a = X) { Y }", "foo((a = (X))) { Y }"),
    ("foo (a = X), Y", "foo((a = (X)), (Y))"),
    ("foo (a = X, Y)", "foo((a = [(X), (Y)]))"),
    ("foo((a = X, Y))", "foo((a = [(X), (Y)]))"),
    ("foo((a, b = X, Y), 1)", "foo(((a, b = (X), (Y))), 1)"),
    ("[a = X, Y]", "[(a = (X)), (Y)]"),
    ("[1, a = X, Y]", "[1, (a = (X)), (Y)]"),
    ("[a = X, b = Y]", "[(a = (X)), (b = (Y))]"),
    ("[a = [b = X, 1], Y]", "[(a = [(b = (X)), 1]), (Y)]"),
    ("[a += X, Y]", "[(a += (X)), (Y)]"),
    ("[(a = X, Y)]", "[(a = [(X), (Y)])]"),
    ("[a ||= X, Y]", "[(a ||= (X)), (Y)]"),
    ("{k: a = X, j: Y}.m", "({k: (a = (X)), j: (Y)}).m"),
    ("{(a = X) => b = Y, 1 => 2}.m", "({(a = (X)) => (b = (Y)), 1 => 2}).m"),
    ("@x[a = X, Y]", "@x[(a = (X)), (Y)]"),
    ("@x[a = X] = Y, 1", "@x[(a = (X))] = [(Y), 1]"),
    ("def m(a = b = X, c = Y)\nend", "def m(a = (b = (X)), c = (Y))\nend"),
    ("def m(a, b = c = X, *d)\nend", "def m(a, b = (c = (X)), *d)\nend"),
    ("def m(k: b = X, j: Y)\nend", "def m(k: (b = (X)), j: (Y))\nend"),
    ("foo { |a = X, b = Y| }", "foo { |a = (X), b = (Y)| }"),
    ("foo(-> { a = X, Y }, 1)", "foo(-> { a = [(X), (Y)] }, 1)"),
    ("foo(bar { a = X, Y }, 1)", "foo(bar { a = [(X), (Y)] }, 1)"),
    ("[foo { a = X, Y }, 1]", "[foo { a = [(X), (Y)] }, 1]"),
    ("[-> { a, b = X, Y }, 1]", "[-> { (a, b = (X), (Y)) }, 1]"),
    ("foo(if self then a = X, Y end, 1)", "foo((if self then a = [(X), (Y)] end), 1)"),
    ("foo(begin; a = X, Y; end, 1)", "foo((begin; a = [(X), (Y)]; end), 1)"),
    ("foo(\"#{a = X, Y}\", 1)", "foo(\"#{a = [(X), (Y)]}\", 1)"),
    ("[\"#{a, b = X, Y}\", 1]", "[\"#{(a, b = (X), (Y))}\", 1]"),
    ("foo(def m; a = X, Y; end, 1)", "foo((def m; a = [(X), (Y)]; end), 1)"),
    ("[def m; a, b = X, Y; end, 1]", "[(def m; (a, b = (X), (Y)); end), 1]"),
    ("[while self; a = X, Y; end, 1]", "[(while self; a = [(X), (Y)]; end), 1]"),
    ("[case 1; when 2; a = X, Y; end, 1]", "[(case 1; when 2; a = [(X), (Y)]; end), 1]"),
    ("case 1\nwhen a = X, Y\nend", "case 1\nwhen (a = (X)), (Y)\nend"),
    ("return a = X", "return (a = (X))"),
    ("a = X if Y", "(a = (X)) if (Y)"),
    ("a = X unless Y", "(a = (X)) unless (Y)"),
    ("a = X while Y", "(a = (X)) while (Y)"),
    ("a = X, Y if 1", "(a = [(X), (Y)]) if 1"),
    ("a, b = X, Y if 1", "(a, b = (X), (Y)) if 1"),
    ("a += X if Y", "(a += (X)) if (Y)"),
    ("a = X and Y", "(a = (X)) and (Y)"),
    ("a = X or Y", "(a = (X)) or (Y)"),
    ("a = X, Y and 1", "(a = [(X), (Y)]) and 1"),
    ("a, b = X, Y or 1", "(a, b = (X), (Y)) or 1"),
    ("1 and a = X, Y", "1 and (a = [(X), (Y)])"),
    ("1 or a, b = X, Y", "1 or (a, b = (X), (Y))"),
    ("a = X && Y", "a = ((X) && (Y))"),
    ("a = X || Y", "a = ((X) || (Y))"),
    ("a = X ? Y : 1", "a = ((X) ? (Y) : 1)"),
    ("a = X == Y", "a = ((X) == (Y))"),
    ("a = 1..2", "a = (1..2)"),
    ("a = !X", "a = (!(X))"),
    ("a = defined? X", "a = (defined?(X))"),
    ("a += X + Y", "a += ((X) + (Y))"),
    ("a *= X + Y", "a *= ((X) + (Y))"),
    ("a -= X - Y", "a -= ((X) - (Y))"),
    ("a ||= X || Y", "a ||= ((X) || (Y))"),
    ("a &&= X ? Y : 1", "a &&= ((X) ? (Y) : 1)"),
    ("X && a = Y", "(X) && (a = (Y))"),
    ("X || a = Y", "(X) || (a = (Y))"),
    ("X || a += Y", "(X) || (a += (Y))"),
    ("X && @a ||= Y", "(X) && (@a ||= (Y))"),
    ("X && @a[0] = Y", "(X) && (@a[0] = (Y))"),
    ("X && @a.b = Y", "(X) && (@a.b = (Y))"),
    ("!a = X", "!(a = (X))"),
    ("X ? a = Y : b = 1", "(X) ? (a = (Y)) : (b = 1)"),
    ("X ? a = Y : 1", "(X) ? (a = (Y)) : 1"),
    ("X == a = Y", "(X) == (a = (Y))"),
    ("X + a = Y", "(X) + (a = (Y))"),
    ("a = b = X, Y", "a = [(b = (X)), (Y)]"),
    ("a, b = c = X, Y", "(a, b = (c = (X)), (Y))"),
    ("a = X, b = Y", "a = [(X), (b = (Y))]"),
    ("a, b = X, c = Y", "(a, b = (X), (c = (Y)))"),
    ("a = [X, Y]", "a = [(X), (Y)]"),
    ("a = X, *Y", "a = [(X), *(Y)]"),
    ("a = *X, Y", "a = [*(X), (Y)]"),
    ("a = foo X, Y", "a = foo((X), (Y))"),
    ("a = b = foo X, Y", "a = (b = foo((X), (Y)))"),
    ("a += foo X, Y", "a += foo((X), (Y))"),
    ("a ||= foo X", "a ||= foo((X))"),
    ("a, b = foo X, Y", "(a, b = foo((X), (Y)))"),
    ("a = foo X do Y end", "a = (foo(X) { Y })"),
    ("a = if X then Y else 1 end", "a = (if (X) then (Y) else 1 end)"),
    ("a = if X\nY\nend\n1", "a = (if (X)\nY\nend); 1"),
    ("a = case X when Y then 1 end", "a = (case (X) when (Y) then 1 end)"),
    ("a = begin X ensure Y end", "a = (begin; (X); ensure (Y) end)"),
    ("a = while X do Y end", "a = (while (X) do (Y) end)"),
    ("a = def m; X; end", "a = (def m; (X); end)"),
    ("a = class << self; X; end", "a = (class << self; (X); end)"),
    ("a = -> { X }", "a = (-> { (X) })"),
    ("a = foo { X }", "a = (foo { (X) })"),
    ("a = foo { X }.m + 1", "a = ((foo { (X) }.m) + 1)"),
    ("a =\nX", "a = (X)"),
    ("a =\n\n # c\n X", "a = (X)"),
    ("a = X\n[1]", "a = (X); [1]"),
    ("a = X\n*b = Y", "a = (X); *b = (Y)"),
    ("a = X\n-1", "a = (X); (-1)"),
    ("a = X,\nY", "a = [(X), (Y)]"),
    ("a, b = X,\n Y", "(a, b = (X), (Y))"),
    ("a,\nb = X, Y", "(a, b = (X), (Y))"),
    ("a = X;b = Y", "(a = (X)); (b = (Y))"),
    ("a, b = b, a", "(a, b = (b), (a))"),
    ("a = 1; a, b = b, a", "a = 1; (a, b = (b), (a))"),
    ("a = 1; a += a", "a = 1; a += (a)"),
    ("a = a", "a = (a)"),
    ("a = (b = X; b)", "a = (b = (X); b)"),
    ("(a = X)", "a = (X)"),
    ("((a, b = X, Y))", "(a, b = (X), (Y))"),
    ("begin; a = X, Y; end", "begin; (a = [(X), (Y)]); end"),
    ("while a = X\nY\nend", "while (a = (X))\nY\nend"),
    ("if a = X then Y end", "if (a = (X)) then (Y) end"),
    ("until (a, b = X, Y)\nend", "until ((a, b = (X), (Y)))\nend"),
    ("for i in a = X do Y end", "for i in (a = (X)) do (Y) end"),
    ("\"#{a = X}\"", "\"#{(a = (X))}\""),
    ("foo.a = X", "(foo).a = (X)"),
    ("foo.a.b = X", "((foo).a).b = (X)"),
    ("foo[X] = Y", "(foo)[(X)] = (Y)"),
    ("foo[1][X] = Y", "((foo)[1])[(X)] = (Y)"),
    ("foo.a[X] += Y", "((foo).a)[(X)] += (Y)"),
    ("foo(1)[X] = Y", "(foo(1))[(X)] = (Y)"),
    ("foo(1).a = X", "(foo(1)).a = (X)"),
    ("foo { 1 }.a = X", "(foo { 1 }).a = (X)"),
    ("[1][0] = X", "([1])[0] = (X)"),
    ("\"s\"[0] = X", "(\"s\")[0] = (X)"),
    ("(1)[0] = X", "((1))[0] = (X)"),
    ("self.a, self.b = X, Y", "(self.a, self.b = (X), (Y))"),
    ("foo.a, foo[1], @b, $c = X, Y", "((foo).a, (foo)[1], @b, $c = (X), (Y))"),
    ("a::b = X", "(a).b = (X)"),
    ("a&.b = X", "(a)&.b = (X)"),
    ("a&.b ||= X", "(a)&.b ||= (X)"),
];

fn c18_forms(c: &mut Case) {
    let mut p = c.rng.s(&["1", "\"s\"", ":a", "@z", "g(1)", "nil", "[1, 2]", "@z.k", "-> { 1 }", "2.5", "(1; 2)", "$a", "@z[0]", "g(1, 2) { 3 }", "-1"]);
    let q = c.rng.s(&["2", "'t'", ":b", "@@b", "gg(2, 3)", "self", "[]", "@b&.k", "true", "/r/", "%w(a b)"]);
    let (a, b) = ASSIGN_FORMS[(c.idx as usize) % ASSIGN_FORMS.len()];
    // A sign or a bracket after a name with a space would be an argument.
    if a.contains("foo X") || a.contains("*X") || a.contains("? X") && a.contains("defined") {
        p = "@z";
    }
    let f = |s: &str| {
        let cs: Vec<char> = s.chars().collect();
        let mut o = String::new();
        for (i, ch) in cs.iter().enumerate() {
            let alone = (i == 0 || !(cs[i - 1].is_ascii_alphanumeric() || cs[i - 1] == '_')) && !cs.get(i + 1).map_or(false, |d| d.is_ascii_alphanumeric() || *d == '_');
            match ch {
                'X' if alone => o.push_str(p),
                'Y' if alone => o.push_str(q),
                _ => o.push(*ch),
            }
        }
        o
    };
    let (a, b) = (f(a), f(b));
    let (a, b) = if (c.idx as usize) < ASSIGN_FORMS.len() { (a, b) } else { wrapped(c, &a, &b) };
    c.hit("same");
    expect_same(c, &b, &a, "where an assignment ends");
}

const NOT_TARGETS: &[&str] = &[
    "1", "-1", "1.5", "2i", "\"a\"", "'a'", "\"a#{1}\"", "`a`", ":a", ":\"a\"", "?a", "%w(a)", "%q(a)", "/a/", "[a]", "[]", "[1, 2]", "{}", "{k: 1}", "-> {}", "-> { 1 }", "nil", "true", "false", "self", "__FILE__", "__LINE__",
    "foo()", "foo(1)", "foo { }", "foo(1) { }", "@a.b(1)", "@a.b { }", "foo.b(1, 2)", "@a&.b(1)", "a?", "a!", "@a.b?", "@a.b!", "$1", "$&", "$'", "$`", "$+", "$12", "(1)", "(nil)", "(1; 2)", "begin; 1; end",
    "if 1 then 2 end", "case 1 when 2 then 3 end", "def m; end", "@a + @b", "@a..@b", "defined?(a)", "_1", "_9", "@a.b.c(1)", "@a[0].c(2)", "A.b(1)", "while 1 do end", "%(a)", "\"a\" \"b\"", "(self)", "super()", "alias a b", "%r(a)", "0x1f", "foo.(1)",
];

pub fn c18_reject(c: &mut Case) {
    let x = *c.rng.pick(NOT_TARGETS);
    // Some are whole operators: the last operand would be the target.
    let operand = x.contains(" + ") || x.contains("..");
    let (g, _) = target(c, 1);
    let (v, _) = value(c, 1);
    let op = *c.rng.pick(OPS);
    let tail = x.starts_with("-") && !x.starts_with("->");
    let _ = tail;
    let src = match c.rng.below(9) {
        0 | 1 | 2 if !operand => format!("{} {}= {}", x, op, v),
        3 if !operand => format!("{} = {} = {}", g, x, v),
        4 if !operand && !x.starts_with("alias") => format!("{}, {} = {}", g, x, v),
        5 if !operand && !x.starts_with("alias") => format!("{}, {} = {}", x, g, v),
        6 if !operand && !x.starts_with("alias") && !x.starts_with('-') && !x.starts_with("while") => format!("*{} = {}", x, v),
        7 => c
            .rng
            .s(&[
                "a, b += 1", "a, b ||= 1", "a, b", "*a", "*a, b", "a, *b, *c = 1", "*a, *b = 1", "a =", "a +=", "a, b =", "a, = ", "a = = 1", "a = 1 = 2", "a = b = 1 = 2", ", a = 1", "a,, b = 1", "= 1", "+= 1", "a = 1,", "a = *", "a = ,",
                "a = 1,, 2", "a = )", "a[1 = 2", "a[1] == = 1", "a = (1", "a = [1", "a += 1 += 2", "a = end", "a = then", "a, (b = 1", "@a&.b, c = 1", "a, @a&.b = 1", "*@a&.b, c = 1", "@a =+ = 1", "a = 1 2", "a = \"s\" 1", "a = :b c d",
                "a.b = 1 2", "a, b = 1 2", "a += 1, 2", "a ||= 1, 2", "@a.b += 1, 2", "[a, b] = 1, 2", "{a: b} = 1", "a b = ", "a. = 1", "a[ = 1", "a] = 1", "::a = 1", "a.A::b() += ", "a => 1 = 2", "if = 1", "end = 1", "def = 1", "a = b do = 1",
            ])
            .to_string(),
        _ if !operand && !x.starts_with("alias") => format!("foo({} = {})", x, v),
        _ => return,
    };
    c.hit("rejected");
    expect_reject(c, &src, "not assignable, or not an assignment");
}

// ---- C19 ---------------------------------------------------------------------------

pub fn c19() -> Check {
    Check {
        id: "C19",
        rule: "a distinct source text with a control structure whose tree was compared with the one meant, or which had to be rejected",
        modes: vec![
            Mode { name: "clauses", quick: 160_000, thorough: 3_000_000, f: c19_clauses },
            Mode { name: "modifiers", quick: 80_000, thorough: 800_000, f: c19_modifiers },
            Mode { name: "jumps", quick: 40_000, thorough: 400_000, f: c19_jumps },
            Mode { name: "forms", quick: 30_000, thorough: 300_000, f: c19_forms },
            Mode { name: "reject", quick: 40_000, thorough: 400_000, f: c19_reject },
            Mode { name: "program", quick: 80_000, thorough: 1_500_000, f: c19_program },
            Mode { name: "mixture", quick: 30_000, thorough: 800_000, f: c19_mixture },
        ],
        assumptions: &[
            "a missing `else` of `if` and `case` and an empty one have the same tree; for begin blocks they are told apart",
            "not covered: `(begin .. end) while x`, an exception list with a do block inside a loop head",
        ],
        must: &[
            "if", "elsif", "unless", "case", "case-none", "while", "until", "for", "begin", "rescue", "rescue-var", "rescue-else", "ensure", "ternary", "empty", "mod:if", "mod:unless", "mod:while",
            "mod:until", "mod:rescue", "dopost", "jump:return", "jump:break", "jump:next", "jump:redo", "same", "rejected", "body:def", "body:do", "body:class",
        ],
    }
}

fn c19_mixture(c: &mut Case) {
    mixture(c, TREE);
}

fn c19_program(c: &mut Case) {
    let f = Feat {
        control: 16,
        begin: 12,
        loops: 12,
        modifier: 12,
        ternary: 10,
        jump: 8,
        andor: 4,
        cmd: 4,
        kwlit: 3,
        paren: 3,
        block: 3,
        lambda: 2,
        def: 4,
        class: 2,
        fcall: 3,
        mcall: 3,
        stmt_assign: 4,
        stmt_massign: 2,
        stmt_opassign: 2,
        binop: 2,
        logic: 2,
        array: 2,
        strs: 2,
        sym: 2,
        ..Feat::base()
    };
    focus(c, f, &[8, 16, 30, 50], 4, &[0, 0, 40, 100], TREE_TABLE);
}

/// Control structures nested in each other. Every leaf is a new number, so
/// anything lost, moved or repeated shows.
struct K<'a, 'b> {
    c: &'a mut Case<'b>,
    fuel: i32,
    next: i64,
    loops: usize,
}

impl<'a, 'b> K<'a, 'b> {
    fn n(&mut self, k: usize) -> usize {
        self.c.rng.below(k)
    }
    fn num(&mut self) -> i64 {
        self.next += 1;
        self.next
    }
    /// A separator before a statement or a keyword which needs one.
    fn term(&mut self) -> &'static str {
        *self.c.rng.pick(&["\n", "\n", ";", "; ", " ;", "\n\n", " # c\n", "\n  # if end\n  ", ";\n"])
    }
    fn then(&mut self) -> String {
        match self.n(4) {
            0 => " then ".to_string(),
            1 => format!("{}then ", self.term()),
            _ => self.term().to_string(),
        }
    }
    fn do_(&mut self) -> String {
        match self.n(3) {
            0 => " do ".to_string(),
            1 => format!(" do{}", self.term()),
            _ => self.term().to_string(),
        }
    }
    /// A body with its separator at the end.
    fn body(&mut self) -> (String, T) {
        let k = *self.c.rng.pick(&[0, 1, 1, 1, 2, 3]);
        if k == 0 {
            self.c.hit("empty");
            return (self.c.rng.s(&["", ";", "\n", " # c\n", ";;"]).to_string(), nothing());
        }
        let mut o = String::new();
        let mut v = vec![];
        for i in 0..k {
            if i > 0 {
                o += self.term();
            }
            let (a, x) = self.stmt();
            o += &a;
            v.push(x);
        }
        o += *self.c.rng.pick(&["\n", ";", " ", "\n"]);
        (o, if k == 1 { v.pop().unwrap() } else { t("seq", v) })
    }
    fn stmt(&mut self) -> (String, T) {
        self.fuel -= 1;
        if self.fuel > 0 {
            match self.n(10) {
                0..=4 => return self.control(),
                5 => {
                    let (a, x) = self.control();
                    let k = self.num();
                    return match self.n(9) {
                        0 => (format!("@a = {}", a), t("asgn", vec![t("lhs", vec![leaf("ivar:@a")]), t("rhs", vec![x])])),
                        1 => (format!("@a += {}", a), t("opasgn:+", vec![leaf("ivar:@a"), x])),
                        2 => (format!("foo({}, {})", a, k), fcall("foo", vec![x, int(k)])),
                        3 => (format!("{}.foo({})", a, k), mcall("foo", x, vec![int(k)])),
                        4 => (format!("[{}, {}]", a, k), t("array", vec![x, int(k)])),
                        5 => (format!("{} + {}", k, a), bin("+", int(k), x)),
                        6 => (format!("{} + {}", a, k), bin("+", x, int(k))),
                        7 => (format!("@a[{}] = {}", a, k), t("asgn", vec![t("lhs", vec![t("index", vec![leaf("ivar:@a"), x])]), t("rhs", vec![int(k)])])),
                        _ => (format!("({})", a), x),
                    };
                }
                6 => return self.bodied(),
                _ => {}
            }
        }
        let k = self.num();
        match self.n(7) {
            0 => (format!("@a = {}", k), t("asgn", vec![t("lhs", vec![leaf("ivar:@a")]), t("rhs", vec![int(k)])])),
            1 => (format!("foo {}", k), fcall("foo", vec![int(k)])),
            2 => (format!("@a.foo({})", k), mcall("foo", leaf("ivar:@a"), vec![int(k)])),
            3 if self.loops > 0 => {
                let w = self.c.rng.s(&["break", "next"]);
                (format!("{} {}", w, k), t(w, vec![int(k)]))
            }
            4 => (format!("return {}", k), t("return", vec![int(k)])),
            _ => (format!("{}", k), int(k)),
        }
    }
    fn cond(&mut self) -> (String, T) {
        let k = self.num();
        match self.n(9) {
            0 => (format!("foo({})", k), fcall("foo", vec![int(k)])),
            1 => (format!("@a == {}", k), bin("==", leaf("ivar:@a"), int(k))),
            2 => (format!("!{}", k), t("un:!", vec![int(k)])),
            3 => {
                let j = self.num();
                (format!("{} && {}", k, j), bin("&&", int(k), int(j)))
            }
            4 => {
                let j = self.num();
                (format!("{} and {}", k, j), bin("&&", int(k), int(j)))
            }
            5 if self.fuel > 0 => {
                let (a, x) = self.stmt();
                (format!("({})", a), x)
            }
            6 => (format!("@a = {}", k), t("asgn", vec![t("lhs", vec![leaf("ivar:@a")]), t("rhs", vec![int(k)])])),
            7 => (format!("foo {{ {} }}", k), fcall("foo", vec![blk(int(k))])),
            _ => (format!("{}", k), int(k)),
        }
    }
    fn head(&mut self, w: &str) -> String {
        format!("{}{}", w, self.c.rng.s(&[" ", " ", " ", "  ", "\n"]))
    }
    fn control(&mut self) -> (String, T) {
        match self.n(10) {
            0 | 1 => {
                self.c.hit("if");
                let h = self.head("if");
                let (a, x) = self.if_rest();
                (format!("{}{}end", h, a), x)
            }
            2 => {
                self.c.hit("unless");
                let h = self.head("unless");
                let (a, x) = self.cond();
                let th = self.then();
                let (b, y) = self.body();
                let (e, z) = if self.n(2) == 0 {
                    let (e, z) = self.body();
                    (format!("else {}", e), z)
                } else {
                    (String::new(), nothing())
                };
                (format!("{}{}{}{}{}end", h, a, th, b, e), t("if", vec![x, z, y]))
            }
            3 | 4 => self.case(),
            5 => {
                let w = self.c.rng.s(&["while", "until"]);
                self.c.hit(w);
                let h = self.head(w);
                let (a, x) = self.cond();
                let d = self.do_();
                self.loops += 1;
                let (b, y) = self.body();
                self.loops -= 1;
                (format!("{}{}{}{}end", h, a, d, b), t(w, vec![x, y]))
            }
            6 => {
                self.c.hit("for");
                let v = *self.c.rng.pick(&["i", "j", "i, j", "i, j, k", "i,j"]);
                let (a, x) = self.cond();
                let d = self.do_();
                self.loops += 1;
                let (b, y) = self.body();
                self.loops -= 1;
                let vs: Vec<String> = v.split(',').map(|s| format!("?:{}", s.trim())).collect();
                (format!("for {} in {}{}{}end", v, a, d, b), t(format!("for[{}]", vs.join(",")), vec![x, blk(y).kids.remove(0).kids.remove(0)]))
            }
            7 | 8 => {
                self.c.hit("begin");
                let t0 = self.c.rng.s(&[" ", "\n", ";"]);
                let (a, x) = self.clauses();
                (format!("begin{}{}end", t0, a), x)
            }
            _ => {
                self.c.hit("ternary");
                let k = self.num();
                let (a, x) = self.tern_arm();
                let (b, y) = self.tern_arm();
                let (q, col) = *self.c.rng.pick(&[(" ? ", " : "), (" ? ", " : "), (" ?\n", " :\n"), ("  ?  ", "  :  "), (" ? ", "\n: ")]);
                (format!("(@c{}{}{}{}{})", k, q, a, col, b), t("if", vec![leaf(format!("ivar:@c{}", k)), x, y]))
            }
        }
    }
    fn tern_arm(&mut self) -> (String, T) {
        let k = self.num();
        match self.n(6) {
            0 if self.fuel > 0 => {
                self.fuel -= 1;
                self.control()
            }
            1 => (format!("foo({})", k), fcall("foo", vec![int(k)])),
            2 => (format!(":s{}", k), s(&format!("s{}", k))),
            3 => (format!("\"s{}\"", k), st(&format!("s{}", k))),
            4 => (format!("C{}", k), leaf(format!("const:C{}", k))),
            _ => (format!("{}", k), int(k)),
        }
    }
    fn if_rest(&mut self) -> (String, T) {
        let (a, x) = self.cond();
        let th = self.then();
        let (b, y) = self.body();
        let (e, z) = match self.n(4) {
            0 => {
                self.c.hit("elsif");
                let h = self.head("elsif");
                let (e, z) = self.if_rest();
                (format!("{}{}", h, e), z)
            }
            1 | 2 => {
                let (e, z) = self.body();
                (format!("else {}", e), z)
            }
            _ => (String::new(), nothing()),
        };
        (format!("{}{}{}{}", a, th, b, e), t("if", vec![x, y, z]))
    }
    fn case(&mut self) -> (String, T) {
        self.c.hit("case");
        let mut o = "case".to_string();
        let mut kids = vec![];
        if self.n(4) > 0 {
            o += self.c.rng.s(&[" ", "\n"]);
            let (a, x) = self.cond();
            o += &a;
            kids.push(x);
        } else {
            self.c.hit("case-none");
            kids.push(leaf("none"));
        }
        o += self.term();
        for _ in 0..1 + self.n(3) {
            o += &self.head("when");
            let mut w = vec![];
            for j in 0..1 + self.n(3) {
                if j > 0 {
                    o += self.c.rng.s(&[", ", ",\n", ","]);
                }
                let k = self.num();
                match self.n(5) {
                    0 => {
                        o += &format!("*@a{}", k);
                        w.push(t("splat", vec![leaf(format!("ivar:@a{}", k))]));
                    }
                    1 => {
                        o += &format!("C{}", k);
                        w.push(leaf(format!("const:C{}", k)));
                    }
                    2 => {
                        o += &format!("{}..{}", k, k + 1);
                        w.push(t("range..!", vec![int(k), int(k + 1)]));
                    }
                    _ => {
                        o += &format!("{}", k);
                        w.push(int(k));
                    }
                }
            }
            o += &self.then();
            let (b, y) = self.body();
            o += &b;
            w.push(y);
            kids.push(t("when", w));
        }
        if self.n(2) == 0 {
            let (b, y) = self.body();
            o += &format!("else {}", b);
            kids.push(y);
        } else {
            kids.push(nothing());
        }
        (o + "end", t("case", kids))
    }
    /// What may stand between `begin` and `end`.
    fn clauses(&mut self) -> (String, T) {
        let (mut o, body) = self.body();
        if self.n(4) == 0 {
            return (o, body);
        }
        let m = self.n(4);
        // `1 rescue 2` would be a modifier.
        let sep = |o: &mut String| {
            if !o.is_empty() && !o.ends_with(|c| c == '\n' || c == ';') {
                o.push('\n');
            }
        };
        let mut kids = vec![body];
        for _ in 0..m {
            sep(&mut o);
            self.c.hit("rescue");
            o += "rescue";
            let mut ex = vec![];
            let mut bare = true;
            for j in 0..*self.c.rng.pick(&[0, 0, 1, 1, 2, 3]) {
                o += if j == 0 { " " } else { self.c.rng.s(&[", ", ",\n", ","]) };
                let k = self.num();
                bare = false;
                match self.n(5) {
                    0 => {
                        o += &format!("*@a{}", k);
                        ex.push(t("splat", vec![leaf(format!("ivar:@a{}", k))]));
                    }
                    1 => {
                        o += &format!("A::C{}", k);
                        ex.push(leaf(format!("const:A::C{}", k)));
                    }
                    2 => {
                        o += &format!("foo({})", k);
                        ex.push(fcall("foo", vec![int(k)]));
                    }
                    _ => {
                        o += &format!("C{}", k);
                        ex.push(leaf(format!("const:C{}", k)));
                    }
                }
            }
            let mut var = leaf("none");
            if self.n(2) == 0 {
                self.c.hit("rescue-var");
                bare = false;
                let k = self.num();
                let (a, x) = match self.n(6) {
                    0 => (format!("@e{}", k), leaf(format!("ivar:@e{}", k))),
                    1 => (format!("@a[{}]", k), t("index", vec![leaf("ivar:@a"), int(k)])),
                    2 => (format!("@a.x{}", k), mcall(&format!("x{}", k), leaf("ivar:@a"), vec![])),
                    3 => (format!("$g{}", k), leaf(format!("gvar:$g{}", k))),
                    4 => (format!("@@g{}", k), leaf(format!("cvar:@@g{}", k))),
                    _ => (format!("e{}", k), leaf(format!("lvar:?:e{}", k))),
                };
                o += self.c.rng.s(&[" => ", "=>", " =>"]);
                o += &a;
                var = x;
            }
            let _ = bare;
            o += &self.then();
            let (b, y) = self.body();
            o += &b;
            kids.push(t("rescue", vec![t("ex", ex), var, y]));
        }
        if m > 0 && self.n(2) == 0 {
            self.c.hit("rescue-else");
            sep(&mut o);
            let (b, y) = self.body();
            o += &format!("else {}", b);
            kids.push(y);
        } else {
            kids.push(leaf("none"));
        }
        if m == 0 || self.n(2) == 0 {
            self.c.hit("ensure");
            sep(&mut o);
            let (b, y) = self.body();
            o += &format!("ensure {}", b);
            kids.push(y);
        } else {
            kids.push(leaf("none"));
        }
        (o, t("begin", kids))
    }
    /// The same clauses in a method, block or class.
    fn bodied(&mut self) -> (String, T) {
        let l = std::mem::replace(&mut self.loops, 0);
        let sp = self.c.rng.s(&["\n", ";", "; "]);
        let (a, x) = self.clauses();
        self.loops = l;
        let k = self.num();
        match self.n(5) {
            0 => {
                self.c.hit("body:def");
                let i = blk(x).kids.remove(0).kids.remove(0);
                (format!("def m{}{}{}end", k, sp, a), t(format!("def:m{}", k), vec![i]))
            }
            1 => {
                self.c.hit("body:def");
                let i = blk(x).kids.remove(0).kids.remove(0);
                (format!("def self.m{}(){}{}end", k, sp, a), t(format!("sdef:m{}", k), vec![leaf("self"), i]))
            }
            2 => {
                self.c.hit("body:do");
                (format!("foo({}) do{}{}end", k, sp, a), fcall("foo", vec![int(k), blk(x)]))
            }
            3 => {
                self.c.hit("body:do");
                let i = blk(x).kids.remove(0).kids.remove(0);
                (format!("-> do{}{}end", sp, a), t("lambda", vec![i]))
            }
            _ => {
                self.c.hit("body:class");
                let i = blk(x).kids.remove(0).kids.remove(0);
                (format!("class << self{}{}end", sp, a), t("sclass", vec![leaf("self"), i]))
            }
        }
    }
}

fn c19_clauses(c: &mut Case) {
    let fuel = *c.rng.pick(&[1, 2, 4, 8, 14, 24]);
    let mut k = K { c, fuel, next: 0, loops: 0 };
    let (src, mut e) = if k.n(8) == 0 { k.bodied() } else { k.control() };
    // Depths and tables are judged by C14; here they are left out.
    let c = k.c;
    c.nontrivial(&src);
    let o = c.parse(&src);
    match o {
        Obs::Ok(r) => {
            let mut a = norm(&r.node);
            c.st.nodes += a.size() as u64;
            plain(&mut a);
            plain(&mut e);
            if let Some(d) = e.diff(&a, false) {
                c.fail(&src, d);
            }
        }
        o => c.fail(&src, format!("{}; expected {}", o.brief(), clip_str(&e.to_string(), 600))),
    }
}

/// Leave out the depths of variables and the tables of scopes.
fn plain(e: &mut T) {
    if e.tag.starts_with("lv[") {
        e.tag = "table".into();
    } else if let Some(x) = e.tag.strip_prefix("lvar:") {
        if let Some((_, n)) = x.split_once(':') {
            e.tag = format!("lvar:?:{}", n);
        }
    } else if let Some(x) = e.tag.strip_prefix("for[") {
        let v: Vec<String> = x.trim_end_matches(']').split(',').map(|y| format!("?:{}", y.rsplit(':').next().unwrap())).collect();
        e.tag = format!("for[{}]", v.join(","));
    }
    for k in &mut e.kids {
        plain(k);
    }
}

/// A statement of any kind with its tree, and whether a loop modifier makes
/// it a do-while, and whether a rescue modifier may follow.
fn any_stmt(c: &mut Case) -> (String, T, bool, bool) {
    let v = |n: &str| leaf(format!("ivar:{}", n));
    let asg = |l: T, r: T| t("asgn", vec![t("lhs", vec![l]), t("rhs", vec![r])]);
    match c.rng.below(30) {
        0 => ("1".into(), int(1), false, true),
        1 => ("foo".into(), leaf("call:foo"), false, true),
        2 => ("foo 1, 2".into(), fcall("foo", vec![int(1), int(2)]), false, true),
        3 => ("foo(1) { 2 }".into(), fcall("foo", vec![int(1), blk(int(2))]), false, true),
        4 => ("foo 1 do 2 end".into(), fcall("foo", vec![int(1), blk(int(2))]), false, true),
        5 => ("@a.foo 1".into(), mcall("foo", v("@a"), vec![int(1)]), false, true),
        6 => ("@a = 1".into(), asg(v("@a"), int(1)), false, false),
        7 => ("@a += 1".into(), t("opasgn:+", vec![v("@a"), int(1)]), false, false),
        8 => ("@a ||= 1".into(), bin("||", v("@a"), asg(v("@a"), int(1))), false, false),
        9 => ("@a, @b = 1, 2".into(), t("asgn", vec![t("lhs", vec![v("@a"), v("@b")]), t("rhs", vec![int(1), int(2)])]), false, false),
        10 => ("@a[0] = foo 1".into(), asg(t("index", vec![v("@a"), int(0)]), fcall("foo", vec![int(1)])), false, false),
        11 => ("return".into(), t("return", vec![leaf("nil")]), false, true),
        12 => ("return 1".into(), t("return", vec![int(1)]), false, true),
        13 => ("return 1, 2".into(), t("return", vec![array(vec![int(1), int(2)])]), false, true),
        14 => ("1 and 2".into(), bin("&&", int(1), int(2)), false, true),
        15 => ("1 ? 2 : 3".into(), t("if", vec![int(1), int(2), int(3)]), false, true),
        16 => ("if 1 then 2 end".into(), t("if", vec![int(1), int(2), nothing()]), false, true),
        17 => ("while 1 do 2 end".into(), t("while", vec![int(1), int(2)]), false, true),
        18 => ("begin; 1; 2; end".into(), t("seq", vec![int(1), int(2)]), true, true),
        19 => ("begin; @b; end".into(), v("@b"), true, true),
        20 => ("begin; end".into(), nothing(), true, true),
        21 => ("begin; 1; ensure; 2; end".into(), t("begin", vec![int(1), leaf("none"), int(2)]), true, true),
        22 => ("def m; 1; end".into(), t("def:m", vec![blk(int(1)).kids.remove(0).kids.remove(0)]), false, true),
        23 => ("alias a b".into(), t("alias", vec![s("a"), s("b")]), false, false),
        24 => ("1..2".into(), t("range..!", vec![int(1), int(2)]), false, true),
        25 => ("yield 1".into(), t("yield", vec![args(vec![int(1)])]), false, true),
        26 => ("super".into(), leaf("zsuper"), false, true),
        27 => ("-> { 1 }".into(), t("lambda", vec![blk(int(1)).kids.remove(0).kids.remove(0)]), false, true),
        28 => ("[1, 2]".into(), array(vec![int(1), int(2)]), false, true),
        _ => ("case 1; when 2; 3; end".into(), t("case", vec![int(1), t("when", vec![int(2), int(3)]), nothing()]), false, true),
    }
}

fn c19_modifiers(c: &mut Case) {
    let (mut src, mut e, mut is_begin, mut resc) = any_stmt(c);
    if e.tag == "begin" {
        // The tree of `begin .. rescue .. end while x` is that of `.. rescue .. while x`.
        is_begin = false;
    }
    let n = c.rng.below(5);
    for i in 0..n {
        let k = c.rng.below(5);
        if k == 4 && !resc {
            continue;
        }
        let w = ["if", "unless", "while", "until", "rescue"][k];
        c.hit(format!("mod:{}", w));
        let j = 100 + i as i64;
        let (m, y) = match c.rng.below(9) {
            0 => (format!("foo({})", j), fcall("foo", vec![int(j)])),
            1 => (format!("@c == {}", j), bin("==", leaf("ivar:@c"), int(j))),
            2 if k != 4 => (format!("{} and 2", j), bin("&&", int(j), int(2))),
            3 => (format!("!{}", j), t("un:!", vec![int(j)])),
            4 => (format!("({}; 2)", j), t("seq", vec![int(j), int(2)])),
            5 => (format!("foo {{ {} }}", j), fcall("foo", vec![blk(int(j))])),
            6 if k != 4 => (format!("foo {}", j), fcall("foo", vec![int(j)])),
            7 => (format!("@c ? {} : 2", j), t("if", vec![leaf("ivar:@c"), int(j), int(2)])),
            _ => (format!("{}", j), int(j)),
        };
        let sp = c.rng.s(&[" ", " ", "  ", " \\\n", "\n"]);
        src = format!("{} {}{}{}", src, w, sp, m);
        e = match k {
            0 => t("if", vec![y, e, nothing()]),
            1 => t("if", vec![y, nothing(), e]),
            2 | 3 => {
                if is_begin {
                    c.hit("dopost");
                }
                t(format!("{}{}", w, if is_begin { "-dopost" } else { "-post" }), vec![y, e])
            }
            _ => t("begin", vec![e, t("rescue", vec![t("ex", vec![]), leaf("none"), y]), leaf("none"), leaf("none")]),
        };
        is_begin = false;
        resc = true;
    }
    let last = src.clone();
    match c.rng.below(3) {
        0 => {
            expect_tree(c, &src, &e);
        }
        1 => {
            let (a, b, f): (&str, &str, fn(T) -> T) = *c.rng.pick(&[
                ("self;", ";self", (|e| t("seq", vec![leaf("self"), e, leaf("self")])) as fn(T) -> T),
                ("self\n", "\nself", |e| t("seq", vec![leaf("self"), e, leaf("self")])),
                ("if self then ", " end", |e| t("if", vec![leaf("self"), e, nothing()])),
                ("while self do\n", "\nend", |e| t("while", vec![leaf("self"), e])),
                ("begin\n", "\nensure\n1\nend", |e| t("begin", vec![e, leaf("none"), int(1)])),
                ("case 1\nwhen 2 then ", "\nelse 3 end", |e| t("case", vec![int(1), t("when", vec![int(2), e]), int(3)])),
                ("foo { ", " }", |e| fcall("foo", vec![blk(e)])),
                ("foo do\n", "\nend", |e| fcall("foo", vec![blk(e)])),
                ("def m\n", "\nend", |e| t("def:m", vec![blk(e).kids.remove(0).kids.remove(0)])),
            ]);
            expect_tree(c, &format!("{}{}{}", a, last, b), &f(e));
        }
        _ => {
            // In parentheses it is an operand (not where a loop modifier is next).
            expect_placed(c, &format!("({})", last), e);
        }
    }
}

fn c19_jumps(c: &mut Case) {
    let w = c.rng.s(&["return", "break", "next", "redo"]);
    c.hit(format!("jump:{}", w));
    let (a, e) = if w == "redo" {
        ("redo".to_string(), leaf("redo"))
    } else {
        let (a, x) = match c.rng.below(22) {
            0 => ("".to_string(), leaf("nil")),
            1 => (" nil".to_string(), leaf("nil")),
            2 => (" 1, 2".to_string(), array(vec![int(1), int(2)])),
            3 => (" *@a".to_string(), t("array", vec![t("splat", vec![leaf("ivar:@a")])])),
            4 => (" 1, *@a, 2".to_string(), t("array", vec![int(1), t("splat", vec![leaf("ivar:@a")]), int(2)])),
            5 => (" [1, 2]".to_string(), array(vec![int(1), int(2)])),
            6 => (" [1, 2], 3".to_string(), array(vec![array(vec![int(1), int(2)]), int(3)])),
            7 => (" foo 1, 2".to_string(), fcall("foo", vec![int(1), int(2)])),
            8 => (" -1".to_string(), int(-1)),
            9 => ("(1)".to_string(), int(1)),
            10 => (" (1; 2)".to_string(), t("seq", vec![int(1), int(2)])),
            11 => (" 1 ? 2 : 3".to_string(), t("if", vec![int(1), int(2), int(3)])),
            12 => (" if 1 then 2 end".to_string(), leaf("IF")),
            13 => (" 1,\n2".to_string(), array(vec![int(1), int(2)])),
            14 => (" @a && 1".to_string(), bin("&&", leaf("ivar:@a"), int(1))),
            15 => (" foo { 1 }".to_string(), fcall("foo", vec![blk(int(1))])),
            16 => (" :a".to_string(), s("a")),
            17 => (" \"a\"".to_string(), st("a")),
            18 => (" 1..2".to_string(), t("range..!", vec![int(1), int(2)])),
            19 => (" foo(1).bar 2".to_string(), mcall("bar", fcall("foo", vec![int(1)]), vec![int(2)])),
            20 => (" @a[0], 2".to_string(), array_of(vec![t("index", vec![leaf("ivar:@a"), int(0)]), int(2)])),
            _ => (" 1".to_string(), int(1)),
        };
        if x.tag == "IF" {
            // A modifier: `return if 1` takes no value.
            (format!("{} if 1", w), t("if", vec![int(1), t(w, vec![leaf("nil")]), nothing()]))
        } else {
            (format!("{}{}", w, a), t(w, vec![x]))
        }
    };
    // A list of values may itself carry modifiers.
    let (a, e) = if e.tag != "if" && c.rng.p(1, 3) {
        let m = c.rng.s(&["if", "unless", "while", "until"]);
        let x = match m {
            "if" => t("if", vec![int(9), e, nothing()]),
            "unless" => t("if", vec![int(9), nothing(), e]),
            _ => t(format!("{}-post", m), vec![int(9), e]),
        };
        (format!("{} {} 9", a, m), x)
    } else {
        (a, e)
    };
    let i = |e: T| blk(e).kids.remove(0).kids.remove(0);
    let (pre, post) = *c.rng.pick(&[
        ("while self do ", " end"),
        ("until self\n", "\nend"),
        ("foo { ", " }"),
        ("foo do\n", "\nend"),
        ("-> { ", " }"),
        ("while self do if 1 then ", " end end"),
        ("while self do begin 1; ", "; end end"),
        ("for i in 1\n", "\nend"),
        ("while self do self and (", ") end"),
        ("while self do 1; ", "; 2 end"),
        ("while self do case 1\nwhen 2 then ", " end end"),
    ]);
    let whole = match pre {
        "while self do " => t("while", vec![leaf("self"), e]),
        "until self\n" => t("until", vec![leaf("self"), e]),
        "foo { " | "foo do\n" => fcall("foo", vec![blk(e)]),
        "-> { " => t("lambda", vec![i(e)]),
        "while self do if 1 then " => t("while", vec![leaf("self"), t("if", vec![int(1), e, nothing()])]),
        "while self do begin 1; " => t("while", vec![leaf("self"), t("seq", vec![int(1), e])]),
        "for i in 1\n" => t("for[0:i]", vec![int(1), i(e)]),
        "while self do self and (" => t("while", vec![leaf("self"), bin("&&", leaf("self"), e)]),
        "while self do 1; " => t("while", vec![leaf("self"), t("seq", vec![int(1), e, int(2)])]),
        _ => t("while", vec![leaf("self"), t("case", vec![int(1), t("when", vec![int(2), e]), nothing()])]),
    };
    expect_tree(c, &format!("{}{}{}", pre, a, post), &whole);
}

fn array_of(v: Vec<T>) -> T {
    t("array", v)
}

/// Texts with another one which says the same in other words.
const CONTROL_FORMS: &[(&str, &str)] = &[
    ("@a if 1", "if 1\n@a\nend"),
    ("@a if 1", "if 1 then @a else end"),
    ("@a unless 1", "unless 1\n@a\nend"),
    ("@a unless 1", "if 1\nelse\n@a\nend"),
    ("@a unless 1", "if 1 then else @a end"),
    ("unless 1\n2\nelse\n3\nend", "if 1\n3\nelse\n2\nend"),
    ("if 1\n2\nelsif 3\n4\nelse\n5\nend", "if 1\n2\nelse\nif 3\n4\nelse\n5\nend\nend"),
    ("if 1\n2\nelsif 3\n4\nelsif 5\n6\nend", "if 1\n2\nelse\nif 3\n4\nelse\nif 5\n6\nend\nend\nend"),
    ("1 ? 2 : 3", "if 1\n2\nelse\n3\nend"),
    ("1 ? 2 : 3 ? 4 : 5", "1 ? 2 : (3 ? 4 : 5)"),
    ("1 ? 2 ? 3 : 4 : 5", "1 ? (2 ? 3 : 4) : 5"),
    ("1 ? 2 ? 3 ? 4 : 5 : 6 : 7", "1 ? (2 ? (3 ? 4 : 5) : 6) : 7"),
    ("@a ? @b : @c", "if @a then @b else @c end"),
    ("@a ? :b : :c", "if @a then :b else :c end"),
    ("@a ?1:2", "if @a then 1 else 2 end"),
    ("@a ? 1: 2", "if @a then 1 else 2 end"),
    ("@a ? 1 :2", "if @a then 1 else 2 end"),
    ("@a ? [1] : {}", "if @a then [1] else ({}) end"),
    ("@a ? -1 : -2", "if @a then -1 else -2 end"),
    ("@a ? \"b\" : \"c\"", "if @a then \"b\" else \"c\" end"),
    ("@a ? foo(1) : bar(2)", "if @a then foo(1) else bar(2) end"),
    ("@a ? foo : bar", "if @a then foo else bar end"),
    ("@a ? A : B", "if @a then A else B end"),
    ("@a ? A::B : B::C", "if @a then A::B else B::C end"),
    ("@a ? (1) : (2)", "if @a then 1 else 2 end"),
    ("@a ? return : 2", "if @a then return else 2 end"),
    ("@a ? return :\n2", "if @a then return else 2 end"),
    ("@a ? return : :b", "if @a then return else :b end"),
    ("@a ? 1 : return", "if @a then 1 else return end"),
    ("while 1 do @a ? break : next end", "while 1 do if @a then break else next end end"),
    ("while 1 do @a ? next : @b ? break : 1 end", "while 1 do if @a then next else if @b then break else 1 end end end"),
    ("while 1 do @a ? redo : 1 end", "while 1 do if @a then redo else 1 end end"),
    ("[@a || return, 1]", "[(@a || return), 1]"),
    ("foo(@a && return, 1)", "foo((@a && return), 1)"),
    ("foo @a || return, 1", "foo (@a || return), 1"),
    ("foo(b: @a || return, c: 1)", "foo(b: (@a || return), c: 1)"),
    ("{b: @a || return, c: 1}", "{b: (@a || return), c: 1}"),
    ("@a = @b || return, 1", "@a = (@b || return), 1"),
    ("while 1 do foo @a || break, @b && next end", "while 1 do foo (@a || break), (@b && next) end"),
    ("@a ? x = 1 : y = 2", "if @a then x = 1 else y = 2 end"),
    ("@a = 1 ? 2 : 3", "@a = (if 1 then 2 else 3 end)"),
    ("foo 1 ? 2 : 3", "foo((1 ? 2 : 3))"),
    ("foo 1 ? 2 : 3, 4", "foo((1 ? 2 : 3), 4)"),
    ("@a == 1 ? 2 : 3", "(@a == 1) ? 2 : 3"),
    ("1..2 ? 3 : 4", "(1..2) ? 3 : 4"),
    ("@a || 1 ? 2 : 3", "(@a || 1) ? 2 : 3"),
    ("@a.b? ? 1 : 2", "(@a.b?) ? 1 : 2"),
    ("@a.b ? 1 : 2", "(@a.b) ? 1 : 2"),
    ("foo? ? 1 : 2", "(foo?) ? 1 : 2"),
    ("@a[1] ? 1 : 2", "(@a[1]) ? 1 : 2"),
    ("nil ? 1 : 2", "if nil then 1 else 2 end"),
    ("1 if 2 if 3", "(1 if 2) if 3"),
    ("1 if 2 unless 3", "(1 if 2) unless 3"),
    ("1 while 2 until 3", "(1 while 2) until 3"),
    ("1 if 2 while 3", "(1 if 2) while 3"),
    ("1 rescue 2 rescue 3", "(1 rescue 2) rescue 3"),
    ("1 rescue 2 if 3", "(1 rescue 2) if 3"),
    ("1 if 2 rescue 3", "(1 if 2) rescue 3"),
    ("1 and 2 if 3", "(1 and 2) if 3"),
    ("1 if 2 and 3", "1 if (2 and 3)"),
    ("1 if 2 or 3 unless 4 and 5", "(1 if (2 or 3)) unless (4 and 5)"),
    ("1 or 2 while 3", "(1 or 2) while 3"),
    ("foo 1 if 2", "(foo(1)) if 2"),
    ("foo 1, 2 unless 3", "(foo(1, 2)) unless 3"),
    ("@a = 1 if 2", "(@a = 1) if 2"),
    ("@a = foo 1 if 2", "(@a = foo(1)) if 2"),
    ("@a, @b = 1, 2 if 3", "(@a, @b = 1, 2) if 3"),
    ("@a += 1 while 2", "(@a += 1) while 2"),
    ("@a ||= 1 unless 2", "(@a ||= 1) unless 2"),
    ("foo do 1 end if 2", "(foo { 1 }) if 2"),
    ("foo 1 if foo 2", "(foo(1)) if (foo(2))"),
    ("1 if 2 ? 3 : 4", "1 if (2 ? 3 : 4)"),
    ("1 if @a = 2", "1 if (@a = 2)"),
    ("return 1 if 2", "(return 1) if 2"),
    ("return 1, 2 if 3", "(return [1, 2]) if 3"),
    ("return if 2", "(return) if 2"),
    ("return unless 2", "(return) unless 2"),
    ("return while 2", "(return) while 2"),
    ("return foo 1 if 2", "(return foo(1)) if 2"),
    ("return 1 ? 2 : 3", "return (1 ? 2 : 3)"),
    ("return 1 || 2", "return (1 || 2)"),
    ("return 1 and 2", "(return 1) and 2"),
    ("return and 2", "(return) and 2"),
    ("1 and return", "1 and (return)"),
    ("1 or return 2", "1 or (return 2)"),
    ("@a || return", "@a || (return)"),
    ("return [1, 2]", "return([1, 2])"),
    ("return *@a", "return([*@a])"),
    ("return 1, *@a", "return([1, *@a])"),
    ("return -1", "return(-1)"),
    ("return !1", "return(!1)"),
    ("return :a", "return(:a)"),
    ("return {}.a", "return(({}).a)"),
    ("return nil", "return(nil)"),
    ("return (1).b", "return((1).b)"),
    ("return (1) + 2", "return((1) + 2)"),
    ("foo { next 1, 2 }", "foo { next [1, 2] }"),
    ("foo { break 1, 2 if 3 }", "foo { (break [1, 2]) if 3 }"),
    ("foo { next if 1 }", "foo { (next) if 1 }"),
    ("foo { next }", "foo do next end"),
    ("foo { 1; next; 2 }", "foo do\n1\nnext\n2\nend"),
    ("foo { next *@a }", "foo { next [*@a] }"),
    ("while 1; break; end", "while 1 do\nbreak\nend"),
    ("while 1; break 2; end", "while 1 do break(2) end"),
    ("begin; 1; end while 2", "begin\n1\nend while 2"),
    ("begin; 1; end until 2", "begin 1 end until 2"),
    ("begin; 1; 2; end while 3 if 4", "(begin; 1; 2; end while 3) if 4"),
    ("begin @a end", "(@a)"),
    ("begin; 1; 2; end", "(1; 2)"),
    ("begin end", "()"),
    ("begin\nend", "()"),
    ("begin; 1; end.foo", "(1).foo"),
    ("begin; 1; end + 2", "(1) + 2"),
    ("begin; 1; end if 2", "1 if 2"),
    ("if 1 then 2 end.foo", "(if 1 then 2 end).foo"),
    ("if 1 then 2 end + 3", "(if 1 then 2 end) + 3"),
    ("case 1 when 2 then 3 end.foo(4)", "(case 1 when 2 then 3 end).foo(4)"),
    ("while 1 do 2 end.foo", "(while 1 do 2 end).foo"),
    ("begin; 1; rescue; 2; end.foo", "(begin; 1; rescue; 2; end).foo"),
    ("if 1 then 2 end\n.foo", "(if 1 then 2 end).foo"),
    ("x = if 1 then 2 else 3 end", "x = (if 1 then 2 else 3 end)"),
    ("x = case 1\nwhen 2 then 3\nend", "x = (case 1\nwhen 2 then 3\nend)"),
    ("x = begin\n1\nrescue\n2\nend", "x = (begin\n1\nrescue\n2\nend)"),
    ("x = while 1 do 2 end", "x = (while 1 do 2 end)"),
    ("foo(if 1 then 2 end)", "foo((if 1 then 2 end))"),
    ("[if 1 then 2 end, 3]", "[(if 1 then 2 end), 3]"),
    ("if 1 then 2 end; 3", "(if 1 then 2 end)\n3"),
    ("if if 1 then 2 end then 3 end", "if (if 1 then 2 end) then 3 end"),
    ("if begin 1 end then 3 end", "if 1 then 3 end"),
    ("while if 1 then 2 end do 3 end", "while (if 1 then 2 end) do 3 end"),
    ("case if 1 then 2 end when 3 then 4 end", "case (if 1 then 2 end) when 3 then 4 end"),
    ("if 1 and 2 then 3 end", "if (1 and 2) then 3 end"),
    ("if 1 or 2\n3 end", "if (1 or 2)\n3 end"),
    ("if foo 1 then 3 end", "if foo(1) then 3 end"),
    ("if foo 1\n3 end", "if foo(1)\n3 end"),
    ("while foo 1 do 2 end", "while foo(1) do 2 end"),
    ("while @a.foo 1 do 2 end", "while @a.foo(1) do 2 end"),
    ("until foo do 2 end", "until (foo) do 2 end"),
    ("for i in foo do 2 end", "for i in (foo) do 2 end"),
    ("for i in 1..2 do 2 end", "for i in (1..2) do 2 end"),
    ("for i in [1, 2] do 2 end", "for i in [1, 2]\n2\nend"),
    ("for i in foo 1 do 2 end", "for i in foo(1) do 2 end"),
    ("for i, j in @a do i end", "for i, j in @a\ni\nend"),
    ("if 1 then @a = 2 end", "if 1\n@a = 2\nend"),
    ("if @a = 1 then 2 end", "if (@a = 1) then 2 end"),
    ("while @a += 1 do 2 end", "while (@a += 1) do 2 end"),
    ("case @a = 1 when 2 then 3 end", "case (@a = 1) when 2 then 3 end"),
    ("case 1 when 2, 3 then 4 end", "case 1\nwhen 2,\n3\n4\nend"),
    ("case 1 when *@a, 3 then 4 end", "case 1\nwhen *@a, 3; 4; end"),
    ("case foo 1\nwhen 2 then 3 end", "case foo(1)\nwhen 2 then 3 end"),
    ("case\nwhen 1 then 2\nend", "case; when 1; 2; end"),
    ("case 1\nwhen foo then 2\nend", "case 1\nwhen (foo) then 2\nend"),
    ("case 1\nwhen 2 ? 3 : 4 then 5\nend", "case 1\nwhen (2 ? 3 : 4)\n5\nend"),
    ("case 1\nwhen -> { 2 } then 5\nend", "case 1\nwhen (-> { 2 }) then 5\nend"),
    ("case 1\nwhen /a/ then 5\nend", "case 1\nwhen (/a/) then 5\nend"),
    ("case 1\nwhen String, Integer then 5\nend", "case 1\nwhen (String), (Integer) then 5\nend"),
    ("begin\n1\nrescue then 2\nend", "begin\n1\nrescue\n2\nend"),
    ("begin\n1\nrescue; 2\nend", "begin\n1\nrescue\n2\nend"),
    ("begin\n1\nrescue => e then 2\nend", "begin\n1\nrescue => e\n2\nend"),
    ("begin\n1\nrescue E then 2\nend", "begin\n1\nrescue E\n2\nend"),
    ("begin\n1\nrescue E=>e; 2\nend", "begin\n1\nrescue E => e\n2\nend"),
    ("begin\n1\nrescue A, B => @e\n2\nend", "begin; 1; rescue A, B => @e; 2; end"),
    ("begin\n1\nrescue A::B => e\n2\nend", "begin; 1; rescue A::B => e then 2; end"),
    ("begin\n1\nrescue *@a => e\n2\nend", "begin; 1; rescue *@a => e; 2; end"),
    ("begin\n1\nrescue @a || @b => e\n2\nend", "begin; 1; rescue (@a || @b) => e; 2; end"),
    ("begin\n1\nrescue foo(1) => e\n2\nend", "begin; 1; rescue (foo(1)) => e; 2; end"),
    ("begin\n1 rescue 2\nrescue\n3\nend", "begin\n(1 rescue 2)\nrescue\n3\nend"),
    ("begin\n1\nrescue\n2 rescue 3\nend", "begin\n1\nrescue\n(2 rescue 3)\nend"),
    ("begin\nbegin\n1\nrescue\n2\nend\nrescue\n3\nend", "begin\n(begin\n1\nrescue\n2\nend)\nrescue\n3\nend"),
    ("begin\n1\nensure\nbegin\n2\nensure\n3\nend\nend", "begin\n1\nensure\n(begin\n2\nensure\n3\nend)\nend"),
    ("1 rescue 2", "begin\n1\nrescue\n2\nend"),
    ("foo 1 rescue 2", "begin\nfoo(1)\nrescue\n2\nend"),
    ("(1; 2)", "(1\n2)"),
    ("(1;)", "(1)"),
    ("(\n1\n)", "(1)"),
];

fn c19_forms(c: &mut Case) {
    let n = CONTROL_FORMS.len();
    let (a, b) = CONTROL_FORMS[(c.idx as usize) % n];
    let (a, b) = if (c.idx as usize) < n { (a.to_string(), b.to_string()) } else { wrapped(c, a, b) };
    c.hit("same");
    expect_same(c, &b, &a, "the same control structure");
}

const BAD_CONTROL: &[&str] = &[
    "if 1 2 end", "if 1 else 2 end", "if then 1 end", "if 1 then 2 else 3 else 4 end", "if 1 then 2 else 3 elsif 4 then 5 end", "if 1 then 2 elsif then 3 end", "if 1 then 2 elsif 3 4 end",
    "if 1 then 2 } ", "(if 1 then 2)", "[if 1 then 2]", "if 1 then 2 end end", "if 1 do 2 end", "if 1 then then 2 end", "unless 1 2 end", "unless 1 then 2 elsif 3 then 4 end",
    "unless 1 then 2 else 3 else 4 end", "unless then end", "while 1 2 end", "while do 1 end", "while 1 then 2 end", "while 1 do 2 else 3 end", "while 1 do 2 end end", "until do 1 end",
    "until 1 then 2 end", "for 1 in 2 do end", "for i do end", "for i in do end", "for in 1 do end", "for i of 1 do end", "for i, in do end", "for i in 1 then 2 end", "for if in 1 do end",
    "for \"a\" in 1 do end", "for i in 1 2 end", "case 1 when then 2 end", "case 1 when 2 3 end", "case 1 when 2 then 3 else 4 else 5 end", "case 1 when 2 then 3 else 4 when 5 then 6 end",
    "case 1 2 when 3 then 4 end", "case 1 when 2, then 3 end", "case when then 2 end", "case 1\n2\nwhen 3 then 4 end", "case 1 then 2 end", "case 1 when 2 do 3 end",
    "begin 1 rescue 2 else 3 else 4 end", "begin; 1; ensure; 2; rescue; 3; end", "begin; 1; ensure; 2; else; 3; end", "begin; 1; ensure; 2; ensure; 3; end", "begin; 1; rescue; 2; else; 3; rescue; 4; end",
    "begin; 1; rescue; 2; ensure; 3; else; 4; end", "begin; 1; rescue E =>; 2; end", "begin; 1; rescue => 1; 2; end", "begin; 1; rescue E => \"a\"; 2; end", "begin; 1; rescue E, ; 2; end",
    "begin; 1; rescue E => e f; 2; end", "begin; 1; rescue => e, f; 2; end", "begin; 1; rescue => nil; 2; end", "begin; 1; rescue => foo(1); 2; end", "begin; 1; rescue => self; 2; end",
    "begin; 1; rescue E => e do 2 end", "begin; 1 }", "(begin; 1)", "begin 1 end end", "begin then 1 end", "begin do 1 end",
    "1 if", "1 unless", "1 while", "1 until", "1 rescue", "1 if if", "1 if then 2", "1 if 2 then 3", "1 if 2 3", "if", "unless", "while", "(1 if 2 else 3)", "(1 unless 2 else 3)", "1 ensure 2",
    "1 else 2", "1 elsif 2", "1 when 2", "1 then 2", "1 do 2 end", "1 end", "end", "else", "elsif 1", "when 1", "then", "do", "ensure", "rescue", "in", "1 in", "} 1", ") 1", "] 1",
    "1 ? 2", "1 ? 2 :", "1 ? : 2", "1 ? 2 3", "1 ? 2 : 3 : 4", "1 : 2", "1 ? 2, 3 : 4", "? 1 : 2", "1 ? (2 : 3)", "1 ? 2 : 3 ? 4",
    "redo 1", "return 1 2", "return ,", "return 1,", "break 1 2", "next 1,", "return *", "return )", "return = 1", "return + ", "next = 1", "break += 1", "redo = 1", "redo.foo 1 2",
    "foo { break 1 2 }", "foo { next , }", "while 1 do break 2, end", "if 1 then break 2 3 end",
    "(1 2)", "(1, 2)", "(1;", "(;", "(", "(1 if)", "(1; 2", "1)", "((1)", "(1))", "(1]", "(1}", "(1 end)",
];

pub fn c19_reject(c: &mut Case) {
    let x = BAD_CONTROL[(c.idx as usize) % BAD_CONTROL.len()];
    let src = if (c.idx as usize) < BAD_CONTROL.len() {
        x.to_string()
    } else {
        let (a, b) = *c.rng.pick(STMT_AT);
        // What is missing might be supplied by what follows.
        let words: Vec<&str> = x.split(|c: char| !c.is_alphanumeric()).collect();
        let open = x.contains("(") != x.contains(")")
            || x.contains("[") != x.contains("]")
            || x.contains("{") != x.contains("}")
            || x.matches('(').count() != x.matches(')').count()
            || words.iter().filter(|w| ["if", "unless", "while", "until", "for", "case", "begin", "do", "end", "then", "else", "elsif", "when", "ensure", "rescue", "in"].contains(w)).count() == 1
            || x.ends_with([',', ':', '*', '+', ' ', '?'])
            || x == "end"
            || x.ends_with("end end")
            || x == "1 ? 2"
            || x == "? 1 : 2"
            || x.ends_with("? 4")
            || ["1 if if"].contains(&x);
        if open && !(a.is_empty() && b.is_empty()) {
            return;
        }
        format!("{}{}{}", a, x, b)
    };
    c.hit("rejected");
    expect_reject(c, &src, "not a control structure Ruby accepts");
}

// ---- C20 ---------------------------------------------------------------------------

pub fn c20() -> Check {
    Check {
        id: "C20",
        rule: "a distinct source text with a definition whose tree was compared with the one meant, or which had to be rejected",
        modes: vec![
            Mode { name: "names", quick: 80_000, thorough: 600_000, f: c20_names },
            Mode { name: "classes", quick: 60_000, thorough: 600_000, f: c20_classes },
            Mode { name: "aliases", quick: 30_000, thorough: 200_000, f: c20_aliases },
            Mode { name: "forbidden", quick: 100_000, thorough: 1_500_000, f: c20_forbidden },
            Mode { name: "numbered", quick: 80_000, thorough: 1_000_000, f: c20_numbered },
            Mode { name: "forwarding", quick: 60_000, thorough: 600_000, f: c20_forwarding },
            Mode { name: "forms", quick: 20_000, thorough: 200_000, f: c20_forms },
            Mode { name: "reject", quick: 30_000, thorough: 300_000, f: c20_reject },
            Mode { name: "program", quick: 60_000, thorough: 1_200_000, f: c20_program },
            Mode { name: "mixture", quick: 30_000, thorough: 800_000, f: c20_mixture },
        ],
        assumptions: &[
            "`class ::A` has the base `::Object`",
            "not covered: names `^ ** ~ ! !~` and the backquote after def, def with a receiver in parentheses, endless def, numbered parameters inside `for` or in blocks with parameters",
        ],
        must: &[
            "def", "sdef", "class", "module", "sclass", "superclass", "path", "alias", "alias-gvar", "forbidden:class", "forbidden:module", "forbidden:const", "allowed", "np-ok", "np-nested", "np-assigned",
            "np-param", "fwd-ok", "fwd-bad", "same", "rejected",
        ],
    }
}

fn c20_mixture(c: &mut Case) {
    mixture(c, TREE_TABLE);
}

fn c20_program(c: &mut Case) {
    let f = Feat {
        def: 20,
        def_e: 3,
        class: 20,
        alias: 6,
        np: 12,
        block: 10,
        lambda: 6,
        cst: 6,
        stmt_assign: 8,
        stmt_massign: 4,
        stmt_opassign: 4,
        fcall: 6,
        mcall: 3,
        cmd: 3,
        control: 2,
        begin: 2,
        kwlit: 3,
        paren: 2,
        istr: 2,
        ..Feat::base()
    };
    focus(c, f, &[8, 16, 30, 50], 4, &[0, 0, 40, 100], TREE_TABLE);
}

fn info_of(body: T) -> T {
    blk(body).kids.remove(0).kids.remove(0)
}
fn info_with(params: Vec<T>, table: &str, body: T) -> T {
    let mut i = info_of(body);
    i.kids[0] = t("params", params);
    i.kids[1] = leaf(table);
    i
}

/// Names after `def`.
const DEF_OPS: &[&str] = &["+", "-", "*", "/", "%", "==", "===", "=~", "<=>", "<", "<=", ">", ">=", "<<", ">>", "!=", "&", "|", "+@", "-@", "[]", "[]="];
const DEF_KW: &[&str] = &[
    "alias", "and", "begin", "break", "case", "class", "def", "defined?", "do", "else", "elsif", "end", "ensure", "false", "for", "if", "in", "module", "next", "nil", "or", "redo", "rescue",
    "return", "self", "super", "then", "true", "unless", "until", "when", "while", "yield", "__FILE__", "__LINE__",
];
const DEF_ID: &[&str] = &[
    "a", "foo", "Foo", "x1", "_x", "été", "変数", "a?", "a!", "foo?", "Foo?", "Foo!", "nil?", "end?", "if!", "self?", "class!", "a=", "foo=", "Foo=", "été=", "end=", "nil=", "class=", "self=", "_0", "p", "q",
    "w", "I", "endx", "if_", "def_", "selfie", "E", "e1", "true?", "_", "__",
];

fn c20_name(c: &mut Case) -> (String, bool) {
    let n = match c.rng.below(4) {
        0 => *c.rng.pick(DEF_OPS),
        1 => *c.rng.pick(DEF_KW),
        _ => *c.rng.pick(DEF_ID),
    };
    (n.to_string(), !n.ends_with(|c: char| c.is_alphanumeric() || c == '_'))
}

fn c20_names(c: &mut Case) {
    let all = DEF_OPS.len() + DEF_KW.len() + DEF_ID.len();
    let i = c.idx as usize;
    let (n, symbolic) = if i < all {
        let n = DEF_OPS.iter().chain(DEF_KW).chain(DEF_ID).nth(i).unwrap();
        (n.to_string(), !n.ends_with(|c: char| c.is_alphanumeric() || c == '_'))
    } else if c.rng.p(1, 8) {
        // A name of any length.
        let k = 1 + c.rng.below(300);
        let mut x = String::new();
        for j in 0..k {
            let o: &[&str] = if j == 0 { &["a", "_", "Z", "é", "語"] } else { &["a", "_", "Z", "é", "語", "0", "9", "1"] };
            x += c.rng.s(o);
        }
        if x.len() == 2 && x.starts_with('_') {
            x.push('x');
        }
        x += c.rng.s(&["", "", "?", "!", "="]);
        if KEYWORDS.contains(&x.as_str()) {
            x.push('x');
        }
        let s = x.ends_with(['?', '!', '=']);
        (x, s)
    } else {
        c20_name(c)
    };
    let (recv, rt) = match c.rng.below(13) {
        0 => ("self", Some(leaf("self"))),
        1 => ("A", Some(leaf("const:A"))),
        2 => ("@a", Some(leaf("ivar:@a"))),
        3 => ("$a", Some(leaf("gvar:$a"))),
        4 => ("obj", Some(leaf("call:obj"))),
        5 => ("nil", Some(leaf("nil"))),
        6 => ("true", Some(leaf("true"))),
        7 => ("false", Some(leaf("false"))),
        _ => ("", None),
    };
    c.hit(if rt.is_some() { "sdef" } else { "def" });
    let name = if rt.is_some() { format!("{}{}{}", recv, c.rng.s(&[".", ".", "::"]), n) } else { n.clone() };
    let name = if recv.starts_with(|c: char| c.is_lowercase() || c == '@' || c == '$') { name.replacen("::", ".", 1) } else { name };
    // Parameters.
    let (ps, pt, table) = match c.rng.below(7) {
        0 => ("", vec![], "lv[]kw[]kr-b-f-n-"),
        1 => ("q1", vec![leaf("req:q1")], "lv[q1]kw[]kr-b-f-n-"),
        2 => ("q1, q2", vec![leaf("req:q1"), leaf("req:q2")], "lv[q1,q2]kw[]kr-b-f-n-"),
        3 => ("q1 = 5", vec![t("opt:q1", vec![int(5)])], "lv[q1]kw[]kr-b-f-n-"),
        4 => ("*q1", vec![leaf("rest:q1")], "lv[q1]kw[]kr-b-f-n-"),
        5 => ("&q1", vec![leaf("block:q1")], "lv[q1]kw[]kr-b0f-n-"),
        _ => ("NONE", vec![], "lv[]kw[]kr-b-f-n-"),
    };
    let (body, bt) = match c.rng.below(6) {
        0 => ("", nothing()),
        1 => ("1", int(1)),
        2 => ("1; 2", t("seq", vec![int(1), int(2)])),
        3 => ("1\nrescue\n2", t("begin", vec![int(1), t("rescue", vec![t("ex", vec![]), leaf("none"), int(2)]), leaf("none"), leaf("none")])),
        4 => ("def z; 3; end", t("def:z", vec![info_of(int(3))])),
        _ => ("foo do 1 end", fcall("foo", vec![blk(int(1))])),
    };
    let head = match (ps, c.rng.below(3)) {
        ("NONE", _) => format!("{}{}", name, c.rng.s(&["\n", ";", " \n", " ;", " # c\n"])),
        ("", _) => format!("{}(){}", name, c.rng.s(&["\n", ";", " ", ""])),
        (_, 0) => format!("{} {}{}", name, ps, c.rng.s(&["\n", ";"])),
        (_, 1) => format!("{}( {} ){}", name, ps, c.rng.s(&["\n", ";", " "])),
        _ => format!("{}({}){}", name, ps, c.rng.s(&["\n", ";", " "])),
    };
    // `def a=(b)` is the setter, `def a = 1` is endless: only glued forms occur.
    let _ = symbolic;
    let body = if head.ends_with(')') && !body.is_empty() { format!(" {}", body) } else { body.to_string() };
    let src = format!("def{}{}{}{}end", c.rng.s(&[" ", " ", "  ", "\n"]), head, body, c.rng.s(&["\n", "; ", " "]));
    let i = info_with(pt, table, bt);
    let e = match rt {
        Some(r) => t(format!("sdef:{}", n), vec![r, i]),
        None => t(format!("def:{}", n), vec![i]),
    };
    match c.rng.below(3) {
        0 => expect_tree(c, &src, &e),
        1 => {
            // A definition is an expression, and an argument of a command.
            let (a, b, f): (&str, &str, fn(T) -> T) = *c.rng.pick(&[
                ("private ", "", (|e| fcall("private", vec![e])) as fn(T) -> T),
                ("private(", ")", |e| fcall("private", vec![e])),
                ("@x = ", "", |e| t("asgn", vec![t("lhs", vec![leaf("ivar:@x")]), t("rhs", vec![e])])),
                ("foo 1, ", "", |e| fcall("foo", vec![int(1), e])),
                ("foo k: ", "\nself", |e| t("seq", vec![fcall("foo", vec![t("kw:k", vec![e])]), leaf("self")])),
                ("class A\n", "\nend", |e| t("class:A", vec![leaf("none"), leaf("none"), info_of(e)])),
                ("class A < B;", ";end", |e| t("class:A", vec![leaf("none"), leaf("const:B"), info_of(e)])),
                ("module A\n1\n", "\nend", |e| t("module:A", vec![leaf("none"), leaf("none"), info_of(t("seq", vec![int(1), e]))])),
                ("class << self\n", " end", |e| t("sclass", vec![leaf("self"), info_of(e)])),
                ("def y\n", "\n2\nend", |e| t("def:y", vec![info_of(t("seq", vec![e, int(2)]))])),
                ("", ".foo", |e| mcall("foo", e, vec![])),
                ("", " if 1", |e| t("if", vec![int(1), e, nothing()])),
                ("1\n", "\n2", |e| t("seq", vec![int(1), e, int(2)])),
            ]);
            expect_tree(c, &format!("{}{}{}", a, src, b), &f(e))
        }
        _ => expect_placed(c, &format!("({})", src), e),
    };
}

fn c20_classes(c: &mut Case) {
    let depth = 1 + c.rng.below(4);
    let (src, e) = class_of(c, depth);
    expect_tree(c, &src, &e);
}

fn class_of(c: &mut Case, depth: usize) -> (String, T) {
    let sp = c.rng.s(&[" ", " ", "  ", "\n"]);
    let end = c.rng.s(&["\nend", ";end", " end", "\n\nend"]);
    let term = c.rng.s(&["\n", ";", "; ", " # c\n", "\n\n"]);
    let (mut body, mut bt) = (String::new(), vec![]);
    let k = c.rng.below(3);
    for i in 0..k {
        if i > 0 {
            body += c.rng.s(&["\n", "; "]);
        }
        if depth > 0 && c.rng.coin() {
            let (a, x) = class_of(c, depth - 1);
            body += &a;
            bt.push(x);
        } else {
            let k = c.rng.below(100) as i64;
            match c.rng.below(4) {
                0 => {
                    body += &format!("A{} = {}", k, k);
                    bt.push(t("asgn", vec![t("lhs", vec![leaf(format!("const:A{}", k))]), t("rhs", vec![int(k)])]));
                }
                1 => {
                    body += &format!("def m{}\n{}\nend", k, k);
                    bt.push(t(format!("def:m{}", k), vec![info_of(int(k))]));
                }
                2 => {
                    body += &format!("foo :a{}, {}", k, k);
                    bt.push(fcall("foo", vec![s(&format!("a{}", k)), int(k)]));
                }
                _ => {
                    body += &format!("{}", k);
                    bt.push(int(k));
                }
            }
        }
    }
    let mut bt = if bt.len() == 1 { bt.pop().unwrap() } else { t("seq", bt) };
    if c.rng.p(1, 8) {
        body += "\nrescue E => @e\n1\nensure\n2";
        bt = t("begin", vec![bt, t("rescue", vec![t("ex", vec![leaf("const:E")]), leaf("ivar:@e"), int(1)]), leaf("none"), int(2)]);
    }
    match c.rng.below(5) {
        0 => {
            c.hit("sclass");
            let (a, x) = match c.rng.below(10) {
                6 => ("a and b", bin("&&", leaf("call:a"), leaf("call:b"))),
                7 => ("a or !b", bin("||", leaf("call:a"), t("un:!", vec![leaf("call:b")]))),
                8 => ("a ? self : B", t("if", vec![leaf("call:a"), leaf("self"), leaf("const:B")])),
                0 => ("self", leaf("self")),
                1 => ("A", leaf("const:A")),
                2 => ("A::B", leaf("const:A::B")),
                3 => ("@a", leaf("ivar:@a")),
                4 => ("foo", leaf("call:foo")),
                5 => ("foo(1)", fcall("foo", vec![int(1)])),
                _ => ("@a.b", mcall("b", leaf("ivar:@a"), vec![])),
            };
            (format!("class{}<<{}{}{}{}{}", c.rng.s(&[" ", "  ", ""]), c.rng.s(&[" ", "", "  "]), a, term, body, end), t("sclass", vec![x, info_of(bt)]))
        }
        k => {
            let m = k == 1;
            c.hit(if m { "module" } else { "class" });
            let n = c.rng.s(&["A", "Foo", "B1", "C_d", "E", "F_", "END_", "Endx", "Self"]).to_string();
            let (p, base) = match c.rng.below(16) {
                4 => ("a.b::", mcall("b", leaf("call:a"), vec![])),
                5 => ("self::", leaf("self")),
                6 => ("@a::", leaf("ivar:@a")),
                7 => ("(foo)::", leaf("call:foo")),
                8 => ("foo::", leaf("call:foo")),
                9 => ("$g::B::", t("const:B", vec![leaf("gvar:$g")])),
                10 => ("foo(1)::", fcall("foo", vec![int(1)])),
                0 => ("A::", leaf("const:A")),
                1 => ("A::B::", leaf("const:A::B")),
                2 => ("::", leaf("const:::Object")),
                3 => ("::A::", leaf("const:::A")),
                _ => ("", leaf("none")),
            };
            if !p.is_empty() {
                c.hit("path");
            }
            let (sup, st_) = if m || c.rng.coin() {
                ("".to_string(), leaf("none"))
            } else {
                c.hit("superclass");
                let (a, x) = match c.rng.below(14) {
                    10 => ("a and b", bin("&&", leaf("call:a"), leaf("call:b"))),
                    11 => ("A or b", bin("||", leaf("const:A"), leaf("call:b"))),
                    12 => ("a ? C : B", t("if", vec![leaf("call:a"), leaf("const:C"), leaf("const:B")])),
                    0 => ("B", leaf("const:B")),
                    1 => ("A::B", leaf("const:A::B")),
                    2 => ("::B", leaf("const:::B")),
                    3 => ("Struct.new(:a, :b)", mcall("new", leaf("const:Struct"), vec![s("a"), s("b")])),
                    4 => ("foo(1)", fcall("foo", vec![int(1)])),
                    5 => ("@a", leaf("ivar:@a")),
                    6 => ("foo", leaf("call:foo")),
                    7 => ("A::B[1]", t("index", vec![leaf("const:A::B"), int(1)])),
                    8 => ("(1 ? B : C)", t("if", vec![int(1), leaf("const:B"), leaf("const:C")])),
                    9 => ("Struct.new(:a) { 1 }", mcall("new", leaf("const:Struct"), vec![s("a"), blk(int(1))])),
                    _ => ("Class.new(B) do 1 end", mcall("new", leaf("const:Class"), vec![leaf("const:B"), blk(int(1))])),
                };
                (format!("{}{}", c.rng.s(&[" < ", "<", " <", " <\n"]), a), x)
            };
            (
                format!("{}{}{}{}{}{}{}{}", if m { "module" } else { "class" }, sp, p, n, sup, term, body, end),
                t(format!("{}:{}", if m { "module" } else { "class" }, n), vec![base, st_, info_of(bt)]),
            )
        }
    }
}

pub fn c20_aliases(c: &mut Case) {
    if c.rng.p(1, 6) {
        c.hit("alias-gvar");
        let (a, b) = (c.rng.s(&["$a", "$new", "$X", "$_a"]), c.rng.s(&["$b", "$old", "$Y1"]));
        let src = format!("alias {} {}", a, b);
        let e = t("alias", vec![s(a), s(b)]);
        anywhere(c, &src, e);
        return;
    }
    c.hit("alias");
    let mut n = || {
        let x = match c.rng.below(4) {
            0 => c.rng.s(&["+", "-", "*", "/", "%", "**", "==", "===", "=~", "<=>", "<", "<=", ">", ">=", "<<", ">>", "!=", "!", "~", "^", "&", "|", "+@", "-@", "[]", "[]="]),
            1 => *c.rng.pick(DEF_KW),
            _ => *c.rng.pick(DEF_ID),
        };
        let sym = c.rng.p(1, 3);
        (x.to_string(), sym)
    };
    let ((a, x), (b, y)) = (n(), n());
    let w = |a: &str, x: bool| if x { format!(":{}", a) } else { a.to_string() };
    let src = format!("alias{}{}{}{}", c.rng.s(&[" ", "  "]), w(&a, x), c.rng.s(&[" ", "  ", "\t"]), w(&b, y));
    let e = t("alias", vec![s(&a), s(&b)]);
    // Operators at the end run into what follows.
    let (pre, post, f): (&str, &str, fn(T) -> T) = *c.rng.pick(&[
        ("", "", (|e| e) as fn(T) -> T),
        ("", "\n", |e| e),
        ("self\n", "\nself", |e| t("seq", vec![leaf("self"), e, leaf("self")])),
        ("self;", " ; self", |e| t("seq", vec![leaf("self"), e, leaf("self")])),
        ("class A\n", "\nend", |e| t("class:A", vec![leaf("none"), leaf("none"), info_of(e)])),
        ("class << self; ", " ;end", |e| t("sclass", vec![leaf("self"), info_of(e)])),
        ("def m\n", "\nend", |e| t("def:m", vec![info_of(e)])),
        ("foo { ", " }", |e| fcall("foo", vec![blk(e)])),
        ("if 1 then ", "\nend", |e| t("if", vec![int(1), e, nothing()])),
        ("", " if 1", |e| t("if", vec![int(1), e, nothing()])),
    ]);
    expect_tree(c, &format!("{}{}{}", pre, src, post), &f(e));
}

/// Text around something, which adds no definition.
const AROUND: &[(&str, &str)] = &[
    ("foo { ", " }"),
    ("foo do\n", "\nend"),
    ("foo 1 do |q|\n", "\nend"),
    ("-> { ", " }"),
    ("->(q) do\n", "\nend"),
    ("if 1 then ", "\nend"),
    ("if 1\n2\nelse\n", "\nend"),
    ("unless 1\n", "\nend"),
    ("while 1 do ", "\nend"),
    ("for i in 1 do ", "\nend"),
    ("for i, j in 1\n", "\nend"),
    ("for i in (", ") do end"),
    ("until 1\n", "\nend"),
    ("while (", ") do end"),
    ("case 1\nwhen 2 then ", "\nend"),
    ("case 1\nwhen (", ") then 3\nend"),
    ("case (", ") when 1 then 2 end"),
    ("case 1\nwhen 2 then 3\nelse\n", "\nend"),
    ("begin\n", "\nend"),
    ("begin\n1\nrescue\n2\nelse\n", "\nend"),
    ("begin\n", "\nrescue\n1\nend"),
    ("begin\n1\nrescue\n", "\nend"),
    ("begin\n1\nensure\n", "\nend"),
    ("(", ")"),
    ("[(", ")]"),
    ("foo((", "))"),
    ("@a = (", ")"),
    ("{k: (", ")}.m"),
    ("foo(k: (", "))"),
    ("\"#{", "}\""),
    ("`#{", "}`"),
    ("/#{", "}/"),
    (":\"#{", "}\""),
    ("1 ? (", ") : 2"),
    ("1 and (", ")"),
    ("!(", ")"),
    ("1; ", ""),
    ("", "; 1"),
    ("", "\n1"),
    ("x = 1\n", "\nx"),
    ("return (", ")"),
    ("(", ") if 1"),
    ("1 if (", ")"),
    ("<<A\n#{", "}\nA\n"),
    ("foo(<<A, 1)\n#{", "}\nA\n"),
    ("->(q = (", ")) { }"),
    ("foo { |q = (", ")| }"),
];

/// What a method may not have.
const FORBIDDEN: &[(&str, &str)] = &[
    ("class", "class X; end"),
    ("class", "class X < Y\n1\nend"),
    ("class", "class X::Y; end"),
    ("class", "class ::X; end"),
    ("class", "q = class X; 1; end"),
    ("module", "module X; end"),
    ("module", "module X::Y; 1; end"),
    ("const", "X = 1"),
    ("const", "X = foo 1"),
    ("const", "X::Y = 1"),
    ("const", "::X = 1"),
    ("const", "self::X = 1"),
    ("const", "X ||= 1"),
    ("const", "X += 1"),
    ("const", "X::Y &&= 1"),
    ("const", "X, y = 1, 2"),
    ("const", "y, X = 1, 2"),
    ("const", "y, *X = 1, 2"),
    ("const", "y = X = 1"),
    ("const", "begin; 1; rescue => X; 2; end"),
    ("const", "foo(X = 1)"),
    ("const", "[X = 1]"),
    ("const", "X = Y = 1"),
    ("const", "1 && X = 1"),
    ("const", "y = 1; X = y"),
];

fn around(c: &mut Case, x: String, n: usize) -> String {
    let mut x = x;
    for _ in 0..n {
        let (a, b) = *c.rng.pick(AROUND);
        // A here-document needs its own lines.
        if (x.contains("<<A\n") || x.contains("<<A, ")) && a.contains("<<A") {
            continue;
        }
        if (x.contains("<<A\n") || x.contains("<<A, ")) && !(b.starts_with('\n') || b.is_empty()) {
            x = format!("{}{}\n{}", a, x, b);
            continue;
        }
        x = format!("{}{}{}", a, x, b);
    }
    x
}

const METHODS_AROUND: &[(&str, &str)] = &[
    ("def m\n", "\nend"),
    ("def m; ", "; end"),
    ("def m(q)\n", "\nend"),
    ("def m q\n", "\nend"),
    ("def self.m\n", "\nend"),
    ("def A.m(); ", "\nend"),
    ("def +(q)\n", "\nend"),
    ("def m=(q)\n", "\nend"),
    ("def m\n1\nrescue\n", "\nend"),
    ("def m\n1\nensure\n", "\nend"),
    ("def m\n1\nrescue\n2\nelse\n", "\nend"),
    ("def m(q = (", ")); end"),
    ("def m(q: (", ")); end"),
    ("def m\ndef n\n1\nend\n", "\nend"),
    ("def m\nclass << self\n1\nend\n", "\nend"),
    ("class << self\ndef m\n", "\nend\nend"),
    ("class A\ndef m\n", "\nend\nend"),
    ("def n\ndef m\n", "\nend\nend"),
    ("def n\nclass << self\ndef m\n", "\nend\nend\nend"),
    ("private def m\n", "\nend"),
    ("foo { def m\n", "\nend }"),
];
/// Definitions within which a class is fine again.
const NOT_METHODS: &[(&str, &str)] = &[
    ("", ""),
    ("class A\n", "\nend"),
    ("class A < B\n1\n", "\nend"),
    ("module A\n", "\nend"),
    ("class << self\n", "\nend"),
    ("class A\nclass << self\n", "\nend\nend"),
    ("def n\n1\nend\n", ""),
    ("def n; end; ", "; def o; end"),
    ("def n\nclass << self\n", "\nend\nend"),
    ("class A\ndef n\n1\nend\n", "\nend"),
    ("class A\nmodule B\n", "\nend\nend"),
    ("foo { def n; end; ", " }"),
    ("-> { class A\n", "\nend }"),
];

fn c20_forbidden(c: &mut Case) {
    let (what, x) = *c.rng.pick(FORBIDDEN);
    let inner = *c.rng.pick(&[0, 0, 1, 1, 2, 3, 3, 6, 12]);
    let x = around(c, x.to_string(), inner);
    let good = c.rng.p(2, 5);
    let (a, b) = if good { *c.rng.pick(NOT_METHODS) } else { *c.rng.pick(METHODS_AROUND) };
    let here = x.contains("<<A\n") || x.contains("<<A, ");
    if here && !(b.starts_with('\n') || b.is_empty()) {
        return;
    }
    let x = format!("{}{}{}", a, x, b);
    let outer = c.rng.below(3);
    // What is outside a method does not matter, unless it is one.
    let src = if here { x } else { around(c, x, outer) };
    if good {
        c.hit("allowed");
        expect_accept(c, &src);
    } else {
        c.hit(format!("forbidden:{}", what));
        expect_reject(c, &src, "a class, module or constant in a method");
    }
}

/// Nested blocks which use numbered parameters at some levels.
fn c20_numbered(c: &mut Case) {
    match c.rng.below(4) {
        0 => {
            c.hit("np-assigned");
            let n = 1 + c.rng.below(9);
            let x = c.rng.s(&[
                "_N = 1", "_N += 1", "_N ||= 1", "_N, a = 1, 2", "a, _N = 1, 2", "a, *_N = 1, 2", "a = _N = 1", "begin; 1; rescue => _N; end", "for _N in 1 do end", "for a, _N in 1 do end", "(_N = 1)", "foo(_N = 1)",
            ]);
            let x = x.replace("_N", &format!("_{}", n));
            let k = c.rng.below(3);
            let src = around(c, x, k);
            expect_reject(c, &src, "a numbered parameter assigned");
        }
        1 => {
            c.hit("np-param");
            let n = 1 + c.rng.below(9);
            let p = c.rng.s(&["_N", "a, _N", "_N, a", "_N = 1", "*_N", "&_N", "_N: 1", "_N:", "**_N", "(a, _N)", "a, (_N, b)", "a, *_N, b", "*a, _N"]);
            let p = p.replace("_N", &format!("_{}", n));
            let mlhs = p.contains('(');
            let (a, b) = *c.rng.pick(&[("foo { |", "| 1 }"), ("foo do |", "|\n1\nend"), ("->(", ") { 1 }"), ("def m(", "); end"), ("def m ", "\nend"), ("-> ", " { 1 }")]);
            if mlhs && !a.ends_with('|') {
                return;
            }
            if a == "def m " && p.ends_with(':') {
                return;
            }
            let k = c.rng.below(3);
            let src = around(c, format!("{}{}{}", a, p, b), k);
            expect_reject(c, &src, "a numbered parameter as the name of a parameter");
        }
        _ => {
            // A tree of blocks, each using one or not; wrong iff two of them are nested.
            let fuel = 1 + c.rng.below(8) as i32;
            let mut n = N { c, fuel, bad: false, used: 0, plain: true };
            let (src, e, _) = n.block(0, false);
            let (bad, plain, c) = (n.bad, n.plain, n.c);
            if bad {
                c.hit("np-nested");
                expect_reject(c, &src, "numbered parameters in nested blocks");
            } else if !plain {
                c.hit("np-ok");
                expect_accept(c, &src);
            } else {
                c.hit("np-ok");
                expect_tree(c, &src, &e);
            }
        }
    }
}

struct N<'a, 'b> {
    c: &'a mut Case<'b>,
    fuel: i32,
    bad: bool,
    used: usize,
    /// The tree which was built is the one of the text.
    plain: bool,
}
impl<'a, 'b> N<'a, 'b> {
    /// A call with a block; the last value tells whether a numbered parameter
    /// is used in it or deeper.
    fn block(&mut self, depth: usize, outer: bool) -> (String, T, bool) {
        self.fuel -= 1;
        let kind = self.c.rng.below(6);
        let uses = kind != 5 && self.c.rng.coin();
        let mut o = vec![];
        let mut v = vec![];
        let n = 1 + self.c.rng.below(3);
        let at = self.c.rng.below(n + 1);
        let mut deep = false;
        for i in 0..=n {
            if uses && i == at {
                if outer {
                    self.bad = true;
                }
                self.used += 1;
                let p = format!("_{}", 1 + self.c.rng.below(9));
                let l = leaf(format!("call:{}", p));
                match self.c.rng.below(6) {
                    0 => {
                        o.push(format!("foo({})", p));
                        v.push(fcall("foo", vec![l]));
                    }
                    1 => {
                        o.push(format!("\"a#{{{}}}\"", p));
                        v.push(t("istr", vec![st("a"), l]));
                    }
                    2 => {
                        o.push(format!("{}.foo 1", p));
                        v.push(mcall("foo", l, vec![int(1)]));
                    }
                    3 => {
                        o.push(format!("[1, {} + 1]", p));
                        v.push(t("array", vec![int(1), bin("+", l, int(1))]));
                    }
                    4 => {
                        o.push(format!("@a if {}", p));
                        v.push(t("if", vec![l, leaf("ivar:@a"), nothing()]));
                    }
                    _ => {
                        o.push(p);
                        v.push(l);
                    }
                }
            }
            if i < n {
                if self.fuel > 0 && depth < 5 && self.c.rng.p(2, 3) {
                    let (mut a, x, d) = self.block(depth + 1, outer || uses);
                    deep |= d;
                    if self.c.rng.p(1, 4) {
                        // Within something which is no block, or a block which uses none.
                        self.plain = false;
                        for _ in 0..1 + self.c.rng.below(2) {
                            let (p, q) = *self.c.rng.pick(AROUND);
                            if !p.contains("<<A") {
                                a = format!("{}{}{}", p, a, q);
                            }
                        }
                    }
                    o.push(a);
                    v.push(x);
                } else if self.c.rng.p(1, 5) && self.fuel > 0 && depth < 5 {
                    // A method or singleton class starts afresh.
                    let (a, x, _) = self.block(depth + 1, false);
                    if self.c.rng.coin() {
                        o.push(format!("def m\n{}\nend", a));
                        v.push(t("def:m", vec![info_of(x)]));
                    } else {
                        o.push(format!("class << self\n{}\nend", a));
                        v.push(t("sclass", vec![leaf("self"), info_of(x)]));
                    }
                } else {
                    let k = self.c.rng.below(50) as i64;
                    o.push(format!("{}", k));
                    v.push(int(k));
                }
            }
        }
        let body = if v.len() == 1 { v.pop().unwrap() } else { t("seq", v) };
        let mut i = info_of(body);
        if uses {
            i.kids[1] = leaf("lv[]kw[]kr-b-f-n1");
        }
        let txt = o.join(self.c.rng.s(&["; ", "\n"]));
        let (a, e) = match kind {
            0 => (format!("foo do\n{}\nend", txt), fcall("foo", vec![t("blk", vec![t("lambda", vec![i])])])),
            1 => (format!("-> {{ {} }}", txt), t("lambda", vec![i])),
            2 => (format!("-> do\n{}\nend", txt), t("lambda", vec![i])),
            3 => (format!("@a.foo(1) {{\n{} }}", txt), mcall("foo", leaf("ivar:@a"), vec![int(1), t("blk", vec![t("lambda", vec![i])])])),
            5 => {
                // With parameters of its own.
                i.kids[0] = t("params", vec![leaf("req:q")]);
                i.kids[1] = leaf("lv[q]kw[]kr-b-f-n-");
                (format!("foo {{ |q| {} }}", txt), fcall("foo", vec![t("blk", vec![t("lambda", vec![i])])]))
            }
            _ => (format!("foo {{ {} }}", txt), fcall("foo", vec![t("blk", vec![t("lambda", vec![i])])])),
        };
        // Numbered parameters deeper make one here wrong as well: that is
        // found where the deeper one is generated, as `outer` is set.
        (a, e, uses || deep)
    }
}

fn c20_forwarding(c: &mut Case) {
    let call = c.rng.s(&["foo(...)", "foo(1, ...)", "@a.foo(...)", "@a.foo(1, *@b, ...)", "super(...)", "foo.bar(...)", "@a&.foo(...)", "A.foo(...)", "self.foo(:a, ...)", "foo(bar(...))", "foo(bar(...), ...)", "A::foo(...)"]);
    // Around the call, within the method: no parameter list of its own.
    let n = *c.rng.pick(&[0, 0, 1, 2, 3]);
    let x = around(c, call.to_string(), n);
    let here = x.contains("<<A\n") || x.contains("<<A, ");
    // A default of a parameter is still in the method.
    if c.rng.coin() {
        c.hit("fwd-ok");
        let (a, b) = *c.rng.pick(&[
            ("def m(...)\n", "\nend"),
            ("def m(a, ...)\n", "\nend"),
            ("def m(a, b = 1, ...)\n", "\nend"),
            ("def self.m(...)\n", "\nend"),
            ("def m( ... )\n1\n", "\n2\nend"),
            ("class A\ndef m(...)\n", "\nend\nend"),
            ("def +(...)\n", "\nend"),
            ("def m(...)\ndef n; end\n", "\nend"),
            ("def n; def m(...)\n", "\nend; end"),
            ("def m(...)\nclass << self; end\n", "\nend"),
            ("def m(...)\nfoo(...)\n", "\nend"),
            ("def m(...)\n1\nrescue\n", "\nend"),
        ]);
        expect_accept(c, &format!("{}{}{}", a, x, b));
    } else {
        c.hit("fwd-bad");
        let (a, b) = *c.rng.pick(&[
            ("", ""),
            ("def m\n", "\nend"),
            ("def m(a)\n", "\nend"),
            ("def m(*a, &b)\n", "\nend"),
            ("def m(*a, **k, &b)\n", "\nend"),
            ("def m(...)\ndef n\n", "\nend\nend"),
            ("def m(...)\ndef n(a)\n", "\nend\nend"),
            ("def m(...)\nclass << self\n", "\nend\nend"),
            ("def m(...)\nend\n", ""),
            ("def m(...)\nfoo(...)\nend\n", ""),
            ("class A\n", "\nend"),
            ("def m(...); end; def n\n", "\nend"),
            ("->(a) {\n", "\n}"),
            ("def m(a = (", "), ...)\nend"),
        ]);
        if here && !(b.starts_with('\n') || b.is_empty()) {
            return;
        }
        expect_reject(c, &format!("{}{}{}", a, x, b), "forwarding outside a method which takes it");
    }
}

const DEF_FORMS: &[(&str, &str)] = &[
    ("def a; end", "def a() end"),
    ("def a\nend", "def a(\n)\nend"),
    ("def a b; b; end", "def a(b) b end"),
    ("def a b, c; b; end", "def a(b, c)\nb\nend"),
    ("def a b, c = 1, *d, &e; end", "def a(b, c = 1, *d, &e) end"),
    ("def a *b; end", "def a(*b); end"),
    ("def a &b; end", "def a(&b); end"),
    ("def a b = 1; end", "def a(b=1); end"),
    ("def a b: 1, **c; end", "def a(b: 1, **c); end"),
    ("def a b:\n1\nend", "def a(b:) 1 end"),
    ("def a(b:); end", "def a(b: ); end"),
    ("def + a; end", "def +(a); end"),
    ("def +a; end", "def +(a); end"),
    ("def -@; end", "def -@(); end"),
    ("def [] a; end", "def [](a); end"),
    ("def []= a, b; end", "def []=(a, b); end"),
    ("def a= b; end", "def a=(b); end"),
    ("def == a; end", "def ==(a); end"),
    ("def <=> a; end", "def <=>(a) end"),
    ("def self.a b; end", "def self.a(b); end"),
    ("def self.== b; end", "def self.==(b); end"),
    ("def self . a; end", "def self.a; end"),
    ("def a\n(1)\nend", "def a; (1); end"),
    ("def a\n[1]\nend", "def a; [1]; end"),
    ("def a\n*b = 1\nend", "def a; (*b = 1); end"),
    ("def a\n-1\nend", "def a; -1; end"),
    ("def a\n:b\nend", "def a; :b; end"),
    ("def a()\n-> { 1 }\nend", "def a; -> { 1 }; end"),
    ("def a(b)-b end", "def a(b); -b; end"),
    ("def a(b)[b] end", "def a(b); [b]; end"),
    ("def a(b)b end", "def a(b); b; end"),
    ("private def a; end", "private(def a; end)"),
    ("private def a b; b; end", "private((def a(b) b end))"),
    ("foo def a; end, 1", "foo((def a; end), 1)"),
    ("x = def a; end", "x = (def a; end)"),
    ("class A; end", "class A\nend"),
    ("class A; 1; end", "class A\n1\nend"),
    ("class A < B; end", "class A < B\nend"),
    ("class A<B\nend", "class A < (B)\nend"),
    ("class A < B.c; end", "class A < (B.c)\nend"),
    ("class A < B.c 1\nend", "class A < B.c(1)\nend"),
    ("class A < B.c { 1 }\nend", "class A < (B.c { 1 })\nend"),
    ("class A < B.c do 1 end\nend", "class A < (B.c { 1 })\nend"),
    ("class A < B::C; end", "class A < (B::C)\nend"),
    ("class A < ::B; end", "class A < (::B)\nend"),
    ("class A < B || C; end", "class A < (B || C)\nend"),
    ("class A < Struct.new(:a, :b)\n1\nend", "class A < (Struct.new :a, :b)\n1\nend"),
    ("class << self; 1; end", "class << self\n1\nend"),
    ("class << self\n1\nend", "class <<self\n1\nend"),
    ("class <<self\n1\nend", "class << (self)\n1\nend"),
    ("class << a.b; 1; end", "class << (a.b)\n1\nend"),
    ("x = class A; 1; end", "x = (class A; 1; end)"),
    ("class A; class B; end; end", "class A\n(class B\nend)\nend"),
    ("module A; module B; end; end", "module A\nmodule B\nend\nend"),
    ("module A\ndef b; end\nend", "module A; def b() end; end"),
    ("class A; def b; end; def c; end; end", "class A\ndef b() end\ndef c() end\nend"),
    ("class A\nattr_reader :a, :b\nend", "class A\nattr_reader(:a, :b)\nend"),
    ("class A\ninclude B\nend", "class A\ninclude(B)\nend"),
    ("class A\nprivate\ndef b; end\nend", "class A\n(private)\ndef b() end\nend"),
    ("alias a b; alias c d", "alias :a :b\nalias :c :d"),
    ("alias a? b?", "alias :a? :b?"),
    ("alias a b if c", "(alias a b) if c"),
    ("def a; alias b c; end", "def a() alias :b :c end"),
    ("class A < b and c\n1\nend", "class A < (b and c)\n1\nend"),
    ("class A < B or c; 1; end", "class A < (B or c); 1; end"),
    ("class << a and b\n1\nend", "class << (a and b)\n1\nend"),
    ("class << a or b; end", "class << (a or b); end"),
    ("class A < (b; c)\nend", "class A < (b\nc)\nend"),
    ("class A < begin b end; end", "class A < (b); end"),
    ("class A < (b if c); end", "class A < (if c then b end); end"),
    ("class a.b::C; end", "class (a.b)::C; end"),
    ("class foo(1)::C; end", "class (foo 1)::C; end"),
    ("module a::B; end", "module (a)::B; end"),
    ("module a.b(1)::B; end", "module (a.b 1)::B; end"),
    ("class self::A; end", "class (self)::A; end"),
    ("class @a::B; end", "class (@a)::B; end"),
    ("def a(*\nb); end", "def a(*b); end"),
    ("def a(&\nb); end", "def a(&b); end"),
    ("def a(\nb\n,\nc\n)\nend", "def a(b, c); end"),
    ("def a(b =\n1); end", "def a(b = 1); end"),
    ("def\na; end", "def a; end"),
    ("class\nA; end", "class A; end"),
    ("module\nA; end", "module A; end"),
];

fn c20_forms(c: &mut Case) {
    let (a, b) = DEF_FORMS[(c.idx as usize) % DEF_FORMS.len()];
    let (a, b) = if (c.idx as usize) < DEF_FORMS.len() { (a.to_string(), b.to_string()) } else { wrapped_top(c, a, b) };
    c.hit("same");
    expect_same(c, &b, &a, "the same definition");
}
/// Classes may not stand in a method.
fn wrapped_top(c: &mut Case, a: &str, b: &str) -> (String, String) {
    let (x, y) = *c.rng.pick(STMT_AT);
    let (x, y) = if x.contains("def ") { ("", "") } else { (x, y) };
    (format!("{}{}{}", x, a, y), format!("{}{}{}", x, b, y))
}

const BAD_DEFS: &[&str] = &[
    "def 1; end", "def \"a\"; end", "def :a; end", "def @a; end", "def $a; end", "def @@a; end", "def a.1; end", "def .a; end", "def; end", "def (; end", "def a, b; end", "def a.b.c; end", "def a(; end",
    "def a); end", "def a(b; end", "def a(b,); end", "def a(b c); end", "def a(1); end", "def a(@b); end", "def a(B); end", "def a($b); end", "def a(self); end", "def a(nil); end", "def a(\"b\"); end", "def a(b.c); end", "def a(b[1]); end",
    "def a 1; end", "def a b c; end", "def a b 1; end", "def a?=(b); end", "def a!=(b)\nend end", "def a(b) end end", "def a; } ", "def a; 1", "def a do end", "def a.end", "def a.(b); end", "def self.; end", "def self; 1", "def a b,; end",
    "def a(b=); end", "def a(*1); end", "def a(&1); end", "def a(&b, c); end", "def a(**b, c); end", "def a(b:, c); end", "def a(*b, *c); end", "def a(&b, &c); end", "def a(..); end", "def a(b?); end", "def a(b!); end",
    "class a; end", "class 1; end", "class \"A\"; end", "class @a; end", "class $a; end", "class self; end", "class nil; end", "class A < ; end", "class A.b; end", "class A::b; end", "class A::; end", "class A::1; end", "class; end", "class A(B); end",
    "class A = 1; end", "class A, B; end", "class A; end end", "class A; }", "class A < B, C; end", "class A < B < ; end", "class << ; end", "class <<; end", "class << self; 1", "class A; 1", "class [A]; end", "class :A; end", "class if; end",
    "module a; end", "module A < B; end", "module << self; end", "module 1; end", "module; end", "module A; end end", "module A.b; end", "module A::b; end", "module self; end", "module A, B; end", "module A; 1", "module @a; end",
    "alias", "alias a", "alias a, b", "alias 1 2", "alias a 1", "alias @a @b", "alias $1 $a", "alias $a $1", "alias a.b c", "alias (a) b", "alias a b c", "alias a b, c", "alias a b 1", "alias :a", "alias : a", "alias a = b", "alias a() b", "alias { } b", "alias , a", "alias [ b", "alias :[ b", "alias :@1 b", "alias a :[", "alias @a b", "alias :1 b", "alias ] b", "alias a =", "alias = a", "alias a; b",
];

pub fn c20_reject(c: &mut Case) {
    let x = BAD_DEFS[(c.idx as usize) % BAD_DEFS.len()];
    let src = if (c.idx as usize) < BAD_DEFS.len() {
        x.to_string()
    } else {
        let (a, b) = *c.rng.pick(STMT_AT);
        // What is missing might be supplied by what follows, and what is too
        // much might end what stands before.
        let words = x.split(|c: char| !c.is_alphanumeric());
        let mut open: i32 = 0;
        for w in words {
            if ["def", "class", "module", "do", "if"].contains(&w) {
                open += 1;
            } else if w == "end" {
                open -= 1;
            }
        }
        let alias = x.starts_with("alias") || x.contains("alias a b");
        if (open != 0 || alias || x.contains("def a; }") || x.contains("class A; }") || x.contains('"') && a.contains('"')) && !(a.is_empty() && b.is_empty()) {
            return;
        }
        if a.contains("def ") && (x.contains("class") || x.contains("module")) {
            return;
        }
        format!("{}{}{}", a, x, b)
    };
    c.hit("rejected");
    expect_reject(c, &src, "not a definition Ruby accepts");
}
