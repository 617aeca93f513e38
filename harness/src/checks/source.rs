//! C03: source, path and line numbers. C05: rendered locations.
use super::common::*;
use super::locs::{any_entry, locs_of};
use crate::gen::*;
use crate::mon::*;
use crate::run::*;
use crate::term::*;
use crate::tok::*;
use ruruby_parse::{Loc, SourceInfo};

pub fn c03() -> Check {
    Check {
        id: "C03",
        rule: "results and errors of any text, path and entry point carry exactly the path and the text, with a final newline; `__FILE__` and `__LINE__` after any accepted text, at every kind of place and \
               inside generated programs denote the path and the number of newlines before plus one; the line lookup gives that number for every position of any text",
        modes: vec![
            Mode { name: "carry", quick: 120_000, thorough: 3_000_000, f: carry },
            Mode { name: "after", quick: 80_000, thorough: 2_000_000, f: after },
            Mode { name: "inside", quick: 40_000, thorough: 900_000, f: inside },
            Mode { name: "placed", quick: 40_000, thorough: 400_000, f: line_placed },
            Mode { name: "lookup", quick: 60_000, thorough: 1_500_000, f: lookup },
        ],
        assumptions: &["paths are valid UTF-8"],
        must: &["carry:tree", "carry:error", "carry:newline-added", "carry:program", "carry:eval", "carry:binding", "after:accepted", "inside", "placed", "many-lines", "lookup", "lookup:node", "lookup:multibyte"],
    }
}

/// Paths, and the short names of their files.
const PATHS: &[(&str, &str)] = &[
    ("", ""), ("x.rb", "x.rb"), ("/a/b/c.rb", "c.rb"), ("./x.rb", "x.rb"), ("../y/é.rb", "é.rb"), ("日本/語.rb", "語.rb"), ("a b.rb", "a b.rb"), ("/", "/"), ("..", ".."), ("a/..", "a/.."), ("x\ny.rb", "x\ny.rb"),
    ("\"q\".rb", "\"q\".rb"), ("#{x}", "#{x}"), ("a\\b.rb", "a\\b.rb"), ("(eval)", "(eval)"), ("-e", "-e"), ("/tmp/", "tmp"), ("a//b.rb", "b.rb"), ("a/./b", "b"), ("😀", "😀"), ("a:1", "a:1"), ("%s", "%s"), (".hidden", ".hidden"),
    ("/x/y.tar.gz", "y.tar.gz"), ("dir.d/x", "x"),
];

/// A path of some parts, and its last one.
fn made(c: &mut Case) -> (String, String) {
    const STEM: &[&str] = &["a", "x", "index", "é", "a b", "日本", "_", "1", "lib", "-", "a.b", "README", ".x", "x~"];
    const EXT: &[&str] = &["", ".rb", ".erb", ".html.erb", ".rake", ".gemspec", ".ru", ".tar.gz", ".", ".RB", ".rb.bak", ".日本", " ", ".so"];
    let mut s = c.rng.s(&["", "/", "./", "../", "~/"]).to_string();
    for _ in 0..c.rng.below(4) {
        s.push_str(c.rng.s(STEM));
        s.push_str(c.rng.s(EXT));
        s.push_str(c.rng.s(&["/", "/", "//"]));
    }
    let last = format!("{}{}", c.rng.s(STEM), c.rng.s(EXT));
    s.push_str(&last);
    (s, last)
}

fn path(c: &mut Case) -> String {
    if c.rng.p(1, 3) {
        return made(c).0;
    }
    if c.rng.p(1, 20) {
        return format!("/{}/x.rb", "long".repeat(1 + c.rng.below(400)));
    }
    let i = c.rng.below(PATHS.len());
    PATHS[i].0.to_string()
}

fn ended(s: &str) -> String {
    if s.ends_with('\n') {
        s.to_string()
    } else {
        format!("{}\n", s)
    }
}

fn line_of(s: &str, pos: usize) -> usize {
    1 + s.as_bytes()[..pos].iter().filter(|b| **b == b'\n').count()
}

fn carried(si: &SourceInfo, src: &str, path: &str) -> Option<String> {
    if si.path.as_os_str() != std::ffi::OsStr::new(path) {
        return Some(format!("path: expected {:?} got {:?}", path, si.path));
    }
    let x = ended(src);
    if si.code != x {
        return Some(format!("source text: expected {:?} got {:?}", clip_str(&x, 500), clip_str(&si.code, 500)));
    }
    if si.file_name() != path {
        return Some(format!("file name: expected {:?} got {:?}", path, si.file_name()));
    }
    None
}

fn carry(c: &mut Case) {
    let src = match c.rng.below(12) {
        0 => c.rng.s(&["", "\n", "\n\n", " ", "\r\n", "\r", "#", "# c", "é", "1", "\0", "1\n\n", ";", "\\\n", "\\", "'a\nb", "\"\n"]).to_string(),
        1 => any_text(c) + c.rng.s(&["\n", "\n\n", "\r", "\r\n", " ", "\n ", "\0", "\u{feff}"]),
        2 => format!("{}{}", c.rng.s(&["\n", "\u{feff}", "\r\n", " ", "#!ruby\n", "# coding: utf-8\n"]), any_text(c)),
        _ => any_text(c),
    };
    let p = path(c);
    let en = any_entry(c);
    c.nontrivial(&src);
    c.hit(format!("carry:{}", match en {
        Entry::Program => "program",
        Entry::Eval(_) => "eval",
        Entry::Binding(..) => "binding",
    }));
    if !src.ends_with('\n') {
        c.hit("carry:newline-added");
    }
    let d = match c.parse_as(&en, &src, &p) {
        Obs::Ok(r) => {
            c.hit("carry:tree");
            carried(&r.source_info, &src, &p)
        }
        Obs::Err(e) => {
            c.hit("carry:error");
            carried(&e.source_info, &src, &p)
        }
        Obs::Panic(_) => None,
    };
    if let Some(d) = d {
        c.fail_as(&en, &p, &src, d);
    }
}

/// The last statement of a program.
fn last(t: T) -> T {
    if t.tag == "seq" {
        let mut k = t.kids;
        return k.pop().unwrap_or_else(nothing);
    }
    t
}

/// Many lines.
fn many_lines(c: &mut Case) -> String {
    let most = *c.rng.pick(&[100, 100, 100, 300, 300, 300, 1_000, 1_000, 5_000, 70_000]);
    c.hit("many-lines");
    let line = c.rng.s(&["\n", "\n", "# é\n", "1\n", "x = 1;\n", "\r\n"]);
    let most = if line.contains('1') { most.min(300) } else { most };
    line.repeat(most + c.rng.below(most))
}

fn after(c: &mut Case) {
    let a = if c.rng.p(1, 200) { many_lines(c) } else { any_text(c) };
    let en = any_entry(c);
    let p = path(c);
    if !matches!(c.parse_as(&en, &a, &p), Obs::Ok(_)) {
        c.hit("after:rejected");
        return;
    }
    c.hit("after:accepted");
    let gap = c.rng.s(&["\n;", "\n\n;", "\n; \n", "\r\n;", "\n;\\\n", "\n;# é\n", "\n;;\n\n"]);
    // A carriage return after the terminator of a here-document is not judged.
    let gap = if a.contains("<<") && gap.starts_with('\r') { "\n;" } else { gap };
    let pre = format!("{}{}", a, gap);
    let n = line_of(&pre, pre.len());
    let f = lit(p.clone().into_bytes(), false);
    let (text, e) = match c.rng.below(4) {
        0 => ("__LINE__".to_string(), int(n as i64)),
        1 => ("__FILE__".to_string(), f),
        2 => ("[__LINE__,\n__FILE__, \n__LINE__]".to_string(), array(vec![int(n as i64), f, int(n as i64 + 2)])),
        _ => ("foo(<<A, __LINE__)\nx\n#{__LINE__}\nA\n__LINE__".to_string(), int(n as i64 + 4)),
    };
    let src = format!("{}{}{}", pre, text, c.rng.s(&["", "\n", ";", " # c", "\n\n"]));
    c.nontrivial(&src);
    match c.parse_as(&en, &src, &p) {
        Obs::Ok(r) => {
            let t = last(norm(&r.node));
            if let Some(d) = e.diff(&t, false) {
                c.fail_as(&en, &p, &src, d);
            }
        }
        o => c.fail_as(&en, &p, &src, o.brief()),
    }
}

fn inside(c: &mut Case) {
    let fuel = *c.rng.pick(&[10, 20, 40, 80]);
    let all = Feat::all();
    let f = Feat { kwlit: 40, istr: all.istr * 3, here: all.here * 3, pct: all.pct * 2, strs: all.strs * 2, ..all };
    let mut g = gen(c, f, fuel);
    g.path = loop {
        let p = path(c);
        if !p.contains('\u{1e}') {
            break p;
        }
    };
    let n = 1 + g.rng.below(4);
    let e = g.program(n);
    let st = style(c, &[30, 100, 200]);
    c.hit("inside");
    judge(c, &mut g, e, st, TREE);
}

fn line_placed(c: &mut Case) {
    let p = place(c);
    c.hit(format!("place:{}", p.name));
    c.hit("placed");
    let lead = c.rng.s(&["", "\n", "\n\n\n", "# é\n", "\r\n", "\\\n", "'\n\n'\n;", "<<A;\n\n\nA\n", "%w(\n\n)\n;", "/\n/;\n", ":'\n';", "\"#{\n}\";", "foo\n.bar;", "%q(\n);\n", "`\n`;", "foo(\n)\n;", "\"a\" \\\n\"b\";", "\"\\\n\";", "<<A + <<B;\n\n#{\n}\nA\n\nB\n"]);
    let at = lead.len() + p.pre.len();
    let whole = format!("{}{}", lead, p.pre);
    let n = line_of(&whole, at) as i64;
    let src = format!("{}__LINE__{}", whole, p.post);
    c.nontrivial(&src);
    match c.parse(&src) {
        Obs::Ok(r) => {
            let e = (p.t)(int(n));
            let t = norm(&r.node);
            // With text before it, the expression comes last.
            let t = if matches!(lead, "" | "\n" | "\n\n\n" | "# é\n" | "\r\n" | "\\\n") || !t.tag.starts_with("seq") { t } else {
                let k = if e.tag == "seq" { e.kids.len() } else { 1 };
                let m = t.kids.len().saturating_sub(k);
                let mut v = t.kids[m..].to_vec();
                if v.len() == 1 { v.pop().unwrap() } else { crate::term::t("seq", v) }
            };
            if let Some(d) = e.diff(&t, false) {
                c.fail(&src, d);
            }
        }
        o => c.fail(&src, o.brief()),
    }
}

fn lookup(c: &mut Case) {
    let mut src = any_text(c);
    if c.rng.p(1, 200) {
        src.insert_str(0, &many_lines(c));
    }
    let p = path(c);
    let si = SourceInfo::new(p.clone(), src.clone());
    if let Some(d) = carried(&si, &src, &p) {
        c.fail(&src, d);
        return;
    }
    c.hit("lookup");
    if !src.is_ascii() {
        c.hit("lookup:multibyte");
    }
    c.nontrivial(&src);
    let code = ended(&src);
    for _ in 0..12 {
        let a = c.rng.below(code.len());
        let b = c.rng.below(code.len() + 5);
        let want = line_of(&code, a);
        let (r, _) = guard("SourceInfo::get_line", &src, c.cpu_limit, || si.get_line(&Loc(a, b)));
        match r {
            Ok(l) if l == want => {}
            r => {
                c.fail_desc("SourceInfo::get_line", &src, format!("position {} is on line {}, but {:?} is reported", a, want, r));
                return;
            }
        }
    }
    let en = any_entry(c);
    if let Obs::Ok(r) = c.parse_as(&en, &src, &p) {
        for l in locs_of(&format!("{:?}", r.node)).into_iter().rev().take(300) {
            if l.0 < code.len() {
                c.hit("lookup:node");
                let want = line_of(&code, l.0);
                let got = r.source_info.get_line(&Loc(l.0, l.1));
                if got != want {
                    c.fail_as(&en, &p, &src, format!("location {:?} is on line {}, but {} is reported", l, want, got));
                    return;
                }
            }
        }
    }
}

// ---- C05 ----------------------------------------------------------------------

pub fn c05() -> Check {
    Check {
        id: "C05",
        rule: "rendered locations of texts of characters of known width, with every kind of location, equal those of a reference renderer written from the statement; \
               rendering the locations of trees and errors of any text, and any numbers at all, never fails and gives a header and pairs of lines; file names and short file names are those of the path",
        modes: vec![
            Mode { name: "exact", quick: 200_000, thorough: 5_000_000, f: exact },
            Mode { name: "long", quick: 80_000, thorough: 2_000_000, f: long },
            Mode { name: "parsed", quick: 60_000, thorough: 1_500_000, f: parsed },
            Mode { name: "wild", quick: 100_000, thorough: 2_000_000, f: wild },
            Mode { name: "names", quick: 2_000, thorough: 20_000, f: names },
            Mode { name: "shown", quick: 500, thorough: 4_000, f: shown },
        ],
        assumptions: &[
            "widths are judged for ASCII, Latin, Greek, Cyrillic, CJK, Hangul, full-width, emoji and combining characters; not for control characters and joined emoji",
            "a wide character which straddles the edge of the terminal is not judged",
        ],
        must: &["exact:single", "exact:multi", "exact:wide", "exact:combining", "exact:inside-char", "exact:last", "exact:newline", "long:first-row", "long:later-row", "long:rows", "long:wide", "parsed:tree", "parsed:error", "parsed:slice", "wild", "wild:outside", "wild:empty", "names", "shown"],
    }
}

fn term_width() -> usize {
    console::Term::stdout().size().1 as usize
}

/// Characters and their display widths, by wide consent.
const CHARS: &[(char, usize)] = &[
    ('a', 1), ('Z', 1), ('0', 1), (' ', 1), ('(', 1), ('^', 1), ('~', 1), ('\\', 1), ('"', 1), ('{', 1), ('é', 1), ('ñ', 1), ('ß', 1), ('Ω', 1), ('ж', 1), ('日', 2), ('本', 2), ('語', 2), ('あ', 2), ('ア', 2), ('ｱ', 1),
    ('한', 2), ('Ａ', 2), ('　', 2), ('😀', 2), ('🎉', 2), ('\u{301}', 0), ('\u{308}', 0), ('！', 2), ('。', 2),
];

fn width(c: char) -> usize {
    CHARS.iter().find(|x| x.0 == c).map_or(1, |x| x.1)
}

fn text_line(c: &mut Case, max: usize) -> String {
    let n = c.rng.below(max + 1);
    let ascii = c.rng.coin();
    let mut s = String::new();
    for _ in 0..n {
        let x = if ascii && !c.rng.p(1, 20) { CHARS[c.rng.below(10)].0 } else { CHARS[c.rng.below(CHARS.len())].0 };
        // Joining marks follow a letter.
        if width(x) == 0 && !s.ends_with(|y: char| y.is_ascii_alphabetic()) {
            s.push('e');
        }
        s.push(x);
    }
    s
}

/// What is to be shown of one line: the range of columns, the first column and
/// the width of what is located; `None` where the rows cannot be told.
struct Row {
    text: String,
    lead: usize,
    len: usize,
}

/// The reference: lines from the definition of the statement.
fn reference(name: &str, code: &str, loc: (usize, usize), w: usize) -> Option<(String, Vec<Row>)> {
    let mut rows = vec![];
    let mut head = None;
    let mut top = 0;
    for (i, line) in code.split_inclusive('\n').enumerate() {
        let body = line.strip_suffix('\n').unwrap_or(line);
        let end = top + line.len(); // one past the newline
        if loc.0 < end && loc.1 >= top {
            head.get_or_insert(i + 1);
            // The located characters of this line, with their columns.
            let mut col = 0;
            let mut first = None;
            let mut last_col = 0;
            let mut len = 0;
            let mut cols = vec![];
            for (p, ch) in body.char_indices() {
                let (a, b) = (top + p, top + p + ch.len_utf8());
                cols.push((ch, col));
                if loc.0 < b && loc.1 >= a {
                    first.get_or_insert(col);
                    last_col = col;
                    len += width(ch);
                }
                col += width(ch);
            }
            let newline = loc.0 <= top + body.len() && loc.1 >= top + body.len();
            if newline {
                // The end of the line is located as well: it is one column wide.
                first.get_or_insert(col);
                last_col = col;
                len += NEWLINE;
            }
            let Some(first) = first else {
                // Nothing but the newline of the line before.
                return None;
            };
            let from = first / w * w;
            let to = last_col / w * w + w;
            if cols.iter().any(|(ch, k)| (*k < from && k + width(*ch) > from) || (*k < to && k + width(*ch) > to)) {
                return None;
            }
            let text = cols.iter().filter(|(ch, k)| *k >= from && *k + width(*ch) <= to).map(|x| x.0).collect();
            rows.push(Row { text, lead: first - from, len });
        }
        top = end;
    }
    Some((format!("{}:{}\n", name, head?), rows))
}

/// The newline itself takes a column.
const NEWLINE: usize = 1;

fn compare(c: &mut Case, code: &str, loc: (usize, usize), name: &str) -> bool {
    let w = term_width();
    let si = SourceInfo::new(name, code);
    let (r, _) = guard(&format!("SourceInfo::get_location of {:?} with the path {:?}", loc, name), code, c.cpu_limit, || si.get_location(&Loc(loc.0, loc.1)));
    let desc = format!("SourceInfo::get_location {:?} {:?}", name, loc);
    let got = match r {
        Ok(s) => s,
        Err(m) => {
            c.fail_desc(&desc, code, format!("panicked: {}", m));
            return false;
        }
    };
    let Some((head, rows)) = reference(name, &ended(code), loc, w) else {
        c.hit("not-judged");
        return true;
    };
    let mut want = head;
    for r in &rows {
        want.push_str(&format!("{}\n{}{}\n", r.text, " ".repeat(r.lead), "^".repeat(r.len)));
    }
    if got != want {
        c.fail_desc(&desc, code, format!("expected\n{}\ngot\n{}", clip_str(&want, 1500), clip_str(&got, 1500)));
        return false;
    }
    c.add("rows", rows.len() as u64);
    true
}

fn text(c: &mut Case, lines: usize, max: usize) -> String {
    let n = 1 + c.rng.below(lines);
    let mut s = String::new();
    for _ in 0..n {
        let m = if c.rng.p(1, 4) { 3 } else { max };
        s.push_str(&text_line(c, m));
        s.push('\n');
    }
    if c.rng.coin() {
        s.pop();
    }
    s
}

fn exact(c: &mut Case) {
    let mut code = text(c, 5, 24);
    if c.rng.p(1, 100) {
        let n = 1 + c.rng.below(2_000);
        code.insert_str(0, &c.rng.s(&["\n", "a\n"]).repeat(n));
    }
    let full = ended(&code);
    c.nontrivial(&code);
    for _ in 0..3 {
        let a = c.rng.below(full.len());
        let b = match c.rng.below(4) {
            0 => a,
            1 => (a + c.rng.below(6)).min(full.len() - 1),
            _ => a + c.rng.below(full.len() - a),
        };
        let p = path(c);
        c.hit(if full[..].as_bytes()[a..b].contains(&b'\n') { "exact:multi" } else { "exact:single" });
        if full.chars().any(|c| width(c) == 2) {
            c.hit("exact:wide");
        }
        if full.chars().any(|c| width(c) == 0) {
            c.hit("exact:combining");
        }
        if !full.is_char_boundary(a) || !full.is_char_boundary(b) {
            c.hit("exact:inside-char");
        }
        if b == full.len() - 1 {
            c.hit("exact:last");
        }
        if full.as_bytes()[b] == b'\n' {
            c.hit("exact:newline");
        }
        if !compare(c, &code, (a, b), &p) {
            return;
        }
    }
}

fn long(c: &mut Case) {
    let w = term_width();
    let code = text(c, 3, w * 4);
    let full = ended(&code);
    c.nontrivial(&code);
    for _ in 0..4 {
        let a = c.rng.below(full.len());
        let b = match c.rng.below(4) {
            0 => a,
            1 => (a + c.rng.below(20)).min(full.len() - 1),
            2 => (a + c.rng.below(w * 2)).min(full.len() - 1),
            _ => a + c.rng.below(full.len() - a),
        };
        let top = full.as_bytes()[..a].iter().rposition(|x| *x == b'\n').map_or(0, |x| x + 1);
        let col = |p: usize| full.get(top..p).map_or(0, |s| s.chars().map(width).sum::<usize>());
        c.hit(if col(a) >= w { "long:later-row" } else { "long:first-row" });
        if col(b) / w > col(a) / w {
            c.hit("long:rows");
        }
        if full.chars().any(|c| width(c) == 2) {
            c.hit("long:wide");
        }
        if !compare(c, &code, (a, b), "x.rb") {
            return;
        }
    }
}

/// The located text of a node on one line is what stands above the carets.
fn parsed(c: &mut Case) {
    let src = any_text(c);
    c.nontrivial(&src);
    let en = any_entry(c);
    let (si, locs) = match c.parse_as(&en, &src, "x.rb") {
        Obs::Ok(r) => {
            c.hit("parsed:tree");
            (r.source_info, locs_of(&format!("{:?}", r.node)))
        }
        Obs::Err(e) => {
            c.hit("parsed:error");
            (e.source_info, vec![(e.loc.0, e.loc.1)])
        }
        Obs::Panic(_) => return,
    };
    let code = ended(&src);
    for _ in 0..6 {
        let l = *c.rng.pick(&locs);
        let desc = format!("SourceInfo::get_location {:?}", l);
        let (r, _) = guard(&desc, &src, c.cpu_limit, || si.get_location(&Loc(l.0, l.1)));
        let got = match r {
            Ok(s) => s,
            Err(m) => {
                c.fail_desc(&desc, &src, format!("panicked: {}", m));
                return;
            }
        };
        let line = line_of(&code, l.0.min(code.len() - 1));
        if !got.starts_with(&format!("x.rb:{}\n", line)) {
            c.fail_desc(&desc, &src, format!("starts on line {}, but rendered as {:?}", line, clip_str(&got, 300)));
            return;
        }
        if l.1 < l.0 || l.1 >= code.len() {
            continue;
        }
        let t = &code.as_bytes()[l.0..=l.1];
        let Ok(t) = std::str::from_utf8(t) else { continue };
        let top = code.as_bytes()[..l.0].iter().rposition(|x| *x == b'\n').map_or(0, |x| x + 1);
        if t.contains('\n') || !code.is_char_boundary(l.0) || code[top..l.0 + t.len()].chars().any(|c| !(' '..='~').contains(&c) && width(c) == 1 || width(c) == 0) || l.1 - top + 1 >= term_width() / 2 {
            continue;
        }
        // Short lines of plain characters.
        let v: Vec<&str> = got.split('\n').collect();
        let (Some(text), Some(under)) = (v.get(1), v.get(2)) else { continue };
        let lead = under.len() - under.trim_start_matches(' ').len();
        let shown: Option<String> = {
            let (mut col, mut o) = (0, String::new());
            for ch in text.chars() {
                if col >= lead && col < under.len() {
                    o.push(ch);
                }
                col += width(ch);
            }
            Some(o)
        };
        c.hit("parsed:slice");
        if shown.as_deref() != Some(t) {
            c.fail_desc(&desc, &src, format!("the located text is {:?}, but the carets are under {:?} in {:?}", t, shown, got));
            return;
        }
    }
}

/// Any numbers and texts: never a failure, and the shape of a rendering.
fn wild(c: &mut Case) {
    let code = match c.rng.below(6) {
        0 => c.rng.s(&["", "\n", "é", "\n\n", "日", "\r\n", "\t\t", "\u{1b}[31mx\u{1b}[0m", "a\u{200d}b", "\u{301}", "👩‍👩‍👧‍👦", "\0\0", "\u{7f}", "🇯🇵", "\u{10ffff}"]).to_string(),
        1 => text(c, 3, 200),
        _ => any_text(c),
    };
    c.hit("wild");
    c.nontrivial(&code);
    let n = code.len();
    let mut pos = |c: &mut Case| match c.rng.below(8) {
        0 => n,
        1 => n + 1,
        2 => n + c.rng.below(10),
        3 => usize::MAX - c.rng.below(2),
        _ => c.rng.below(n + 1),
    };
    let raw = c.rng.coin();
    for _ in 0..4 {
        let (a, b) = (pos(c), pos(c));
        if a >= n || b >= n {
            c.hit("wild:outside");
        }
        let si = if raw { SourceInfo { path: "x.rb".into(), code: code.clone() } } else { SourceInfo::new("x.rb", code.clone()) };
        let desc = format!("SourceInfo::get_location and get_line of {:?} ({})", (a, b), if raw { "text as it is" } else { "newline added" });
        let (r, _) = guard(&desc, &code, c.cpu_limit, || (si.get_location(&Loc(a, b)), si.get_line(&Loc(a, b))));
        let (s, line) = match r {
            Ok(x) => x,
            Err(m) => {
                c.fail_desc(&desc, &code, format!("panicked: {}", m));
                return;
            }
        };
        let lines = si.code.matches('\n').count() + 1;
        if line == 0 || line > lines {
            c.fail_desc(&desc, &code, format!("line {} of {}", line, lines));
            return;
        }
        if si.code.is_empty() {
            c.hit("wild:empty");
            continue;
        }
        if a <= b {
            let bad = if !s.starts_with("x.rb:") { Some("no header") }
                else if s.lines().filter(|l| l.trim_start_matches(' ').bytes().all(|b| b == b'^')).count() * 2 + 1 < s.matches('\n').count() { Some("lines without carets") }
                else { None };
            if let Some(bad) = bad {
                c.fail_desc(&desc, &code, format!("{}: {:?}", bad, clip_str(&s, 500)));
                return;
            }
        }
    }
}

fn names(c: &mut Case) {
    let (p, short) = if c.rng.coin() {
        let i = c.rng.below(PATHS.len());
        (PATHS[i].0.to_string(), PATHS[i].1.to_string())
    } else {
        made(c)
    };
    let (p, short) = (p.as_str(), short.as_str());
    let si = SourceInfo::new(p, any_text(c));
    c.hit("names");
    c.nontrivial(p);
    if si.file_name() != p || si.short_file_name() != short {
        c.fail_desc("SourceInfo::file_name", p, format!("expected {:?} and {:?}, got {:?} and {:?}", p, short, si.file_name(), si.short_file_name()));
        return;
    }
    let s = si.get_location(&Loc(0, 0));
    if !s.starts_with(&format!("{}:1\n", p)) {
        c.fail_desc("SourceInfo::get_location", p, format!("the file is {:?}, but the rendering is {:?}", p, clip_str(&s, 200)));
    }
}

const MARK: &str = "\n\u{1e}\n";

/// Another process shows the locations it is given on its standard error, and
/// prints what `get_location` returns for them on its standard output.
pub fn show_helper() -> i32 {
    use std::io::{Read, Write};
    let mut b = String::new();
    if std::io::stdin().read_to_string(&mut b).is_err() {
        return 2;
    }
    let mut out = String::new();
    for q in b.split(MARK) {
        let mut it = q.splitn(4, ' ');
        let (Some(a), Some(z), Some(p), Some(code)) = (it.next(), it.next(), it.next(), it.next()) else { return 2 };
        let l = Loc(a.parse().unwrap(), z.parse().unwrap());
        let si = SourceInfo::new(p, code);
        si.show_loc(&l);
        eprint!("{}", MARK);
        out += &si.get_location(&l);
        out += MARK;
    }
    std::io::stdout().write_all(out.as_bytes()).is_err() as i32
}

fn shown(c: &mut Case) {
    use std::io::Write;
    let n = 20;
    let mut q = vec![];
    for _ in 0..n {
        let code = if c.rng.coin() { text(c, 4, 60) } else { any_text(c) };
        if code.contains(MARK) {
            continue;
        }
        let (a, b) = (c.rng.below(code.len() + 2), c.rng.below(code.len() + 2));
        c.nontrivial(&code);
        q.push(format!("{} {} {} {}", a.min(b), a.max(b), c.rng.s(&["x.rb", "/a/é.rb", "a/b.rb"]), code));
    }
    let Ok(exe) = std::env::current_exe() else { return };
    let Ok(mut ch) = std::process::Command::new(exe)
        .args(["helper", "show"])
        .env_remove("RUST_BACKTRACE")
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::piped())
        .spawn()
    else {
        c.inconclusive("the other process did not start".to_string());
        return;
    };
    let data = q.join(MARK);
    let mut stdin = ch.stdin.take().unwrap();
    let w = std::thread::spawn(move || {
        let _ = stdin.write_all(data.as_bytes());
    });
    let Ok(o) = ch.wait_with_output() else {
        c.inconclusive("the other process did not answer".to_string());
        return;
    };
    let _ = w.join();
    let (out, err) = (String::from_utf8_lossy(&o.stdout).to_string(), String::from_utf8_lossy(&o.stderr).to_string());
    if out.matches(MARK).count() != q.len() {
        c.fail_desc("SourceInfo::show_loc in another process", &q.join("\n---\n"), format!("{} of {} answers, {}: {:?}", out.matches(MARK).count(), q.len(), o.status, clip_str(&err, 300)));
        return;
    }
    c.add("locations shown by other processes", q.len() as u64);
    c.hit("shown");
    if out != err {
        let i = out.split(MARK).zip(err.split(MARK)).position(|(a, b)| a != b).unwrap_or(0);
        c.fail_desc(
            "SourceInfo::show_loc in another process",
            q.get(i).map_or("", |x| x),
            format!("shown as {:?}, but the rendering is {:?}", clip_str(err.split(MARK).nth(i).unwrap_or(""), 300), clip_str(out.split(MARK).nth(i).unwrap_or(""), 300)),
        );
    }
}
