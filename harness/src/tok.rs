//! Tokens with layout constraints, and their rendering to source text.
use crate::rng::Rng;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sep {
    /// Directly attached.
    Glue,
    /// Optional horizontal space (or line continuation).
    Opt,
    /// At least one horizontal space.
    Sp,
    /// Anything insignificant, newlines and comments included, or nothing.
    OptNl,
    /// The same, but at least one character.
    SpNl,
    /// Nothing, spaces, or newlines without comments (after a method dot).
    OptNlNc,
    /// Statement terminator: newline or ';'.
    Term,
    /// Statement terminator which has to be a newline.
    TermNl,
    /// At least a space, or any number of terminators.
    SpTerm,
    /// Nothing or any number of terminators.
    OptTerm,
}

#[derive(Clone, Debug)]
pub struct Tok {
    pub id: usize,
    pub text: String,
    pub sep: Sep,
    /// Binary operator after an expression which could start a command: no
    /// space before it unless there is one after it.
    pub bin: bool,
    /// No newline may be inserted before this token.
    pub nonl: bool,
    /// Here-document: body tokens and the text of the terminator line.
    pub here: Option<(Vec<Tok>, String)>,
    /// The number of constructs which are open just before this token.
    pub open: usize,
    /// This token opens (1) or closes (-1) a construct.
    pub act: i8,
}

#[derive(Clone, Copy)]
pub struct Style {
    pub wild: usize, // 0: canonical, else probability weight of unusual layout in percent
    pub seed: u64,
}

pub struct Out {
    pub src: String,
    /// Start and inclusive end of each token, by id.
    pub spans: Vec<(usize, usize)>,
}

impl Out {
    pub fn span(&self, a: usize, b: usize) -> (usize, usize) {
        (self.spans[a].0, self.spans[b].1)
    }
}

struct R<'a> {
    out: String,
    spans: Vec<(usize, usize)>,
    pending: Vec<&'a (Vec<Tok>, String)>,
    rng: Rng,
    wild: usize,
    /// What stands before the token with this id.
    fixed: Option<(usize, &'a str)>,
}

const COMMENTS: &[&str] = &[
    "# c", "#", "# end", "# \"", "# '", "#=begin", "# \\", "# é日本", "# {", "# )", "#{x}", "# <<A", "# ; x", "#\t", "# x = 1", "# ?/%w(",
];

pub fn alnum(c: char) -> bool {
    c.is_ascii_alphanumeric() || c == '_' || !c.is_ascii()
}

/// Whether two tokens may be written without a space between them.
fn can_glue(prev: &str, next: &str) -> bool {
    let (a, b) = match (prev.chars().last(), next.chars().next()) {
        (Some(a), Some(b)) => (a, b),
        _ => return true,
    };
    let pc = prev.chars().next().unwrap();
    let special = pc == '$' || pc == '?' || pc == '\\'; // last char is arbitrary
    if alnum(a) && alnum(b) {
        return false;
    }
    if (prev == "(" || prev == "[" || prev == ",") && !"?".contains(b) {
        return true;
    }
    if prev == "{" {
        return b != '|';
    }
    if prev.ends_with("#{") {
        return true;
    }
    if prev.len() > 1 && "'\"".contains(a) && a == pc && a == b {
        return true; // adjacent strings
    }
    if (")],".contains(b) || next.starts_with('}')) && !special {
        return true;
    }
    // operator after a plain operand
    let operand_end = !special && (alnum(a) || ")]}\"'".contains(a));
    let is_op = |s: &str| {
        !s.is_empty() && s.chars().all(|c| "+-*/%<>=&|^!~.".contains(c)) && s != "." && s != "&."
    };
    if operand_end && is_op(next) {
        // "a!" and "a?" are excluded by operand_end; "1." needs care.
        if next.starts_with('!') && next != "!=" {
            return false;
        }
        if pc == ':' && next.starts_with('=') {
            // ":a==1"
            return alnum(a) && (next == "==" || next == "=~" || next == "===");
        }
        return true;
    }
    // operand after an operator
    if is_op(prev) && (b.is_ascii_alphanumeric() || "_([@\"'".contains(b) || !b.is_ascii()) {
        return !(prev.starts_with('!') && b == '(' && prev.len() > 1);
    }
    false
}

impl<'a> R<'a> {
    fn chance(&mut self, k: usize) -> bool {
        // k out of 100, scaled by wildness
        let w = self.wild;
        self.rng.below(10000) < k * w
    }
    fn newline(&mut self) {
        if self.chance(5) {
            self.out.push('\r');
        }
        self.out.push('\n');
        let pend = std::mem::take(&mut self.pending);
        for (body, term) in pend {
            let mut prev = None;
            for t in body {
                self.token(t, prev);
                prev = Some(t);
            }
            self.out.push_str(term);
            self.out.push('\n');
        }
    }
    /// Layout as it is given, with pending here-documents after newlines.
    fn raw(&mut self, text: &str) {
        for c in text.chars() {
            if c == '\n' {
                let w = std::mem::replace(&mut self.wild, 0);
                self.newline();
                self.wild = w;
            } else {
                self.out.push(c);
            }
        }
    }
    fn hspace(&mut self) {
        if self.wild == 0 {
            self.out.push(' ');
            return;
        }
        match self.rng.below(120) {
            0 => self.out.push('\u{b}'),
            1 => self.out.push('\u{c}'),
            2 => self.out.push_str(" \u{c}\u{b}"),
            3..=12 => self.out.push('\t'),
            13..=22 => self.out.push_str("  "),
            23..=32 => self.out.push_str(" \t "),
            _ => self.out.push(' '),
        }
    }
    fn comment(&mut self) {
        let c = *self.rng.pick(COMMENTS);
        self.out.push_str(c);
    }
    fn nl_run(&mut self) {
        // Some newlines, with comments and indentation.
        let n = 1 + self.rng.below(3);
        for _ in 0..n {
            if self.chance(30) {
                self.out.push(' ');
                self.comment();
            } else if self.chance(3) && self.pending.is_empty() {
                // A line continued by an empty one.
                self.out.push_str(" \\\n");
            }
            self.newline();
            if self.chance(40) {
                self.hspace();
            }
        }
    }
    fn terms(&mut self, must_nl: bool) {
        if self.wild == 0 {
            self.newline();
            return;
        }
        let m = if self.chance(30) { 3 } else { 1 };
        let n = 1 + self.rng.below(m);
        let mut had_nl = false;
        for i in 0..n {
            if self.chance(20) {
                self.hspace();
            }
            let last = i + 1 == n;
            if self.rng.coin() || (must_nl && last && !had_nl) {
                if self.chance(30) {
                    self.out.push(' ');
                    self.comment();
                } else if self.chance(4) && self.pending.is_empty() {
                    self.out.push_str(" \\\n");
                }
                self.newline();
                had_nl = true;
            } else {
                self.out.push(';');
            }
            if self.chance(30) {
                self.hspace();
            }
        }
    }
    fn sep(&mut self, t: &Tok, prev: &Tok) {
        if let Some((i, x)) = self.fixed {
            if i == t.id {
                return self.raw(x);
            }
        }
        let mut sep = t.sep;
        if t.nonl {
            sep = match sep {
                Sep::OptNl | Sep::OptNlNc => Sep::Opt,
                Sep::SpNl => Sep::Sp,
                s => s,
            };
        }
        let start = self.out.len();
        let glue_ok = can_glue(&prev.text, &t.text);
        match sep {
            Sep::Glue => return,
            Sep::Opt | Sep::OptNl | Sep::OptNlNc => {
                if self.wild == 0 {
                    if !(glue_ok && matches!(prev.text.as_str(), "(" | "[" | "." | "&.")
                        || glue_ok && matches!(t.text.as_str(), ")" | "]" | "," ))
                        && !(sep == Sep::OptNlNc || t.text == "." || t.text == "&.")
                    {
                        self.out.push(' ');
                    }
                } else if sep == Sep::OptNlNc {
                    if self.chance(25) {
                        self.newline();
                        if self.chance(50) {
                            self.hspace();
                        }
                    } else if self.chance(15) {
                        self.hspace();
                    }
                } else if sep == Sep::OptNl && self.chance(35) {
                    self.nl_run();
                } else if self.chance(4) {
                    self.out.push_str(" \\");
                    self.newline();
                    self.out.push(' ');
                } else if t.text == "." || t.text == "&." {
                    if self.chance(15) {
                        self.hspace();
                    }
                } else if !glue_ok || self.rng.coin() {
                    self.hspace();
                }
            }
            Sep::Sp | Sep::SpNl => {
                if sep == Sep::SpNl && self.chance(35) {
                    self.nl_run();
                } else if self.chance(4) {
                    self.out.push_str(" \\");
                    self.newline();
                    self.out.push(' ');
                } else {
                    self.hspace();
                }
            }
            Sep::Term | Sep::TermNl => {
                if t.nonl {
                    self.out.push_str("; ");
                } else {
                    self.terms(sep == Sep::TermNl)
                }
            }
            Sep::SpTerm | Sep::OptTerm => {
                if t.nonl {
                    if self.chance(20) {
                        self.out.push(';');
                    }
                    self.out.push(' ');
                } else if self.wild == 0 {
                    self.newline();
                } else if self.rng.coin() {
                    self.terms(false);
                } else if sep == Sep::SpTerm || !glue_ok || self.rng.coin() {
                    self.hspace();
                }
            }
        }
        if prev.bin && self.out.len() == start {
            // Had a space before the operator?
            let s = self.spans[prev.id].0;
            if s > 0 && (self.out.as_bytes()[s - 1].is_ascii_whitespace() || self.out.as_bytes()[s - 1] == 0xb) {
                self.out.push(' ');
            }
        }
    }
    fn token(&mut self, t: &'a Tok, prev: Option<&Tok>) {
        if let Some(p) = prev {
            self.sep(t, p);
        }
        let s = self.out.len();
        self.out.push_str(&t.text);
        let e = self.out.len();
        if self.spans.len() <= t.id {
            self.spans.resize(t.id + 1, (usize::MAX, usize::MAX));
        }
        self.spans[t.id] = (s, e.max(s + 1) - 1);
        if let Some(h) = &t.here {
            self.pending.push(h);
        }
    }
}

/// Render tokens. The result ends with a newline only where needed or wanted.
pub fn render(toks: &[Tok], style: Style) -> Out {
    render_with(toks, style, None)
}

/// The layouts which may stand before a token, given the one before it.
pub fn layouts(prev: &Tok, t: &Tok, here: bool) -> Vec<&'static str> {
    const SPACE: &[&str] = &[" ", "  ", "\t", "\u{b}", "\u{c}", " \t \u{c}\u{b} ", " \\\n", " \\\n  ", "\\\n", "\t\\\r\n", " \\\n\\\n", "\\\n \\\n\t"];
    const LINES: &[&str] = &["\n", "\r\n", "\n\n", "\n\r\n\n", "\n  ", " \n\t", "\t\r\n ", " # c\n", " # c\r\n", "\n# c\n", " #\n# }\n", "\n  # end\n\n  # (\n ", " # \"\n", " #'é\r\n\t", " \\\n\n", "\t\\\r\n\r\n", " \\\n \\\n # c\n", " # \\\n", "\n#=end\n", "\u{b}\n\u{c}"];
    const SEMI: &[&str] = &[";", " ; ", ";;", ";\t;", "; # c ;\n", "\n;", ";\n", ";\r\n;", "\n;\n", ";# c\n"];
    let mut v: Vec<&'static str> = vec![];
    let glue = can_glue(&prev.text, &t.text);
    let sep = match (t.nonl, t.sep) {
        (true, Sep::OptNl) | (true, Sep::OptNlNc) => Sep::Opt,
        (true, Sep::SpNl) => Sep::Sp,
        (_, s) => s,
    };
    let cont = |v: &mut Vec<&'static str>| v.extend(SPACE.iter().filter(|x| !(t.nonl && x.contains('\n'))));
    let dot = t.text == "." || t.text == "&.";
    match sep {
        Sep::Glue => {}
        Sep::Opt | Sep::Sp => {
            cont(&mut v);
            if sep == Sep::Opt && (glue || dot) {
                v.push("");
            }
        }
        Sep::OptNl | Sep::SpNl => {
            cont(&mut v);
            if sep == Sep::OptNl && (glue || dot) {
                v.push("");
            }
            v.extend(LINES);
        }
        Sep::OptNlNc => {
            cont(&mut v);
            v.push("");
            v.extend(LINES.iter().filter(|x| !x.contains('#')));
        }
        Sep::Term | Sep::TermNl => {
            if !t.nonl {
                v.extend(LINES.iter().filter(|x| !here || !x.contains('\\') || x.starts_with(" #")));
                v.extend(SEMI.iter().filter(|x| x.contains('\n')));
            }
            if sep == Sep::Term && !here {
                v.extend(SEMI.iter().filter(|x| !x.contains('\n')));
            }
        }
        Sep::SpTerm | Sep::OptTerm => {
            cont(&mut v);
            if sep == Sep::OptTerm && glue {
                v.push("");
            }
            if !t.nonl {
                v.extend(LINES);
                v.extend(SEMI);
            } else {
                v.extend(SEMI.iter().filter(|x| !x.contains('\n')));
            }
        }
    }
    // No space only before a binary operator after a name.
    if prev.bin || prev.text == ":" {
        v.retain(|x| !x.is_empty() && !x.starts_with('\\'));
    }
    v
}

/// The same, with given layout before the token of the given id.
pub fn render_with(toks: &[Tok], style: Style, fixed: Option<(usize, &str)>) -> Out {
    let mut r = R {
        fixed,
        out: String::new(),
        spans: vec![],
        pending: vec![],
        rng: Rng::new(style.seed),
        wild: style.wild,
    };
    if style.wild > 0 && r.chance(25) {
        r.nl_run();
    }
    let mut prev: Option<&Tok> = None;
    for t in toks {
        r.token(t, prev);
        prev = Some(t);
    }
    if !r.pending.is_empty() {
        r.newline();
    } else if style.wild == 0 {
        r.newline();
    } else {
        match r.rng.below(4) {
            0 => r.newline(),
            1 => r.terms(false),
            2 if r.chance(40) => {
                r.out.push(' ');
                r.comment()
            }
            _ => {}
        }
    }
    Out {
        src: r.out,
        spans: r.spans,
    }
}
