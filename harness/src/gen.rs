//! Document composer: builds markdown documents block by block, with container nesting, "dirty" spellings and
//! swarm-style feature switches. Semantics are never assumed: the oracles parse what was generated.
use crate::rng::Rng;
use crate::vocab;

macro_rules! features {
    ($($name:ident),* $(,)?) => {
        #[allow(non_camel_case_types, dead_code)]
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        #[repr(u8)]
        pub enum F { $($name),* }
        pub const ALL_FEATURES: &[(F, &str)] = &[$((F::$name, stringify!($name))),*];
    };
}
features! {
    heading, setext, attrs, fenced, indented, html, rule, table, refdef, footnote, quote, bullet, ordered, metadata,
    task, hardbreak, code, emph, strong, strike, link, reflink, image, autolink, inline_html, entity, escape, fnref,
    special, unicode, dirty, tight, emptyitem, multiline_inline, indent_para, lazy, mdfence, longnum, html_inline_multi,
    setext_multi, sub_first, tabs, deep_indent, vocab,
}

#[derive(Clone, Copy)]
pub struct Feats(pub u64);
impl Feats {
    pub fn all() -> Self {
        Feats(u64::MAX)
    }
    pub fn none() -> Self {
        Feats(0)
    }
    pub fn with(mut self, fs: &[F]) -> Self {
        for f in fs {
            self.0 |= 1 << (*f as u8);
        }
        self
    }
    pub fn without(mut self, fs: &[F]) -> Self {
        for f in fs {
            self.0 &= !(1 << (*f as u8));
        }
        self
    }
    pub fn has(&self, f: F) -> bool {
        self.0 & (1 << (f as u8)) != 0
    }
    /// Swarm: drop each feature with probability 1/3.
    pub fn swarm(mut self, r: &mut Rng) -> Self {
        if r.chance(1, 5) {
            return self;
        }
        for (f, _) in ALL_FEATURES {
            if r.chance(1, 3) {
                self = self.without(&[*f]);
            }
        }
        self
    }
}

pub struct Gen<'r> {
    pub r: &'r mut Rng,
    pub f: Feats,
    pub labels: Vec<String>,
    pub notes: Vec<String>,
    pub max_depth: usize,
    note_ctr: usize,
    label_ctr: usize,
    tight_nested: bool,
    nest: usize,
    in_quote: bool,
    in_note: bool,
}

const WORDS: &[&str] = &[
    "alpha", "beta", "gamma", "delta", "lorem", "ipsum", "dolor", "sit", "amet", "the", "quick", "brown", "fox", "a", "I",
    "of", "x86", "don't", "well-known", "e.g.,", "(see", "below)", "end.", "really?", "yes!", "v1.2.3", "snake_case",
    "foo/bar", "100%", "C3PO", "semi;", "colon:", "\"quoted\"", "it's", "über", "supercalifragilistic",
];
const UWORDS: &[&str] = &[
    "日本語", "漢字", "émigré", "naïve", "Ωmega", "привет", "🎉", "👩‍👩‍👧", "e\u{301}clair", "한국어", "ｆｕｌｌ", "—", "…", "“curly”", "ß",
    "العربية", "ไทย", "ﬁ",
];

/// Could this line start a list item or a footnote definition?
fn is_marker(l: &str) -> bool {
    let t = l.trim_start();
    t.starts_with(['-', '+', '*', '[']) || t.starts_with(|c: char| c.is_ascii_digit())
}

/// Remove the indentation of the first line from all lines.
fn dedent_by_first(body: &mut [String]) {
    let n = body[0].len() - body[0].trim_start_matches(' ').len();
    for l in body.iter_mut() {
        let k = (l.len() - l.trim_start_matches(' ').len()).min(n);
        l.drain(..k);
    }
}

impl<'r> Gen<'r> {
    pub fn new(r: &'r mut Rng, f: Feats) -> Self {
        Gen { r, f, labels: vec![], notes: vec![], max_depth: 3, note_ctr: 0, label_ctr: 0, tight_nested: false, nest: 0, in_quote: false, in_note: false }
    }
    pub fn on(&self, f: F) -> bool {
        self.f.has(f)
    }

    pub fn word(&mut self) -> String {
        if self.on(F::vocab) && self.r.chance(1, 6) {
            return vocab::word(self.r, self.on(F::unicode));
        }
        if self.on(F::unicode) && self.r.chance(1, 6) {
            return self.r.pick(UWORDS).to_string();
        }
        self.r.pick(WORDS).to_string()
    }
    pub fn plain(&mut self, lo: usize, hi: usize) -> String {
        let n = self.r.range(lo, hi);
        (0..n).map(|_| self.word()).collect::<Vec<_>>().join(" ")
    }

    fn url(&mut self) -> String {
        let r = &mut *self.r;
        match r.below(9) {
            0 => "/uri".into(),
            8 => r.pick(&["x", "/", "/u", "xy"]).to_string(),
            1 => "https://example.com/a?b=c&d=e#frag".into(),
            2 => "<a b>".into(),
            3 => "</url>".into(),
            4 => "foo(bar)baz".into(),
            5 => "../rel/path_x*y.md".into(),
            6 => "mailto:x@y.z".into(),
            _ => format!("http://h{}.org/p", r.below(100)),
        }
    }
    fn title(&mut self) -> String {
        let t = self.plain(1, 3).replace('"', "").replace(['(', ')', '\''], "");
        match self.r.below(3) {
            0 => format!("\"{t}\""),
            1 => format!("'{t}'"),
            _ => format!("({t})"),
        }
    }

    pub fn new_label(&mut self) -> String {
        self.label_ctr += 1;
        let mut l = match self.r.below(4) {
            0 => format!("ref{}", self.label_ctr),
            1 => format!("Some Label {}", self.label_ctr),
            2 => format!("l-{}.x", self.label_ctr),
            _ => format!("{}", self.label_ctr),
        };
        if self.on(F::unicode) && self.r.chance(1, 5) {
            l.push_str("é漢");
        }
        if self.on(F::vocab) && self.r.chance(1, 10) {
            l.push_str(crate::vocab::end(self.r));
        }
        self.labels.push(l.clone());
        l
    }

    fn label_ref(&mut self) -> String {
        if !self.labels.is_empty() && self.r.chance(3, 4) {
            let i = self.r.below(self.labels.len());
            self.labels[i].clone()
        } else if self.r.chance(1, 2) {
            // used now, defined later (or never)
            self.new_label()
        } else {
            format!("undef{}", self.r.below(9))
        }
    }

    /// A single inline atom without line breaks. `nest` bounds recursion.
    pub fn inline(&mut self, nest: usize, in_table: bool) -> String {
        for _ in 0..8 {
            let k = self.r.below(22);
            if self.on(F::vocab) && nest > 0 && self.r.chance(1, 10) {
                // `[text]:` at the start of a line is a definition
                let m = vocab::markup(self.r, self.on(F::unicode), false, 1).replace("]:", "];");
                return if in_table { m.replace('|', "x") } else { m };
            }
            let s = match k {
                0..=7 => self.word(),
                8 if self.on(F::code) => {
                    let c = match self.r.below(5) {
                        0 => "code".into(),
                        1 => format!("let {} = 1;", self.word().replace('`', "")),
                        2 if !in_table => "a | b".to_string(),
                        3 if self.on(F::dirty) => "  two  spaces ".into(),
                        _ => "<T> & *x*".into(),
                    };
                    match self.r.below(3) {
                        0 => format!("``{c} ` {c}``"),
                        _ => format!("`{c}`"),
                    }
                }
                9 if self.on(F::emph) && nest > 0 => {
                    let n = nest - 1;
                    let s = self.inlines(1, 2, n, in_table);
                    let s = s.trim();
                    if self.r.chance(1, 2) { format!("*{s}*") } else { format!("_{s}_") }
                }
                10 if self.on(F::strong) && nest > 0 => {
                    let s = self.inlines(1, 2, nest - 1, in_table);
                    let s = s.trim();
                    if self.r.chance(1, 2) { format!("**{s}**") } else { format!("__{s}__") }
                }
                11 if self.on(F::strike) && nest > 0 => {
                    let s = self.inlines(1, 2, nest - 1, in_table);
                    let s = s.trim().replace('~', "");
                    if s.is_empty() {
                        continue;
                    }
                    if self.r.chance(2, 3) { format!("~~{s}~~") } else { format!("~{s}~") }
                }
                12 if self.on(F::link) && nest > 0 => {
                    let s = self.inlines(1, 3, nest.min(1) - 1, in_table);
                    let u = self.url();
                    let t = if self.r.chance(1, 3) { format!(" {}", self.title()) } else { String::new() };
                    format!("[{}]({u}{t})", s.trim())
                }
                13 if self.on(F::reflink) && nest > 0 => {
                    let l = self.label_ref();
                    match self.r.below(3) {
                        0 => {
                            let s = self.plain(1, 3);
                            format!("[{s}][{l}]")
                        }
                        1 => format!("[{l}][]"),
                        _ => format!("[{l}]"),
                    }
                }
                14 if self.on(F::image) && nest > 0 => {
                    let s = self.plain(1, 2);
                    match self.r.below(3) {
                        0 => {
                            let l = self.label_ref();
                            format!("![{s}][{l}]")
                        }
                        1 => {
                            let u = self.url();
                            let t = self.title();
                            format!("![{s}]({u} {t})")
                        }
                        _ => {
                            let u = self.url();
                            format!("![{s}]({u})")
                        }
                    }
                }
                15 if self.on(F::autolink) => {
                    (*self.r.choose(&["<https://example.com/x?y=z>", "<me@example.com>", "<mailto:a@b.c>", "<irc://foo.bar:2233/baz>"])).into()
                }
                16 if self.on(F::inline_html) => {
                    (*self.r.choose(&["<b>bold</b>", "<br/>", "<span class=\"x\">", "</span>", "<!-- note -->", "<a href='u'>t</a>"])).into()
                }
                17 if self.on(F::entity) => (*self.r.choose(&["&amp;", "&copy;", "&#35;", "&#x22;", "&nbsp;", "&lt;tag&gt;", "&unknown;"])).into(),
                18 if self.on(F::escape) => {
                    (*self.r.choose(&["\\*not\\*", "\\_x\\_", "\\[b\\]", "\\`t\\`", "\\\\", "\\#", "\\<b>", "\\&amp;", "\\!", "\\>", "\\~", "1\\.", "\\|"])).into()
                }
                19 if self.on(F::fnref) => {
                    if self.notes.is_empty() || self.r.chance(1, 3) {
                        self.note_ctr += 1;
                        let l = format!("n{}", self.note_ctr);
                        self.notes.push(l);
                    }
                    let i = self.r.below(self.notes.len());
                    format!("{}[^{}]", self.word(), self.notes[i])
                }
                20 if self.on(F::special) && !in_table && nest >= 2 => {
                    (*self.r.choose(&["*", "**", "_", "<", ">", "&", "#", "-", "+", "=", "|", "!", "]", "1.", "2)", "~", "$x$", "a*b", "2*3*4", "a_b_c", "x<y", "a>b", "C#", "^", ":", "::", "@"])).into()
                }
                _ => continue,
            };
            return s;
        }
        self.word()
    }

    pub fn inlines(&mut self, lo: usize, hi: usize, nest: usize, in_table: bool) -> String {
        let n = self.r.range(lo, hi);
        let mut s = String::new();
        for i in 0..n {
            if i > 0 {
                s.push_str(if self.on(F::dirty) && self.r.chance(1, 25) { "  " } else { " " });
            }
            let x = self.inline(nest, in_table);
            s.push_str(&x);
        }
        s
    }

    fn lead(&mut self) -> String {
        if self.on(F::dirty) && self.r.chance(1, 5) {
            " ".repeat(self.r.range(1, 3))
        } else {
            String::new()
        }
    }

    /// Text safe to begin a paragraph line (starts with a letter word).
    fn safe_start(&mut self) -> String {
        loop {
            let w = self.word();
            if w.chars().next().is_some_and(|c| c.is_alphabetic()) {
                return w;
            }
        }
    }

    pub fn para(&mut self) -> Vec<String> {
        let n = if self.r.chance(1, 2) { 1 } else { self.r.range(2, 4) };
        let mut out = vec![];
        for i in 0..n {
            let mut line = String::new();
            if i == 0 {
                line.push_str(&self.lead());
            } else if self.on(F::indent_para) && self.r.chance(1, 6) {
                line.push_str(&" ".repeat(self.r.range(1, if self.on(F::deep_indent) { 6 } else { 3 })));
            }
            if line.len() >= 4 && self.r.chance(1, 2) {
                // what would be a block of its own if it weren't indented that far
                let x = ["# ", "> ", "- ", "* ", "+ ", "1. ", "1) ", "```", "~~~", "---", "===", "***", "* * *", "<div>", "</div>", "<div é ", "</p ", "<!-- x -->", "<?x?>", "<pre>", "<hr/>", "[^zz]: ", "[^1]: ", "-", "#", "[zz]: /u", "_ _ _", "##", ">"];
                line.push_str(self.r.choose(&x));
                // still indented that far when the lead of the first line is taken off all lines
                let lead = out.first().map_or(0, |f: &String| f.len() - f.trim_start_matches(' ').len());
                line.insert_str(0, &" ".repeat(lead));
            }
            if self.on(F::special) && line.is_empty() && self.r.chance(1, 10) && i > 0 {
                // anything at the start of a continuation line
                line.push_str(&self.inline(2, false));
            } else {
                line.push_str(&self.safe_start());
            }
            if self.r.chance(4, 5) {
                line.push(' ');
                line.push_str(&self.inlines(1, 7, 2, false));
            }
            if i + 1 < n {
                if self.on(F::multiline_inline) && self.r.chance(1, 8) {
                    // an inline construct spanning the line break
                    let (a, b) = *self.r.choose(&[("*", "*"), ("**", "**"), ("`", "`"), ("_", "_"), ("~~", "~~"), ("[", "](/multi)"), ("[", "]")]);
                    let x = self.plain(1, 2);
                    let y = self.plain(1, 2);
                    line.push_str(&format!(" {a}{x}"));
                    out.push(line);
                    line = format!("{y}{b} {}", self.word());
                    if i + 2 < n {
                        out.push(line);
                        continue;
                    }
                } else if self.on(F::html_inline_multi) && self.r.chance(1, 20) {
                    line.push_str(" <span");
                    out.push(line);
                    line = "class=\"multi\">".to_string();
                } else if self.on(F::hardbreak) && self.r.chance(1, 5) {
                    if self.r.chance(1, 2) {
                        line.push_str("  ");
                        if self.on(F::dirty) && self.r.chance(1, 4) {
                            line.push(' ');
                        }
                    } else {
                        line.push('\\');
                    }
                }
            }
            out.push(line);
        }
        // a paragraph's last line has no hard break
        out
    }

    fn attrs(&mut self) -> String {
        match self.r.below(7) {
            0 => "{#id1}".into(),
            5 => self.r.pick(&["{a b= c=d}", "{k=a=b .c e=}", "{x=1 y=2 z=3 w}", "{k=\"v\" #i}", "{.a k .b l #i m=}"]).to_string(),
            1 => "{.cls}".into(),
            2 => "{#id2 .c1 .c2}".into(),
            3 => "{#id3 .c1 k=v}".into(),
            4 => "{key}".into(),
            _ => "{#id4 k=v flag}".into(),
        }
    }

    fn heading(&mut self) -> Vec<String> {
        let lvl = self.r.range(1, 6);
        let dirty = self.on(F::dirty);
        let mut s = self.lead();
        s.push_str(&"#".repeat(lvl));
        if self.r.chance(1, 20) {
            return vec![s];
        }
        s.push_str(if dirty && self.r.chance(1, 4) { "   " } else { " " });
        s.push_str(&self.safe_start());
        if self.r.chance(3, 4) {
            s.push(' ');
            s.push_str(&self.inlines(1, 4, 2, false));
            if s.ends_with(['#', '}']) {
                s.push('x');
            }
        }
        if self.on(F::attrs) && self.r.chance(1, 4) {
            s.push(' ');
            s.push_str(&self.attrs());
        } else if dirty && self.r.chance(1, 5) {
            s.push(' ');
            s.push_str(&"#".repeat(self.r.range(1, 7)));
            if self.r.chance(1, 3) {
                s.push_str("  ");
            }
        }
        vec![s]
    }

    fn setext(&mut self) -> Vec<String> {
        let mut out = vec![];
        let n = if self.on(F::setext_multi) && self.r.chance(1, 3) { 2 } else { 1 };
        for _ in 0..n {
            let mut l = self.safe_start();
            if self.r.chance(2, 3) {
                l.push(' ');
                l.push_str(&self.inlines(1, 3, 2, false));
            }
            out.push(l);
        }
        if self.on(F::attrs) && self.r.chance(1, 6) {
            let a = self.attrs();
            let l = out.last_mut().unwrap();
            l.push(' ');
            l.push_str(&a);
        }
        let c = if self.r.chance(1, 2) { "=" } else { "-" };
        let lead = self.lead();
        let k = if self.r.chance(1, 4) { self.r.range(1, 2) } else { self.r.range(3, 12) };
        // a one-dash underline is fine for setext but "-" alone is also an empty item: keep >= 2 dashes
        let k = if c == "-" { k.max(2) } else { k };
        out.push(format!("{lead}{}", c.repeat(k)));
        out
    }

    pub fn code_line(&mut self) -> String {
        let tabs = self.on(F::tabs);
        match self.r.below(14) {
            0 => String::new(),
            1 if self.on(F::vocab) => vocab::code_line(self.r),
            1 => "fn main() {".into(),
            2 => "    println!(\"hi\");".into(),
            3 => "}".into(),
            4 => "# not a heading".into(),
            5 => "- not a list".into(),
            6 => "> not a quote".into(),
            7 if tabs => "\tindented\twith tab".into(),
            8 => "  *  [x]: y  |  z".into(),
            9 => "<div>&amp;\\*".into(),
            10 => "    ".to_string() + &self.word(),
            11 => "1. one".into(),
            12 => "| a | b |".into(),
            _ => self.plain(1, 4),
        }
    }

    fn fenced(&mut self, depth: usize) -> Vec<String> {
        let c = if self.r.chance(2, 3) { "`" } else { "~" };
        let len = if self.r.chance(3, 4) { 3 } else { self.r.range(4, 7) };
        let infos = ["", "rust", "rust,ignore", "text title=\"x y\"", "c++", "{.rust .numberLines}", "sh", "日本", "a&amp;b", "lang\\_x"];
        let mut info = (*self.r.choose(&infos)).to_string();
        let mut body = vec![];
        let mut long = false;
        if self.on(F::mdfence) && self.r.chance(1, 8) && depth > 0 {
            info = "markdown".into();
            // every fence of the embedded document is shorter than ours
            let outer = self.f;
            self.f = outer.without(&[F::mdfence]);
            let d = self.sub_doc(depth - 1);
            self.f = outer;
            long = true;
            body = d;
        } else {
            let n = self.r.below(6);
            for _ in 0..n {
                let l = self.code_line();
                body.push(l);
            }
        }
        let len = if long { 9 } else { len };
        let lead = self.lead();
        let sp = if self.r.chance(1, 4) && !info.is_empty() { " " } else { "" };
        let fence = c.repeat(len);
        let mut out = vec![format!("{lead}{fence}{sp}{info}")];
        out.extend(body.into_iter().map(|l| if l.is_empty() { l } else { format!("{lead}{l}") }));
        let close = if self.on(F::dirty) && self.r.chance(1, 6) { len + 1 } else { len };
        out.push(format!("{lead}{}", c.repeat(close)));
        out
    }

    fn sub_doc(&mut self, depth: usize) -> Vec<String> {
        let n = self.r.range(1, 2);
        self.nested(n, depth.min(1))
    }

    fn indented(&mut self) -> Vec<String> {
        let n = self.r.range(1, 4);
        let mut out = vec![];
        for i in 0..n {
            let l = self.code_line();
            if l.trim().is_empty() {
                if i == 0 || i + 1 == n {
                    out.push("    code".into());
                } else {
                    out.push(String::new());
                }
            } else {
                out.push(format!("    {l}"));
            }
        }
        out
    }

    fn html(&mut self) -> Vec<String> {
        let v: &[&[&str]] = &[
            &["<div>", "  *raw* text", "</div>"],
            &["<!-- comment -->"],
            &["<!-- multi", "", "   line -->"],
            &["<table><tr><td>", "x", "</td></tr></table>"],
            &["<pre>", "  keep", "", "    this", "</pre>"],
            &["<?php echo '>'; ?>"],
            &["<!DOCTYPE html>"],
            &["<p align=\"center\">", "<img src=\"x.png\">", "</p>"],
            &["<details>", "<summary>s</summary>", "</details>"],
            &["<custom-tag attr>", "text", "</custom-tag>"],
        ];
        let b = *self.r.choose(v);
        let mut b: Vec<String> = b.iter().map(|s| s.to_string()).collect();
        b[0].insert_str(0, &self.lead());
        b
    }

    fn rule(&mut self) -> Vec<String> {
        let r = (*self.r.choose(&["---", "***", "___", "* * *", "- - -", "_____", "**********", "-  -  -"])).to_string();
        // a `---` at the start of a nested block may be read as a metadata block by the parser
        let r = if r == "---" && self.nest > 0 { "***".to_string() } else { r };
        vec![format!("{}{r}", self.lead())]
    }

    pub fn table(&mut self) -> Vec<String> {
        let cols = self.r.range(1, 4);
        let rows = self.r.below(4);
        let mut out = vec![];
        let dirty = self.on(F::dirty);
        let outer = !(dirty && cols > 1 && self.r.chance(1, 4));
        let mk = |g: &mut Self, cells: Vec<String>| {
            let pad = |g: &mut Self, c: String| {
                if dirty {
                    let a = " ".repeat(g.r.below(3));
                    let b = " ".repeat(g.r.below(4));
                    format!("{a}{c}{b}")
                } else {
                    format!(" {c} ")
                }
            };
            let cs: Vec<String> = cells.into_iter().map(|c| pad(g, c)).collect();
            if outer {
                format!("|{}|", cs.join("|"))
            } else {
                cs.join("|").trim_start().to_string()
            }
        };
        let cell = |g: &mut Self| -> String {
            if g.r.chance(1, 10) {
                String::new()
            } else {
                g.inlines(1, 3, 1, true)
            }
        };
        let h: Vec<String> = (0..cols).map(|_| { let c = self.safe_start(); if self.r.chance(1, 2) { let d = cell(self); format!("{c} {d}") } else { c } }).collect();
        out.push(mk(self, h));
        let d: Vec<String> = (0..cols).map(|_| (*self.r.choose(&["---", ":--", "--:", ":-:", "-----", ":---:", "----:"])).to_string()).collect();
        out.push(mk(self, d));
        for _ in 0..rows {
            let n = if dirty && self.r.chance(1, 6) { self.r.range(1, cols + 1) } else { cols };
            let mut c: Vec<String> = (0..n).map(|_| cell(self)).collect();
            if !outer || n == 1 {
                // first cell must not be blank nor look like a block start
                c[0] = self.safe_start();
            }
            out.push(mk(self, c));
        }
        out
    }

    fn refdef(&mut self) -> Vec<String> {
        let l = if !self.labels.is_empty() && self.r.chance(1, 2) {
            let i = self.r.below(self.labels.len());
            self.labels[i].clone()
        } else {
            self.new_label()
        };
        let u = self.url();
        let lead = self.lead();
        let mut s = format!("{lead}[{l}]: {u}");
        if self.r.chance(1, 3) {
            s.push(' ');
            s.push_str(&self.title());
        }
        if self.on(F::dirty) && self.r.chance(1, 8) {
            return vec![format!("{lead}[{l}]:"), format!("  {u}")];
        }
        vec![s]
    }

    fn footnote(&mut self, depth: usize) -> Vec<String> {
        let outer = std::mem::replace(&mut self.in_note, true);
        let v = self.footnote_inner(depth);
        self.in_note = outer;
        v
    }
    fn footnote_inner(&mut self, depth: usize) -> Vec<String> {
        let l = if !self.notes.is_empty() && self.r.chance(1, 2) {
            let i = self.r.below(self.notes.len());
            self.notes[i].clone()
        } else {
            self.note_ctr += 1;
            let l = format!("n{}", self.note_ctr);
            self.notes.push(l.clone());
            l
        };
        let mut out = vec![];
        let first = if self.r.chance(2, 3) || depth == 0 {
            self.para()
        } else {
            self.nested(1, depth - 1)
        };
        let mut body = first;
        if body[0].starts_with("    ") {
            body = self.para();
        }
        dedent_by_first(&mut body);
        let table = body[0].contains('|');
        if depth > 0 && self.r.chance(1, 3) {
            let absorbs = is_marker(&body[0]) || body.iter().any(|l| l.starts_with(' '));
            body.push(String::new());
            body.extend(self.nested_after(1, depth - 1, absorbs));
        }
        if !table && self.r.chance(1, 2) {
            let f0 = body.remove(0);
            out.push(format!("[^{l}]: {}", f0.trim_start()));
        } else {
            out.push(format!("[^{l}]:"));
        }
        out.extend(body.into_iter().map(|s| if s.is_empty() { s } else { format!("    {s}") }));
        out
    }

    fn quote(&mut self, depth: usize) -> Vec<String> {
        let n = self.r.range(1, 3);
        let outer = std::mem::replace(&mut self.in_quote, true);
        let body = self.nested(n, depth - 1);
        self.in_quote = outer;
        let nospace = self.on(F::dirty) && self.r.chance(1, 5);
        let lazy = self.on(F::lazy) && self.r.chance(1, 6);
        let lead = self.lead();
        let mut prev_text = false;
        body.into_iter()
            .enumerate()
            .map(|(i, l)| {
                if l.is_empty() {
                    prev_text = false;
                    return format!("{lead}>");
                }
                let plain_text = l.chars().next().is_some_and(|c| c.is_alphabetic()) ;
                let this_lazy = lazy && i > 0 && prev_text && plain_text;
                prev_text = plain_text;
                if this_lazy {
                    l
                } else if nospace && !l.starts_with([' ', '\t']) {
                    format!("{lead}>{l}")
                } else {
                    format!("{lead}> {l}")
                }
            })
            .collect()
    }

    fn list(&mut self, depth: usize, ordered: bool) -> Vec<String> {
        let items = self.r.range(1, 4);
        let tight = self.on(F::tight) && self.r.chance(1, 2);
        let bullet = *self.r.choose(&["*", "-", "+"]);
        let delim = *self.r.choose(&[".", ")"]);
        let start = if self.on(F::longnum) && self.r.chance(1, 6) {
            *self.r.choose(&[9usize, 10, 99, 100, 998, 12345, 9999999])
        } else {
            *self.r.choose(&[1usize, 1, 1, 0, 2, 7])
        };
        let same = self.r.chance(1, 4);
        let zeros = if self.on(F::longnum) && self.r.chance(1, 8) && start < 1000 { self.r.range(1, 5) } else { 0 };
        let lead = if self.on(F::dirty) && self.r.chance(1, 6) { self.r.range(1, 3) } else { 0 };
        self.tight_nested = false;
        let gap = if self.on(F::dirty) && self.r.chance(1, 4) { self.r.range(1, 4) } else { 1 };
        let mut out: Vec<String> = vec![];
        for i in 0..items {
            let marker = if ordered {
                let n = if same { start } else { start + i };
                format!("{}{}{}", "0".repeat(zeros), n, delim)
            } else {
                bullet.to_string()
            };
            if i > 0 && !tight {
                for _ in 0..(if self.r.chance(1, 6) { 2 } else { 1 }) {
                    out.push(String::new());
                }
            }
            if self.on(F::emptyitem) && !self.in_quote && !self.in_note && self.r.chance(1, 14) {
                out.push(format!("{}{marker}", " ".repeat(lead)));
                continue;
            }
            let mut body = if tight || depth == 0 || self.r.chance(1, 2) {
                self.para()
            } else if self.on(F::sub_first) {
                self.nested(1, depth - 1)
            } else {
                self.para()
            };
            if body[0].starts_with("    ") {
                // an item can't start with an indented code block here
                body = self.para();
            }
            dedent_by_first(&mut body);
            if self.on(F::task) && self.r.chance(1, 6) {
                if body[0].chars().next().is_some_and(|c| c.is_alphabetic()) {
                    body[0] = format!("[{}] {}", self.r.choose(&["x", " "]), body[0]);
                }
            }
            if depth > 0 && self.r.chance(1, 3) {
                if tight {
                    // a nested list directly under the text
                    let o = self.r.chance(1, 2);
                    if (o && self.on(F::ordered)) || (!o && self.on(F::bullet)) {
                        // an ordered list interrupts a paragraph only when it starts with 1
                        self.tight_nested = true;
                        let sub = self.list(depth - 1, false);
                        body.extend(sub);
                    }
                } else {
                    let absorbs = is_marker(&body[0]) || body.iter().any(|l| l.starts_with(' '));
                    body.push(String::new());
                    let n = self.r.range(1, 2);
                    body.extend(self.nested_after(n, depth - 1, absorbs));
                }
            }
            let width = lead + marker.len() + gap;
            for (j, l) in body.into_iter().enumerate() {
                if j == 0 {
                    out.push(format!("{}{marker}{}{l}", " ".repeat(lead), " ".repeat(gap)));
                } else if l.is_empty() {
                    out.push(l);
                } else {
                    out.push(format!("{}{l}", " ".repeat(width)));
                }
            }
        }
        out
    }

    pub fn block(&mut self, depth: usize) -> Vec<String> {
        for _ in 0..20 {
            let k = self.r.below(28);
            return match k {
                0..=4 => self.para(),
                5 | 6 if self.on(F::heading) => self.heading(),
                7 if self.on(F::setext) => self.setext(),
                8 | 9 if self.on(F::fenced) => self.fenced(depth),
                10 if self.on(F::indented) => self.indented(),
                11 if self.on(F::html) => self.html(),
                12 if self.on(F::rule) => self.rule(),
                13 | 14 if self.on(F::table) => self.table(),
                15 | 16 if self.on(F::refdef) => self.refdef(),
                17 if self.on(F::footnote) && !self.in_note => self.footnote(depth),
                18..=20 if self.on(F::quote) && depth > 0 => self.quote(depth),
                21..=23 if self.on(F::bullet) && depth > 0 => self.list(depth, false),
                24..=26 if self.on(F::ordered) && depth > 0 => self.list(depth, true),
                _ => continue,
            };
        }
        self.para()
    }

    fn nested(&mut self, n: usize, depth: usize) -> Vec<String> {
        self.nested_after(n, depth, false)
    }

    fn nested_after(&mut self, n: usize, depth: usize, absorbs: bool) -> Vec<String> {
        self.nest += 1;
        let b = self.blocks_after(n, depth, absorbs);
        self.nest -= 1;
        b
    }

    /// `n` blocks separated by blank lines.
    pub fn blocks(&mut self, n: usize, depth: usize) -> Vec<String> {
        self.blocks_after(n, depth, false)
    }

    fn blocks_after(&mut self, n: usize, depth: usize, mut absorbs: bool) -> Vec<String> {
        let mut out: Vec<String> = vec![];
        for i in 0..n {
            if i > 0 {
                let k = if self.on(F::dirty) && self.r.chance(1, 8) { self.r.range(2, 3) } else { 1 };
                for _ in 0..k {
                    out.push(String::new());
                }
            }
            let mut b = self.block(depth);
            // indented code can't follow a list or a footnote: it would belong to the last item
            while absorbs && b[0].starts_with("    ") {
                b = self.block(depth);
            }
            absorbs = b.last().is_some_and(|l| l.starts_with(' ')) || is_marker(&b[0]);
            out.extend(b);
        }
        out
    }

    pub fn document(&mut self, lo: usize, hi: usize) -> String {
        let n = self.r.range(lo, hi);
        let mut lines = vec![];
        if self.on(F::metadata) && self.r.chance(1, 12) {
            let m = if self.r.chance(1, 2) { "---" } else { "+++" };
            lines.push(m.to_string());
            lines.push("title: x y".into());
            if self.r.chance(1, 2) {
                lines.push("tags: [a,  b]".into());
            }
            lines.push(m.to_string());
            lines.push(String::new());
        }
        let d = self.max_depth;
        lines.extend(self.blocks(n, d));
        // define the labels/notes that were used
        if self.on(F::refdef) && self.r.chance(2, 3) {
            let ls = self.labels.clone();
            if !ls.is_empty() {
                lines.push(String::new());
                for l in ls {
                    if self.r.chance(1, 2) {
                        let u = self.url();
                        lines.push(format!("[{l}]: {u}"));
                    }
                }
            }
        }
        if self.on(F::footnote) && self.r.chance(2, 3) {
            for l in self.notes.clone() {
                if self.r.chance(1, 2) {
                    lines.push(String::new());
                    lines.push(format!("[^{l}]: {}", self.safe_start()));
                }
            }
        }
        let mut s = lines.join("\n");
        match self.r.below(6) {
            0 => {}
            1 if self.on(F::dirty) => s.push_str("\n\n"),
            _ => s.push('\n'),
        }
        s
    }
}
