//! Reference model of the formatter's layout. A document is generated as a tree; the tree is rendered twice: as the
//! one canonical text (`canon`), and in a random spelling that differs from it only in insignificant ways (`dirty`).
//! The model knows nothing of the implementation: containers prefix lines, paragraphs are filled greedily, tables are
//! padded, everything else is written as spelled.
use crate::frame::Cfg;
use crate::rng::Rng;
use crate::vocab;
use unicode_width::UnicodeWidthStr;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Hard {
    No,
    Spaces,
    Back,
}

#[derive(Clone, Debug)]
pub struct PLine {
    /// separated by single spaces
    pub atoms: Vec<String>,
    pub hard: Hard,
}

#[derive(Clone, Debug, Default)]
pub struct Attrs {
    pub id: Option<String>,
    pub classes: Vec<String>,
    pub kv: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct Def {
    pub label: String,
    pub dest: String,
    pub title: Option<String>,
}

#[derive(Clone, Debug)]
pub struct Item {
    pub marker: String,
    pub task: Option<bool>,
    pub body: Seq,
}

/// children with the number of blank lines in front (ignored for the first)
pub type Seq = Vec<(usize, Blk)>;

#[derive(Clone, Debug)]
pub enum Blk {
    Para(Vec<PLine>),
    Atx { level: usize, text: String, attrs: Option<Attrs> },
    Setext { level: usize, lines: Vec<String>, attrs: Option<Attrs>, under: usize },
    Fence { ch: char, len: usize, info: String, body: Vec<String> },
    /// an embedded markdown document
    Md { ch: char, len: usize, info: String, seq: Seq },
    Indented(Vec<String>),
    Html(Vec<String>),
    Rule(String),
    /// alignment 0 none, 1 left, 2 right, 3 centre; the first row is the header
    Table { align: Vec<u8>, rows: Vec<Vec<String>> },
    Defs(Vec<Def>),
    Quote(Seq),
    List { items: Vec<(usize, Item)> },
    Note { label: String, body: Seq },
    Meta { mark: &'static str, body: Vec<String> },
}

#[derive(Clone, Debug)]
pub struct Line {
    pub s: String,
    /// starts with the marker of a block quote
    q: bool,
    /// continuation text of a paragraph
    cont: bool,
}
fn l(s: impl Into<String>) -> Line {
    Line { s: s.into(), q: false, cont: false }
}

impl Attrs {
    pub fn canon(&self) -> String {
        let mut v = vec![];
        if let Some(i) = &self.id {
            v.push(format!("#{i}"));
        }
        v.extend(self.classes.iter().map(|c| format!(".{c}")));
        v.extend(self.kv.iter().cloned());
        format!("{{{}}}", v.join(" "))
    }
}

pub fn width(s: &str) -> usize {
    s.width()
}

/// Greedy filling of space-separated words.
pub fn fill(words: &[&str], avail: usize) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    for w in words {
        match out.last_mut() {
            Some(l) if l.width() + 1 + w.width() <= avail => {
                l.push(' ');
                l.push_str(w);
            }
            _ => out.push(w.to_string()),
        }
    }
    out
}

pub fn para_canon(p: &[PLine], avail: Option<usize>, reflow: bool) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let hard_suffix = |h: Hard| match h {
        Hard::No => "",
        Hard::Spaces => "  ",
        Hard::Back => "\\",
    };
    let mut seg: Vec<String> = vec![];
    for (i, line) in p.iter().enumerate() {
        let text = line.atoms.join(" ");
        let last = i + 1 == p.len();
        let back = if line.hard == Hard::Back { "\\" } else { "" };
        seg.push(format!("{text}{back}"));
        let end_seg = last || line.hard != Hard::No;
        match avail {
            None => {
                out.push(format!("{text}{}", hard_suffix(line.hard)));
                seg.clear();
            }
            Some(a) => {
                if end_seg || !reflow {
                    let joined = seg.join(" ");
                    let words: Vec<&str> = joined.split(' ').collect();
                    let mut ls = fill(&words, a);
                    if line.hard == Hard::Spaces {
                        ls.last_mut().unwrap().push_str("  ");
                    }
                    out.extend(ls);
                    seg.clear();
                }
            }
        }
    }
    out
}

/// Layout of a table: columns padded to the widest cell, at least three wide.
pub fn table_canon(align: &[u8], rows: &[Vec<String>]) -> Vec<String> {
    let n = align.len();
    let mut w = vec![3usize; n];
    for r in rows {
        for (i, c) in r.iter().take(n).enumerate() {
            w[i] = w[i].max(c.width());
        }
    }
    let row = |r: &Vec<String>| {
        let mut s = String::from("|");
        for i in 0..n {
            let c = r.get(i).map(|s| s.as_str()).unwrap_or("");
            s.push(' ');
            s.push_str(c);
            s.push_str(&" ".repeat(w[i] - c.width()));
            s.push_str(" |");
        }
        s
    };
    let mut out = vec![row(&rows[0])];
    let mut s = String::from("|");
    for i in 0..n {
        let k = w[i];
        let d = match align[i] {
            0 => "-".repeat(k),
            1 => format!(":{}", "-".repeat(k - 1)),
            2 => format!("{}:", "-".repeat(k - 1)),
            _ => format!(":{}:", "-".repeat(k - 2)),
        };
        s.push_str(&format!(" {d} |"));
    }
    out.push(s);
    out.extend(rows[1..].iter().map(row));
    out
}

// ------------------------------------------------------------------------------------------------ canonical text

fn canon_blk(b: &Blk, avail: Option<usize>, reflow: bool) -> Vec<Line> {
    match b {
        Blk::Para(p) => para_canon(p, avail, reflow).into_iter().map(l).collect(),
        Blk::Atx { level, text, attrs } => {
            let mut s = "#".repeat(*level);
            if !text.is_empty() {
                s.push(' ');
                s.push_str(text);
            }
            if let Some(a) = attrs {
                s.push(' ');
                s.push_str(&a.canon());
            }
            vec![l(s)]
        }
        Blk::Setext { level, lines, attrs, under } => {
            let mut v: Vec<Line> = lines.iter().map(l).collect();
            if let Some(a) = attrs {
                let x = v.last_mut().unwrap();
                x.s = format!("{} {}", x.s, a.canon());
            }
            v.push(l(if *level == 1 { "=" } else { "-" }.repeat(*under)));
            v
        }
        Blk::Fence { ch, len, info, body } => {
            let f = ch.to_string().repeat(*len);
            let mut v = vec![l(format!("{f}{info}"))];
            v.extend(body.iter().map(l));
            v.push(l(f));
            v
        }
        Blk::Md { ch, len, info, seq } => {
            let f = ch.to_string().repeat(*len);
            let mut v = vec![l(format!("{f}{info}"))];
            v.extend(canon_seq(seq, avail, reflow).into_iter().map(|x| l(x.s)));
            v.push(l(f));
            v
        }
        Blk::Indented(b) => b.iter().map(|s| l(if s.is_empty() { String::new() } else { format!("    {s}") })).collect(),
        Blk::Html(b) => b.iter().map(l).collect(),
        Blk::Rule(r) => vec![l(r)],
        Blk::Table { align, rows } => table_canon(align, rows).into_iter().map(l).collect(),
        Blk::Defs(d) => d
            .iter()
            .map(|d| l(format!("[{}]: {}{}", d.label, d.dest, d.title.as_ref().map(|t| format!(" {t}")).unwrap_or_default())))
            .collect(),
        Blk::Quote(seq) => {
            let mut out = vec![];
            for (i, (gap, b)) in seq.iter().enumerate() {
                if i > 0 {
                    out.extend((0..*gap).map(|_| Line { s: ">".into(), q: true, cont: false }));
                }
                let p = if matches!(b, Blk::Quote(_)) { 1 } else { 2 };
                for line in canon_blk(b, avail.map(|a| a.saturating_sub(p)), reflow) {
                    let s = if line.s.is_empty() || line.q { format!(">{}", line.s) } else { format!("> {}", line.s) };
                    out.push(Line { s, q: true, cont: false });
                }
            }
            out
        }
        Blk::List { items } => {
            let mut out = vec![];
            for (i, (gap, it)) in items.iter().enumerate() {
                if i > 0 {
                    out.extend((0..*gap).map(|_| l("")));
                }
                let w = it.marker.len() + 1;
                let body = canon_item(it, avail.map(|a| a.saturating_sub(w)), reflow);
                if body.is_empty() {
                    out.push(l(it.marker.clone()));
                }
                for (j, line) in body.into_iter().enumerate() {
                    out.push(if j == 0 {
                        l(format!("{} {}", it.marker, line.s))
                    } else if line.s.is_empty() {
                        l("")
                    } else {
                        l(format!("{}{}", " ".repeat(w), line.s))
                    });
                }
            }
            out
        }
        Blk::Note { label, body } => {
            let mut out = vec![l(format!("[^{label}]:"))];
            for line in canon_seq(body, avail.map(|a| a.saturating_sub(4)), reflow) {
                out.push(if line.s.is_empty() { l("") } else { l(format!("    {}", line.s)) });
            }
            out
        }
        Blk::Meta { mark, body } => {
            let mut v = vec![l(*mark)];
            v.extend(body.iter().map(l));
            v.push(l(*mark));
            v
        }
    }
}

fn canon_item(it: &Item, avail: Option<usize>, reflow: bool) -> Vec<Line> {
    // The box of a task is written in front of the text of the first paragraph and takes part in its filling.
    let mut body = it.body.clone();
    if let (Some(t), Some((_, Blk::Para(p)))) = (it.task, body.first_mut()) {
        // an empty box is one word
        let m = if t { "[x]" } else { "[\u{e000}]" };
        p[0].atoms.insert(0, m.to_string());
    }
    canon_seq(&body, avail, reflow)
}

fn canon_seq(seq: &Seq, avail: Option<usize>, reflow: bool) -> Vec<Line> {
    let mut out = vec![];
    for (i, (gap, b)) in seq.iter().enumerate() {
        if i > 0 {
            out.extend((0..*gap).map(|_| l("")));
        }
        out.extend(canon_blk(b, avail, reflow));
    }
    out
}

pub fn canon(doc: &Seq, cfg: Cfg) -> String {
    canon_seq(doc, cfg.width, cfg.reflow && cfg.width.is_some()).into_iter().map(|l| l.s).collect::<Vec<_>>().join("\n").replace('\u{e000}', " ")
}

// ------------------------------------------------------------------------------------------------ code blocks

/// A fenced code block that the callback is to see: info string, code, indentation, available width.
pub struct Visit<'a> {
    pub info: &'a str,
    pub body: &'a mut Vec<String>,
    pub indentation: usize,
    pub width: Option<usize>,
}
/// Visit the fenced code blocks in the order of the document.
pub fn visit_fences(seq: &mut Seq, indent: usize, width: Option<usize>, f: &mut impl FnMut(Visit)) {
    for (_, b) in seq.iter_mut() {
        match b {
            Blk::Fence { info, body, .. } => f(Visit { info, body, indentation: indent, width }),
            Blk::Md { seq, .. } => visit_fences(seq, 0, width.map(|w| w.saturating_sub(indent)), f),
            Blk::Quote(s) => {
                for x in s.iter_mut() {
                    let p = if matches!(x.1, Blk::Quote(_)) { 1 } else { 2 };
                    let mut one = vec![std::mem::replace(x, (0, Blk::Rule(String::new())))];
                    visit_fences(&mut one, indent + p, width, f);
                    *x = one.pop().unwrap();
                }
            }
            Blk::List { items } => {
                for (_, it) in items.iter_mut() {
                    visit_fences(&mut it.body, indent + it.marker.len() + 1, width, f);
                }
            }
            Blk::Note { body, .. } => visit_fences(body, indent + 4, width, f),
            _ => {}
        }
    }
}

// ------------------------------------------------------------------------------------------------ random spelling

fn ends_in_defs(b: &Blk) -> bool {
    match b {
        Blk::Defs(_) => true,
        Blk::Quote(s) | Blk::Note { body: s, .. } | Blk::Md { seq: s, .. } => s.last().is_some_and(|x| ends_in_defs(&x.1)),
        Blk::List { items } => items.last().and_then(|x| x.1.body.last()).is_some_and(|x| ends_in_defs(&x.1)),
        _ => false,
    }
}

/// Which liberties `dirty` takes.
#[derive(Clone, Copy)]
pub struct Dirt {
    /// out of 8: how often a liberty is taken
    pub rate: usize,
    pub lazy: bool,
    pub trailing: bool,
    /// tabs around the closing run of a heading: the parser then takes the run for text, the formatter (like the
    /// CommonMark spec) doesn't, so the parser can't be the judge of such a document
    pub closing_tabs: bool,
}
impl Dirt {
    pub const CLEAN: Dirt = Dirt { rate: 0, lazy: false, trailing: false, closing_tabs: false };
    pub const FULL: Dirt = Dirt { rate: 3, lazy: true, trailing: true, closing_tabs: true };
}

struct D<'r> {
    r: &'r mut Rng,
    d: Dirt,
}
impl D<'_> {
    fn yes(&mut self) -> bool {
        self.d.rate > 0 && self.r.below(8) < self.d.rate
    }
    fn spaces(&mut self, lo: usize, hi: usize) -> String {
        if self.yes() {
            " ".repeat(self.r.range(lo, hi))
        } else {
            " ".repeat(lo)
        }
    }
    /// separation of two words on a line: a tab is as good as spaces
    fn sep(&mut self, lo: usize, hi: usize) -> String {
        if self.yes() {
            self.white(lo, hi)
        } else {
            " ".repeat(lo)
        }
    }
    fn white(&mut self, lo: usize, hi: usize) -> String {
        match self.r.below(5) {
            0 => "\t".into(),
            1 => [" \t", "\t ", "\t\t"][self.r.below(3)].into(),
            _ => " ".repeat(self.r.range(lo, hi)),
        }
    }
    /// blank line
    fn blank(&mut self) -> Line {
        if self.d.trailing && self.yes() {
            l(self.white(1, 3))
        } else {
            l("")
        }
    }
    /// indentation of a line that continues a paragraph: it means nothing
    fn deep(&mut self) -> String {
        match self.r.below(6) {
            0 if self.yes() => self.white(4, 9),
            _ => self.spaces(0, 3),
        }
    }
    fn blank_after(&mut self, b: &Blk) -> Line {
        let mut x = self.blank();
        if ends_in_defs(b) {
            // the parser takes a tab there for the continuation of the definition
            x.s = x.s.replace('\t', " ");
        }
        x
    }
    fn trail(&mut self, mut s: String) -> String {
        if self.d.trailing && self.yes() {
            // a reference in front of a tab at the end of a heading stays text
            let w = if s.ends_with(']') { self.spaces(1, 3) } else { self.white(1, 3) };
            s.push_str(&w);
        }
        s
    }

    /// `lead`: may the block be indented by up to three spaces?
    fn blk(&mut self, b: &Blk, lead: bool) -> Vec<Line> {
        let ld = if lead { self.spaces(0, 3) } else { String::new() };
        match b {
            Blk::Para(p) => {
                let mut out = vec![];
                for (i, line) in p.iter().enumerate() {
                    let text = line.atoms.join(" ");
                    let head = if i == 0 { ld.clone() } else { self.deep() };
                    let last = i + 1 == p.len();
                    let tail = match line.hard {
                        Hard::Spaces => "  ".to_string(),
                        Hard::Back => "\\".to_string(),
                        Hard::No if self.d.trailing && self.yes() => if last { self.white(1, 3) } else { self.r.pick(&[" ", " ", "\t"]).to_string() },
                        Hard::No => String::new(),
                    };
                    out.push(Line { s: format!("{head}{text}{tail}"), q: false, cont: i > 0 });
                }
                out
            }
            Blk::Atx { level, text, attrs } => {
                let mut s = format!("{ld}{}", "#".repeat(*level));
                if !text.is_empty() {
                    s.push_str(&self.sep(1, 4));
                    s.push_str(text);
                }
                match attrs {
                    Some(a) => {
                        // a reference in front of a tab and a block of attributes stays text
                        let gap = if text.ends_with(']') { self.spaces(1, 3) } else { self.sep(1, 3) };
                        s.push_str(&gap);
                        let x = self.attrs(a);
                        s.push_str(&x);
                    }
                    None => {
                        if !text.is_empty() && self.yes() {
                            if self.d.closing_tabs {
                                s.push_str(&self.sep(1, 3));
                            } else {
                                s.push_str(&self.spaces(1, 3));
                            }
                            s.push_str(&"#".repeat(self.r.range(1, 8)));
                            if !self.d.closing_tabs {
                                s.push_str(&self.spaces(0, 3));
                                return vec![l(s)];
                            }
                        }
                    }
                }
                vec![l(self.trail(s))]
            }
            Blk::Setext { level, lines, attrs, under } => {
                let mut v = vec![];
                for (i, x) in lines.iter().enumerate() {
                    let h = if i == 0 { ld.clone() } else { self.deep() };
                    let mut x = format!("{h}{x}");
                    if let (Some(a), true) = (attrs, i + 1 == lines.len()) {
                        let gap = if x.ends_with(']') { self.spaces(1, 3) } else { self.sep(1, 3) };
                        x.push_str(&gap);
                        x.push_str(&self.attrs(a));
                    }
                    v.push(l(x));
                }
                let h = self.spaces(0, 3);
                let u = self.trail(format!("{h}{}", if *level == 1 { "=" } else { "-" }.repeat(*under)));
                v.push(l(u));
                v
            }
            Blk::Fence { ch, len, info, body } => {
                let f = ch.to_string().repeat(*len);
                // some space before the info string stays one space
                let sp = if info.starts_with(' ') { self.spaces(0, 2) } else { String::new() };
                let open = self.trail(format!("{ld}{f}{sp}{info}"));
                let mut v = vec![l(open)];
                v.extend(body.iter().map(|s| l(if s.is_empty() { String::new() } else { format!("{ld}{s}") })));
                let extra = if self.yes() { self.r.range(1, 3) } else { 0 };
                let h = if lead { self.spaces(0, 3) } else { String::new() };
                // the parser takes no tabs there
                let close = self.trail(format!("{h}{}", ch.to_string().repeat(len + extra))).replace('\t', " ");
                v.push(l(close));
                v
            }
            Blk::Md { ch, len, info, seq } => {
                let f = ch.to_string().repeat(*len);
                let sp = if info.starts_with(' ') { self.spaces(0, 2) } else { String::new() };
                let open = self.trail(format!("{ld}{f}{sp}{info}"));
                let mut v = vec![l(open)];
                let inner = self.seq(seq, !matches!(seq.first(), Some((_, Blk::Meta { .. }))));
                v.extend(inner.into_iter().map(|x| l(if x.s.is_empty() { x.s } else { format!("{ld}{}", x.s) })));
                let extra = if self.yes() { self.r.range(1, 3) } else { 0 };
                let h = if lead { self.spaces(0, 3) } else { String::new() };
                // the parser takes no tabs there
                let close = self.trail(format!("{h}{}", ch.to_string().repeat(len + extra))).replace('\t', " ");
                v.push(l(close));
                v
            }
            Blk::Indented(b) => b.iter().map(|s| l(if s.is_empty() { String::new() } else { format!("    {s}") })).collect(),
            Blk::Html(b) => b.iter().map(l).collect(),
            Blk::Rule(r) => vec![l(self.trail(format!("{ld}{r}")))],
            Blk::Table { align, rows } => self.table(align, rows, &ld),
            Blk::Defs(d) => {
                let mut out = vec![];
                for d in d {
                    let h = if out.is_empty() { ld.clone() } else { self.spaces(0, 3) };
                    let mut s = format!("{h}[{}]:", d.label);
                    // below the label, `<` could start raw html
                    if self.yes() && self.r.chance(1, 3) && !d.dest.starts_with('<') {
                        out.push(l(s));
                        s = self.deep();
                    } else {
                        s.push_str(&self.sep(1, 3));
                    }
                    s.push_str(&d.dest);
                    if let Some(t) = &d.title {
                        if self.yes() && self.r.chance(1, 3) {
                            out.push(l(s));
                            s = self.deep();
                        } else {
                            s.push_str(&self.sep(1, 3));
                        }
                        s.push_str(t);
                    }
                    out.push(l(self.trail(s)));
                }
                out
            }
            Blk::Quote(seq) => {
                let mut lines = vec![];
                for (i, (gap, b)) in seq.iter().enumerate() {
                    if i > 0 {
                        for _ in 0..*gap {
                            let x = self.blank_after(&seq[i - 1].1);
                            lines.push(x);
                        }
                    }
                    let after_list = i > 0 && matches!(seq[i - 1].1, Blk::List { .. } | Blk::Note { .. });
                    lines.extend(self.blk(b, !after_list));
                }
                let tightq = self.yes();
                let lazyq = self.d.lazy && self.yes();
                lines
                    .into_iter()
                    .map(|x| {
                        if x.s.trim().is_empty() {
                            return Line { s: format!("{ld}>{}", x.s), q: true, cont: false };
                        }
                        if x.cont && lazyq && self.r.chance(1, 2) && x.s.trim_start().starts_with(|c: char| c.is_ascii_alphabetic()) {
                            return x;
                        }
                        let s = if tightq && !x.s.starts_with([' ', '\t']) { format!("{ld}>{}", x.s) } else { format!("{ld}> {}", x.s) };
                        Line { s, q: true, cont: x.cont }
                    })
                    .collect()
            }
            Blk::List { items } => {
                let mut out = vec![];
                let mut deepest = 3;
                for (i, (gap, it)) in items.iter().enumerate() {
                    if i > 0 {
                        let prev = items[i - 1].1.body.last();
                        for _ in 0..*gap {
                            let b = match prev {
                                Some(p) => self.blank_after(&p.1),
                                None => self.blank(),
                            };
                            out.push(b);
                        }
                    }
                    // a marker that isn't indented as far as the text of the last item doesn't nest
                    let h = if lead { self.spaces(0, deepest) } else { String::new() };
                    let body = self.item(it);
                    if body.is_empty() {
                        out.push(l(format!("{h}{}", it.marker)));
                        deepest = 3.min(h.len() + it.marker.len());
                        continue;
                    }
                    let code_first = body[0].s.starts_with(' ');
                    let g = if code_first { " ".to_string() } else { self.spaces(1, 4) };
                    let w = h.len() + it.marker.len() + g.len();
                    deepest = 3.min(w - 1);
                    for (j, x) in body.into_iter().enumerate() {
                        let s = if j == 0 {
                            format!("{h}{}{g}{}", it.marker, x.s)
                        } else if x.s.trim().is_empty() {
                            x.s
                        } else if x.cont && self.d.lazy && self.r.chance(1, 12) && self.yes() && x.s.trim_start().starts_with(|c: char| c.is_ascii_alphabetic()) {
                            x.s
                        } else {
                            format!("{}{}", " ".repeat(w), x.s)
                        };
                        out.push(Line { s, q: false, cont: x.cont });
                    }
                }
                out
            }
            Blk::Note { label, body } => {
                let lines = self.seq(body, false);
                let mut out = vec![];
                let mut it = lines.into_iter().peekable();
                let same_line = matches!(body.first(), Some((_, Blk::Para(_)))) && (self.d.rate == 0 || self.r.chance(1, 2));
                if same_line {
                    let f = it.next().unwrap();
                    let g = self.spaces(1, 3);
                    out.push(l(format!("[^{label}]:{g}{}", f.s.trim_start())));
                } else {
                    out.push(l(format!("[^{label}]:")));
                }
                for x in it {
                    let s = if x.s.trim().is_empty() { x.s } else { format!("    {}", x.s) };
                    out.push(Line { s, q: false, cont: x.cont });
                }
                out
            }
            Blk::Meta { mark, body } => {
                let mut v = vec![l(*mark)];
                v.extend(body.iter().map(l));
                v.push(l(*mark));
                v
            }
        }
    }

    fn attrs(&mut self, a: &Attrs) -> String {
        // any order; classes and key-values stay in order among themselves
        let mut lanes: Vec<Vec<String>> = vec![a.id.iter().map(|i| format!("#{i}")).collect(), a.classes.iter().map(|c| format!(".{c}")).collect(), a.kv.clone()];
        if self.d.rate > 0 && self.r.chance(1, 2) {
            let k = self.r.below(3);
            lanes.rotate_left(k);
            if self.r.chance(1, 2) {
                lanes.swap(0, 1);
            }
        }
        let mut s = String::new();
        let mut all = vec![];
        while lanes.iter().any(|x| !x.is_empty()) {
            let k = if self.d.rate > 0 { self.r.below(3) } else { lanes.iter().position(|x| !x.is_empty()).unwrap() };
            if !lanes[k].is_empty() {
                all.push(lanes[k].remove(0));
            }
        }
        s.push('{');
        s.push_str(&self.sep(0, 2));
        for (i, x) in all.iter().enumerate() {
            if i > 0 {
                s.push_str(&self.sep(1, 2));
            }
            s.push_str(x);
        }
        s.push_str(&self.sep(0, 2));
        s.push('}');
        s
    }

    fn item(&mut self, it: &Item) -> Vec<Line> {
        let mut lines = self.seq(&it.body, false);
        if let (Some(t), Some(f)) = (it.task, lines.first_mut()) {
            let m = if t { if self.yes() { "[X]" } else { "[x]" } } else { "[ ]" };
            let g = self.sep(1, 2);
            f.s = format!("{m}{g}{}", f.s);
        }
        lines
    }

    fn seq(&mut self, seq: &Seq, first_lead: bool) -> Vec<Line> {
        let mut out = vec![];
        for (i, (gap, b)) in seq.iter().enumerate() {
            if i > 0 {
                for _ in 0..*gap {
                    let b = self.blank_after(&seq[i - 1].1);
                    out.push(b);
                }
            }
            let lead = if i == 0 { first_lead } else { !matches!(seq[i - 1].1, Blk::List { .. } | Blk::Note { .. }) };
            out.extend(self.blk(b, lead));
        }
        out
    }

    fn table(&mut self, align: &[u8], rows: &[Vec<String>], ld: &str) -> Vec<Line> {
        let n = align.len();
        let mut out = vec![];
        let mk = |g: &mut Self, cells: Vec<String>, may_drop_pipes: bool, delim: bool| {
            let cells: Vec<String> = cells
                .into_iter()
                .map(|c| {
                    let (mut a, mut b) = (g.sep(0, 2), g.sep(0, 3));
                    if delim {
                        // the parser takes no tabs there
                        (a, b) = (a.replace('\t', " "), b.replace('\t', " "));
                    }
                    let (a, b) = if g.d.rate == 0 { (" ".into(), " ".into()) } else { (a, b) };
                    format!("{a}{c}{b}")
                })
                .collect();
            let open = !(may_drop_pipes && n > 1 && g.yes());
            let close = !(may_drop_pipes && n > 1 && cells.last().is_some_and(|c| !c.trim().is_empty()) && cells.len() > 1 && g.yes());
            let mut s = String::from(ld);
            if open {
                s.push('|');
                s.push_str(&cells.join("|"));
            } else {
                s.push_str(cells.join("|").trim_start());
            }
            if close {
                s.push('|');
            }
            s
        };
        for (i, r) in rows.iter().enumerate() {
            let mut cells = r.clone();
            if i > 0 && self.d.rate > 0 {
                // missing cells are empty, excess cells are dropped
                while cells.len() > 1 && cells.last().unwrap().is_empty() && self.r.chance(1, 2) {
                    cells.pop();
                }
                if cells.len() == n && self.r.chance(1, 12) {
                    cells.push("excess".into());
                }
            }
            let plain_first = cells[0].starts_with(|c: char| c.is_ascii_alphabetic());
            let s = mk(self, cells, plain_first, false);
            out.push(l(s));
            if i == 0 {
                let cells: Vec<String> = align
                    .iter()
                    .map(|a| {
                        let k = if self.d.rate == 0 { 3 } else { self.r.range(1, 6) };
                        let d = "-".repeat(k);
                        match a {
                            0 => d,
                            1 => format!(":{d}"),
                            2 => format!("{d}:"),
                            _ => format!(":{d}:"),
                        }
                    })
                    .collect();
                // without outer pipes the row could start a list or be an underline
                let s = mk(self, cells, false, true);
                out.push(l(s));
            }
        }
        out
    }
}

/// Write the indentation of lines, and the space behind markers, with tabs where they end on a tab stop. Only for
/// documents without code and html, where the columns are all that counts.
pub fn with_tabs(s: &str, r: &mut Rng, rate: usize) -> String {
    let mut out = String::new();
    for line in s.split_inclusive('\n') {
        let b = line.as_bytes();
        let (mut i, mut col) = (0, 0);
        loop {
            let start = i;
            while i < b.len() && b[i] == b' ' {
                i += 1;
            }
            // text like `-a` behind a dash and a tab is moved to the next line
            let dashes = start > 0 && b[start - 1] == b'-' && b.get(i) == Some(&b'-');
            if i < b.len() && b[i] != b'\n' && i > start && !dashes && (col + i - start) % 4 == 0 && r.below(8) < rate {
                let n = (col + i - start) / 4 - col / 4;
                out.push_str(&"\t".repeat(n));
            } else {
                out.push_str(&line[start..i]);
            }
            col += i - start;
            // a container?
            let rest = &line[i..];
            let m = if rest.starts_with('>') {
                1
            } else if rest.starts_with("- ") || rest.starts_with("* ") || rest.starts_with("+ ") {
                1
            } else {
                let d = rest.bytes().take_while(u8::is_ascii_digit).count();
                if d > 0 && (rest[d..].starts_with(". ") || rest[d..].starts_with(") ")) {
                    d + 1
                } else {
                    0
                }
            };
            if m == 0 {
                out.push_str(rest);
                break;
            }
            out.push_str(&rest[..m]);
            col += m;
            i += m;
        }
    }
    out
}

pub fn dirty(doc: &Seq, r: &mut Rng, d: Dirt) -> String {
    let mut g = D { r, d };
    let lines = g.seq(doc, !matches!(doc.first(), Some((_, Blk::Meta { .. }))));
    lines.into_iter().map(|l| l.s).collect::<Vec<_>>().join("\n")
}

// ------------------------------------------------------------------------------------------------ random documents

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Para,
    Atx,
    Setext,
    Fence,
    Indented,
    Html,
    Rule,
    Table,
    Defs,
    Quote,
    Bullet,
    Ordered,
    Note,
    Md,
}

pub struct Prof {
    pub kinds: Vec<(K, usize)>,
    pub depth: usize,
    /// inline markup besides words
    pub markup: bool,
    pub unicode: bool,
    pub hard: bool,
    pub para_words: usize,
    pub max_gap: usize,
    pub zero_gap: bool,
    pub tasks: bool,
    pub empty_items: bool,
    pub attrs: bool,
    /// documents may start with front matter
    pub meta: bool,
    /// words, markup, labels, ... made of random characters
    pub random: bool,
    /// no atoms with pieces that may not start or end a line
    pub wrap_safe: bool,
    /// the parser reads the document to judge the output
    pub parser_judges: bool,
}
impl Prof {
    pub fn new(kinds: &[(K, usize)]) -> Prof {
        Prof { kinds: kinds.to_vec(), depth: 3, markup: true, unicode: true, hard: true, para_words: 9, max_gap: 3, zero_gap: true, tasks: true, empty_items: true, attrs: true, meta: false, random: true, wrap_safe: false, parser_judges: false }
    }
    pub fn all() -> Prof {
        use K::*;
        Prof::new(&[(Para, 6), (Atx, 2), (Setext, 1), (Fence, 2), (Indented, 1), (Html, 1), (Rule, 1), (Table, 2), (Defs, 2), (Quote, 3), (Bullet, 3), (Ordered, 3), (Note, 1)])
    }
}

pub struct MG<'r> {
    pub r: &'r mut Rng,
    pub p: Prof,
    ctr: usize,
    nest: usize,
    in_note: bool,
    /// depth of embedded documents
    md: usize,
}

const WORDS: &[&str] = &[
    "alpha", "beta", "gamma", "delta", "lorem", "ipsum", "dolor", "sit", "amet", "the", "quick", "brown", "fox", "a", "I", "of", "x86", "don't",
    "well-known", "e.g.,", "end.", "really?", "yes!", "v1.2.3", "snake_case", "foo/bar", "C3PO", "semi;", "colon:", "it's",
    "supercalifragilistic", "to", "be", "or", "not", "w", "state-of-the-art", "mid_dle_under", "https://example.com/a/b?c=d",
];
const UWORDS: &[&str] = &["日本語", "漢字", "émigré", "naïve", "Ωmega", "привет", "e\u{301}clair", "한국어", "über", "ß", "ﬁ", "ｆｕｌｌ"];
const MARKUP: &[&str] = &[
    "*emph*", "_emph_", "**strong words**", "__strong__", "*two words*", "~~gone~~", "`code`", "`let x = 1;`", "``a ` b``", "[text](/url)",
    "[long text](/url \"title\")", "[t](</a b>)", "![alt](/i.png)", "![alt text](/i.png 'title')", "[text][ref]", "[ref][]", "[ref]", "<https://example.com/x?y=z>",
    "<me@example.com>", "<b>bold</b>", "<br/>", "&amp;", "&copy;", "&#35;", "\\*esc\\*", "\\_x\\_", "\\[b\\]", "\\`t\\`", "word[^n1]", "***both***", "**_mixed_**",
    "[**bold** link](/u)", "[`code` link](/u)", "(paren)", "\"quoted\"", "'single'", "a*b*c", "x\\<y", "&lt;tag&gt;", "\\\\", "[![img](/i.png)](/l)", "<span class=\"x\">",
];

impl<'r> MG<'r> {
    pub fn new(r: &'r mut Rng, p: Prof) -> Self {
        MG { r, p, ctr: 0, nest: 0, in_note: false, md: 0 }
    }
    fn rand(&mut self) -> bool {
        self.p.random && self.r.chance(2, 5)
    }
    pub fn word(&mut self) -> String {
        if self.rand() {
            return vocab::word(self.r, self.p.unicode);
        }
        if self.p.unicode && self.r.chance(1, 8) {
            self.r.pick(UWORDS).to_string()
        } else {
            self.r.pick(WORDS).to_string()
        }
    }
    pub fn atom(&mut self) -> String {
        if self.p.markup && self.r.chance(1, 4) {
            if self.rand() {
                return vocab::markup(self.r, self.p.unicode, self.p.wrap_safe, 1);
            }
            loop {
                let m = self.r.pick(MARKUP);
                if !(self.p.wrap_safe && ["[t](</a b>)", "`let x = 1;`", "\\\\", "``a ` b``"].contains(&m)) {
                    return m.to_string();
                }
            }
        } else {
            self.word()
        }
    }
    pub fn line(&mut self, lo: usize, hi: usize) -> Vec<String> {
        let n = self.r.range(lo, hi);
        let mut v = vec![self.word()];
        for _ in 1..n {
            let a = self.atom();
            v.push(a);
        }
        v
    }
    pub fn para(&mut self) -> Blk {
        let n = if self.r.chance(1, 2) { 1 } else { self.r.range(2, 5) };
        let w = self.p.para_words;
        let mut out = vec![];
        for i in 0..n {
            let atoms = self.line(1, w);
            let hard = if i + 1 < n && self.p.hard && self.r.chance(1, 5) {
                if self.r.chance(1, 2) {
                    Hard::Spaces
                } else {
                    Hard::Back
                }
            } else {
                Hard::No
            };
            // an escaped backslash right before a backslash break would be read differently
            let hard = if hard == Hard::Back && atoms.last().unwrap().ends_with('\\') { Hard::Spaces } else { hard };
            out.push(PLine { atoms, hard });
        }
        Blk::Para(out)
    }
    pub fn attrs(&mut self) -> Attrs {
        let mut a = Attrs::default();
        if self.r.chance(2, 3) {
            a.id = Some(if self.rand() { vocab::ident(self.r) } else { self.r.pick(&["id", "my-id", "i1", "sec:a"]).to_string() });
        }
        for _ in 0..self.r.below(3) {
            let c = if self.rand() { vocab::ident(self.r) } else { self.r.pick(&["c", "cls", "a-b", "x1"]).to_string() };
            a.classes.push(c);
        }
        let most = if self.r.chance(1, 6) { 6 } else { 3 };
        for _ in 0..self.r.below(most) {
            let k = if self.rand() { format!("{}={}", vocab::ident(self.r), vocab::ident(self.r)) } else { self.r.pick(&["k=v", "key", "data-x=1", "flag", "lang=en", "k=a=b", "k=\"v\"", "k=.c", "k=#i", "a:b=c/d"]).to_string() };
            a.kv.push(k);
        }
        if a.id.is_none() && a.classes.is_empty() && a.kv.is_empty() {
            a.id = Some("only".into());
        }
        a
    }
    pub fn atx(&mut self) -> Blk {
        let level = self.r.range(1, 6);
        if self.r.chance(1, 20) {
            return Blk::Atx { level, text: String::new(), attrs: None };
        }
        let mut text = self.line(1, 5).join(" ");
        if text.ends_with('#') {
            text.push('x');
        }
        let attrs = if self.p.attrs && self.r.chance(1, 3) { Some(self.attrs()) } else { None };
        Blk::Atx { level, text, attrs }
    }
    pub fn setext(&mut self) -> Blk {
        let n = if self.r.chance(1, 4) { 2 } else { 1 };
        let lines: Vec<String> = (0..n).map(|_| self.line(1, 4).join(" ")).collect();
        let under = self.r.range(1, 12);
        let level = self.r.range(1, 2);
        // a lone `-` below a list item or a `---` at the start of a nested block are ambiguous
        let attrs = if self.p.attrs && self.r.chance(1, 5) { Some(self.attrs()) } else { None };
        Blk::Setext { level, lines, attrs, under: under.max(3) }
    }
    pub fn code_line(&mut self) -> String {
        if self.rand() {
            return vocab::code_line(self.r);
        }
        self.r
            .pick(&[
                "fn main() {", "    let x = 1;", "}", "# not a heading", "- not a list", "> not a quote", "", "  two", "\ttab", "a  b   c", "***", "<div>", "[x]: /y", "|a|b|", "é日本",
                "\\n \\* escape", "`tick`", "let s = \"q\";", "1. no", "===", "&amp; &lt;", "trailing  ", "$ ls -la",
            ])
            .to_string()
    }
    pub fn code_body(&mut self, min: usize) -> Vec<String> {
        let n = self.r.range(min, 6);
        let mut b: Vec<String> = (0..n).map(|_| self.code_line()).collect();
        while b.last().is_some_and(|l| l.trim().is_empty()) {
            b.pop();
        }
        if let Some(x) = b.last_mut() {
            // the end of the whole block is trimmed
            x.truncate(x.trim_end().len());
        }
        b
    }
    pub fn fence(&mut self) -> Blk {
        let ch = *self.r.choose(&['`', '~']);
        let len = *self.r.choose(&[3usize, 3, 3, 4, 5, 8]);
        let info = if self.rand() { vocab::info(self.r, ch) } else { self.r.pick(&["", "rust", "rust,no_run", "c++", "text title=\"x\"", "日本", "sh {.cls}", "toml", " rust", " sh -e", " text"]).to_string() };
        let mut body = self.code_body(0);
        // other fences inside
        if self.r.chance(1, 5) {
            let other = if ch == '`' { "~~~" } else { "```" };
            body.insert(0, other.to_string());
            body.push(other.to_string());
        } else if len > 3 && self.r.chance(1, 2) {
            let f = ch.to_string().repeat(3);
            body.insert(0, format!("{f}sub"));
            body.push(f);
        }
        // a block of blank lines loses them
        if body.iter().all(|l| l.trim().is_empty()) {
            body.clear();
        }
        Blk::Fence { ch, len, info, body }
    }
    pub fn indented(&mut self) -> Blk {
        let mut b = self.code_body(1);
        while b.first().is_some_and(|l| l.trim().is_empty()) {
            b.remove(0);
        }
        if b.is_empty() {
            b.push("code".into());
        }
        if b[0].starts_with(' ') || b[0].starts_with('\t') {
            b[0] = b[0].trim_start().to_string();
        }
        Blk::Indented(b)
    }
    pub fn html(&mut self) -> Blk {
        let v: &[&[&str]] = &[
            &["<div>", "  *raw* text", "</div>"],
            &["<!-- comment -->"],
            &["<!-- multi", "", "   line -->"],
            &["<table><tr><td>", "x", "</td></tr></table>"],
            &["<pre>", "  keep", "", "    this", "</pre>"],
            &["<?php echo '>'; ?>"],
            &["<!DOCTYPE html>"],
            &["<p align=\"center\">", "<img src=\"x.png\">", "</p>"],
            &["<details>", "<summary>s</summary>", "</details>"],
            &["<custom-tag attr>", "text", "</custom-tag>"],
            &["<script>", "if (a < b) { c(\"*x*\") }", "", "# d", "</script>"],
            &["<style>p{}</style>"],
            &["<![CDATA[", "", "x", "]]>"],
        ];
        if self.rand() {
            let n = self.r.below(5);
            let mid: Vec<String> = (0..n).map(|_| vocab::html_line(self.r)).collect();
            let (a, z) = *self.r.choose(&[("<div>", "</div>"), ("<!--", "-->"), ("<pre>", "</pre>"), ("<?x", "?>"), ("<section class=\"a\">", "</section>"), ("<script>", "</script>"), ("<![CDATA[", "]]>"), ("<!X", "]>"), ("<xy>", "</xy>")]);
            return Blk::Html(std::iter::once(a.to_string()).chain(mid).chain([z.to_string()]).collect());
        }
        let b = *self.r.choose(v);
        Blk::Html(b.iter().map(|s| s.to_string()).collect())
    }
    pub fn rule(&mut self) -> Blk {
        if self.rand() {
            let c = *self.r.choose(&["*", "_", "-"]);
            let n = self.r.range(4, 20);
            let mut s = c.to_string();
            let gaps = self.r.chance(1, 2);
            for _ in 0..n {
                if gaps {
                    s.push_str(&" ".repeat(self.r.below(4)));
                }
                s.push_str(c);
            }
            return Blk::Rule(s);
        }
        Blk::Rule(self.r.pick(&["***", "___", "* * *", "- - -", "_____", "**********", "-  -  -", "_ _ _ _", "-----"]).to_string())
    }
    pub fn cell(&mut self) -> String {
        if self.r.chance(1, 8) {
            return String::new();
        }
        let n = self.r.range(1, 3);
        let mut v: Vec<String> = vec![];
        for _ in 0..n {
            let a = if self.r.chance(1, 12) { "a\\|b".to_string() } else if self.r.chance(1, 14) { "`x\\|y`".to_string() } else { self.atom() };
            // a backslash next to a pipe would escape it
            v.push(if a.ends_with('\\') { "x".into() } else if a == "a\\|b" || a == "`x\\|y`" { a } else { a.replace('|', "x") });
        }
        v.join(" ")
    }
    pub fn table(&mut self) -> Blk {
        let n = if self.p.random && self.r.chance(1, 8) { self.r.range(5, 12) } else { self.r.range(1, 5) };
        let rows = if self.p.random && self.r.chance(1, 12) { self.r.range(5, 20) } else { self.r.below(5) };
        let align: Vec<u8> = (0..n).map(|_| self.r.below(4) as u8).collect();
        let mut all = vec![];
        for i in 0..=rows {
            let mut r: Vec<String> = (0..n).map(|_| self.cell()).collect();
            if i == 0 {
                for c in r.iter_mut() {
                    if c.is_empty() && !self.r.chance(1, 6) {
                        *c = self.word();
                    }
                }
                if r.iter().all(|c| c.is_empty()) {
                    r[0] = self.word();
                }
            }
            all.push(r);
        }
        Blk::Table { align, rows: all }
    }
    pub fn def(&mut self) -> Def {
        self.ctr += 1;
        let k = self.ctr;
        let label = match self.r.below(10) {
            8 if self.p.random => vocab::note_label(self.r, k).trim_start_matches('^').to_string(),
            9 if self.p.random => match self.r.below(3) {
                0 => format!("{k}{}", vocab::end(self.r)),
                1 => format!("{}{k}", vocab::end(self.r)),
                _ => format!("{k} {} {}", vocab::end(self.r), vocab::bare(self.r, self.p.unicode)),
            },
            0 => format!("ref {k}"),
            1 => format!("Ref-{k}"),
            2 => format!("{k}"),
            3 => format!("r\\]{k}"),
            4 => format!("*r* {k}"),
            5 => format!("`c{k}`"),
            6 if self.p.unicode => format!("réf漢{k}"),
            7 if self.p.random => format!("{} {k}", vocab::word(self.r, self.p.unicode).replace([']', '\\'], "x")),
            _ => format!("ref{k}"),
        };
        let dest = if self.rand() { vocab::dest(self.r, false, self.p.unicode, true) } else { self.r.pick(&["/url", "<>", "</a b>", "https://example.com/a_b_c?x=1&y=*2*", "#frag", "mailto:a@b.c", "./rel(1).md", "<é日本>", "/u\\*", "&amp;", "/very/long/path/that/goes/on/and/on/and/on/for/ever.html", "<x>"]).to_string() };
        let title = if self.r.chance(1, 2) {
            Some(if self.rand() { vocab::title(self.r, self.p.unicode) } else { self.r.pick(&["\"title\"", "'single'", "(paren)", "\"it's\"", "'say \"hi\"'", "\"esc \\\" q\"", "\"two  spaces\"", "\"\"", "\"*em* `c`\"", "(a \\) b)", "\"日本 é\"", "'[x]'"]).to_string() })
        } else {
            None
        };
        Def { label, dest, title }
    }
    pub fn defs(&mut self) -> Blk {
        let n = self.r.range(1, 4);
        Blk::Defs((0..n).map(|_| self.def()).collect())
    }
    pub fn quote(&mut self, depth: usize) -> Blk {
        self.nest += 1;
        let s = self.seq(1, 3, depth - 1, None);
        self.nest -= 1;
        Blk::Quote(s)
    }
    pub fn list(&mut self, depth: usize, ordered: bool, prev: Option<&Blk>, tight_nested: bool) -> Blk {
        let prev_end = match prev {
            Some(Blk::List { items }) => items.last().map(|(_, i)| i.marker.chars().last().unwrap()),
            _ => None,
        };
        let ends: Vec<char> = (if ordered { vec!['.', ')'] } else { vec!['-', '*', '+'] }).into_iter().filter(|c| Some(*c) != prev_end).collect();
        let end = *self.r.choose(&ends);
        let n = self.r.range(1, 4);
        let tight = self.r.chance(1, 2);
        let start = *self.r.choose(&[1usize, 1, 1, 0, 2, 7, 9, 10, 98, 99, 123456, 999_999_990]);
        let start = if self.p.random && self.r.chance(1, 3) {
            let d = self.r.range(1, 9) as u32;
            self.r.below(10usize.pow(d) - 1000.min(10usize.pow(d) - 1))
        } else {
            start
        };
        let start = if tight_nested { 1 } else { start };
        let style = self.r.below(5);
        // at most nine digits in all: later items may have up to three more
        let zeros = if self.r.chance(1, 8) && start < 1000 && !tight_nested { self.r.range(1, 5) } else { 0 };
        let mut items = vec![];
        self.nest += 1;
        for i in 0..n {
            let marker = if ordered {
                let k = match style {
                    0 => start,
                    1 => start + (i > 0) as usize,
                    2 if i > 0 => self.r.below(1000),
                    _ => start + i,
                };
                format!("{}{k}{end}", "0".repeat(zeros))
            } else {
                end.to_string()
            };
            let empty = self.p.empty_items && self.nest <= 2 && self.r.chance(1, 20) && !(i == 0 && tight_nested);
            let body: Seq = if empty {
                vec![]
            } else if tight {
                let mut b = vec![(0, self.para())];
                if depth > 1 && self.r.chance(1, 4) {
                    let o = self.r.chance(1, 2);
                    if self.p.kinds.iter().any(|(k, _)| *k == if o { K::Ordered } else { K::Bullet }) {
                        let sub = self.list(depth - 1, o, None, true);
                        b.push((0, sub));
                    }
                }
                b
            } else if self.r.chance(2, 3) {
                let first = self.para();
                let mut b = vec![(0, first)];
                if self.r.chance(1, 2) {
                    b.extend(self.seq(1, 2, depth - 1, Some(&b[0].1.clone())));
                }
                b
            } else {
                self.seq_item(1, 2, depth - 1, end)
            };
            let task = if self.p.tasks && matches!(body.first(), Some((_, Blk::Para(_)))) && self.r.chance(1, 6) { Some(self.r.chance(1, 2)) } else { None };
            let gap = if tight { 0 } else { self.gap() };
            items.push((gap, Item { marker, task, body }));
        }
        self.nest -= 1;
        Blk::List { items }
    }
    fn gap(&mut self) -> usize {
        if self.r.chance(1, 6) {
            self.r.range(1, self.p.max_gap)
        } else {
            1
        }
    }
    /// content of an item that starts with something else than a paragraph
    fn seq_item(&mut self, lo: usize, hi: usize, depth: usize, marker: char) -> Seq {
        for _ in 0..20 {
            let s = self.seq(lo, hi, depth, None);
            let ok = match &s[0].1 {
                Blk::Indented(_) | Blk::Rule(_) | Blk::Html(_) | Blk::Defs(_) | Blk::Note { .. } => false,
                Blk::List { items } => !items[0].1.marker.ends_with(marker) && !items[0].1.body.is_empty(),
                _ => true,
            };
            if ok {
                return s;
            }
        }
        vec![(0, self.para())]
    }
    pub fn note(&mut self, depth: usize) -> Blk {
        self.ctr += 1;
        let label = match self.r.below(5) {
            2 | 3 if self.p.random => vocab::note_label(self.r, self.ctr),
            0 => format!("{}", self.ctr),
            1 => format!("note-{}", self.ctr),
            2 => format!("Long_Name.{}", self.ctr),
            _ => format!("n{}", self.ctr),
        };
        self.nest += 1;
        let outer = std::mem::replace(&mut self.in_note, true);
        let body = loop {
            let b = if self.r.chance(2, 3) { vec![(0, self.para())] } else { self.seq(1, 2, depth.saturating_sub(1), None) };
            if !matches!(b[0].1, Blk::Indented(_) | Blk::Defs(_) | Blk::Note { .. } | Blk::Html(_) | Blk::Rule(_)) {
                break b;
            }
        };
        self.nest -= 1;
        self.in_note = outer;
        Blk::Note { label, body }
    }
    pub fn embedded(&mut self, depth: usize) -> Blk {
        self.md += 1;
        let (nest, note) = (std::mem::replace(&mut self.nest, 0), std::mem::replace(&mut self.in_note, false));
        let seq = self.doc_depth(1, 3, depth - 1);
        self.nest = nest;
        self.in_note = note;
        self.md -= 1;
        let ch = *self.r.choose(&['`', '~']);
        let mut info = self.r.pick(&["markdown", "markdown", "markdown,x", " markdown", "{.markdown}", "gfm-markdown title=x"]).to_string();
        if ch == '~' && self.r.chance(1, 8) {
            info = "markdown `x`".into();
        }
        // longer than the fences inside
        let len = 12 + 6 * (1 - self.md) + self.r.below(3);
        Blk::Md { ch, len, info, seq }
    }
    pub fn blk(&mut self, depth: usize, prev: Option<&Blk>) -> Blk {
        let total: usize = self.p.kinds.iter().map(|k| k.1).sum();
        for _ in 0..40 {
            let mut x = self.r.below(total);
            let mut k = K::Para;
            for (kk, w) in &self.p.kinds {
                if x < *w {
                    k = *kk;
                    break;
                }
                x -= w;
            }
            let after_indent = matches!(prev, Some(Blk::List { .. } | Blk::Note { .. }));
            return match k {
                K::Para => self.para(),
                K::Atx => self.atx(),
                K::Setext => self.setext(),
                K::Fence => self.fence(),
                K::Indented if !after_indent && !matches!(prev, Some(Blk::Indented(_) | Blk::Defs(_))) => self.indented(),
                K::Html => self.html(),
                K::Rule => self.rule(),
                K::Table => self.table(),
                K::Defs => self.defs(),
                K::Quote if depth > 0 => self.quote(depth),
                K::Bullet if depth > 0 => self.list(depth, false, prev, false),
                K::Ordered if depth > 0 => self.list(depth, true, prev, false),
                K::Note if depth > 0 && !self.in_note => self.note(depth),
                K::Md if depth > 0 && self.md < 2 => self.embedded(depth),
                _ => continue,
            };
        }
        self.para()
    }
    pub fn seq(&mut self, lo: usize, hi: usize, depth: usize, prev: Option<&Blk>) -> Seq {
        let n = self.r.range(lo, hi);
        let mut out: Seq = vec![];
        for _ in 0..n {
            let b = {
                let p = out.last().map(|x| x.1.clone()).or(prev.cloned());
                self.blk(depth, p.as_ref())
            };
            let p = out.last().map(|x| &x.1).or(prev);
            let zero_ok = self.p.zero_gap
                && match (p, &b) {
                    (Some(Blk::Atx { .. } | Blk::Rule(_) | Blk::Fence { .. } | Blk::Setext { .. }), b) => !matches!(b, Blk::List { .. } | Blk::Indented(_)),
                    (Some(Blk::Para(_)), Blk::Atx { .. } | Blk::Fence { .. } | Blk::Quote(_)) => true,
                    _ => false,
                };
            let gap = if zero_ok && self.r.chance(1, 4) { 0 } else { self.gap() };
            out.push((gap, b));
        }
        out
    }
    pub fn doc(&mut self, lo: usize, hi: usize) -> Seq {
        let d = self.p.depth;
        self.doc_depth(lo, hi, d)
    }
    fn doc_depth(&mut self, lo: usize, hi: usize, d: usize) -> Seq {
        let mut s = self.seq(lo, hi, d, None);
        if self.p.meta && self.r.chance(1, 12) {
            let m = self.meta();
            s.insert(0, (0, m));
            s[1].0 = s[1].0.max(1);
        }
        s[0].0 = 0;
        s
    }
    pub fn meta(&mut self) -> Blk {
        let mark = *self.r.choose(&["---", "+++"]);
        let n = self.r.range(1, 4);
        let mut body: Vec<String> = (0..n).map(|_| self.r.pick(&["title: x  y", "tags: [a,  b]", "date = 2020-01-01", "# comment", "key: \"v\"", "list:", "  - item", "é: 漢", "> not a quote", "a | b", "* x"]).to_string()).collect();
        if body.len() > 2 && self.r.chance(1, 6) {
            body[1] = String::new();
        }
        Blk::Meta { mark, body }
    }
}
