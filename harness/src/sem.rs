//! Meaning of a document: the event stream of an independent parse, with only those differences erased that a
//! formatter is documented to make (whitespace runs in text, source indentation, trailing blank code lines, ...).
use pulldown_cmark::*;

pub fn opts() -> Options {
    markdown_fmt::pulldown_cmark_options!()
}

/// Other spaces (no-break, ideographic, ...) are text.
pub fn blank(c: char) -> bool {
    matches!(c, ' ' | '\t'..='\r')
}
pub fn squeeze(s: &str) -> String {
    s.split(blank).filter(|w| !w.is_empty()).collect::<Vec<_>>().join(" ")
}

/// Whitespace just inside square brackets is trimmed by the formatter (it treats every bracket pair as a potential
/// reference) and never matters to a reader.
fn trim_brackets(s: &str) -> String {
    let mut out = String::with_capacity(s.len());
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == ' ' && it.peek() == Some(&']') {
            continue;
        }
        out.push(c);
        if c == '[' {
            while it.peek() == Some(&' ') {
                it.next();
            }
        }
    }
    out
}

pub const INSERTED: [&str; 2] = ["<!-- Don't absorb code block into list -->", "<!-- Consider a fenced code block instead -->"];

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Ev {
    /// start of a block or inline container, fully described
    Start(String),
    End(&'static str),
    Text(String),
    Code(String),
    CodeBlock { info: Option<String>, lines: Vec<String> },
    HtmlBlock(Vec<String>),
    InlineHtml(String),
    FootRef(String),
    Task(bool),
    Rule,
    Hard,
    Meta(String, String),
}

fn end_name(t: &TagEnd) -> &'static str {
    match t {
        TagEnd::Paragraph => "p",
        TagEnd::Heading(_) => "h",
        TagEnd::BlockQuote(_) => "quote",
        TagEnd::CodeBlock => "code",
        TagEnd::HtmlBlock => "html",
        TagEnd::List(_) => "list",
        TagEnd::Item => "item",
        TagEnd::FootnoteDefinition => "note",
        TagEnd::Table => "table",
        TagEnd::TableHead => "thead",
        TagEnd::TableRow => "tr",
        TagEnd::TableCell => "td",
        TagEnd::Emphasis => "em",
        TagEnd::Strong => "strong",
        TagEnd::Strikethrough => "del",
        TagEnd::Link => "a",
        TagEnd::Image => "img",
        TagEnd::MetadataBlock(_) => "meta",
        _ => "other",
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Opt {
    /// keep the spelling of links (inline / full reference / collapsed / shortcut)
    pub link_kind: bool,
}
pub const STRICT: Opt = Opt { link_kind: true };

/// Hard line breaks within the text of a link, or of brackets that could be one, are written as spaces (the repository's
/// tests say so): their offsets.
pub fn flat_breaks(s: &str) -> std::collections::HashSet<usize> {
    let mut out = std::collections::HashSet::new();
    if !s.contains('[') || !(s.contains("\\\n") || s.contains("\\\r") || s.contains("  \n") || s.contains("  \r")) {
        return out;
    }
    let mut depth = 0;
    let mut callback = |_: BrokenLink| Some(("".into(), "".into()));
    for (e, r) in Parser::new_with_broken_link_callback(s, opts(), Some(&mut callback)).into_offset_iter() {
        match e {
            Event::Start(Tag::Link { .. } | Tag::Image { .. }) => depth += 1,
            Event::End(TagEnd::Link | TagEnd::Image) => depth -= 1,
            Event::HardBreak if depth > 0 => {
                out.insert(r.start);
            }
            _ => {}
        }
    }
    out
}

/// Normalised events of `s`.
pub fn sem(s: &str) -> Vec<Ev> {
    sem_opt(s, STRICT)
}

pub fn sem_opt(s: &str, opt: Opt) -> Vec<Ev> {
    let mut v: Vec<Ev> = vec![];
    let mut text: Option<String> = None;
    fn flush(t: &mut Option<String>, v: &mut Vec<Ev>, at_end_of_link: bool) {
        if let Some(s) = t.take() {
            // collapse whitespace but remember whether there was some at either end
            let lead = s.starts_with(blank);
            let trail = s.ends_with(blank);
            let mut core = trim_brackets(&squeeze(&s));
            let after_link_start = matches!(v.last(), Some(Ev::Start(x)) if x.starts_with("a ") || x.starts_with("img ") || x.starts_with("h") || x == "p" || x == "td" || x=="item");
            let after_hard = matches!(v.last(), Some(Ev::Hard));
            // see `trim_brackets`
            let lead = lead && !core.starts_with(']');
            let trail = trail && !core.ends_with('[');
            if lead && !after_link_start && !after_hard && !(at_end_of_link && core.is_empty()) {
                core.insert(0, ' ');
            }
            if trail && !at_end_of_link && core != " " && !(core.is_empty() && after_link_start) {
                core.push(' ');
            }
            if !core.is_empty() {
                v.push(Ev::Text(core));
            }
        }
    }
    let mut block: Option<(Option<String>, bool)> = None; // (info, is_html)
    let mut meta: Option<String> = None;
    let flat = flat_breaks(s);
    for (e, range) in Parser::new_ext(s, opts()).into_offset_iter() {
        match e {
            Event::Text(t) => text.get_or_insert_default().push_str(&t),
            Event::SoftBreak => text.get_or_insert_default().push(' '),
            Event::Html(h) => text.get_or_insert_default().push_str(&h),
            Event::Start(Tag::CodeBlock(k)) => {
                flush(&mut text, &mut v, true);
                let info = match k {
                    CodeBlockKind::Fenced(i) => Some(i.trim_matches(blank).to_string()),
                    CodeBlockKind::Indented => None,
                };
                block = Some((info, false));
            }
            Event::End(TagEnd::CodeBlock) => {
                let body = text.take().unwrap_or_default();
                let mut lines: Vec<String> = body.split('\n').map(|l| if l.trim_matches(blank).is_empty() { String::new() } else { l.trim_end_matches('\r').to_string() }).collect();
                while lines.last().is_some_and(|l| l.is_empty()) {
                    lines.pop();
                }
                // the end of the whole block is trimmed
                if let Some(l) = lines.last_mut() {
                    l.truncate(l.trim_end_matches(blank).len());
                }
                let info = block.take().and_then(|b| b.0);
                if info.as_ref().is_some_and(|i| i.contains("markdown")) {
                    // formatted recursively: what counts is the meaning of the embedded document
                    lines = sem_opt(&body, opt).iter().map(|e| format!("{e:?}")).collect();
                }
                v.push(Ev::CodeBlock { info, lines });
            }
            Event::Start(Tag::HtmlBlock) => {
                flush(&mut text, &mut v, true);
                block = Some((None, true));
            }
            Event::End(TagEnd::HtmlBlock) => {
                block = None;
                let body = text.take().unwrap_or_default();
                let mut lines: Vec<String> = body.lines().map(|l| squeeze(l)).collect();
                while lines.last().is_some_and(|l| l.is_empty()) {
                    lines.pop();
                }
                if lines.len() == 1 && INSERTED.contains(&lines[0].as_str()) {
                    continue;
                }
                v.push(Ev::HtmlBlock(lines));
            }
            Event::Start(Tag::MetadataBlock(k)) => {
                flush(&mut text, &mut v, true);
                meta = Some(format!("{k:?}"));
            }
            Event::End(TagEnd::MetadataBlock(_)) => {
                let body = text.take().unwrap_or_default();
                v.push(Ev::Meta(meta.take().unwrap_or_default(), body.trim_end_matches(blank).to_string()));
            }
            Event::Start(t) => {
                let is_block = !matches!(t, Tag::Emphasis | Tag::Strong | Tag::Strikethrough | Tag::Link { .. } | Tag::Image { .. });
                flush(&mut text, &mut v, is_block);
                let d = match t {
                    Tag::Paragraph => "p".to_string(),
                    Tag::Heading { level, id, classes, attrs } => format!("h{} id={id:?} cls={:?} attrs={:?}", level as u8, classes.iter().map(|c| c.to_string()).collect::<Vec<_>>(), attrs.iter().map(|(a, b)| (a.to_string(), b.as_ref().map(|b| b.to_string()))).collect::<Vec<_>>()).replace("Borrowed", "").replace("Boxed", "").replace("Inlined", ""),
                    Tag::BlockQuote(_) => "quote".into(),
                    Tag::List(n) => format!("list {n:?}"),
                    Tag::Item => "item".into(),
                    Tag::FootnoteDefinition(l) => format!("note {l}"),
                    Tag::Table(a) => format!("table {a:?}"),
                    Tag::TableHead => "thead".into(),
                    Tag::TableRow => "tr".into(),
                    Tag::TableCell => "td".into(),
                    Tag::Emphasis => "em".into(),
                    Tag::Strong => "strong".into(),
                    Tag::Strikethrough => "del".into(),
                    Tag::Link { link_type, dest_url, title, id } => {
                        let k = if opt.link_kind { format!("{link_type:?} ") } else { String::new() };
                        format!("a {k}{} {:?} {:?}", dest_url, squeeze(&title), if opt.link_kind { squeeze(&id) } else { String::new() })
                    }
                    Tag::Image { link_type, dest_url, title, id } => {
                        let k = if opt.link_kind { format!("{link_type:?} ") } else { String::new() };
                        format!("img {k}{} {:?} {:?}", dest_url, squeeze(&title), if opt.link_kind { squeeze(&id) } else { String::new() })
                    }
                    _ => "other".into(),
                };
                v.push(Ev::Start(d));
            }
            Event::End(t) => {
                let trim = !matches!(t, TagEnd::Emphasis | TagEnd::Strong | TagEnd::Strikethrough);
                flush(&mut text, &mut v, trim);
                v.push(Ev::End(end_name(&t)));
            }
            Event::Code(c) => {
                flush(&mut text, &mut v, false);
                v.push(Ev::Code(squeeze(&c)));
            }
            Event::InlineHtml(h) => {
                flush(&mut text, &mut v, false);
                // In a comment the parser keeps the block quote markers of the lines it spans.
                let h = squeeze(&h);
                v.push(Ev::InlineHtml(if h.starts_with("<!--") { h.split(' ').filter(|w| !w.chars().all(|c| c == '>')).collect::<Vec<_>>().join(" ") } else { h }));
            }
            Event::FootnoteReference(l) => {
                flush(&mut text, &mut v, false);
                v.push(Ev::FootRef(l.to_string()));
            }
            Event::TaskListMarker(b) => {
                flush(&mut text, &mut v, false);
                v.push(Ev::Task(b));
            }
            Event::Rule => {
                flush(&mut text, &mut v, true);
                v.push(Ev::Rule);
            }
            Event::HardBreak if flat.contains(&range.start) => text.get_or_insert_default().push(' '),
            Event::HardBreak => {
                flush(&mut text, &mut v, true);
                v.push(Ev::Hard);
            }
            Event::InlineMath(_) | Event::DisplayMath(_) => {}
        }
    }
    flush(&mut text, &mut v, true);
    // The parser reports the box of a task in front of the paragraph when a line break follows it.
    for i in 1..v.len() {
        if matches!(v[i - 1], Ev::Task(_)) && v[i] == Ev::Start("p".into()) {
            v.swap(i - 1, i);
        }
    }
    v
}
