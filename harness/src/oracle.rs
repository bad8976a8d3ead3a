//! Observations on concrete text: where the running text of a document is, and what a fill of it must satisfy.
use pulldown_cmark::*;
use std::ops::Range;
use unicode_width::UnicodeWidthStr;

#[derive(Debug, Clone)]
pub struct ParaSpan {
    pub range: Range<usize>,
    /// pieces of literal text that stand directly in the paragraph (not in links, code, html, ...)
    pub text: Vec<Range<usize>>,
    /// ends of hard line breaks
    pub hard: Vec<Range<usize>>,
    pub has_link: bool,
}

/// The runs of wrappable text: paragraphs, and the text of tight list items.
pub fn para_spans(s: &str) -> Vec<ParaSpan> {
    let mut out: Vec<ParaSpan> = vec![];
    let mut cur: Option<ParaSpan> = None;
    let mut skip = 0; // inside headings, tables, code, html, metadata
    let mut links = 0;
    let mut task = false; // right behind the box of a task
    let grow = |cur: &mut Option<ParaSpan>, r: &Range<usize>| match cur {
        Some(c) => c.range.end = c.range.end.max(r.end),
        None => *cur = Some(ParaSpan { range: r.clone(), text: vec![], hard: vec![], has_link: false }),
    };
    // as the formatter reads it: every reference resolves
    let mut callback = |_: BrokenLink| Some(("".into(), "".into()));
    for (e, r) in Parser::new_with_broken_link_callback(s, crate::sem::opts(), Some(&mut callback)).into_offset_iter() {
        let this_task = matches!(e, Event::TaskListMarker(_));
        match e {
            Event::Start(t) => match t {
                Tag::Heading { .. } | Tag::Table(_) | Tag::CodeBlock(_) | Tag::HtmlBlock | Tag::MetadataBlock(_) => {
                    out.extend(cur.take());
                    skip += 1;
                }
                Tag::Emphasis | Tag::Strong | Tag::Strikethrough if skip == 0 => grow(&mut cur, &r),
                Tag::Link { .. } | Tag::Image { .. } if skip == 0 => {
                    grow(&mut cur, &r);
                    cur.as_mut().unwrap().has_link = true;
                    links += 1;
                }
                Tag::Emphasis | Tag::Strong | Tag::Strikethrough | Tag::Link { .. } | Tag::Image { .. } => {}
                Tag::Paragraph if task => {}
                _ => out.extend(cur.take()),
            },
            Event::End(t) => match t {
                TagEnd::Heading(_) | TagEnd::Table | TagEnd::CodeBlock | TagEnd::HtmlBlock | TagEnd::MetadataBlock(_) => {
                    skip -= 1;
                    cur = None;
                }
                TagEnd::Link | TagEnd::Image => {
                    if skip == 0 {
                        links -= 1;
                    }
                }
                TagEnd::Emphasis | TagEnd::Strong | TagEnd::Strikethrough => {}
                _ => {
                    if skip == 0 {
                        out.extend(cur.take());
                    }
                }
            },
            Event::Rule => out.extend(cur.take()),
            _ if skip > 0 => {}
            Event::Text(_) => {
                grow(&mut cur, &r);
                if links == 0 {
                    cur.as_mut().unwrap().text.push(r);
                }
            }
            Event::HardBreak => {
                grow(&mut cur, &r);
                cur.as_mut().unwrap().hard.push(r);
            }
            _ => grow(&mut cur, &r),
        }
        task = this_task;
    }
    out.extend(cur.take());
    out
}

/// A line of a paragraph.
#[derive(Debug)]
pub struct PText {
    /// byte range of the content of the line, container markers left out
    pub range: Range<usize>,
    /// display width of the whole line, container markers included
    pub width: usize,
}

fn line_of(s: &str, at: usize) -> Range<usize> {
    let a = s[..at].rfind('\n').map_or(0, |i| i + 1);
    let b = s[at..].find('\n').map_or(s.len(), |i| at + i);
    a..b
}

pub fn para_lines(s: &str, p: &ParaSpan) -> Vec<PText> {
    let mut out = vec![];
    let mut at = p.range.start;
    loop {
        let l = line_of(s, at);
        let end = l.end.min(p.range.end);
        out.push(PText { range: at..end, width: s[l.start..end].trim_end().width() });
        if l.end >= p.range.end {
            return out;
        }
        let next = l.end + 1;
        let nl = line_of(s, next);
        let body = s[nl.clone()].trim_start_matches([' ', '>', '\t']);
        at = (nl.end - body.len()).min(p.range.end);
        if at >= p.range.end {
            return out;
        }
    }
}

/// Words of letters and digits, with the punctuation of a sentence behind them: nothing that could be markup.
fn is_plain(w: &str) -> bool {
    let digit = w.starts_with(|c: char| c.is_numeric());
    let end: &[char] = if digit { &[',', ';', '?'] } else { &[',', ';', '?', '.'] };
    let body = w.strip_suffix(end).unwrap_or(w);
    !body.is_empty() && body.chars().all(char::is_alphanumeric)
}

/// A space between two plain words of literal text, where a line break is always possible: the positions of such
/// spaces in the given line.
pub fn safe_breaks(s: &str, p: &ParaSpan, line: &Range<usize>) -> Vec<usize> {
    let mut out = vec![];
    for t in &p.text {
        let (a, b) = (t.start.max(line.start), t.end.min(line.end));
        if a >= b {
            continue;
        }
        for (i, _) in s[a..b].match_indices(' ') {
            let i = a + i;
            let left = s[a..i].rsplit(' ').next().unwrap_or("");
            let right = s[i + 1..b].split(' ').next().unwrap_or("");
            let left_free = i - left.len() > a || a == line.start;
            let right_free = i + 1 + right.len() < b || b == line.end;
            if is_plain(left) && is_plain(right) && left_free && right_free {
                out.push(i);
            }
        }
    }
    out
}

/// The plain word at the start of a line, where the line could be broken after it.
pub fn first_word<'a>(s: &'a str, p: &ParaSpan, line: &Range<usize>) -> Option<&'a str> {
    let t = p.text.iter().find(|t| t.start <= line.start && t.end > line.start)?;
    let b = t.end.min(line.end);
    let x = &s[line.start..b];
    let w = x.split(' ').next().unwrap();
    if !is_plain(w) {
        return None;
    }
    if line.start + w.len() == line.end {
        return Some(w);
    }
    let i = line.start + w.len();
    safe_breaks(s, p, line).contains(&i).then_some(w)
}
pub fn last_word_plain(s: &str, p: &ParaSpan, line: &Range<usize>) -> bool {
    let Some(t) = p.text.iter().find(|t| t.start < line.end && t.end >= line.end) else { return false };
    let a = t.start.max(line.start);
    let x = &s[a..line.end];
    let w = x.rsplit(' ').next().unwrap();
    is_plain(w) && (w.len() < x.len() || a == line.start)
}

/// Escapes come and go with the places they are needed at.
pub fn unescape(s: &str) -> String {
    let mut out = String::with_capacity(s.len());
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\\' && it.peek().is_some_and(|c| c.is_ascii_punctuation()) {
            out.push(it.next().unwrap());
        } else {
            out.push(c);
        }
    }
    out
}

/// `s` with the line structure of its running text erased, and without the text of embedded documents.
pub fn mask_paras(s: &str) -> String {
    let mut cut: Vec<Range<usize>> = vec![];
    for (e, r) in Parser::new_ext(s, crate::sem::opts()).into_offset_iter() {
        if let Event::Start(Tag::CodeBlock(CodeBlockKind::Fenced(i))) = e {
            if i.contains("markdown") {
                cut.push(r);
            }
        }
    }
    let copy = |out: &mut String, r: Range<usize>| {
        let mut at = r.start;
        for c in &cut {
            if c.end > at && c.start < r.end {
                out.push_str(&s[at..c.start.max(at)]);
                at = c.end.min(r.end).max(at);
            }
        }
        out.push_str(&s[at..r.end]);
    };
    let mut out = String::new();
    let mut at = 0;
    for p in para_spans(s) {
        if p.range.start < at {
            continue;
        }
        copy(&mut out, at..p.range.start);
        let ls = para_lines(s, &p);
        let mut words: Vec<&str> = vec![];
        for l in &ls {
            words.extend(s[l.range.clone()].split_whitespace());
        }
        out.push_str(&unescape(&words.join(" ")));
        at = p.range.end;
    }
    copy(&mut out, at..s.len());
    out
}

/// Blank lines in front of each top-level block after the first.
pub fn top_gaps(s: &str) -> Vec<usize> {
    let mut depth = 0;
    let mut ends: Vec<Range<usize>> = vec![];
    for (e, r) in Parser::new_ext(s, crate::sem::opts()).into_offset_iter() {
        match e {
            Event::Start(_) => {
                // comments that the formatter puts in between aren't counted
                let inserted = matches!(e, Event::Start(Tag::HtmlBlock)) && s[r.clone()].lines().all(|l| crate::sem::INSERTED.contains(&l.trim()));
                if depth == 0 && !inserted {
                    ends.push(r);
                }
                depth += 1;
            }
            Event::End(_) => depth -= 1,
            Event::Rule if depth == 0 => ends.push(r),
            _ => {}
        }
    }
    ends.windows(2)
        .map(|w| {
            // by the start of the next block: lines in front of it that are blank
            let start = s[..w[1].start].rfind('\n').map_or(0, |i| i + 1);
            let mut n = 0;
            let mut rest = &s[w[0].start.min(start)..start];
            while let Some(r) = rest.strip_suffix('\n') {
                let l = r.rfind('\n').map_or(r, |i| &r[i + 1..]);
                if !l.trim().is_empty() {
                    break;
                }
                n += 1;
                rest = &rest[..rest.len() - l.len() - 1];
            }
            n
        })
        .collect()
}
