//! Relations between several executions: whitespace hygiene, gaps, composition, containers, configurations.
use super::free::*;
use super::model_props::{ph, phf, phx, witness};
use crate::frame::*;
use crate::gen::*;
use crate::oracle::*;
use crate::rng::Rng;
use markdown_fmt::FormatBuilder;
use pulldown_cmark::{Event, Parser, Tag, TagEnd};

// ------------------------------------------------------------------------------------------------ whitespace

/// Line by line: is the line verbatim (code, html, front matter), and how deep in block quotes is it?
/// Front matter has a negative depth: its blank lines may have spaces.
fn verbatim_lines(s: &str) -> Vec<Option<i32>> {
    use pulldown_cmark::*;
    let mut v = vec![None; s.matches('\n').count() + 1];
    let mut depth = 0;
    for (e, r) in Parser::new_ext(s, crate::sem::opts()).into_offset_iter() {
        match e {
            Event::Start(Tag::BlockQuote(_)) => depth += 1,
            Event::End(TagEnd::BlockQuote(_)) => depth -= 1,
            _ => {}
        }
        let hit = matches!(e, Event::Start(Tag::CodeBlock(_) | Tag::HtmlBlock | Tag::MetadataBlock(_)) | Event::InlineHtml(_) | Event::Code(_));
        if hit {
            let a = s[..r.start].matches('\n').count();
            let b = a + s[r.clone()].matches('\n').count();
            for x in &mut v[a..=b] {
                *x = Some(if matches!(e, Event::Start(Tag::MetadataBlock(_))) { -1 } else { depth });
            }
        }
    }
    v
}

/// Line by line: is the line part of a block quote that isn't nested in anything?
fn quoted_lines(s: &str) -> Vec<bool> {
    use pulldown_cmark::*;
    let mut v = vec![false; s.matches('\n').count() + 1];
    let mut depth = 0;
    for (e, r) in Parser::new_ext(s, crate::sem::opts()).into_offset_iter() {
        match e {
            Event::Start(t) => {
                if depth == 0 && matches!(t, Tag::BlockQuote(_)) {
                    let a = s[..r.start].matches('\n').count();
                    let b = a + s[r.clone()].trim_end().matches('\n').count();
                    for x in &mut v[a..=b] {
                        *x = true;
                    }
                }
                depth += 1;
            }
            Event::End(_) => depth -= 1,
            _ => {}
        }
    }
    v
}

pub fn hygiene(c: &Case, m: &mut Mon) -> Verdict {
    let out = fmt(&c.text, c.cfg)?;
    m.count("lines inspected", out.lines().count());
    if out.starts_with('\n') {
        return fail("leading blank line", format!("output:\n{out:?}"));
    }
    if out.ends_with("\n\n") {
        return fail("trailing blank lines", format!("output:\n{out:?}"));
    }
    let blank_end = c.text.rsplit(['\n', '\r']).next().is_some_and(|l| !l.is_empty() && l.trim().is_empty());
    if !out.is_empty() && !c.text.trim().is_empty() && !blank_end && (out.ends_with('\n') != c.text.ends_with(['\n', '\r'])) {
        return fail("final newline", format!("input ends {:?}, output ends {:?}", &c.text.chars().last(), out.chars().last()));
    }
    if out.contains('\r') {
        return fail("carriage return", format!("output:\n{out:?}"));
    }
    let v = verbatim_lines(&out);
    for (i, l) in out.lines().enumerate() {
        let t = l.trim_end_matches([' ', '\t']);
        if t.len() < l.len() {
            m.count("lines that end in whitespace", 1);
            m.nontrivial();
            let hard = l.len() - t.len() >= 2 && !t.is_empty() && i + 1 < out.lines().count();
            // a blank line has nothing but the markers of its quotes
            let blank = |depth: i32| depth >= 0 && t.chars().all(|c| matches!(c, '>' | ' ' | '\t')) && t.matches('>').count() <= depth as usize;
            if v[i].is_some_and(blank) {
                return fail("blank line with trailing whitespace", format!("line {}: {l:?}\noutput:\n{out}", i + 1));
            }
            if !hard && v[i].is_none() {
                return fail("trailing whitespace", format!("line {}: {l:?}\noutput:\n{out}", i + 1));
            }
        }
    }
    // the same document with the other line ends
    let lf = c.text.replace("\r\n", "\n");
    if !lf.contains('\r') {
        let crlf = lf.replace('\n', "\r\n");
        let (a, b) = (fmt(&lf, c.cfg)?, fmt(&crlf, c.cfg)?);
        m.count("documents formatted with both line ends", 1);
        if a != b {
            return fail("line ends matter", diff("with LF", &a, "with CRLF", &b));
        }
    }
    Ok(())
}

pub fn gaps(c: &Case, m: &mut Mon) -> Verdict {
    let out = fmt(&c.text, c.cfg)?;
    let (a, b) = (top_gaps(&c.text), top_gaps(&out));
    m.count("gaps compared", a.len());
    if a.iter().any(|g| *g > 1) {
        m.nontrivial();
    }
    if a != b {
        return fail("blank lines", format!("blank lines between the top-level blocks: {a:?} in the input, {b:?} in the output\noutput:\n{out}"));
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ composition

pub fn gen_pair(r: &mut Rng, _: u64) -> Option<Case> {
    let cfg = random_cfg(r);
    let mut f = Feats::all().swarm(r).without(&[F::deep_indent, F::reflink, F::refdef, F::metadata, F::footnote, F::fnref]);
    if cfg.width.is_some() {
        f = f.without(&[F::dirty]);
    }
    let a = Gen::new(r, f).document(1, 3);
    let b = Gen::new(r, f).document(1, 3);
    Some(Case::new(a.trim_end(), cfg).aux(b.trim_end()))
}
/// Pairs of the systematic families of tokens and places.
pub fn gen_pair_tokens(r: &mut Rng, k: u64) -> Option<Case> {
    let a = gen_tokens(r, k)?;
    let b = super::free::gen_tokens_none(r, k)?;
    // The parser ends metadata in a quote at any later line of dashes
    if a.text.contains("]:") || b.text.contains("]:") || a.text.contains("> ---\n") {
        return None;
    }
    // Fences and html may reach over the rule between the two
    let joined = format!("{}\n\n***\n", a.text.trim_end());
    let last: Vec<Event> = Parser::new_ext(&joined, crate::sem::opts()).collect();
    if last.last() != Some(&Event::Rule) {
        return None;
    }
    Some(Case::new(a.text.trim_end(), a.cfg).aux(b.text.trim_end()))
}
pub fn compose(c: &Case, m: &mut Mon) -> Verdict {
    let (a, b) = (&c.text, &c.aux[0]);
    let (x, y) = (fmt(a, c.cfg)?, fmt(b, c.cfg)?);
    let both = fmt(&format!("{a}\n\n***\n\n{b}"), c.cfg)?;
    m.nontrivial();
    m.count("pairs compared", 1);
    let want = format!("{x}\n\n***\n\n{y}");
    if both != want {
        return fail("not compositional", diff("pieces", &want, "whole", &both));
    }
    Ok(())
}

const QUOTE: i64 = 0;
const NOTE: i64 = 3;
/// Containers around a document, the outermost first.
fn chain(r: &mut Rng) -> Vec<i64> {
    let n = *r.choose(&[1, 1, 1, 2, 2, 3]);
    let mut v: Vec<i64> = vec![];
    while v.len() < n {
        let k = r.below(4) as i64;
        // no footnote definition within another
        if k != NOTE || !v.contains(&NOTE) {
            v.push(k);
        }
    }
    v
}
fn in_chain(text: &str, cfg: Cfg, chain: Vec<i64>) -> Case {
    let mut c = Case::new(text.trim_end(), cfg);
    if chain.iter().any(|k| *k > 0) && !c.text.starts_with(|ch: char| ch.is_alphabetic()) {
        c.text = format!("word\n\n{}", c.text);
    }
    c.n = chain;
    c
}
pub fn gen_contain(r: &mut Rng, _: u64) -> Option<Case> {
    let cfg = random_cfg(r);
    let ch = chain(r);
    let mut f = Feats::all().swarm(r).without(&[F::deep_indent, F::metadata, F::lazy, F::html_inline_multi]);
    if ch.contains(&NOTE) || r.chance(1, 2) {
        f = f.without(&[F::footnote]);
    }
    if ch.len() > 1 || f.has(F::footnote) {
        // the parser ends every item around nested content that ends in an empty item and is followed by a blank line
        f = f.without(&[F::emptyitem]);
    }
    if cfg.width.is_some() {
        f = f.without(&[F::dirty]);
    }
    let mut g = Gen::new(r, f);
    g.max_depth = 2;
    let a = g.document(1, 3);
    if a.lines().any(|l| l.trim_start_matches([' ', '>']).starts_with('\t')) {
        // the width of a tab depends on the column
        return None;
    }
    Some(in_chain(&a, cfg, ch))
}
pub fn gen_contain_tokens(r: &mut Rng, k: u64) -> Option<Case> {
    let c = gen_tokens(r, k)?;
    let ch = chain(r);
    // The parser takes the marker of a quote for the end of a declaration; no footnote definition within another
    if ch.contains(&QUOTE) && (c.text.contains("<!") || c.text.contains("<?")) || ch.contains(&NOTE) && c.text.contains("[^") {
        return None;
    }
    // Listed findings: fences that end with their item, indented code behind an indented list
    if c.text.contains(['`', '~']) && c.text.contains("\n\n") || c.text.ends_with("\n\n    w\n") {
        return None;
    }
    // the parser ends every item around a quote that ends in an empty item and is followed by a blank line
    let l: Vec<&str> = c.text.lines().collect();
    if l.windows(2).any(|w| w[1].is_empty() && w[0].starts_with('>') && w[0].trim_end().ends_with(['-', '*', '+', '.', ')'])) {
        return None;
    }
    Some(in_chain(&c.text, c.cfg, ch))
}
/// documents of the model, in any spelling
pub fn gen_contain_model(r: &mut Rng, _: u64) -> Option<Case> {
    use crate::model::*;
    let cfg = random_cfg(r);
    let ch = chain(r);
    let mut p = Prof::all();
    p.depth = 2;
    if ch.contains(&NOTE) {
        p.kinds.retain(|k| k.0 != K::Note);
    }
    p.wrap_safe = cfg.width.is_some();
    // the parser ends every item around a quote that ends in an empty item and is followed by a blank line
    p.empty_items = false;
    let doc = MG::new(r, p).doc(1, 4);
    let a = dirty(&doc, r, Dirt { rate: 2, lazy: false, ..Dirt::FULL });
    Some(in_chain(&a, cfg, ch))
}
/// A line and whether it starts with the marker of a block quote.
type QLine = (String, bool);
fn put_into(kind: i64, lines: Vec<QLine>, canon: bool) -> Vec<QLine> {
    let (first, rest) = [("> ", "> "), ("- ", "  "), ("10. ", "    "), ("", "    ")][kind as usize];
    let mut out: Vec<QLine> = vec![];
    if kind == NOTE {
        out.push(("[^z]:".into(), false));
    }
    for (i, (l, q)) in lines.into_iter().enumerate() {
        let s = if kind == QUOTE && canon && q {
            format!(">{l}")
        } else if l.is_empty() && i > 0 {
            rest.trim_end().to_string()
        } else if i == 0 && kind != NOTE {
            format!("{first}{l}")
        } else {
            format!("{rest}{l}")
        };
        out.push((s, kind == QUOTE));
    }
    out
}
pub fn contain(c: &Case, m: &mut Mon) -> Verdict {
    // listed findings are put into a block quote
    let ch = if c.n.is_empty() { &vec![QUOTE] } else { &c.n };
    // the markers of nested quotes touch
    let taken: usize = (0..ch.len()).map(|i| if ch[i] == QUOTE { 2 - (ch.get(i + 1) == Some(&QUOTE)) as usize } else { [2, 2, 4, 4][ch[i] as usize] }).sum();
    let inner = Cfg { width: c.cfg.width.map(|x| x.saturating_sub(taken)), ..c.cfg };
    let x = fmt(&c.text, inner)?;
    let quoted = quoted_lines(&x);
    if ch.last() == Some(&QUOTE) && c.cfg.width.is_some() && quoted.contains(&true) {
        // the text inside has another width
        return Ok(());
    }
    let wrap = |s: &str, canon: bool| {
        let mut lines: Vec<QLine> = s.split('\n').enumerate().map(|(i, l)| (l.to_string(), canon && quoted[i])).collect();
        for k in ch.iter().rev() {
            lines = put_into(*k, lines, canon);
        }
        lines.into_iter().map(|l| l.0).collect::<Vec<_>>().join("\n")
    };
    let out = fmt(&wrap(&c.text, false), c.cfg)?;
    let want = wrap(&x, true);
    m.nontrivial();
    m.count("documents compared inside a container", 1);
    if ch.len() > 1 {
        m.count("of these, in several containers", 1);
    }
    m.see("(containers, width)", (ch, c.cfg.width));
    if out != want {
        return fail("container", diff("content on its own, prefixed", &want, "in the container", &out));
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ configurations

pub fn neutral(c: &Case, m: &mut Mon) -> Verdict {
    let base = fmt(&c.text, Cfg::NONE)?;
    let mut n = 0;
    let mut same = |what: &'static str, x: Result<String, String>| -> Verdict {
        let x = x?;
        n += 1;
        if x != base {
            return fail(what, diff("default configuration", &base, what, &x));
        }
        Ok(())
    };
    same("reflow without a width", fmt(&c.text, Cfg { width: None, reflow: true }))?;
    for w in [10_000usize, usize::MAX] {
        same("a width wider than every line", fmt(&c.text, Cfg::w(w)))?;
    }
    same("rewrite_markdown", markdown_fmt::rewrite_markdown(&c.text).map_err(|e| e.to_string()))?;
    let (x, _) = fmt_rec(&c.text, Cfg::NONE, |_, _, code| code)?;
    same("a callback that returns its code", Ok(x))?;
    m.count("neutral executions compared", n + 2);
    m.nontrivial();
    // any sequence of settings: the last value of each counts
    let mut r = Rng::new(c.text.bytes().fold(c.text.len() as u64, |h, b| h.wrapping_mul(0x100000001b3) ^ b as u64));
    for _ in 0..2 {
        let mut b = if r.chance(1, 2) { FormatBuilder::default() } else { FormatBuilder::with_code_block_formatter(|_, _, _| "first".into()) };
        let mut last: (Option<usize>, bool, Option<usize>) = (None, false, None);
        let mut calls = vec![];
        for _ in 0..r.range(0, 7) {
            match r.below(7) {
                0..=2 => {
                    last.0 = if r.chance(1, 3) { None } else { Some(r.range(0, 90)) };
                    b.max_width(last.0);
                    calls.push(format!("max_width({:?})", last.0));
                }
                3..=5 => {
                    last.1 = r.chance(1, 2);
                    b.reflow_text(last.1);
                    calls.push(format!("reflow_text({})", last.1));
                }
                _ => {
                    let k = r.below(5);
                    last.2 = Some(k);
                    b.code_block_formatter(move |_, _, s| format!("answer {k}\n{s}"));
                    calls.push(format!("code_block_formatter({k})"));
                }
            }
        }
        let k = match last.2 {
            Some(k) => k,
            None => {
                b.code_block_formatter(|_, _, s| format!("answer 9\n{s}"));
                9
            }
        };
        let (want, _) = fmt_rec(&c.text, Cfg { width: last.0, reflow: last.1 }, move |_, _, s| format!("answer {k}\n{s}"))?;
        let f = b.build();
        for _ in 0..2 {
            let x = f.format(&c.text).map_err(|e| e.to_string())?;
            m.count("sequences of settings compared", 1);
            if x != want {
                return fail("order of configuration", format!("settings: {}\n{}", calls.join(", "), diff("each set once", &want, "this sequence of settings", &x)));
            }
        }
        m.see("sequences of settings", calls);
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ hostile prose

const HOSTILE: &[&str] = &[
    "#", "##", "######", "-", "+", "*", "1.", "1)", "42.", "999999999.", ">", ">>", "|", "||", "---", "===", "=", "--", "***", "___", "* * *", "```", "~~~", "````", "<div>", "</div>", "<!--", "-->", "<?", "<pre>", "<script>", "[a]:", "[^a]:", "[x]", "[ ]", ":--",
    ":-:", "|-|", "-|-", "--|--", "\\", "`", "``", "&", "&amp;", "!", "![", "[", "](", "]", "(", ")", "{#a}", "{.b}", "+++", ">-", "-1", "1.2", "#a", "\\#", "\\-", "0.", "<x", "<a", "x>", "a|b", "| a |", ":", "~", "$", "^", "[^1]", "<b>", "</b>", "<br/>", "__", "**", "_", "\"", "'", "=>", "->", "<-", "<=", "%%%", "@", "====x", "---x",
];
/// Running text that would be a table if its lines ended in the right places.
fn almost_table(r: &mut Rng, words: &[&str]) -> (String, usize) {
    let k = r.range(1, 3);
    let open = r.chance(1, 3) || k == 1;
    let close = r.chance(1, 3) || k == 1;
    let gap = if r.chance(1, 2) { " " } else { "" };
    let row = |cells: Vec<&str>| {
        let s = cells.join(&format!("{gap}|{gap}"));
        format!("{}{s}{}", if open { format!("|{gap}") } else { String::new() }, if close { format!("{gap}|") } else { String::new() })
    };
    let head = row((0..k).map(|_| r.pick(words)).collect());
    let rule = row((0..k).map(|_| r.pick(&["-", "--", ":-", "-:", ":-:", "---"])).collect());
    let tail: Vec<&str> = (0..r.range(1, 5)).map(|_| r.pick(words)).collect();
    let tail = if r.chance(1, 3) { format!("{}{}", r.pick(words), tail.join(" ")) } else { tail.join(" ") };
    let w = r.range(head.len().saturating_sub(1), head.len() + 3).max(rule.len() * r.below(2));
    (format!("{head}{}{rule}{}{tail}", if r.chance(1, 3) { "\n" } else { " " }, if r.chance(1, 8) { "" } else { " " }), w)
}
pub fn gen_hostile(r: &mut Rng, _: u64) -> Option<Case> {
    let words = ["a", "of", "the", "alpha", "beta", "lorem", "foo", "x", "supercali"];
    let mut out = vec![];
    let mut w = r.range(0, 40);
    for _ in 0..r.range(1, 2) {
        let mut lines = vec![];
        let pre = *r.choose(&[("", ""), ("> ", "> "), ("- ", "  "), ("1. ", "   "), ("- > ", "  > ")]);
        if r.chance(1, 8) {
            let (t, k) = almost_table(r, &words);
            w = k + pre.0.len();
            lines.extend(t.lines().map(String::from));
        } else {
        for _ in 0..r.range(1, 3) {
            let mut ws = vec![r.pick(&words).to_string()];
            for _ in 0..r.range(2, 10) {
                ws.push(if r.chance(2, 5) { r.pick(HOSTILE).to_string() } else { r.pick(&words).to_string() });
            }
            ws.push(r.pick(&words).to_string());
            lines.push(ws.join(" "));
        }
        }
        let p: Vec<String> = lines.iter().enumerate().map(|(i, l)| format!("{}{l}", if i == 0 { pre.0 } else { pre.1 })).collect();
        out.push(p.join("\n"));
    }
    let cfg = *r.choose(&[Cfg::NONE, Cfg::w(w), Cfg::w(w), Cfg::rf(w), Cfg::rf(w)]);
    Some(Case::new(out.join("\n\n") + "\n", cfg))
}

// ------------------------------------------------------------------------------------------------ inline spelling

pub fn gen_inline(r: &mut Rng, _: u64) -> Option<Case> {
    use F::*;
    let f = Feats::none()
        .with(&[code, emph, strong, strike, link, reflink, image, autolink, inline_html, entity, escape, fnref, hardbreak, special, F::unicode, multiline_inline, F::vocab, heading])
        .swarm(r);
    let mut g = Gen::new(r, f);
    g.max_depth = 0;
    let t = g.document(1, 4);
    let cfg = random_cfg(r);
    if t.lines().any(|l| l.trim_start().starts_with('#') && l.trim_end().ends_with(" #")) {
        // a heading loses its closing run
        return None;
    }
    Some(Case::new(t, cfg))
}
pub fn spelling(c: &Case, m: &mut Mon) -> Verdict {
    let out = fmt(&c.text, c.cfg)?;
    let key = |s: &str| s.chars().filter(|c| !c.is_whitespace() && !matches!(c, '\\' | '<' | '>')).collect::<String>();
    let (a, b) = (key(&c.text), key(&out));
    m.count("characters compared", a.len());
    m.nontrivial();
    if a != b {
        return fail("spelling", diff("input (squeezed)", &a, "output (squeezed)", &b) + &format!("\noutput:\n{out}"));
    }
    Ok(())
}

/// The written characters of every paragraph, heading, cell and item, from its first inline element to its last one.
fn runs_of(s: &str) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let mut open: Option<std::ops::Range<usize>> = None;
    let mut depth = 0usize;
    let mut verbatim = 0usize;
    let key = |s: &str| s.chars().filter(|c| !c.is_whitespace() && !matches!(c, '\\' | '<' | '>')).collect::<String>();
    for (e, r) in Parser::new_ext(s, crate::sem::opts()).into_offset_iter() {
        let inline = |t: &Tag| matches!(t, Tag::Emphasis | Tag::Strong | Tag::Strikethrough | Tag::Link { .. } | Tag::Image { .. });
        let mut flush = |open: &mut Option<std::ops::Range<usize>>| {
            if let Some(r) = open.take() {
                // The parser leaves the brackets of a collapsed reference out of its span if it ends a heading with a closing run
                let end = r.end + if s[r.end..].starts_with("[]") { 2 } else { 0 };
                out.push(key(&s[r.start..end]));
            }
        };
        match e {
            Event::Start(ref t) if inline(t) => {
                if depth == 0 {
                    open = Some(open.map_or(r.clone(), |o| o.start.min(r.start)..o.end.max(r.end)));
                }
                depth += 1;
            }
            Event::End(t) if matches!(t, TagEnd::Emphasis | TagEnd::Strong | TagEnd::Strikethrough | TagEnd::Link | TagEnd::Image) => depth -= 1,
            Event::Start(t) => {
                flush(&mut open);
                verbatim += usize::from(matches!(t, Tag::CodeBlock(_) | Tag::HtmlBlock | Tag::MetadataBlock(_)));
            }
            Event::End(t) => {
                flush(&mut open);
                verbatim -= usize::from(matches!(t, TagEnd::CodeBlock | TagEnd::HtmlBlock | TagEnd::MetadataBlock(_)));
            }
            Event::SoftBreak | Event::HardBreak | Event::Rule | Event::TaskListMarker(_) | Event::Html(_) => {}
            _ if depth == 0 && verbatim == 0 => open = Some(open.map_or(r.clone(), |o| o.start.min(r.start)..o.end.max(r.end))),
            _ => {}
        }
    }
    out
}
/// Like `spelling`, for documents with blocks: each run of inline elements on its own.
pub fn spelling_runs(c: &Case, m: &mut Mon) -> Verdict {
    let out = fmt(&c.text, c.cfg)?;
    let (a, b) = (runs_of(&c.text), runs_of(&out));
    m.count("runs of inline elements compared", a.len());
    if a.iter().any(|x| x.len() > 2) {
        m.nontrivial();
    }
    if a != b {
        let show = |l: &[String]| l.join("\n");
        return fail("spelling", diff("input (squeezed runs)", &show(&a), "output (squeezed runs)", &show(&b)) + &format!("\noutput:\n{out}"));
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C17",
            rule: "composed documents, documents of the model, tokens at places where they have no or another meaning, and the corpus: first and last lines, line ends and the ends of all lines of the output are inspected, and the document is formatted with LF and CRLF line ends. Non-trivial: an output line ends in whitespace",
            phases: vec![ph("free", 60_000, gen_free, hygiene), ph("model", 40_000, gen_model_doc, hygiene), ph("tokens", 60_000, super::free::gen_tokens, hygiene), phf("corpus", corpus_n, gen_corpus, hygiene), witness(hygiene)],
            required: &[("lines inspected", 1_000_000), ("documents formatted with both line ends", 80_000)],
            assumptions: &[PARSER, GENERATED],
        },
        Prop {
            id: "C18",
            rule: "composed documents, documents of the model, tokens at places where they have no or another meaning, and the corpus: blank lines between the top-level blocks of input and output, found by an independent parse, are compared. Non-trivial: a gap of more than one line",
            phases: vec![ph("free", 100_000, gen_free_none, gaps), ph("model", 40_000, gen_model_none, gaps), ph("tokens", 60_000, super::free::gen_tokens_none, gaps), phf("corpus", corpus_n, gen_corpus, gaps), witness(gaps)],
            required: &[("gaps compared", 200_000)],
            assumptions: &[PARSER, GENERATED],
        },
        Prop {
            id: "C20",
            rule: "composed documents, documents of the model, tokens and the corpus: the default output is compared with that under every configuration that asks for nothing (reflow without width, widths beyond every line, a callback that returns its code, the plain entry point), and a formatter set up in another order is compared with one set up directly. Non-trivial: every case",
            phases: vec![ph("free", 40_000, gen_free_none, neutral), ph("model", 20_000, gen_model_none, neutral), ph("tokens", 40_000, super::free::gen_tokens_none, neutral), phf("corpus", corpus_n, gen_corpus, neutral), witness(neutral)],
            required: &[("neutral executions compared", 400_000)],
            assumptions: &[GENERATED],
        },
        Prop {
            id: "C21",
            rule: "two composed documents without definitions, or two documents of tokens, are formatted on their own and with a rule between them. Non-trivial: every case",
            phases: vec![phx("free", 100_000, gen_pair, compose), phx("tokens", 100_000, gen_pair_tokens, compose)],
            required: &[("pairs compared", 80_000)],
            assumptions: &[GENERATED],
        },
        Prop {
            id: "C22",
            rule: "a composed document, one of the model or of tokens is put into a chain of block quotes, list items and footnotes and compared with the prefixed lines of the document formatted on its own at the width left over. Non-trivial: every compared case",
            phases: vec![phx("free", 100_000, gen_contain, contain), phx("model", 100_000, gen_contain_model, contain), phx("tokens", 100_000, gen_contain_tokens, contain), witness(contain)],
            required: &[("documents compared inside a container", 70_000)],
            assumptions: &[GENERATED],
        },
        Prop {
            id: "C24",
            rule: "lines of words and of tokens that look like block syntax, in containers, wrapped and reflowed at widths from 0 to 40: events of input and output are compared and the output is formatted again. Non-trivial: more than three events / the output differs",
            phases: vec![ph("m", 120_000, gen_hostile, meaning), ph("i", 60_000, gen_hostile, idempotent), ph("tokens", 60_000, super::free::gen_tokens_w, meaning), witness(meaning)],
            required: &[("events compared", 500_000)],
            assumptions: &[PARSER],
        },
        Prop {
            id: "C25",
            rule: "paragraphs and headings of inline constructs: the characters of input and output are compared with whitespace, backslashes and angle brackets left out. Documents of tokens, of headings and composed ones: the same for each run of inline elements found by an independent parse. Non-trivial: every case, or a run of more than two characters",
            phases: vec![ph("free", 120_000, gen_inline, spelling), ph("tokens", 60_000, super::free::gen_tokens, spelling_runs), ph("headings", 20_000, super::free::gen_headings, spelling_runs), ph("blocks", 60_000, gen_free, spelling_runs), witness(spelling)],
            required: &[("characters compared", 10_000_000)],
            assumptions: &[],
        },
    ]
}
