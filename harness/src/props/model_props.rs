//! Properties of single constructs, decided three ways: against the reference model of the layout (exact text), by
//! projecting the independent parse of input and output onto the construct (any document), and over the corpus.
use super::free::*;
use crate::frame::*;
use crate::gen::*;
use crate::model::*;
use crate::rng::Rng;
use crate::sem::{sem, Ev};
use crate::vocab;
use pulldown_cmark::{CodeBlockKind, Event, Parser, Tag};
use std::ops::Range;

pub fn expect(c: &Case, m: &mut Mon) -> Verdict {
    let out = fmt(&c.text, c.cfg)?;
    m.count("documents compared with the model", 1);
    m.count("lines compared with the model", out.lines().count());
    if c.text != c.aux[0] {
        m.nontrivial();
        m.count("documents whose text differs from the canonical one", 1);
    }
    if out != c.aux[0] {
        let k = out.lines().zip(c.aux[0].lines()).position(|(a, b)| a != b).unwrap_or(out.lines().count().min(c.aux[0].lines().count()));
        return fail(
            "layout",
            format!("line {}: expected {:?}, got {:?}\nexpected:\n{}\ngot:\n{}", k + 1, c.aux[0].lines().nth(k), out.lines().nth(k), c.aux[0], out),
        );
    }
    Ok(())
}

pub fn case(r: &mut Rng, p: Prof, lo: usize, hi: usize, d: Dirt, cfg: Cfg) -> Case {
    let d = Dirt { closing_tabs: d.closing_tabs && !p.parser_judges, ..d };
    let doc = MG::new(r, p).doc(lo, hi);
    let nl = if r.chance(1, 4) { "" } else { "\n" };
    let text = dirty(&doc, r, d) + nl;
    let want = canon(&doc, cfg) + nl;
    Case::new(text, cfg).aux(want)
}

/// Document, liberties and configuration of one model case; `k` walks through the modes.
pub fn mixed(r: &mut Rng, k: u64, focus: &[(K, usize)], tweak: fn(&mut Prof)) -> Case {
    let mut p = match k % 8 {
        7 => {
            let mut p = Prof::all();
            p.kinds.extend(focus.iter().map(|(k, w)| (*k, w * 2)));
            p
        }
        _ => {
            let mut v = vec![(K::Para, 3)];
            v.extend_from_slice(focus);
            Prof::new(&v)
        }
    };
    tweak(&mut p);
    let w = if r.chance(1, 10) { r.range(0, 6) } else { r.range(1, 90) };
    match k % 8 {
        3 => {
            p.para_words = 1;
            p.markup = false;
            p.unicode = false;
            p.hard = false;
            case(r, p, 1, 2, Dirt::FULL, Cfg::NONE)
        }
        4 => {
            p.wrap_safe = true;
            case(r, p, 1, 4, Dirt::FULL, Cfg::w(w))
        }
        5 => {
            p.wrap_safe = true;
            case(r, p, 1, 4, Dirt::FULL, Cfg::rf(w))
        }
        6 => case(r, p, 1, 4, Dirt::CLEAN, Cfg::NONE),
        _ => case(r, p, 1, 4, Dirt::FULL, Cfg::NONE),
    }
}

// ------------------------------------------------------------------------------------------------ the constructs

pub const CODE: usize = 0;
pub const DEFS: usize = 1;
pub const TABLE: usize = 2;
pub const LIST: usize = 3;
pub const HEAD: usize = 4;
pub const NOTE: usize = 5;
pub const HTML: usize = 6;
pub const QUOTE: usize = 7;
pub const LINK: usize = 8;
pub const HARD: usize = 9;

pub struct Focus {
    kinds: &'static [(K, usize)],
    tweak: fn(&mut Prof),
    feats: &'static [F],
}
const INLINE: &[F] = &[F::code, F::emph, F::strong, F::link, F::entity, F::escape, F::special, F::unicode, F::vocab, F::dirty, F::tight];
fn same(_: &mut Prof) {}
fn meta(p: &mut Prof) {
    p.meta = true;
}
fn plain(p: &mut Prof) {
    p.max_gap = 2;
}
pub const FOCUS: [Focus; 10] = [
    Focus { kinds: &[(K::Fence, 6), (K::Indented, 4), (K::Quote, 2), (K::Bullet, 2), (K::Ordered, 1), (K::Note, 1)], tweak: same, feats: &[F::fenced, F::indented, F::quote, F::bullet, F::ordered, F::footnote, F::multiline_inline] },
    Focus { kinds: &[(K::Defs, 8), (K::Quote, 2), (K::Bullet, 1), (K::Ordered, 1), (K::Atx, 1), (K::Note, 1)], tweak: same, feats: &[F::refdef, F::reflink, F::quote, F::bullet, F::ordered, F::heading, F::footnote] },
    Focus { kinds: &[(K::Table, 8), (K::Quote, 2), (K::Bullet, 1), (K::Ordered, 1), (K::Note, 1)], tweak: same, feats: &[F::table, F::quote, F::bullet, F::reflink, F::strike, F::image, F::inline_html, F::autolink] },
    Focus { kinds: &[(K::Bullet, 6), (K::Ordered, 6), (K::Quote, 1), (K::Fence, 1), (K::Atx, 1)], tweak: plain, feats: &[F::bullet, F::ordered, F::task, F::emptyitem, F::longnum, F::sub_first, F::quote, F::fenced, F::indented, F::hardbreak] },
    Focus { kinds: &[(K::Atx, 6), (K::Setext, 6), (K::Quote, 1), (K::Bullet, 1), (K::Ordered, 1)], tweak: same, feats: &[F::heading, F::setext, F::attrs, F::setext_multi, F::quote, F::bullet, F::reflink, F::image, F::strike] },
    Focus { kinds: &[(K::Note, 10), (K::Quote, 2), (K::Fence, 2), (K::Bullet, 1), (K::Table, 1), (K::Indented, 1)], tweak: same, feats: &[F::footnote, F::fnref, F::quote, F::bullet, F::fenced, F::ordered] },
    Focus { kinds: &[(K::Html, 8), (K::Quote, 2), (K::Bullet, 1), (K::Ordered, 1)], tweak: meta, feats: &[F::html, F::inline_html, F::html_inline_multi, F::metadata, F::quote, F::bullet] },
    Focus { kinds: &[(K::Quote, 9), (K::Fence, 1), (K::Bullet, 1), (K::Atx, 1), (K::Setext, 1), (K::Html, 1), (K::Rule, 1), (K::Table, 1)], tweak: same, feats: &[F::quote, F::lazy, F::fenced, F::heading, F::bullet, F::rule, F::hardbreak, F::html] },
    Focus { kinds: &[(K::Defs, 1), (K::Atx, 1), (K::Table, 1), (K::Bullet, 1)], tweak: same, feats: &[F::reflink, F::image, F::autolink, F::refdef, F::heading, F::table, F::quote, F::multiline_inline] },
    Focus { kinds: &[(K::Para, 4), (K::Quote, 2), (K::Bullet, 1), (K::Ordered, 1), (K::Note, 1)], tweak: same, feats: &[F::hardbreak, F::quote, F::bullet, F::ordered, F::footnote, F::task] },
];

/// The part of the meaning that belongs to a construct.
pub fn project(v: &[Ev], what: usize) -> Vec<Ev> {
    let mut out = vec![];
    let mut stack: Vec<&str> = vec![];
    let kind = |s: &str| -> &'static str {
        match s.split(' ').next().unwrap() {
            "quote" => "quote",
            "list" => "list",
            "item" => "item",
            "note" => "note",
            "table" => "table",
            "a" => "a",
            "img" => "img",
            x if x.starts_with('h') => "h",
            _ => "",
        }
    };
    let hards = v.contains(&Ev::Hard);
    for (i, e) in v.iter().enumerate() {
        let inside = |k: &str, st: &Vec<&str>| st.contains(&k);
        if let Ev::Start(s) = e {
            stack.push(kind(s));
        }
        let keep = match what {
            CODE => matches!(e, Ev::CodeBlock { .. } | Ev::Code(_)),
            TABLE => inside("table", &stack),
            HEAD => inside("h", &stack),
            NOTE => inside("note", &stack) || matches!(e, Ev::FootRef(_)),
            HTML => matches!(e, Ev::HtmlBlock(_) | Ev::InlineHtml(_) | Ev::Meta(..)),
            LINK | DEFS => inside("a", &stack) || inside("img", &stack),
            LIST => inside("list", &stack) && matches!(e, Ev::Start(_) | Ev::End(_) | Ev::Task(_) | Ev::CodeBlock { .. } | Ev::HtmlBlock(_) | Ev::Rule) && !matches!(e, Ev::End("a" | "img" | "em" | "strong" | "del")) && !matches!(e, Ev::Start(s) if matches!(s.split(' ').next().unwrap(), "a" | "img" | "em" | "strong" | "del")),
            QUOTE => inside("quote", &stack),
            HARD => hards && (*e == Ev::Hard || matches!((v.get(i + 1), i.checked_sub(1).and_then(|k| v.get(k))), (Some(Ev::Hard), _) | (_, Some(Ev::Hard)))),
            _ => false,
        };
        if keep {
            out.push(e.clone());
        }
        if let Ev::End(_) = e {
            stack.pop();
        }
    }
    out
}

fn projected<const I: usize>(c: &Case, m: &mut Mon) -> Verdict {
    let out = fmt(&c.text, c.cfg)?;
    let (x, y) = (project(&sem(&c.text), I), project(&sem(&out), I));
    if !x.is_empty() {
        m.nontrivial();
        m.count("documents with the construct", 1);
    }
    m.count("events of the construct compared", x.len());
    match same_events("construct changed", &x, &y) {
        Ok(()) => Ok(()),
        Err(e) => fail(e.kind, format!("{}\noutput:\n{out}", e.msg)),
    }
}

fn gen_focus<const I: usize>(r: &mut Rng, k: u64) -> Option<Case> {
    Some(mixed(r, k, FOCUS[I].kinds, FOCUS[I].tweak))
}
fn gen_focus_free<const I: usize>(r: &mut Rng, _: u64) -> Option<Case> {
    let cfg = random_cfg(r);
    let mut f = if r.chance(1, 3) { Feats::all() } else { Feats::none().with(INLINE) }.swarm(r).with(FOCUS[I].feats);
    if cfg.width.is_some() {
        f = f.without(&[F::dirty]);
    }
    Some(Case::new(Gen::new(r, f).document(1, 5), cfg))
}
const SOME: [Cfg; 5] = [Cfg::NONE, Cfg { width: Some(30), reflow: false }, Cfg { width: Some(75), reflow: false }, Cfg { width: Some(8), reflow: true }, Cfg { width: Some(60), reflow: true }];
fn some_n() -> u64 {
    records().len() as u64 * SOME.len() as u64
}
fn gen_some(_: &mut Rng, idx: u64) -> Option<Case> {
    let rs = records();
    let (k, i) = ((idx as usize) / rs.len(), (idx as usize) % rs.len());
    if !corpus_ok(rs[i].1) {
        return None;
    }
    Some(Case::new(rs[i].1, SOME[k]))
}

// ------------------------------------------------------------------------------------------------ spelling of markers

/// The marker of every list item as written.
pub fn item_markers(s: &str) -> Vec<String> {
    let mut out = vec![];
    for (e, r) in Parser::new_ext(s, crate::sem::opts()).into_offset_iter() {
        if let Event::Start(Tag::Item) = e {
            out.push(s[r].trim_start().split([' ', '\n', '\t', '\r']).next().unwrap().to_string());
        }
    }
    out
}
fn markers_kept(c: &Case, m: &mut Mon) -> Verdict {
    let out = fmt(&c.text, c.cfg)?;
    let (a, b) = (item_markers(&c.text), item_markers(&out));
    m.count("list markers compared", a.len());
    if a.len() > 1 {
        m.nontrivial();
    }
    if a != b {
        return fail("list markers", format!("{a:?} became {b:?}\noutput:\n{out}"));
    }
    Ok(())
}

/// Level and style of every heading: `#` or the underline with its length.
pub fn heading_styles(s: &str) -> Vec<String> {
    let mut out = vec![];
    for (e, r) in Parser::new_ext(s, crate::sem::opts()).into_offset_iter() {
        if let Event::Start(Tag::Heading { level, .. }) = e {
            let t = s[r].trim();
            let last = t.lines().last().unwrap_or("").trim_start_matches([' ', '>', '\t']).trim_end();
            if t.contains('\n') && (last.chars().all(|c| c == '=') || last.chars().all(|c| c == '-')) {
                out.push(format!("{} {last}", level as u8));
            } else {
                out.push("#".repeat(level as usize));
            }
        }
    }
    out
}
fn styles_kept(c: &Case, m: &mut Mon) -> Verdict {
    let out = fmt(&c.text, c.cfg)?;
    let (a, b) = (heading_styles(&c.text), heading_styles(&out));
    m.count("heading styles compared", a.len());
    if !a.is_empty() {
        m.nontrivial();
    }
    if a != b {
        return fail("heading style", format!("{a:?} became {b:?}\noutput:\n{out}"));
    }
    Ok(())
}

/// The lines of a table of the output are equally wide, and the bars of the header, delimiter row and body line up.
fn tables_aligned(c: &Case, m: &mut Mon) -> Verdict {
    let out = fmt(&c.text, c.cfg)?;
    for (e, r) in Parser::new_ext(&out, crate::sem::opts()).into_offset_iter() {
        let Event::Start(Tag::Table(align)) = e else { continue };
        m.nontrivial();
        let body = out[r.clone()].trim_end();
        let rows: Vec<&str> = body.lines().map(|l| l.trim_start_matches([' ', '>'])).collect();
        m.count("table rows measured", rows.len());
        m.see("alignments", align.iter().map(|a| *a as u8).collect::<Vec<_>>());
        let w = width(rows[0]);
        if let Some(bad) = rows.iter().find(|l| width(l) != w || !l.starts_with("| ") || !l.ends_with(" |")) {
            return fail("ragged table", format!("row {bad:?} is {} columns wide, the header {w}\noutput:\n{out}", width(bad)));
        }
        let bars = rows[1].matches('|').count();
        if bars != align.len() + 1 {
            return fail("columns of a table", format!("{} columns, {bars} bars in the delimiter row\noutput:\n{out}", align.len()));
        }
    }
    Ok(())
}

/// (label, destination, title) of every definition in effect.
pub fn definitions(s: &str) -> Vec<(String, String, String)> {
    let p = Parser::new_ext(s, crate::sem::opts());
    let mut v: Vec<_> = p.reference_definitions().iter().map(|(l, d)| (crate::sem::squeeze(l).to_lowercase(), d.dest.to_string(), d.title.as_ref().map(|t| crate::sem::squeeze(t)).unwrap_or_default())).collect();
    v.sort();
    v
}
fn definitions_kept(c: &Case, m: &mut Mon) -> Verdict {
    let out = fmt(&c.text, c.cfg)?;
    let (a, b) = (definitions(&c.text), definitions(&out));
    m.count("link definitions compared", a.len());
    if !a.is_empty() {
        m.nontrivial();
    }
    if a != b {
        return fail("definitions", format!("{a:?} became {b:?}\noutput:\n{out}"));
    }
    Ok(())
}

/// Opening fence, info string and number of the fenced code blocks.
fn fences(s: &str) -> Vec<(String, String)> {
    let mut out = vec![];
    for (e, r) in Parser::new_ext(s, crate::sem::opts()).into_offset_iter() {
        if let Event::Start(Tag::CodeBlock(CodeBlockKind::Fenced(info))) = e {
            let t = s[r].trim_start();
            let f: Range<usize> = 0..t.len() - t.trim_start_matches(t.chars().next().unwrap_or(' ')).len();
            out.push((t[f].to_string(), info.trim().to_string()));
        }
    }
    out
}
fn fences_kept(c: &Case, m: &mut Mon) -> Verdict {
    let out = fmt(&c.text, c.cfg)?;
    let (a, b) = (fences(&c.text), fences(&out));
    m.count("fences compared", a.len());
    if !a.is_empty() {
        m.nontrivial();
    }
    if a != b {
        return fail("fences", format!("{a:?} became {b:?}\noutput:\n{out}"));
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ footnotes

/// (label, blocks) of the footnote definitions, and the labels referred to.
fn notes(s: &str) -> Vec<String> {
    let mut v = vec![];
    for e in Parser::new_ext(s, crate::sem::opts()) {
        match e {
            Event::Start(Tag::FootnoteDefinition(l)) => v.push(format!("def {l}")),
            Event::FootnoteReference(l) => v.push(format!("ref {l}")),
            _ => {}
        }
    }
    v
}
fn notes_kept(c: &Case, m: &mut Mon) -> Verdict {
    let out = fmt(&c.text, c.cfg)?;
    let (a, b) = (notes(&c.text), notes(&out));
    m.count("footnote labels compared", a.len());
    if !a.is_empty() {
        m.nontrivial();
    }
    if a != b {
        return fail("footnotes", format!("{a:?} became {b:?}\noutput:\n{out}"));
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ hard line breaks

/// Spelling of every hard line break, and the line it stands on.
fn breaks(s: &str) -> Vec<&'static str> {
    let flat = crate::sem::flat_breaks(s);
    let p = Parser::new_ext(s, crate::sem::opts()).into_offset_iter();
    p.filter_map(|(e, r)| (matches!(e, Event::HardBreak) && !flat.contains(&r.start)).then(|| if s[r].starts_with('\\') { "backslash" } else { "spaces" })).collect()
}
fn breaks_kept(c: &Case, m: &mut Mon) -> Verdict {
    let out = fmt(&c.text, c.cfg)?;
    let (a, b) = (breaks(&c.text), breaks(&out));
    m.count("hard line breaks compared", a.len());
    if !a.is_empty() {
        m.nontrivial();
    }
    if a != b {
        return fail("hard line breaks", format!("{a:?} became {b:?}\noutput:\n{out}"));
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ links

fn some_label(r: &mut Rng) -> String {
    let mut s = (0..r.range(1, 3)).map(|_| r.pick(&["a", "Bc", "d-e", "f", "long label", "x1", "é"])).collect::<Vec<_>>().join(" ");
    if r.chance(1, 5) {
        s.push_str(vocab::end(r));
    }
    if r.chance(1, 8) {
        s.insert_str(0, vocab::end(r));
    }
    s
}
/// A paragraph of words and links: as written, and the spelling that is expected.
fn gen_links(r: &mut Rng, _: u64) -> Option<Case> {
    let mut a = vec![];
    let mut b = vec![];
    let mut defs: Vec<String> = vec![];
    let space = |r: &mut Rng, nl: bool| -> String { r.pick(if nl { &["", "", " ", "  ", "\t", "\n", " \n ", "\n  "] } else { &["", "", " ", "  "] }).to_string() };
    for _ in 0..r.range(1, 6) {
        if r.chance(1, 3) {
            let w = r.pick(&["word", "of", "*some*", "`code`", "end."]).to_string();
            a.push(w.clone());
            b.push(w);
            continue;
        }
        let mut text = r.pick(&["t", "two words", "*em*", "**st** x", "`c]d`", "a \\] b", "", "![i](/i.png)", "_x_ y", "é"]).to_string();
        if r.chance(1, 4) {
            text.push_str(vocab::end(r));
        }
        if r.chance(1, 6) {
            text.insert_str(0, vocab::end(r));
        }
        // space at the ends of the text is dropped, and a backslash in front of it becomes an escaped one
        let mut wtext = text.clone();
        let pad = if text.is_empty() { 0 } else { r.below(8) };
        if pad == 0 && !text.is_empty() && !text.ends_with('`') {
            wtext.push_str("\\ ");
            text.push_str("\\\\");
        } else if pad < 4 && !text.is_empty() {
            wtext.push_str(&space(r, true));
        }
        if pad == 1 || pad == 4 {
            wtext.insert_str(0, &space(r, true));
        }
        let bang = if r.chance(1, 4) { "!" } else { "" };
        match r.below(6) {
            0..=2 => {
                // inline
                let dests: &[(&str, &str)] = &[
                    ("/u", "/u"), ("</u>", "/u"), ("http://a.b/c?d=e&f#g", "http://a.b/c?d=e&f#g"), ("/u(x)", "/u(x)"), ("</u v>", "</u v>"), ("<u(>", "<u(>"), ("u\\)v", "u\\)v"), ("#frag", "#frag"), ("a&amp;b", "a&amp;b"), ("a%20b", "a%20b"), ("u\\(v", "u\\(v"),
                    ("<>", ""), ("", ""), ("é", "é"), ("< s>", "< s>"), ("mailto:a@b.c", "mailto:a@b.c"), ("<a)b>", "<a)b>"), ("*u*", "*u*"), ("a_b_c", "a_b_c"), ("`u`", "`u`"),
                ];
                let (dw, dc) = *r.choose(dests);
                let (mut dw, mut dc) = (dw.to_string(), dc.to_string());
                if r.chance(1, 3) && !dw.is_empty() {
                    let e = vocab::end(r);
                    match dw.strip_suffix('>') {
                        Some(x) => {
                            // without its brackets the end means the same
                            dc = match dc.strip_suffix('>') {
                                Some(y) if dc.starts_with('<') => format!("{y}{e}>"),
                                _ => format!("{dc}{e}"),
                            };
                            dw = format!("{x}{e}>");
                        }
                        None => {
                            dw.push_str(e);
                            dc.push_str(e);
                        }
                    }
                }
                let titles = ["\"t\"", "'t'", "(t)", "\"two  words\"", "\"it's\"", "'say \"x\"'", "\"q\\\"q\"", "'q\\'q'", "(p\\)p)", "\"&quot;\"", "\"\\\\\"", "\"(a)\"", "\"[b](c)\"", "'*x*'", "(é)", "\"a < b\""];
                let with_title = !dw.is_empty() && r.chance(1, 2);
                let (l, mut rr) = (space(r, true), space(r, true));
                let mut w = format!("{bang}[{wtext}]({l}{dw}");
                let mut c = format!("{bang}[{text}](");
                if with_title {
                    let mut t = r.pick(&titles).to_string();
                    if r.chance(1, 4) {
                        t.insert_str(t.len() - 1, vocab::end(r));
                    }
                    if r.chance(1, 6) {
                        t.insert_str(1, vocab::end(r));
                    }
                    let gap = r.pick(&[" ", "  ", "\t", "\n", " \n  "]);
                    w += &format!("{gap}{t}");
                    let d = if dc.is_empty() { "<>" } else { &dc };
                    c += &format!("{d} {t}");
                } else {
                    c += &dc;
                }
                if dw.is_empty() && l.contains('\n') {
                    rr = String::new();
                }
                w += &format!("{rr})");
                c += ")";
                a.push(w);
                b.push(c);
            }
            3 => {
                let lab = some_label(r);
                let (l, e) = (space(r, false), space(r, false));
                a.push(format!("{bang}[{wtext}][{l}{lab}{e}]"));
                b.push(format!("{bang}[{text}][{lab}]"));
                defs.push(lab);
            }
            4 => {
                let lab = some_label(r);
                let s = if r.chance(1, 2) { "[]" } else { "" };
                a.push(format!("{bang}[{lab}]{s}"));
                b.push(format!("{bang}[{lab}]{s}"));
                defs.push(lab);
            }
            _ => {
                let u = r.pick(&["<http://a.b>", "<a@b.c>", "<https://x.y/z?q=1&r=(2)>", "<ftp://a/*b*>", "<mailto:x@y>", "<http://a.b/\\>"]).to_string();
                a.push(u.clone());
                b.push(u);
            }
        }
    }
    let mut tail = String::new();
    let mut done = std::collections::HashSet::new();
    for d in &defs {
        if done.insert(d.to_lowercase()) {
            tail += &format!("[{d}]: /{}\n", done.len());
        }
    }
    if !tail.is_empty() {
        tail.insert(0, '\n');
    }
    let sep = |v: &[String]| v.join(" ");
    let mut c = Case::new(format!("x {}\n{tail}", sep(&a)), Cfg::NONE).aux(format!("x {}\n{tail}", sep(&b)));
    c.n.push(a.len() as i64);
    Some(c)
}
fn links_written(c: &Case, m: &mut Mon) -> Verdict {
    m.count("links written", c.n[0] as usize);
    m.see("spellings of a line", &c.text);
    expect(c, m)?;
    let out = fmt(&c.text, c.cfg)?;
    same_events("meaning of links", &sem(&c.text), &sem(&out))
}

// ------------------------------------------------------------------------------------------------ lines of quotes

/// Lines of nested quotes, some blank: as written, and with the markers that are expected.
fn gen_quote_lines(r: &mut Rng, _: u64) -> Option<Case> {
    let mut lines: Vec<(usize, Option<String>)> = vec![];
    let mut depth = r.range(1, 4);
    for i in 0..r.range(1, 5) {
        let next = r.range(if i == 0 { 1 } else { 0 }, 4);
        if i > 0 {
            let low = r.range(0, depth.min(next) + 1);
            let mut at = depth;
            for _ in 0..r.range(1, 5) {
                lines.push((at, None));
                if at > low && r.chance(1, 2) {
                    at = r.range(low, at);
                }
            }
            if at > next {
                lines.push((next, None));
            }
        }
        depth = if i == 0 { depth } else { next };
        let t = match r.below(8) {
            0 => format!("# {}", vocab::bare(r, true)),
            1 => "***".into(),
            2 => format!("- {}", vocab::bare(r, true)),
            3 => format!("```\n{}\n```", vocab::bare(r, true)),
            4 => format!("{}\n{}", vocab::bare(r, true), vocab::bare(r, true)),
            _ => vocab::bare(r, true),
        };
        for l in t.lines() {
            lines.push((depth, Some(l.to_string())));
        }
    }
    let mut at = depth;
    for _ in 0..if depth > 0 { r.below(5) } else { 0 } {
        lines.push((at, None));
        if at > 1 && r.chance(1, 4) {
            at -= 1;
        }
    }
    if r.chance(1, 3) {
        lines.push((0, None));
        lines.push((0, Some("z".into())));
    }
    let (mut a, mut b) = (String::new(), String::new());
    for (d, t) in &lines {
        let marks: String = (0..*d).map(|i| if i > 0 && r.chance(1, 2) { " >" } else { ">" }).collect();
        let t = t.as_deref().unwrap_or("");
        let gap = if *d == 0 || t.is_empty() { "" } else { " " };
        let trail = if t.is_empty() && *d > 0 && r.chance(1, 3) { " " } else { "" };
        a += &format!("{marks}{gap}{t}{trail}\n");
        b += &format!("{}{gap}{t}\n", ">".repeat(*d));
    }
    Some(Case::new(a, Cfg::NONE).aux(b))
}

// ------------------------------------------------------------------------------------------------ everything at once

fn gen_any(r: &mut Rng, k: u64) -> Option<Case> {
    Some(mixed(r, k, &[(K::Md, 1)], |p| {
        p.kinds = Prof::all().kinds;
        p.kinds.push((K::Md, 1));
        p.meta = true;
    }))
}
/// Two spellings of one document.
fn gen_two(r: &mut Rng, k: u64) -> Option<Case> {
    let mut p = Prof::all();
    p.meta = true;
    p.wrap_safe = k % 3 > 0;
    if k % 5 == 0 {
        p.para_words = 2;
    }
    let doc = MG::new(r, p).doc(1, 4);
    let a = dirty(&doc, r, Dirt::FULL);
    let b = dirty(&doc, r, Dirt { rate: 6, ..Dirt::FULL });
    let w = r.range(0, 90);
    let cfg = [Cfg::NONE, Cfg::w(w), Cfg::rf(w)][(k % 3) as usize];
    Some(Case::new(a, cfg).aux(b))
}
fn confluent(c: &Case, m: &mut Mon) -> Verdict {
    let (a, b) = (fmt(&c.text, c.cfg)?, fmt(&c.aux[0], c.cfg)?);
    m.count("pairs of spellings", 1);
    if c.text != c.aux[0] {
        m.nontrivial();
    }
    if a != b {
        return fail("spellings", diff("one spelling formatted", &a, "the other spelling formatted", &b) + &format!("\nthe other spelling:\n{}", c.aux[0]));
    }
    Ok(())
}
/// The columns of the text are what counts, however they are reached.
fn gen_tabs(r: &mut Rng, k: u64) -> Option<Case> {
    let mut p = Prof::new(&[(K::Para, 5), (K::Atx, 1), (K::Quote, 3), (K::Bullet, 6), (K::Ordered, 4), (K::Note, 1), (K::Setext, 1)]);
    p.depth = 4;
    p.wrap_safe = k % 3 == 0;
    let cfg = if k % 3 == 0 { [Cfg::w(r.range(1, 60)), Cfg::rf(r.range(1, 60))][r.below(2)] } else { Cfg::NONE };
    let c = case(r, p, 1, 4, Dirt { lazy: false, ..Dirt::FULL }, cfg);
    let text = with_tabs(&c.text, r, 6);
    if text == c.text {
        return None;
    }
    Some(Case::new(text, cfg).aux(c.aux[0].clone()))
}
fn fixed_point(c: &Case, m: &mut Mon) -> Verdict {
    // the canonical text of the model is left alone
    let want = &c.aux[0];
    let out = fmt(want, c.cfg)?;
    m.count("canonical documents formatted", 1);
    m.nontrivial();
    if out != *want {
        return fail("fixed point", diff("canonical text", want, "formatted", &out));
    }
    Ok(())
}

const M: u64 = 40_000;
const N: u64 = 40_000;
pub fn ph(name: &'static str, quick: u64, gen: fn(&mut Rng, u64) -> Option<Case>, check: fn(&Case, &mut Mon) -> Verdict) -> Phase {
    Phase { name, quick: quick * 3, thorough: quick * 20, fixed: None, gen, check, shrink: true }
}
/// cases that carry more than a text
pub fn phx(name: &'static str, quick: u64, gen: fn(&mut Rng, u64) -> Option<Case>, check: fn(&Case, &mut Mon) -> Verdict) -> Phase {
    Phase { name, quick: quick * 3, thorough: quick * 20, fixed: None, gen, check, shrink: false }
}
pub fn phf(name: &'static str, n: fn() -> u64, gen: fn(&mut Rng, u64) -> Option<Case>, check: fn(&Case, &mut Mon) -> Verdict) -> Phase {
    Phase { name, quick: 0, thorough: 0, fixed: Some(n), gen, check, shrink: true }
}
/// no cases of its own: the phase known findings are reproduced in
pub fn witness(check: fn(&Case, &mut Mon) -> Verdict) -> Phase {
    Phase { name: "witness", quick: 0, thorough: 0, fixed: Some(|| 0), gen: |_, _| None, check, shrink: true }
}

fn focus<const I: usize>(id: &'static str, rule: &'static str, extra: Vec<Phase>, required: &'static [(&'static str, u64)]) -> Prop {
    let mut phases = vec![
        phx("model", M, gen_focus::<I>, expect),
        ph("free", N, gen_focus_free::<I>, projected::<I>),
        ph("tokens", 60_000, super::free::gen_tokens, projected::<I>),
        phf("corpus", some_n, gen_some, projected::<I>),
        witness(projected::<I>),
    ];
    phases.extend(extra);
    Prop { id, rule, phases, required, assumptions: MODEL_ASSUMPTIONS }
}
const MODEL_ASSUMPTIONS: &[&str] = &[
    "the parser (pulldown-cmark 0.13) reads markdown correctly; the oracle uses its own instance, without the formatter's adapters",
    "the reference model of the layout states the intended result; it was derived from the documentation and the repository's fixtures",
];

pub fn props() -> Vec<Prop> {
    vec![
        focus::<CODE>(
            "C07",
            "model: random documents of code blocks in containers in a random spelling, output compared with the model's text; free/corpus: composed documents, code of input and output compared by an independent parse; fences: opening fence and info string as written. Non-trivial: the spelling differs from the canonical one, or the document has code",
            vec![ph("fences", 20_000, gen_focus_free::<CODE>, fences_kept), phf("fences-corpus", some_n, gen_some, fences_kept)],
            &[("documents compared with the model", 30_000), ("documents with the construct", 20_000), ("fences compared", 10_000)],
        ),
        focus::<DEFS>(
            "C11",
            "model: definitions between, in front of and inside other blocks, output compared with the model's text; defs: definitions in effect (label, destination, title) of input and output compared by an independent parse",
            vec![ph("defs", N, gen_focus_free::<DEFS>, definitions_kept), phf("defs-corpus", some_n, gen_some, definitions_kept)],
            &[("documents compared with the model", 30_000), ("link definitions compared", 20_000)],
        ),
        focus::<TABLE>(
            "C12",
            "model: tables with random cells, alignments and spelling, output compared with the model's text; free/corpus: cells of input and output compared by an independent parse; aligned: every table of the output is measured",
            vec![ph("aligned", N, gen_focus_free::<TABLE>, tables_aligned), phf("aligned-corpus", some_n, gen_some, tables_aligned)],
            &[("documents compared with the model", 30_000), ("documents with the construct", 15_000), ("table rows measured", 20_000)],
        ),
        focus::<LIST>(
            "C13",
            "model: nested lists in a random spelling, output compared with the model's text; free/corpus: list structure of input and output compared by an independent parse; markers: the marker of every item as written",
            vec![ph("markers", N, gen_focus_free::<LIST>, markers_kept), phf("markers-corpus", some_n, gen_some, markers_kept)],
            &[("documents compared with the model", 30_000), ("documents with the construct", 15_000), ("list markers compared", 50_000)],
        ),
        focus::<HEAD>(
            "C14",
            "model: headings of both kinds with attributes in a random spelling, output compared with the model's text; free/corpus: headings of input and output compared by an independent parse; style: level, kind and underline as written",
            vec![ph("headings", 20_000, super::free::gen_headings, projected::<HEAD>), ph("headings-style", 20_000, super::free::gen_headings, styles_kept), ph("style", N, gen_focus_free::<HEAD>, styles_kept), phf("style-corpus", some_n, gen_some, styles_kept)],
            &[("documents compared with the model", 30_000), ("documents with the construct", 15_000), ("heading styles compared", 20_000)],
        ),
        focus::<NOTE>(
            "C15",
            "model: footnote definitions with nested content in a random spelling, output compared with the model's text; free/corpus: definitions and references of input and output compared by an independent parse",
            vec![ph("labels", N, gen_focus_free::<NOTE>, notes_kept), phf("labels-corpus", some_n, gen_some, notes_kept)],
            &[("documents compared with the model", 30_000), ("documents with the construct", 15_000), ("footnote labels compared", 20_000)],
        ),
        focus::<HTML>(
            "C16",
            "model: html blocks and front matter in containers, output compared with the model's text; free/corpus: raw html and metadata of input and output compared by an independent parse",
            vec![],
            &[("documents compared with the model", 30_000), ("documents with the construct", 15_000)],
        ),
        focus::<QUOTE>(
            "C26",
            "model: nested block quotes with lazy lines and random markers, output compared with the model's text; free/corpus: everything inside quotes compared by an independent parse",
            vec![phx("lines", 40_000, gen_quote_lines, expect)],
            &[("documents compared with the model", 30_000), ("documents with the construct", 15_000)],
        ),
        focus::<HARD>(
            "C27",
            "model: paragraphs with hard line breaks of both spellings in containers, output compared with the model's text; free/corpus: hard line breaks and what stands around them compared by an independent parse; spelling: two spaces or backslash as written",
            vec![ph("spelling", N, gen_focus_free::<HARD>, breaks_kept), phf("spelling-corpus", some_n, gen_some, breaks_kept)],
            &[("documents compared with the model", 30_000), ("documents with the construct", 8_000), ("hard line breaks compared", 15_000)],
        ),
        focus::<LINK>(
            "C28",
            "model: documents with links of every kind, output compared with the model's text; free/corpus: kind, destination, title and content of links and images compared by an independent parse; written: generated spellings of inline links compared with the canonical one",
            vec![phx("written", 40_000, gen_links, links_written)],
            &[("documents compared with the model", 30_000), ("documents with the construct", 15_000), ("links written", 30_000)],
        ),
        Prop {
            id: "C23",
            rule: "a random document is written twice in different spellings (indentation, trailing space, blank lines that are not empty, marker spacing, lazy continuation, closing fences, delimiter rows, ...); both are formatted and compared with each other, with the model's canonical text, and the canonical text itself is formatted again. Non-trivial: the two spellings differ",
            phases: vec![phx("model", 60_000, gen_any, expect), phx("spellings", 60_000, gen_two, confluent), phx("fixed-point", 40_000, gen_any, fixed_point), phx("tabs", 40_000, gen_tabs, expect)],
            required: &[("documents compared with the model", 40_000), ("pairs of spellings", 40_000), ("canonical documents formatted", 30_000)],
            assumptions: MODEL_ASSUMPTIONS,
        },
    ]
}
