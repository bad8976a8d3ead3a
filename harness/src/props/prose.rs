//! Filling of running text: width bound, greedy filling, nothing but line breaks changes.
use super::free::*;
use super::model_props::{ph, phf, witness};
use crate::frame::*;
use crate::gen::*;
use crate::oracle::*;
use crate::rng::Rng;
use crate::sem::sem;
use unicode_width::UnicodeWidthStr;

const PROSE: &[F] = &[
    F::quote, F::bullet, F::ordered, F::footnote, F::tight, F::code, F::emph, F::strong, F::strike, F::link, F::reflink, F::image, F::autolink, F::inline_html, F::entity, F::escape, F::fnref, F::hardbreak,
    F::special, F::unicode, F::multiline_inline, F::vocab, F::task, F::heading, F::fenced, F::table, F::html, F::indented, F::refdef, F::rule, F::setext, F::indent_para, F::lazy, F::longnum, F::sub_first,
];

pub fn prose_doc(r: &mut Rng) -> String {
    let mut f = Feats::none().with(PROSE);
    f = f.swarm(r);
    Gen::new(r, f).document(1, 4)
}
pub fn gen_w(r: &mut Rng, _: u64) -> Option<Case> {
    let w = if r.chance(1, 12) { r.range(0, 5) } else { r.range(1, 100) };
    Some(Case::new(prose_doc(r), if r.chance(1, 2) { Cfg::w(w) } else { Cfg::rf(w) }))
}
pub fn gen_rf(r: &mut Rng, _: u64) -> Option<Case> {
    let w = r.range(1, 100);
    Some(Case::new(prose_doc(r), Cfg::rf(w)))
}
/// Every record of the corpus at every other width.
pub fn gen_corpus_w(_: &mut Rng, idx: u64) -> Option<Case> {
    let rs = records();
    let (k, i) = ((idx as usize) / rs.len(), (idx as usize) % rs.len());
    if !corpus_ok(rs[i].1) {
        return None;
    }
    let w = [3, 12, 20, 31, 47, 64, 90][k % 7];
    Some(Case::new(rs[i].1, if k < 7 { Cfg::w(w) } else { Cfg::rf(w) }))
}
pub fn corpus_w_n() -> u64 {
    records().len() as u64 * 14
}
pub fn gen_corpus_rf(r: &mut Rng, idx: u64) -> Option<Case> {
    gen_corpus_w(r, idx + corpus_w_n() / 2)
}
pub fn corpus_rf_n() -> u64 {
    corpus_w_n() / 2
}

pub fn width_bound(c: &Case, m: &mut Mon) -> Verdict {
    width_judge(c, m, false)
}
fn width_bound_everywhere(c: &Case, m: &mut Mon) -> Verdict {
    width_judge(c, m, true)
}
fn width_judge(c: &Case, m: &mut Mon, all: bool) -> Verdict {
    let w = c.cfg.width.unwrap();
    let out = fmt(&c.text, c.cfg)?;
    for p in para_spans(&out) {
        if out[p.range.clone()].contains("]:") {
            continue;
        }
        for l in para_lines(&out, &p) {
            m.count("lines of running text measured", 1);
            if l.width > w {
                m.count("lines over the width that have no place to break", 1);
                let b = safe_breaks(&out, &p, &l.range);
                // a known finding, which is reproduced on its own
                let line = &out[l.range.clone()];
                if !all && line.contains("](<") && (line.ends_with('>') || l.range.start > p.range.start) {
                    m.count("lines of a known finding", 1);
                    continue;
                }
                if !b.is_empty() {
                    return fail("too wide", format!("a line of {} columns at max width {w} could be broken after {:?}: {:?}\noutput:\n{out}", l.width, &out[l.range.start..b[0]], &out[l.range]));
                }
            } else if l.width + 10 > w {
                m.nontrivial();
                m.count("lines that fill the width", 1);
            }
        }
    }
    Ok(())
}

pub fn greedy(c: &Case, m: &mut Mon) -> Verdict {
    let w = c.cfg.width.unwrap();
    let out = fmt(&c.text, c.cfg)?;
    for p in para_spans(&out) {
        if out[p.range.clone()].contains("]:") {
            continue;
        }
        let ls = para_lines(&out, &p);
        for k in ls.windows(2) {
            if p.hard.iter().any(|h| h.start <= k[0].range.end && h.end > k[0].range.end) {
                m.count("hard line breaks passed over", 1);
                continue;
            }
            let Some(word) = first_word(&out, &p, &k[1].range) else { continue };
            if !last_word_plain(&out, &p, &k[0].range) {
                continue;
            }
            m.count("line breaks judged", 1);
            m.nontrivial();
            if k[0].width + 1 + word.width() <= w {
                return fail("not filled", format!("{word:?} fits on the line of {} columns before it at max width {w}: {:?}\noutput:\n{out}", k[0].width, &out[k[0].range.clone()]));
            }
        }
    }
    Ok(())
}

/// Wrapping changes the line structure of running text and nothing else.
pub fn only_breaks(c: &Case, m: &mut Mon) -> Verdict {
    let a = fmt(&c.text, Cfg::NONE)?;
    let b = fmt(&c.text, c.cfg)?;
    if a != b {
        m.nontrivial();
        m.count("documents whose lines changed", 1);
    }
    let (x, y) = (mask_paras(&a), mask_paras(&b));
    if x != y {
        return fail("more than line breaks", diff("unwrapped (running text joined)", &x, "wrapped (running text joined)", &y));
    }
    let (x, y) = (sem(&a), sem(&b));
    m.count("events compared", x.len());
    same_events("meaning changed by wrapping", &x, &y)
}

/// Lines of code spans and html that look like quoted ones can't be told from those when lines are joined.
fn gen_tokens_breaks(r: &mut Rng, k: u64) -> Option<Case> {
    super::free::gen_tokens_w(r, k).filter(|c| !(c.text.contains(['`', '<']) && c.text.lines().any(|l| l.starts_with("    ") && l.trim_start().starts_with('>'))))
}
fn gen_model_w(r: &mut Rng, k: u64) -> Option<Case> {
    gen_model_doc(r, 4 + k % 2 + 8 * k)
}
fn gen_model_rf(r: &mut Rng, k: u64) -> Option<Case> {
    gen_model_doc(r, 5 + 8 * k)
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C04",
            rule: "documents with running text in containers, documents of the model, tokens and the corpus at widths from 0 to 100: every line of running text of the output is measured, and one that is too wide is searched for a place to break. Non-trivial: a line within ten columns of the width",
            phases: vec![ph("free", 120_000, gen_w, width_bound), ph("model", 40_000, gen_model_w, width_bound), ph("tokens", 60_000, super::free::gen_tokens_w, width_bound), phf("corpus", corpus_w_n, gen_corpus_w, width_bound), witness(width_bound_everywhere)],
            required: &[("lines of running text measured", 800_000), ("lines that fill the width", 60_000)],
            assumptions: &[PARSER, GENERATED],
        },
        Prop {
            id: "C05",
            rule: "documents with running text in containers, documents of the model, tokens and the corpus, formatted with and without wrapping: the outputs with the running text joined, and their events, are compared. Non-trivial: wrapping changed the lines",
            phases: vec![ph("free", 80_000, gen_w, only_breaks), ph("model", 30_000, gen_model_w, only_breaks), ph("tokens", 60_000, gen_tokens_breaks, only_breaks), phf("corpus", corpus_w_n, gen_corpus_w, only_breaks), witness(only_breaks)],
            required: &[("documents whose lines changed", 50_000)],
            assumptions: &[PARSER, GENERATED],
        },
        Prop {
            id: "C06",
            rule: "documents with running text in containers, documents of the model, tokens and the corpus, reflowed at widths from 1 to 100: for every line break between two plain words of the output the next word must not have fitted. Non-trivial: a line break was judged",
            phases: vec![ph("free", 120_000, gen_rf, greedy), ph("model", 40_000, gen_model_rf, greedy), ph("tokens", 60_000, super::free::gen_tokens_rf, greedy), phf("corpus", corpus_rf_n, gen_corpus_rf, greedy), witness(greedy)],
            required: &[("line breaks judged", 25_000)],
            assumptions: &[PARSER, GENERATED],
        },
    ]
}
