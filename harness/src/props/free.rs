//! Oracles over arbitrary documents, and the sources of those documents.
use crate::frame::*;
use crate::gen::*;
use crate::rng::Rng;
use super::model_props::{ph, phf, witness};
use crate::sem::{sem, Ev};
use crate::corpus;
use std::sync::OnceLock;

pub fn records() -> &'static Vec<(&'static str, &'static str)> {
    static R: OnceLock<Vec<(&'static str, &'static str)>> = OnceLock::new();
    R.get_or_init(corpus::load)
}

pub fn random_cfg(r: &mut Rng) -> Cfg {
    match r.below(4) {
        0 | 1 => Cfg::NONE,
        2 => Cfg::w(r.range(1, 100)),
        _ => Cfg::rf(r.range(1, 100)),
    }
}

/// Free-form documents.
pub fn free_doc(r: &mut Rng) -> String {
    let f = Feats::all().swarm(r);
    Gen::new(r, f).document(1, 5)
}

/// Reflowing code and html with runs of spaces is not idempotent (a listed finding): such documents have single spaces.
pub fn free_doc_for(r: &mut Rng, cfg: Cfg) -> String {
    let mut f = Feats::all().swarm(r);
    if cfg.width.is_some() {
        f = f.without(&[F::dirty, F::html_inline_multi]);
    }
    let doc = Gen::new(r, f).document(1, 5);
    if cfg.reflow && doc.lines().any(spaced_code) {
        return Gen::new(r, f.without(&[F::code, F::inline_html, F::special, F::link, F::reflink, F::image])).document(1, 5);
    }
    doc
}
/// Could there be code, html or a link with a run of spaces?
fn spaced_code(line: &str) -> bool {
    let Some(k) = line.find(['`', '<', '[']) else { return false };
    line[k..].trim_end().contains("  ")
}

pub fn idempotent(c: &Case, m: &mut Mon) -> Verdict {
    let a = fmt(&c.text, c.cfg)?;
    let b = fmt(&a, c.cfg)?;
    if a != c.text {
        m.nontrivial();
        m.count("inputs that formatting changed", 1);
    }
    if a != b {
        return fail("not idempotent", diff("first pass", &a, "second pass", &b));
    }
    Ok(())
}

pub fn diff(na: &str, a: &str, nb: &str, b: &str) -> String {
    let k = a.lines().zip(b.lines()).position(|(x, y)| x != y).unwrap_or(a.lines().count().min(b.lines().count()));
    format!("{na} and {nb} differ at line {}: {:?} / {:?}\n{na}:\n{a}\n{nb}:\n{b}", k + 1, a.lines().nth(k), b.lines().nth(k))
}

pub fn same_events(what: &str, a: &[Ev], b: &[Ev]) -> Verdict {
    if a == b {
        return Ok(());
    }
    let k = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    fail(what, format!("event {k}: {:?} became {:?} (after {:?})", a.get(k), b.get(k), k.checked_sub(1).and_then(|k| a.get(k))))
}

pub fn meaning(c: &Case, m: &mut Mon) -> Verdict {
    let a = fmt(&c.text, c.cfg)?;
    let (x, y) = (sem(&c.text), sem(&a));
    m.count("events compared", x.len());
    if x.len() > 3 {
        m.nontrivial();
    }
    for e in &x {
        if let Ev::Start(s) = e {
            let k = s.split(' ').next().unwrap();
            m.see("kinds of elements", k.to_string());
        }
    }
    match same_events("meaning changed", &x, &y) {
        Ok(()) => Ok(()),
        Err(e) => fail(e.kind, format!("{}\noutput:\n{a}", e.msg)),
    }
}

pub fn gen_free(r: &mut Rng, _: u64) -> Option<Case> {
    let cfg = random_cfg(r);
    Some(Case::new(free_doc_for(r, cfg), cfg))
}
/// Tokens that mean something, in places where they might not.
pub fn gen_tokens(r: &mut Rng, _: u64) -> Option<Case> {
    let cfg = random_cfg(r);
    tokens_under(r, cfg)
}
pub fn gen_spaces(r: &mut Rng, _: u64) -> Option<Case> {
    let cfg = random_cfg(r);
    Some(Case::new(crate::tokens::spaces(r), cfg))
}
pub fn gen_tokens_none(r: &mut Rng, _: u64) -> Option<Case> {
    tokens_under(r, Cfg::NONE)
}
pub fn gen_tokens_w(r: &mut Rng, _: u64) -> Option<Case> {
    let w = r.range(0, 30);
    let cfg = if r.chance(1, 2) { Cfg::w(w) } else { Cfg::rf(w) };
    tokens_under(r, cfg)
}
pub fn gen_tokens_rf(r: &mut Rng, _: u64) -> Option<Case> {
    let w = r.range(1, 30);
    tokens_under(r, Cfg::rf(w))
}
fn tokens_under(r: &mut Rng, cfg: Cfg) -> Option<Case> {
    let mut s = crate::tokens::doc(r);
    if cfg.width.is_some() {
        // Repeated spaces inside of links and code count when lines are wrapped
        s = s.split_inclusive('\n').map(|l| {
            let t = l.trim_start();
            let inner = t.trim_end();
            format!("{}{}{}", &l[..l.len() - t.len()], inner.split(' ').filter(|w| !w.is_empty()).collect::<Vec<_>>().join(" "), &t[inner.len()..])
        }).collect();
    }
    Some(Case::new(s, if cfg.width.is_some() && r.chance(1, 2) { Cfg { width: Some(r.range(0, 14)), ..cfg } } else { cfg }))
}
/// Headings and what they may end in.
pub fn gen_headings(r: &mut Rng, _: u64) -> Option<Case> {
    let cfg = random_cfg(r);
    let p = r.pick(&["", "", "> ", "- ", "1. "]);
    let s = crate::tokens::heading(r);
    let s: String = s.lines().enumerate().map(|(i, l)| format!("{}{l}\n", if i == 0 || p == "> " { p.to_string() } else { " ".repeat(p.len()) })).collect();
    Some(Case::new(s, cfg))
}
pub fn gen_free_none(r: &mut Rng, _: u64) -> Option<Case> {
    Some(Case::new(free_doc(r), Cfg::NONE))
}
const WIDTHS: [usize; 12] = [0, 1, 5, 10, 17, 24, 33, 40, 58, 72, 80, 120];
pub fn corpus_n() -> u64 {
    (records().len() * (1 + 2 * WIDTHS.len())) as u64
}
/// Every record of the corpus under every configuration, but for those that show a listed finding.
pub fn gen_corpus(r: &mut Rng, idx: u64) -> Option<Case> {
    gen_corpus_all(r, idx).filter(|c| corpus_ok(&c.text))
}
pub fn gen_corpus_all(_: &mut Rng, idx: u64) -> Option<Case> {
    let rs = records();
    let (k, i) = ((idx as usize) / rs.len(), (idx as usize) % rs.len());
    let cfg = if k == 0 {
        Cfg::NONE
    } else if k <= WIDTHS.len() {
        Cfg::w(WIDTHS[k - 1])
    } else {
        Cfg::rf(WIDTHS[k - 1 - WIDTHS.len()])
    };
    Some(Case::new(rs[i].1, cfg))
}

/// Records that show a listed finding; each finding is reproduced on its own in the witness phases.
pub fn corpus_ok(t: &str) -> bool {
    const LISTED: &[&str] = &[
        "[^]", "[^foo\n", "[^foo\\n", "{}\n==", "\u{a0}\"title\"", ">-<?", "> -<?", "# ### {#id3}", "*\n  *\n    *\n\n-", "[ two]", "[two]\n\n[three]", "Don't interpret as inline HTML", "<a href=\"foo", "bam = 'baz",
        "[link](<foo\nbar>)", "/url \"title \\\"&quot;\")", "[foo]: /url\n\"title\" ok", "Multiple     spaces", "14.  The", "``\nfoo \n``", "# One [some link](<url>)", "[baz\\\nquux]",
    ];
    !LISTED.iter().any(|l| t.contains(l))
}

/// A document of the model, in a random spelling.
pub fn gen_model_doc(r: &mut Rng, k: u64) -> Option<Case> {
    use super::model_props::mixed;
    use crate::model::{Prof, K};
    let c = mixed(r, k, &[(K::Md, 1)], |p| {
        p.kinds = Prof::all().kinds;
        p.kinds.push((K::Md, 1));
        p.meta = true;
        p.parser_judges = true;
    });
    Some(Case::new(c.text, c.cfg))
}
pub fn gen_model_none(r: &mut Rng, k: u64) -> Option<Case> {
    gen_model_doc(r, k).map(|c| Case { cfg: Cfg::NONE, ..c })
}
pub const PARSER: &str = "the parser (pulldown-cmark 0.13) reads markdown correctly; the oracle uses its own instance, without the formatter's adapters";
pub const GENERATED: &str = "free-form documents are composed by a generator that leaves out the constructs of the listed findings";

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C02",
            rule: "composed documents of every construct, Unicode spaces wherever something is trimmed, documents of the layout model and the corpus of all repository fixtures, under no, wrapping and reflowing configurations: the output is formatted again. Non-trivial: the first pass changed the document",
            phases: vec![ph("free", 120_000, gen_free, idempotent), ph("freen", 120_000, gen_free_none, idempotent), ph("model", 60_000, gen_model_doc, idempotent), ph("phrases", 60_000, super::independence::gen_recombined, idempotent), ph("tokens", 100_000, gen_tokens, idempotent), ph("headings", 20_000, gen_headings, idempotent), ph("spaces", 20_000, gen_spaces, idempotent), phf("corpus", corpus_n, gen_corpus, idempotent), witness(idempotent)],
            required: &[("inputs that formatting changed", 150_000)],
            assumptions: &[GENERATED],
        },
        Prop {
            id: "C03",
            rule: "composed documents of every construct, Unicode spaces wherever something is trimmed, documents of the layout model and the corpus of all repository fixtures, under no, wrapping and reflowing configurations: the event streams of input and output, read by an independent parse, are compared. Non-trivial: more than three events",
            phases: vec![ph("free", 120_000, gen_free, meaning), ph("freen", 120_000, gen_free_none, meaning), ph("model", 60_000, gen_model_doc, meaning), ph("phrases", 60_000, super::independence::gen_recombined, meaning), ph("tokens", 100_000, gen_tokens, meaning), ph("headings", 20_000, gen_headings, meaning), ph("spaces", 20_000, gen_spaces, meaning), phf("corpus", corpus_n, gen_corpus, meaning), witness(meaning)],
            required: &[("events compared", 10_000_000), ("kinds of elements", 18)],
            assumptions: &[PARSER, GENERATED],
        },
    ]
}
