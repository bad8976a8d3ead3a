//! C10: what a formatter answered before, and what its callback did, must not show in later answers.
use super::free::*;
use super::system::{gen_callback_free, parser_fails};
use crate::frame::*;
use crate::rng::Rng;
use crate::vocab;
use markdown_fmt::MarkdownFormatter;
use std::cell::Cell;
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};
use std::rc::Rc;

/// Phrases whose spelling depends on where they stand.
const PHRASES: &[&str] = &[
    "# a title of quite some length #", "# t", "###### x", "> quoted text of quite some length", ">q", "- an item of quite some length", "+ plus", "* star", "-", "+", "1. one of many items", "1) one", "17. seventeen", "===", "=", "* * *", "___",
    "| a | b of a row |", "a | b", "``` code`", "[x]: /url", "[x]: /url \"title of it\"", "[^1]: text of a note", "[x]", "<div> raw html in a line", "<!-- comment -->", "</p>", "<?x?>", "word", "two words",
    "a line of plain words and nothing else", "\\# escaped", "&#35; entity", "**strong** text", "_em_", "`code` span", "[link](/url \"title\")", "![img](/u)", "<http://example.com/>", "x\\", "!", ":", "[ ] task", "漢字 かな", "1986\\. A year", "{#id}", "a_b_c", "*", "**", "\"quoted\"",
];
/// Places in a document.
const SLOTS: &[&str] = &[
    "@", "x\n@", "x  \n@", "x\\\n@", "*e* @", "*e*\n@", "`c` @", "`c`\n@", "<b> @", "<b>\n@", "\\\\ @", "&amp; @", "@\nx", "@ @", "@\n@", "# @", "@\n===", "| h | i |\n|---|---|\n| @ | x |", "> @", "> x\n> @", "> x\n@", "- @", "- x\n  @", "1. x\n   @", "1. x\n\n   @", "- > @",
    "[^n]: @", "[^n]: x\n    @", "[@](/u)", "![@](/u)", "[@]", "[@]: /u", "**@**", "_@_", "(~~@~~)", "`@`", "\\@", "~~~~ @\n@\n~~~~", "~~~~\n@\n~~~~", "~~~~~ markdown\n@\n~~~~~", "<div>\n@\n</div>", "***\n@", "(@)", "*e*@", "`c`@", "<b>@", "&amp;@", "[x](/u)@", "\\\\@", "x\n\\@", "x\n*e*@", "![@\n@](/u)", "[x\n@](/u)", "**x\n@**", "# *e*@", "| h | i |\n|---|---|\n| *e*@ | @ |", "a @ b", "a @\nb @", "x | y\n@",
];
/// These reach what known-findings.txt lists about C02 and C03.
const MORE_SLOTS: &[&str] = &["x\n    @", "- x\n\n  @"];
fn phrase(r: &mut Rng) -> String {
    match r.below(6) {
        0 => vocab::markup(r, true, false, 1),
        1 => (0..r.range(1, 5)).map(|_| vocab::word(r, true)).collect::<Vec<_>>().join(" "),
        2 => format!("{} {}", r.pick(&["#", "-", "+", ">", "1.", "|", "=", "*", "[a]:", "<p>", "[^a]:"]), (0..r.range(1, 6)).map(|_| vocab::bare(r, false)).collect::<Vec<_>>().join(" ")),
        _ => r.pick(PHRASES).to_string(),
    }
}
fn recombine(r: &mut Rng, pool: &[String], more: bool) -> String {
    let n = r.range(1, 3);
    let mut v = vec![];
    for _ in 0..n {
        let slot = if more && r.chance(1, 20) { r.pick(MORE_SLOTS) } else { r.pick(SLOTS) };
        let s: String = slot.split_inclusive('@').map(|s| if s.contains('@') { s.replace('@', r.choose(pool)) } else { s.into() }).collect();
        v.push(match r.below(12) {
            0 => s.lines().map(|l| format!("> {l}\n")).collect::<String>().trim_end().to_string(),
            1 => s.lines().enumerate().map(|(i, l)| format!("{}{l}\n", if i == 0 { "- " } else { "  " })).collect::<String>().trim_end().to_string(),
            _ => s,
        });
    }
    let table = v.iter().any(|s| s.contains("|---"));
    v.join(if !table && r.chance(1, 5) { "\n" } else { "\n\n" }) + "\n"
}
pub fn gen_recombined(r: &mut Rng, _: u64) -> Option<Case> {
    let pool: Vec<String> = (0..r.range(1, 4)).map(|_| phrase(r)).collect();
    let s = recombine(r, &pool, false);
    (!crate::tokens::underlined_definition(&s)).then(|| Case::new(s, random_cfg(r)))
}

/// A batch of documents that say the same things in different places.
fn gen_orders(r: &mut Rng, k: u64) -> Option<Case> {
    let pool: Vec<String> = (0..r.range(4, 8)).map(|_| phrase(r)).collect();
    let mut c = Case::new("", Cfg::NONE);
    let cfgs = [random_cfg(r), random_cfg(r), Cfg::NONE];
    for _ in 0..r.range(30, 50) {
        let t = match r.below(10) {
            0 => free_doc(r),
            1 => gen_callback_free(r, k)?.text,
            _ => recombine(r, &pool, true),
        };
        let cfg = *r.choose(&cfgs);
        c.aux.push(format!("{}\n{t}", cfg.show()));
    }
    c.text = c.aux.join("\n----\n");
    Some(c)
}
/// Serves documents from standard input: one process, one thread, one formatter per configuration.
pub fn serve() {
    let mut b = vec![];
    std::io::stdin().read_to_end(&mut b).expect("read");
    let mut k = 0;
    let mut fs: std::collections::BTreeMap<String, MarkdownFormatter> = Default::default();
    let mut out = vec![];
    while k + 8 <= b.len() {
        let n = u64::from_le_bytes(b[k..k + 8].try_into().unwrap()) as usize;
        let s = String::from_utf8(b[k + 8..k + 8 + n].to_vec()).expect("utf-8");
        k += 8 + n;
        let (cfg, t) = s.split_once('\n').unwrap();
        let f = fs.entry(cfg.to_string()).or_insert_with(|| parse_cfg(cfg).builder().build());
        let r = match catch_unwind(AssertUnwindSafe(|| f.format(t))) {
            Ok(Ok(s)) => s,
            Ok(Err(e)) => format!("error: {e}"),
            Err(e) => format!("panic: {}", panic_text(e)),
        };
        out.extend((r.len() as u64).to_le_bytes());
        out.extend(r.as_bytes());
    }
    std::io::stdout().write_all(&out).expect("write");
}
fn served(docs: &[&String]) -> Result<Vec<String>, Fail> {
    let mut p = Command::new(std::env::current_exe().unwrap()).arg("serve").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("start");
    let mut b = vec![];
    for d in docs {
        b.extend((d.len() as u64).to_le_bytes());
        b.extend(d.as_bytes());
    }
    let _ = p.stdin.take().unwrap().write_all(&b);
    let o = p.wait_with_output().expect("wait");
    if !o.status.success() {
        return fail("process", format!("the process ended with {}", o.status));
    }
    let (mut k, mut v) = (0, vec![]);
    while k + 8 <= o.stdout.len() {
        let n = u64::from_le_bytes(o.stdout[k..k + 8].try_into().unwrap()) as usize;
        v.push(String::from_utf8_lossy(&o.stdout[k + 8..k + 8 + n]).into_owned());
        k += 8 + n;
    }
    Ok(v)
}
/// One process formats the documents in order, another in reverse, and a third one only every third of them: each document
/// gets the same answer in all of them. What is remembered by thread, process or formatter shows as a difference.
fn orders(c: &Case, m: &mut Mon) -> Verdict {
    let docs: Vec<&String> = c.aux.iter().collect();
    let a = served(&docs)?;
    let rev: Vec<&String> = docs.iter().rev().copied().collect();
    let mut b = served(&rev)?;
    b.reverse();
    if a.len() != docs.len() || b.len() != docs.len() {
        return fail("answers", format!("{} and {} answers for {} documents", a.len(), b.len(), docs.len()));
    }
    m.count("processes compared", 2);
    m.nontrivial();
    for i in 0..docs.len() {
        m.count("answers compared between processes", 1);
        if a[i] != b[i] {
            return fail("order", format!("document {i} of {}: {}\nthe document:\n{}", docs.len(), diff("behind the others before it", &a[i], "behind the others after it", &b[i]), docs[i]));
        }
    }
    Ok(())
}

/// Documents with code for a callback that panics now and then.
fn gen_panics(r: &mut Rng, k: u64) -> Option<Case> {
    let mut c = Case::new("", Cfg::NONE);
    let w = r.range(0, 90);
    c.cfg = [Cfg::w(w), Cfg::rf(w), Cfg::NONE][(k % 3) as usize];
    for _ in 0..r.range(2, 4) {
        let x = gen_callback_free(r, k)?;
        c.aux.push(if r.chance(1, 2) { wrapped(r, &x.text) } else { x.text });
    }
    c.text = c.aux[0].clone();
    for _ in 0..r.range(5, 10) {
        // at which call to panic: 0 not at all
        let at = if r.chance(1, 2) { r.range(1, 4) } else { 0 };
        c.n.push((r.below(c.aux.len()) * 8 + at) as i64);
    }
    Some(c)
}
/// The document in an embedded one in a list, with code in front of it.
fn wrapped(r: &mut Rng, t: &str) -> String {
    let p = r.pick(&["- ", "> ", "1. ", "[^n]: "]);
    let rest = match p {
        "> " => "> ",
        "- " => "  ",
        "1. " => "   ",
        _ => "    ",
    };
    let inner = format!("some words in front of the code to fill a line\n\n~~~~~~~~~~~~~~~~~~~~~markdown\n{t}\n~~~~~~~~~~~~~~~~~~~~~\n\n```x\ncode\n```\n\nsome words behind the code to fill another line\n");
    inner.lines().enumerate().map(|(i, l)| if i == 0 { format!("{p}{l}\n") } else if l.is_empty() { format!("{}\n", rest.trim_end()) } else { format!("{rest}{l}\n") }).collect()
}
fn panics(c: &Case, m: &mut Mon) -> Verdict {
    let left = Rc::new(Cell::new(0));
    let l2 = left.clone();
    let mut b = c.cfg.builder();
    b.code_block_formatter(move |_, _, code| {
        l2.set(l2.get() - 1);
        if l2.get() == 0 {
            panic!("the callback");
        }
        code
    });
    let f = b.build();
    for (step, op) in c.n.iter().enumerate() {
        let d = &c.aux[(*op / 8) as usize];
        left.set(if op % 8 == 0 { i64::MAX } else { op % 8 });
        if parser_fails(d) {
            continue;
        }
        match catch_unwind(AssertUnwindSafe(|| f.format(d))) {
            Err(e) if panic_text_is_callback(&e) => {
                m.count("panics of a callback", 1);
                m.nontrivial();
            }
            Err(e) => return Err(panic_text(e).into()),
            Ok(Err(e)) => return fail("error", e.to_string()),
            Ok(Ok(got)) => {
                let want = fmt(d, c.cfg)?;
                m.count("answers compared after panics", 1);
                if got != want {
                    return fail("history", format!("step {step}: {}\nhistory: {:?}\ndocument:\n{d}", diff("a new formatter", &want, "a formatter whose callback has panicked", &got), c.n));
                }
            }
        }
    }
    Ok(())
}
fn panic_text_is_callback(e: &Box<dyn std::any::Any + Send>) -> bool {
    e.downcast_ref::<&str>() == Some(&"the callback")
}

pub fn phases() -> Vec<Phase> {
    use super::model_props::phx;
    vec![phx("orders", 600, gen_orders, orders), phx("panics", 12_000, gen_panics, panics)]
}
