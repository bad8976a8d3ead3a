//! The formatter as a component: totality, the callback contract, embedded documents, independence of executions,
//! resources.
use super::free::*;
use super::model_props::{mixed, ph, phf, phx};
use crate::frame::*;
use crate::gen::*;
use crate::model::*;
use crate::rng::Rng;
use markdown_fmt::MarkdownFormatter;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

// ------------------------------------------------------------------------------------------------ totality

const TOKENS: &[&str] = &[
    "\n", "\n", "\n", "\n\n", " ", " ", "  ", "    ", "\t", "\r\n", "\r", "> ", ">", "- ", "* ", "+ ", "1. ", "2) ", "10. ", "007. ", "# ", "## ", "###### ", "#", "```", "~~~", "````", "```rust\n", "```markdown\n", "~~~~markdown\n", "`", "``", "*", "**", "***", "_", "__", "~~", "~",
    "[", "]", "(", ")", "![", "](", "][", "]: ", "[a]", "[a]: /u", "[a]: /u \"t\"", "[^a]", "[^a]: ", "[^a]:\n", "<", ">", "</", "<a>", "</a>", "<div>", "</div>", "<!--", "-->", "<?", "?>", "<!", "<![CDATA[", "]]>", "<pre>", "<br/>", "<http://a.b>", "&amp;", "&#0;", "&#x20;", "&nbsp;", "&",
    "\\", "\\\n", "\\\\", "  \n", "|", "|-|", "| a | b |\n", "|---|---|\n", "|:-:|", ":-", "-|-", "---", "===", "=", "-", "***", "___", "* * *", "+++\n", "---\n", "[ ]", "[x]", "- [ ] ", "- [x] ", "{#id}", "{.c}", "{", "}", "{}", "{a=b}", "a", "b", "foo", "word", "0", "1", "9", "\u{a0}", "\u{200b}", "\u{feff}",
    "\u{2028}", "é", "漢字", "😀", "e\u{301}", "\u{202e}", "\0", "\u{1}", "\u{7f}", "\u{c}", "\u{b}", "'", "\"", ":", ";", ",", ".", "!", "?", "$", "%", "^", "@", "=", "+", "/", "//", "http://x.y", "a@b.c", "$$", "^a^", "H~2~O", "[[a]]", "[[a|b]]", ": def", ":::", ">[!NOTE]\n", "> [!TIP]\n",
];

pub fn soup(r: &mut Rng, lo: usize, hi: usize) -> String {
    let n = r.range(lo, hi);
    // a few tokens are more likely within one document
    let pal: Vec<&str> = (0..r.range(3, 14)).map(|_| r.pick(TOKENS)).collect();
    let focus = r.range(0, 8);
    let mut s = String::new();
    for _ in 0..n {
        if r.below(8) < focus {
            s.push_str(r.pick(&pal));
        } else {
            s.push_str(r.pick(TOKENS));
        }
    }
    s
}
fn hostile_cfg(r: &mut Rng) -> Cfg {
    let w = match r.below(8) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => usize::MAX,
        4 => usize::MAX - 1,
        _ => r.range(1, 100),
    };
    *r.choose(&[Cfg::NONE, Cfg { width: None, reflow: true }, Cfg::w(w), Cfg::rf(w)])
}
fn gen_soup(r: &mut Rng, k: u64) -> Option<Case> {
    let (lo, hi) = *[(1, 6), (1, 20), (5, 60), (20, 200)].get((k % 4) as usize).unwrap();
    let t = soup(r, lo, hi);
    Some(Case::new(t, hostile_cfg(r)))
}
fn cut(s: &str, at: usize) -> usize {
    let mut i = at.min(s.len());
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}
pub fn mutate(r: &mut Rng, s: &str) -> String {
    let mut t = s.to_string();
    for _ in 0..r.range(1, 5) {
        let a = cut(&t, r.below(t.len() + 1));
        let b = cut(&t, a + r.below(12));
        match r.below(7) {
            0 => t.replace_range(a..b.max(a), ""),
            1 => t.insert_str(a, r.pick(TOKENS)),
            2 => t.replace_range(a..b.max(a), r.pick(TOKENS)),
            3 => {
                let x = t[a..b.max(a)].to_string();
                t.insert_str(a, &x);
            }
            4 => {
                let rs = records();
                let o = rs[r.below(rs.len())].1;
                let c = cut(o, r.below(o.len() + 1));
                let d = cut(o, c + r.below(60)).max(c);
                t.insert_str(a, &o[c..d]);
            }
            5 => {
                let p = *r.choose(&["> ", "  ", "    ", "- ", "\t", ">"]);
                t = t.lines().map(|l| format!("{p}{l}")).collect::<Vec<_>>().join("\n");
            }
            _ => t.truncate(a),
        }
        if t.len() > 6000 {
            let e = cut(&t, 6000);
            t.truncate(e);
        }
    }
    t
}
fn gen_mutant(r: &mut Rng, _: u64) -> Option<Case> {
    let rs = records();
    let s = rs[r.below(rs.len())].1;
    let t = mutate(r, s);
    Some(Case::new(t, hostile_cfg(r)))
}
fn gen_mutant_free(r: &mut Rng, k: u64) -> Option<Case> {
    let f = Feats::all().swarm(r);
    let s = if k % 2 == 0 { Gen::new(r, f).document(1, 5) } else { mixed(r, k, &[(K::Md, 1)], |p| p.kinds = Prof::all().kinds).text };
    let t = mutate(r, &s);
    Some(Case::new(t, hostile_cfg(r)))
}
fn gen_unicode(r: &mut Rng, _: u64) -> Option<Case> {
    let n = r.range(0, 120);
    let mut s = String::new();
    for _ in 0..n {
        let c = match r.below(8) {
            0..=2 => char::from_u32(r.below(0x80) as u32),
            3 => char::from_u32(r.below(0x800) as u32),
            4 => char::from_u32(r.below(0x10000) as u32),
            5 => char::from_u32(r.below(0x110000) as u32),
            6 => Some('\n'),
            _ => Some(*r.choose(&['>', '-', '*', '#', '`', '[', ']', '|', '\\', '<', ' ', '1', '.', ':', '\t', '\r', '{', '}', '_', '~'])),
        };
        s.extend(c);
    }
    Some(Case::new(s, hostile_cfg(r)))
}
const DEEP: &[(&str, &str, &str, usize)] = &[
    // opener repeated n times, middle, closer repeated n times, largest n
    (">", "a\n", "", 1000),
    ("> ", "a\n", "", 1000),
    ("- ", "a\n", "", 300),
    ("1. ", "a\n", "", 200),
    ("> - ", "a\n", "", 150),
    ("*", "a", "*", 2000),
    ("**", "a", "**", 1500),
    ("*a ", "", "*", 1500),
    ("_a __b ", "", "", 1000),
    ("[", "a", "](u)", 300),
    ("![", "a", "](u)", 300),
    ("[", "a", "]", 2000),
    ("[a", "", "][b]", 1500),
    ("~~", "a", "~~", 1000),
    ("`", "a", "", 3000),
    ("` ", "a", "", 1500),
    ("<", "a", ">", 2000),
    ("<a ", "", ">", 800),
    ("(", "a", ")", 2000),
    ("|", "\n|-|\n", "|", 600),
    ("a|", "\n", "-|", 600),
    ("\\", "a", "", 3000),
    ("&amp;", "a", "", 2000),
    ("a\n", "", "", 3000),
    ("a  \n", "", "", 2000),
    ("a\\\n", "", "", 2000),
    ("# a\n", "", "", 2000),
    ("- a\n", "", "", 1500),
    ("- a\n\n", "", "", 1200),
    ("> a\n\n", "", "", 1200),
    ("[a]: /u\n", "", "", 2000),
    ("[^a]\n", "", "", 1500),
    ("[^a]: b\n\n", "", "", 700),
    ("***\n", "", "", 2000),
    ("<div>\n\n", "", "", 1500),
    ("```\na\n```\n", "", "", 1000),
    ("```markdown\na\n```\n", "", "", 1000),
    ("    a\n\n", "", "", 1500),
    ("\n", "a", "", 4000),
    (" ", "a", "", 4000),
    ("\t", "a", "", 2000),
    ("a ", "", "", 8000),
    ("漢", "", "", 4000),
    ("| a ", "|\n|---|\n", "| b |\n", 400),
    ("\u{301}", "a", "", 2000),
    ("[a](b) ", "", "", 1500),
    ("<b>", "", "</b>", 1500),
    ("<http://a.b> ", "", "", 1200),
];
const DEEP_N: [usize; 8] = [1, 2, 3, 5, 12, 40, 150, usize::MAX];
const DEEP_CFG: [Cfg; 5] = [Cfg::NONE, Cfg { width: Some(0), reflow: false }, Cfg { width: Some(20), reflow: false }, Cfg { width: Some(1), reflow: true }, Cfg { width: Some(60), reflow: true }];
fn deep_n() -> u64 {
    (DEEP.len() * DEEP_N.len() * DEEP_CFG.len()) as u64
}
fn gen_deep(_: &mut Rng, i: u64) -> Option<Case> {
    let i = i as usize;
    let (open, mid, close, max) = DEEP[i % DEEP.len()];
    let n = DEEP_N[i / DEEP.len() % DEEP_N.len()].min(max);
    let cfg = DEEP_CFG[i / DEEP.len() / DEEP_N.len()];
    Some(Case::new(format!("{}{mid}{}", open.repeat(n), close.repeat(n)), cfg))
}
/// markdown fences inside each other, several containers deep
fn nested_fences_n() -> u64 {
    60
}
fn gen_nested_fences(_: &mut Rng, i: u64) -> Option<Case> {
    let depth = 1 + (i as usize) % 20;
    let mut t = "- some text that is a little longer\n\n      code\n".to_string();
    for k in 0..depth {
        let f = "`".repeat(3 + k);
        t = format!("{f}markdown\n{t}{f}\n");
        if k % 3 == 1 {
            t = t.lines().map(|l| format!("> {l}\n")).collect();
        }
    }
    Some(Case::new(t, [Cfg::NONE, Cfg::w(12), Cfg::rf(3)][(i / 20) as usize]))
}
/// Does the parser by itself fail on this text? (pulldown-cmark 0.13.0 panics on a few; listed findings show that.)
pub fn parser_fails(s: &str) -> bool {
    let s = s.replace("\r\n", "\n").replace('\r', "\n");
    catch_unwind(AssertUnwindSafe(|| pulldown_cmark::Parser::new_ext(&s, crate::sem::opts()).into_offset_iter().count())).is_err()
}
fn strictly_total(c: &Case, _: &mut Mon) -> Verdict {
    fmt(&c.text, c.cfg)?;
    Ok(())
}
/// The document is formatted by a process of its own, on a stack of 8 MB like that of a program's main thread.
fn total_process(c: &Case, m: &mut Mon) -> Verdict {
    use std::io::Write as _;
    use std::process::{Command, Stdio};
    let mut p = Command::new(std::env::current_exe().unwrap()).args(["plain", &c.cfg.show()]).stdin(Stdio::piped()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().expect("start");
    let _ = p.stdin.take().unwrap().write_all(c.text.as_bytes());
    let st = p.wait().expect("wait");
    m.count("processes that formatted a document", 1);
    if !st.success() {
        return fail("process", format!("the process ended with {st}"));
    }
    Ok(())
}
fn total(c: &Case, m: &mut Mon) -> Verdict {
    let out = match fmt(&c.text, c.cfg) {
        Err(_) if parser_fails(&c.text) => {
            m.count("inputs the parser itself fails on (skipped)", 1);
            return Ok(());
        }
        x => x?,
    };
    m.count("inputs formatted", 1);
    m.max("longest input", c.text.len() as u64);
    if out != c.text {
        m.nontrivial();
    }
    m.see("configurations", c.cfg.show());
    // what it answers is again a document it can read, and of sensible size
    let again = match fmt(&out, c.cfg) {
        Err(_) if parser_fails(&out) => return Ok(()),
        x => x?,
    };
    m.count("outputs formatted again", 1);
    let depth = c.text.lines().map(|l| l.len() - l.trim_start_matches(['>', ' ', '\t', '-', '*', '+', '1', '.']).len()).max().unwrap_or(0);
    let bound = 200 + (c.text.len() + 10) * (40 + 8 * depth);
    for (what, o) in [("output", &out), ("second output", &again)] {
        if o.len() > bound {
            return fail("size", format!("{what} of {} bytes from {} bytes", o.len(), c.text.len()));
        }
    }
    Ok(())
}
/// The callback may answer anything.
fn total_callback(c: &Case, m: &mut Mon) -> Verdict {
    let k = c.text.len();
    let r = fmt_rec(&c.text, c.cfg, move |_, info, code| match k % 6 {
        0 => String::new(),
        1 => "\n\n \n".into(),
        2 => format!("{info}{code}{code}"),
        3 => "```\n~~~\n> - #\n\r\n\t".into(),
        4 => code.replace('\n', "\r\n"),
        _ => "漢 \u{0}\u{301}".into(),
    });
    let (_, calls) = match r {
        Err(_) if parser_fails(&c.text) => return Ok(()),
        x => x?,
    };
    m.count("calls of a hostile callback", calls.len());
    if !calls.is_empty() {
        m.nontrivial();
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ the callback

/// What the callback of a case answers; used by the model and by the execution.
pub fn answer(mode: i64, info: &str, code: &str, ind: usize, width: Option<usize>) -> String {
    match mode {
        0 => code.to_string(),
        1 => code.lines().map(|l| format!("~{l}\n")).collect(),
        2 => format!("{info} {ind} {width:?}\n\n   \n  second\n\n\n"),
        3 => String::new(),
        4 => format!("one line of {}", code.len()),
        5 => " \n\t\n".into(),
        6 => format!("\n\n  leading blank\n{code}\n\n"),
        _ => code.to_uppercase(),
    }
}
/// How an answer is written: no blank end, blank lines empty.
fn written(answer: &str) -> Vec<String> {
    let empty = |s: &str| s.chars().all(crate::sem::blank);
    if empty(answer) {
        return vec![];
    }
    answer.trim_end_matches(crate::sem::blank).lines().map(|l| if empty(l) { String::new() } else { l.to_string() }).collect()
}
fn gen_callback(r: &mut Rng, k: u64) -> Option<Case> {
    let mut p = Prof::new(&[(K::Fence, 8), (K::Para, 2), (K::Quote, 3), (K::Bullet, 3), (K::Ordered, 2), (K::Note, 1), (K::Md, 2), (K::Indented, 1), (K::Html, 1), (K::Atx, 1)]);
    let w = if r.chance(1, 6) { r.range(0, 12) } else { r.range(10, 100) };
    let cfg = [Cfg::NONE, Cfg::w(w), Cfg::rf(w)][(k % 3) as usize];
    p.wrap_safe = cfg.width.is_some();
    p.para_words = if cfg.width.is_some() { p.para_words } else { 3 };
    let mut doc = MG::new(r, p).doc(1, 4);
    let mode = r.below(8) as i64;
    let text = dirty(&doc, r, Dirt::FULL) + "\n";
    let mut calls = vec![];
    visit_fences(&mut doc, 0, cfg.width, &mut |v| {
        let code: String = v.body.iter().map(|l| format!("{l}\n")).collect();
        let info = v.info.trim().to_string();
        let a = answer(mode, &info, &code, v.indentation, v.width);
        *v.body = written(&a);
        calls.push(format!("{info:?} {code:?} {} {:?}", v.indentation, v.width));
    });
    let mut c = Case::new(text, cfg).aux(canon(&doc, cfg) + "\n");
    c.aux.extend(calls);
    c.n.push(mode);
    Some(c)
}
fn callback(c: &Case, m: &mut Mon) -> Verdict {
    let mode = c.n[0];
    let (out, calls) = fmt_rec(&c.text, c.cfg, move |ctx, info, code| answer(mode, info, &code, ctx.indentation(), ctx.max_width()))?;
    let got: Vec<String> = calls.iter().map(|k| format!("{:?} {:?} {} {:?}", k.info, k.code, k.indentation, k.max_width)).collect();
    m.count("calls of the callback checked", got.len());
    for k in &calls {
        m.see("indentations reported", k.indentation);
        m.see("(indentation, width) reported", (k.indentation, k.max_width));
    }
    m.see("answers", mode);
    if !got.is_empty() {
        m.nontrivial();
    }
    let want = &c.aux[1..];
    if got != want {
        let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        return fail("calls", format!("call {i}: expected {:?}, observed {:?} ({} expected, {} observed)", want.get(i), got.get(i), want.len(), got.len()));
    }
    if out != c.aux[0] {
        return fail("answer", diff("expected", &c.aux[0], "output", &out));
    }
    Ok(())
}
/// Any document: one call for each fenced block the parser sees outside of embedded documents, in order, with its info
/// string and text.
fn callback_free(c: &Case, m: &mut Mon) -> Verdict {
    use pulldown_cmark::*;
    let (out, calls) = fmt_rec(&c.text, c.cfg, |_, _, code| code)?;
    let plain = fmt(&c.text, c.cfg)?;
    if out != plain {
        return fail("identity callback", diff("without callback", &plain, "with a callback that returns its code", &out));
    }
    fn blocks(s: &str, out: &mut Vec<(String, String)>) {
        let mut cur: Option<(String, String)> = None;
        for e in Parser::new_ext(s, crate::sem::opts()) {
            match e {
                Event::Start(Tag::CodeBlock(CodeBlockKind::Fenced(i))) => cur = Some((i.to_string(), String::new())),
                Event::Text(t) => {
                    if let Some(c) = &mut cur {
                        c.1.push_str(&t);
                    }
                }
                Event::End(TagEnd::CodeBlock) => {
                    if let Some((i, t)) = cur.take() {
                        if i.contains("markdown") {
                            blocks(&t, out);
                        } else {
                            out.push((i, t));
                        }
                    }
                }
                _ => {}
            }
        }
    }
    let mut want = vec![];
    blocks(&c.text.replace("\r\n", "\n"), &mut want);
    m.count("calls of the callback checked against the parse", calls.len());
    if calls.len() > 1 {
        m.nontrivial();
    }
    let got: Vec<(&str, &str)> = calls.iter().map(|c| (c.info.trim(), c.code.trim_end())).collect();
    let want: Vec<(&str, &str)> = want.iter().map(|(a, b)| (a.trim(), b.trim_end())).collect();
    if got != want {
        let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        return fail("calls", format!("call {i}: expected {:?}, observed {:?} ({} expected, {} observed)", want.get(i), got.get(i), want.len(), got.len()));
    }
    Ok(())
}
pub fn gen_callback_free(r: &mut Rng, _: u64) -> Option<Case> {
    let cfg = random_cfg(r);
    let f = Feats::all().swarm(r).with(&[F::fenced, F::quote, F::bullet]);
    Some(Case::new(Gen::new(r, f).document(2, 6), cfg))
}

// ------------------------------------------------------------------------------------------------ embedded documents

/// (first line, other lines, columns, columns as the callback context reports them)
const BOXES: &[(&str, &str, usize)] = &[("> ", "> ", 2), ("- ", "  ", 2), ("10. ", "    ", 4), ("1) ", "   ", 3), ("* ", "  ", 2)];
fn gen_embed(r: &mut Rng, k: u64) -> Option<Case> {
    let w = if r.chance(1, 8) { r.range(0, 10) } else { r.range(5, 100) };
    let cfg = [Cfg::w(w), Cfg::rf(w), Cfg::NONE][(k % 3) as usize];
    let mut f = Feats::all().swarm(r);
    if cfg.width.is_some() {
        f = f.without(&[F::dirty]);
    }
    let mut g = Gen::new(r, f);
    g.max_depth = 2;
    let x = g.document(1, 3);
    let mut c = Case::new(x, cfg);
    let n = r.below(4);
    let mut last = 0;
    for i in 0..n {
        let mut b = r.below(BOXES.len());
        // directly nested quotes print their markers without a space between them
        while (i > 0 && b == 0 && last == 0) || (i > 0 && b != 0 && last != 0 && BOXES[b].0.trim_end().ends_with(['-', '*']) && BOXES[last].0 == BOXES[b].0) {
            b = r.below(BOXES.len());
        }
        last = b;
        c.n.push(b as i64);
    }
    // a paragraph behind the block: the width has to be back
    let words: Vec<&str> = (0..r.range(5, 25)).map(|_| *r.choose(&["alpha", "be", "gamma", "delta", "e"])).collect();
    c.aux.push(words.join(" "));
    Some(c)
}
fn boxed(n: &[i64], lines: &str) -> String {
    let mut out: Vec<String> = lines.split('\n').map(|s| s.to_string()).collect();
    for b in n.iter().rev() {
        let (first, rest, _) = BOXES[*b as usize];
        for (i, l) in out.iter_mut().enumerate() {
            *l = if i == 0 {
                format!("{first}{l}")
            } else if l.is_empty() {
                rest.trim_end().to_string()
            } else {
                format!("{rest}{l}")
            };
        }
    }
    out.join("\n")
}
fn embed(c: &Case, m: &mut Mon) -> Verdict {
    embed_as(c, m, false)
}
fn embed_reentrant(c: &Case, m: &mut Mon) -> Verdict {
    embed_as(c, m, true)
}
fn embed_as(c: &Case, m: &mut Mon, reentrant: bool) -> Verdict {
    let ind: usize = c.n.iter().map(|b| BOXES[*b as usize].2).sum();
    let inner = Cfg { width: c.cfg.width.map(|w| w.saturating_sub(ind)), ..c.cfg };
    let x = fmt(&c.text, inner)?;
    let tail = fmt(&c.aux[0], c.cfg)?;
    let body: String = written(&x).iter().map(|l| format!("{l}\n")).collect();
    let fence = "~".repeat(45);
    let info = if reentrant { "embedded" } else { "markdown" };
    let mk = |b: &str, p: &str| format!("{}\n\n{p}", boxed(&c.n, &format!("{fence}{info}\n{b}{fence}")));
    let mut text = c.text.replace("\r\n", "\n");
    if !text.is_empty() && !text.ends_with('\n') {
        text.push('\n');
    }
    let input = mk(&text, &c.aux[0]);
    let want = mk(&body, &tail);
    m.count("embedded documents compared", 1);
    m.see("(container columns, width)", (ind, c.cfg.width));
    m.max("deepest stack of containers", c.n.len() as u64);
    if ind > 0 && c.cfg.width.is_some() {
        m.nontrivial();
    }
    let out = if reentrant {
        // the callback formats the code with the formatter that calls it
        let slot: Rc<RefCell<Option<Rc<MarkdownFormatter>>>> = Rc::default();
        let s2 = slot.clone();
        let mut b = c.cfg.builder();
        b.code_block_formatter(move |_, info, code| {
            if info != "embedded" {
                return code;
            }
            let f = s2.borrow().clone().unwrap();
            f.format(&code).unwrap()
        });
        let f = Rc::new(b.build());
        *slot.borrow_mut() = Some(f.clone());
        let r = catch_unwind(AssertUnwindSafe(|| f.format(&input)));
        *slot.borrow_mut() = None;
        match r {
            Ok(Ok(s)) => s,
            Ok(Err(e)) => return fail("error", format!("{e}")),
            Err(e) => return Err(panic_text(e).into()),
        }
    } else {
        fmt(&input, c.cfg)?
    };
    if out != want {
        return fail("embedded", diff("on its own, at the remaining width", &want, "embedded", &out) + &format!("\nthe whole input:\n{input}"));
    }
    Ok(())
}
fn gen_md_model(r: &mut Rng, k: u64) -> Option<Case> {
    Some(mixed(r, k, &[(K::Md, 8), (K::Quote, 2), (K::Bullet, 2), (K::Ordered, 1), (K::Note, 1), (K::Fence, 1), (K::Table, 1)], |_| {}))
}

// ------------------------------------------------------------------------------------------------ independence

fn gen_history(r: &mut Rng, k: u64) -> Option<Case> {
    let mut docs = vec![];
    for _ in 0..r.range(2, 4) {
        docs.push(match r.below(4) {
            0 => soup(r, 3, 50),
            1 => mixed(r, k, &[(K::Md, 2), (K::Fence, 2)], |p| p.kinds.extend(Prof::all().kinds)).text,
            _ => free_doc(r),
        });
    }
    let mut c = Case::new(docs[0].clone(), Cfg::NONE);
    c.aux = docs;
    // the history: (formatter, document) pairs
    for _ in 0..r.range(6, 14) {
        c.n.push((r.below(3) * 8 + r.below(c.aux.len())) as i64);
    }
    let w = r.range(0, 90) as i64;
    c.n.insert(0, w);
    Some(c)
}
/// Three formatters with different configurations, used in a random order on random documents; every answer has to be
/// that of a new formatter which has seen nothing else.
fn history(c: &Case, m: &mut Mon) -> Verdict {
    let w = c.n[0] as usize;
    let cfgs = [Cfg::NONE, Cfg::w(w), Cfg::rf(w)];
    let fs: Vec<MarkdownFormatter> = cfgs.iter().map(|c| c.builder().build()).collect();
    let mut fresh = std::collections::BTreeMap::new();
    for (step, op) in c.n[1..].iter().enumerate() {
        let (f, d) = ((*op / 8) as usize, (*op % 8) as usize);
        let want = match fresh.get(&(f, d)) {
            Some(w) => w,
            None => {
                // in a new thread: what this one remembers isn't there
                let x = std::thread::scope(|s| std::thread::Builder::new().stack_size(WORKER_STACK).spawn_scoped(s, || fmt(&c.aux[d], cfgs[f])).unwrap().join().unwrap())?;
                fresh.entry((f, d)).or_insert(x)
            }
        };
        let got = match catch_unwind(AssertUnwindSafe(|| fs[f].format(&c.aux[d]))) {
            Ok(Ok(s)) => s,
            Ok(Err(e)) => return fail("error", e.to_string()),
            Err(e) => return Err(panic_text(e).into()),
        };
        m.count("answers compared with a fresh formatter", 1);
        m.nontrivial();
        if got != *want {
            return fail("history", format!("step {step}: {}\nhistory: {:?}", diff("a new formatter", want, "the used formatter", &got), c.n));
        }
    }
    m.see("histories", c.n.clone());
    // once more from the start, on formatters of their own in other threads
    let want: Vec<String> = c.n[1..].iter().map(|op| fresh[&((*op / 8) as usize, (*op % 8) as usize)].clone()).collect();
    if c.n.len() % 4 == 0 {
        let rs: Vec<Result<(), String>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..3)
                .map(|t| {
                    let (c, want, cfgs) = (&c, &want, &cfgs);
                    std::thread::Builder::new()
                        .stack_size(WORKER_STACK)
                        .spawn_scoped(s, move || {
                            let n = want.len();
                            for i in 0..n {
                                let i = (i + t * 3) % n;
                                let op = c.n[1 + i];
                                let got = fmt(&c.aux[(op % 8) as usize], cfgs[(op / 8) as usize])?;
                                if got != want[i] {
                                    return Err(format!("in thread {t}: {}", diff("alone", &want[i], "concurrently", &got)));
                                }
                                if (i + t) % 3 == 0 {
                                    std::thread::yield_now();
                                }
                            }
                            Ok(())
                        })
                        .unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        m.count("answers compared across threads", 3 * want.len());
        for r in rs {
            if let Err(e) = r {
                return fail("concurrency", e);
            }
        }
    }
    Ok(())
}
/// While a formatter is inside its callback, other formatters work on other documents.
fn gen_reenter(r: &mut Rng, k: u64) -> Option<Case> {
    let a = gen_callback_free(r, k)?;
    let b = free_doc(r);
    Some(Case::new(a.text, a.cfg).aux(b))
}
fn reenter(c: &Case, m: &mut Mon) -> Verdict {
    let want = fmt(&c.text, c.cfg)?;
    let cfg2 = Cfg { width: Some(c.text.len() % 50), reflow: c.text.len() % 2 == 0 };
    let b_want = fmt(&c.aux[0], cfg2)?;
    let bad: Rc<RefCell<Option<String>>> = Rc::default();
    let (bad2, doc, bw) = (bad.clone(), c.aux[0].clone(), b_want.clone());
    let (got, calls) = fmt_rec(&c.text, c.cfg, move |_, _, code| {
        match fmt(&doc, cfg2) {
            Ok(x) if x == bw => {}
            Ok(x) => *bad2.borrow_mut() = Some(diff("outside", &bw, "inside a callback", &x)),
            Err(e) => *bad2.borrow_mut() = Some(e),
        }
        code
    })?;
    m.count("documents formatted inside a callback", calls.len());
    if !calls.is_empty() {
        m.nontrivial();
    }
    if let Some(e) = bad.borrow().clone() {
        return fail("inside a callback", e);
    }
    if got != want {
        return fail("around a callback", diff("without", &want, "with executions inside the callback", &got));
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ resources

const UNITS: &[&str] = &[
    "word ", "word\n", "some words on a line\n", "para\n\n", "# head\n\n", "head\n===\n\n", "- item\n", "- item\n\n", "1. item\n", "> quote\n", "> quote\n\n", "```\ncode\n```\n\n", "    code\n", "    code\n\n", "<div>\n</div>\n\n", "<b>x</b> ", "***\n\n", "[a](/u) ", "[a][b] ", "[l]: /u\n",
    "| a | b |\n", "*a* ", "**b** ", "`c` ", "![i](u) ", "a  \n", "a\\\n", "\\* ", "&amp; ", "[^f] ", "[^f]: note\n\n", "- [ ] task\n", "<http://a.b> ", "a\\|b ", "* * *\n", "~~s~~ ", "漢字 ", "<!-- c -->\n\n", "+ a\n- b\n", "a_b_c ", "- > a\n", "```markdown\n# a\n```\n\n", "\n", "x", "[x]:\n/u\n", "| | |\n", "a\n> b\n\n", "\\\n", "<a\nb>\n\n",
];
const UNIT_CFG: [Cfg; 3] = [Cfg::NONE, Cfg { width: Some(40), reflow: false }, Cfg { width: Some(40), reflow: true }];
fn units_n() -> u64 {
    (UNITS.len() * UNIT_CFG.len() * 2) as u64
}
fn gen_units(_: &mut Rng, i: u64) -> Option<Case> {
    let i = i as usize;
    let u = UNITS[i % UNITS.len()];
    let mut c = Case::new(u, UNIT_CFG[i / UNITS.len() % UNIT_CFG.len()]);
    c.n.push((i / UNITS.len() / UNIT_CFG.len()) as i64);
    Some(c)
}
fn measure(t: &str, cfg: Cfg) -> Result<(u64, u64, u64, u64), String> {
    crate::alloc::reset();
    let out = fmt(t, cfg)?;
    let (b, p, c) = crate::alloc::read();
    Ok((b, p, c, out.len() as u64))
}
/// CPU seconds of this thread.
pub fn cpu() -> f64 {
    #[repr(C)]
    struct Timespec {
        sec: i64,
        nsec: i64,
    }
    extern "C" {
        fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
    }
    let mut t = Timespec { sec: 0, nsec: 0 };
    // CLOCK_THREAD_CPUTIME_ID
    unsafe { clock_gettime(3, &mut t) };
    t.sec as f64 + t.nsec as f64 / 1e9
}
fn timed(t: &str, cfg: Cfg, times: usize) -> Result<f64, String> {
    let mut best = f64::MAX;
    for _ in 0..times {
        let a = cpu();
        fmt(t, cfg)?;
        best = best.min(cpu() - a);
    }
    Ok(best)
}
fn time_growth(c: &Case, m: &mut Mon) -> Verdict {
    let head = if c.text.starts_with('|') { "| a | b |\n|---|---|\n" } else { "" };
    let doc = |bytes: usize| {
        let d = format!("{head}{}", c.text.repeat(bytes / c.text.len() + 1));
        if c.n[0] == 1 {
            d.lines().map(|l| format!("> {l}\n")).collect()
        } else {
            d
        }
    };
    let (a, b) = (timed(&doc(8_000), c.cfg, 3)?, timed(&doc(64_000), c.cfg, 2)?);
    m.count("documents timed", 2);
    m.nontrivial();
    m.max("CPU microseconds for 64 kB", (b * 1e6) as u64);
    if std::env::var("SHOW").is_ok() {
        eprintln!("TIME x{:.1} {a:.4} {b:.4} {:?} {} {}", b / a, c.text, c.cfg.show(), c.n[0]);
    }
    // the parser and the formatter take quadratic time on some paragraphs, where the factor is 64
    if b > 1.5 && b / a > 180.0 {
        return fail("time", format!("{b:.2} CPU seconds for 64 kB, {a:.4} for 8 kB: {:.0} times as long", b / a));
    }
    if b > 12.0 {
        return fail("time", format!("{b:.2} CPU seconds for 64 kB"));
    }
    // documents of many blocks take linear time
    if c.text.ends_with("\n\n") || (c.text.ends_with('\n') && (c.cfg == Cfg::NONE || c.text.starts_with(['-', '#', '1', '+', '|', '[']))) {
        let d = timed(&doc(512_000), c.cfg, 2)?;
        m.count("long documents timed", 1);
        m.max("CPU microseconds for 512 kB of blocks", (d * 1e6) as u64);
        m.max("growth of time from 64 to 512 kB of blocks x10", (d / b * 10.0) as u64);
        if d > 0.8 && d / b > 24.0 {
            return fail("time", format!("{d:.2} CPU seconds for 512 kB, {b:.4} for 64 kB: {:.0} times as long", d / b));
        }
    }
    Ok(())
}
fn deep_scale_n() -> u64 {
    (DEEP.len() * UNIT_CFG.len()) as u64
}
fn gen_deep_scale(_: &mut Rng, i: u64) -> Option<Case> {
    let i = i as usize;
    let mut c = Case::new(DEEP[i % DEEP.len()].0, UNIT_CFG[i / DEEP.len()]);
    c.n.push((i % DEEP.len()) as i64);
    Some(c)
}
/// Nested and repeated tokens: half as many against all of them.
fn deep_growth(c: &Case, m: &mut Mon) -> Verdict {
    let (open, mid, close, n) = DEEP[c.n[0] as usize];
    let doc = |n: usize| format!("{}{mid}{}", open.repeat(n), close.repeat(n));
    let (half, full) = (measure(&doc(n / 2), c.cfg)?, measure(&doc(n), c.cfg)?);
    let (a, b) = (timed(&doc(n / 2), c.cfg, 2)?, timed(&doc(n), c.cfg, 1)?);
    let alloc = full.0 as f64 / half.0 as f64;
    m.count("nestings measured", 2);
    m.max("CPU microseconds for a nesting", (b * 1e6) as u64);
    m.max("growth of allocated bytes x100", (100.0 * alloc) as u64);
    m.nontrivial();
    if std::env::var("SHOW").is_ok() {
        eprintln!("DEEP x{:.1} {b:.4} alloc x{alloc:.2} peak x{:.2} {:?} {}", b / a, full.1 as f64 / half.1 as f64, open, c.cfg.show());
    }
    if b > 1.5 && b / a > 6.5 {
        return fail("time", format!("{b:.2} CPU seconds for {n} times {open:?}, {a:.2} for half as many"));
    }
    if b > 12.0 {
        return fail("time", format!("{b:.2} CPU seconds for {n} times {open:?}"));
    }
    if alloc > 6.0 {
        return fail("memory", format!("{} bytes allocated for {n} times {open:?}, {} for half as many", full.0, half.0));
    }
    Ok(())
}
fn resources(c: &Case, m: &mut Mon) -> Verdict {
    let n = 1500;
    let head = if c.text.starts_with('|') { "| a | b |\n|---|---|\n" } else { "" };
    let doc = |k: usize| {
        let d = format!("{head}{}", c.text.repeat(k));
        if c.n[0] == 1 {
            d.lines().map(|l| format!("> {l}\n")).collect()
        } else {
            d
        }
    };
    let (a, b) = (measure(&doc(n), c.cfg)?, measure(&doc(2 * n), c.cfg)?);
    m.count("documents measured", 2);
    m.nontrivial();
    let len = doc(2 * n).len() as u64;
    m.max("bytes allocated per input byte", b.0 / len);
    m.max("peak bytes per input byte", b.1 / len);
    m.max("allocations per input byte x100", 100 * b.2 / len);
    let (alloc, peak, calls) = (b.0 as f64 / a.0 as f64, b.1 as f64 / a.1 as f64, b.2 as f64 / a.2 as f64);
    m.max("growth of allocated bytes x100", (100.0 * alloc) as u64);
    m.max("growth of the peak x100", (100.0 * peak) as u64);
    if std::env::var("SHOW").is_ok() {
        eprintln!("{:?} {} {}: x{alloc:.2} calls x{calls:.2} peak x{peak:.2}  bytes/byte {} peak/byte {}", c.text, c.cfg.show(), c.n[0], b.0 / len, b.1 / len);
    }
    // twice the document; the capacity of a buffer may happen to double once more
    for (what, x) in [("bytes allocated", alloc), ("peak of live bytes", peak), ("allocations", calls)] {
        if x > 3.4 {
            return fail("growth", format!("{what}: x{x:.2} for twice as many copies of {:?} ({n} and {})", c.text, 2 * n));
        }
    }
    if b.0 / len > 5_000 || b.1 / len > 2_000 || b.2 / len > 20 {
        return fail("amount", format!("{} bytes allocated by {} allocations, {} at a time, for a document of {len} bytes", b.0, b.2, b.1));
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "token soup, mutated documents, tokens and headings of systematic families, random unicode, deep and long repetitions, nested embedded documents under every kind of width; a case is one document and configuration. Non-trivial: formatting changed the document",
            phases: vec![
                ph("soup", 60_000, gen_soup, total),
                ph("mutants", 40_000, gen_mutant, total),
                ph("mutants-free", 40_000, gen_mutant_free, total),
                ph("unicode", 40_000, gen_unicode, total),
                ph("tokens", 40_000, super::free::gen_tokens, total),
                ph("headings", 20_000, super::free::gen_headings, total),
                phf("deep", deep_n, gen_deep, total),
                phf("fences", nested_fences_n, gen_nested_fences, total),
                ph("callback", 20_000, gen_mutant_free, total_callback),
                Phase { shrink: false, ..phf("process", nested_fences_n, gen_nested_fences, total_process) },
                super::model_props::witness(strictly_total),
            ],
            required: &[("inputs formatted", 100_000), ("calls of a hostile callback", 4_000)],
            assumptions: &["the monitored build has overflow checks and debug assertions; a run-away case is one that uses 30 CPU seconds or 3 GB"],
        },
        Prop {
            id: "C08",
            rule: "model: documents with fenced code in containers and embedded documents in a random spelling; the recorded calls of the callback (info string, code, indentation, width, order) and the text around its answers are compared with the model; free: calls compared with an independent parse. Non-trivial: the callback was called",
            phases: vec![phx("model", 40_000, gen_callback, callback), ph("free", 30_000, gen_callback_free, callback_free)],
            required: &[("calls of the callback checked", 30_000), ("calls of the callback checked against the parse", 15_000), ("(indentation, width) reported", 200)],
            assumptions: &[],
        },
        Prop {
            id: "C09",
            rule: "a document is put into a markdown code block inside a random stack of containers, followed by a paragraph; compared with the document formatted on its own at the width left over. Non-trivial: there is a container and a width",
            phases: vec![phx("model", 30_000, gen_md_model, super::model_props::expect), phx("embed", 40_000, gen_embed, embed), phx("reentrant", 20_000, gen_embed, embed_reentrant)],
            required: &[("embedded documents compared", 30_000), ("(container columns, width)", 300)],
            assumptions: &[],
        },
        Prop {
            id: "C10",
            rule: "history: random histories of executions on three shared formatters and concurrent executions; reenter: executions inside a callback; orders: batches of documents that repeat phrases in different places, formatted by one process in order and by another in reverse; panics: histories with a callback that panics at some of its calls. Every answer is compared with that of a new formatter, or between the processes",
            phases: [vec![phx("history", 8_000, gen_history, history), phx("reenter", 20_000, gen_reenter, reenter)], super::independence::phases()].concat(),
            required: &[("answers compared between processes", 15_000), ("panics of a callback", 8_000), ("answers compared after panics", 20_000), ("answers compared with a fresh formatter", 40_000), ("answers compared across threads", 8_000), ("documents formatted inside a callback", 10_000)],
            assumptions: &["interleavings of threads are those the scheduler produced"],
        },
        Prop {
            id: "C29",
            rule: "a construct is repeated 1,500 and 3,000 times, filled up to 8 and 64 kB, and nested up to thousands of times, plain and in a block quote, under three configurations: allocated bytes, peak, allocations (counted by the allocator) and CPU time are compared. Non-trivial: every case",
            phases: vec![Phase { shrink: false, ..phf("scale", units_n, gen_units, resources) }, Phase { shrink: false, ..phf("time", units_n, gen_units, time_growth) }, Phase { shrink: false, ..phf("deep", deep_scale_n, gen_deep_scale, deep_growth) }],
            required: &[("documents measured", 500), ("documents timed", 500), ("nestings measured", 200), ("long documents timed", 150)],
            assumptions: &["CPU time is only judged where it exceeds 1.5 seconds, some 10 times the usual, so that a slow machine raises no alarm; paragraphs take quadratic time already in the parser"],
        },
    ]
}
