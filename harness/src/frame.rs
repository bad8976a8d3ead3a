//! Check runner: runs the monitored executions of one property on all cores, with every random choice derived from
//! VERIF_SEED and the case index (never from time), merges what the monitors observed, shrinks and reports violations,
//! applies the known-findings file and writes the evidence file.
use crate::rng::Rng;
use markdown_fmt::{CodeBlockContext, FormatBuilder};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;

pub const THREADS: usize = 8;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, Default)]
pub struct Cfg {
    pub width: Option<usize>,
    pub reflow: bool,
}
impl Cfg {
    pub const NONE: Cfg = Cfg { width: None, reflow: false };
    pub fn w(width: usize) -> Cfg {
        Cfg { width: Some(width), reflow: false }
    }
    pub fn rf(width: usize) -> Cfg {
        Cfg { width: Some(width), reflow: true }
    }
    pub fn show(&self) -> String {
        format!("{}{}", self.width.map_or("-".into(), |w| w.to_string()), if self.reflow { "r" } else { "" })
    }
    pub fn builder(&self) -> FormatBuilder {
        let mut b = FormatBuilder::default();
        b.max_width(self.width);
        b.reflow_text(self.reflow);
        b
    }
}

thread_local! {
    static FORMATS: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
    format!("the formatter panicked: {m}")
}

fn note(len: usize) {
    FORMATS.with(|c| c.set(c.get() + 1));
    BYTES.with(|c| c.set(c.get() + len as u64));
}

/// One observed execution of the real formatter.
pub fn fmt(text: &str, cfg: Cfg) -> Result<String, String> {
    note(text.len());
    match catch_unwind(AssertUnwindSafe(|| markdown_fmt::rewrite_markdown_with_builder(text, cfg.builder()))) {
        Ok(Ok(s)) => Ok(s),
        Ok(Err(e)) => Err(format!("the formatter returned an error: {e}")),
        Err(e) => Err(panic_text(e)),
    }
}

/// As `fmt`, recording every call of the code block callback, whose answer is `answer(info, code)`.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Call {
    pub info: String,
    pub code: String,
    pub indentation: usize,
    pub max_width: Option<usize>,
}
pub fn fmt_rec(text: &str, cfg: Cfg, answer: impl Fn(&CodeBlockContext, &str, String) -> String + 'static) -> Result<(String, Vec<Call>), String> {
    note(text.len());
    let log: Rc<RefCell<Vec<Call>>> = Rc::default();
    let l2 = log.clone();
    let mut b = cfg.builder();
    b.code_block_formatter(move |ctx, info, code| {
        l2.borrow_mut().push(Call { info: info.to_string(), code: code.clone(), indentation: ctx.indentation(), max_width: ctx.max_width() });
        answer(ctx, info, code)
    });
    let r = match catch_unwind(AssertUnwindSafe(|| markdown_fmt::rewrite_markdown_with_builder(text, b))) {
        Ok(Ok(s)) => s,
        Ok(Err(e)) => return Err(format!("the formatter returned an error: {e}")),
        Err(e) => return Err(panic_text(e)),
    };
    let calls = log.borrow().clone();
    Ok((r, calls))
}

#[derive(Clone, Debug, Default)]
pub struct Case {
    pub text: String,
    pub cfg: Cfg,
    /// expected output(s) of a reference model, second documents, ...
    pub aux: Vec<String>,
    pub n: Vec<i64>,
}
impl Case {
    pub fn new(text: impl Into<String>, cfg: Cfg) -> Case {
        Case { text: text.into(), cfg, ..Case::default() }
    }
    pub fn aux(mut self, s: impl Into<String>) -> Case {
        self.aux.push(s.into());
        self
    }
    fn hash(&self) -> u64 {
        let mut h: u64 = 0xcbf29ce484222325;
        let mut f = |b: &[u8]| {
            for x in b {
                h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
            }
        };
        f(self.text.as_bytes());
        f(self.cfg.show().as_bytes());
        for a in &self.aux {
            f(a.as_bytes());
        }
        h
    }
}

/// A refuted property: `kind` is the stable signature that shrinking keeps.
#[derive(Debug)]
pub struct Fail {
    pub kind: String,
    pub msg: String,
}
pub fn fail<T>(kind: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { kind: kind.into(), msg: msg.into() })
}
impl From<String> for Fail {
    fn from(m: String) -> Fail {
        let kind: String = if m.starts_with("the formatter panicked") { "panic".into() } else { m.chars().take(24).collect() };
        Fail { kind, msg: m }
    }
}
pub type Verdict = Result<(), Fail>;

/// What the monitors saw.
#[derive(Default)]
pub struct Mon {
    pub counters: BTreeMap<&'static str, u64>,
    pub maxima: BTreeMap<&'static str, u64>,
    pub seen: BTreeMap<&'static str, HashSet<u64>>,
    distinct: HashSet<u64>,
    nontrivial: bool,
    evals: u64,
    formats: u64,
    bytes: u64,
    per_phase: BTreeMap<&'static str, u64>,
}
impl Mon {
    pub fn formats(&self) -> u64 {
        self.formats
    }
    pub fn count(&mut self, k: &'static str, n: usize) {
        if n > 0 {
            *self.counters.entry(k).or_default() += n as u64;
        }
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        let e = self.maxima.entry(k).or_default();
        *e = (*e).max(n);
    }
    /// Number of distinct values seen of something.
    pub fn see<T: std::hash::Hash>(&mut self, k: &'static str, v: T) {
        use std::hash::Hasher;
        #[allow(deprecated)]
        let mut h = std::hash::SipHasher::new();
        v.hash(&mut h);
        self.seen.entry(k).or_default().insert(h.finish());
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    fn merge(&mut self, o: Mon) {
        for (k, v) in o.counters {
            *self.counters.entry(k).or_default() += v;
        }
        for (k, v) in o.maxima {
            let e = self.maxima.entry(k).or_default();
            *e = (*e).max(v);
        }
        for (k, v) in o.seen {
            self.seen.entry(k).or_default().extend(v);
        }
        for (k, v) in o.per_phase {
            *self.per_phase.entry(k).or_default() += v;
        }
        self.distinct.extend(o.distinct);
        self.evals += o.evals;
        self.formats += o.formats;
        self.bytes += o.bytes;
    }
}

#[derive(Clone)]
pub struct Phase {
    pub name: &'static str,
    /// cases in the quick / thorough tier; 0 = the generator's own number (see `fixed`)
    pub quick: u64,
    pub thorough: u64,
    /// deterministic enumerations give the number of their cases here
    pub fixed: Option<fn() -> u64>,
    pub gen: fn(&mut Rng, u64) -> Option<Case>,
    pub check: fn(&Case, &mut Mon) -> Verdict,
    /// the oracle depends on `text` and `cfg` alone, so that the text can be shrunk
    pub shrink: bool,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub phases: Vec<Phase>,
    /// (counter, least value in a quick run): a run that saw less observed nothing worth a verdict
    pub required: &'static [(&'static str, u64)],
    pub assumptions: &'static [&'static str],
}

pub struct Found {
    pub phase: &'static str,
    pub idx: u64,
    pub case: Case,
    pub fail: Fail,
}

// ---------------------------------------------------------------------------------------------------------------
// known findings

#[derive(Debug, Clone)]
pub struct Known {
    pub property: String,
    pub phase: String,
    pub cfg: String,
    pub input: String,
    pub what: String,
}

pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f || c == '\u{a0}' || c == '\u{2028}' || c == '\u{2029}' => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Parse a JSON string at the start of `s`; returns it and the rest.
pub fn unquote(s: &str) -> Option<(String, &str)> {
    let mut it = s.char_indices();
    if it.next()?.1 != '"' {
        return None;
    }
    let mut o = String::new();
    while let Some((i, c)) = it.next() {
        match c {
            '"' => return Some((o, &s[i + 1..])),
            '\\' => match it.next()?.1 {
                'n' => o.push('\n'),
                'r' => o.push('\r'),
                't' => o.push('\t'),
                'u' => {
                    let mut v = 0;
                    for _ in 0..4 {
                        v = v * 16 + it.next()?.1.to_digit(16)?;
                    }
                    o.push(char::from_u32(v)?);
                }
                c => o.push(c),
            },
            c => o.push(c),
        }
    }
    None
}

pub fn load_known(path: &str) -> Vec<Known> {
    let mut out = vec![];
    let text = std::fs::read_to_string(path).unwrap_or_default();
    for l in text.lines() {
        let Some(r) = l.strip_prefix("finding: property=") else { continue };
        let parse = || -> Option<Known> {
            let (property, r) = r.split_once(' ')?;
            let (phase, r) = r.strip_prefix("phase=")?.split_once(' ')?;
            let (cfg, r) = r.strip_prefix("cfg=")?.split_once(' ')?;
            let (mut input, mut r) = unquote(r.strip_prefix("input=")?)?;
            // "text"*3000: the text repeated
            if let Some((n, rest)) = r.strip_prefix('*').and_then(|r| r.split_once(' ')) {
                input = input.repeat(n.parse().ok()?);
                r = rest;
            }
            Some(Known { property: property.into(), phase: phase.into(), cfg: cfg.into(), input, what: r.trim().into() })
        };
        match parse() {
            Some(k) => out.push(k),
            None => {
                eprintln!("malformed known finding: {l}");
                std::process::exit(3);
            }
        }
    }
    out
}

pub fn parse_cfg(s: &str) -> Cfg {
    let (w, reflow) = match s.strip_suffix('r') {
        Some(w) => (w, true),
        None => (s, false),
    };
    Cfg { width: w.parse().ok(), reflow }
}

// ---------------------------------------------------------------------------------------------------------------
// the runner

/// In-flight case of each worker, shared with the supervising process through a small file, so that a crash (stack
/// overflow, abort) or a run-away execution can be attributed to its input.
pub struct Slots(pub std::fs::File);
impl Slots {
    pub fn set(&self, worker: usize, phase: usize, idx: u64) {
        use std::os::unix::fs::FileExt;
        let mut b = [0u8; 16];
        b[..8].copy_from_slice(&(phase as u64 + 1).to_le_bytes());
        b[8..].copy_from_slice(&idx.to_le_bytes());
        let _ = self.0.write_all_at(&b, (worker * 16) as u64);
    }
}

pub struct Opts {
    pub seed: u64,
    pub thorough: bool,
    pub scale: f64,
    pub root: String,
    pub only: Option<String>,
    pub max_found: usize,
}

pub fn run_one(p: &Prop, phase: usize, idx: u64, seed: u64, mon: &mut Mon) -> Option<Found> {
    let ph = &p.phases[phase];
    let mut r = Rng::stream(seed, &format!("{}/{}", p.id, ph.name), idx);
    let case = (ph.gen)(&mut r, idx)?;
    mon.evals += 1;
    *mon.per_phase.entry(ph.name).or_default() += 1;
    mon.nontrivial = false;
    let v = match catch_unwind(AssertUnwindSafe(|| (ph.check)(&case, mon))) {
        Ok(v) => v,
        Err(e) => {
            let e = panic_text(e).replace("formatter", "harness");
            eprintln!("harness error in {}/{} case {idx}: {e}\n{:?}", p.id, ph.name, case);
            std::process::exit(4);
        }
    };
    if mon.nontrivial {
        mon.distinct.insert(case.hash());
    }
    match v {
        Ok(()) => None,
        Err(fail) => Some(Found { phase: ph.name, idx, case, fail }),
    }
}

/// CPU seconds used so far by a thread of this process.
fn thread_cpu(tid: &str) -> f64 {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).unwrap_or_default();
    let Some((_, r)) = s.rsplit_once(") ") else { return 0.0 };
    let f: Vec<&str> = r.split(' ').collect();
    let t: u64 = f.get(11).and_then(|x| x.parse().ok()).unwrap_or(0u64) + f.get(12).and_then(|x| x.parse().ok()).unwrap_or(0u64);
    t as f64 / 100.0
}
/// CPU seconds used so far by this process.
pub fn process_cpu() -> f64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let Some((_, r)) = s.rsplit_once(") ") else { return 0.0 };
    let f: Vec<&str> = r.split(' ').collect();
    let t: u64 = f.get(11).and_then(|x| x.parse().ok()).unwrap_or(0u64) + f.get(12).and_then(|x| x.parse().ok()).unwrap_or(0u64);
    t as f64 / 100.0
}
/// CPU seconds one case may take before it counts as not terminating (usual: well below a millisecond).
pub const CPU_LIMIT: f64 = 30.0;
pub const WORKER_STACK: usize = 16 << 20;
pub const EXIT_RUNAWAY: i32 = 77;
pub const EXIT_MEMORY: i32 = 78;

pub fn run(p: &Prop, o: &Opts, slots: Option<&Slots>) -> (Mon, Vec<Found>) {
    let mut total = Mon::default();
    let found: Mutex<Vec<Found>> = Mutex::new(vec![]);
    let done = AtomicBool::new(false);
    for (pi, ph) in p.phases.iter().enumerate() {
        if o.only.as_ref().is_some_and(|x| x != ph.name) {
            continue;
        }
        let n = match ph.fixed {
            Some(f) => f(),
            None => ((if o.thorough { ph.thorough } else { ph.quick }) as f64 * o.scale) as u64,
        };
        let next = AtomicU64::new(0);
        let chunk = (n / (THREADS as u64 * 32)).clamp(1, 256);
        let mons: Mutex<Vec<Mon>> = Mutex::new(vec![]);
        let state: Vec<(Mutex<String>, AtomicU64)> = (0..THREADS).map(|_| (Mutex::new(String::new()), AtomicU64::new(0))).collect();
        done.store(false, Ordering::SeqCst);
        std::thread::scope(|s| {
            let mut hs = vec![];
            for w in 0..THREADS {
                let (next, found, mons, state) = (&next, &found, &mons, &state);
                let h = std::thread::Builder::new().stack_size(WORKER_STACK).spawn_scoped(s, move || {
                    let tid = std::fs::read_link("/proc/thread-self").ok().and_then(|x| x.file_name().map(|f| f.to_string_lossy().to_string())).unwrap_or_default();
                    *state[w].0.lock().unwrap() = tid;
                    let mut mon = Mon::default();
                    'o: loop {
                        let a = next.fetch_add(chunk, Ordering::SeqCst);
                        if a >= n {
                            break;
                        }
                        for idx in a..(a + chunk).min(n) {
                            if let Some(s) = slots {
                                s.set(w, pi, idx);
                            }
                            state[w].1.fetch_add(1, Ordering::SeqCst);
                            crate::alloc::reset();
                            if let Some(f) = run_one(p, pi, idx, o.seed, &mut mon) {
                                let mut g = found.lock().unwrap();
                                g.push(f);
                                if g.len() >= o.max_found {
                                    break 'o;
                                }
                            }
                        }
                    }
                    state[w].1.fetch_add(1, Ordering::SeqCst);
                    mon.formats = FORMATS.with(|c| c.replace(0));
                    mon.bytes = BYTES.with(|c| c.replace(0));
                    mons.lock().unwrap().push(mon);
                });
                hs.push(h.unwrap());
            }
            let (state, done) = (&state, &done);
            s.spawn(move || {
                let mut last: Vec<(u64, f64)> = vec![(0, 0.0); THREADS];
                let mut tick = 0u32;
                while !done.load(Ordering::SeqCst) {
                    std::thread::sleep(std::time::Duration::from_millis(5));
                    tick += 1;
                    if tick % 200 != 0 {
                        continue;
                    }
                    for w in 0..THREADS {
                        let n = state[w].1.load(Ordering::SeqCst);
                        let tid = state[w].0.lock().unwrap().clone();
                        if tid.is_empty() {
                            continue;
                        }
                        let cpu = thread_cpu(&tid);
                        if last[w].0 != n {
                            last[w] = (n, cpu);
                        } else if cpu - last[w].1 > CPU_LIMIT {
                            eprintln!("worker {w} used more than {CPU_LIMIT} CPU seconds on one case");
                            std::process::exit(EXIT_RUNAWAY);
                        }
                    }
                }
            });
            for h in hs {
                h.join().unwrap();
            }
            done.store(true, Ordering::SeqCst);
        });
        for m in mons.into_inner().unwrap() {
            total.merge(m);
        }
        if found.lock().unwrap().len() >= o.max_found {
            break;
        }
    }
    let mut f = found.into_inner().unwrap();
    f.sort_by_key(|f| (p.phases.iter().position(|x| x.name == f.phase), f.idx));
    (total, f)
}

/// Shrink the text of a failing case: drop runs of lines, then words, keeping the signature.
pub fn shrink(p: &Prop, f: &Found, budget: usize) -> (Case, Fail) {
    let ph = p.phases.iter().find(|x| x.name == f.phase).unwrap();
    let mut best = f.case.clone();
    let mut best_fail = Fail { kind: f.fail.kind.clone(), msg: f.fail.msg.clone() };
    if !ph.shrink {
        return (best, best_fail);
    }
    let mut left = budget;
    let mut mon = Mon::default();
    let mut attempt = |t: String, best: &mut Case, best_fail: &mut Fail| -> bool {
        if left == 0 {
            return false;
        }
        left -= 1;
        let c = Case { text: t, ..best.clone() };
        match catch_unwind(AssertUnwindSafe(|| (ph.check)(&c, &mut mon))) {
            Ok(Err(e)) if e.kind == best_fail.kind => {
                *best = c;
                *best_fail = e;
                true
            }
            _ => false,
        }
    };
    loop {
        let before = best.text.len();
        let mut n = best.text.split_inclusive('\n').count().div_ceil(2).max(1);
        loop {
            let mut i = 0;
            loop {
                let ls: Vec<String> = best.text.split_inclusive('\n').map(|s| s.to_string()).collect();
                if i >= ls.len() {
                    break;
                }
                let mut d = ls.clone();
                d.drain(i..(i + n).min(ls.len()));
                if !attempt(d.concat(), &mut best, &mut best_fail) {
                    i += n;
                }
            }
            if n == 1 {
                break;
            }
            n /= 2;
        }
        let mut li = 0;
        loop {
            let ls: Vec<String> = best.text.split_inclusive('\n').map(|s| s.to_string()).collect();
            if li >= ls.len() {
                break;
            }
            let idx: Vec<usize> = ls[li].match_indices(' ').map(|x| x.0).filter(|&k| k > 0 && !ls[li][..k].trim().is_empty()).collect();
            let mut any = false;
            for k in idx.into_iter().rev() {
                let e = ls[li][k + 1..].find([' ', '\n']).map(|e| k + 1 + e).unwrap_or(ls[li].len());
                let mut d = ls.clone();
                d[li].replace_range(k..e, "");
                if attempt(d.concat(), &mut best, &mut best_fail) {
                    any = true;
                    break;
                }
            }
            if !any {
                li += 1;
            }
        }
        if best.text.len() == before {
            break;
        }
    }
    // characters, when little is left
    if best.text.chars().count() <= 120 && std::env::var("NOCHARS").is_err() {
        let mut i = 0;
        loop {
            let cs: Vec<char> = best.text.chars().collect();
            if i >= cs.len() {
                break;
            }
            let t: String = cs.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, c)| *c).collect();
            if !attempt(t, &mut best, &mut best_fail) {
                i += 1;
            }
        }
    }
    (best, best_fail)
}

fn jstr(s: &str) -> String {
    quote(s)
}

pub fn case_json(phase: &str, idx: u64, c: &Case) -> String {
    format!(
        "{{\"phase\": {}, \"index\": {}, \"config\": {}, \"input\": {}{}}}",
        jstr(phase),
        idx,
        jstr(&c.cfg.show()),
        jstr(&c.text),
        if c.aux.is_empty() { String::new() } else { format!(", \"aux\": [{}]", c.aux.iter().map(|a| jstr(a)).collect::<Vec<_>>().join(", ")) }
    )
}

pub fn samples(p: &Prop, o: &Opts) -> Vec<String> {
    let mut out = vec![];
    for ph in &p.phases {
        for idx in [3u64, 11] {
            let mut r = Rng::stream(o.seed, &format!("{}/{}", p.id, ph.name), idx);
            if ph.fixed.is_some_and(|f| idx >= f()) {
                continue;
            }
            if let Some(c) = (ph.gen)(&mut r, idx) {
                let mut c = c;
                if c.text.len() > 1500 {
                    let mut k = 1500;
                    while !c.text.is_char_boundary(k) {
                        k -= 1;
                    }
                    c.text.truncate(k);
                    c.text.push_str("[...]");
                }
                c.aux.clear();
                out.push(case_json(ph.name, idx, &c));
            }
        }
    }
    out
}

pub fn evidence(p: &Prop, o: &Opts, m: &Mon, wall: f64, violations: usize, known: usize) -> String {
    let map = |x: &BTreeMap<&'static str, u64>| x.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect::<Vec<_>>().join(", ");
    let seen = m.seen.iter().map(|(k, v)| format!("{}: {}", jstr(k), v.len())).collect::<Vec<_>>().join(", ");
    format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"formatter_executions\": {},\n  \"input_bytes_formatted\": {},\n  \"cases_per_phase\": {{{}}},\n  \"observed\": {{{}}},\n  \"observed_maxima\": {{{}}},\n  \"distinct_values_observed\": {{{}}},\n  \"known_findings_reproduced\": {},\n  \"samples\": [\n   {}\n  ]\n }},\n \"assumptions\": [{}],\n \"violations\": {},\n \"wall_s\": {:.2}\n}}\n",
        jstr(p.id),
        jstr(if o.thorough { "thorough" } else { "quick" }),
        o.seed,
        m.evals,
        m.distinct.len(),
        jstr(p.rule),
        m.formats,
        m.bytes,
        map(&m.per_phase),
        map(&m.counters),
        map(&m.maxima),
        seen,
        known,
        samples(p, o).join(",\n   "),
        p.assumptions.iter().map(|a| jstr(a)).collect::<Vec<_>>().join(", "),
        violations,
        wall
    )
}
