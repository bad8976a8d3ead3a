//! mdmon: runs the monitors of one property against the real formatter.
//!   mdmon check ID          supervisor: runs `child` and attributes crashes, run-away cases and memory blow-ups
//!   mdmon child ID SLOTS    the monitored executions
//!   mdmon one ID PHASE IDX  one case
//!   mdmon replay FILE       the case of a replay file
//!   mdmon explore ID [PHASE]
mod alloc;
mod corpus;
mod frame;
mod gen;
mod model;
mod oracle;
mod props;
mod rng;
mod sem;
mod tokens;
mod vocab;
use frame::*;
use std::io::Write;
use std::process::{exit, Command};

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}
fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1) as u64
}
fn thorough() -> bool {
    std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough")
}
fn scale() -> f64 {
    std::env::var("SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0)
}
fn find(id: &str) -> Prop {
    match props::all().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {id}");
            exit(3)
        }
    }
}
fn opts(only: Option<String>, max_found: usize) -> Opts {
    Opts { seed: seed(), thorough: thorough(), scale: scale(), root: root(), only, max_found }
}

/// At most a few thousand bytes of `s`.
fn short(s: &str) -> String {
    let mut k = s.len().min(4000);
    while !s.is_char_boundary(k) {
        k -= 1;
    }
    if k < s.len() { format!("{} [... {} bytes]", &s[..k], s.len()) } else { s.to_string() }
}

fn replay_path(id: &str, n: usize) -> String {
    let d = format!("{}/work/replay", root());
    let _ = std::fs::create_dir_all(&d);
    format!("{d}/{id}-{n}.json")
}
fn write_replay(id: &str, n: usize, phase: &str, idx: u64, seed: u64, case: &Case, msg: &str) -> String {
    let path = replay_path(id, n);
    let s = format!(
        "{{\"property\": {}, \"seed\": {seed}, \"case\": {},\n \"observed\": {}}}\n",
        quote(id),
        case_json(phase, idx, case),
        quote(msg)
    );
    if let Err(e) = std::fs::write(&path, s) {
        eprintln!("cannot write {path}: {e}");
        exit(3);
    }
    path
}

fn child(id: &str, slots: &str) -> ! {
    let p = find(id);
    let o = opts(None, 60);
    let t = std::time::Instant::now();
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(slots).expect("slots file");
    let known: Vec<Known> = load_known(&format!("{}/known-findings.txt", o.root)).into_iter().filter(|k| k.property == id).collect();
    let (m, found) = run(&p, &o, Some(&Slots(f)));
    // known findings: reproduce each listed input
    let mut reproduced = 0;
    let mut scratch = Mon::default();
    for k in &known {
        let Some(ph) = p.phases.iter().find(|ph| ph.name == k.phase) else {
            eprintln!("known finding names the unknown phase {}", k.phase);
            exit(3)
        };
        let case = Case::new(k.input.clone(), parse_cfg(&k.cfg));
        let v = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (ph.check)(&case, &mut scratch)));
        if !matches!(v, Ok(Ok(()))) {
            println!("KNOWN-FINDING: property={id} {} [{} {}]", k.what, k.cfg, short(&quote(&k.input)));
            reproduced += 1;
        } else {
            println!("note: a listed finding no longer reproduces: {}", short(&quote(&k.input)));
        }
    }
    let listed = |c: &Case, phase: &str| known.iter().any(|k| k.phase == phase && k.input == c.text && k.cfg == c.cfg.show());
    let mut fresh: Vec<(Case, Fail, &'static str, u64)> = vec![];
    let mut all_listed = 0;
    let mut fs: Vec<&Found> = found.iter().collect();
    fs.sort_by_key(|f| f.case.text.len());
    for f in fs {
        if listed(&f.case, f.phase) {
            all_listed += 1;
            continue;
        }
        // shrinking is for the reader; only the first few
        let (c, e) = if fresh.len() < 5 { shrink(&p, f, 3000) } else { (f.case.clone(), Fail { kind: f.fail.kind.clone(), msg: f.fail.msg.clone() }) };
        if listed(&c, f.phase) {
            all_listed += 1;
            continue;
        }
        if fresh.len() < 5 && !fresh.iter().any(|x| x.0.text == c.text && x.0.cfg == c.cfg) {
            fresh.push((c, e, f.phase, f.idx));
        }
    }
    let ev = evidence(&p, &o, &m, t.elapsed().as_secs_f64(), fresh.len(), reproduced);
    let path = format!("{}/evidence/{id}.json", o.root);
    let _ = std::fs::create_dir_all(format!("{}/evidence", o.root));
    if let Err(e) = std::fs::write(&path, ev) {
        eprintln!("cannot write {path}: {e}");
        exit(3);
    }
    for (n, (c, e, phase, idx)) in fresh.iter().enumerate() {
        let r = write_replay(id, n, phase, *idx, o.seed, c, &e.msg);
        println!("phase {phase} case {idx} config {}: {}\ninput: {}\n{}", c.cfg.show(), e.kind, short(&quote(&c.text)), short(&e.msg));
        println!("VIOLATION property={id} replay={r}");
    }
    let _ = std::io::stdout().flush();
    if !fresh.is_empty() {
        exit(1);
    }
    if found.len() >= o.max_found {
        eprintln!("inconclusive: stopped after {} failing cases, all of them listed", all_listed);
        exit(2);
    }
    for (k, least) in p.required {
        let n = m.counters.get(k).copied().unwrap_or(0).max(m.seen.get(k).map_or(0, |s| s.len() as u64));
        if (n as f64) < *least as f64 * scale().min(1.0) {
            eprintln!("inconclusive: observed {n} of {k:?}, at least {least} are needed for a verdict");
            exit(2);
        }
    }
    println!("held: property={id} {} executions of the formatter in {:.1} s", m.formats(), t.elapsed().as_secs_f64());
    exit(0)
}

/// How a supervised process ended, where that is itself a verdict on the formatter.
fn abnormal(s: &std::process::ExitStatus) -> Option<&'static str> {
    use std::os::unix::process::ExitStatusExt;
    match (s.code(), s.signal()) {
        (Some(EXIT_RUNAWAY), _) => Some("the formatter did not terminate within the CPU limit"),
        (Some(EXIT_MEMORY), _) => Some("the formatter ran away with memory"),
        (_, Some(11)) => Some("the formatter crashed (stack overflow or invalid access)"),
        (_, Some(6)) => Some("the formatter aborted"),
        _ => None,
    }
}

fn check(id: &str) -> ! {
    let p = find(id);
    let exe = std::env::current_exe().unwrap();
    let dir = format!("{}/work/slots", root());
    let _ = std::fs::create_dir_all(&dir);
    let slots = format!("{dir}/{id}.{}", std::process::id());
    let _ = std::fs::remove_file(&slots);
    let st = Command::new(&exe).args(["child", id, &slots]).status().expect("start the child");
    let b = std::fs::read(&slots).unwrap_or_default();
    let _ = std::fs::remove_file(&slots);
    let Some(_) = abnormal(&st) else { exit(st.code().unwrap_or(5)) };
    let mut hs = vec![];
    for c in b.chunks_exact(16) {
        let ph = u64::from_le_bytes(c[..8].try_into().unwrap());
        let idx = u64::from_le_bytes(c[8..].try_into().unwrap());
        if ph > 0 {
            let exe = exe.clone();
            let id = id.to_string();
            hs.push(std::thread::spawn(move || {
                let st = Command::new(&exe).args(["one", &id, &(ph - 1).to_string(), &idx.to_string()]).stdout(std::process::Stdio::null()).status().expect("start");
                (ph as usize - 1, idx, st)
            }));
        }
    }
    let mut n = 0;
    for h in hs {
        let (ph, idx, st) = h.join().unwrap();
        if let Some(what) = abnormal(&st) {
            let phase = &p.phases[ph];
            let mut r = rng::Rng::stream(seed(), &format!("{}/{}", p.id, phase.name), idx);
            let case = (phase.gen)(&mut r, idx).unwrap_or_default();
            let path = write_replay(id, n, phase.name, idx, seed(), &case, what);
            println!("phase {} case {idx} config {}: {what}\ninput: {}", phase.name, case.cfg.show(), short(&quote(&case.text)));
            println!("VIOLATION property={id} replay={path}");
            n += 1;
        }
    }
    if n > 0 {
        let o = opts(None, 1);
        let mut m = Mon::default();
        m.count("executions that ended the process", n);
        let _ = std::fs::create_dir_all(format!("{}/evidence", o.root));
        let _ = std::fs::write(format!("{}/evidence/{id}.json", o.root), evidence(&p, &o, &m, 0.0, n, 0));
        exit(1);
    }
    eprintln!("inconclusive: the monitored process ended with {st}, which no single case reproduces");
    exit(2)
}

fn one(id: &str, ph: usize, idx: u64) -> ! {
    let p = find(id);
    let h = std::thread::Builder::new()
        .stack_size(WORKER_STACK)
        .spawn(move || {
            alloc::reset();
            let mut m = Mon::default();
            run_one(&p, ph, idx, seed(), &mut m)
        })
        .unwrap();
    let t0 = process_cpu();
    while !h.is_finished() {
        std::thread::sleep(std::time::Duration::from_millis(20));
        if process_cpu() - t0 > CPU_LIMIT {
            exit(EXIT_RUNAWAY);
        }
    }
    match h.join().unwrap() {
        None => exit(0),
        Some(f) => {
            println!("{}\n{}", f.case.text, f.fail.msg);
            exit(1)
        }
    }
}

fn replay(path: &str) -> ! {
    let s = std::fs::read_to_string(path).expect("read the replay file");
    let get = |k: &str| s.find(k).map(|i| s[i + k.len()..].trim_start_matches(':').trim_start().to_string());
    let st = |k: &str| get(k).and_then(|r| unquote(&r).map(|x| x.0)).expect(k);
    let num = |k: &str| get(k).and_then(|r| r.split(|c: char| !c.is_ascii_digit()).next().and_then(|x| x.parse::<u64>().ok())).expect(k);
    let (id, phase, idx) = (st("\"property\""), st("\"phase\""), num("\"index\""));
    let p = find(&id);
    let ph = p.phases.iter().find(|x| x.name == phase).expect("phase");
    let case = if ph.shrink {
        Case::new(st("\"input\""), parse_cfg(&st("\"config\"")))
    } else {
        let mut r = rng::Rng::stream(num("\"seed\""), &format!("{}/{}", p.id, ph.name), idx);
        (ph.gen)(&mut r, idx).expect("case")
    };
    let mut m = Mon::default();
    match (ph.check)(&case, &mut m) {
        Ok(()) => {
            println!("holds");
            exit(0)
        }
        Err(e) => {
            println!("input:\n{}\n{}: {}", case.text, e.kind, e.msg);
            println!("VIOLATION property={id} replay={path}");
            exit(1)
        }
    }
}

fn explore(id: &str, only: Option<String>) {
    let p = find(id);
    let o = opts(only, std::env::var("MAX").ok().and_then(|s| s.parse().ok()).unwrap_or(400));
    let t = std::time::Instant::now();
    let (m, mut f) = run(&p, &o, None);
    if std::env::var("LISTING").is_ok() {
        let mut by: std::collections::BTreeMap<(&str, String), Vec<String>> = Default::default();
        for x in &f {
            by.entry((x.phase, x.case.text.clone())).or_default().push(x.case.cfg.show());
        }
        for ((ph, t), c) in &by {
            println!("{ph} {} {}", quote(t), c.join(","));
        }
        println!("{} inputs", by.len());
        return;
    }
    f.sort_by_key(|x| x.case.text.len());
    let top: usize = std::env::var("TOP").ok().and_then(|s| s.parse().ok()).unwrap_or(6);
    let mut seen = std::collections::HashSet::new();
    for x in f.iter() {
        if seen.len() >= top {
            break;
        }
        let (c, e) = shrink(&p, x, 3000);
        if !seen.insert((c.text.clone(), c.cfg)) {
            continue;
        }
        println!("---- {} {} {} {}\nin: {}\n{}\n{}", x.phase, x.idx, c.cfg.show(), e.kind, short(&quote(&c.text)), short(&c.text), short(&e.msg));
    }
    println!("{} found; {:?}\n{}", f.len(), t.elapsed(), evidence(&p, &o, &m, 0.0, 0, 0).lines().skip(4).take(10).filter(|l| !l.contains("rule")).collect::<Vec<_>>().join(" "));
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let g = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    match g(1) {
        "check" => check(g(2)),
        "child" => child(g(2), g(3)),
        "one" => one(g(2), g(3).parse().unwrap(), g(4).parse().unwrap()),
        "replay" => replay(g(2)),
        "explore" => explore(g(2), a.get(3).cloned()),
        "plain" => {
            let mut t = String::new();
            std::io::Read::read_to_string(&mut std::io::stdin(), &mut t).expect("read");
            let cfg = parse_cfg(g(2));
            let h = std::thread::Builder::new().stack_size(8 << 20).spawn(move || fmt(&t, cfg).is_ok()).unwrap();
            exit(if h.join().unwrap() { 0 } else { 1 })
        }
        "judge" => {
            let mut t = String::new();
            std::io::Read::read_to_string(&mut std::io::stdin(), &mut t).expect("read");
            let p = find(g(2));
            let ph = p.phases.iter().find(|x| x.name == g(3)).or(p.phases.last()).expect("phase");
            match (ph.check)(&Case::new(t, parse_cfg(g(4))), &mut Mon::default()) {
                Ok(()) => println!("holds"),
                Err(e) => println!("{}: {}", e.kind, e.msg),
            }
        }
        "serve" => props::independence::serve(),
        "list" => {
            for p in props::all() {
                println!("{}", p.id);
            }
        }
        _ => {
            eprintln!("usage: mdmon check|replay|explore|list ...");
            exit(3)
        }
    }
}
