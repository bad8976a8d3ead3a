//! The command line program: what it prints, writes and leaves alone. Every execution works in a scratch directory of
//! its own, which is removed afterwards.
use super::free::*;
use super::model_props::phx;
use super::system::{parser_fails, soup};
use crate::frame::*;
use crate::rng::Rng;
use std::ffi::{OsStr, OsString};
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::{MetadataExt, PermissionsExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};

fn bin() -> PathBuf {
    match std::env::var_os("MDFMT_BIN") {
        Some(p) => p.into(),
        None => {
            eprintln!("MDFMT_BIN is not set");
            std::process::exit(3);
        }
    }
}
struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        static N: AtomicU64 = AtomicU64::new(0);
        let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
        let p = Path::new(&root).join("work/cli").join(format!("{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
struct Ran {
    code: Option<i32>,
    out: Vec<u8>,
    err: String,
}
fn run(dir: &Path, args: &[OsString], env: &[(&str, &str)], stdout: Option<Stdio>) -> Ran {
    let mut c = Command::new(bin());
    c.args(args).current_dir(dir).env_clear().stdin(Stdio::null()).stdout(stdout.unwrap_or(Stdio::piped())).stderr(Stdio::piped());
    c.envs(env.iter().copied());
    let o = c.spawn().and_then(|c| c.wait_with_output()).expect("run the program");
    Ran { code: o.status.code(), out: o.stdout, err: String::from_utf8_lossy(&o.stderr).into() }
}
/// Everything in the directory: name, kind, mode, content.
fn listing(dir: &Path) -> Vec<(OsString, String, u32, Vec<u8>)> {
    let mut v = vec![];
    for e in std::fs::read_dir(dir).expect("scratch directory") {
        let e = e.unwrap();
        let m = e.path().symlink_metadata().unwrap();
        let (kind, body) = if m.is_symlink() {
            (format!("link to {:?}", std::fs::read_link(e.path()).unwrap()), vec![])
        } else if m.is_dir() {
            ("directory".into(), listing(&e.path()).iter().flat_map(|x| x.0.as_bytes().to_vec()).collect())
        } else {
            ("file".into(), std::fs::read(e.path()).unwrap())
        };
        v.push((e.file_name(), kind, if m.is_symlink() { 0 } else { m.mode() }, body));
    }
    v.sort();
    v
}

fn flags(r: &mut Rng, cfg: Cfg) -> Vec<String> {
    let mut v = vec![];
    if let Some(w) = cfg.width {
        let form = r.below(4);
        v.push(match form {
            0 => vec!["--max-width".to_string(), w.to_string()],
            1 => vec![format!("--max-width={w}")],
            2 => vec!["-m".to_string(), w.to_string()],
            _ => vec![format!("-m{w}")],
        });
    }
    if cfg.reflow {
        v.push(vec![r.pick(&["-r", "--reflow-text"]).to_string()]);
    }
    if v.len() == 2 && r.chance(1, 2) {
        v.swap(0, 1);
    }
    v.concat()
}

const SCENARIOS: usize = 12;
const NAMES: &[&[u8]] = &[b"a.md", b"README.md", b"with space.md", b"no_extension", b"x.txt", "日本語.md".as_bytes(), b"\xff\xfe.md", b"-m.md", b"--stdout", b"[a](b).md", b"a'b\"c.md", b".hidden"];
fn gen_cli(r: &mut Rng, k: u64) -> Option<Case> {
    let w = match r.below(8) {
        0 => 0,
        1 => usize::MAX,
        _ => r.range(1, 100),
    };
    let cfg = *r.choose(&[Cfg::NONE, Cfg { width: None, reflow: true }, Cfg::w(w), Cfg::rf(w)]);
    let rs = records();
    let mut text = match r.below(4) {
        0 => rs[r.below(rs.len())].1.to_string(),
        1 => soup(r, 0, 60),
        _ => free_doc(r),
    };
    let scenario = (k as usize) % SCENARIOS;
    if scenario == 9 {
        // embedded documents in unclosed fences would nest as deep as there are copies (a listed limit)
        text = text.replace("markdown", "rust");
        let one = text.clone() + "\n\n";
        while text.len() < 300_000 {
            text.push_str(&one);
            text.push_str("some text\n\n");
        }
    }
    let mut c = Case::new(text, cfg);
    c.n = vec![scenario as i64, r.below(NAMES.len()) as i64, r.below(2) as i64, r.below(1 << 20) as i64];
    c.aux = flags(r, cfg);
    Some(c)
}
fn cli(c: &Case, m: &mut Mon) -> Verdict {
    if parser_fails(&c.text) {
        return Ok(());
    }
    let want = fmt(&c.text, c.cfg)?;
    let (scenario, stdout, x) = (c.n[0] as usize, c.n[2] == 1, c.n[3] as usize);
    let name = OsStr::from_bytes(NAMES[c.n[1] as usize]).to_os_string();
    let scratch = Scratch::new();
    let dir = &scratch.0;
    let path = dir.join(&name);
    std::fs::write(&path, &c.text).expect("write the input");
    std::fs::write(dir.join("other.md"), "* left   alone\n\n\n").expect("write");
    std::fs::set_permissions(&path, std::fs::Permissions::from_mode([0o644, 0o600, 0o755, 0o664][x % 4])).expect("mode");
    // options before or behind the file name
    let mut args: Vec<OsString> = c.aux.iter().map(|s| s.into()).collect();
    if stdout {
        args.insert(x % (1 + if args.len() == 1 { 1 } else { 0 }), "--stdout".into());
    }
    if name.as_bytes().starts_with(b"-") {
        args.push("--".into());
        args.push(name.clone());
    } else if x % 2 == 0 || c.aux.iter().any(|a| a == "-m" || a == "--max-width") {
        args.push(name.clone());
    } else {
        args.insert(0, name.clone());
    }
    let env: &[(&str, &str)] = if x % 5 == 0 { &[("RUST_LOG", "trace"), ("COLUMNS", "13"), ("LANG", "tr_TR.UTF-8"), ("TERM", "xterm"), ("CLICOLOR_FORCE", "1")] } else { &[] };
    m.see("command lines", (args.clone(), c.cfg.show()));
    m.see("scenarios", scenario);
    m.nontrivial();
    let before = listing(dir);
    let unchanged = |what: &str| -> Verdict {
        let after = listing(dir);
        if after != before {
            return fail(format!("{what}: files changed"), format!("{args:?}\nbefore: {before:?}\nafter: {after:?}"));
        }
        Ok(())
    };
    let refused = |what: &str, r: &Ran| -> Verdict {
        if r.code == Some(0) || r.code.is_none() {
            return fail(format!("{what}: exit status"), format!("{args:?} ended with {:?}; stderr: {}", r.code, r.err));
        }
        if r.err.trim().is_empty() {
            return fail(format!("{what}: no message"), format!("{args:?} ended with {:?} and said nothing", r.code));
        }
        if !r.out.is_empty() {
            return fail(format!("{what}: output"), format!("{args:?} printed {:?}", String::from_utf8_lossy(&r.out)));
        }
        Ok(())
    };
    match scenario {
        // the regular uses
        0..=2 | 9 => {
            let r = run(dir, &args, env, None);
            if r.code != Some(0) {
                return fail("exit status", format!("{args:?} ended with {:?}; stderr: {}", r.code, r.err));
            }
            m.count("successful runs", 1);
            if stdout {
                m.count("bytes compared on stdout", r.out.len());
                if r.out != want.as_bytes() {
                    return fail("stdout", diff("library", &want, "program", &String::from_utf8_lossy(&r.out)));
                }
                unchanged("stdout")?;
            } else {
                if !r.out.is_empty() {
                    return fail("output in place", format!("{args:?} printed {:?}", String::from_utf8_lossy(&r.out)));
                }
                let mut expected = before.clone();
                expected.iter_mut().find(|e| e.0 == name).unwrap().3 = want.clone().into_bytes();
                m.count("bytes compared in place", want.len());
                let after = listing(dir);
                if after != expected {
                    return fail("files", format!("{args:?}\nexpected: {expected:?}\nfound: {after:?}"));
                }
            }
            if !r.err.is_empty() {
                return fail("stderr", r.err);
            }
        }
        // not text
        3 => {
            let mut b = c.text.clone().into_bytes();
            let at = if b.is_empty() { 0 } else { x % b.len() };
            b.insert(at, [0xff, 0xc0, 0xfe, 0xf8][x % 4]);
            std::fs::write(&path, &b).expect("write");
            let before = listing(dir);
            let r = run(dir, &args, env, None);
            refused("invalid UTF-8", &r)?;
            if listing(dir) != before {
                return fail("invalid UTF-8: files changed", format!("{args:?}"));
            }
            m.count("refused runs", 1);
        }
        4 => {
            std::fs::remove_file(&path).expect("remove");
            let before = listing(dir);
            let r = run(dir, &args, env, None);
            refused("missing file", &r)?;
            if listing(dir) != before {
                return fail("missing file: files changed", format!("{args:?} {:?}", listing(dir)));
            }
            m.count("refused runs", 1);
        }
        5 => {
            std::fs::remove_file(&path).expect("remove");
            std::fs::create_dir(&path).expect("mkdir");
            std::fs::write(path.join("inner.md"), "*  a\n").expect("write");
            let before = listing(dir);
            let r = run(dir, &args, env, None);
            refused("directory", &r)?;
            if listing(dir) != before || std::fs::read(path.join("inner.md")).unwrap() != b"*  a\n" {
                return fail("directory: files changed", format!("{args:?} {:?}", listing(dir)));
            }
            m.count("refused runs", 1);
        }
        // bad command lines
        6 => {
            let mut bad: Vec<OsString> = match x % 9 {
                0 => vec!["-m".into(), "x".into()],
                1 => vec!["-m".into(), "-1".into()],
                2 => vec!["--max-width".into(), "1.5".into()],
                3 => vec!["--max-width=99999999999999999999999".into()],
                4 => vec!["--no-such-option".into()],
                5 => vec!["-x".into()],
                6 => vec!["other.md".into()],
                7 => vec!["--max-width=".into()],
                _ => vec!["--reflow-text=maybe".into()],
            };
            bad.extend(["--".into(), name.clone()]);
            if x % 9 == 6 {
                bad = vec!["other.md".into(), "--".into(), name.clone()];
            }
            let r = run(dir, &bad, env, None);
            refused("bad command line", &r)?;
            unchanged("bad command line")?;
            m.count("refused runs", 1);
        }
        // links
        7 => {
            let link = dir.join("link.md");
            std::os::unix::fs::symlink(&name, &link).expect("symlink");
            std::fs::hard_link(&path, dir.join("hard.md")).expect("hard link");
            let before = listing(dir);
            let mut a: Vec<OsString> = c.aux.iter().map(|s| s.into()).collect();
            a.push("link.md".into());
            let r = run(dir, &a, env, None);
            if r.code != Some(0) {
                return fail("exit status", format!("{a:?} ended with {:?}; stderr: {}", r.code, r.err));
            }
            let mut expected = before.clone();
            for e in expected.iter_mut().filter(|e| e.0 == name || e.0 == "hard.md") {
                e.3 = want.clone().into_bytes();
            }
            if listing(dir) != expected {
                return fail("links", format!("{a:?}\nexpected: {expected:?}\nfound: {:?}", listing(dir)));
            }
            m.count("successful runs", 1);
        }
        // output that can't be written
        8 => {
            let text = format!("{}\n\ntext\n", c.text);
            if parser_fails(&text) {
                return Ok(());
            }
            std::fs::write(&path, &text).expect("write");
            let before = listing(dir);
            let full = std::fs::OpenOptions::new().write(true).open("/dev/full").expect("/dev/full");
            let r = run(dir, &["--stdout".into(), "--".into(), name.clone()], env, Some(full.into()));
            if r.code == Some(0) {
                return fail("full device: exit status", "the output could not be written, yet the program reports success");
            }
            if listing(dir) != before {
                return fail("full device: files changed", format!("{:?}", listing(dir)));
            }
            m.count("runs with a full device", 1);
        }
        // one more run: the second answer is that of the library for the first
        10 => {
            let args: Vec<OsString> = c.aux.iter().map(|s| s.into()).chain(["--".into(), name.clone()]).collect();
            if parser_fails(&want) {
                return Ok(());
            }
            let again = fmt(&want, c.cfg)?;
            for step in [&want, &again] {
                let r = run(dir, &args, env, None);
                let got = std::fs::read(&path).expect("read");
                if r.code != Some(0) || got != step.as_bytes() {
                    return fail("repeated runs", format!("{:?} {}", r.code, diff("library", step, "program", &String::from_utf8_lossy(&got))));
                }
                m.count("successful runs", 1);
            }
        }
        // information
        _ => {
            let (arg, what) = [("--help", "Usage"), ("--version", "markdown-fmt"), ("-h", "Usage"), ("-V", "markdown-fmt")][x % 4];
            let r = run(dir, &[arg.into()], env, None);
            let out = String::from_utf8_lossy(&r.out).to_string();
            if r.code != Some(0) || !out.contains(what) {
                return fail("information", format!("{arg} ended with {:?} and printed {out:?}", r.code));
            }
            let r = run(dir, &[], env, None);
            refused("no file", &r)?;
            unchanged("no file")?;
            m.count("refused runs", 1);
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C19",
        rule: "the built program is run on documents in scratch directories: output and files are compared with the library's answer, and all files with their state before; refused inputs and command lines have to fail, say so and change nothing. Non-trivial: every run",
        phases: vec![phx("runs", 6_000, gen_cli, cli)],
        required: &[("successful runs", 2_000), ("refused runs", 1_500), ("scenarios", SCENARIOS as u64), ("command lines", 500), ("bytes compared in place", 100_000), ("bytes compared on stdout", 100_000)],
        assumptions: &["the library's answer is judged by the other properties"],
    }]
}
