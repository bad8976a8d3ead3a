pub static RAW: &str = include_str!("../../corpus/corpus.txt");

pub fn load() -> Vec<(&'static str, &'static str)> {
    let mut out = vec![];
    let mut rest = RAW;
    while let Some(r) = rest.strip_prefix("%%REC ") {
        let nl = r.find('\n').unwrap();
        let (name, len) = r[..nl].rsplit_once(' ').unwrap();
        let len: usize = len.parse().unwrap();
        out.push((name, &r[nl + 1..nl + 1 + len]));
        rest = &r[nl + 1 + len + 1..];
    }
    out
}
