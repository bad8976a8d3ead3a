//! Random words, inline markup, titles, labels, ... made of random characters, such that each is what it looks like:
//! none can start a block, pair up with its neighbours, or be read as something else.
use crate::rng::Rng;

const LOW: &str = "abcdefghijklmnopqrstuvwxyz";
const ALNUM: &str = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";

fn ch(r: &mut Rng, set: &str) -> char {
    let k = r.below(set.len());
    set.as_bytes()[k] as char
}
fn uni(r: &mut Rng) -> char {
    let (a, b) = *r.choose(&[(0xe0u32, 0xf6), (0x3b1, 0x3c9), (0x430, 0x44f), (0x4e00, 0x9fa0), (0xac00, 0xd7a3), (0x5d0, 0x5ea), (0x1f600, 0x1f640), (0xff21, 0xff3a), (0x3042, 0x3093), (0x100, 0x17f), (0x20000, 0x2a000)]);
    char::from_u32(a + r.below((b - a) as usize) as u32).unwrap()
}
fn len(r: &mut Rng) -> usize {
    match r.below(12) {
        0 => r.range(12, 30),
        1 => r.range(30, 90),
        2 | 3 => r.range(1, 2),
        _ => r.range(2, 9),
    }
}

/// letters and digits, a letter first
pub fn bare(r: &mut Rng, unicode: bool) -> String {
    let n = len(r);
    let u = unicode && r.chance(1, 6);
    let mut s = String::new();
    for i in 0..n {
        s.push(if u && r.chance(3, 4) {
            uni(r)
        } else if i == 0 {
            ch(r, LOW)
        } else {
            ch(r, ALNUM)
        });
    }
    if u && r.chance(1, 8) {
        s.push(*r.choose(&['\u{301}', '\u{308}', '\u{327}']));
    }
    s
}

/// A word of prose: a bare word with punctuation that means nothing to markdown.
pub fn word(r: &mut Rng, unicode: bool) -> String {
    let mut s = bare(r, unicode);
    for _ in 0..r.below(3) {
        if r.chance(1, 3) {
            s.push_str(r.pick(&["-", "/", ".", "'", "@", "%", "&", "=", "+", "#", "^", "?", "!", ":", ";", ",", "--", "...", ")", "(", "\"", "{", "}", "\\z", ">", "=>", "1", "]"]));
            s.push_str(&bare(r, unicode));
        }
    }
    match r.below(10) {
        0 => s.push_str(r.pick(&[".", ",", ";", ":", "!", "?", ")", "\"", "'", "...", "%", "-", "=", "+", "#", "/", "—", "。"])),
        1 => s.insert_str(0, r.pick(&["(", "\"", "'", "/", "@", "$", "%", ".", ",", "…", "“", "--", "§", "("])),
        _ => {}
    }
    if s.starts_with("--") && !s[2..].starts_with(|c: char| c.is_ascii_alphabetic()) {
        s.insert(2, 'x');
    }
    s
}

fn words(r: &mut Rng, lo: usize, hi: usize, unicode: bool) -> String {
    let n = r.range(lo, hi);
    (0..n).map(|_| bare(r, unicode)).collect::<Vec<_>>().join(" ")
}

pub fn url(r: &mut Rng) -> String {
    let mut s = r.pick(&["/", "https://", "#", "./", "../", "mailto:x@", "file:///", "?q=", "http://[::1]/"]).to_string();
    let n = r.range(1, 5);
    for i in 0..n {
        if i > 0 {
            s.push_str(r.pick(&["/", ".", "?", "&", "=", "-", "_", "%20", "#", "+", "~", ",", ";", "!", "*", "'", ":", "@", "$", "|x|", "\\*", "(a)", "((b))", "\\(", "&amp;", "^", "`", "{1}", "[2]"]).replace('|', ""). as_str());
        }
        s.push_str(&bare(r, false));
    }
    s
}
/// Destination of a link or definition as written.
pub fn dest(r: &mut Rng, wrap_safe: bool, unicode: bool, angle: bool) -> String {
    if r.chance(1, 12) {
        return r.pick(&["x", "/", "/u", "xy", "é", ".", "?", "a_", "1"]).to_string();
    }
    match r.below(8) {
        0 if angle => format!("<{}>", url(r).trim_start_matches('?')),
        1 if !wrap_safe => {
            let w = words(r, if angle { 1 } else { 2 }, 3, unicode);
            match r.below(4) {
                0 => format!("<{w}{}>", end(r)),
                1 => format!("<{}{w}>", end(r)),
                _ => format!("<{w}>"),
            }
        }
        3 if angle => format!("{}{}", url(r), end(r)),
        2 if unicode => format!("/{}", bare(r, true)),
        _ => url(r),
    }
}
pub fn title(r: &mut Rng, unicode: bool) -> String {
    let (a, b) = *r.choose(&[('"', '"'), ('\'', '\''), ('(', ')')]);
    let n = r.range(0, 4);
    let mut v = vec![];
    for _ in 0..n {
        let mut w = bare(r, unicode);
        if r.chance(1, 3) {
            w.push_str(match (r.below(12), a) {
                (0, '"') => "'",
                (0, _) => "\"",
                (1, '(') => "\\)",
                (1, '"') => "\\\"",
                (1, _) => "\\'",
                (2, _) => ".",
                (3, _) => "*x*",
                (4, _) => "<y>",
                (5, _) => "&amp;",
                (6, _) => "\\\\",
                (7, _) => "]",
                (8, _) => "#",
                (9, _) => "_",
                (10, _) => "\\-",
                _ => ",",
            });
        }
        v.push(w);
    }
    let mut t = v.join(" ");
    if r.chance(1, 8) {
        t.push_str(end(r));
    }
    if r.chance(1, 8) {
        t.insert_str(0, end(r));
    }
    format!("{a}{t}{b}")
}
/// Content of a code span, without spaces or backticks at its ends.
fn code(r: &mut Rng, unicode: bool, wrap_safe: bool) -> String {
    let n = if wrap_safe { 1 } else { r.range(1, 3) };
    let mut v = vec![];
    for _ in 0..n {
        let mut w = bare(r, unicode);
        for _ in 0..r.below(3) {
            w.push(*r.choose(&['*', '_', '<', '>', '\\', '[', ']', '(', ')', '#', '!', '&', '~', '"', '\'', '{', '}', '=', ':', '.', '-', '+', ';', '@', '$', '/']));
            if r.chance(1, 2) {
                w.push_str(&bare(r, unicode));
            }
        }
        v.push(w);
    }
    let s = v.join(" ");
    match r.below(8) {
        0 => format!("``{s}`x``"),
        1 if !wrap_safe => format!("```{s}``y```"),
        _ => format!("`{s}`"),
    }
}
fn html(r: &mut Rng, wrap_safe: bool) -> String {
    let t = format!("x{}", bare(r, false).to_lowercase());
    let t: String = t.chars().take(10).collect();
    match r.below(5) {
        0 => format!("<{t}>"),
        1 => format!("</{t}>"),
        2 => format!("<{t}/>"),
        3 if !wrap_safe => format!("<!--{t}-->"),
        _ => format!("<{t} {}=\"{}\">", bare(r, false), bare(r, true)),
    }
}
/// One piece of inline markup.
pub fn markup(r: &mut Rng, unicode: bool, wrap_safe: bool, deep: usize) -> String {
    let inner = |r: &mut Rng| {
        let n = r.range(1, 3);
        let mut v = vec![];
        for i in 0..n {
            let m = deep > 0 && i > 0 && r.chance(1, 5);
            v.push(if m { format!("{} {}", markup(r, unicode, wrap_safe, 0), bare(r, unicode)) } else { bare(r, unicode) });
        }
        v.join(" ")
    };
    let flat = |r: &mut Rng| words(r, 1, 3, unicode);
    match r.below(20) {
        0 => format!("*{}*", if deep > 0 { flat(r) } else { bare(r, unicode) }),
        1 => format!("_{}_", flat(r)),
        2 => format!("**{}**", flat(r)),
        3 => format!("__{}__", flat(r)),
        4 => format!("~~{}~~", flat(r)),
        5 | 6 => code(r, unicode, wrap_safe),
        7 | 8 if deep > 0 => format!("[{}]({})", inner_link(r, unicode, wrap_safe), dest(r, wrap_safe, unicode, false)),
        9 if deep > 0 => format!("[{}]({} {})", inner_link(r, unicode, wrap_safe), dest(r, wrap_safe, unicode, false), title(r, unicode)),
        10 => format!("![{}]({})", if r.chance(1, 4) { format!("{} _{}_", bare(r, unicode), bare(r, unicode)) } else { flat(r) }, dest(r, wrap_safe, unicode, false)),
        11 if deep > 0 => format!("[{}][{}]", flat(r), flat(r)),
        12 if deep > 0 => format!("[{}]", flat(r)),
        13 => format!("<{}{}>", r.pick(&["https://", "http://", "ftp:", "x-y:"]), bare(r, false)),
        14 => html(r, wrap_safe),
        15 => r.pick(&["&lt;", "&gt;", "&nbsp;", "&#x41;", "&#1234;", "&hearts;", "&unknown;", "&", "&#;"]).to_string(),
        16 => format!("\\{}{}", ch(r, "!\"#$%&'()*+,-./:;<=>?@[]^_`{}~"), bare(r, false)),
        17 => format!("{}\\{}{}", bare(r, false), ch(r, "!\"#$%&'()*+,-./:;<=>?@[]^_`{}~"), bare(r, unicode)),
        18 if deep > 0 => format!("***{}***", inner(r)),
        19 if deep > 0 => format!("**{} _{}_ {}**", bare(r, unicode), flat(r), bare(r, unicode)),
        _ => bare(r, unicode),
    }
}
fn inner_link(r: &mut Rng, unicode: bool, wrap_safe: bool) -> String {
    match r.below(12) {
        0 => format!("{} {}", bare(r, unicode), code(r, unicode, wrap_safe)),
        1 => format!("**{}**", words(r, 1, 2, unicode)),
        2 => format!("![{}]({})", bare(r, unicode), dest(r, wrap_safe, unicode, false)),
        3 => format!("_{}_", words(r, 1, 2, unicode)),
        4 => format!("{} *{}* {}", bare(r, unicode), words(r, 1, 2, unicode), bare(r, unicode)),
        5 => format!("__{}__ {}", bare(r, unicode), bare(r, unicode)),
        6 => format!("~~{}~~", bare(r, unicode)),
        7 => format!("**{} _{}_**", bare(r, unicode), bare(r, unicode)),
        _ => words(r, 1, 3, unicode),
    }
}
pub fn ident(r: &mut Rng) -> String {
    let mut s = bare(r, false);
    for _ in 0..r.below(3) {
        s.push(*r.choose(&['-', '_', ':', '.']));
        s.push_str(&bare(r, false));
    }
    s
}
pub fn info(r: &mut Rng, ch: char) -> String {
    let mut s = if r.chance(1, 5) { " ".to_string() } else { String::new() };
    s.push_str(&bare(r, true));
    for _ in 0..r.below(3) {
        s.push_str(r.pick(&[",", " ", "=", ":", "-", "+", "\"", "{", "}", "#", "|", "~", "[", "*", "_", "  "]));
        s.push_str(&bare(r, true));
    }
    if ch == '~' && r.chance(1, 8) {
        s.push_str("`x`");
    }
    s.replace("arkdown", "x")
}
/// A line of code or other verbatim text.
pub fn code_line(r: &mut Rng) -> String {
    let mut s = " ".repeat(*r.choose(&[0usize, 0, 0, 1, 2, 3, 4, 6, 8, 12]));
    for _ in 0..r.range(1, 12) {
        match r.below(16) {
            0..=3 => s.push(' '),
            4..=7 => s.push_str(&bare(r, true)),
            8 => s.push('\t'),
            _ => s.push(*r.choose(&['*', '_', '<', '>', '\\', '[', ']', '(', ')', '#', '!', '&', '"', '\'', '{', '}', '=', ':', '.', '-', '+', ';', '@', '$', '/', '|', '%', '^', '\u{a0}', '1'])),
        }
    }
    if r.chance(1, 6) {
        s.push_str(r.pick(&[" ", "  ", "\t", "   ", " \t", "\t\t", "    "]));
    }
    if s.trim().is_empty() {
        s.clear();
    }
    s
}
/// A line of raw html that contains no end condition and is not blank.
pub fn html_line(r: &mut Rng) -> String {
    let mut s = code_line(r);
    s = s.replace(['<', '>', '-', ']', '?'], "x");
    if s.trim().is_empty() || s.starts_with('\u{a0}') || s.ends_with(['\u{a0}', ' ', '\t']) {
        s.push('z');
    }
    s
}

const ENDS: &[&str] = &["\\\\", "\\]", "\\[", "\\*", "\\_", "\\`", "\\<", "\\>", "\\(", "\\)", "\\\"", "\\'", "\\\\\\\\", "\\#", "\\&", "\\!", "\\|", "\\~", "\\{", "\\.", "\\-", "\\x", "\\1"];
/// Start or end of a text in a pair of delimiters: escapes, an escaped backslash above all.
pub fn end(r: &mut Rng) -> &'static str {
    if r.chance(1, 3) {
        "\\\\"
    } else {
        ENDS[r.below(ENDS.len())]
    }
}
/// Label of a footnote; different for different `k`.
pub fn note_label(r: &mut Rng, k: usize) -> String {
    let k = match r.below(4) {
        0 => format!("{k:02}"),
        1 => format!("{k:04}"),
        2 => format!("0{k}"),
        _ => k.to_string(),
    };
    match r.below(8) {
        0 | 1 => k,
        2 => format!("{}{k}", bare(r, true)),
        3 => format!("{k}{}", r.pick(&["*", "_", "-", ".", "!", "?", "#", "+", "=", "/", ":", "&amp;", "<b>", "~", "'", "\"", "(", ")", "{", "}", "@", "$", "%", ",", ";", "|x|", "*e*", "_e_", "**", ">"]).replace('|', "")),
        4 => format!("{}{k}", r.pick(&["*", "_", "-", ".", "!", "?", "#", "+", "=", "/", ":", "&amp;", "<b>", "~", "'", "\"", "(", ")", "{", "}", "@", "$", "%", ",", ";", "*e*", "_e_", "^", "**", ">"])),
        5 => format!("{}_{k}", bare(r, false).to_uppercase()),
        6 => format!("{}{k}{}", bare(r, true), bare(r, true)),
        _ => format!("{}-{k}.{}", ident(r), ident(r)),
    }
}
