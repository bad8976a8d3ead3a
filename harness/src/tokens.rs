//! Systematic families of what markdown gives a meaning to, and places where it has none, or another one.
use crate::rng::Rng;
use crate::vocab;

/// Names of html elements: those CommonMark lists for html blocks, of other elements, and of none.
const TAGS: &[&str] = &[
    "address", "article", "aside", "base", "basefont", "blockquote", "body", "caption", "center", "col", "colgroup", "dd", "details", "dialog", "dir", "div", "dl", "dt", "fieldset", "figcaption", "figure", "footer", "form", "frame",
    "frameset", "h1", "h2", "h3", "h4", "h5", "h6", "head", "header", "hr", "html", "iframe", "legend", "li", "link", "main", "menu", "menuitem", "nav", "noframes", "ol", "optgroup", "option", "p", "param", "search", "section",
    "summary", "table", "tbody", "td", "tfoot", "th", "thead", "title", "tr", "track", "ul", "pre", "script", "style", "textarea", "a", "b", "i", "em", "span", "code", "button", "canvas", "video", "map", "object", "output",
    "progress", "embed", "hgroup", "source", "br", "img", "x-y", "h7", "divs", "pr", "br1",
];
fn cased(r: &mut Rng, s: &str) -> String {
    match r.below(4) {
        0 => s.to_uppercase(),
        1 => s.chars().map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect(),
        _ => s.to_string(),
    }
}
pub fn html(r: &mut Rng) -> String {
    let t = r.pick(TAGS);
    let t = cased(r, t);
    match r.below(12) {
        0 | 1 => format!("<{t}"),
        2 => format!("</{t}"),
        3 => format!("<{t}>"),
        4 => format!("</{t}>"),
        5 => format!("<{t}/>"),
        6 => format!("<{t} x"),
        7 => format!("<{t} x=\"{}\">", vocab::bare(r, true)),
        8 => format!("<{t} />"),
        9 => format!("</{t} "),
        10 => format!("<{t} x>"),
        _ => r.pick(&["<!--", "<!-- x -->", "<!---->", "<!-", "<!", "<!a", "<!A", "<!doctype", "<!DOCTYPE html>", "<!x y>", "<![CDATA[", "<![CDATA[x]]>", "<![cdata[", "<?", "<?x", "<?x y?>", "<?php", "<", "< div>", "<1", "<>", "</", "</>", "<http://x.y>", "<a@b.c>", "<a b"]).to_string(),
    }
}
fn gap(r: &mut Rng) -> &'static str {
    r.pick(&["", "", " ", " ", " ", "  "])
}
/// Something that starts or ends a block at the start of a line, or that looks like it.
pub fn block_start(r: &mut Rng) -> String {
    match r.below(14) {
        0 => format!("{}{}", "#".repeat(r.range(1, 8)), gap(r)),
        1 => format!("{}{}", r.pick(&[">", ">", ">>", "> >", ">-"]), gap(r)),
        2 => format!("{}{}", r.pick(&["-", "+", "*"]), gap(r)),
        3 => {
            let n = match r.below(6) {
                0 => "1".to_string(),
                1 => "0".to_string(),
                2 => "01".to_string(),
                3 => "1234567890"[..r.range(1, 10)].to_string(),
                4 => "0000000001"[10 - r.range(1, 10)..].to_string(),
                _ => r.range(2, 40).to_string(),
            };
            format!("{n}{}{}", r.pick(&[".", ")", ":", "\\."]), gap(r))
        }
        4 | 5 if r.chance(1, 3) => {
            let c = *r.choose(&['-', '*', '_', '=']);
            let mut s: String = (0..r.range(2, 7)).map(|_| if r.chance(1, 3) { ' ' } else { c }).collect();
            s.insert(0, c);
            s
        }
        4 | 5 => {
            let sep = r.pick(&["", "", "", " ", " ", "  "]);
            let c = r.pick(&["-", "*", "_", "=", "+"]);
            vec![c; r.range(1, 6)].join(sep)
        }
        6 => {
            let c = r.pick(&["`", "~"]);
            format!("{}{}{}", c.repeat(r.range(1, 5)), gap(r), r.pick(&["", "rust", "a`b", "a~b", "a b", "x`", "`x", "~"]))
        }
        7..=9 => html(r),
        10 => r.pick(&["|-|", "-|-", "|-", "-|", ":-: | -", "| :-- |", "--- | ---", "|--|--|", "|", "||", "| a |", "a | b", ":-", "-:", ":--|", "|:", "\\|-"]).to_string(),
        11 => r.pick(&["[x]: /u", "[x]:", "[x]: <u> \"t\"", "[^1]: t", "[^1]:", "[^1]", "[x]", "[ ]", "[x] t", "[", "]", "[]", "![", "[]:", "[^]: t", "[x]:/u 't'", "\\[x]: /u", "[ ] t", "[x][y]", "[^x y]: z"]).to_string(),
        _ if r.chance(1, 3) => r.pick(&["[!NOTE]", "[!WARNING] x", "$x$", "$$", "$$x$$", "[[x]]", "[[x|y]]", "![[x]]", ":tada:", "@me", "{{ x }}", "{% x %}", "{{< x >}}", ":::", "::: note", "!!! note", "==x==", "x^2^", "H~2~O", "~x", "\\(x\\)", "(c)", "...", "--", "x -- y", "'x'", "\"x\"", "#123", "GH-1", "www.x.y", "https://x.y", "a@b.c", "[x", "x]", "[TOC]", "[[_TOC_]]", "<<x>>", "*[x]: y", "~~~~x", "= x", "== x"]).to_string(),
        _ => r.pick(&["---\nx: y\n---", "+++", "\\", "\\\\", "&#35; x", "{#id}", "{}", "&", "!", "\"", "'", "(", "1", "-1", "#x", "+x", "*x*", "_x_", "**x**", "~~x~~", "`x`", "``x`", "-x", "=x", "~x", "x", "é", "`` ` ``", "\\#", "\\>", "\\-", "\\1", "1\\)", "%", "@", ":", ": x"]).to_string(),
    }
}
const AROUND: &[&str] = &["", "", "", "> ", "> > ", ">> "];
/// `@` is the token.
const PLACES: &[&str] = &[
    "w\n    @", "w\n     @", "w\n       @", "w  \n    @", "w\\\n    @", "w\n@", "w  \n@", "w\\\n@", "w\n   @", "\\@", "w\n\\@", "w  \n\\@", "w w w @", "w @ w", "ww www @ w", "*e*\n    @", "`c`\n    @", "*e*\n\\@", "w\n    @\n    @", "w\n\\@\n\\@", "`a\n    @`", "``a\n@``",
    "[a\n    @](/u)", "[a\n@](/u)", "*a\n    @*", "*a\n\\@*", "# @", "# @ #", "# \\@", "# \\@ {#i}", "@\n===", "w\n    @\n===", "w\n\\@\n---", "w\\\n    @\n===", "| @ | a |\n|---|---|\n| a | @ |", "[^n]: w\n    @", "[^n]: @", "[@](/u)", "![@](/u)", "*@*", "**w @**", "\\@ w\n    @", "- w\n      @",
    "- w\n  \\@", "- w\n@", "1. w\n       @", "1. w\n   \\@", "- @", "1. @", "- \\@", "w\n    w\n    @", "w\n    \\@", "~~~\n@\n~~~", "<div>\n@\n</div>", "    @", "@", "@\nw", "@\n    w", "@ w w ww", "@ ww @ w", "w @\n    w", "w\n\n    @", "***\n@", "[x]: /u\n    @", "[x]: /u 't'\n@", "w <a\n    @", "w `\n    @", "w\n    @ `c`", "w\n    @*e*",
];
/// A heading, and what its text may end in: runs of `#`, escapes, braces, in front of a closing run and attributes.
pub fn heading(r: &mut Rng) -> String {
    let mut t = String::new();
    for i in 0..r.range(1, 5) {
        if i > 0 && r.chance(2, 3) {
            t.push(' ');
        }
        match r.below(4) {
            0 => t.push_str(&vocab::bare(r, true)),
            1 => t.push_str(r.pick(&["é", "日本", "ß", "\u{1F600}", "a", "w", "e\u{301}", "\u{a0}x"])),
            2 => t.push_str(r.pick(&["#", "##", "\\#", "\\##", "#\\#", "\\\\#", "a#", "#a", "#é", "C#", "&#35;", "`#`", "*#*", "\\", "\\\\"])),
            _ => t.push_str(r.pick(&["`c`", "*e*", "**s**", "[l](/u)", "![i](/u#)", "<b>", "&amp;", "\\*", "{", "\\{", "x.y", "1.", "-", "~~s~~", "[^1]", "\\{x\\}"])),
        }
    }
    let attrs = match r.below(10) {
        0..=4 => String::new(),
        5 => " {#id}".into(),
        6 => " {.c}".into(),
        7 => format!(" {{#{} .{} k=v}}", vocab::bare(r, true), vocab::bare(r, true)),
        8 => format!("{{.{}}}", vocab::bare(r, false)),
        _ => format!(" {{{}}}", r.pick(&["k", "e=", "k=v e= f", "a b c d", "k=a=b .c", "x=1 y=2 z=", ".a .b .c", "k=.c", "#i k=\"v\""])),
    };
    if r.chance(1, 3) && t.starts_with(char::is_alphabetic) && !t.contains('{') {
        return format!("{t}{attrs}\n{}\n", r.pick(&["===", "---", "=", "-", "====="]));
    }
    let close = r.pick(&["", "", "", " #", " ##", " ######", " ####### ", " # ", "  #"]);
    format!("{} {t}{close}{attrs}\n", "#".repeat(r.range(1, 6)))
}
/// Combinations that are known to be formatted wrongly (see the list of findings), or that the parser itself gets wrong.
fn hazard(place: &str, t: &str) -> bool {
    let short = t.trim_end().len() < 3;
    let thematic = t.trim_end().chars().all(|c| matches!(c, '-' | '_' | '*' | ' '));
    place.starts_with("[x]: /u\n ") && (t.starts_with(['<', '`', '~', '[']) || short || thematic)
        || place.contains('`') && t.contains('`')
        || t.contains('\n') && (place.starts_with("[^n]") || place.starts_with(['-', '1']))
        || place.starts_with('[') && place.contains("](") && (t.contains("]:") || place.contains('\n') && t.starts_with('['))
        || place.contains("\n===") && t.starts_with('{')
        || place.starts_with('#') && t.trim_end().ends_with('}')
        || place.starts_with("[^n]") && t.contains("[^") && t.contains("]:")
        || place.starts_with('`') && t.ends_with(' ')
        || t.starts_with('[') && t.contains("]:") && t.trim_end().ends_with(':') && place.contains('\n')
}
/// A link definition and a line of markers right behind it, which the parser may take for an underline; a footnote definition that starts a footnote definition.
pub fn underlined_definition(s: &str) -> bool {
    let l: Vec<&str> = s.lines().map(|l| l.trim_start_matches(['>', ' '])).collect();
    let is_run = |l: &str| !l.is_empty() && l.chars().all(|c| matches!(c, '-' | '=' | '+' | '*' | ' '));
    let notes = |l: &str| l.matches("]:").count() > 1 && l.split("]:").nth(1).is_some_and(|x| x.trim_start().starts_with("[^"));
    l.windows(2).any(|w| w[0].contains('[') && w[0].contains("]:") && is_run(w[1])) || l.iter().any(|l| notes(l))
}
pub fn doc(r: &mut Rng) -> String {
    let t = if r.chance(1, 20) { vocab::markup(r, true, false, 1) } else { block_start(r) };
    let u = if r.chance(1, 2) { t.clone() } else { block_start(r) };
    let place = r.pick(PLACES);
    // Escaping unmatched backticks is another matter
    let ticks = |t: &str| t.matches('`').count();
    if hazard(place, &t) || hazard(place, &u) || ticks(&t) > 0 && ticks(&u) > 0 {
        return doc(r);
    }
    let tail = match r.below(8) {
        0..=2 => String::new(),
        3 => " w".into(),
        4 => format!(" {}", vocab::bare(r, true)),
        5 => "w".into(),
        6 => " w w".into(),
        _ => "\nw".into(),
    };
    let mut s = place.replacen('@', &t, 1).replacen('@', &u, 1);
    if !place.contains(['|', '=', '~', '#']) {
        s.push_str(&tail);
    }
    let p = r.pick(AROUND);
    // The parser takes the `>` of the next line of a quote for the end of a declaration
    let p = if s.contains("<!") || s.contains("<?") { "" } else { p };
    let item = r.chance(1, 8) && !t.contains('\n') && !u.contains('\n');
    let l: Vec<String> = s.lines().enumerate().map(|(i, l)| format!("{p}{}{l}", if !item { "" } else if i == 0 { "- " } else { "  " })).collect();
    // blank lines of spaces are another matter
    let l: Vec<&str> = l.iter().map(|l| if l.trim().is_empty() { "" } else { l.as_str() }).collect();
    let mut s = l.join("\n").trim_end().to_string();
    match r.below(8) {
        0 => s.insert_str(0, r.pick(&["w\n\n", "- w\n\n", "> w\n\n", "# w\n", "w\n", "***\n", "```\nw\n```\n", "[x]: /u\n", "<!-- w -->\n", "| w |\n|---|\n\n"])),
        1 => s.push_str(r.pick(&["\n\nw", "\n- w", "\n\n- w", "\n> w", "\n# w", "\n***", "\n    w", "\n\n    w", "\n```\nw\n```", "\n[x]: /u", "\n\n[x]: /u"])),
        _ => {}
    }
    s.push('\n');
    // Definitions and what is right behind them: only the places above
    let l: Vec<&str> = s.lines().map(|l| l.trim_start_matches(['>', ' '])).collect();
    let is_run = |l: &str| l.trim_start_matches("[x]: /u").trim_end().chars().all(|c| matches!(c, '-' | '=' | '+' | '*' | ' '));
    let after_definition = l.windows(2).any(|w| w[0].trim_start_matches(|c: char| " -+*.)".contains(c) || c.is_ascii_digit()).starts_with('[') && w[0].contains("]:") && (s.contains("\n    ") || is_run(w[1])));
    let unfinished = l.iter().any(|l| l.contains('[') && l.trim_end().ends_with("]:"));
    // wrapping moves text behind a definition into its title
    let titled = l.windows(2).any(|w| w[0].contains("]:") && w[1].starts_with(['"', '\'', '(']));
    if titled || unfinished && s.lines().count() > 1 || after_definition && (!place.starts_with("[x]: /u\n ") || l.iter().any(|l| is_run(l))) {
        return doc(r);
    }
    s
}

const SPACES: &[&str] = &["\u{a0}", "\u{a0}", "\u{3000}", "\u{3000}", "\u{2003}", "\u{202f}", "\u{2009}", "\u{1680}", "\u{2028}", "\u{85}", "\u{feff}", "\u{200b}"];
const SPACE_PLACES: &[&str] = &[
    "@", "w\n@", "w  \n@", "w\\\n@", "@\nw", "@  \nw", "@\\\nw", "# @", "# @ #", "# @ {#i}", "@\n===", "w\n@\n---", "`@`", "`w\n@`", "`@\nw`", "`w\n@\nw`", "*@*", "**w @**", "[@](/u)", "[w\n@](/u)", "[@\nw](/u)", "![@](/u)", "[w](/u \"@\")", "[w](/u '@')", "[w](<@>)", "| @ | w |\n|---|---|\n| w | @ |",
    "| w |\n|---|\n|@|", "~~~\n@\n~~~", "~~~\nw\n@\nw\n~~~", "~~~ @\nw\n~~~", "```@\nw\n```", "    @", "    w\n    @\n    w", "<div>\n@\n</div>", "<div>@", "<div>\n@\nw @\n</div>", "<!-- @ -->", "<!-- w\n@\n@ -->", "w <b @> w", "w <b x=\"@\"> w", "w <b x=\"w\n@\"> w", "- @", "- w\n  @", "1. @\n2. @", "- [ ] @", "> @", "> w\n> @", "> - @",
    "[^n]: @", "[^n]: w\n    @", "[x]: /u \"@\"", "[x]: /u '@'\n\n[x]", "[@]: /u\n\n[@]", "[w][@]\n\n[@]: /u", "[^@]: w\n\n[^@]", "<http://@>", "\\@", "&amp;@", "@&amp;", "w @ w", "www @ ww @", "~~@~~", "w[^1]@\n\n[^1]: w", "---\nx: @\n---",
];
/// Spaces that aren't markdown's: at the edges of everything, where they are text.
pub fn spaces(r: &mut Rng) -> String {
    let mut t = String::new();
    for i in 0..r.range(1, 3) {
        if i > 0 {
            t.push_str(r.pick(&["", "", " "]));
        }
        let s = r.pick(SPACES);
        match r.below(6) {
            0 | 1 => t.push_str(&format!("x{s}")),
            2 | 3 => t.push_str(&format!("{s}x")),
            4 => t.push_str(&format!("x{s}y")),
            _ => t.push_str(&format!("{s}x{s}")),
        }
    }
    let place = r.pick(SPACE_PLACES);
    let s = place.replace('@', &t);
    let p = r.pick(AROUND);
    let p = if s.contains("<!") || s.starts_with("---") { "" } else { p };
    let mut s = s.split('\n').map(|l| if l.is_empty() { p.trim_end().to_string() } else { format!("{p}{l}") }).collect::<Vec<_>>().join("\n");
    if r.chance(1, 3) {
        s.push_str(r.pick(&["\n\nw", "\n- w", "\n\n***", "\n# w"]));
    }
    s.push('\n');
    s
}
