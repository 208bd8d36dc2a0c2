//! Generators shared by several properties.
use crate::engine::Src;

/// Characters that matter somewhere, and ordinary ones of every UTF-8 length.
pub const CHARS: &[char] = &[
    'a', 'b', 'c', 'x', 'Z', '0', '1', '9', ' ', ' ', '\n', '\t', '_', '-', '.', ',', ':', '=', '!', '?', '*', '/', '|', '#', '@', '$', '&', '\\', '`', '\'', '"',
    '(', ')', '[', ']', '{', '}', '<', '>', '~', '+', ';', '%', '^', '\r', '\u{c}', '\u{b}', '\u{0}', '\u{7f}', 'é', 'ß', 'İ', 'ı', 'ſ', '\u{a0}', '\u{3000}', '\u{2028}',
    '老', '€', '\u{2060}', '\u{feff}', '\u{fffd}', '\u{fffe}', '\u{ffff}', '😀', '\u{10ffff}', '\u{301}', '−', '“', '’',
];

pub fn any_char(s: &mut Src) -> char {
    match s.weighted(&[8, 2, 1]) {
        0 => *s.pick(CHARS),
        1 => char::from_u32(s.below(0x80) as u32).unwrap(),
        _ => loop_char(s),
    }
}
fn loop_char(s: &mut Src) -> char {
    char::from_u32(s.below(0x110000) as u32).unwrap_or('\u{fffd}')
}

/// An arbitrary string.
pub fn any_string(s: &mut Src, max: usize) -> String {
    s.vec(0, max, any_char).into_iter().collect()
}

/// A string of ordinary words.
pub fn word(s: &mut Src) -> String {
    const W: &[&str] = &["a", "foo", "bar", "Baz", "x1", "hello", "naïve", "老虎", "z"];
    s.pick(W).to_string()
}

pub fn corpus() -> &'static [String] {
    static C: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    C.get_or_init(|| include_str!("corpus.txt").lines().map(|l| l.to_string()).collect())
}

/// Source fragments, from which token soup is made.
pub const FRAGS: &[&str] = &[
    " ", "\n", "\n\n", "x", "foo", "1", "-1", "99999999999999999999", "9223372036854775807", "True", "False", "_", ".", "...", ",", ":", "::", "?::", "?", "=", "->", "=>",
    "(", ")", "[", "]", "{", "}", "<", ">", "/>", "</>", "</b>", "<b>", "<br>", "<$x>", "<!DOCTYPE html>", "<!", "<_", "</", "<p>", "<ul>", "<table>", "<span ", "<a href=",
    "$x", "$_x", "$foo", "$x::y", "$x?::y", "$x::0", "$x::-1", "@b", "@fn", "@fn foo", "@let", "@let(x=1)", "@match", "@export", "@implicit", "@implicit(x=2)", "@implicit(language=5) ", "@implicit(language=`python`) ", "@foo", "@foo(", "@x::y",
    "@dict::new", "@list::map", "@list::sorted", "@list::slice(1, 2)", "@str::split", "@regex::compile", "@int::add(1, 2)", "@html::parse", "@code", "@code_block", "@raise", "@function::bind", "@str::unique_id", "@numbered", "@typeof", "@page",
    "*", "**", "*$x", "**$y", "*_", "**_", "&", "|", "!", "#", "# comment\n", "<!-- c -->", "<!--", "'", "\"", "`", "``", "```", "`a`", "`$`", "\\", "\\x41", "\\x4", "\\u00e9", "\\U0001F600", "\\u", "\\n", "\\xé", "\\é", "&lt;", "&#65;", "&#x110000;", "&#xD800;", "&#;", "&amp", "&zzz;", "&#x;", "&#99999999999;",
    "x=1", "x=", "y?=$x", "$x: int", "$x: str list?", ": html", ": inline", ": block", ": none", ": any", ": function", ": regex", ": $t", "$x?", "$x = 1", "-> $x", "é", "老虎", "😀", "\u{a0}", "\u{3000}", "\r\n", "\t", "~", "--", "---", "(c)", "+/-", "int", "str", "list", "dict", "@implicit int",
];

pub fn soup(s: &mut Src, max: usize) -> String {
    s.vec(1, max, |s| match s.weighted(&[10, 1, 1]) {
        0 => s.pick(FRAGS).to_string(),
        1 => any_string(s, 4),
        _ => s.pick(corpus()).clone(),
    }).concat()
}

/// A program of the corpus (one or several lines) with a few edits.
pub fn mutated(s: &mut Src) -> String {
    let n = corpus().len();
    let i = s.us(n);
    let k = 1 + s.us(4);
    let mut src: Vec<char> = corpus()[i..(i + k).min(n)].join("\n").chars().collect();
    let edits = s.vec(0, 6, |s| {
        let kind = s.weighted(&[3, 3, 2, 2, 1]);
        (kind, s.below(1 << 20), s.below(1 << 10), s.below(1 << 10))
    });
    for (kind, at, len, x) in edits {
        let n = src.len();
        let at = (at as usize) % (n + 1);
        match kind {
            0 => { let e = (at + 1 + len as usize % 4).min(n); src.drain(at..e); },
            1 => { let f = FRAGS[x as usize % FRAGS.len()]; src.splice(at..at, f.chars()); },
            2 => { let e = (at + 1 + len as usize % 12).min(n); let c: Vec<char> = src[at..e].to_vec(); let to = (x as usize) % (n + 1); src.splice(to..to, c); },
            3 => { if at < n { src[at] = CHARS[x as usize % CHARS.len()]; } },
            _ => { src.truncate(at); },
        }
    }
    src.into_iter().collect()
}

/// Whether a function of the source may call itself without end, as far as the
/// text shows: its body mentions it, directly or through other functions, or
/// calls a parameter while functions are passed as values.
pub fn may_recurse(src: &str) -> bool {
    let ident = |t: &str| -> String { t.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect() };
    // whether an expression may end at the end of this line
    let complete = |t: &str| -> bool {
        let t = t.split('#').next().unwrap_or("").trim_end();
        let last = t.split_whitespace().last().unwrap_or("");
        !(last.is_empty() || last.starts_with('@') && !last.ends_with('.') || ["--", "-->", "->", "=", ",", ":", ")", "*", "&", "|", "\\"].iter().any(|e| t.ends_with(e))
            || ["@match", "@fn", "@let", "@implicit", "@export"].iter().any(|w| t.contains(w)))
    };
    let mut defs: Vec<(Vec<String>, String)> = vec![];
    for (i, _) in src.match_indices("@fn") {
        let rest = &src[i + 3..];
        let mut names = vec![ident(rest.trim_start())];
        if names[0].is_empty() {
            // `name=@fn`, or a part of such a value
            let (mut depth, mut up) = (0i32, 0i32);
            for (j, c) in src[..i].char_indices().rev() {
                match c {
                    ')' | ']' | '}' => depth += 1,
                    '(' | '[' | '{' => { depth -= 1; if depth < up { up = depth; } },
                    '=' if depth <= up => {
                        let before = src[..j].trim_end();
                        names.push(before.chars().rev().take_while(|c| c.is_alphanumeric() || *c == '_').collect::<Vec<_>>().into_iter().rev().collect());
                    },
                    _ => {},
                }
            }
        }
        let Some(a) = rest.find("->") else { continue; };
        let body = &rest[a..];
        let (mut depth, mut end) = (0i32, body.len());
        for (j, c) in body.char_indices() {
            match c { '{' | '[' | '(' => depth += 1, '}' | ']' | ')' => { depth -= 1; if depth < 0 { end = j; break; } }, '\n' if depth <= 0 && complete(&body[2..j]) => { end = j; break; }, _ => {} }
        }
        // the parameters are a part of the definition
        defs.push((names, rest[..a + end].to_string()));
    }
    let mentions = |body: &str, n: &str| !n.is_empty() && (body.match_indices('@').chain(body.match_indices('$')).any(|(i, _)| ident(&body[i + 1..]) == n));
    let n = defs.len();
    let mut reach: Vec<Vec<bool>> = defs.iter().map(|d| { let body = d.1.split_once("->").map_or("", |p| p.1); defs.iter().map(|e| e.0.iter().any(|n| mentions(body, n))).collect() }).collect();
    for k in 0..n { for i in 0..n { for j in 0..n { if reach[i][k] && reach[k][j] { reach[i][j] = true; } } } }
    if (0..n).any(|i| reach[i][i]) { return true; }
    // a function called through a variable
    let passed = src.match_indices('$').any(|(i, _)| { let n = ident(&src[i + 1..]); !n.is_empty() && defs.iter().any(|d| d.0.contains(&n)) });
    passed && defs.iter().any(|d| { let (params, body) = d.1.split_once("->").unwrap_or(("", "")); params.match_indices('$').any(|(i, _)| { let p = ident(&params[i + 1..]); !p.is_empty() && body.match_indices('@').any(|(j, _)| ident(&body[j + 1..]) == p) }) })
}

/// A program of any kind.
pub fn program(s: &mut Src) -> String {
    match s.weighted(&[6, 3, 2, 1]) {
        0 => super::exprs::program(s),
        1 => super::progs::plain(&super::progs::program(s)),
        2 => mutated(s),
        _ => soup(s, 12),
    }
}
