//! C06: the content of strings in every style.
use super::c02::walk;
use super::{big, chars, Prop};
use crate::engine::*;
use yaml_peg::{parse, repr::RcRepr, Yaml};

/// before, after, path, column of the container, inside a flow collection
type Ctx = (&'static str, &'static str, &'static str, usize, bool);
const CTX: &[Ctx] = &[
    ("", "\n", "", 0, false),
    ("", "", "", 0, false),
    ("--- ", "\n---\nb\n", "", 0, false),
    ("k: ", "\n", "v", 0, false),
    ("k: ", "\nl: b\n", "v", 0, false),
    ("k: &x ", " # c\nl: b\n", "v", 0, false),
    ("- ", "\n- b\n", "0", 0, false),
    ("- - ", "\n", "00", 2, false),
    ("- k: ", "\n  l: b\n", "0v", 2, false),
    ("k:\n  l: ", "\nm: b\n", "vv", 2, false),
    ("k:\n- !t ", "\n- b\n", "v0", 0, false),
    ("[", "]", "0", 0, true),
    ("[b, ", " , c]\n", "1", 0, true),
    ("k: {b: ", "}\nl: b\n", "vv", 0, true),
];
/// Keys stay on one line.
const KEYS: &[Ctx] = &[
    ("", ": b\n", "k", 0, false),
    ("- ", " : b\n", "0k", 0, false),
    ("? ", "\n: b\n", "k", 0, false),
    ("{", ": b}\n", "k", 0, true),
    ("k:\n  ", ": b\n", "vk", 2, false),
];

fn expect(ch: &mut Ch, text: &str, path: &str, want: &str) -> Result<(), String> {
    if !ch.begin(|| format!("load {text:?}, the string is {want:?}")) {
        return Ok(());
    }
    ch.state(hash_of(text));
    ch.tally.validated += 1;
    let docs = parse::<RcRepr>(text).map_err(|e| format!("rejected: {e}"))?;
    let n = walk(&docs[0], path).ok_or_else(|| format!("structure lost: {:?}", docs[0]))?;
    match n.yaml() {
        Yaml::Str(s) if s == want => {}
        y => return Err(format!("read as {y:?}")),
    }
    // the neighbours are untouched
    let text = &text.replace("\r\n", "\n");
    if docs.len() != if text.ends_with("\n---\nb\n") { 2 } else { 1 } {
        return Err(format!("{} documents", docs.len()));
    }
    let near = match (path, &docs[0].yaml()) {
        _ if text.ends_with("\nl: b\n") || text.ends_with("\nm: b\n") || text.ends_with(": b\n") || text.ends_with(": b}\n") || text.ends_with("- b\n") => {
            fn last(n: &yaml_peg::NodeRc) -> bool {
                match n.yaml() {
                    Yaml::Str(s) => s == "b",
                    Yaml::Seq(v) => v.last().map_or(false, last),
                    Yaml::Map(m) => m.iter().last().map_or(false, |(_, v)| last(v)),
                    _ => false,
                }
            }
            last(&docs[0])
        }
        _ => true,
    };
    if !near {
        return Err(format!("the sibling is lost: {:?}", docs[0]));
    }
    Ok(ch.outcome("equal"))
}

// ------------------------------------------------------------------ quoted
const DOUBLE: &[(&str, &str)] = &[
    ("a", "a"),
    (" ", " "),
    ("\\n", "\n"),
    ("\\\"", "\""),
    ("\\\\", "\\"),
    ("'", "'"),
    (": ", ": "),
    (" #", " #"),
    ("\\x41", "A"),
    ("\\u00e9", "\u{e9}"),
    ("\\uD83D\\uDE00", "\u{1F600}"),
    ("\\U0001F600", "\u{1F600}"),
    ("\\t", "\t"),
    ("é", "é"),
    (",", ","),
    ("]}", "]}"),
    ("- ", "- "),
    ("\\/", "/"),
    ("\\0", "\0"),
    ("\\e\\a\\b\\f\\r\\v", "\x1b\x07\x08\x0c\r\x0b"),
    ("\\N\\_\\L\\P", "\u{85}\u{a0}\u{2028}\u{2029}"),
    ("n", "n"),
    ("\u{3000}", "\u{3000}"),
];
const SINGLE: &[(&str, &str)] = &[
    ("a", "a"),
    (" ", " "),
    ("''", "'"),
    ("\"", "\""),
    ("\\", "\\"),
    ("\\n", "\\n"),
    (": ", ": "),
    (" #", " #"),
    ("é", "é"),
    (",", ","),
    ("]}", "]}"),
    ("- ", "- "),
    ("%&*!|>@`", "%&*!|>@`"),
    ("\u{3000}", "\u{3000}"),
];
/// Line breaks inside of quotes: (source with the indentation as `~`, content)
const FOLD: &[(&str, &str)] = &[("\n~", " "), ("\n\n~", "\n"), (" \n  \n\n ~", "\n\n"), ("\r\n~", " ")];
const DFOLD: &[(&str, &str)] = &[("\\\n~", "")];

fn quoted(ch: &mut Ch, double: bool, max: usize) -> Result<(), String> {
    let (q, set): (_, &[(&str, &str)]) = if double { ('"', DOUBLE) } else { ('\'', SINGLE) };
    let folds: Vec<(&str, &str)> = FOLD.iter().chain(if double { DFOLD } else { &[] }).copied().collect();
    let c = ch.pick(CTX.len() + KEYS.len());
    let key = c >= CTX.len();
    let (a, b, path, col, _) = if key { KEYS[c - CTX.len()] } else { CTX[c] };
    let pad = " ".repeat(col + 2);
    let (mut src, mut want) = (String::new(), String::new());
    let mut last_fold = false;
    for i in 0..max {
        let n = 1 + set.len() + if key || i == 0 { 0 } else { folds.len() };
        let c = ch.pick(n);
        if c == 0 {
            break;
        }
        if c <= set.len() {
            let (s, w) = set[c - 1];
            if last_fold && s.starts_with(' ') {
                // blanks at the start of a line are not content: covered by the fold itself
                return Ok(());
            }
            src.push_str(s);
            want.push_str(w);
            last_fold = false;
        } else {
            let (s, w) = folds[c - 1 - set.len()];
            if last_fold || (double && want.trim_end_matches(' ').ends_with('\n')) {
                return Ok(());
            }
            if s.starts_with('\\') {
                src.push_str(&s.replace('~', &pad));
            } else {
                // blanks in front of a line break are not content
                want.truncate(want.trim_end_matches(' ').len());
                if src.ends_with(' ') && src.trim_end_matches(' ').ends_with('\\') {
                    return Ok(());
                }
                if want.is_empty() {
                    return Ok(());
                }
                src.push_str(&s.replace('~', &pad));
            }
            want.push_str(w);
            last_fold = true;
        }
    }
    if last_fold {
        return Ok(());
    }
    expect(ch, &format!("{a}{q}{src}{q}{b}"), path, &want)
}

// ------------------------------------------------------------------ plain
const PLAIN: &[&str] = &["a", "b:c", "d#e", "f'g", "h\"i\"", "-", "?", "j-", "&k", "*l", "!m", "\\n", "é", "%o", "12", "p.q", "://x", "=", "@", "`", "|", ">", "~", "\u{3000}", "g\u{a0}"];
const PLAIN_BLOCK: &[&str] = &["r,s", "t[u]", "v{w}", ","];
const SEP: &[&str] = &["", " ", "   ", "\n~", "\n\n~", "\n  \n\n~  "];
fn plain(ch: &mut Ch, words: usize) -> Result<(), String> {
    let c = ch.pick(CTX.len() + KEYS.len());
    let key = c >= CTX.len();
    let (a, b, path, col, flow) = if key { KEYS[c - CTX.len()] } else { CTX[c] };
    let pad = " ".repeat(col + if a.contains('-') && !a.contains("---") { 4 } else { 2 });
    let set: Vec<&str> = PLAIN.iter().chain(if flow { &[] } else { PLAIN_BLOCK }).copied().collect();
    let n = 1 + ch.pick(words);
    let (mut src, mut want) = (String::new(), String::new());
    let mut multi = false;
    for i in 0..n {
        if i > 0 {
            let s = *ch.of(if key { &SEP[1..3] } else { SEP });
            if s.is_empty() && src.ends_with(':') {
                return Ok(());
            }
            multi |= s.contains('\n');
            src.push_str(&s.replace('~', &pad));
            want.push_str(match s.matches('\n').count() {
                0 => s,
                1 => " ",
                2 => "\n",
                _ => "\n\n",
            });
        }
        let w = *ch.of(&set);
        src.push_str(w);
        want.push_str(w);
    }
    // what a plain scalar cannot be
    if want.starts_with([',', '&', '*', '!', '|', '>', '%', '@', '`', '"', '\'']) || matches!(want.as_str(), "-" | "?") || want.starts_with("- ") || want.starts_with("? ") || want.starts_with("-\n") || want.starts_with("?\n") {
        return Ok(());
    }
    if want.starts_with("---") && (want.len() == 3 || want[3..].starts_with([' ', '\n'])) {
        return Ok(());
    }
    // in a flow collection or a multi-line text `:` next to a separator is an indicator
    if want.contains(": ") || want.contains(":\n") || want.ends_with(':') || want.contains(" #") || want.starts_with(':') || (multi && want.contains("\n:")) {
        return Ok(());
    }
    // continuation lines that look like other structure stay text, except for these
    if multi && (src.contains(&format!("{pad}- ")) || src.contains(&format!("{pad}? "))) {
        return Ok(());
    }
    if flow && (want.contains(" - ") || want.contains(':')) {
        return Ok(());
    }
    if !matches!(super::c02::core(&want), super::c02::Kind::Str) {
        return Ok(());
    }
    expect(ch, &format!("{a}{src}{b}"), path, &want)
}

// ------------------------------------------------------------------ block scalars
const LIT: &[&str] = &["a", "", " b", "#c", "- d", "k: v", "\te", "f ", "'", "---", "é", "[", "\\n", "\u{3000}"];
const FOLDED: &[&str] = &["a", "", "b", "#c", "- d", "k: v", "...", "é", "|", "x  y", "\u{3000}", "z ", "\u{2003}w\u{a0}"];
/// before the header, behind the text, path, column of the container
const BCTX: &[(&str, &str, &str, usize)] = &[
    ("k: ", "", "v", 0),
    ("k: ", "l: b\n", "v", 0),
    ("- ", "- b\n", "0", 0),
    ("- ", "", "0", 0),
    ("- k: ", "  l: b\n", "0v", 2),
    ("- - ", "- b\n", "00", 2),
    ("k:\n  l: ", "m: b\n", "vv", 2),
    ("k:\n  - ", "  - b\n", "v0", 2),
    ("k:\n- ", "- b\n", "v0", 0),
    ("k: &x !t ", "l: b\n", "v", 0),
    ("? ", ": b\n", "k", 0),
    ("? a\n: ", "l: b\n", "v", 0),
    ("", "", "", 0),
    ("--- ", "---\nb\n", "", 0),
    ("--- ", "...\n", "", 0),
    ("---\n", "...\n---\nb\n", "", 0),
];
fn block(ch: &mut Ch, folded: bool, max: usize) -> Result<(), String> {
    let (a, b, path, col) = *ch.of(BCTX);
    let set = if folded { FOLDED } else { LIT };
    let w = *ch.of(&[2, 1, 4]);
    let pad = " ".repeat(col + w);
    let chomp = *ch.of(&["", "-", "+"]);
    let nl = *ch.of(&["\n", "\r\n"]);
    let head = *ch.of(&["", " ", " # c"]);
    let n = 1 + ch.pick(max);
    let mut lines: Vec<&str> = vec![];
    for _ in 0..n {
        lines.push(*ch.of(set));
    }
    // the first text line defines the indentation
    let Some(first) = lines.iter().position(|l| !l.is_empty()) else { return Ok(()) };
    if lines[first].starts_with([' ', '\t']) {
        return Ok(());
    }
    // how an empty line is written: nothing, or fewer blanks than the text is indented with
    let blank = if lines.contains(&"") { ["", " "][ch.pick(if w > 1 { 2 } else { 1 })] } else { "" };
    let open_end = b.is_empty() && !lines.last().unwrap().is_empty() && ch.flip();
    let mut src = format!("{}{chomp}{head}", if folded { '>' } else { '|' });
    for l in &lines {
        src.push_str(nl);
        if l.is_empty() {
            src.push_str(blank);
        } else {
            src.push_str(&pad);
            src.push_str(l);
        }
    }
    if !open_end {
        src.push_str(nl);
    }
    let last = lines.iter().rposition(|l| !l.is_empty()).unwrap();
    let trail = lines.len() - 1 - last;
    let mut want = String::new();
    if folded {
        let mut blanks = 0;
        for (i, l) in lines[..=last].iter().enumerate() {
            if l.is_empty() {
                blanks += 1;
                continue;
            }
            if blanks > 0 {
                want.push_str(&"\n".repeat(blanks));
            } else if i > 0 {
                want.push(' ');
            }
            blanks = 0;
            want.push_str(l);
        }
    } else {
        want = lines[..=last].join("\n");
    }
    match chomp {
        "-" => {}
        "+" => want.push_str(&"\n".repeat(trail + 1)),
        _ => want.push('\n'),
    }
    let b = b.replace('\n', nl);
    expect(ch, &format!("{}{src}{b}", a.replace('\n', nl)), path, &want)
}

// ------------------------------------------------------------------ runs
/// Texts of three words with line breaks, blank lines and blanks of any number between them.
fn runs(ch: &mut Ch, max: usize) -> Result<(), String> {
    let style = ch.pick(5);
    let (a, b, path, col) = if style < 3 {
        let (a, b, path, col, _) = CTX[ch.pick(CTX.len())];
        (a, b, path, col + if a.contains('-') && !a.contains("---") { 4 } else { 2 })
    } else {
        let (a, b, path, col) = *ch.of(BCTX);
        (a, b, path, col + 2)
    };
    let nl = *ch.of(&["\n", "\r\n"]);
    // one of the numbers is any, the others are small
    let wide = ch.pick(4);
    let num = |ch: &mut Ch, i: usize| ch.pick(if i == wide { max + 1 } else { 3 });
    let (n1, n2, n3, n4) = (num(ch, 0), num(ch, 1), num(ch, 2), num(ch, 3));
    let pad = " ".repeat(col);
    let mut want = String::new();
    let mut src;
    if style < 3 {
        let q = ["\"", "'", ""][style];
        // n1 line breaks between `a` and `b`, n2 blanks in front of them and n3 behind,
        // n4 blanks between `b` and `c` in the same line
        src = format!("{q}a{}", " ".repeat(n2));
        want.push('a');
        for i in 0..n1 {
            src.push_str(nl);
            if i % 2 == 1 && i + 1 < n1 {
                src.push_str(&" ".repeat(n3));
            }
        }
        if n1 > 0 {
            src.push_str(&pad);
        }
        src.push_str(&" ".repeat(n3));
        want.push_str(&match n1 {
            0 => " ".repeat(n2 + n3),
            1 => " ".into(),
            n => "\n".repeat(n - 1),
        });
        src.push('b');
        src.push_str(&" ".repeat(n4));
        src.push('c');
        want.push('b');
        want.push_str(&" ".repeat(n4));
        want.push('c');
        src.push_str(q);
    } else {
        // n1 blank lines in front, n2 between, n3 at the end, n4 the more indentation
        let folded = style == 4;
        let chomp = *ch.of(&["", "-", "+"]);
        let pad = " ".repeat(col + n4);
        let blank = ["", " "][ch.pick(2)];
        src = format!("{}{chomp}{nl}", if folded { '>' } else { '|' });
        let empty = |src: &mut String, n: usize| (0..n).for_each(|_| src.extend([blank, nl]));
        empty(&mut src, n1);
        src.push_str(&format!("{pad}a{nl}"));
        empty(&mut src, n2);
        src.push_str(&format!("{pad}b{nl}"));
        empty(&mut src, n3);
        want.push_str(&"\n".repeat(n1));
        want.push('a');
        want.push_str(&match (folded, n2) {
            (true, 0) => " ".into(),
            (true, n) => "\n".repeat(n),
            (false, n) => "\n".repeat(n + 1),
        });
        want.push('b');
        match chomp {
            "-" => {}
            "+" => want.push_str(&"\n".repeat(n3 + 1)),
            _ => want.push('\n'),
        }
    }
    expect(ch, &format!("{}{src}{}", a.replace('\n', nl), b.replace('\n', nl)), path, &want)
}

pub fn prop() -> Prop {
    Prop {
        id: "C06",
        spaces: |t| {
            let (d, s, p, l, f) = if t { (5, 6, 4, 5, 5) } else { (4, 5, 3, 3, 4) };
            vec![
                Space::new("characters", "every character beyond ASCII in five texts in 14 places of all styles", chars::content),
                Space::new("escapes", "every numeric escape of each length and every surrogate pair, digits in both cases", chars::escapes),
                Space::new("double", format!("every double quoted text of at most {d} of {} pieces, 19 positions", DOUBLE.len() + 5), move |ch| quoted(ch, true, d)),
                Space::new("single", format!("every single quoted text of at most {s} of {} pieces, 19 positions", SINGLE.len() + 4), move |ch| quoted(ch, false, s)),
                Space::new("plain", format!("every plain text of at most {p} words of {} and the separators between them, 19 positions", PLAIN.len() + PLAIN_BLOCK.len()), move |ch| plain(ch, p)),
                Space::new("literal", format!("every literal text of at most {l} lines of {}, chomping, indentation, 16 positions", LIT.len()), move |ch| block(ch, false, l)),
                Space::new("folded", format!("every folded text of at most {f} lines of {}, chomping, indentation, 16 positions", FOLDED.len()), move |ch| block(ch, true, f)),
                {
                    let n = if t { 60 } else { 24 };
                    Space::new("runs", format!("every text of two or three words in 5 styles with up to {n} line breaks, blanks, blank lines in front, between or behind, or columns of indentation, the other numbers below 3, 14 and 16 positions"), move |ch| runs(ch, n))
                },
                Space::new("long", "every text of at most 300 characters or lines (700 in the thorough tier), every style, a special one at any place of the first 60", move |ch| {
                    let b = big::long(ch, 60, if t { 700 } else { 300 });
                    big::load(ch, &b, crate::doc::VALUE)
                }),
            ]
        },
        oracle: "the text the pieces and lines stand for by the rules of each style, assembled while the source is written",
        assumptions: &["an escaped line feed is not put directly in front of a line break, folded lines are not indented more than the first and do not end with blanks"],
    }
}
