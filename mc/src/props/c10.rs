//! C10: every node knows where it starts. C23: positions are shown as line and column, and every
//! error message points into the input.
use super::{big, Prop};
use crate::{doc::*, engine::*, util::*};
use yaml_peg::{
    indicated_msg, indicated_msg_file, parse_cyclic,
    parser::Loader,
    repr::RcRepr,
};

fn run(ch: &mut Ch, cfg: &Cfg) -> Result<(), String> {
    let mut cfg = cfg.clone();
    cfg.nl = ["\n", "\r\n"][ch.dev(2)];
    let lead = ch.dev(7);
    let (text, want, anchors) = {
        let mut w = Writer::new(ch, &cfg);
        let nl = cfg.nl;
        let at = match lead {
            0 => At::Root,
            1 => { w.out.push_str(&format!("{nl}  {nl}")); At::Root }
            2 => { w.out.push_str(&format!("# é{nl}")); At::Root }
            3 => { w.out.push_str(&format!("---{nl}")); At::Root }
            4 => { w.out.push_str(&format!("%TAG !e! é:{nl}# x{nl}--- # y{nl}# z{nl}")); At::Root }
            5 => { w.out.push_str(&format!("'é'{nl}---{nl}é: &x é{nl}...{nl}---{nl}")); At::Root }
            _ => { w.out.push_str("---"); At::Marker }
        };
        let n = w.block(at, 0, cfg.depth);
        (w.out, n, w.anchors)
    };
    if !ch.begin(|| format!("load {text:?}")) {
        return Ok(());
    }
    ch.state(hash_of(&text));
    ch.tally.validated += 1;
    let (got, tables) = parse_cyclic::<RcRepr>(&text).map_err(|e| format!("rejected: {e}"))?;
    let last = got.last().ok_or("no document")?;
    same(last, &want, ALL)?;
    same_anchors(tables.last().ok_or("no anchor table")?, &anchors, ALL)?;
    ch.outcome(["first line", "behind blank lines", "behind a comment", "behind a marker", "behind directives", "third document", "on the marker line"][lead]);
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C10",
        spaces: |t| {
            let leaves: &[Leaf] = &[Leaf::Plain, Leaf::Single, Leaf::Double, Leaf::Literal, Leaf::Folded, Leaf::Multi, Leaf::SingleMulti, Leaf::Int, Leaf::Empty];
            let base = Cfg {
                layout: true,
                anchors: true,
                cyclic: true,
                aliases: true,
                tags: &[("!t", "t"), ("!<é>", "é")],
                leaves,
                flow_leaves: FLOW_LEAVES,
                keys: &[Key::Plain, Key::Explicit, Key::Double, Key::Flow, Key::BlockSeq, Key::Bare], pairs: true, next_line: true,
                flow_keys: FLOW_KEYS,
                widths: &[2, 1, 3],
                ..Cfg::default()
            };
            let mut v = vec![
                space("one", "trees in every place of a stream", if t { 2 } else { 1 }, Cfg { nodes: if t { 6 } else { 6 }, ..base.clone() }, run),
                space("two", "smaller trees in every place of a stream", if t { 4 } else { 3 }, Cfg { nodes: 3, ..base }, run),
                Space::new("deep", "trees of every depth up to 60 in every pattern of levels, in five streams", move |ch| { let b = big::deep(ch, if t { 3 } else { 2 }, 60); let b = big::stream(ch, b); big::load(ch, &b, ALL) }),
                Space::new("wide", "collections of every size up to 300 in three places and five streams", |ch| { let b = big::wide(ch, 300); let b = big::stream(ch, b); big::load(ch, &b, ALL) }),
                Space::new("long", "texts of every length up to 600 characters or lines", |ch| { let b = big::long(ch, 60, 600); big::load(ch, &b, ALL) }),
                Space::new("many", "streams of every length up to 130 documents", |ch| { let b = big::docs(ch, 2, 130); big::load(ch, &b, ALL) }),
            ];
            v.extend(super::texts::spaces("whatever loads, of all texts", t, super::texts::places));
            v
        },
        oracle: "the byte offset at which the writer put the first byte of each node; block collections behind an indicator may start anywhere from the end of the indicator to their first item, empty values anywhere in their place",
        assumptions: &["the position of a node is the first byte behind its anchor and tag"],
    }
}

// ------------------------------------------------------------------ messages
/// The line and column of a position, by counting.
fn locate(doc: &[u8], pos: usize) -> (usize, usize, &[u8]) {
    let pos = pos.min(doc.len());
    let line = doc[..pos].iter().filter(|c| **c == b'\n').count();
    let start = doc[..pos].iter().rposition(|c| *c == b'\n').map_or(0, |p| p + 1);
    let end = doc[start..].iter().position(|c| *c == b'\n').map_or(doc.len(), |p| start + p);
    (line + 1, pos - start + 1, &doc[start..end])
}

const ALPHA: &[&[u8]] = &[b"a", b"\n", b" ", b"\xc3\xa9", b"\xff", b"\r", b"\t"];
fn show_pos(ch: &mut Ch, max: usize) -> Result<(), String> {
    let mut d = vec![];
    for _ in 0..max {
        let c = ch.pick(ALPHA.len() + 1);
        if c == 0 {
            break;
        }
        d.extend_from_slice(ALPHA[c - 1]);
    }
    let pos = ch.pick(d.len() + 3);
    let pos = if pos == d.len() + 2 { u64::MAX } else { pos as u64 };
    if !ch.begin(|| format!("indicate position {pos} of \"{}\"", d.escape_ascii())) {
        return Ok(());
    }
    ch.state(hash_of(&(&d, pos)));
    ch.tally.validated += 1;
    let (line, col, text) = locate(&d, pos.min(d.len() as u64) as usize);
    let want = format!("{line}:{col}\n{}\n{}^", String::from_utf8_lossy(text), " ".repeat(col - 1));
    let got = indicated_msg(&d, pos);
    if got != want {
        return Err(format!("got {got:?}, expected {want:?}"));
    }
    let got = indicated_msg_file("p/é.yaml", &d, pos);
    if got != format!("p/é.yaml:{want}") {
        return Err(format!("with a path: got {got:?}"));
    }
    ch.outcome(if pos as usize > d.len() { "behind the document" } else { "inside" });
    Ok(())
}

/// Many lines and wide lines: the line, the column and the length of the line all grow.
fn wide(ch: &mut Ch, max: usize) -> Result<(), String> {
    const MANY: &[usize] = &[999, 1000, 4095, 4096, 65535, 65536, 65537];
    let size = |ch: &mut Ch| match ch.pick(max + 1 + MANY.len()) {
        n if n <= max => n,
        n => MANY[n - max - 1],
    };
    let (lines, cols) = (size(ch), size(ch));
    if lines > max && cols > max {
        return Ok(());
    }
    let (before, unit): (&str, &str) = *ch.of(&[("", "x"), ("k", "\t"), ("é\r", "é")]);
    let rest = ch.pick(3);
    if !ch.begin(|| format!("indicate column {cols} of line {lines}, lines of {before:?} in front of it, {unit:?}, {rest} more")) {
        return Ok(());
    }
    let mut d = format!("{before}\n").repeat(lines).into_bytes();
    let start = d.len();
    let unit = unit.as_bytes();
    d.extend(unit.iter().cycle().take(cols));
    let line = [&d[start..], &[b"".as_slice(), b"x", b"\r y"][rest]].concat();
    d.truncate(start);
    d.extend_from_slice(&line);
    d.extend_from_slice([b"".as_slice(), b"\n", b"\nz\n"][rest]);
    ch.state(hash_of(&(lines, cols, before, rest)));
    ch.tally.validated += 1;
    let want = format!("{}:{}\n{}\n{}^", lines + 1, cols + 1, String::from_utf8_lossy(&line), " ".repeat(cols));
    let got = indicated_msg(&d, (start + cols) as u64);
    if got != want {
        let at = got.bytes().zip(want.bytes()).take_while(|(a, b)| a == b).count();
        return Err(format!("{} and {} bytes, they differ at {at}: got {:?}", got.len(), want.len(), got.chars().take(20).collect::<String>()));
    }
    ch.outcome(if lines > max { "many lines" } else if cols > max { "wide lines" } else { "some lines" });
    Ok(())
}

/// The names that are documented, and those of the properties and strings.
const NAMES: &[&str] = &[
    "document", "directive", "document splitter", "checked version", "invalid version", "version", "nesting level", "flow sequence item", "flow map key", "flow map value", "flow map splitter",
    "sequence item", "sequence terminator", "map key", "map value", "map splitter", "map terminator", "tag", "tag handle", "anchor name", "alias name", "quoted string terminator",
    "duplicated anchor definition", "duplicated tag definition", "anchor referenced before definition",
];
/// The message of an error has the documented form and points into the input.
fn error_msg(ch: &mut Ch, d: &[u8]) -> Result<(), String> {
    if !ch.begin(|| format!("error of loading \"{}\"", d.escape_ascii())) {
        return Ok(());
    }
    let Err(e) = Loader::<RcRepr>::new(d).parse() else { return Ok(ch.outcome("accepted")) };
    ch.state(hash_of(d));
    ch.tally.validated += 1;
    let m = e.to_string();
    let yaml_peg::parser::PError::Terminate { name, msg } = &e else { return Err(format!("error without a place: {m}")) };
    if m != format!("invalid {name}: \n\n{msg}") {
        return Err(format!("message {m:?}"));
    }
    if !NAMES.contains(&&name[..]) {
        return Err(format!("{name:?} names no part of the grammar"));
    }
    let (place, rest) = msg.split_once('\n').ok_or("no place")?;
    let (l, c) = place.split_once(':').ok_or_else(|| format!("place {place:?}"))?;
    let (Ok(l), Ok(c)) = (l.parse::<usize>(), c.parse::<usize>()) else { return Err(format!("place {place:?}")) };
    let lines: Vec<&[u8]> = d.split(|c| *c == b'\n').collect();
    if l < 1 || l > lines.len() || c < 1 || c > lines[l - 1].len() + 1 {
        return Err(format!("{l}:{c} is not in the input"));
    }
    let want = format!("{}\n{}^", String::from_utf8_lossy(lines[l - 1]), " ".repeat(c - 1));
    if rest != want {
        return Err(format!("shows {rest:?}, expected {want:?}"));
    }
    ch.outcome("points into the input");
    Ok(())
}
const TOKS: &[&[u8]] = &[b"a", b" ", b"\n", b": ", b"- ", b"[", b"]", b"{", b"}", b",", b"*a", b"!x!", b"'", b"\"", b"---\n", b"\xc3\xa9", b"\r\n", b"&", b"%YAML 3\n", b"0"];
fn errors(ch: &mut Ch, max: usize) -> Result<(), String> {
    let mut d = vec![];
    for _ in 0..max {
        let c = ch.pick(TOKS.len() + 1);
        if c == 0 {
            break;
        }
        d.extend_from_slice(TOKS[c - 1]);
    }
    error_msg(ch, &d)
}

/// A mistake planted at a known place of a good document: the message points at it.
fn planted(ch: &mut Ch) -> Result<(), String> {
    const BEFORE: &[&str] = &["", "k: b\n", "# é\n", "é: b\n\n", "--- a\n---\n", "'é'\n...\n---\nm: b\n", "%TAG !e! é:\n---\n", "k: |\n  é\n  b\n\n"];
    // the mistake, the places that describe it, whether it is a map entry
    const BAD: &[(&str, usize, usize)] = &[
        ("é: *undef\n", 4, 10),
        ("l: !u!x a\n", 3, 7),
        ("l: [a, *undef ]\n", 7, 13),
        ("l: [a, é\n", 7, 11),
        ("l: {a: b\n", 7, 9),
        ("l: 'é\n", 3, 7),
        ("l: \"é\n", 3, 7),
        ("l: [a, &! b]\n", 7, 9),
        ("l: !<a b> c\n", 3, 7),
        ("l: &x &y a\n", 6, 9),
        ("l:\n  - a\n  - *undef\n", 13, 19),
        ("l:\n  m: {b : *undef }\n", 13, 19),
    ];
    const AFTER: &[&str] = &["", "m: b\n", "# é\n", "---\nb\n"];
    let b = *ch.of(BEFORE);
    let (bad, lo, hi) = *ch.of(BAD);
    let a = *ch.of(AFTER);
    let text = format!("{b}{bad}{a}");
    if !ch.begin(|| format!("error of loading {text:?}")) {
        return Ok(());
    }
    ch.state(hash_of(&text));
    ch.tally.validated += 1;
    let e = match Loader::<RcRepr>::new(text.as_bytes()).parse() {
        Err(e) => e.to_string(),
        Ok(v) => return Err(format!("accepted: {v:?}")),
    };
    let place = e.lines().nth(2).unwrap_or("").to_string();
    // an unterminated quote or bracket is noticed where the input goes on or ends
    let open = bad.contains('\'') || bad.contains('"') || (bad.contains('[') && !bad.contains(']')) || (bad.contains('{') && !bad.contains('}'));
    let end = if open { text.len() } else { b.len() + hi };
    for p in b.len() + lo..=end {
        let (l, c, _) = locate(text.as_bytes(), p);
        if place == format!("{l}:{c}") {
            ch.outcome("at the mistake");
            return Ok(());
        }
    }
    let (l, c, _) = locate(text.as_bytes(), b.len() + lo);
    Err(format!("points at {place}, the mistake is at {l}:{c}\n{e}"))
}

pub fn c23() -> Prop {
    Prop {
        id: "C23",
        spaces: |t| {
            let (p, e) = if t { (7, 6) } else { (6, 5) };
            let w = if t { 1100 } else { 300 };
            vec![
                Space::new("positions", format!("every text of at most {p} of {} pieces, every position inside of and behind it", ALPHA.len()), move |ch| show_pos(ch, p)),
                Space::new("wide", format!("every line and column up to {w}, and up to 65537 lines or columns, lines of three kinds, three endings"), move |ch| wide(ch, w)),
                Space::new("errors", format!("the errors of all sequences of at most {e} of {} tokens", TOKS.len()), move |ch| errors(ch, e)),
                Space::new("planted", "twelve mistakes at known places, behind eight good beginnings and in front of four endings", planted),
            ]
        },
        oracle: "line and column by counting line feeds; the message repeats that line of the input and puts the caret under the column; a planted mistake is pointed at",
        assumptions: &["columns count bytes"],
    }
}
