//! The public parts of the loader, called on their own (a part of C24).
use crate::engine::*;
use yaml_peg::{
    parse, parse_cyclic,
    parser::{Loader, PError, Parser},
    repr::RcRepr,
    Node, Yaml,
};

type L<'a> = Loader<'a, RcRepr>;
/// A loader that stands at `from`.
fn at(text: &str, from: usize, cyclic: bool) -> L<'_> {
    let mut l = L::new(text.as_bytes()).cyclic_mode(cyclic);
    l.parser = Parser::new(text.as_bytes()).pos(from);
    l
}
/// The only document of a text.
fn whole(text: &str, cyclic: bool) -> Option<Node<RcRepr>> {
    let v = if cyclic { parse_cyclic(text).ok()?.0 } else { parse(text).ok()? };
    <[_; 1]>::try_from(v).ok().map(|[n]| n)
}
/// Aliases are equal only by data, so compare what is printed, too.
fn same(a: &Yaml<RcRepr>, b: &Yaml<RcRepr>) -> Result<(), String> {
    if a == b && format!("{a:?}") == format!("{b:?}") {
        Ok(())
    } else {
        Err(format!("is {a:?}, expected {b:?}"))
    }
}

const TOK: &[&str] = &["]", "}", "[", "{", ",", ":", " ", "a", "'b'", "&x ", "*x", "1", "?", "\n", "#", "\"]\""];
/// Flow collections: what is matched is the shortest part that is a document of that kind.
pub fn flow(ch: &mut Ch, max: usize) -> Result<(), String> {
    let map = ch.flip();
    let cyclic = ch.flip();
    let front = *ch.of(&["", "x, ", "\n  "]);
    let mut body = String::from(*ch.of(&["[", "{", "a"]));
    for _ in 1..max {
        let k = ch.pick(TOK.len() + 1);
        if k == TOK.len() {
            break;
        }
        body += TOK[k];
    }
    let text = format!("{front}{body}");
    let name = if map { "map_flow" } else { "seq_flow" };
    if !ch.begin(|| format!("{name} at {} of {text:?}, cyclic mode {cyclic}", front.len())) {
        return Ok(());
    }
    ch.state(hash_of(&(map, cyclic, &text)));
    ch.tally.validated += 1;
    let from = front.len();
    let mut l = at(&text, from, cyclic);
    let got = if map { l.map_flow(2) } else { l.seq_flow(2) };
    let (open, close) = if map { ('{', '}') } else { ('[', ']') };
    if !body.starts_with(open) {
        return match got {
            Err(PError::Mismatch) if l.pos == from && l.eaten == from => Ok(ch.outcome("mismatch")),
            r => Err(format!("{r:?}, position {}, expected a mismatch", l.pos)),
        };
    }
    let want = body.match_indices(close).map(|(i, _)| i + 1).find_map(|e| {
        let n = whole(&body[..e], cyclic)?;
        (matches!(n.yaml(), Yaml::Map(_)) == map && matches!(n.yaml(), Yaml::Seq(_)) != map).then_some((e, n))
    });
    match (got, want) {
        (Ok(y), Some((e, n))) => {
            same(&y, n.yaml())?;
            if l.pos != from + e {
                return Err(format!("position {}, expected {}", l.pos, from + e));
            }
            ch.outcome("match");
        }
        (Err(PError::Terminate { .. }), None) => ch.outcome("error"),
        (r, w) => return Err(format!("is {r:?}, expected {w:?}")),
    }
    Ok(())
}

const PROPS: &[&str] = &["", "&x ", "!t ", "&x !t ", "!!str &x ", "! "];
const SCALARS: &[&str] = &[
    "a", "a b", "12", "-1.5e3", "0x1f", "true", "~", "null", "''", "'it''s'", "\"a\\n\"", "\"\"", "*x", "[]", "[1, [2]]", "{}", "{a: 1}", "a:b", "a#b", ".inf", "é", "\"é: \"", "'\n\n a'",
];
const ENDS: &[&str] = &["", "\n", " # c", ": v", " : v", "  ", "\n\n", ", b", "]", "}"];
/// Single nodes with and without their properties.
pub fn scalars(ch: &mut Ch) -> Result<(), String> {
    let term = ch.flip();
    let flow = ch.flip();
    let cyclic = ch.flip();
    let front = *ch.of(&["", "x ", "- "]);
    let props = if term { "" } else { *ch.of(PROPS) };
    let body = *ch.of(SCALARS);
    let end = *ch.of(if flow { ENDS } else { &ENDS[..7] });
    let text = format!("{front}{props}{body}{end}");
    let name = if term { "scalar_term" } else { "scalar_flow" };
    // (a plain text in a block goes on, an alias takes no properties)
    ch.skip |= body == "*x" && (!props.is_empty() || !cyclic);
    if !ch.begin(|| format!("{name}({flow}) at {} of {text:?}, cyclic mode {cyclic}", front.len())) {
        return Ok(());
    }
    ch.state(hash_of(&(term, flow, cyclic, &text)));
    ch.tally.validated += 1;
    let from = front.len();
    let mut l = at(&text, from, cyclic);
    let want = whole(&format!("{props}{body}"), cyclic).ok_or("the reference text does not load")?;
    if term {
        let y = l.scalar_term(1, flow).map_err(|e| format!("rejected: {e}"))?;
        same(&y, want.yaml())?;
    } else {
        let n = l.scalar_flow(1, flow).map_err(|e| format!("rejected: {e}"))?;
        same(n.yaml(), want.yaml())?;
        if n.tag() != want.tag() || n.pos() != (from as u64 + want.pos()) {
            return Err(format!("tag {:?}, position {}, expected {:?}, {}", n.tag(), n.pos(), want.tag(), from as u64 + want.pos()));
        }
        let pos = l.pos;
        let table = l.get_anchors();
        let named = table.first().and_then(|t| t.get("x"));
        if props.contains('&') && named.map_or(true, |m| !std::rc::Rc::ptr_eq(m.rc_ref(), n.rc_ref())) {
            return Err(format!("the table of anchors is {table:?}"));
        }
        return ends(ch, &text, from + props.len() + body.len(), pos);
    }
    let pos = l.pos;
    ends(ch, &text, from + body.len(), pos)
}
/// The position is behind the scalar, or behind the blanks that follow.
fn ends(ch: &mut Ch, text: &str, lo: usize, pos: usize) -> Result<(), String> {
    if pos < lo || !text[lo..pos.min(text.len())].trim().is_empty() && !text[lo..pos].trim_start().starts_with('#') {
        return Err(format!("position {pos}, the scalar ends at {lo}"));
    }
    ch.outcome("match");
    Ok(())
}

const LINE: &[&str] = &["a: b", "k:", "- x", "-", "- c: d", "- - e", "w", "'q': [1]", "? z", ": y", "&x 1", "- |"];
/// Block structures from the first column: the part of the kind of the root gives the root.
pub fn blocks(ch: &mut Ch, max: usize) -> Result<(), String> {
    let cyclic = ch.flip();
    let mut text = String::new();
    for i in 0..max {
        let k = ch.pick(LINE.len() + (i > 0) as usize);
        if k == LINE.len() {
            break;
        }
        text += &" ".repeat(if i == 0 { 0 } else { 2 * ch.pick(3) });
        text += LINE[k];
        text += "\n";
    }
    if !ch.begin(|| format!("parts of {text:?}, cyclic mode {cyclic}")) {
        return Ok(());
    }
    ch.state(hash_of(&text));
    ch.tally.validated += 1;
    let want = whole(&text, cyclic);
    let mut l = at(&text, 0, cyclic);
    let seq = l.seq(0, false);
    let seq_pos = l.pos;
    let mut l = at(&text, 0, cyclic);
    let map = l.map(0, false, false);
    let mut l = at(&text, 0, cyclic);
    let any = l.scalar(0, false, false);
    let Some(want) = want else { return Ok(ch.outcome("not a document")) };
    match any {
        Ok(n) => {
            same(n.yaml(), want.yaml()).map_err(|e| format!("scalar: {e}"))?;
            if (n.tag(), n.pos()) != (want.tag(), want.pos()) {
                return Err(format!("scalar: tag {:?}, position {}", n.tag(), n.pos()));
            }
        }
        Err(e) => return Err(format!("scalar: {e}")),
    }
    let props = text.starts_with('&');
    match want.yaml() {
        y @ Yaml::Seq(_) if text.starts_with('-') => {
            same(&*seq.map_err(|e| format!("seq: {e}"))?, y).map_err(|e| format!("seq: {e}"))?;
            ch.outcome("sequence");
        }
        _ if !matches!(seq, Err(PError::Mismatch)) || seq_pos != 0 => {
            return Err(format!("seq: {seq:?}, position {seq_pos}, expected a mismatch"));
        }
        y @ Yaml::Map(_) if !props => {
            same(&*map.map_err(|e| format!("map: {e}"))?, y).map_err(|e| format!("map: {e}"))?;
            ch.outcome("map");
        }
        _ => ch.outcome("other"),
    }
    Ok(())
}

const DOC: &[&str] = &[" a\n", "\na: b\n", "\n- &x 1\n- *x\n", " |\n  t\n", "\n", " [1]\n", " 'q' # c\n", "\n- &x a\n- b: *x\n", "\n# c\n  i: j\n"];
/// A stream read document by document.
pub fn steps(ch: &mut Ch, max: usize) -> Result<(), String> {
    let cyclic = ch.flip();
    let n = 1 + ch.pick(max);
    let mut text = String::new();
    for _ in 0..n {
        text += "---";
        text += ch.of(DOC);
        if ch.flip() {
            text += "...\n";
        }
    }
    if !ch.begin(|| format!("documents of {text:?}, cyclic mode {cyclic}")) {
        return Ok(());
    }
    ch.state(hash_of(&text));
    ch.tally.validated += 1;
    let (want, tables) = if cyclic {
        parse_cyclic::<RcRepr>(&text).map_err(|e| e.to_string())?
    } else {
        let mut l = L::new(text.as_bytes());
        (l.parse().map_err(|e| e.to_string())?, l.get_anchors())
    };
    let mut l = at(&text, 0, cyclic);
    for (i, w) in want.iter().enumerate() {
        if l.food().is_empty() || !l.doc_end() || l.sym_seq(b"---").is_err() {
            return Err(format!("no document in front of {:?}", l.food_str()));
        }
        let d = l.doc().map_err(|e| format!("document {i}: {e}"))?;
        same(d.yaml(), w.yaml()).map_err(|e| format!("document {i} {e}"))?;
        if d.pos() != w.pos() {
            return Err(format!("document {i}: position {}, expected {}", d.pos(), w.pos()));
        }
        l.gap(true).unwrap_or_default();
    }
    if want.len() != n || !l.food().is_empty() || !l.doc_end() {
        return Err(format!("left is {:?}", l.food_str()));
    }
    let got = l.get_anchors();
    if got != tables || got.len() != n {
        return Err(format!("tables {got:?}, expected {tables:?}"));
    }
    ch.outcome("equal");
    Ok(())
}
