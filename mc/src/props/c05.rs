//! C05: a stream of documents is split at its markers and each document is read on its own.
use super::{big, Prop};
use crate::{doc::*, engine::*, util::*};
use yaml_peg::{
    parse,
    parser::Loader,
    repr::RcRepr,
};

/// The stream: a prologue, documents with separators between them, an epilogue.
fn run(ch: &mut Ch, cfg: &Cfg, max: usize) -> Result<(), String> {
    let mut text = String::new();
    let mut want: Vec<N> = vec![];
    let mut anchors: Vec<Vec<(String, N)>> = vec![];
    {
        let mut w = Writer::new(ch, cfg);
        let explicit = w.ch.pick(2) == 1;
        let mut at = At::Root;
        if explicit {
            if w.ch.dev(2) == 1 {
                w.out.push_str("%YAML 1.2\n");
            }
            at = start(&mut w);
        }
        loop {
            w.next_doc();
            let lo = w.out.len();
            // a document without content
            if (explicit || !want.is_empty()) && w.ch.pick(3) == 0 {
                w.eol();
                want.push(N { lo: 0, hi: usize::MAX, ..V::Null.into() });
                let _ = lo;
                anchors.push(vec![]);
            } else {
                let n = w.block(at, 0, cfg.depth);
                want.push(n);
                anchors.push(w.anchors.clone());
            }
            if want.len() == max || w.ch.pick(2) == 0 {
                break;
            }
            if w.ch.pick(2) == 1 {
                w.out.push_str("...");
                w.eol();
            }
            at = start(&mut w);
        }
        match w.ch.dev(4) {
            0 => {}
            1 => w.chop(),
            2 => w.out.push_str("...\n"),
            _ => w.out.push_str("# x\n\n...\n"),
        }
        text.push_str(&w.out);
    }
    if !ch.begin(|| format!("load {text:?}")) {
        return Ok(());
    }
    ch.state(hash_of(&text));
    ch.tally.validated += 1;
    let got = parse::<RcRepr>(&text).map_err(|e| format!("rejected: {e}"))?;
    same_docs(&got, &want, VALUE)?;
    let mut l = Loader::<RcRepr>::new(text.as_bytes());
    let again = l.parse().map_err(|e| format!("rejected by the loader: {e}"))?;
    same_docs(&again, &want, ALL)?;
    let tables = l.get_anchors();
    if tables.len() != want.len() {
        return Err(format!("{} anchor tables for {} documents", tables.len(), want.len()));
    }
    for (g, w) in tables.iter().zip(&anchors) {
        same_anchors(g, w, VALUE)?;
    }
    ch.outcome(["", "one document", "two documents", "three documents"][want.len().min(3)]);
    Ok(())
}
fn start(w: &mut Writer) -> At {
    w.out.push_str("---");
    if w.ch.pick(2) == 0 {
        w.eol();
        At::Root
    } else {
        At::Marker
    }
}

/// An alias cannot reach the anchors of another document.
fn isolation(ch: &mut Ch) -> Result<(), String> {
    let mk = |ch: &mut Ch, p: &str| {
        let forms = [format!("{p}\n"), format!("k: {p}\n"), format!("- b\n- {p}\n"), format!("[b, {p} ]\n"), format!("{{b: {p} }}\n")];
        ch.of(&forms).clone()
    };
    let mut docs: Vec<String> = vec![];
    let n = 2 + ch.pick(2);
    let def = ch.pick(n);
    let usage = ch.pick(n);
    for i in 0..n {
        let p = if i == usage { if i == def { "*x" } else { "*x" } } else if i == def { "&x a" } else { "c" };
        docs.push(if i == usage && i == def { "[&x a, *x ]\n".to_string() } else { mk(ch, p) });
    }
    let text = docs.join(*ch.of(&["---\n", "...\n---\n", "--- # x\n"]));
    if !ch.begin(|| format!("load {text:?}")) {
        return Ok(());
    }
    ch.state(hash_of(&text));
    ch.tally.validated += 1;
    match (parse::<RcRepr>(&text), usage == def) {
        (Ok(_), true) => Ok(ch.outcome("own anchor")),
        (Err(_), false) => Ok(ch.outcome("foreign anchor rejected")),
        (Ok(v), false) => Err(format!("an alias reached another document: {v:?}")),
        (Err(e), true) => Err(format!("rejected: {e}")),
    }
}

pub fn prop() -> Prop {
    Prop {
        id: "C05",
        spaces: |t| {
            let leaves: &[Leaf] = &[Leaf::Plain, Leaf::Single, Leaf::Literal, Leaf::Multi, Leaf::Tilde];
            let run2: fn(&mut Ch, &Cfg) -> Result<(), String> = |ch, c| run(ch, c, 2);
            let run3: fn(&mut Ch, &Cfg) -> Result<(), String> = |ch, c| run(ch, c, 3);
            vec![
                space("two", "streams of at most two documents", if t { 2 } else { 1 }, Cfg { nodes: 3, depth: 2, leaves, layout: true, anchors: true, ..Cfg::default() }, run2),
                space("three", "streams of at most three small documents", if t { 2 } else { 1 }, Cfg { nodes: 2, depth: 1, leaves, layout: true, anchors: true, ..Cfg::default() }, run3),
                Space::new("many", format!("streams of every length up to {} documents", if t { 300 } else { 150 }), move |ch| { let b = big::docs(ch, if t { 3 } else { 2 }, if t { 300 } else { 150 }); big::load(ch, &b, TAGS) }),
                Space::new("isolation", "an anchor in one document and an alias in every other document of a stream of at most three", isolation),
            ]
        },
        oracle: "the list of trees the writer rendered, one per document, and one anchor table per document",
        assumptions: &["at most three documents per stream; every document behind the first starts with its marker"],
    }
}
