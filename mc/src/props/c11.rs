//! C11: what is dumped loads to the same data. C12: with tags, anchors and aliases.
use super::{big, chars, Prop};
use crate::{doc::*, engine::*, util::*};
use yaml_peg::{dump, parse, parse_cyclic, parser::Loader, repr::RcRepr, NodeRc, Yaml};

/// Dump, load, compare, dump again.
pub fn trip(ch: &mut Ch, docs: &[N]) -> Result<(), String> {
    if !ch.begin(|| format!("dump {}", docs.iter().map(|d| show(&d.v)).collect::<Vec<_>>().join(" --- "))) {
        return Ok(());
    }
    ch.state(hash_of(docs));
    ch.tally.validated += 1;
    let nodes: Vec<NodeRc> = docs.iter().map(build).collect();
    let text = dump(&nodes, &[]);
    let back = parse::<RcRepr>(&text).map_err(|e| format!("dumped as {text:?}, which is rejected: {e}"))?;
    same_docs(&back, docs, TAGS).map_err(|e| format!("dumped as {text:?}: {e}"))?;
    let again = dump(&back, &[]);
    if again != text {
        return Err(format!("dumped as {text:?}, then as {again:?}"));
    }
    if !text.ends_with('\n') {
        return Err(format!("dumped as {text:?} without a line end"));
    }
    ch.outcome(match docs[0].v {
        V::Seq(_) => "sequence",
        V::Map(_) => "map",
        _ => "scalar",
    });
    Ok(())
}

// ------------------------------------------------------------------ shapes
struct Gen<'w, 'a> {
    ch: &'w mut Ch<'a>,
    left: usize,
    n: usize,
    leaves: &'static [&'static str],
    keys: bool,
}
impl Gen<'_, '_> {
    fn leaf(&mut self, i: usize) -> V {
        self.n += 1;
        match self.leaves[i] {
            "null" => V::Null,
            "bool" => V::Bool(self.n % 2 == 0),
            "int" => V::Int(format!("{}", self.n as i64 - 3)),
            "float" => V::Float(format!("{}.5", self.n)),
            "lines" => V::Str(format!("l{}\n m: #\n\n- n\n", self.n)),
            "lines-" => V::Str(format!("l{}\nm", self.n)),
            "quote" => V::Str(format!("{}: \"q", self.n)),
            "" => V::Str(String::new()),
            s => V::Str(format!("{s}{}", self.n)),
        }
    }
    fn node(&mut self, depth: usize) -> N {
        self.left = self.left.saturating_sub(1);
        let open = depth > 0 && self.left > 0;
        let k = self.ch.pick(if open { 3 } else { 1 });
        match k {
            0 => {
                let i = self.ch.dev(self.leaves.len());
                self.leaf(i).into()
            }
            1 => {
                let mut v = vec![];
                while v.len() < 4 && self.left > 0 && self.ch.flip() {
                    v.push(self.node(depth - 1));
                }
                V::Seq(v).into()
            }
            _ => {
                let mut m: Vec<(N, N)> = vec![];
                while m.len() < 4 && self.left > 0 && self.ch.flip() {
                    // any node as a key is a deviation
                    let k = match self.ch.dev(if self.keys { 3 } else { 1 }) {
                        0 => {
                            self.n += 1;
                            s(&format!("k{}", self.n))
                        }
                        1 => {
                            let i = self.ch.pick(self.leaves.len());
                            self.leaf(i).into()
                        }
                        _ if self.left > 0 => self.node(2),
                        _ => V::Map(vec![]).into(),
                    };
                    self.ch.skip |= m.iter().any(|(l, _)| *l == k);
                    let v = self.node(depth - 1);
                    m.push((k, v));
                }
                V::Map(m).into()
            }
        }
    }
}
fn shapes(name: &str, nodes: usize, depth: usize, devs: usize, docs: usize, keys: bool) -> Space {
    Space::new(name, format!("streams of at most {docs} trees of at most {nodes} nodes, {depth} deep, built by the interface; {devs} leaves or keys other than plain strings{}", if keys { ", any node as a key" } else { "" }), move |ch| {
        let n = 1 + ch.pick(docs);
        let mut v = vec![];
        for _ in 0..n {
            let mut g = Gen { ch, left: nodes, n: 0, leaves: &["s", "null", "bool", "int", "float", "lines", "lines-", "quote", ""], keys };
            v.push(g.node(depth));
        }
        trip(ch, &v)
    })
    .devs(devs)
}

// ------------------------------------------------------------------ strings
const ALPHA: &[&str] = &[
    "a", " ", "\n", ":", "#", "-", "?", "'", "\"", "\\", "[", "]", "{", "}", ",", "&", "*", "!", "|", ">", "%", "@", "`", "\t", "\r", "é", "0", ".", "~", "\u{85}", "\u{feff}", "\0", "\u{2028}",
];
const TOKENS: &[&str] = &[
    "a", " ", "\n", "  ", "\n\n", ": ", " #", "- ", "? ", "---", "...", "--- ", "\n---\n", "null", "true", "1", "e5", "0x", ".", "\r\n", "\t", "k: v", "'", "\"", "\\n", "%YAML 1.2\n", "<", "=", "&a ", "*a", "!t ", "|\n", ">-\n",
];
fn place(t: N, c: usize) -> Vec<N> {
    let map = |k: N, v: N| -> N { V::Map(vec![(k, v)]).into() };
    let seq = |v: Vec<N>| -> N { V::Seq(v).into() };
    match c {
        0 => vec![t],
        1 => vec![map(s("k"), t)],
        2 => vec![map(t, s("v"))],
        3 => vec![seq(vec![t.clone(), s("b"), t])],
        4 => vec![s("a"), t, s("b")],
        5 => vec![seq(vec![seq(vec![t]), map(s("k"), s("v"))])],
        6 => vec![seq(vec![V::Map(vec![(s("k"), t.clone()), (s("l"), t)]).into()])],
        7 => vec![map(s("k"), map(s("l"), map(s("m"), t)))],
        8 => vec![map(s("k"), seq(vec![map(t.clone(), t)]))],
        9 => vec![map(seq(vec![t]), s("v"))],
        10 => vec![map(map(s("k"), t), s("v"))],
        _ => vec![V::Map(vec![(t.clone(), V::Map(vec![(t, s("v")), (s("l"), s("w"))]).into()), (s("zz"), V::Null.into())]).into()],
    }
}
const PLACES: usize = 12;
fn strings(name: &str, toks: &'static [&'static str], max: usize) -> Space {
    Space::new(name, format!("every string of at most {max} of {toks:?} in {PLACES} places"), move |ch| {
        let mut t = String::new();
        for _ in 0..max {
            let c = ch.pick(toks.len() + 1);
            if c == 0 {
                break;
            }
            t.push_str(toks[c - 1]);
        }
        let c = ch.pick(PLACES);
        trip(ch, &place(s(&t), c))
    })
}
const WORDS: &[&str] = &[
    "null", "true", "false", ".inf", "-.inf", "+.inf", ".nan", "~", "yes", "off", "0x1F", "0o17", "1e10", "-1.5e-3", "12", "+1", "-0", "0.", ".5", "1_000", "2001-01-01", "12:30", "<<", "=", "- a", "? a", "a: b", "a #b", "[]", "{}", "|", ">-", "'", "\"\"", "---", "...", "%TAG", "a:", ":a", "-", "?", ":", "!", "&", "*",
];
/// every case mix of the words and one edit of each
fn near(ch: &mut Ch) -> Result<(), String> {
    let w: Vec<char> = ch.of(WORDS).chars().collect();
    let mut t = w.clone();
    match ch.pick(3) {
        0 if w.len() <= 5 => {
            for c in t.iter_mut() {
                if c.is_ascii_lowercase() && ch.flip() {
                    *c = c.to_ascii_uppercase();
                }
            }
        }
        1 => {
            let i = ch.pick(w.len());
            t.remove(i);
        }
        2 => {
            let i = ch.pick(w.len() + 1);
            t.insert(i, *ch.of(&[' ', '\n', '0', '.', '-', ':', '#', '\'', ',', ']']));
        }
        _ => {}
    }
    let c = ch.pick(PLACES);
    let t: String = t.into_iter().collect();
    trip(ch, &place(s(&t), c))
}
/// Numbers made from Rust numbers.
fn numbers(ch: &mut Ch) -> Result<(), String> {
    let y: Yaml<RcRepr> = match ch.pick(3) {
        0 => {
            let v = *ch.of(&[0i128, 1, -1, 9, 10, i8::MIN as i128, u8::MAX as i128, i64::MAX as i128, i64::MIN as i128, u64::MAX as i128, i128::MAX, i128::MIN, 1 << 53]);
            v.into()
        }
        1 => {
            const M: &[f64] = &[0.0, 1.0, 1.5, 9.0, 0.1, 1.7976931348623157, 2.2250738585072014, 4.9, 3.3333333333333335, 123456789.0];
            let (m, e) = (*ch.of(M), *ch.of(&[0, 1, -1, 5, -5, 15, 16, 17, 20, 21, -7, 100, -100, 300, 307, 308, -307, -308, -323, -324]));
            let f: f64 = format!("{m}e{e}").parse().unwrap();
            (if ch.flip() { -f } else { f }).into()
        }
        _ => (*ch.of(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, f64::MIN_POSITIVE, f64::EPSILON])).into(),
    };
    let n = read(&NodeRc::from(y));
    let c = ch.pick(PLACES);
    trip(ch, &place(plain(n, false), c))
}

pub fn prop() -> Prop {
    Prop {
        id: "C11",
        spaces: |t| {
            vec![
                shapes("shapes", if t { 8 } else { 7 }, if t { 5 } else { 4 }, 1, 1, false),
                shapes("few", if t { 5 } else { 4 }, 4, if t { 4 } else { 3 }, 1, false),
                shapes("keys", if t { 6 } else { 5 }, 3, if t { 3 } else { 2 }, 1, true),
                shapes("streams", if t { 4 } else { 3 }, 2, 1, 3, false),
                strings("characters", ALPHA, if t { 4 } else { 3 }),
                strings("tokens", TOKENS, if t { 4 } else { 3 }),
                Space::new("words", format!("all case mixes and single edits of {} words in {PLACES} places", WORDS.len()), near),
                Space::new("deep", format!("trees of every depth up to {} in every pattern of levels", if t { 100 } else { 60 }), move |ch| { let b = if t { big::deep(ch, 3, 100) } else { big::deep(ch, 2, 60) }; big::dumped(ch, &b) }),
                Space::new("wide", "collections of every size up to 300 in three places", |ch| { let b = big::wide(ch, 300); big::dumped(ch, &b) }),
                Space::new("long", "texts of every length up to 1100 characters or lines", |ch| { let b = big::long(ch, 90, 1100); big::dumped(ch, &b) }),
                Space::new("many", "streams of every length up to 130 documents", |ch| { let b = big::docs(ch, 2, 130); big::dumped(ch, &b) }),
                Space::new("every character", "every character in six texts as document, value, item and key", chars::dumped),
                Space::new("numbers", format!("extreme integers and floats in {PLACES} places"), numbers),
            ]
        },
        oracle: "the dumped trees themselves, compared type by type, text by text and in order; the second dump is the first one",
        assumptions: &["maps have distinct keys", "floats are written the way Rust prints them"],
    }
}

// ------------------------------------------------------------------ C12
fn cyclic(ch: &mut Ch, cfg: &Cfg, docs: usize) -> Result<(), String> {
    let (text, want, anchors) = {
        let mut w = Writer::new(ch, cfg);
        let (mut want, mut anchors) = (vec![], vec![]);
        loop {
            w.next_doc();
            want.push(w.block(At::Root, 0, cfg.depth));
            anchors.push(w.anchors.clone());
            if want.len() == docs || docs > 1 && w.ch.pick(2) == 0 {
                break;
            }
            w.out.push_str("---\n");
        }
        (w.out, want, anchors)
    };
    if !ch.begin(|| format!("load {text:?}, dump it and load it again")) {
        return Ok(());
    }
    ch.state(hash_of(&text));
    ch.tally.validated += 1;
    let (root, table) = parse_cyclic::<RcRepr>(&text).map_err(|e| format!("rejected: {e}"))?;
    let out = dump(&root, &table);
    let (root2, table2) = parse_cyclic::<RcRepr>(&out).map_err(|e| format!("dumped as {out:?}, which is rejected: {e}"))?;
    same_docs(&root2, &want, TAGS).map_err(|e| format!("dumped as {out:?}: {e}"))?;
    if table2.len() != want.len() {
        return Err(format!("dumped as {out:?}: {} anchor tables for {} documents", table2.len(), want.len()));
    }
    for (g, w) in table2.iter().zip(&anchors) {
        same_anchors(g, w, TAGS).map_err(|e| format!("dumped as {out:?}: {e}"))?;
    }
    let again = dump(&root2, &table2);
    if again != out {
        return Err(format!("dumped as {out:?}, then as {again:?}"));
    }
    ch.outcome(if anchors.iter().all(|a| a.is_empty()) { "no anchor" } else if docs > 1 { "anchors in a stream" } else { "anchors" });
    Ok(())
}
/// The direct mode: shared data is dumped in full wherever it is used, and the anchor once.
fn direct(ch: &mut Ch, cfg: &Cfg) -> Result<(), String> {
    let (text, want, used) = {
        let mut w = Writer::new(ch, cfg);
        let n = w.block(At::Root, 0, cfg.depth);
        (w.out, n, w.used_alias)
    };
    if !used || !ch.begin(|| format!("load {text:?} in the direct mode, dump it and load it again")) {
        return Ok(());
    }
    ch.state(hash_of(&text));
    ch.tally.validated += 1;
    let mut l = Loader::<RcRepr>::new(text.as_bytes());
    let root = l.parse().map_err(|e| format!("rejected: {e}"))?;
    let table = l.get_anchors();
    for t in [vec![], table] {
        let out = dump(&root, &t);
        let back = parse::<RcRepr>(&out).map_err(|e| format!("dumped as {out:?}, which is rejected: {e}"))?;
        same_docs(&back, &[want.clone()], VALUE).map_err(|e| format!("dumped as {out:?}: {e}"))?;
    }
    ch.outcome("expanded");
    Ok(())
}
/// Tags given through the interface.
fn tags(ch: &mut Ch, nodes: usize) -> Result<(), String> {
    const T: &[&str] = &["", "t", "a-b9", "tag:yaml.org,2002:str", "tag:yaml.org,2002:int", "tag:yaml.org,2002:a-b", "tag:yaml.org,2002:", "x:y/z,w", "é", "!", "a!b", "9", "-a", "str", "tag:yaml.org,2002:map", "tag:yaml.org,2002:seq", "_a", "#", "%", "[", "a:"];
    fn go(ch: &mut Ch, left: &mut usize, depth: usize, n: &mut usize) -> N {
        *left -= 1;
        let k = ch.pick(if depth > 0 && *left > 0 { 7 } else { 5 });
        *n += 1;
        let v = match k {
            0 => V::Str(format!("s{n}")),
            1 => V::Null,
            2 => V::Int(format!("{n}")),
            3 => V::Str(format!("a{n}\nb")),
            4 => V::Seq(vec![]),
            5 => {
                let mut v = vec![go(ch, left, depth - 1, n)];
                while *left > 0 && ch.flip() {
                    v.push(go(ch, left, depth - 1, n));
                }
                V::Seq(v)
            }
            _ => {
                let mut m = vec![];
                loop {
                    *n += 1;
                    let mut k = s(&format!("k{n}"));
                    k.tag = T[ch.dev(T.len())].into();
                    m.push((k, go(ch, left, depth - 1, n)));
                    if *left == 0 || !ch.flip() {
                        break;
                    }
                }
                V::Map(m)
            }
        };
        let mut n: N = v.into();
        n.tag = T[ch.dev(T.len())].into();
        n
    }
    let mut left = nodes;
    let n = go(ch, &mut left, 3, &mut 0);
    fn tg(n: &N, o: &mut String) {
        o.push_str(&n.tag);
        o.push('|');
        match &n.v {
            V::Seq(v) => v.iter().for_each(|n| tg(n, o)),
            V::Map(m) => m.iter().for_each(|(k, v)| {
                tg(k, o);
                tg(v, o)
            }),
            _ => {}
        }
    }
    let mut o = String::new();
    tg(&n, &mut o);
    if !ch.begin(|| format!("dump {} with the tags {o}", show(&n.v))) {
        return Ok(());
    }
    ch.state(hash_of(&n));
    ch.tally.validated += 1;
    let text = dump(&[build::<RcRepr>(&n)], &[]);
    let back = parse::<RcRepr>(&text).map_err(|e| format!("dumped as {text:?}, which is rejected: {e}"))?;
    same_docs(&back, &[n], TAGS).map_err(|e| format!("dumped as {text:?}: {e}"))?;
    ch.outcome("equal");
    Ok(())
}

pub fn c12() -> Prop {
    const TG: &[(&str, &str)] = &[("!t", "t"), ("!!str", "tag:yaml.org,2002:str"), ("!<x:y,z>", "x:y,z")];
    const LV: &[Leaf] = &[Leaf::Plain, Leaf::Literal, Leaf::Single, Leaf::Tilde, Leaf::Int];
    Prop {
        id: "C12",
        spaces: |t| {
            let base = |n, c| Cfg {
                nodes: n, depth: 3, anchors: true, aliases: true, cyclic: c, leaves: LV, flow_leaves: &[Leaf::Plain, Leaf::Tilde],
                keys: &[Key::Plain, Key::Explicit, Key::Flow, Key::BlockMap, Key::Single], flow_keys: &[Key::Plain, Key::Explicit], ..Cfg::default()
            };
            let mut v = vec![
                space("cyclic", "trees with anchors and tags anywhere and aliases to any finished or open anchor", if t { 4 } else { 3 }, Cfg { tags: TG, ..base(if t { 5 } else { 4 }, true) }, |ch, c| cyclic(ch, c, 1)),
                space("streams", "streams of at most two documents with anchors and aliases of their own", if t { 4 } else { 3 }, Cfg { keys: &[Key::Plain, Key::Flow], leaves: &[Leaf::Plain, Leaf::Literal], ..base(3, true) }, |ch, c| cyclic(ch, c, 2)),
                space("three", "streams of at most three smaller documents with anchors and aliases of their own", if t { 4 } else { 3 }, Cfg { keys: &[Key::Plain], leaves: &[Leaf::Plain], ..base(2, true) }, |ch, c| cyclic(ch, c, 3)),
                Space::new("many", "every number of anchors up to 300 with as many aliases, streams of up to 130 documents with anchors", |ch| {
                    let b = if ch.pick(2) == 0 { big::anchors(ch, 300, false) } else { big::docs(ch, 2, 130) };
                    big::dumped_anchors(ch, &b)
                }),
                space("direct", "trees with anchors anywhere and aliases to any finished anchor", 3, base(if t { 6 } else { 5 }, false), direct),
                Space::new("tags", "trees built by the interface with 21 tags on any node and key", move |ch| tags(ch, if t { 5 } else { 4 })).devs(if t { 3 } else { 2 }),
            ];
            v.extend(super::texts::spaces("whatever loads, of all texts", t, super::texts::dumped));
            v
        },
        oracle: "the tree, the tags and the table of anchors that were loaded or built",
        assumptions: &["anchor names and the aliases of a tree belong together; tags have no blanks and no angle brackets"],
    }
}
