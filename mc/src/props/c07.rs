//! C07 and C08: anchors and aliases in the direct and the cyclic mode. C09: tags.
use super::{big, Prop};
use crate::{doc::*, engine::*, util::*};
use yaml_peg::{
    parse, parse_cyclic,
    parser::Loader,
    repr::{RcRepr, Repr},
    Node, Yaml,
};

/// Nodes of the tree in document order.
pub fn nodes<'n, R: Repr>(n: &'n Node<R>, v: &mut Vec<&'n Node<R>>) {
    v.push(n);
    match n.yaml() {
        Yaml::Seq(s) => s.iter().for_each(|n| nodes(n, v)),
        Yaml::Map(m) => m.iter().for_each(|(a, b)| {
            nodes(a, v);
            nodes(b, v)
        }),
        _ => {}
    }
}

/// A stream of at most `docs` documents: text, trees, anchors of each, is there an alias?
fn stream(ch: &mut Ch, cfg: &Cfg, docs: usize) -> (String, Vec<N>, Vec<Vec<(String, N)>>, bool) {
    let mut w = Writer::new(ch, cfg);
    let (mut want, mut anchors) = (vec![], vec![]);
    loop {
        w.next_doc();
        want.push(w.block(At::Root, 0, cfg.depth));
        anchors.push(w.anchors.clone());
        if want.len() == docs || docs > 1 && w.ch.pick(2) == 0 {
            break;
        }
        w.out.push_str("---\n");
    }
    (w.out, want, anchors, w.used_alias)
}
fn direct(ch: &mut Ch, cfg: &Cfg, docs: usize) -> Result<(), String> {
    let (text, want, anchors, used) = stream(ch, cfg, docs);
    if !used {
        return Ok(());
    }
    if !ch.begin(|| format!("load {text:?}")) {
        return Ok(());
    }
    ch.state(hash_of(&text));
    ch.tally.validated += 1;
    let got = parse::<RcRepr>(&text).map_err(|e| format!("rejected: {e}"))?;
    same_docs(&got, &want, VALUE)?;
    let mut l = Loader::<RcRepr>::new(text.as_bytes());
    let root = l.parse().map_err(|e| format!("rejected by the loader: {e}"))?;
    let t = l.get_anchors();
    if t.len() != want.len() {
        return Err(format!("{} anchor tables", t.len()));
    }
    for (i, (t, anchors)) in t.iter().zip(&anchors).enumerate() {
        same_anchors(t, anchors, VALUE)?;
        // no placeholder is left, and an alias shares the data of its anchor instead of copying it
        let mut v = vec![];
        nodes(&root[i], &mut v);
        let doc = text.split("---\n").nth(i).unwrap_or("");
        for (k, a) in t {
            let shared = v.iter().filter(|n| std::ptr::eq(n.yaml(), a.yaml())).count();
            let refs = doc.matches(&format!("*{k}")).count();
            if shared < 1 + refs {
                return Err(format!("{shared} nodes share the data of anchor {k}, expected at least {}", 1 + refs));
            }
        }
    }
    ch.outcome(if want.len() > 1 { "stream" } else if matches!(want[0].v, V::Seq(_)) { "sequence" } else { "map" });
    Ok(())
}

fn cyclic(ch: &mut Ch, cfg: &Cfg, docs: usize) -> Result<(), String> {
    let (text, want, anchors, used) = stream(ch, cfg, docs);
    if anchors.is_empty() && !used {
        return Ok(());
    }
    if !ch.begin(|| format!("load {text:?}")) {
        return Ok(());
    }
    ch.state(hash_of(&text));
    ch.tally.validated += 1;
    let (root, t) = parse_cyclic::<RcRepr>(&text).map_err(|e| format!("rejected: {e}"))?;
    same_docs(&root, &want, ALL)?;
    if t.len() != want.len() {
        return Err(format!("{} anchor tables", t.len()));
    }
    for (i, (t, anchors)) in t.iter().zip(&anchors).enumerate() {
        same_anchors(t, anchors, ALL)?;
        // the recorded node is the node of the tree, and placeholders resolve through the table
        let mut v = vec![];
        nodes(&root[i], &mut v);
        for (k, a) in t {
            if !v.iter().any(|n| std::ptr::eq(n.yaml(), a.yaml())) {
                return Err(format!("anchor {k} is not a node of the tree"));
            }
        }
        for n in &v {
            match n.yaml() {
                Yaml::Alias(a) => {
                    let r = n.as_anchor(t).map_err(|_| format!("alias {a} does not resolve"))?;
                    if !std::ptr::eq(r.yaml(), t[a].yaml()) {
                        return Err(format!("alias {a} resolves to another node"));
                    }
                    if !n.tag().is_empty() {
                        return Err(format!("alias {a} has the tag {}", n.tag()));
                    }
                }
                _ => {
                    let r = n.as_anchor(t).map_err(|_| "a plain node does not resolve to itself".to_string())?;
                    if !std::ptr::eq(r, *n) {
                        return Err("a plain node resolves to another node".into());
                    }
                }
            }
        }
    }
    ch.outcome(if used { "with placeholders" } else { "anchors only" });
    Ok(())
}

/// Aliases before their anchors, undefined ones and duplicated definitions, in both modes.
fn misuse(ch: &mut Ch) -> Result<(), String> {
    const ITEM: &[(&str, u8)] = &[("&x a", 1), ("*x", 2), ("*y", 3), ("&y b", 4), ("c", 0), ("&x [*x ]", 5), ("&x {k: &y d}", 6)];
    let n = 2 + ch.pick(2);
    let flow = ch.flip();
    let items: Vec<_> = (0..n).map(|_| *ch.of(ITEM)).collect();
    let text = if flow {
        format!("[{} ]", items.iter().map(|i| i.0).collect::<Vec<_>>().join(" , "))
    } else if ch.flip() {
        items.iter().map(|i| format!("- {}\n", i.0)).collect::<String>()
    } else {
        items.iter().enumerate().map(|(k, i)| format!("k{k}: {}\n", i.0)).collect::<String>()
    };
    if !ch.begin(|| format!("load {text:?} in both modes")) {
        return Ok(());
    }
    ch.state(hash_of(&text));
    ch.tally.validated += 1;
    // reference: walk the definitions in order
    let (mut x, mut y, mut dup, mut undef, mut late) = (false, false, false, false, vec![]);
    for i in &items {
        match i.1 {
            1 => { dup |= x; x = true }
            2 => { undef |= !x; late.push('x') }
            3 => { undef |= !y; late.push('y') }
            4 => { dup |= y; y = true }
            5 => { undef |= !x; dup |= x; x = true; }
            6 => { dup |= x || y; x = true; y = true }
            _ => {}
        }
    }
    let d = parse::<RcRepr>(&text);
    let c = parse_cyclic::<RcRepr>(&text);
    ch.outcome(match (dup, undef) { (true, _) => "duplicated definition", (_, true) => "alias without definition", _ => "well formed" });
    match d {
        Ok(v) if dup || undef => return Err(format!("direct mode accepts it: {v:?}")),
        Err(e) if !dup && !undef => return Err(format!("direct mode rejects it: {e}")),
        _ => {}
    }
    match c {
        Ok((v, _)) if dup => Err(format!("cyclic mode accepts it: {v:?}")),
        Err(e) if !dup => Err(format!("cyclic mode rejects it: {e}")),
        _ => Ok(()),
    }
}

/// Anchors in front of aliases: YAML does not allow them, so they are rejected, or they are anchors
/// of the aliased value.
fn chains(ch: &mut Ch) -> Result<(), String> {
    const VALUE: &[&str] = &["v", "[v, w]", "{k: v}", "'q'"];
    let n = 1 + ch.pick(3);
    let value = *ch.of(VALUE);
    // each link refers to any earlier name; each name is used at the end
    let to: Vec<usize> = (1..=n).map(|i| ch.pick(i)).collect();
    let form = ch.pick(3);
    let mut items = vec![format!("&n0 {value}")];
    items.extend(to.iter().enumerate().map(|(i, t)| format!("&n{} *n{t} ", i + 1)));
    items.extend((0..=n).map(|i| format!("*n{i} ")));
    let text = match form {
        0 => items.iter().map(|i| format!("- {i}\n")).collect::<String>(),
        1 => format!("[{}]\n", items.join(", ")),
        _ => items.iter().map(|i| format!("-\n  - {i}\n")).collect::<String>(),
    };
    if !ch.begin(|| format!("load {text:?} in both modes")) {
        return Ok(());
    }
    ch.state(hash_of(&text));
    ch.tally.validated += 1;
    fn item<R: Repr>(root: &Node<R>, i: usize, form: usize) -> Option<&Node<R>> {
        let x = root.get_ind(yaml_peg::Ind(i)).ok()?;
        if form == 2 { x.get_ind(yaml_peg::Ind(0)).ok() } else { Some(x) }
    }
    let mut l = Loader::<RcRepr>::new(text.as_bytes());
    let (Ok(v), Ok((c, ct))) = (l.parse(), parse_cyclic::<RcRepr>(&text)) else {
        return Ok(ch.outcome("rejected"));
    };
    let t = &l.get_anchors()[0];
    let first = item(&v[0], 0, form).ok_or("no first item")?;
    for i in 0..=n {
        let name = format!("n{i}");
        let a = t.get(&name).ok_or(format!("anchor {name} is not recorded"))?;
        let u = item(&v[0], n + 1 + i, form).ok_or("items are lost")?;
        if !std::ptr::eq(a.yaml(), first.yaml()) || !std::ptr::eq(u.yaml(), first.yaml()) {
            return Err(format!("{name} is {a:?} and {u:?} instead of {first:?}"));
        }
        let a = ct[0].get(&name).ok_or(format!("anchor {name} is not recorded in the cyclic mode"))?;
        let want = if i == 0 { first.yaml().clone() } else { Yaml::Alias(format!("n{}", to[i - 1])) };
        if a.yaml() != &want {
            return Err(format!("{name} is {a:?} instead of {want:?} in the cyclic mode"));
        }
        let u = item(&c[0], n + 1 + i, form).ok_or("items are lost in the cyclic mode")?;
        if u.yaml() != &Yaml::Alias(name.clone()) || !u.as_anchor(&ct[0]).is_ok_and(|r| std::ptr::eq(r, a)) {
            return Err(format!("the alias of {name} is {u:?} in the cyclic mode"));
        }
    }
    ch.outcome("accepted");
    Ok(())
}

const L2: &[Leaf] = &[Leaf::Plain, Leaf::Literal, Leaf::Single, Leaf::Int];
fn base(nodes: usize, depth: usize, cyclic: bool) -> Cfg {
    Cfg { nodes, depth, anchors: true, aliases: true, cyclic, leaves: L2, flow_leaves: &[Leaf::Plain, Leaf::Single], keys: &[Key::Plain, Key::Explicit, Key::Flow, Key::Bare], pairs: true, next_line: true, flow_keys: &[Key::Plain, Key::Explicit], ..Cfg::default() }
}
pub fn c07() -> Prop {
    Prop {
        id: "C07",
        spaces: |t| {
            let mut v = vec![
            space("trees", "trees with anchors on any node or key and aliases to any finished anchor", if t { 4 } else { 3 }, base(if t { 6 } else { 5 }, 3, false), |ch, c| direct(ch, c, 1)),
            space("streams", "streams of at most two documents with anchors and aliases of their own", if t { 4 } else { 3 }, Cfg { leaves: &[Leaf::Plain, Leaf::Int], flow_leaves: &[Leaf::Plain], ..base(if t { 4 } else { 3 }, 2, false) }, |ch, c| direct(ch, c, 2)),
            space("three", "streams of at most three smaller documents with anchors and aliases of their own", if t { 4 } else { 3 }, Cfg { keys: &[Key::Plain], leaves: &[Leaf::Plain], flow_leaves: &[Leaf::Plain], ..base(2, 2, false) }, |ch, c| direct(ch, c, 3)),
            Space::new("aliased aliases", "anchors of aliases, in chains of at most four, both modes", chains),
            Space::new("misuse", "every order of two or three definitions and uses, flow and block, both modes", misuse),
            Space::new("many", "every number of anchors up to 300, four kinds of nodes, their aliases in three orders", |ch| { let b = big::anchors(ch, 300, true); big::shared(ch, &b) }),
            ];
            v.extend(super::texts::spaces("both modes for all texts", t, super::texts::resolved));
            v
        },
        oracle: "the tree the writer rendered with every alias replaced by the anchored value; the alias shares the anchored data; undefined and duplicated anchors are errors",
        assumptions: &["the tag of an alias node is not compared, its value is"],
    }
}
pub fn c08() -> Prop {
    Prop {
        id: "C08",
        spaces: |t| {
            let mut v = vec![
            space("trees", "trees with anchors on any node or key and aliases to any finished or still open anchor", if t { 4 } else { 3 }, base(if t { 6 } else { 5 }, 3, true), |ch, c| cyclic(ch, c, 1)),
            space("streams", "streams of at most two documents with anchors and aliases of their own", if t { 4 } else { 3 }, Cfg { leaves: &[Leaf::Plain, Leaf::Int], flow_leaves: &[Leaf::Plain], ..base(if t { 4 } else { 3 }, 2, true) }, |ch, c| cyclic(ch, c, 2)),
            space("three", "streams of at most three smaller documents with anchors and aliases of their own", if t { 4 } else { 3 }, Cfg { keys: &[Key::Plain], leaves: &[Leaf::Plain], flow_leaves: &[Leaf::Plain], ..base(2, 2, true) }, |ch, c| cyclic(ch, c, 3)),
            Space::new("aliased aliases", "anchors of aliases, in chains of at most four, both modes", chains),
            Space::new("misuse", "every order of two or three definitions and uses, flow and block, both modes", misuse),
            Space::new("many", "every number of anchors up to 300, four kinds of nodes, their aliases in three orders; streams of up to 150 documents", |ch| {
                let b = if ch.flip() { big::anchors(ch, 300, false) } else { big::docs(ch, 2, 150) };
                big::cyclic(ch, &b, TAGS)
            }),
            ];
            v.extend(super::texts::spaces("both modes for all texts", t, super::texts::resolved));
            v
        },
        oracle: "the tree the writer rendered with placeholders, and the table of anchored nodes; placeholders resolve to the node of the tree",
        assumptions: &[],
    }
}

// ------------------------------------------------------------------ tags
const TAGSET: &[(&str, &str)] = &[
    ("!t", "t"),
    ("!!str", "tag:yaml.org,2002:str"),
    ("!!a-b9", "tag:yaml.org,2002:a-b9"),
    ("!<v:w/x,y>", "v:w/x,y"),
    ("!", ""),
    ("!<a#b;c/?:@&=+$,_.~*'()[]%20!->", "a#b;c/?:@&=+$,_.~*'()[]%20!-"),
];
fn tags(ch: &mut Ch, cfg: &Cfg) -> Result<(), String> {
    let (text, want) = {
        let mut w = Writer::new(ch, cfg);
        let n = w.block(At::Root, 0, cfg.depth);
        (w.out, n)
    };
    if !text.contains('!') {
        return Ok(());
    }
    load_eq(ch, &text, &[want], TAGS)
}
/// Directives give prefixes to handles, for the documents of the stream.
fn handles(ch: &mut Ch) -> Result<(), String> {
    // handle, prefix; the later definition of a handle is not enumerated
    const DIR: &[(&str, &str)] = &[("!u-i!", "a#b;c/?:@&=+$,_.~*'()[]%20!-"), ("!e!", "tag:e.org,2000:"), ("!!", "tag:p:"), ("!", "!local-"), ("!long9-a!", "L"), ("!e!", "x")];
    const USE: &[(&str, &str, &str)] = &[
        ("!e!foo", "!e!", "foo"),
        ("!!foo", "!!", "foo"),
        ("!foo", "!", "foo"),
        ("!long9-a!b-c", "!long9-a!", "b-c"),
        ("!<foo:bar>", "", "foo:bar"),
        ("!u!foo", "!u!", "foo"),
        ("!u-i!z", "!u-i!", "z"),
        ("!u-i!", "!u-i!", ""),
        ("!<a#b;c/?:@&=+$,_.~*'()[]%20!->", "", "a#b;c/?:@&=+$,_.~*'()[]%20!-"),
        ("!!e", "!!", "e"),
        ("!e", "!", "e"),
    ];
    let mut table = vec![("!", String::new()), ("!!", CORE.to_string()), ("", String::new())];
    let mut text = String::new();
    let n = ch.pick(3);
    for i in 0..n {
        let (h, p) = *ch.of(DIR);
        if table.iter().skip(3).any(|t| t.0 == h) {
            return Ok(());
        }
        if i == 1 && ch.flip() {
            text.push_str("%FOO bar\n");
        }
        if ch.flip() {
            text.push_str("%YAML 1.2\n");
            if text.matches("%YAML").count() > 1 {
                return Ok(());
            }
        }
        text.push_str(&format!("%TAG {h} {p}{}", *ch.of(&["\n", " # c\n", "  \n"])));
        table.push((h, p.to_string()));
    }
    let (u, h, suffix) = *ch.of(USE);
    let (a, b, path) = *ch.of(&[("", " a\n", ""), ("k: ", " a\n", "v"), ("- b\n- ", "\n  - a\n", "1"), ("{b: ", " a}\n", "v"), ("? ", " a\n: b\n", "k"), ("[", " 'a']\n", "0"), ("k: &x ", " [a]\n", "v"), ("k: ", " &x\n  a: b\n", "v"), ("k:\n  ", " a: b\n", "vk"), ("a\n---\n", " a\n", ""), ("a\n---\nb\n...\n---\n- ", " a\n", "0")]);
    text.push_str(if n > 0 || ch.flip() { "---\n" } else { "" });
    text.push_str(&format!("{a}{u}{b}"));
    let expect = table.iter().rev().find(|t| t.0 == h).map(|t| format!("{}{suffix}", t.1));
    if !ch.begin(|| format!("load {text:?}")) {
        return Ok(());
    }
    ch.state(hash_of(&text));
    ch.tally.validated += 1;
    match (parse::<RcRepr>(&text), expect) {
        (Ok(v), Some(e)) => {
            let n = super::c02::walk(v.last().unwrap(), path).ok_or_else(|| format!("structure lost: {v:?}"))?;
            ch.outcome("resolved");
            if n.tag() == e { Ok(()) } else { Err(format!("tag {:?}, expected {e:?}", n.tag())) }
        }
        (Err(_), None) => Ok(ch.outcome("undefined handle rejected")),
        (Ok(v), None) => Err(format!("an undefined handle is accepted: {v:?}")),
        (Err(e), Some(_)) => Err(format!("rejected: {e}")),
    }
}
/// Many handles and long ones, each of them used.
fn many_tags(ch: &mut Ch) -> Result<(), String> {
    let n = 1 + ch.pick(200);
    let form = ch.pick(4);
    let (mut text, mut body, mut want) = (String::new(), String::new(), vec![]);
    let m = if form < 2 { n } else { 2 };
    for i in 0..m {
        let (h, p, x) = match form {
            0 | 1 => (format!("!h{i}!"), format!("p{i}:"), format!("s{i}")),
            2 => (format!("!{}{i}!", "h".repeat(n)), format!("p{i}"), "s".into()),
            _ => (format!("!h{i}!"), format!("{}{i}:", "p".repeat(n)), "s".repeat(n)),
        };
        text.push_str(&format!("%TAG {h} {p}\n"));
        body.push_str(&format!("- {h}{x} a\n- !{x} b\n"));
        want.push(format!("{p}{x}"));
        want.push(x);
    }
    if form == 1 {
        // the first one again, behind the others
        body.push_str("- !h0!z a\n");
        want.push("p0:z".into());
    }
    text.push_str("---\n");
    text.push_str(&body);
    if !ch.begin(|| format!("load {text:?}")) {
        return Ok(());
    }
    ch.state(hash_of(&text));
    ch.tally.validated += 1;
    let v = parse::<RcRepr>(&text).map_err(|e| format!("rejected: {e}"))?;
    let got: Vec<String> = v[0].as_seq().map_err(|_| "not a sequence")?.iter().map(|n| n.tag().to_string()).collect();
    ch.outcome("resolved");
    match got.iter().zip(&want).position(|(a, b)| a != b) {
        None if got.len() == want.len() => Ok(()),
        i => Err(format!("item {i:?} of {}: {:?}", got.len(), i.map(|i| (&got[i], &want[i])))),
    }
}
pub fn c09() -> Prop {
    Prop {
        id: "C09",
        spaces: |t| vec![
            space("trees", "trees with tags in front of any node or key, with and without an anchor", if t { 4 } else { 3 },
                Cfg { nodes: if t { 5 } else { 4 }, tags: TAGSET, anchors: true, leaves: L2, flow_leaves: &[Leaf::Plain, Leaf::Single, Leaf::Tilde], keys: &[Key::Plain, Key::Explicit], flow_keys: &[Key::Plain, Key::Explicit], pairs: true, next_line: true, ..Cfg::default() }, tags),
            Space::new("handles", "every pair of tag directives with every use of a handle in eleven positions of one or more documents", handles),
            Space::new("many", "every number of tag directives and tagged items up to 200, handles and suffixes of every length up to 200", many_tags),
        ],
        oracle: "the tag spelled or resolved through the directive table, the default tag of the type otherwise",
        assumptions: &["tag suffixes are letters, digits and dashes"],
    }
}
