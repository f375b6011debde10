//! All texts of few tokens, and what holds for whatever the loader accepts of them
//! (parts of C08, C10, C12).
use crate::engine::*;
use std::collections::BTreeSet;
use yaml_peg::{dump, parse, parse_cyclic, parser::Anchors, repr::RcRepr, NodeRc, Yaml};

pub const TOKENS: &[&str] = &["a", "\n", "- ", ": ", "  ", "? ", "[", "]", ", ", "{", "}", "&x ", "*x", "!t ", "\"", "&y ", "*y", "|\n", "#", "'b'", "\n---\n", "1", "\n- ", "c: ", "\n  "];
/// Fewer of them, for more anchors and aliases.
pub const REFS: &[&str] = &["b\n", "- ", "a: ", "&x ", "*x\n", "*y\n", "&y ", "[", "]\n", "*x, ", "&x b, ", "{", "}\n", "? ", ": ", "  "];
fn text(ch: &mut Ch, tokens: &[&str], max: usize) -> Option<String> {
    let mut t = String::new();
    for _ in 0..max {
        match ch.pick(tokens.len() + 1) {
            0 => break,
            i => t.push_str(tokens[i - 1]),
        }
    }
    (!t.is_empty()).then_some(t)
}
/// Nodes in the order of the text, keys in front of values, parents first or last.
fn walk<'a>(n: &'a NodeRc, last: bool, f: &mut dyn FnMut(&'a NodeRc) -> Result<(), String>) -> Result<(), String> {
    if !last {
        f(n)?;
    }
    match n.yaml() {
        Yaml::Seq(v) => v.iter().try_for_each(|n| walk(n, last, f))?,
        Yaml::Map(m) => m.iter().try_for_each(|(k, v)| walk(k, last, f).and_then(|()| walk(v, last, f)))?,
        _ => {}
    }
    if last {
        f(n)?;
    }
    Ok(())
}
fn is(a: &NodeRc, b: &NodeRc) -> bool {
    std::ptr::eq(a.yaml(), b.yaml())
}
/// An anchored node can be lost: it was the key or value of an entry that came again. A node can
/// have two anchors (not judged, not YAML).
fn lost(nodes: &[NodeRc], anchors: &[Anchors<RcRepr>]) -> bool {
    nodes.iter().zip(anchors).any(|(n, t)| {
        t.values().any(|a| {
            let mut found = false;
            let _ = walk(n, false, &mut |n| Ok(found |= is(n, a)));
            !found || t.values().filter(|b| is(a, b)).count() > 1
        })
    })
}

fn equal(a: &NodeRc, b: &NodeRc) -> Result<(), String> {
    if a.tag() != b.tag() {
        return Err(format!("the tag {:?} of {a:?} is {:?}", a.tag(), b.tag()));
    }
    match (a.yaml(), b.yaml()) {
        (Yaml::Seq(v), Yaml::Seq(w)) if v.len() == w.len() => v.iter().zip(w.iter()).try_for_each(|(a, b)| equal(a, b)),
        (Yaml::Map(v), Yaml::Map(w)) if v.len() == w.len() => v.iter().zip(w.iter()).try_for_each(|((k, a), (l, b))| equal(k, l).and_then(|()| equal(a, b))),
        (Yaml::Seq(_) | Yaml::Map(_), _) => Err(format!("{a:?} is {b:?}")),
        (y, z) if std::mem::discriminant(y) == std::mem::discriminant(z) && format!("{y:?}") == format!("{z:?}") => Ok(()),
        (y, z) => Err(format!("{y:?} is {z:?}")),
    }
}

/// C12: what was loaded is loaded again from its dump.
pub fn dumped(ch: &mut Ch, tokens: &[&str], max: usize) -> Result<(), String> {
    let Some(t) = text(ch, tokens, max) else { return Ok(()) };
    if !ch.begin(|| format!("load, dump and load {t:?}")) {
        return Ok(());
    }
    let Ok((nodes, anchors)) = parse_cyclic::<RcRepr>(&t) else { return Ok(ch.outcome("rejected")) };
    if lost(&nodes, &anchors) {
        return Ok(ch.outcome("an anchored node was replaced or has two anchors"));
    }
    ch.state(hash_of(&t));
    ch.tally.validated += 1;
    let d = dump(&nodes, &anchors);
    let (nodes2, anchors2) = parse_cyclic::<RcRepr>(&d).map_err(|e| format!("the dump {d:?} is rejected: {e}"))?;
    if nodes.len() != nodes2.len() {
        return Err(format!("{} documents are {} in the dump {d:?}", nodes.len(), nodes2.len()));
    }
    for (i, (a, b)) in nodes.iter().zip(&nodes2).enumerate() {
        equal(a, b).map_err(|e| format!("in the dump {d:?}: {e}"))?;
        let names = |t: &Anchors<RcRepr>| t.keys().cloned().collect::<Vec<_>>();
        if names(&anchors[i]) != names(&anchors2[i]) {
            return Err(format!("in the dump {d:?}: the anchors {:?} are {:?}", names(&anchors[i]), names(&anchors2[i])));
        }
        // an anchor stands at the same node: both trees in the same order
        let order = |n: &NodeRc, t: &Anchors<RcRepr>| {
            let mut v = vec![];
            let _ = walk(n, false, &mut |n| Ok(v.push(t.iter().filter(|(_, a)| is(a, n)).map(|(k, _)| k.clone()).collect::<Vec<_>>())));
            v
        };
        if order(a, &anchors[i]) != order(b, &anchors2[i]) {
            return Err(format!("in the dump {d:?}: an anchor is at another node"));
        }
    }
    let d2 = dump(&nodes2, &anchors2);
    if d != d2 {
        return Err(format!("the dump {d:?} is dumped as {d2:?}"));
    }
    Ok(ch.outcome("equal"))
}

/// C08: the direct mode accepts what defines all anchors in front of their aliases, and gives the
/// tree of the cyclic mode with the placeholders replaced.
pub fn resolved(ch: &mut Ch, tokens: &[&str], max: usize) -> Result<(), String> {
    let Some(t) = text(ch, tokens, max) else { return Ok(()) };
    if !ch.begin(|| format!("load {t:?} in both modes")) {
        return Ok(());
    }
    let direct = parse::<RcRepr>(&t);
    let Ok((nodes, anchors)) = parse_cyclic::<RcRepr>(&t) else {
        return match direct {
            Ok(v) => Err(format!("only the cyclic mode rejects {v:?}")),
            Err(_) => Ok(ch.outcome("rejected")),
        };
    };
    if lost(&nodes, &anchors) {
        return Ok(ch.outcome("an anchored node was replaced or has two anchors"));
    }
    ch.state(hash_of(&t));
    ch.tally.validated += 1;
    let mut aliases = 0;
    let mut bad = None;
    for (n, table) in nodes.iter().zip(&anchors) {
        let mut done: BTreeSet<&str> = BTreeSet::new();
        walk(n, true, &mut |n| {
            if let Yaml::Alias(a) = n.yaml() {
                aliases += 1;
                if !done.contains(a.as_str()) {
                    bad.get_or_insert(a.clone());
                }
                match (n.as_anchor(table), table.get(a)) {
                    (Ok(m), Some(w)) if is(m, w) => {}
                    (Err(p), None) if p == n.pos() => {}
                    (r, _) => return Err(format!("*{a} is resolved as {r:?}")),
                }
            }
            done.extend(table.iter().filter(|(_, m)| is(m, n)).map(|(k, _)| k.as_str()));
            Ok(())
        })?;
    }
    let direct = match (direct, bad) {
        (Err(_), Some(_)) => return Ok(ch.outcome("not in the direct mode")),
        // (an entry that came again, or a text that looks like an alias)
        (Err(_), None) if aliases < t.matches('*').count() => return Ok(ch.outcome("an alias was replaced")),
        (Err(e), None) => return Err(format!("the direct mode rejects it: {e}")),
        (Ok(v), Some(a)) => return Err(format!("*{a} is not defined in front, and the direct mode gives {v:?}")),
        (Ok(v), None) => v,
    };
    fn go(c: &NodeRc, d: &NodeRc, table: &Anchors<RcRepr>, at: bool) -> Result<(), String> {
        if let Yaml::Alias(a) = c.yaml() {
            return go(&table[a], d, table, false);
        }
        if at && (c.tag() != d.tag() || c.pos() != d.pos()) {
            return Err(format!("{c:?} has another tag or position in the direct mode"));
        }
        match (c.yaml(), d.yaml()) {
            (Yaml::Seq(v), Yaml::Seq(w)) if v.len() == w.len() => v.iter().zip(w.iter()).try_for_each(|(c, d)| go(c, d, table, true)),
            (Yaml::Map(v), Yaml::Map(w)) if v.len() == w.len() => v.iter().zip(w.iter()).try_for_each(|((k, c), (l, d))| go(k, l, table, true).and_then(|()| go(c, d, table, true))),
            // (the keys can be equal when they are replaced)
            (Yaml::Map(v), Yaml::Map(w)) if v.len() > w.len() && v.keys().any(|k| matches!(k.yaml(), Yaml::Alias(_))) => Ok(()),
            (Yaml::Seq(_) | Yaml::Map(_), _) => Err(format!("{c:?} is {d:?} in the direct mode")),
            (y, z) if std::mem::discriminant(y) == std::mem::discriminant(z) && format!("{y:?}") == format!("{z:?}") => Ok(()),
            (y, z) => Err(format!("{y:?} is {z:?} in the direct mode")),
        }
    }
    if direct.len() != nodes.len() {
        return Err(format!("{} documents are {} in the direct mode", nodes.len(), direct.len()));
    }
    for ((c, d), t) in nodes.iter().zip(&direct).zip(&anchors) {
        go(c, d, t, true)?;
    }
    Ok(ch.outcome(if aliases > 0 { "resolved" } else { "no alias" }))
}

/// C10: where a node is said to start there is what starts such a node.
pub fn places(ch: &mut Ch, tokens: &[&str], max: usize) -> Result<(), String> {
    let Some(t) = text(ch, tokens, max) else { return Ok(()) };
    if !ch.begin(|| format!("positions of {t:?}")) {
        return Ok(());
    }
    let Ok((nodes, _)) = parse_cyclic::<RcRepr>(&t) else { return Ok(ch.outcome("rejected")) };
    ch.state(hash_of(&t));
    ch.tally.validated += 1;
    /// The next token behind a gap.
    fn token(mut s: &str) -> &str {
        loop {
            s = s.trim_start();
            if !s.starts_with('#') {
                return s;
            }
            s = s.find('\n').map_or("", |i| &s[i..]);
        }
    }
    let here = |n: &NodeRc| {
        let p = n.pos() as usize;
        let bad = |what: &str| Err(format!("{n:?} is said to start at {p}, {what}"));
        if p > t.len() {
            return bad("behind the end");
        }
        let s = &t[p..];
        let ok = match n.yaml() {
            Yaml::Null => true,
            Yaml::Str(v) => s.starts_with(['"', '\'', '|']) || (!v.is_empty() && s.starts_with(v.split(char::is_whitespace).next().unwrap())),
            Yaml::Int(v) | Yaml::Float(v) => s.starts_with(v.as_str()),
            Yaml::Bool(_) => s.starts_with(['t', 'f', 'T', 'F']),
            Yaml::Alias(a) => s.starts_with(&format!("*{a}")),
            Yaml::Seq(_) => s.starts_with('[') || token(s).starts_with('-'),
            Yaml::Map(m) => {
                // (the first key is another one if it came again)
                let key = |k: &NodeRc| t.len() - token(s).len() == k.pos() as usize || k.as_str().map_or(false, |k| !k.is_empty() && token(s).starts_with(k));
                s.starts_with('{') || token(s).starts_with(['?', ':', '&', '!']) || m.keys().any(key)
            }
        };
        if ok {
            Ok(())
        } else {
            bad(&format!("there is {s:?}"))
        }
    };
    /// Parents first, then the items in their order. The last position is returned.
    fn order(n: &NodeRc, here: &dyn Fn(&NodeRc) -> Result<(), String>) -> Result<u64, String> {
        here(n)?;
        let mut last = n.pos();
        let mut next = |n: &NodeRc, first: u64| -> Result<u64, String> {
            let end = order(n, here)?;
            // (an empty value may be anywhere in its gap)
            if n.pos() < first && !matches!(n.yaml(), Yaml::Null) {
                return Err(format!("{n:?} is said to start at {}, in front of the node before it", n.pos()));
            }
            Ok(last = last.max(end)).map(|()| end)
        };
        match n.yaml() {
            Yaml::Seq(v) => drop(v.iter().try_fold(n.pos(), |p, n| next(n, p))?),
            // (the entries have another order if a key came again)
            Yaml::Map(m) => m.iter().try_for_each(|(k, v)| next(k, n.pos()).and_then(|p| next(v, p)).map(drop))?,
            _ => {}
        }
        Ok(last)
    }
    nodes.iter().try_fold(0, |p, n| if n.pos() < p { Err(format!("{n:?} starts in front of the document before it")) } else { order(n, &here) })?;
    Ok(ch.outcome("places"))
}

/// Both sets of tokens for a judgement.
pub fn spaces(what: &str, thorough: bool, run: fn(&mut Ch, &[&str], usize) -> Result<(), String>) -> [Space; 2] {
    let (n, m) = if thorough { (6, 7) } else { (5, 6) };
    [
        Space::new("texts", format!("{what} of at most {n} of {TOKENS:?}"), move |ch| run(ch, TOKENS, n)),
        Space::new("references", format!("{what} of at most {m} of {REFS:?}"), move |ch| run(ch, REFS, m)),
    ]
}
