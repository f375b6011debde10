//! C13: equality, hashing and lookup. C14: typed views, navigation and construction.
//! C15: sharing of clones. C16: both holders behave alike.
use super::{big, chars, Prop};
use crate::{doc::*, engine::*, util::*};
use std::collections::HashSet;
use std::{rc::Rc, sync::Arc};
use yaml_peg::{
    dump, node, parse, parse_cyclic,
    parser::{Anchors, Loader},
    repr::{ArcRepr, RcRepr},
    Ind, Node, NodeArc, NodeRc, Yaml, YamlArc, YamlRc,
};

// ------------------------------------------------------------------ a universe of nodes
pub fn leaves() -> Vec<V> {
    let mut v = vec![V::Null, V::Bool(true), V::Bool(false)];
    for t in ["0", "1", "01", "+1", "-1", "0x1", "0o1", "0x1F", "31", "0o37", "-0", "9223372036854775807", "9223372036854775808", "0x8000000000000000", "18446744073709551616", "170141183460469231731687303715884105727", "170141183460469231731687303715884105728", "0xffffffffffffffffffffffffffffffffff", "340282366920938463463374607431768211456"] {
        v.push(V::Int(t.into()));
    }
    for t in ["0", "-0", "1", "1.0", "1e0", "10e-1", "+1", "NaN", "nan", "-nan", "inf", "-inf", "1e400", "0.1", "1e-400", "9007199254740993", "9007199254740992"] {
        v.push(V::Float(t.into()));
    }
    for t in ["", "1", "a", "A", "b", "null", "true", "NaN"] {
        v.push(V::Str(t.into()));
    }
    for t in ["a", "A", "1", ""] {
        v.push(V::Alias(t.into()));
    }
    v
}
/// What two nodes must share to be equal, written out by hand.
pub fn canon(v: &V) -> String {
    let int = |t: &str| -> Option<i128> {
        let (neg, b) = match t.as_bytes()[0] {
            b'-' => (true, &t[1..]),
            b'+' => (false, &t[1..]),
            _ => (false, t),
        };
        let (d, r) = if let Some(d) = b.strip_prefix("0x") { (d, 16) } else if let Some(d) = b.strip_prefix("0o") { (d, 8) } else { (b, 10) };
        let mut n: i128 = 0;
        for c in d.chars() {
            let c = c.to_digit(r)? as i128;
            n = n.checked_mul(r as i128)?.checked_add(if neg { -c } else { c })?;
        }
        Some(n)
    };
    match v {
        V::Null => "null".into(),
        V::Bool(b) => format!("b{b}"),
        V::Int(t) => match int(t) {
            Some(n) => format!("i{n}"),
            None => format!("it{t}"),
        },
        V::Float(t) => {
            let f: f64 = t.parse().unwrap();
            if f.is_nan() {
                "fnan".into()
            } else if f == 0.0 {
                "f0".into()
            } else {
                format!("f{:x}", f.to_bits())
            }
        }
        V::Str(t) => format!("s{t:?}"),
        V::Alias(t) => format!("a{t:?}"),
        V::Seq(v) => format!("[{}]", v.iter().map(|n| canon(&n.v) + ",").collect::<String>()),
        V::Map(m) => format!("{{{}}}", m.iter().map(|(k, v)| format!("{}={},", canon(&k.v), canon(&v.v))).collect::<String>()),
    }
}
/// Any value with at most `left` nodes; collections of a small set of leaves.
fn value(ch: &mut Ch, all: &[V], depth: usize) -> V {
    let small = [V::Null, V::Int("1".into()), V::Int("0x1".into()), V::Float("1".into()), V::Str("1".into()), V::Float("NaN".into())];
    value_of(ch, all, &small, depth)
}
fn value_of(ch: &mut Ch, all: &[V], small: &[V], depth: usize) -> V {
    let n = all.len() + if depth > 0 { 8 } else { 0 };
    let c = ch.pick(n);
    if c < all.len() {
        return all[c].clone();
    }
    let sub = |ch: &mut Ch| -> N { value_of(ch, small, small, depth - 1).into() };
    match c - all.len() {
        0 => V::Seq(vec![]),
        1 => V::Map(vec![]),
        2 => V::Seq(vec![sub(ch)]),
        3 => V::Seq(vec![sub(ch), sub(ch)]),
        4 => V::Map(vec![(sub(ch), s("v"))]),
        5 => V::Map(vec![(s("k"), sub(ch))]),
        6 => V::Map(vec![(s("k"), sub(ch)), (s("l"), V::Null.into())]),
        _ => V::Map(vec![(s("l"), V::Null.into()), (s("k"), sub(ch))]),
    }
}
fn mk<R: yaml_peg::repr::Repr>(v: &V, pos: u64, tag: &str) -> Node<R> {
    let n = build::<R>(&v.clone().into());
    Node::new_repr(n.clone_yaml(), pos, tag)
}

fn pairs(ch: &mut Ch, depth: usize) -> Result<(), String> {
    let all = leaves();
    let (a, b) = (value(ch, &all, depth), value(ch, &all, depth));
    compare(ch, a, b)
}
fn nested(ch: &mut Ch) -> Result<(), String> {
    let all = [V::Int("1".into()), V::Int("0x1".into()), V::Str("1".into())];
    let (a, b) = (value_of(ch, &all, &all, 2), value_of(ch, &all, &all, 2));
    compare(ch, a, b)
}
fn compare(ch: &mut Ch, a: V, b: V) -> Result<(), String> {
    if !ch.begin(|| format!("compare {} with {}", show(&a), show(&b))) {
        return Ok(());
    }
    let want = canon(&a) == canon(&b);
    ch.state(hash_of(&(canon(&a), canon(&b))));
    ch.tally.validated += 1;
    let (x, y): (NodeRc, NodeRc) = (mk(&a, 1, ""), mk(&b, 2, "t"));
    if x != x.clone() || *x.yaml() != x.yaml().clone() {
        return Err("not equal to itself".into());
    }
    if (x == y) != want || (y == x) != want || (x.yaml() == y.yaml()) != want || (*x.rc_ref() == *y.rc_ref()) != want || (x != y) == want {
        return Err(format!("equal: {}, {}; expected {want}", x == y, y == x));
    }
    if want && (hash_of(&x) != hash_of(&y) || hash_of(x.yaml()) != hash_of(y.yaml()) || hash_of(x.rc_ref()) != hash_of(&x)) {
        return Err("equal, but with different hashes".into());
    }
    // as keys
    let set: HashSet<NodeRc> = [x.clone(), y.clone()].into_iter().collect();
    if (set.len() == 1) != want {
        return Err(format!("a set of both has {} elements", set.len()));
    }
    let m: NodeRc = [(x.clone(), NodeRc::from("v"))].into_iter().collect();
    if m.get(y.clone()).is_ok() != want || m.as_map().map_or(true, |m| m.contains_key(&y) != want) {
        return Err(format!("lookup of the second under the first: {:?}", m.get(y.clone())));
    }
    ch.outcome(if want { "equal" } else { "different" });
    Ok(())
}

/// Every two short texts as data of each kind that has a text.
fn text_pairs(ch: &mut Ch, max: usize) -> Result<(), String> {
    const CS: &[char] = &['a', 'A', 'b', ' ', '\0', '\n', 'é', 'É', '0', '-'];
    let word = |ch: &mut Ch| -> String {
        let mut w = String::new();
        for _ in 0..max {
            let c = ch.pick(CS.len() + 1);
            if c == 0 {
                break;
            }
            w.push(CS[c - 1]);
        }
        w
    };
    let kind = ch.pick(3);
    let (a, b) = (word(ch), word(ch));
    let mk = |t: &str| match kind {
        0 => V::Str(t.into()),
        1 => V::Alias(t.into()),
        _ => V::Map(vec![(s(t), s(t))]),
    };
    let (a, b) = (mk(&a), mk(&b));
    compare(ch, a, b)
}

/// Maps made of every sequence of pairs, against an association list.
fn maps(ch: &mut Ch, max: usize) -> Result<(), String> {
    let keys = [V::Null, V::Str("1".into()), V::Int("1".into()), V::Int("0x1".into()), V::Float("1".into()), V::Float("1e0".into()), V::Float("nan".into()), V::Float("NaN".into()), V::Seq(vec![V::Int("1".into()).into()]), V::Seq(vec![V::Int("+1".into()).into()]), V::Map(vec![(s("k"), V::Float("0".into()).into())]), V::Map(vec![(s("k"), V::Float("-0".into()).into())])];
    let n = ch.pick(max + 1);
    let ks: Vec<usize> = (0..n).map(|_| ch.pick(keys.len())).collect();
    if !ch.begin(|| format!("map of the keys {:?}", ks.iter().map(|k| show(&keys[*k])).collect::<Vec<_>>())) {
        return Ok(());
    }
    ch.state(hash_of(&ks));
    ch.tally.validated += 1;
    // reference: the last value of equal keys, at the place of the last one
    let mut want: Vec<(String, String)> = vec![];
    for (i, k) in ks.iter().enumerate() {
        let c = canon(&keys[*k]);
        want.retain(|w| w.0 != c);
        want.push((c, format!("v{i}")));
    }
    let pairs = || ks.iter().enumerate().map(|(i, k)| (mk::<RcRepr>(&keys[*k], i as u64, ""), NodeRc::from(format!("v{i}"))));
    let a: NodeRc = pairs().collect();
    let b: YamlRc = pairs().collect();
    let c: NodeRc = pairs().collect::<yaml_peg::Map<RcRepr>>().into();
    for (w, y) in [("a node", a.yaml()), ("data", &b), ("a map", c.yaml())] {
        let Yaml::Map(m) = y else { return Err("not a map".into()) };
        let got: Vec<_> = m.iter().map(|(k, v)| (canon(&read(k).v), v.as_str().unwrap_or("?").to_string())).collect();
        if got != want {
            return Err(format!("collected into {w}: {got:?}, expected {want:?}"));
        }
    }
    for k in &keys {
        let w = want.iter().find(|w| w.0 == canon(k)).map(|w| w.1.as_str());
        let g = a.get(mk::<RcRepr>(k, 99, "t")).ok().map(|n| n.as_str().unwrap());
        if g != w {
            return Err(format!("get {} gives {g:?}, expected {w:?}", show(k)));
        }
    }
    // loaded from text with duplicated keys: the same rule
    let flow = format!("{{{}}}", ks.iter().enumerate().map(|(i, k)| format!("? {} : v{i}", text(&keys[*k]))).collect::<Vec<_>>().join(", "));
    if ks.iter().all(|k| !matches!(keys[*k], V::Seq(_) | V::Map(_))) {
        let l = parse::<RcRepr>(&flow).map_err(|e| format!("{flow:?} is rejected: {e}"))?;
        let got: Vec<_> = l[0].as_map().map_err(|_| "not a map")?.iter().map(|(k, v)| (canon(&read(k).v), v.as_str().unwrap_or("?").to_string())).collect();
        if got != want {
            return Err(format!("loaded from {flow:?}: {got:?}, expected {want:?}"));
        }
    }
    ch.outcome(if want.len() == n { "distinct keys" } else { "equal keys" });
    Ok(())
}
fn text(v: &V) -> String {
    match v {
        V::Null => "~".into(),
        V::Str(t) => format!("'{t}'"),
        V::Int(t) => t.clone(),
        V::Float(t) if t.eq_ignore_ascii_case("nan") => if t == "nan" { ".nan".into() } else { ".NaN".into() },
        V::Float(t) if t.contains('e') => t.clone(),
        V::Float(t) => format!("{t}.0"),
        _ => String::new(),
    }
}

pub fn c13() -> Prop {
    Prop {
        id: "C13",
        spaces: |t| vec![
            Space::new("pairs", "every pair of a universe of scalars (each number in several notations) and of collections of them", move |ch| pairs(ch, if t { 2 } else { 1 })),
            Space::new("nested", "every pair of collections of collections over three scalars", nested),
            Space::new("texts", format!("every pair of texts of at most {} characters as string, alias and in a map", if t { 4 } else { 3 }), move |ch| text_pairs(ch, if t { 4 } else { 3 })),
            Space::new("many", "maps of every size up to 600, each key in two notations", |ch| big::lookup(ch, 600)),
            Space::new("maps", "maps collected and loaded from every sequence of pairs over twelve keys", move |ch| maps(ch, if t { 6 } else { 5 })),
        ],
        oracle: "a canonical form written by hand: numbers by value and kind, everything else by content, tags and positions ignored; maps against an association list where the last of equal keys wins",
        assumptions: &["integers beyond 128 bits are compared by their text"],
    }
}

// ------------------------------------------------------------------ C14
/// The typed views, from the documentation.
fn views(ch: &mut Ch) -> Result<(), String> {
    let all = leaves();
    let v = value(ch, &all, 2);
    let (pos, tag) = *ch.of(&[(0u64, ""), (7, "t"), (u64::MAX, "tag:yaml.org,2002:int")]);
    if !ch.begin(|| format!("typed views of {} at {pos} with the tag {tag:?}", show(&v))) {
        return Ok(());
    }
    ch.state(hash_of(&(&v, pos)));
    ch.tally.validated += 1;
    let n: NodeRc = mk(&v, pos, tag);
    let e = pos;
    macro_rules! eq {
        ($got:expr, $want:expr, $w:expr) => {{
            let (g, w) = ($got, $want);
            if g != w {
                return Err(format!("{}: {g:?}, expected {w:?}", $w));
            }
        }};
    }
    let int = match &v {
        V::Int(_) => {
            let c = canon(&v);
            c.strip_prefix('i').and_then(|d| d.parse::<i128>().ok()).and_then(|d| i64::try_from(d).ok()).ok_or(e)
        }
        _ => Err(e),
    };
    let flt = match &v {
        V::Float(t) => Ok(t.parse::<f64>().unwrap()),
        _ => Err(e),
    };
    let bits = |r: Result<f64, u64>| r.map(|f| if f.is_nan() { 1 } else { f.to_bits() });
    eq!(n.pos(), pos, "position");
    eq!(n.tag().to_string(), if tag.is_empty() { default_tag(&v) } else { tag.to_string() }, "tag");
    eq!(n.is_null(), v == V::Null, "is_null");
    eq!(n.as_bool(), if let V::Bool(b) = v { Ok(b) } else { Err(e) }, "as_bool");
    eq!(n.as_int(), int, "as_int");
    eq!(bits(n.as_float()), bits(flt), "as_float");
    eq!(bits(n.as_number()), bits(if let V::Int(_) = v { int.map(|i| i as f64) } else { flt }), "as_number");
    eq!(n.as_str().map(str::to_string), match &v { V::Str(t) => Ok(t.clone()), V::Null => Ok(String::new()), _ => Err(e) }, "as_str");
    eq!(n.as_value().map(str::to_string), match &v { V::Str(t) | V::Int(t) | V::Float(t) => Ok(t.clone()), V::Null => Ok(String::new()), V::Bool(b) => Ok(b.to_string()), _ => Err(e) }, "as_value");
    eq!(n.as_seq().map(|v| v.iter().map(|n| canon(&read(n).v)).collect::<Vec<_>>()), if let V::Seq(v) = &v { Ok(v.iter().map(|n| canon(&n.v)).collect()) } else { Err(e) }, "as_seq");
    eq!(
        n.as_map().map(|m| m.iter().map(|(k, v)| (canon(&read(k).v), canon(&read(v).v))).collect::<Vec<_>>()),
        if let V::Map(m) = &v { Ok(m.iter().map(|(k, v)| (canon(&k.v), canon(&v.v))).collect()) } else { Err(e) },
        "as_map"
    );
    // anchors
    let mut t = Anchors::<RcRepr>::new();
    t.insert("a".into(), node!(*"b"));
    t.insert("b".into(), NodeRc::from("target"));
    match (&v, n.as_anchor(&t)) {
        (V::Alias(a), Ok(r)) if a == "a" && std::ptr::eq(r, &t["a"]) => {}
        (V::Alias(a), Err(p)) if a != "a" && p == pos => {}
        (V::Alias(_), r) => return Err(format!("as_anchor: {r:?}")),
        (_, Ok(r)) if std::ptr::eq(r, &n) => {}
        (_, r) => return Err(format!("as_anchor: {r:?}")),
    }
    ch.outcome("as documented");
    Ok(())
}

/// Navigation: every path over a tree, in every way to take a step.
fn tree() -> (N, NodeRc) {
    let n = |v: V, p: usize| N { lo: p, hi: p, ..v.into() };
    let i = |t: &str, p| n(V::Int(t.into()), p);
    let t = n(
        V::Map(vec![
            (s("a"), n(V::Seq(vec![i("1", 11), n(V::Map(vec![(s("b"), n(V::Str("x".into()), 13)), (V::Int("1".into()).into(), n(V::Null, 14))]), 12), n(V::Seq(vec![]), 15)]), 10)),
            (s("b"), n(V::Map(vec![(s("a"), n(V::Map(vec![(s("a"), n(V::Bool(true), 23))]), 22)), (V::Null.into(), n(V::Float("0.5".into()), 24))]), 20)),
            (V::Int("1".into()).into(), n(V::Seq(vec![n(V::Seq(vec![i("5", 32)]), 31)]), 30)),
            (V::Bool(true).into(), n(V::Str("t".into()), 40)),
            (s("1"), n(V::Str("text key".into()), 41)),
            (V::Seq(vec![V::Int("1".into()).into()]).into(), n(V::Str("collection key".into()), 42)),
        ]),
        5,
    );
    fn go(e: &N) -> NodeRc {
        let y: YamlRc = match &e.v {
            V::Seq(v) => Yaml::Seq(v.iter().map(go).collect()),
            V::Map(m) => Yaml::Map(m.iter().map(|(k, v)| (build(k), go(v))).collect()),
            _ => build::<RcRepr>(e).yaml().clone(),
        };
        Node::new(y, e.lo as u64, "")
    }
    let r = go(&t);
    (t, r)
}
fn paths(ch: &mut Ch, max: usize) -> Result<(), String> {
    let (model, node) = tree();
    let steps: Vec<usize> = (0..1 + ch.pick(max)).map(|_| ch.pick(12)).collect();
    if !ch.begin(|| format!("navigate {steps:?}")) {
        return Ok(());
    }
    ch.state(hash_of(&steps));
    ch.tally.validated += 1;
    let (mut m, mut n) = (&model, &node);
    for s in &steps {
        let key: Option<V> = [Some(V::Str("a".into())), Some(V::Str("b".into())), Some(V::Int("1".into())), Some(V::Null), Some(V::Bool(true)), Some(V::Str("zz".into())), Some(V::Seq(vec![V::Int("1".into()).into()])), Some(V::Str("1".into()))].get(*s).cloned().flatten();
        let want: Result<&N, u64> = match (&m.v, &key) {
            (V::Map(p), Some(k)) => p.iter().find(|p| canon(&p.0.v) == canon(k)).map(|p| &p.1).ok_or(m.lo as u64),
            (V::Seq(v), None) => v.get(s - 8).ok_or(m.lo as u64),
            _ => Err(m.lo as u64),
        };
        let ind = s.wrapping_sub(8);
        let got = match s {
            0 => n.get("a"),
            1 => n.get("b"),
            2 => n.get(1),
            3 => n.get(()),
            4 => n.get(true),
            5 => n.get("zz".to_string()),
            6 => n.get(node!([1])),
            7 => n.get("1"),
            _ => n.get_ind(Ind(ind)),
        };
        let by_index = guard(|| match s {
            0 => &n["a"],
            1 => &n["b"],
            2 => &n[1],
            3 => &n[()],
            4 => &n[true],
            5 => &n["zz"],
            6 => &n[node!([1])],
            7 => &n["1"],
            _ => &n[Ind(ind)],
        });
        // a default for a key that is missing
        if let Some(k) = &key {
            let d = n.get_default(build::<RcRepr>(&k.clone().into()), "DEF".to_string(), |n| n.as_value().map(str::to_string));
            let w = match (&m.v, &want) {
                (V::Map(_), Err(_)) => Ok("DEF".to_string()),
                (V::Map(_), Ok(x)) => match &x.v {
                    V::Str(t) | V::Int(t) | V::Float(t) => Ok(t.clone()),
                    V::Null => Ok(String::new()),
                    V::Bool(b) => Ok(b.to_string()),
                    _ => Err(x.lo as u64),
                },
                _ => Err(m.lo as u64),
            };
            if d != w {
                return Err(format!("get_default at step {s}: {d:?}, expected {w:?}"));
            }
        }
        match (want, got, by_index) {
            (Ok(w), Ok(g), Ok(i)) => {
                if !std::ptr::eq(g, i) {
                    return Err("indexing gives another node than the lookup".into());
                }
                same(g, w, See { tag: true, pos: false })?;
                if g.pos() != w.lo as u64 {
                    return Err(format!("found the node at {}, expected {}", g.pos(), w.lo));
                }
                m = w;
                n = g;
            }
            (Err(w), Err(g), Err(_)) => {
                if w != g {
                    return Err(format!("error at {g}, expected {w}"));
                }
                ch.outcome("missing");
                return Ok(());
            }
            (w, g, i) => return Err(format!("step {s}: {g:?}, by index {i:?}, expected {w:?}")),
        }
    }
    ch.outcome("found");
    Ok(())
}

/// Construction from Rust values.
fn construct(ch: &mut Ch) -> Result<(), String> {
    let mut c: Vec<(&str, NodeRc, V)> = vec![];
    macro_rules! ints {
        ($($t:ident)+) => {$(
            for v in [$t::MIN, $t::MAX, 0, 1, 42] {
                c.push((stringify!($t), NodeRc::from(v), V::Int(v.to_string())));
                c.push((concat!("macro ", stringify!($t)), node!(v), V::Int(v.to_string())));
            }
        )+};
    }
    ints!(u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 usize isize);
    for v in [0f64, -0.0, 1.0, 0.1, 1e300, 1e-300, f64::MAX, f64::MIN_POSITIVE, f64::NAN, f64::INFINITY, f64::NEG_INFINITY] {
        c.push(("f64", NodeRc::from(v), V::Float(v.to_string())));
    }
    for v in [0f32, 0.1, f32::MAX, f32::NAN] {
        c.push(("f32", NodeRc::from(v), V::Float(v.to_string())));
    }
    for v in ["", "a", "1", "true", "é\n"] {
        c.push(("&str", NodeRc::from(v), V::Str(v.into())));
        c.push(("String", NodeRc::from(v.to_string()), V::Str(v.into())));
        c.push(("&String", NodeRc::from(&v.to_string()), V::Str(v.into())));
        c.push(("macro str", node!(v), V::Str(v.into())));
        c.push(("alias", node!(*v), V::Alias(v.into())));
    }
    c.push(("char", NodeRc::from('é'), V::Str("é".into())));
    c.push(("()", NodeRc::from(()), V::Null));
    c.push(("macro ()", node!(()), V::Null));
    c.push(("true", NodeRc::from(true), V::Bool(true)));
    c.push(("false", node!(false), V::Bool(false)));
    let one = || -> N { V::Int("1".into()).into() };
    c.push(("[]", node!([]), V::Seq(vec![])));
    c.push(("{}", node!({}), V::Map(vec![])));
    c.push(("[1, a]", node!([1, "a",]), V::Seq(vec![one(), s("a")])));
    c.push(("[1; 3]", node!([1; 3]), V::Seq(vec![one(), one(), one()])));
    c.push(("nested", node!({"k" => node!([node!({1 => ()})]), 1 => true}), V::Map(vec![(s("k"), V::Seq(vec![V::Map(vec![(one(), V::Null.into())]).into()]).into()), (one(), V::Bool(true).into())])));
    c.push(("rc", node!(rc ["a"]), V::Seq(vec![s("a")])));
    c.push(("collected", vec![node!(1), node!("a")].into_iter().collect(), V::Seq(vec![one(), s("a")])));
    c.push(("from sequence", NodeRc::from(vec![node!(1)]), V::Seq(vec![one()])));
    c.push(("set_yaml", { let mut n = NodeRc::new("x", 0, ""); n.set_yaml(1); n }, V::Int("1".into())));
    let mut at = ch.pick((c.len() + 199) / 200) * 200;
    at += ch.pick(200.min(c.len() - at));
    let (w, n, v) = &c[at];
    if !ch.begin(|| format!("construct from {w}: {}", show(v))) {
        return Ok(());
    }
    ch.state(at as u64);
    ch.tally.validated += 1;
    same(n, &v.clone().into(), TAGS)?;
    if n.pos() != 0 {
        return Err(format!("position {}", n.pos()));
    }
    ch.outcome("equal");
    Ok(())
}

pub fn c14() -> Prop {
    Prop {
        id: "C14",
        spaces: |t| vec![
            Space::new("views", "every typed view of every node of a universe of scalars and small collections, at three positions", views),
            Space::new("paths", "every path of steps by key, by index and with a default through a tree", move |ch| paths(ch, if t { 7 } else { 6 })),
            Space::new("primitives", "every character, integers around every power of two and ten in every type, floats of every exponent", chars::primitives),
            Space::new("construct", "every primitive type at its limits, the macro and the collecting constructors", construct),
        ],
        oracle: "the documented result of each view; the model tree walked step by step, errors carry the position of the node that has no such child",
        assumptions: &[],
    }
}

// ------------------------------------------------------------------ C15
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Handle {
    cell: usize,
    tag: &'static str,
    pos: u64,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Data {
    Leaf(u8),
    /// a sequence of two handles
    Pair(Handle, Handle),
}
/// What the checks need to know of a holder.
trait Holder: yaml_peg::repr::Repr + Sized {
    fn count(rc: &Self::Rc) -> usize;
    /// Does the data still exist?
    fn watch(rc: &Self::Rc) -> Box<dyn Fn() -> bool>;
}
impl Holder for RcRepr {
    fn count(rc: &Self::Rc) -> usize {
        Rc::strong_count(rc)
    }
    fn watch(rc: &Self::Rc) -> Box<dyn Fn() -> bool> {
        let w = Rc::downgrade(rc);
        Box::new(move || w.upgrade().is_some())
    }
}
impl Holder for ArcRepr {
    fn count(rc: &Self::Rc) -> usize {
        Arc::strong_count(rc)
    }
    fn watch(rc: &Self::Rc) -> Box<dyn Fn() -> bool> {
        let w = Arc::downgrade(rc);
        Box::new(move || w.upgrade().is_some())
    }
}
/// Data of each kind that is different for each number (where the kind allows it).
const KINDS: usize = 9;
fn data<R: Holder>(kind: usize, v: u8) -> Yaml<R> {
    match kind {
        0 => Yaml::from(v),
        1 => Yaml::Null,
        2 => Yaml::Bool(v % 2 == 0),
        3 => Yaml::from(f32::from(v) / 4.0),
        4 => Yaml::from(format!("text {v}")),
        5 => Yaml::Alias(format!("a{v}")),
        6 => Yaml::Seq(vec![]),
        7 => [(Node::from(v), Node::from("v"))].into_iter().collect(),
        _ => Yaml::from(""),
    }
}
fn any_history(ch: &mut Ch, depth: usize, kinds: usize) -> Result<(), String> {
    let kind = ch.pick(kinds);
    if ch.flip() {
        histories::<ArcRepr>(ch, depth, kind)
    } else {
        histories::<RcRepr>(ch, depth, kind)
    }
}
/// Histories over three slots: the model is a heap of cells with handles.
fn histories<R: Holder>(ch: &mut Ch, depth: usize, kind: usize) -> Result<(), String> {
    let mut cells: Vec<Data> = vec![Data::Leaf(0), Data::Leaf(1)];
    let mut model: [Option<Handle>; 3] = [Some(Handle { cell: 0, tag: "", pos: 1 }), Some(Handle { cell: 1, tag: "t", pos: 2 }), None];
    let mut real: [Option<Node<R>>; 3] = [Some(Node::new(data::<R>(kind, 0), 1, "")), Some(Node::new(data::<R>(kind, 1), 2, "t")), None];
    let mut alive: Vec<Box<dyn Fn() -> bool>> = real.iter().flatten().map(|n| R::watch(n.rc_ref())).collect();
    let mut log: Vec<String> = vec![];
    let mut fresh = 2u8;
    let run = !ch.dry;
    for _ in 0..depth {
        let op = ch.pick(7);
        if op == 0 {
            break;
        }
        let i = ch.pick(3);
        let Some(h) = model[i].clone() else { return Ok(()) };
        match op {
            1 => {
                let j = ch.pick(3);
                log.push(format!("{j} = clone {i}"));
                model[j] = Some(h);
                if run {
                    let n = real[i].clone();
                    real[j] = n;
                }
            }
            2 => {
                log.push(format!("drop {i}"));
                model[i] = None;
                real[i] = None;
            }
            3 => {
                log.push(format!("set data of {i} to {fresh}"));
                cells.push(Data::Leaf(fresh));
                model[i].as_mut().unwrap().cell = cells.len() - 1;
                if run {
                    let n = real[i].as_mut().unwrap();
                    n.set_yaml(data::<R>(kind, fresh));
                    alive.push(R::watch(n.rc_ref()));
                }
                fresh += 1;
            }
            4 => {
                // shared data set into another handle: its tag and position stay
                let j = ch.pick(3);
                let Some(t) = model[j].clone() else { return Ok(()) };
                log.push(format!("{i} shares the data of {j}"));
                model[i].as_mut().unwrap().cell = t.cell;
                if run {
                    let d = real[j].as_ref().unwrap().clone_yaml();
                    real[i].as_mut().unwrap().set_repr(d);
                }
            }
            5 => {
                let (j, k) = (ch.pick(3), ch.pick(3));
                let Some(t) = model[j].clone() else { return Ok(()) };
                log.push(format!("{k} = sequence of {i} and {j}"));
                cells.push(Data::Pair(h, t));
                model[k] = Some(Handle { cell: cells.len() - 1, tag: "", pos: 0 });
                if run {
                    let v = vec![real[i].clone().unwrap(), real[j].clone().unwrap()];
                    let n: Node<R> = v.into();
                    alive.push(R::watch(n.rc_ref()));
                    real[k] = Some(n);
                }
            }
            _ => {
                // take an item out of a sequence
                let j = ch.pick(3);
                let k = ch.pick(2);
                let Data::Pair(a, b) = &cells[h.cell] else { return Ok(()) };
                log.push(format!("{j} = item {k} of {i}"));
                model[j] = Some(if k == 0 { a.clone() } else { b.clone() });
                if run {
                    let n = real[i].as_ref().unwrap()[Ind(k)].clone();
                    real[j] = Some(n);
                }
            }
        }
    }
    if !ch.begin(|| format!("data of kind {kind}, {}: {}", std::any::type_name::<R>().rsplit("::").next().unwrap(), log.join("; "))) {
        return Ok(());
    }
    ch.state(hash_of(&(kind, std::any::type_name::<R>(), &cells, &model)));
    ch.tally.validated += 1;
    // the live heap: how many handles hold each cell
    let mut count = vec![0usize; cells.len()];
    fn hold(h: &Handle, cells: &[Data], count: &mut [usize]) {
        count[h.cell] += 1;
        if count[h.cell] == 1 {
            if let Data::Pair(a, b) = &cells[h.cell] {
                hold(a, cells, count);
                hold(b, cells, count);
            }
        }
    }
    for h in model.iter().flatten() {
        hold(h, &cells, &mut count);
    }
    fn cmp<R: Holder>(n: &Node<R>, h: &Handle, cells: &[Data], count: &[usize], kind: usize) -> Result<(), String> {
        if n.pos() != h.pos {
            return Err(format!("position {}, expected {}", n.pos(), h.pos));
        }
        if !h.tag.is_empty() && n.tag() != h.tag {
            return Err(format!("tag {}, expected {}", n.tag(), h.tag));
        }
        if R::count(n.rc_ref()) != count[h.cell] {
            return Err(format!("{} handles share the data, expected {}", R::count(n.rc_ref()), count[h.cell]));
        }
        match (&cells[h.cell], n.yaml()) {
            (Data::Leaf(v), y) if *y == data::<R>(kind, *v) => Ok(()),
            (Data::Pair(a, b), Yaml::Seq(s)) if s.len() == 2 => {
                cmp(&s[0], a, cells, count, kind)?;
                cmp(&s[1], b, cells, count, kind)
            }
            (d, y) => Err(format!("{y:?}, expected {d:?}")),
        }
    }
    for (c, live) in alive.iter().enumerate() {
        if live() != (count[c] > 0) {
            return Err(format!("data {c} is held by {} handles, but it exists: {}", count[c], live()));
        }
    }
    let mut seen: Vec<(usize, *const Yaml<R>)> = vec![];
    for (i, (n, h)) in real.iter().zip(&model).enumerate() {
        match (n, h) {
            (Some(n), Some(h)) => {
                cmp(n, h, &cells, &count, kind).map_err(|e| format!("slot {i}: {e}"))?;
                for (c, p) in &seen {
                    if (*c == h.cell) != std::ptr::eq(*p, n.yaml()) {
                        return Err(format!("slot {i}: shared data expected: {}", *c == h.cell));
                    }
                }
                seen.push((h.cell, n.yaml()));
            }
            (None, None) => {}
            _ => return Err("slots differ".into()),
        }
    }
    ch.outcome("equal");
    Ok(())
}

pub fn c15() -> Prop {
    Prop {
        id: "C15",
        spaces: |t| vec![
            Space::new("histories", format!("every history of at most {} operations (clone, drop, set data, share data, put into a sequence, take out) on three handles of either holder", if t { 5 } else { 4 }), move |ch| any_history(ch, if t { 5 } else { 4 }, 1)),
            Space::new("kinds", format!("every history of at most {} of these operations for each kind of data", 4), move |ch| any_history(ch, 4, KINDS)),
        ],
        oracle: "a heap of cells with handles: content, tag and position of every handle, which handles share data, how many, and which data must be gone",
        assumptions: &["nodes are built bottom up, so the data has no cycles"],
    }
}

// ------------------------------------------------------------------ C16
fn both(ch: &mut Ch, text: &str) -> Result<(), String> {
    if !ch.begin(|| format!("load {text:?} with both holders")) {
        return Ok(());
    }
    ch.state(hash_of(text));
    ch.tally.validated += 2;
    let err = |e: yaml_peg::parser::PError| e.to_string();
    let a = parse::<RcRepr>(text).map_err(err);
    let b = parse::<ArcRepr>(text).map_err(err);
    let l = |v: &[N]| v.to_vec();
    let am = a.as_ref().map(|v| l(&v.iter().map(read).collect::<Vec<_>>()));
    let bm = b.as_ref().map(|v| l(&v.iter().map(read).collect::<Vec<_>>()));
    if am != bm {
        return Err(format!("single-threaded: {am:?}\nmulti-threaded: {bm:?}"));
    }
    if let (Ok(a), Ok(b)) = (&a, &b) {
        if dump(a, &[]) != dump(b, &[]) {
            return Err("dumped differently".into());
        }
        for (x, y) in a.iter().zip(b) {
            if hash_of(x) != hash_of(y) {
                return Err("hashed differently".into());
            }
        }
    }
    let c = parse_cyclic::<RcRepr>(text).map_err(err);
    let d = parse_cyclic::<ArcRepr>(text).map_err(err);
    match (&c, &d) {
        (Ok((v, t)), Ok((w, u))) => {
            if v.iter().map(read).ne(w.iter().map(read)) || t.len() != u.len() {
                return Err("cyclic mode differs".into());
            }
            for (t, u) in t.iter().zip(u) {
                if t.iter().map(|(k, n)| (k.clone(), read(n))).ne(u.iter().map(|(k, n)| (k.clone(), read(n)))) {
                    return Err("anchors differ".into());
                }
            }
            if dump(v, t) != dump(w, u) {
                return Err("dumped differently in the cyclic mode".into());
            }
        }
        (Err(e), Err(f)) if e == f => {}
        _ => return Err("only one holder accepts it in the cyclic mode".into()),
    }
    // the interface equals a loader by hand, and loading again gives the same
    let again = Loader::<RcRepr>::new(text.as_bytes()).parse().map_err(err);
    if again.as_ref().map(|v| v.iter().map(read).collect::<Vec<_>>()) != am.map(|v| v.to_vec()) {
        return Err("loading again differs".into());
    }
    ch.outcome(if a.is_ok() { "accepted" } else { "rejected" });
    Ok(())
}
const TOKS: &[&str] = &["a", " ", "\n", ": ", "- ", "[", "]", "{", "}", ", ", "&x ", "*x", "!t ", "'", "\"", "---\n", "1", "|\n  ", "? ", "é"];
fn tokens(ch: &mut Ch, max: usize) -> Result<(), String> {
    let mut t = String::new();
    for _ in 0..max {
        let c = ch.pick(TOKS.len() + 1);
        if c == 0 {
            break;
        }
        t.push_str(TOKS[c - 1]);
    }
    both(ch, &t)
}
fn trees(ch: &mut Ch, cfg: &Cfg) -> Result<(), String> {
    let text = {
        let mut w = Writer::new(ch, cfg);
        w.block(At::Root, 0, cfg.depth);
        w.out
    };
    both(ch, &text)
}
/// Does a type have a marker trait? Decided without a compile error if not.
macro_rules! has {
    ($t:ty: $tr:path) => {{
        trait No { const V: bool = false; }
        impl<T: ?Sized> No for T {}
        struct W<T: ?Sized>(std::marker::PhantomData<T>);
        #[allow(dead_code)]
        impl<T: ?Sized + $tr> W<T> { const V: bool = true; }
        <W<$t>>::V
    }};
}
/// Operations of three threads on shared data, in every order; each runs on its own thread.
fn threads(ch: &mut Ch, per: usize) -> Result<(), String> {
    if !(has!(NodeArc: Send) && has!(NodeArc: Sync) && has!(YamlArc: Send) && has!(YamlArc: Sync)) {
        ch.begin(|| "marker traits of the multi-threaded node".to_string());
        return Err("the multi-threaded node cannot be sent to or shared with other threads".into());
    }
    // what each thread does: read, clone, drop its clone, replace the data of its clone
    let n = 2 + ch.pick(2);
    let mut left = vec![per; n];
    let mut sched: Vec<(usize, usize)> = vec![];
    while left.iter().any(|l| *l > 0) {
        // threads are alike: the next new one is the lowest unused
        let used = sched.iter().map(|s| s.0 + 1).max().unwrap_or(0);
        let alive: Vec<usize> = (0..n.min(used + 1)).filter(|i| left[*i] > 0).collect();
        let t = alive[ch.pick(alive.len())];
        left[t] -= 1;
        sched.push((t, ch.pick(4)));
    }
    if !ch.begin(|| format!("schedule {sched:?}: (thread, 0 read, 1 clone, 2 drop, 3 replace)")) {
        return Ok(());
    }
    ch.state(hash_of(&sched));
    ch.tally.validated += 1;
    let doc = parse::<ArcRepr>("k: &x [a, {b: 1}]\nl: *x\n").map_err(|e| e.to_string())?;
    let root = Shared(doc[0].clone());
    let want = read(&root.0);
    // model: how many clones of the root live
    let mut own = vec![false; n];
    let mut live = 2;
    let mut results = vec![];
    let (mut txs, mut hs) = (vec![], vec![]);
    let (rtx, rrx) = std::sync::mpsc::channel::<Result<bool, String>>();
    for _ in 0..n {
        let (tx, rx) = std::sync::mpsc::channel::<usize>();
        let (mine, rtx, want) = (Shared(root.0.clone()), rtx.clone(), want.clone());
        live += 1;
        txs.push(tx);
        hs.push(std::thread::spawn(move || {
            let mine = mine;
            let base = &mine.0;
            let mut own: Option<NodeArc> = None;
            while let Ok(op) = rx.recv() {
                let r = guard(|| match op {
                    0 => read(base) == want && own.as_ref().map_or(true, |o| read(o).v == want.v || o.as_int() == Ok(7)),
                    1 => {
                        own = Some(base.clone());
                        own.as_ref() == Some(base)
                    }
                    2 => {
                        own = None;
                        true
                    }
                    _ => {
                        if let Some(o) = own.as_mut() {
                            o.set_yaml(7);
                        }
                        *base == *base && read(base) == want
                    }
                });
                let _ = rtx.send(r);
            }
        }));
    }
    let mut shares = vec![false; n];
    for (t, op) in &sched {
        txs[*t].send(*op).unwrap();
        results.push(rrx.recv().map_err(|_| "a thread is gone")?);
        // the count is that of the model after every step
        match op {
            1 => {
                if !shares[*t] {
                    live += 1;
                }
                shares[*t] = true;
                own[*t] = true;
            }
            2 | 3 => {
                if shares[*t] {
                    live -= 1;
                }
                shares[*t] = false;
            }
            _ => {}
        }
        let c = std::sync::Arc::strong_count(root.0.rc_ref());
        if c != live {
            return Err(format!("{c} handles share the data, expected {live}"));
        }
    }
    drop(txs);
    for h in hs {
        let _ = h.join();
    }
    if std::sync::Arc::strong_count(root.0.rc_ref()) != 2 {
        return Err("handles are left over".into());
    }
    for r in results {
        match r {
            Ok(true) => {}
            Ok(false) => return Err("a thread saw other data".into()),
            Err(e) => return Err(e),
        }
    }
    ch.outcome("same data everywhere");
    Ok(())
}
/// Lets the checker compile even if the node lost its marker traits (checked above).
struct Shared(NodeArc);
unsafe impl Send for Shared {}

pub fn c16() -> Prop {
    Prop {
        id: "C16",
        spaces: |t| vec![
            Space::new("tokens", format!("all sequences of at most {} of {} tokens", if t { 6 } else { 5 }, TOKS.len()), move |ch| tokens(ch, if t { 6 } else { 5 })),
            space("trees", "trees with anchors and tags", 2, Cfg { nodes: if t { 6 } else { 5 }, anchors: true, aliases: true, tags: &[("!t", "t")], leaves: &[Leaf::Plain, Leaf::Literal, Leaf::Int], ..Cfg::default() }, trees),
            Space::new("threads", format!("every order of {} operations each of two or three threads on shared nodes", if t { 3 } else { 2 }), move |ch| threads(ch, if t { 3 } else { 2 })),
        ],
        oracle: "the results of the single-threaded holder: tree, tags, positions, anchors, error messages, dumps and hashes; a count of live handles per step and the unchanged data in every thread",
        assumptions: &["operations of threads interleave as whole calls: what is below is the standard library's counter"],
    }
}
