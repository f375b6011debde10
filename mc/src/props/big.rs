//! Documents of any size: nested deeply, with many items, long texts, many documents, anchors and
//! tags. Every size up to a bound is enumerated, so a limit or a counter that is crossed is seen.
//! The checks of several properties use them.
use super::c11;
use crate::{doc::*, engine::*};
use yaml_peg::{dump, parse, parse_cyclic, parser::Loader, repr::RcRepr, Ind, NodeRc, Yaml};

pub struct Big {
    pub text: String,
    pub docs: Vec<N>,
    pub anchors: Vec<Vec<(String, N)>>,
}
fn at(v: V, lo: usize, hi: usize) -> N {
    N { lo, hi, ..v.into() }
}

fn shift(n: &mut N, d: usize) {
    n.lo += d;
    n.hi = n.hi.saturating_add(d);
    match &mut n.v {
        V::Seq(l) => l.iter_mut().for_each(|c| shift(c, d)),
        V::Map(l) => l.iter_mut().for_each(|(k, v)| {
            shift(k, d);
            shift(v, d);
        }),
        _ => {}
    }
}
/// The document alone, in front of or behind a small one, twice or three times in a stream.
pub fn stream(ch: &mut Ch, b: Big) -> Big {
    let small = |b: &mut Big| {
        let p = b.text.len() + 2;
        b.text.push_str("- s\n");
        b.docs.push(at(V::Seq(vec![at(V::Str("s".into()), p, p)]), p - 2, p));
        b.anchors.push(vec![]);
    };
    let again = |o: &mut Big| {
        let p = o.text.len();
        o.text.push_str(&b.text);
        for mut d in b.docs.iter().cloned() {
            shift(&mut d, p);
            o.docs.push(d);
        }
        o.anchors.extend(b.anchors.iter().cloned());
    };
    let places: &[u8] = ch.of(&[b"1" as &[u8], b"s1", b"1s", b"11", b"111"]);
    let mut o = Big { text: String::new(), docs: vec![], anchors: vec![] };
    for (i, k) in places.iter().enumerate() {
        if i > 0 {
            o.text.push_str("---\n");
        }
        match k {
            b's' => small(&mut o),
            _ => again(&mut o),
        }
    }
    o
}

// ------------------------------------------------------------------ depth
/// Writes nested collections; `kinds` are those of the levels, the leaf is inside.
/// 0 `- c`, 1 `-` and the content on the next line, 2 `a: c`, 3 `? c`, 4 `? a` `: c`;
/// in flow style 5 `[c, z]`, 6 `{a: c, b: y }`, 7 `{? c : v }`, 8 `["x", c ]`.
struct Deep<'a> {
    out: String,
    kinds: &'a [u8],
    leaf: &'a str,
}
impl Deep<'_> {
    fn text(&mut self, t: &str) -> N {
        let p = self.out.len();
        self.out.push_str(t);
        at(V::Str(t.trim_matches('"').into()), p, p)
    }
    fn pad(&mut self, col: usize) {
        self.out.push('\n');
        for _ in 0..col {
            self.out.push(' ');
        }
    }
    /// The content behind an indicator that ends here.
    fn content(&mut self, i: usize, col: usize, own: bool) -> N {
        let lo = self.out.len();
        let block = self.kinds.get(i).map_or(false, |k| *k < 5);
        if block && own {
            self.pad(col);
        } else {
            self.out.push(' ');
        }
        let mut n = self.node(i, col);
        if block {
            n.lo = lo;
        }
        n
    }
    fn node(&mut self, i: usize, col: usize) -> N {
        let p = self.out.len();
        let Some(k) = self.kinds.get(i) else {
            let t = self.leaf.to_string();
            if t == "|" {
                self.out.push_str("|-");
                self.pad(col.max(1));
                self.out.push_str("li ne:");
                return at(V::Str("li ne:".into()), p, p);
            }
            return self.text(&t);
        };
        let pair = |k: N, v: N, l: N, w: N| at(V::Map(vec![(k, v), (l, w)]), p, p);
        match k {
            0 | 1 => {
                self.out.push('-');
                let c = self.content(i + 1, col + 2, *k == 1);
                self.pad(col);
                self.out.push_str("- ");
                let z = self.text("z");
                at(V::Seq(vec![c, z]), p, p)
            }
            2 | 4 => {
                if *k == 4 {
                    self.out.push_str("? ");
                }
                let key = self.text("a");
                if *k == 4 {
                    self.pad(col);
                }
                self.out.push(':');
                let c = self.content(i + 1, col + 2, true);
                self.pad(col);
                let b = self.text("b");
                self.out.push_str(": ");
                let y = self.text("y");
                pair(key, c, b, y)
            }
            3 => {
                self.out.push('?');
                let c = self.content(i + 1, col + 2, true);
                self.pad(col);
                self.out.push_str(": ");
                let v = self.text("v");
                self.pad(col);
                let b = self.text("b");
                self.out.push_str(": ");
                let y = self.text("y");
                pair(c, v, b, y)
            }
            5 => {
                self.out.push('[');
                let c = self.node(i + 1, col);
                self.out.push_str(", ");
                let z = self.text("z");
                self.out.push(']');
                at(V::Seq(vec![c, z]), p, p)
            }
            6 => {
                self.out.push('{');
                let a = self.text("a");
                self.out.push_str(": ");
                let c = self.node(i + 1, col);
                self.out.push_str(", ");
                let b = self.text("b");
                self.out.push_str(": ");
                let y = self.text("y");
                self.out.push_str(" }");
                pair(a, c, b, y)
            }
            7 => {
                self.out.push_str("{? ");
                let c = self.node(i + 1, col);
                self.out.push_str(" : ");
                let v = self.text("v");
                self.out.push_str(" }");
                at(V::Map(vec![(c, v)]), p, p)
            }
            _ => {
                self.out.push('[');
                let x = self.text("\"x\"");
                self.out.push_str(", ");
                let c = self.node(i + 1, col);
                self.out.push_str(" ]");
                at(V::Seq(vec![x, c]), p, p)
            }
        }
    }
}
/// Block levels of a period, flow levels of a period inside.
pub fn deep(ch: &mut Ch, period: usize, max: usize) -> Big {
    let (b, f) = match ch.pick(3) {
        0 => (true, false),
        1 => (false, true),
        _ => (true, true),
    };
    let mut kinds: Vec<u8> = vec![];
    let n = 1 + ch.pick(max);
    if b {
        let p: Vec<u8> = (0..1 + ch.pick(period)).map(|_| ch.pick(5) as u8).collect();
        kinds.extend((0..n).map(|i| p[i % p.len()]));
    }
    if f {
        let p: Vec<u8> = (0..1 + ch.pick(if b { 1 } else { period })).map(|_| 5 + ch.pick(4) as u8).collect();
        let m = if b { *ch.of(&[1, 2, 20]) } else { n };
        kinds.extend((0..m).map(|i| p[i % p.len()]));
    }
    let leaf = *ch.of(if f { &["c"] as &[&str] } else { &["c", "\"c\"", "|"] });
    let mut d = Deep { out: String::new(), kinds: &kinds, leaf };
    let n = d.node(0, 0);
    let text = d.out + "\n";
    Big { text, docs: vec![n], anchors: vec![vec![]] }
}

// ------------------------------------------------------------------ width
/// Collections with n items of some forms, in one of three places.
pub fn wide(ch: &mut Ch, max: usize) -> Big {
    let n = ch.pick(max + 1);
    let form = ch.pick(9);
    let place = ch.pick(3);
    let mut out = String::from(["", "x: y\nk:\n  ", "- x\n- "][place]);
    let col = [0, 2, 2][place];
    let flow = form >= 4;
    if !flow {
        ch.skip |= n == 0;
    }
    let base = out.len();
    let (mut seq, mut map) = (vec![], vec![]);
    if flow {
        out.push_str(["[", "{", "[", "{", "[\n"][form - 4]);
    }
    for i in 0..n {
        if i > 0 && !flow {
            out.push('\n');
            out.push_str(&" ".repeat(col));
        }
        let mut put = |t: &str, v: V| {
            let p = out.len();
            out.push_str(t);
            at(v, p, p)
        };
        let name = |i: usize| (format!("n{i}"), V::Str(format!("n{i}")));
        match form {
            // items of many types
            0 | 4 => {
                if !flow {
                    put("- ", V::Null);
                }
                let (t, v) = match i % 5 {
                    0 => name(i),
                    1 => (format!("{i}"), V::Int(format!("{i}"))),
                    2 => (format!("\"{i}\""), V::Str(format!("{i}"))),
                    3 => ("~".into(), V::Null),
                    _ => (format!("{i}.5"), V::Float(format!("{i}.5"))),
                };
                seq.push(put(&t, v));
            }
            1 | 5 => {
                let k = name(i);
                let k = put(&k.0, k.1);
                put(": ", V::Null);
                let v = put(&format!("{i}"), V::Int(format!("{i}")));
                map.push((k, v));
            }
            // nested collections
            2 | 6 | 8 => {
                if !flow {
                    put("- ", V::Null);
                }
                let a = put("[", V::Null);
                let x = put("x", V::Str("x".into()));
                put(", ", V::Null);
                let y = put(&format!("{i}"), V::Int(format!("{i}")));
                put("]", V::Null);
                seq.push(at(V::Seq(vec![x, y]), a.lo, a.lo));
            }
            // explicit keys
            _ => {
                put("? ", V::Null);
                let k = put(&format!("{i}"), V::Int(format!("{i}")));
                if flow {
                    put(" ", V::Null);
                } else {
                    put(&format!("\n{}", " ".repeat(col)), V::Null);
                }
                put(": ", V::Null);
                let v = name(i + 1);
                let v = put(&v.0, v.1);
                map.push((k, v));
            }
        }
        if flow && i + 1 < n {
            out.push_str(if form == 8 { ",\n# c\n" } else { ", " });
        }
    }
    if flow {
        out.push_str(["]", " }", "]", " }", "]"][form - 4]);
    }
    let v = if matches!(form, 1 | 3 | 5 | 7) { V::Map(map) } else { V::Seq(seq) };
    let n = at(v, if flow { base } else { base.saturating_sub(3) }, base);
    let str_at = |t: &str, p: usize| at(V::Str(t.into()), p, p);
    let doc = match place {
        0 => n,
        1 => {
            out.push_str("\nl: m");
            let e = out.len();
            at(V::Map(vec![(str_at("x", 0), str_at("y", 3)), (str_at("k", 5), n), (str_at("l", e - 4), str_at("m", e - 1))]), 0, 0)
        }
        _ => {
            out.push_str("\n- l");
            let e = out.len();
            at(V::Seq(vec![str_at("x", 2), n, str_at("l", e - 1)]), 0, 0)
        }
    };
    Big { text: out + "\n", docs: vec![doc], anchors: vec![vec![]] }
}

// ------------------------------------------------------------------ length
/// Texts of n characters in every style with a special one anywhere, and of n lines.
pub fn long(ch: &mut Ch, all: usize, max: usize) -> Big {
    let (n, j) = if ch.pick(2) == 0 {
        let n = 1 + ch.pick(all);
        (n, ch.pick(n))
    } else {
        let n = all + 1 + ch.pick(max - all);
        (n, n / 2)
    };
    let style = ch.pick(10);
    let special = ch.pick(4);
    let place = ch.pick(4);
    let (head, tail, col) = [("", "\n", 0), ("k: ", "\nl: m\n", 0), ("- ", "\n- l\n", 0), ("k:\n  l: ", "\nm: z\n", 2)][place];
    let ind = " ".repeat(col + 2);
    let mut out = String::from(head);
    let p = out.len();
    let mut body = vec!["a"; n];
    let inner = 0 < j && j < n - 1;
    let value: String;
    match style {
        // one line
        0..=4 => {
            let (special, raw) = match (style, special) {
                (_, 0) if inner => (" ", " "),
                (_, 1) => ("é", "é"),
                (1, 2) => ("'", "''"),
                (2, 2) => ("\n", "\\n"),
                (2, 3) => ("\"", "\\\""),
                (1, 3) => ("\\", "\\"),
                (0 | 3 | 4, 2) => ("'", "'"),
                _ => ("b", "b"),
            };
            ch.skip |= special == "'" && j == 0;
            body[j] = raw;
            let text = body.concat();
            body[j] = special;
            value = body.concat();
            out.push_str(&match style {
                0 => text,
                1 => format!("'{text}'"),
                2 => format!("\"{text}\""),
                3 => format!("|-\n{ind}{text}"),
                _ => format!(">-\n{ind}{text}"),
            });
        }
        // many lines; the special one is empty, a comment-like or indented one
        _ => {
            let (line, is) = match special {
                0 if inner => ("", true),
                1 => ("é é", false),
                2 if style >= 8 && inner => ("#", false),
                3 if style == 8 && inner => ("  a", false),
                _ => ("b", false),
            };
            body[j] = line;
            let text = body.iter().enumerate().map(|(i, l)| if i == 0 || l.is_empty() { l.to_string() } else { format!("{ind}{l}") }).collect::<Vec<_>>().join("\n");
            value = if style == 8 {
                body.join("\n")
            } else {
                let mut v = String::new();
                for (i, l) in body.iter().enumerate() {
                    if i > 0 {
                        match (l.is_empty(), is && i == j + 1) {
                            (true, _) => v.push('\n'),
                            (_, true) => {}
                            _ => v.push(' '),
                        }
                    }
                    v.push_str(l);
                }
                v
            };
            out.push_str(&match style {
                5 => { ch.skip |= place == 2; text }
                6 => format!("'{text}'"),
                7 => format!("\"{text}\""),
                8 => format!("|-\n{ind}{text}"),
                _ => format!(">-\n{ind}{text}"),
            });
        }
    }
    let n = at(V::Str(value), p, p);
    let e = out.len();
    let st = |t: &str, p: usize| at(V::Str(t.into()), p, p);
    out.push_str(tail);
    let doc = match place {
        0 => n,
        1 => at(V::Map(vec![(st("k", 0), n), (st("l", e + 1), st("m", e + 4))]), 0, 0),
        2 => at(V::Seq(vec![n, st("l", e + 3)]), 0, 0),
        _ => at(V::Map(vec![(st("k", 0), at(V::Map(vec![(st("l", 5), n)]), 2, 5)), (st("m", e + 1), st("z", e + 4))]), 0, 0),
    };
    Big { text: out, docs: vec![doc], anchors: vec![vec![]] }
}

// ------------------------------------------------------------------ documents, anchors and tags
/// n documents of six forms; every one has an anchor of its own.
pub fn docs(ch: &mut Ch, period: usize, max: usize) -> Big {
    let n = 1 + ch.pick(max);
    let p: Vec<usize> = (0..1 + ch.pick(period)).map(|_| ch.pick(6)).collect();
    let sep = *ch.of(&["---\n", "--- # c\n", "...\n---\n", "---\r\n"]);
    let mut b = Big { text: String::new(), docs: vec![], anchors: vec![] };
    for i in 0..n {
        if i > 0 {
            b.text.push_str(sep);
        }
        let lo = b.text.len();
        let (t, off, v): (String, usize, V) = match p[i % p.len()] {
            0 => (format!("&a x{i}\n"), 3, V::Str(format!("x{i}"))),
            1 => (format!("&b [ {i} ]\n"), 3, V::Seq(vec![at(V::Int(i.to_string()), lo + 5, lo + 5)])),
            2 => (format!("&a {{k: v{i} }}\n"), 3, V::Map(vec![(at(V::Str("k".into()), lo + 4, lo + 4), at(V::Str(format!("v{i}")), lo + 7, lo + 7))])),
            3 => (format!("&c{i} |\n  l{i}\n"), 3 + i.to_string().len(), V::Str(format!("l{i}\n"))),
            4 => (format!("# c\n&a 'q'\n"), 7, V::Str("q".into())),
            _ => (format!("&d \"é\"\n# c\n"), 3, V::Str("é".into())),
        };
        let name = t[t.find('&').unwrap() + 1..].split(' ').next().unwrap().to_string();
        b.text.push_str(&t);
        let d = at(v, lo + off, lo + off);
        b.anchors.push(vec![(name, d.clone())]);
        b.docs.push(d);
    }
    b
}
/// n anchors and as many aliases behind them, in some order; `direct`: the value of aliases.
pub fn anchors(ch: &mut Ch, max: usize, direct: bool) -> Big {
    let n = 1 + ch.pick(max);
    let form = ch.pick(4);
    let order = ch.pick(3);
    let mut b = Big { text: String::new(), docs: vec![], anchors: vec![] };
    let mut items = vec![];
    let mut table: Vec<(String, N)> = vec![];
    for i in 0..n {
        let name = format!("n{i}");
        let (t, v): (String, V) = match form {
            0 => (format!("v{i}"), V::Str(format!("v{i}"))),
            1 => (format!("[{i}]"), V::Seq(vec![V::Int(i.to_string()).into()])),
            2 if i > 0 => (format!("[*n{} ]", i - 1), V::Seq(vec![if direct { table[i - 1].1.clone() } else { V::Alias(format!("n{}", i - 1)).into() }])),
            3 => (format!("\n  k: v{i}"), V::Map(vec![(s("k"), s(&format!("v{i}")))])),
            _ => ("x".into(), V::Str("x".into())),
        };
        b.text.push_str(&format!("- &{name} {t}\n"));
        let n: N = v.into();
        table.push((name, n.clone()));
        items.push(n);
    }
    for i in 0..n {
        let k = match order {
            0 => i,
            1 => n - 1 - i,
            _ => i * 7 % n,
        };
        b.text.push_str(&format!("- *n{k}\n"));
        items.push(if direct { table[k].1.clone() } else { V::Alias(format!("n{k}")).into() });
    }
    b.docs.push(V::Seq(items).into());
    b.anchors.push(table);
    b
}

// ------------------------------------------------------------------ what is checked
fn head(t: &str) -> String {
    if t.len() <= 300 {
        format!("{t:?}")
    } else {
        format!("{:?}... ({} bytes)", t.chars().take(200).collect::<String>(), t.len())
    }
}
fn begin(ch: &mut Ch, b: &Big, what: &str) -> bool {
    if !ch.begin(|| format!("{what} {:?}", b.text)) {
        return false;
    }
    ch.state(hash_of(&b.text));
    ch.tally.validated += 1;
    true
}
fn short(e: String) -> String {
    let mut e = e;
    if e.len() > 1500 {
        let mut n = 1500;
        while !e.is_char_boundary(n) {
            n -= 1;
        }
        e.truncate(n);
    }
    e
}
/// Load and compare the values, or also the tags and positions.
pub fn load(ch: &mut Ch, b: &Big, see: See) -> Result<(), String> {
    if !begin(ch, b, "load") {
        return Ok(());
    }
    let mut l = Loader::<RcRepr>::new(b.text.as_bytes());
    let got = l.parse().map_err(|e| format!("rejected: {e}"))?;
    same_docs(&got, &b.docs, see).map_err(short)?;
    let t = l.get_anchors();
    if t.len() != b.docs.len() {
        return Err(format!("{} anchor tables for {} documents", t.len(), b.docs.len()));
    }
    for (g, w) in t.iter().zip(&b.anchors) {
        same_anchors(g, w, see).map_err(short)?;
    }
    ch.outcome("equal");
    Ok(())
}
/// The same in the cyclic mode.
pub fn cyclic(ch: &mut Ch, b: &Big, see: See) -> Result<(), String> {
    if !begin(ch, b, "load in the cyclic mode") {
        return Ok(());
    }
    let (got, t) = parse_cyclic::<RcRepr>(&b.text).map_err(|e| format!("rejected: {e}"))?;
    same_docs(&got, &b.docs, see).map_err(short)?;
    if t.len() != b.docs.len() {
        return Err(format!("{} anchor tables for {} documents", t.len(), b.docs.len()));
    }
    for (g, w) in t.iter().zip(&b.anchors) {
        same_anchors(g, w, see).map_err(short)?;
    }
    ch.outcome("equal");
    Ok(())
}
/// Dump the tree, load it, compare, dump it again.
pub fn dumped(ch: &mut Ch, b: &Big) -> Result<(), String> {
    c11::trip(ch, &b.docs).map_err(short)
}
/// Load in the cyclic mode, dump with the anchors, load, compare, dump again.
pub fn dumped_anchors(ch: &mut Ch, b: &Big) -> Result<(), String> {
    if !begin(ch, b, "dump what is loaded from") {
        return Ok(());
    }
    let (got, t) = parse_cyclic::<RcRepr>(&b.text).map_err(|e| format!("rejected: {e}"))?;
    let out = dump(&got, &t);
    let (back, u) = parse_cyclic::<RcRepr>(&out).map_err(|e| format!("dumped as {}, which is rejected: {e}", head(&out)))?;
    same_docs(&back, &b.docs, TAGS).map_err(short)?;
    for (g, w) in u.iter().zip(&b.anchors) {
        same_anchors(g, w, TAGS).map_err(short)?;
    }
    if u.len() != b.anchors.len() || dump(&back, &u) != out {
        return Err(format!("dumped as {}, then differently", head(&out)));
    }
    ch.outcome("equal");
    Ok(())
}
/// Each alias shares the data of its anchor.
pub fn shared(ch: &mut Ch, b: &Big) -> Result<(), String> {
    let n = b.anchors[0].len();
    let aliases: Vec<usize> = b.text.lines().filter_map(|l| l.strip_prefix("- *n")).map(|l| l.parse().unwrap()).collect();
    if !begin(ch, b, "load") {
        return Ok(());
    }
    let got = parse::<RcRepr>(&b.text).map_err(|e| format!("rejected: {e}"))?;
    same_docs(&got, &b.docs, VALUE).map_err(short)?;
    for (i, k) in aliases.iter().enumerate() {
        if !std::ptr::eq(got[0][Ind(*k)].yaml(), got[0][Ind(n + i)].yaml()) {
            return Err(format!("alias {i} does not share the data of anchor n{k}"));
        }
    }
    ch.outcome("shared");
    Ok(())
}
/// Maps with many keys find each of them and no other.
pub fn lookup(ch: &mut Ch, max: usize) -> Result<(), String> {
    let n = ch.pick(max + 1);
    let kind = ch.pick(4);
    if !ch.begin(|| format!("{n} keys of kind {kind}")) {
        return Ok(());
    }
    ch.state(hash_of(&(n, kind)));
    ch.tally.validated += 1;
    let key = |i: usize, other: bool| -> NodeRc {
        match kind {
            0 => format!("k{i}").into(),
            1 if other => Yaml::Int(format!("0x{i:x}")).into(),
            1 => i.into(),
            2 if other => Yaml::Float(format!("{i}.50")).into(),
            2 => Yaml::Float(format!("{i}.5")).into(),
            _ => vec![NodeRc::from(i), NodeRc::from("x")].into(),
        }
    };
    // each key twice: the second one wins
    let m: NodeRc = (0..2 * n).map(|i| (key(i % n.max(1), i >= n), NodeRc::from(i))).collect();
    let got = m.as_map().map_err(|_| "not a map")?;
    if got.len() != n {
        return Err(format!("{} entries, expected {n}", got.len()));
    }
    for i in 0..n {
        for o in [false, true] {
            if m.get(key(i, o)).map(|v| v.as_int()) != Ok(Ok((n + i) as i64)) {
                return Err(format!("key {i}: {:?}", m.get(key(i, o))));
            }
        }
    }
    if m.get(key(n, false)).is_ok() || got.iter().enumerate().any(|(i, (_, v))| v.as_int() != Ok((n + i) as i64)) {
        return Err("other keys or another order".into());
    }
    ch.outcome("found");
    Ok(())
}
