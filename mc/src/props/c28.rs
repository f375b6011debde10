//! C28: a document keeps its data wherever it is placed.
use super::Prop;
use crate::engine::*;
use yaml_peg::{parse, repr::RcRepr, NodeRc, Yaml};

/// Bytes of the text in front of each byte of the placed text: `at[i]` is where byte `i` went,
/// `from[i]` the first place in front of it that was inserted.
struct Placed {
    text: String,
    at: Vec<usize>,
    from: Vec<usize>,
}
impl Placed {
    fn new(text: &str) -> Self {
        Self { text: text.into(), at: vec![], from: vec![] }
    }
    /// Add the text; `start`: its first line is indented like the others.
    fn add(mut self, doc: &str, indent: usize, mut start: bool) -> Self {
        for (i, c) in doc.bytes().enumerate() {
            let p = self.text.len();
            if start && c != b'\n' && c != b'\r' {
                self.text.push_str(&" ".repeat(indent));
            }
            start = c == b'\n' || (c == b'\r' && doc.as_bytes().get(i + 1) != Some(&b'\n'));
            self.from.push(p);
            self.at.push(self.text.len());
            // the texts are ASCII
            self.text.push(c.into());
        }
        self.from.push(self.text.len());
        self.at.push(self.text.len());
        self
    }
    fn end(mut self, t: &str) -> Self {
        self.text.push_str(t);
        self
    }
}

fn same(a: &NodeRc, b: &NodeRc, pl: &Placed, root: bool) -> Result<(), String> {
    if a.tag() != b.tag() {
        return Err(format!("the tag {:?} of {a:?} is {:?}", a.tag(), b.tag()));
    }
    let (p, q) = (a.pos() as usize, b.pos() as usize);
    // (an empty value may be anywhere in its gap)
    if !root && !matches!(a.yaml(), Yaml::Null) && !(pl.from[p]..=pl.at[p]).contains(&q) {
        return Err(format!("the position {p} of {a:?} is {q}"));
    }
    match (a.yaml(), b.yaml()) {
        (Yaml::Seq(v), Yaml::Seq(w)) if v.len() == w.len() => v.iter().zip(w.iter()).try_for_each(|(a, b)| same(a, b, pl, false)),
        (Yaml::Map(v), Yaml::Map(w)) if v.len() == w.len() => v.iter().zip(w.iter()).try_for_each(|((k, a), (l, b))| same(k, l, pl, false).and_then(|()| same(a, b, pl, false))),
        (Yaml::Seq(_) | Yaml::Map(_), _) => Err(format!("{a:?} is {b:?}")),
        (y, z) if std::mem::discriminant(y) == std::mem::discriminant(z) && format!("{y:?}") == format!("{z:?}") => Ok(()),
        (y, z) => Err(format!("{y:?} is {z:?}")),
    }
}

type Find = fn(&[NodeRc]) -> Option<&NodeRc>;
fn item(v: &[NodeRc], i: usize) -> Option<&NodeRc> {
    match v {
        [n] => match n.yaml() {
            Yaml::Seq(w) => w.get(i),
            _ => None,
        },
        _ => None,
    }
}
fn value<'a>(v: &'a [NodeRc], k: &str) -> Option<&'a NodeRc> {
    match v {
        [n] => match n.yaml() {
            Yaml::Map(m) => m.iter().find(|(l, _)| l.as_str() == Ok(k)).map(|(_, v)| v),
            _ => None,
        },
        _ => None,
    }
}
/// in front, behind, indentation, where it is
const BLOCK: &[(&str, &str, usize, Find)] = &[
    ("---\n", "", 0, |v| v.first().filter(|_| v.len() == 1)),
    ("--- # c\n", "...\n", 0, |v| v.first().filter(|_| v.len() == 1)),
    ("# c: [\n\n", "# c\n\n", 0, |v| v.first().filter(|_| v.len() == 1)),
    ("---\n- z\n---\n", "---\n- z\n", 0, |v| v.get(1).filter(|_| v.len() == 3)),
    ("z: {}\n---\n", "...\n---\n'z'\n", 0, |v| v.get(1).filter(|_| v.len() == 3)),
    ("zz:\n", "", 2, |v| value(v, "zz")),
    ("yy: z\nzz:\n", "y: z\n", 1, |v| value(v, "zz").filter(|_| value(v, "y").is_some())),
    ("-\n", "", 2, |v| item(v, 0)),
    ("- z\n-\n", "- z\n", 4, |v| item(v, 1).filter(|_| item(v, 2).is_some())),
    ("-\n  -\n", "- z\n", 4, |v| item(v, 0).and_then(|n| item(std::slice::from_ref(n), 0)).filter(|_| item(v, 1).is_some())),
    ("? zz\n:\n", "", 2, |v| value(v, "zz")),
    ("-\n  yy: z\n  zz:\n", "  y: z\n", 4, |v| item(v, 0).and_then(|n| value(std::slice::from_ref(n), "zz"))),
    ("zz:\n", "y: z\n", 70, |v| value(v, "zz").filter(|_| value(v, "y").is_some())),
    ("zz:\n zz:\n  zz:\n   zz:\n    zz:\n     zz:\n      zz:\n       zz:\n        zz:\n", "    y: z\n", 9, |v| (0..8).try_fold(value(v, "zz")?, |n, _| value(one(n), "zz"))),
    ("-\n -\n  -\n   -\n    -\n     -\n      -\n       -\n        -\n         -\n          -\n           -\n            -\n             -\n              -\n               -\n                -\n                 -\n                  -\n                   -\n", " - z\n", 20, |v| (0..19).try_fold(item(v, 0)?, |n, _| item(one(n), 0))),
    ("?\n", ": z\n", 2, |v| match v {
        [n] => match n.yaml() {
            Yaml::Map(m) => m.iter().next().map(|(k, _)| k),
            _ => None,
        },
        _ => None,
    }),
];

/// The same for flow collections and quoted texts, the first line is behind an indicator.
const FLOW: &[(&str, &str, Find)] = &[
    ("[ ", "  ]\n", |v| item(v, 0)),
    ("[z, ", "  , y]\n", |v| item(v, 1).filter(|_| item(v, 2).map_or(false, |n| n.as_str() == Ok("y")))),
    ("{zz: ", "  , z: y}\n", |v| value(v, "zz").filter(|_| value(v, "z").map_or(false, |n| n.as_str() == Ok("y")))),
    ("- - [{zz: ", "  }]\n- z\n", |v| item(v, 0).and_then(|n| item(one(n), 0)).and_then(|n| item(one(n), 0)).and_then(|n| value(one(n), "zz")).filter(|_| item(v, 1).is_some())),
    ("zz: [[], ", "  ,\n  ]\ny: z\n", |v| value(v, "zz").and_then(|n| item(one(n), 1)).filter(|_| value(v, "y").is_some())),
];
const INLINE: &[(&str, &str, Find)] = &[
    ("--- ", "", |v| v.first().filter(|_| v.len() == 1)),
    ("- ", "", |v| item(v, 0)),
    ("- ", "- z\n", |v| item(v, 0).filter(|_| item(v, 1).is_some())),
    ("zz: ", "", |v| value(v, "zz")),
    ("- yy: z\n  zz: ", "  y: z\n", |v| item(v, 0).and_then(|n| value(one(n), "zz"))),
    ("? zz\n: ", "y: z\n", |v| value(v, "zz").filter(|_| value(v, "y").is_some())),
    ("zz: &yy ", "", |v| value(v, "zz")),
    ("- &yy\t", "- z\n", |v| item(v, 0).filter(|_| item(v, 1).is_some())),
];
fn one(n: &NodeRc) -> &[NodeRc] {
    std::slice::from_ref(n)
}

const TOKENS: &[&str] = &["a", "\n", "- ", ": ", "  ", "? ", "[", "]", ", ", "{", "}", "&a ", "*a", "!t ", "\"", "'", "|\n", "#", " ", "-", ":", "b"];


/// Does the text load? All places give the same, or none does.
fn judge(ch: &mut Ch, t: &str) -> Result<(), String> {
    if !ch.begin(|| format!("place {t:?}")) {
        return Ok(());
    }
    let root = match parse::<RcRepr>(t) {
        Ok(v) if v.len() == 1 => Some(v.into_iter().next().unwrap()),
        Ok(_) => return Ok(ch.outcome("several documents")),
        Err(_) => None,
    };
    ch.state(hash_of(t));
    let first = t.lines().map(str::trim_start).find(|l| !l.is_empty() && !l.starts_with('#')).unwrap_or("");
    // properties in the line of a block collection are those of the collection only at the root
    let own = first.starts_with(['&', '!']);
    let Some(root) = root else {
        for (a, b, ind, _) in BLOCK {
            // (the indentation of the value of an explicit key is not judged)
            if own && *ind > 0 || *a == "?\n" {
                continue;
            }
            let pl = Placed::new(a).add(t, *ind, true).end(b);
            ch.tally.validated += 1;
            if let Ok(v) = parse::<RcRepr>(&pl.text) {
                return Err(format!("it is rejected, but {:?} is {v:?}", pl.text));
            }
        }
        return Ok(ch.outcome("rejected everywhere"));
    };
    for nl in ["\r\n", "\r"] {
        let mut pl = Placed::new("");
        for c in t.bytes() {
            pl.at.push(pl.text.len());
            match c {
                b'\n' => pl.text.push_str(nl),
                c => pl.text.push(c.into()),
            }
        }
        pl.at.push(pl.text.len());
        pl.from = pl.at.clone();
        let v = parse::<RcRepr>(&pl.text).map_err(|e| format!("{:?} is rejected: {e}", pl.text))?;
        ch.tally.validated += 1;
        same(&root, &v[0], &pl, false).map_err(|e| format!("in {:?}: {e}", pl.text))?;
    }
    let check = |ch: &mut Ch, pl: Placed, find: &Find, free: bool| {
        let v = parse::<RcRepr>(&pl.text).map_err(|e| format!("{:?} is rejected: {e}", pl.text))?;
        let n = find(&v).ok_or_else(|| format!("not found in {:?}: {v:?}", pl.text))?;
        ch.tally.validated += 1;
        same(&root, n, &pl, free).map_err(|e| format!("in {:?}: {e}", pl.text))
    };
    // is the root in flow style, with nothing behind it?
    let last = t.trim_end();
    let flow = !t.trim_end().lines().last().unwrap_or("").contains('#') && match (first.chars().next(), root.yaml()) {
        (Some('['), Yaml::Seq(_)) => last.ends_with(']'),
        (Some('{'), Yaml::Map(m)) => last.ends_with('}') && m.iter().next().map_or(true, |(k, _)| k.pos() != root.pos()),
        (Some(q @ ('"' | '\'')), Yaml::Str(_)) => last.ends_with(q),
        _ => false,
    };
    if flow {
        for (a, b, find) in FLOW {
            check(ch, Placed::new(a).add(t, 2, false).end(b), find, false)?;
            check(ch, Placed::new(a).add(t, 70, false).end(b), find, false)?;
        }
        if t.starts_with(first) {
            for (a, b, find) in INLINE {
                check(ch, Placed::new(a).add(t, 4, false).end(b), find, false)?;
            }
        }
        ch.outcome("equal in flow");
    }
    if !matches!(root.yaml(), Yaml::Seq(_) | Yaml::Map(_)) {
        return Ok(ch.outcome("a scalar"));
    }
    for (a, b, ind, find) in BLOCK {
        if own && *ind > 0 {
            continue;
        }
        check(ch, Placed::new(a).add(t, *ind, true).end(b), find, *ind > 0)?;
    }
    Ok(ch.outcome("equal everywhere"))
}

fn tokens(ch: &mut Ch, max: usize) -> Result<(), String> {
    let mut t = String::new();
    for _ in 0..max {
        match ch.pick(TOKENS.len() + 1) {
            0 => break,
            i => t.push_str(TOKENS[i - 1]),
        }
    }
    if t.ends_with('\n') || t.is_empty() || t.starts_with("---") || t.contains("\n---") {
        return Ok(());
    }
    t.push('\n');
    judge(ch, &t)
}

const LINES: &[&str] = &[
    "a: b", "- a", "a:", "-", "- a: b", "b: c", "- - a", "? a", ": b", "[a,", "b]", "{a: b,", "c: d}", "'a", "b'", "a: |", "# c", "", "&x", "a: &x b", "- *x", "- !t", "- >", "a: 'b", "c': d", "- \"a: b", "?", ":",
    "a", "- [a]: b", "a: {b: c }", "  ", "c: -1", "a: &x !t", "- &x", "\t# c",
];
/// Texts line by line, each line at any of the columns.
fn lines(ch: &mut Ch, max: usize, some: usize, cols: usize) -> Result<(), String> {
    let n = 2 + ch.pick(max - 1);
    let mut t = String::new();
    for i in 0..n {
        if i > 0 {
            t.push_str(&" ".repeat(ch.pick(cols)));
        }
        t.push_str(ch.of(&LINES[..some]));
        t.push('\n');
    }
    judge(ch, &t)
}

pub fn prop() -> Prop {
    Prop {
        id: "C28",
        spaces: |t| {
            let n = if t { 6 } else { 5 };
            let show = format!("{TOKENS:?}");
            let (many, few) = if t { (4, 6) } else { (3, 4) };
            vec![
                Space::new("tokens", format!("every text of at most {n} of {show}"), move |ch| tokens(ch, n)),
                Space::new("lines", format!("every text of 2 to {many} of {} lines, each in one of the columns 0 to 4", LINES.len()), move |ch| lines(ch, many, LINES.len(), 5)),
                Space::new("more lines", format!("every text of 2 to {few} of 12 lines, each in one of the columns 0 to 2"), move |ch| lines(ch, few, 12, 3)),
            ]
        },
        oracle: "the same text loaded alone: the tree, tags and positions it gives in 16 block and 13 in-line places and with three line end styles, or that it is rejected in all block places",
        assumptions: &["properties in the line of a block collection are those of the collection only at the root, so these texts are only put into streams", "positions of empty values and of the placed collection itself are not compared"],
    }
}
