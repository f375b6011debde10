//! C25: malformed structure is rejected, well-formed structure is not.
use super::Prop;
use crate::{doc::*, engine::*};
use yaml_peg::{parse, parse_cyclic, repr::RcRepr};

/// What the reference says about a text.
enum Say {
    /// well-formed, with this tree
    Good(N),
    /// not well-formed in any reading
    Bad,
    /// accepted by some readers, or a documented limit
    Open,
}

fn judge(ch: &mut Ch, text: &str, say: Say) -> Result<(), String> {
    if !ch.begin(|| match &say {
        Say::Good(n) => format!("load {text:?}, well-formed, is {}", show(&n.v)),
        Say::Bad => format!("load {text:?}, not well-formed"),
        Say::Open => format!("load {text:?}"),
    }) {
        return Ok(());
    }
    ch.state(hash_of(text));
    ch.tally.validated += 1;
    let got = parse::<RcRepr>(text);
    let cyc = parse_cyclic::<RcRepr>(text);
    match (&say, got) {
        (Say::Good(n), Ok(v)) => {
            same_docs(&v, std::slice::from_ref(n), VALUE)?;
            same_docs(&cyc.map_err(|e| format!("cyclic mode: rejected: {e}"))?.0, std::slice::from_ref(n), VALUE)?;
            ch.outcome("well-formed");
        }
        (Say::Good(_), Err(e)) => return Err(format!("rejected: {e}")),
        (Say::Bad, Ok(v)) => return Err(format!("accepted as {v:?}")),
        (Say::Bad, Err(_)) => {
            // placeholders need no anchor
            if let (Ok(v), false) = (cyc, text.contains('*')) {
                return Err(format!("cyclic mode: accepted as {v:?}"));
            }
            ch.outcome("not well-formed");
        }
        (Say::Open, r) => ch.outcome(if r.is_ok() { "unspecified, accepted" } else { "unspecified, rejected" }),
    }
    Ok(())
}

// ------------------------------------------------------------------ flow collections
#[derive(Clone, Copy, PartialEq, Debug)]
enum T {
    Open(bool),
    Close(bool),
    Comma,
    Colon,
    Word,
    Quote,
    Ask,
}
const TOK: &[(&str, T)] = &[
    ("a", T::Word),
    ("[", T::Open(false)),
    ("]", T::Close(false)),
    ("{", T::Open(true)),
    ("}", T::Close(true)),
    (",", T::Comma),
    (":", T::Colon),
    ("\"q\"", T::Quote),
    ("?", T::Ask),
];
/// The strict grammar: every document of it has to be accepted.
struct Strict<'a> {
    t: &'a [T],
    i: usize,
}
impl Strict<'_> {
    fn eat(&mut self, t: T) -> bool {
        let b = self.t.get(self.i) == Some(&t);
        self.i += b as usize;
        b
    }
    fn node(&mut self) -> Option<N> {
        match *self.t.get(self.i)? {
            T::Open(m) => {
                self.i += 1;
                let (mut s, mut v) = (vec![], vec![]);
                loop {
                    if self.eat(T::Close(m)) {
                        break;
                    }
                    if m {
                        self.eat(T::Ask);
                        let k = self.node()?;
                        if !self.eat(T::Colon) {
                            return None;
                        }
                        let null = matches!(self.t.get(self.i), Some(T::Comma | T::Close(true)));
                        v.push((k, if null { V::Null.into() } else { self.node()? }));
                    } else {
                        s.push(self.node()?);
                    }
                    if !self.eat(T::Comma) {
                        if !self.eat(T::Close(m)) {
                            return None;
                        }
                        break;
                    }
                }
                if !m {
                    return Some(V::Seq(s).into());
                }
                // the last of equal keys wins
                let mut out: Vec<(N, N)> = vec![];
                for (k, v) in v {
                    out.retain(|(o, _)| o.v != k.v);
                    out.push((k, v));
                }
                Some(V::Map(out).into())
            }
            T::Word => {
                let mut n = 0;
                while self.eat(T::Word) {
                    n += 1;
                }
                if matches!(self.t.get(self.i), Some(T::Ask | T::Quote)) {
                    return None; // part of the text, left open
                }
                Some(s(&vec!["a"; n].join(" ")))
            }
            T::Quote => {
                self.i += 1;
                Some(s("q"))
            }
            _ => None,
        }
    }
}
/// The loose grammar: what is not in it must be rejected. Items, keys and values may be missing,
/// pairs may stand in sequences, question marks may be texts. All ends of a match from `i`.
struct Loose<'a>(&'a [T]);
impl Loose<'_> {
    fn node(&self, i: usize) -> Vec<usize> {
        match self.0.get(i) {
            Some(T::Open(m)) => {
                let mut out = vec![];
                let mut seen = std::collections::BTreeSet::new();
                let mut todo = vec![i + 1];
                while let Some(j) = todo.pop() {
                    if !seen.insert(j) {
                        continue;
                    }
                    for e in self.entry(j) {
                        match self.0.get(e) {
                            Some(T::Comma) => todo.push(e + 1),
                            Some(T::Close(c)) if c == m => out.push(e + 1),
                            _ => {}
                        }
                    }
                }
                out.sort();
                out.dedup();
                out
            }
            Some(T::Word | T::Ask) => {
                let mut v = vec![];
                let mut j = i;
                while matches!(self.0.get(j), Some(T::Word | T::Ask | T::Quote)) {
                    j += 1;
                    v.push(j);
                }
                // a key without value stands for itself
                if self.0[i] == T::Ask {
                    v.extend(self.node(i + 1));
                    v.sort();
                    v.dedup();
                }
                v
            }
            Some(T::Quote) => vec![i + 1],
            _ => vec![],
        }
    }
    fn entry(&self, i: usize) -> Vec<usize> {
        let mut starts = vec![i];
        if self.0.get(i) == Some(&T::Ask) {
            starts.push(i + 1);
        }
        let mut out = vec![];
        for st in starts {
            let mut keys = self.node(st);
            keys.push(st);
            for k in keys {
                out.push(k);
                if self.0.get(k) == Some(&T::Colon) {
                    out.push(k + 1);
                    out.extend(self.node(k + 1));
                }
            }
        }
        out.sort();
        out.dedup();
        out
    }
}
const FLOW_CTX: &[(&str, &str)] = &[("", ""), ("- ", "\n"), ("k: ", "\n"), ("--- ", "\n...\n"), ("b:\n  - c: ", " # x\n")];
fn wrap_flow(i: usize, n: N) -> N {
    match i {
        1 => V::Seq(vec![n]).into(),
        2 => V::Map(vec![(s("k"), n)]).into(),
        4 => V::Map(vec![(s("b"), V::Seq(vec![V::Map(vec![(s("c"), n)]).into()]).into())]).into(),
        _ => n,
    }
}
fn flow(ch: &mut Ch, max: usize, ctxs: usize, seps: usize) -> Result<(), String> {
    let c = ch.pick(ctxs);
    let sep = *ch.of(&[" ", "\n      "][..seps]);
    let mut t = vec![if ch.pick(2) == 0 { 1 } else { 3 }];
    while t.len() < max {
        let k = ch.pick(TOK.len() + 1);
        if k == TOK.len() {
            break;
        }
        t.push(k);
    }
    let text = format!("{}{}{}", FLOW_CTX[c].0, t.iter().map(|k| TOK[*k].0).collect::<Vec<_>>().join(sep), FLOW_CTX[c].1);
    let t: Vec<T> = t.iter().map(|k| TOK[*k].1).collect();
    let mut p = Strict { t: &t, i: 0 };
    let n = p.node();
    let say = match n {
        Some(n) if p.i == t.len() => Say::Good(wrap_flow(c, n)),
        _ if !Loose(&t).node(0).contains(&t.len()) => {
            // behind a flow collection, a colon makes it a key
            if Loose(&t).node(0).iter().any(|e| t.get(*e) == Some(&T::Colon)) {
                Say::Open
            } else {
                Say::Bad
            }
        }
        _ => Say::Open,
    };
    judge(ch, &text, say)
}

// ------------------------------------------------------------------ block structures
#[derive(Clone, Copy, PartialEq, Debug)]
enum B {
    Dash,
    Key,
    Word,
}
const LINE: &[&[B]] = &[&[B::Key, B::Word], &[B::Key], &[B::Dash, B::Word], &[B::Dash], &[B::Dash, B::Key, B::Word], &[B::Dash, B::Key], &[B::Dash, B::Dash, B::Word], &[B::Word]];
/// The tokens with their columns: `(line, column, token)`.
struct Block {
    t: Vec<(usize, usize, B)>,
    i: usize,
}
enum Stop {
    Bad,
    Open,
}
impl Block {
    fn first(&self, i: usize) -> bool {
        i == 0 || self.t[i - 1].0 != self.t[i].0
    }
    /// The next token if it begins a line.
    fn next(&self) -> Option<(usize, B)> {
        let t = self.t.get(self.i)?;
        Some((t.1, t.2))
    }
    /// The value of an entry at a column: on the same line, further right on the next lines, or
    /// nothing.
    fn value(&mut self, line: usize, col: usize, in_map: bool) -> Result<N, Stop> {
        match self.t.get(self.i) {
            Some(t) if t.0 == line => self.node(col),
            Some(t) if t.1 > col => self.node(col),
            Some(t) if in_map && t.1 == col && t.2 == B::Dash => self.seq(col),
            _ => Ok(V::Null.into()),
        }
    }
    fn seq(&mut self, c: usize) -> Result<N, Stop> {
        let mut v = vec![];
        let mut line = usize::MAX;
        while let Some((col, B::Dash)) = self.next() {
            if col != c || (!v.is_empty() && self.t[self.i].0 == line) {
                break;
            }
            line = self.t[self.i].0;
            self.i += 1;
            v.push(self.value(line, c, false)?);
        }
        Ok(V::Seq(v).into())
    }
    fn node(&mut self, parent: usize) -> Result<N, Stop> {
        let (line, c, t) = self.t[self.i];
        let n = match t {
            B::Word => {
                self.i += 1;
                // more text or an indicator in front of the end of the scalar is a part of it
                if let Some((col, t)) = self.next() {
                    if col > parent || (parent == 0 && self.root_word(line)) {
                        return Err(if t == B::Key { Stop::Bad } else { Stop::Open });
                    }
                }
                return Ok(s(&format!("v{line}")));
            }
            B::Dash => self.seq(c)?,
            B::Key => {
                let mut v = vec![];
                while let Some((col, B::Key)) = self.next() {
                    if col != c {
                        break;
                    }
                    let l = self.t[self.i].0;
                    self.i += 1;
                    let k = s(&format!("k{l}"));
                    v.push((k, self.value(l, c, true)?));
                }
                V::Map(v).into()
            }
        };
        let n: N = n;
        match self.next() {
            // further right than what it belongs to, or another kind of entry
            Some((col, _)) if col > parent && self.first(self.i) => Err(Stop::Bad),
            _ => Ok(n),
        }
    }
    fn root_word(&self, _: usize) -> bool {
        false
    }
}
fn block(ch: &mut Ch, max: usize, cols: usize) -> Result<(), String> {
    let mut text = String::new();
    let mut t = vec![];
    for l in 0..max {
        let k = ch.pick(LINE.len() + (l > 0) as usize);
        if k == LINE.len() {
            break;
        }
        let mut col = ch.pick(cols);
        text.push_str(&" ".repeat(col));
        for b in LINE[k] {
            let w = match b {
                B::Dash => "-".to_string(),
                B::Key => format!("k{l}:"),
                B::Word => format!("v{l}"),
            };
            t.push((l, col, *b));
            col += w.len() + 1;
            text.push_str(&w);
            text.push(' ');
        }
        text.pop();
        text.push('\n');
    }
    let tail = ch.pick(2);
    if tail == 1 {
        text.pop();
    }
    // a text at the root goes on in any column
    let say = if t[0].2 == B::Word && t.len() > 1 {
        match t[1].2 {
            B::Key => Say::Bad,
            _ => Say::Open,
        }
    } else {
        let mut b = Block { t, i: 0 };
        // nothing is left of the root: its column is the first one
        let root = b.t[0].1;
        let r = match b.t[0].2 {
            B::Dash => b.seq(root),
            B::Key => b.node(root),
            B::Word => Ok(s("v0")),
        };
        if b.t[0].2 == B::Word {
            b.i = 1;
        }
        match r {
            Ok(n) if b.i == b.t.len() => Say::Good(n),
            Ok(_) | Err(Stop::Bad) => Say::Bad,
            Err(Stop::Open) => Say::Open,
        }
    };
    judge(ch, &text, say)
}

// ------------------------------------------------------------------ malformed parts
/// Parts that are wrong wherever they stand.
const WRONG: &[&str] = &[
    "\"a", "'a", "\"a\\\"", "'a''", "\"", "'", "[a", "[a, ", "[", "{a: b", "{a: b, ", "{a: ", "{", "[a }", "{a: b ]", "[}", "{]", "[[a]", "[{a: b]", "{a: [b}", "[a, 'b]", "[a, \"b]", "*undef", "[*undef ]", "{a: *undef }", "{*undef : a}", "!u!x a", "[!u!x a]", "&", "& a", "*",
    "* a", "[&, a]", "!<a b> c", "!<> a", "!<a", "\"a\" b", "'a' b", "\"a\" \"b\"", "'a''b' 'c'", "[a] b", "{a: b} c", "[a] [b]", "{} {}", "[]]", "{}}", "[\"a\" b]", "['a' b]", "[[a] b]", "[{} b]", "{a: \"b\" c}", "{a: [b] c}", "{\"a\" b: c}", "{'a', b: c}", "{[a], b: c}",
    "&x &y a", "&x !t &y a", "[&x a, &x b]", "[&x a, {b: &x c}]", "{&x a: &x b}", "[*x , &x a]", "{a: *x , b: &x c}", "[[*x ], &x a]", "&x [*x ]", "&x {a: *x }", "[\"a\": b c: d]", "{a: b: c}", "{a: b : c}", "{\"a\": \"b\": c}", "[a: b: c]", "*x", "|x", ">=1", "&x\"a\"", "&x'a'", "!t\"a\"", "!t'a'", "!!str\"a\"", "!<t>\"a\"", "&x &y\"a\"", "&x !t'a'", "!t &x\"a\"", "&x*y", "!t*y", "[\"a\"\"b\"]", "[\"a\"b: c]", "{'a'b: c}", "[*x'a']", "&x#c", "!t#c", "&x!t a", "!t&x a", "|-x", ">+ b",
];
const PLACES: &[(&str, &str)] = &[
    ("", ""),
    ("", "\n"),
    ("--- ", "\n"),
    ("---\n", "\n...\n"),
    ("# c\n\n", "\n# c\n"),
    ("k: ", "\n"),
    ("k: ", "\nl: b\n"),
    ("j: b\nk: ", " # c\n"),
    ("- ", "\n"),
    ("- ", "\n- b\n"),
    ("- b\n- ", "\n"),
    ("- - ", "\n"),
    ("- k: ", "\n  l: b\n"),
    ("k:\n  ", "\nl: b\n"),
    ("k:\n  l: ", "\n"),
    ("k:\n- ", "\n"),
    ("-\n  ", "\n"),
    ("? ", "\n: b\n"),
    ("? a\n: ", "\n"),
    ("? a\n: b\n? c\n: ", "\nd: e\n"),
    ("? - ", "\n: b\n"),
    ("k: !t ", "\n"),
    ("k: &y ", "\n"),
    ("[", "]"),
    ("[b, ", "]\n"),
    ("[", " , b]\n"),
    ("{b: ", "}\n"),
    ("{b: ", " , c: d}\n"),
    ("{? ", " : d}\n"),
    ("k: [b, ", "]\nl: c\n"),
    ("- {b: [", "]}\n- b\n"),
    ("a\n---\n", "\n"),
    ("---\na\n---\n- ", "\n"),
    ("&x a\n---\n", "\n"),
    ("%TAG !t! x\n--- ", "\n"),
    ("", "\n---\na\n"),
    ("- ", "\n...\n---\na\n"),
];
fn wrong(ch: &mut Ch) -> Result<(), String> {
    let w = *ch.of(WRONG);
    let (a, b) = *ch.of(PLACES);
    let own = a.contains("&y") && w.starts_with('&');
    let _ = own;
    let flow = a.ends_with(['[', '{']) || a.ends_with("[b, ") || a.ends_with("{b: ") || a.ends_with("{? ");
    let text = format!("{a}{w}{b}");
    // a part that is not closed may be closed by what follows in a flow collection
    let unclosed = {
        let q = w.chars().filter(|c| *c == '"').count() % 2 == 1 || w.chars().filter(|c| *c == '\'').count() % 2 == 1;
        let open = |o, c| w.matches(o).count() > w.matches(c as char).count();
        !q && (open('[', ']') || open('{', '}'))
    };
    let balance = |o: char, c: char| text.matches(o).count() == text.matches(c).count();
    if flow && unclosed && balance('[', ']') && balance('{', '}') {
        ch.skip = true;
    }
    judge(ch, &text, Say::Bad)
}

/// Directives and markers.
const HEAD: &[(&str, bool)] = &[
    ("%YAML 1.2\n---\n", true),
    ("%YAML 1.1\n---\n", true),
    ("%YAML 1.2 # c\n---\n", true),
    ("%YAML 1.2\n%YAML 1.2\n---\n", false),
    ("%YAML 1.2\n%YAML 1.1\n---\n", false),
    ("%YAML 1.2\n%TAG !t! x\n%YAML 1.2\n---\n", false),
    ("%YAML 1.0\n---\n", false),
    ("%YAML 2.0\n---\n", false),
    ("%YAML 3\n---\n", false),
    ("%YAML x\n---\n", false),
    ("%YAML 12\n---\n", false),
    ("%YAML 0.2\n---\n", false),
    ("%TAG !t! x\n---\n", true),
    ("%TAG !t! x\n%TAG !u! y\n---\n", true),
    ("%TAG !t! x # c\n%YAML 1.2\n---\n", true),
    ("%TAG ! x\n---\n", true),
    ("%TAG !! x\n---\n", true),
    ("%FOO bar\n---\n", true),
    ("%FOO bar\n%YAML 1.2\n\n# c\n---\n", true),
    ("%FOO\n%YAML 1.0\n---\n", false),
    ("---\n", true),
    ("--- # c\n", true),
    ("\n\n---\n", true),
    ("", true),
];
const DOC: &[(&str, bool)] = &[
    ("a\n", true),
    ("k: b\n", true),
    ("- b\n", true),
    ("[b]\n", true),
    ("\"b\"\n", true),
    ("|\n  b\n", true),
    ("!t!x b\n", false),
    ("[!t!x b]\n", false),
    ("k: !t!x b\n", false),
    ("!u!x b\n", false),
    ("!x b\n", true),
    ("!!str b\n", true),
    ("\"b\n", false),
    ("[b\n", false),
];
const FOOT: &[(&str, bool)] = &[
    ("", true),
    ("...\n", true),
    ("---\nb\n", true),
    ("---\n", true),
    ("...\n---\nb\n", true),
    ("# c\n", true),
    ("... # c\n", true),
    ("---\n[b\n", false),
    ("---\n\"b\n", false),
    ("---\n*x\n", false),
    ("...\n---\n!v!x a\n", false),
];
fn stream(ch: &mut Ch) -> Result<(), String> {
    let h = ch.of(HEAD).clone();
    let d = ch.of(DOC).clone();
    let f = ch.of(FOOT).clone();
    let text = format!("{}{}{}", h.0, d.0, f.0);
    let mut ok = h.1 && f.1;
    for t in ["!t!", "!u!"] {
        if d.0.contains(t) {
            ok &= h.0.contains(&format!("%TAG {t} "));
        }
    }
    if !d.0.contains("!t!") && !d.0.contains("!u!") {
        ok &= d.1;
    }
    if !ch.begin(|| format!("load {text:?}, {}", if ok { "well-formed" } else { "not well-formed" })) {
        return Ok(());
    }
    ch.state(hash_of(&text));
    ch.tally.validated += 1;
    match (parse::<RcRepr>(&text), ok) {
        (Ok(v), true) => {
            let want = 1 + f.0.contains("---") as usize;
            if v.len() != want {
                return Err(format!("{} documents, expected {want}: {v:?}", v.len()));
            }
            ch.outcome("well-formed");
            Ok(())
        }
        (Err(_), false) => Ok(ch.outcome("not well-formed")),
        (Ok(v), false) => Err(format!("accepted as {v:?}")),
        (Err(e), true) => Err(format!("rejected: {e}")),
    }
}

/// Lines in front of a document: the line, whether it is one, the handle it defines.
const PRE: &[(&str, u8, &str)] = &[
    ("%YAML 1.2", 1, ""),
    ("%YAML 1.1 # c", 1, ""),
    ("%YAML  1.2  ", 1, ""),
    ("%YAML 1.3", 0, ""),
    ("%YAML 1.2 x", 0, ""),
    ("%YAML 1.2x", 0, ""),
    ("%YAML", 0, ""),
    ("%TAG !t! x", 2, "!t!"),
    ("%TAG  !u!  x:y # c", 2, "!u!"),
    ("%TAG ! x", 2, "!"),
    ("%TAG !t!", 0, ""),
    ("%TAG t! x", 0, ""),
    ("%TAG", 0, ""),
    ("%FOO a: b", 2, ""),
    ("# c", 2, ""),
    ("  # %YAML 1.2", 2, ""),
    ("", 2, ""),
];
fn directives(ch: &mut Ch, max: usize) -> Result<(), String> {
    let n = ch.pick(max + 1);
    let mut text = String::new();
    let (mut ok, mut version, mut open) = (true, 0, false);
    let mut handles = vec![];
    for _ in 0..n {
        let (l, kind, h) = *ch.of(PRE);
        text += l;
        text += "\n";
        ok &= kind > 0;
        version += (kind == 1) as usize;
        open |= l.starts_with('%');
        handles.push(h);
    }
    ok &= version <= 1;
    let cut = ch.pick(3);
    // (without a marker behind directives: left open)
    text += ["---\n", "--- ", ""][cut];
    ch.skip |= cut == 2 && open;
    let (d, good) = *ch.of(DOC);
    ch.skip |= cut == 1 && d.starts_with("k: ");
    text += d;
    ok &= match ["!t!", "!u!"].iter().find(|h| d.contains(**h)) {
        Some(h) => handles.contains(h),
        None => good,
    };
    let (f, fok) = *ch.of(FOOT);
    text += f;
    ok &= fok;
    if !ch.begin(|| format!("load {text:?}, {}", if ok { "well-formed" } else { "not well-formed" })) {
        return Ok(());
    }
    ch.state(hash_of(&text));
    ch.tally.validated += 1;
    let want = 1 + f.contains("---") as usize;
    match (parse::<RcRepr>(&text), parse_cyclic::<RcRepr>(&text)) {
        (Ok(v), Ok(w)) if ok && v.len() == want && w.0.len() == want => ch.outcome("well-formed"),
        (Err(_), Ok(_)) if !ok && f.contains('*') => ch.outcome("not well-formed"),
        (Err(_), Err(_)) if !ok => ch.outcome("not well-formed"),
        (Err(e), _) | (_, Err(e)) if ok => return Err(format!("rejected: {e}")),
        (Ok(v), _) | (_, Ok((v, _))) => return Err(format!("accepted as {v:?}")),
        _ => unreachable!(),
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C25",
        spaces: |t| {
            let (f, g) = if t { (8, 7) } else { (7, 6) };
            let (l, m) = if t { (5, 4) } else { (4, 3) };
            vec![
                Space::new("flow", format!("every sequence of at most {f} of {} tokens of flow collections, separated by blanks", TOK.len()), move |ch| flow(ch, f, 1, 1)),
                Space::new("flow in blocks", format!("every sequence of at most {g} tokens in five places, separated by blanks or line ends"), move |ch| flow(ch, g, FLOW_CTX.len(), 2)),
                Space::new("blocks", format!("every block structure of at most {l} lines of {} forms in five columns, with and without the last line end", LINE.len()), move |ch| block(ch, l, 5)),
                Space::new("wide blocks", format!("every block structure of at most {m} lines in eight columns"), move |ch| block(ch, m, 8)),
                Space::new("wrong", format!("{} malformed parts in {} places", WRONG.len(), PLACES.len()), wrong),
                Space::new("streams", format!("{} beginnings, {} documents, {} ends", HEAD.len(), DOC.len(), FOOT.len()), stream),
                Space::new("directives", format!("every sequence of at most {m} of {} lines in front of {} documents with {} ends", PRE.len(), DOC.len(), FOOT.len()), move |ch| directives(ch, m)),
            ]
        },
        oracle: "two grammars written by hand: what the strict one has must be accepted with its tree, what the loose one does not have must be rejected",
        assumptions: &["missing items, pairs in flow sequences and indicators in plain scalars are left open", "a plain scalar in front of more indented lines is left open"],
    }
}
