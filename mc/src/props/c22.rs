//! C22: the cursor contract of the parser primitives. C24: the public sub-parsers.
use super::{parts, Prop};
use crate::engine::*;
use yaml_peg::{
    indicated_msg,
    parser::{PError, PResult, Parser, TakeOpt},
};

// ------------------------------------------------------------------ C22
#[derive(Clone, Debug)]
enum Op {
    Sym(u8),
    Set(&'static [u8]),
    Seq(&'static [u8]),
    /// take the bytes of a set, at least and at most, `None` for no limit; `true` to use `One`
    Take(&'static [u8], bool, usize, Option<usize>, bool),
    Count(Box<Op>),
    Context(Vec<Op>),
    Forward,
    Backward,
    Back(usize),
    Text,
    Consume,
    Err,
    /// match one after another, the next if the former did not match
    Or(Box<Op>, Box<Op>),
    Jump(usize),
}
#[derive(Clone, Debug, PartialEq)]
enum Out {
    Unit,
    Text(String),
    Ok(usize),
    Mismatch,
    Fatal(&'static str, String),
    List(Vec<Out>),
}
fn out<T>(r: PResult<T>, f: impl FnOnce(T) -> Out) -> Out {
    match r {
        Ok(t) => f(t),
        Err(PError::Mismatch) => Out::Mismatch,
        Err(PError::Terminate { name, msg }) => Out::Fatal(name, msg),
    }
}

/// The model: two cursors in a text and the length of what is cut off.
#[derive(Clone)]
struct Model<'a> {
    doc: &'a [u8],
    pos: usize,
    eaten: usize,
    cut: usize,
}
impl<'a> Model<'a> {
    fn fail(&mut self) -> Out {
        self.pos = self.eaten;
        Out::Mismatch
    }
    /// `None` if the call is outside of the contract
    fn step(&mut self, op: &Op) -> Option<Out> {
        let here = self.doc.get(self.pos).copied();
        Some(match op {
            Op::Sym(c) => match here {
                Some(d) if d == *c => {
                    self.pos += 1;
                    Out::Ok(0)
                }
                _ => self.fail(),
            },
            Op::Set(s) => match here {
                Some(d) if s.contains(&d) => {
                    self.pos += 1;
                    Out::Ok(0)
                }
                _ => self.fail(),
            },
            Op::Seq(s) => {
                if self.doc[self.pos..].starts_with(s) {
                    self.pos += s.len();
                    Out::Ok(0)
                } else {
                    self.fail()
                }
            }
            Op::Take(s, not, lo, hi, _) => {
                let n = self.doc[self.pos..].iter().take_while(|c| s.contains(c) != *not).count().min(hi.unwrap_or(usize::MAX));
                if n < *lo {
                    self.fail()
                } else {
                    self.pos += n;
                    Out::Ok(0)
                }
            }
            Op::Count(op) => {
                let from = self.pos;
                match self.step(op)? {
                    Out::Ok(_) => Out::Ok(self.pos - from),
                    o => o,
                }
            }
            Op::Context(ops) => {
                let eaten = self.eaten;
                self.eaten = self.pos;
                let v = ops.iter().map(|o| self.step(o)).collect::<Option<Vec<_>>>()?;
                self.eaten = eaten;
                Out::List(v)
            }
            Op::Forward => {
                self.eaten = self.pos;
                Out::Unit
            }
            Op::Backward => {
                self.pos = self.eaten;
                Out::Unit
            }
            Op::Back(n) => {
                self.pos = self.pos.checked_sub(*n)?;
                Out::Unit
            }
            Op::Text => Out::Text(if self.eaten < self.pos { String::from_utf8_lossy(&self.doc[self.eaten..self.pos]).into() } else { String::new() }),
            Op::Consume => {
                self.cut += self.pos;
                self.doc = &self.doc[self.pos..];
                self.pos = 0;
                self.eaten = 0;
                Out::Unit
            }
            Op::Err => Out::Fatal("thing", indicated_msg(self.doc, self.pos as u64)),
            Op::Or(a, b) => match self.step(a)? {
                Out::Mismatch => self.step(b)?,
                o => o,
            },
            Op::Jump(n) => {
                if *n > self.doc.len() {
                    return None;
                }
                self.pos = *n;
                self.eaten = *n;
                Out::Unit
            }
        })
    }
}
/// The calls of the implementation. A result of `PResult` kind is wanted for the alternatives.
fn call<'a>(p: &mut Parser<'a>, op: &Op) -> Out {
    fn parse(p: &mut Parser, op: &Op) -> Option<PResult<()>> {
        Some(match op {
            Op::Sym(c) => p.sym(*c),
            Op::Set(s) => p.sym_set(s),
            Op::Seq(s) => p.sym_seq(s),
            Op::Take(s, not, lo, hi, one) => {
                let opt = match hi {
                    _ if *one => TakeOpt::One,
                    Some(h) => TakeOpt::Range(*lo, *h),
                    None => TakeOpt::More(*lo),
                };
                if *not {
                    p.take_while(Parser::not_in(s), opt)
                } else {
                    p.take_while(Parser::is_in(s), opt)
                }
            }
            Op::Err => p.err("thing"),
            Op::Or(a, b) => match parse(p, a)? {
                Ok(()) => Ok(()),
                Err(e) => e.or(|| parse(p, b).unwrap()),
            },
            _ => return None,
        })
    }
    if let Some(r) = parse(p, op) {
        return out(r, |()| Out::Ok(0));
    }
    match op {
        Op::Count(op) => out(p.count(|p| parse(p, op).unwrap()), Out::Ok),
        Op::Context(ops) => Out::List(p.context(|p| ops.iter().map(|o| call(p, o)).collect())),
        Op::Forward => {
            p.forward();
            Out::Unit
        }
        Op::Backward => {
            p.backward();
            Out::Unit
        }
        Op::Back(n) => {
            p.back(*n);
            Out::Unit
        }
        Op::Text => Out::Text(p.text()),
        Op::Consume => {
            let rest = p.food();
            p.consume();
            let old = std::mem::take(p);
            *p = old.with_doc(rest);
            Out::Unit
        }
        Op::Jump(n) => {
            let old = std::mem::take(p);
            *p = old.pos(*n);
            Out::Unit
        }
        _ => unreachable!(),
    }
}

const TEXTS: &[&str] = &["aab a", "", "a", "ab", "ba\nab", " a", "aaaa", "é a", "abab"];
fn matcher(ch: &mut Ch) -> Op {
    const M: usize = 17;
    match ch.pick(M) {
        0 => Op::Sym(b'a'),
        1 => Op::Set(b" b"),
        2 => Op::Seq(b"ab"),
        3 => Op::Take(b"a", false, 0, None, false),
        4 => Op::Take(b"a", false, 1, Some(1), true),
        5 => Op::Take(b"ab", false, 1, None, false),
        6 => Op::Take(b"ab", false, 2, None, false),
        7 => Op::Take(b"a", false, 0, Some(1), false),
        8 => Op::Take(b"ab", false, 1, Some(2), false),
        9 => Op::Take(b"a", false, 2, Some(3), false),
        10 => Op::Take(b" \n", true, 0, None, false),
        11 => Op::Take(b" \n", true, 1, Some(3), false),
        12 => Op::Take(b"ab", false, 3, Some(3), false),
        13 => Op::Take(b"a", false, 0, Some(0), false),
        14 => Op::Seq(b""),
        15 => Op::Set(b""),
        _ => Op::Take(b"", true, 2, None, false),
    }
}
fn op(ch: &mut Ch, nest: usize) -> Op {
    match ch.pick(if nest > 0 { 14 } else { 10 }) {
        0 => matcher(ch),
        1 => Op::Forward,
        2 => Op::Backward,
        3 => Op::Back(1),
        4 => Op::Text,
        5 => Op::Consume,
        6 => Op::Count(Box::new(matcher(ch))),
        7 => Op::Back(2),
        8 => Op::Jump(ch.pick(3)),
        9 => Op::Err,
        10 => Op::Or(Box::new(matcher(ch)), Box::new(matcher(ch))),
        11 => Op::Or(Box::new(Op::Err), Box::new(matcher(ch))),
        12 => Op::Context(vec![op(ch, nest - 1)]),
        _ => {
            let a = op(ch, nest - 1);
            Op::Context(vec![a, op(ch, nest - 1)])
        }
    }
}
/// No text is cut off within a context, its end restores a position of the former text.
fn plain(o: &Op, inner: bool) -> bool {
    match o {
        Op::Consume => !inner,
        Op::Context(v) => v.iter().all(|o| plain(o, true)),
        _ => true,
    }
}
fn history(ch: &mut Ch, text: &'static str, len: usize, nest: usize) -> Result<(), String> {
    let ops: Vec<Op> = (0..len).map(|_| op(ch, nest)).collect();
    let mut m = Model { doc: text.as_bytes(), pos: 0, eaten: 0, cut: 0 };
    let mut want = vec![];
    for o in &ops {
        let r = if plain(o, false) { m.step(o) } else { None };
        match r {
            Some(r) => want.push((r, m.clone())),
            None => {
                ch.skip = true;
                break;
            }
        }
    }
    if !ch.begin(|| format!("text {text:?}, calls {ops:?}")) {
        return Ok(());
    }
    let mut p = Parser::new(text.as_bytes());
    for (i, (o, (r, m))) in ops.iter().zip(&want).enumerate() {
        let got = call(&mut p, o);
        ch.tally.transitions += 1;
        if got != *r {
            return Err(format!("call {i} {o:?} returned {got:?}, expected {r:?}"));
        }
        if (p.pos, p.eaten, p.indicator()) != (m.pos, m.eaten, (m.cut + m.pos) as u64) {
            return Err(format!("call {i} {o:?}: position {}, eaten {}, indicator {}, expected {}, {}, {}", p.pos, p.eaten, p.indicator(), m.pos, m.eaten, m.cut + m.pos));
        }
        if p.food() != &m.doc[m.pos..] || p.food_str() != String::from_utf8_lossy(&m.doc[m.pos..]) {
            return Err(format!("call {i} {o:?}: left is {:?}", p.food_str()));
        }
    }
    ch.tally.validated += 1;
    ch.state(hash_of(&(text, m.pos, m.eaten, m.cut)));
    ch.outcome(if want.iter().any(|w| w.0 == Out::Mismatch) { "some mismatch" } else { "all matched" });
    Ok(())
}

pub fn c22() -> Prop {
    Prop {
        id: "C22",
        spaces: |t| {
            let (a, b, c) = if t { (3, 4, 2) } else { (2, 3, 2) };
            vec![
                Space::new("flat", format!("every sequence of at most {b} calls without nesting, over {} texts", TEXTS.len()), move |ch| {
                    let text = *ch.of(TEXTS);
                    let n = 1 + ch.pick(b);
                    history(ch, text, n, 0)
                }),
                Space::new("nested", format!("every sequence of at most {a} calls with contexts and alternatives, nested once"), move |ch| {
                    let text = *ch.of(&TEXTS[..if a > 2 { 2 } else { TEXTS.len() }]);
                    let n = 1 + ch.pick(a.min(2));
                    history(ch, text, n, 1)
                }),
                Space::new("deep", "one call with contexts nested twice", move |ch| {
                    let text = *ch.of(&TEXTS[..c]);
                    history(ch, text, 1, 2)
                }),
            ]
        },
        oracle: "a model of two cursors: a match moves the position, a mismatch moves it back to the eaten cursor, a context restores the eaten cursor",
        assumptions: &["no call moves in front of the text; the text is not cut off within a context"],
    }
}

// ------------------------------------------------------------------ C24
/// What a sub-parser has to do with a text.
#[derive(Debug, Clone)]
enum Want {
    /// match this many bytes, at least and at most, with this value
    Match(usize, usize, String),
    Mismatch,
    /// a fatal error
    Fatal,
    Open,
}
use Want::*;
fn m(n: usize, v: impl Into<String>) -> Want {
    Match(n, n, v.into())
}
fn span(t: &[u8], f: impl Fn(u8) -> bool) -> usize {
    t.iter().take_while(|c| f(**c)).count()
}
fn blank(c: u8) -> bool {
    matches!(c, b' ' | b'\t')
}
fn nl(t: &[u8]) -> usize {
    match t {
        [b'\r', b'\n', ..] | [b'\n', b'\r', ..] => 2,
        [b'\n' | b'\r', ..] => 1,
        _ => 0,
    }
}
fn ident(t: &[u8]) -> usize {
    if t.first().map_or(false, u8::is_ascii_alphanumeric) {
        span(t, |c| c.is_ascii_alphanumeric() || c == b'-')
    } else {
        0
    }
}
fn st(t: &[u8]) -> String {
    String::from_utf8_lossy(t).into()
}
/// The end of a number and the blanks behind it, if nothing else follows.
fn number(t: &[u8], n: usize) -> Want {
    if n == 0 {
        return Mismatch;
    }
    let w = span(&t[n..], blank);
    match t.get(n + w) {
        None | Some(b':' | b'{' | b'}' | b'[' | b']' | b',' | b'\n' | b'\r') => Match(n, n + w, st(&t[..n])),
        Some(_) if w > 0 => Open,
        Some(_) => Mismatch,
    }
}
fn digits(t: &[u8], i: usize) -> usize {
    span(&t[i.min(t.len())..], |c| c.is_ascii_digit())
}
fn sign(t: &[u8]) -> usize {
    matches!(t.first(), Some(b'+' | b'-')) as usize
}
fn exponent(t: &[u8], i: usize) -> usize {
    if !matches!(t.get(i), Some(b'e' | b'E')) {
        return 0;
    }
    let s = sign(&t[i + 1..]);
    match digits(t, i + 1 + s) {
        0 => 0,
        n => 1 + s + n,
    }
}
const SUBS: usize = 19;
const NAMES: [&str; SUBS] = [
    "ws(More(0))", "ws(More(1))", "inv(More(1))", "nl", "comment", "identifier", "anchor", "anchor_use", "tag", "bound", "complex_mapping", "int", "float", "sci_float", "gap(false)", "gap(true)",
    "string_quoted('\"')", "string_quoted('\\'')", "string_plain",
];
fn reference(k: usize, t: &[u8], inner: bool) -> Want {
    match k {
        0 => m(span(t, blank), ""),
        1 => match span(t, blank) {
            0 => Mismatch,
            n => m(n, ""),
        },
        2 => match span(t, |c| c.is_ascii_whitespace()) {
            0 => Mismatch,
            n => m(n, ""),
        },
        3 => match nl(t) {
            0 => Mismatch,
            n => m(n, ""),
        },
        4 => {
            let w = span(t, blank);
            if t.get(w) != Some(&b'#') {
                return Mismatch;
            }
            m(w + span(&t[w..], |c| c != b'\n' && c != b'\r'), "")
        }
        5 => match ident(t) {
            0 => Mismatch,
            n => m(n, ""),
        },
        6 | 7 => {
            if t.first() != Some(if k == 6 { &b'&' } else { &b'*' }) {
                return Mismatch;
            }
            match ident(&t[1..]) {
                0 => Fatal,
                n => m(n + 1, st(&t[1..n + 1])),
            }
        }
        8 => match t {
            [b'!', b'!', r @ ..] => {
                let n = ident(r);
                m(2 + n, format!("tag:yaml.org,2002:{}", st(&r[..n])))
            }
            [b'!', b'<', r @ ..] => {
                let n = span(r, |c| !b" <>\n\r".contains(&c));
                match r.get(n) {
                    Some(b'>') if n > 0 => {
                        if ident(&r[n + 1..]) > 0 {
                            return Open;
                        }
                        m(n + 3, st(&r[..n]))
                    }
                    _ => Fatal,
                }
            }
            [b'!', r @ ..] => {
                let n = ident(r);
                match r.get(n) {
                    // no handle is defined
                    Some(b'!') if n > 0 => Fatal,
                    _ => m(1 + n, st(&r[..n])),
                }
            }
            _ => Mismatch,
        },
        9 => match t.first() {
            None => m(0, ""),
            Some(c) if b":{}[] ,\t\n\r".contains(c) => m(span(t, blank), ""),
            _ => Mismatch,
        },
        10 => match t {
            [b'?'] => m(1, ""),
            [b'?', b' ' | b'\t' | b'\n' | b'\r', ..] => m(1 + span(&t[1..], blank), ""),
            _ => Mismatch,
        },
        11 => {
            let s = sign(t);
            let mut n = digits(t, s);
            if n == 0 {
                return Mismatch;
            }
            n += s;
            if n == 1 && t[0] == b'0' {
                let d = match t.get(1) {
                    Some(b'o') => span(&t[2..], |c| (b'0'..=b'7').contains(&c)),
                    Some(b'x') => span(&t[2..], |c| c.is_ascii_hexdigit()),
                    _ => 0,
                };
                if d > 0 {
                    n = 2 + d;
                }
            }
            number(t, n)
        }
        12 => {
            let s = sign(t);
            let d = digits(t, s);
            if t.get(s + d) != Some(&b'.') {
                return Mismatch;
            }
            let f = digits(t, s + d + 1);
            if d + f == 0 {
                return Mismatch;
            }
            let n = s + d + 1 + f;
            match number(t, n + exponent(t, n)) {
                // (an integral value is shortened)
                Match(a, b, v) => Match(a, b, if d > 0 { v.strip_suffix(".0").unwrap_or(&v).into() } else { v }),
                w => w,
            }
        }
        13 => {
            let s = sign(t);
            let d = digits(t, s);
            let e = exponent(t, s + d);
            if d == 0 || e == 0 {
                return Mismatch;
            }
            number(t, s + d + e)
        }
        14 | 15 => {
            // the line ends up to the next text, blanks in empty lines and in front of the first
            let mut i = 0;
            let rest = |i: usize| -> (usize, bool) {
                let c = match reference(4, &t[i..], false) {
                    Match(n, ..) => n,
                    _ => 0,
                };
                let n = if c > 0 { c } else { span(&t[i..], blank) };
                (n, i + n == t.len() && n > 0)
            };
            if k == 15 {
                let (n, end) = rest(0);
                if end {
                    return m(n, "1");
                }
                i = n;
            }
            if nl(&t[i..]) == 0 {
                return Mismatch;
            }
            i += nl(&t[i..]);
            let mut count = 1;
            loop {
                let w = span(&t[i..], blank);
                let (r, end) = if k == 15 { rest(i + w) } else { (0, false) };
                if end {
                    return Match(i, t.len(), count.to_string());
                }
                // blanks are a gap as well at the end of the text
                if k == 15 && w > 0 && i + w == t.len() {
                    return Match(i, t.len(), count.to_string());
                }
                match nl(&t[i + w + r..]) {
                    0 => return Match(i, i, count.to_string()),
                    n => {
                        count += 1;
                        i += w + r + n;
                    }
                }
            }
        }
        16 | 17 => {
            let q = if k == 16 { b'"' } else { b'\'' };
            if t.first() != Some(&q) {
                return Mismatch;
            }
            if t.contains(&b'\n') || t.contains(&b'\r') {
                return Open;
            }
            let mut v = vec![];
            let mut i = 1;
            loop {
                match &t[i..] {
                    [] => return Fatal,
                    [b'\'', b'\'', ..] if q == b'\'' => {
                        v.push(b'\'');
                        i += 2;
                    }
                    [b'\\', c, ..] if q == b'"' => {
                        v.push(match c { b'n' => b'\n', b'a' => 7, c => *c });
                        i += 2;
                    }
                    [c, ..] if *c == q => return m(i + 1, st(&v)),
                    [c, ..] => {
                        v.push(*c);
                        i += 1;
                    }
                }
            }
        }
        _ => {
            if t.first().map_or(false, |c| c.is_ascii_whitespace()) {
                return Open;
            }
            if t.contains(&b'\n') || t.contains(&b'\r') {
                return Open;
            }
            match t {
                [b'#' | b'&' | b'!', ..] | [b'-' | b'?'] | [b'-' | b'?', b' ' | b'\t', ..] => return Mismatch,
                _ => {}
            }
            let mut i = 0;
            while i < t.len() {
                match &t[i..] {
                    [b':'] | [b':', b' ' | b'\t', ..] | [b' ' | b'\t', b'#', ..] => break,
                    [b':', b',' | b'[' | b']' | b'{' | b'}', ..] if inner => return Open,
                    [b',', ..] if inner => break,
                    [b'[' | b']' | b'{' | b'}', ..] if inner || i == 0 => break,
                    _ => i += 1,
                }
            }
            let n = t[..i].len() - t[..i].iter().rev().take_while(|c| blank(**c)).count();
            if n == 0 {
                Mismatch
            } else {
                Match(n, i, st(&t[..n]))
            }
        }
    }
}
fn sub(k: usize, p: &mut Parser, inner: bool) -> PResult<String> {
    let unit = |r: PResult<()>| r.map(|()| String::new());
    match k {
        0 => unit(p.ws(TakeOpt::More(0))),
        1 => unit(p.ws(TakeOpt::More(1))),
        2 => unit(p.inv(TakeOpt::More(1))),
        3 => unit(p.nl()),
        4 => unit(p.comment()),
        5 => unit(p.identifier()),
        6 => p.anchor(),
        7 => p.anchor_use(),
        8 => p.tag(),
        9 => unit(p.bound()),
        10 => unit(p.complex_mapping()),
        11 => p.int(),
        12 => p.float(),
        13 => p.sci_float(),
        14 => p.gap(false).map(|n| n.to_string()),
        15 => p.gap(true).map(|n| n.to_string()),
        16 => p.string_quoted(b'"', b"\\\"").map(|s| Parser::escape(&s)),
        17 => p.string_quoted(b'\'', b"''"),
        _ => p.string_plain(0, inner),
    }
}
/// Alphabets by the sub-parsers they are for.
const ALPHA: &[(&[&str], &[usize])] = &[
    (&[" ", "\n", "\r", "#", "a", "\t"], &[0, 1, 2, 3, 4, 9, 10, 14, 15]),
    (&["&", "*", "!", "a", "-", "<", ">", "Z", " ", "9", "é", "\n"], &[5, 6, 7, 8]),
    (&["0", "7", "8", "9", "+", "-", ".", "e", "o", "x", "a", " ", ","], &[11, 12, 13]),
    (&["\"", "'", "\\", "a", " ", "n", "#", "é"], &[16, 17]),
    (&["a", " ", ":", "#", "-", "?", ",", "[", "}", "&", "\"", "é", "\t"], &[18]),
    (&["?", " ", "\n", ":", "}", ",", "a", "[", "\r", "\t", "\"", "'", "&"], &[9, 10]),
];
fn lexical(ch: &mut Ch, len: usize) -> Result<(), String> {
    let a = ch.pick(ALPHA.len());
    let k = *ch.of(ALPHA[a].1);
    let inner = k == 18 && ch.flip();
    let front = *ch.of(&["", "x ", "\n"]);
    let n = ch.pick(len + 1);
    let body: String = (0..n).map(|_| *ch.of(ALPHA[a].0)).collect();
    let text = format!("{front}{body}");
    if !ch.begin(|| format!("{} at {} of {text:?}", NAMES[k], front.len())) {
        return Ok(());
    }
    ch.state(hash_of(&(k, &text)));
    ch.tally.validated += 1;
    let want = reference(k, body.as_bytes(), inner);
    let from = front.len();
    let mut p = Parser::new(text.as_bytes()).pos(from);
    let got = sub(k, &mut p, inner);
    if p.eaten != from {
        return Err(format!("the eaten cursor moved to {}", p.eaten));
    }
    match (&want, &got) {
        (_, Err(PError::Mismatch)) if p.pos != from => return Err(format!("mismatch, but the position is {}", p.pos)),
        (Open, _) => ch.outcome("unspecified"),
        (Mismatch, Err(PError::Mismatch)) => ch.outcome("mismatch"),
        (Fatal, Err(PError::Terminate { .. })) => ch.outcome("error"),
        (Match(lo, hi, v), Ok(s)) => {
            if s != v {
                return Err(format!("value {s:?}, expected {v:?}"));
            }
            if p.pos < from + lo || p.pos > from + hi {
                return Err(format!("position {}, expected {}..={}", p.pos, from + lo, from + hi));
            }
            ch.outcome("match");
        }
        _ => return Err(format!("result {got:?}, expected {want:?}")),
    }
    Ok(())
}

/// The stack of indentations.
fn indentation(ch: &mut Ch, len: usize) -> Result<(), String> {
    #[derive(Debug)]
    struct Step(bool, usize, usize);
    let n = 1 + ch.pick(len);
    let steps: Vec<Step> = (0..n).map(|_| Step(ch.flip(), ch.pick(4), ch.pick(6))).collect();
    let mut w = vec![0usize];
    let mut want = vec![];
    fn ind(w: &mut Vec<usize>, l: usize, k: usize) -> Option<usize> {
        w.resize(if l >= w.len() { l + 1 } else { w.len() }, 2);
        w.truncate(l + 1);
        let n = w.iter().sum();
        (k >= n).then_some(n)
    }
    for Step(define, l, k) in &steps {
        if !define {
            want.push(ind(&mut w, *l, *k));
        } else if *l == 0 {
            if w.len() > 1 {
                ch.skip = true;
            }
            w[0] = *k;
            want.push(Some(*k));
        } else if ind(&mut w, l - 1, *k).is_some() {
            let n: usize = w.iter().sum();
            w.push(k - n);
            want.push(Some(*k));
        } else {
            want.push(None);
        }
    }
    if !ch.begin(|| format!("calls (define, level, spaces of the line) {steps:?}")) {
        return Ok(());
    }
    ch.state(hash_of(&w));
    ch.tally.validated += 1;
    let mut text = String::new();
    let mut at = vec![];
    for Step(_, _, k) in &steps {
        at.push(text.len());
        text += &(" ".repeat(*k) + "a\n");
    }
    let mut p = Parser::new(text.as_bytes());
    for (i, Step(define, l, _)) in steps.iter().enumerate() {
        p = p.pos(at[i]);
        let r = if *define { p.ind_define(*l) } else { p.ind(*l) };
        let got = match r {
            Ok(()) => Some(p.pos - at[i]),
            Err(PError::Mismatch) if p.pos == at[i] => None,
            r => return Err(format!("step {i}: {r:?} at {}", p.pos - at[i])),
        };
        if got != want[i] {
            return Err(format!("step {i}: {got:?} spaces, expected {:?}", want[i]));
        }
    }
    ch.outcome(if want.iter().all(|w| w.is_some()) { "all matched" } else { "some mismatch" });
    Ok(())
}

/// Directives define what tags mean.
const DIR: &[&str] = &["%YAML 1.2", "%YAML 1.1", "%YAML 1.3", "%YAML  1.2 # c", "%TAG ! x-", "%TAG !! y:", "%TAG !a! z:", "%TAG !a! w/", "%TAG !a-b!  v, # c", "%FOO bar", "%TAG a b", "%TAG !a z", "%TAG !a!", "TAG", "%YAML", "%", "%YAMLX 1.2"];
const TAGS: &[&str] = &["!", "!t", "!!t", "!a!t", "!a-b!t", "!<full>", "!a!"];
fn directives(ch: &mut Ch, len: usize) -> Result<(), String> {
    let n = ch.pick(len + 1);
    let lines: Vec<usize> = (0..n).map(|_| ch.pick(DIR.len())).collect();
    let tag = *ch.of(TAGS);
    let eol = *ch.of(&["\n", "\r\n"]);
    let text = lines.iter().map(|i| format!("{}{eol}", DIR[*i])).collect::<String>() + tag + " b";
    if !ch.begin(|| format!("directives and tag {text:?}")) {
        return Ok(());
    }
    ch.state(hash_of(&text));
    ch.tally.validated += 1;
    let mut p = Parser::new(text.as_bytes());
    let mut tags = std::collections::BTreeMap::from([("!", ""), ("!!", "tag:yaml.org,2002:")]);
    let mut seen = false;
    for i in lines {
        let want = match i {
            0 | 1 | 3 if seen => Some(false),
            0 | 1 | 3 => {
                seen = true;
                Some(true)
            }
            2 => Some(false),
            4 | 5 | 6 | 7 | 8 => {
                let (k, v) = [("!", "x-"), ("!!", "y:"), ("a", "z:"), ("a", "w/"), ("a-b", "v,")][i - 4];
                tags.insert(k, v);
                Some(true)
            }
            9 | 15 => Some(true),
            13 => None,
            16 => match p.directive() {
                // (another name, or malformed)
                Err(PError::Mismatch) => return Err(format!("mismatch, position {}", p.pos)),
                _ => return Ok(ch.outcome("unspecified")),
            },
            _ => Some(false),
        };
        let r = p.directive();
        match (&r, want) {
            (Ok(()), Some(true)) => p.forward(),
            (Err(PError::Terminate { .. }), Some(false)) => return Ok(ch.outcome("error")),
            (Err(PError::Mismatch), None) if p.pos == p.eaten => return Ok(ch.outcome("no directive")),
            _ => return Err(format!("directive {:?}: {r:?}, position {}", DIR[i], p.pos)),
        }
    }
    let (h, t) = match tag {
        "!" => ("!", ""),
        "!t" => ("!", "t"),
        "!!t" => ("!!", "t"),
        "!a!t" => ("a", "t"),
        "!a!" => ("a", ""),
        "!a-b!t" => ("a-b", "t"),
        _ => ("", "full"),
    };
    let want = if h.is_empty() { Some(t.to_string()) } else { tags.get(h).map(|p| format!("{p}{t}")) };
    let from = p.pos;
    match (p.tag(), want) {
        (Ok(s), Some(w)) if s == w && p.pos == from + tag.len() => ch.outcome("tag"),
        (Err(PError::Terminate { .. }), None) => ch.outcome("no handle"),
        (r, w) => return Err(format!("tag {r:?}, expected {w:?}, {} of {} bytes", p.pos - from, tag.len())),
    }
    Ok(())
}

/// Escapes of double quoted strings.
const ESC: &[(&str, &str)] = &[
    ("a", "a"), ("\\n", "\n"), ("\\r", "\r"), ("\\t", "\t"), ("\\b", "\u{8}"), ("\\f", "\u{c}"), ("\\0", "\0"), ("\\a", "\u{7}"), ("\\v", "\u{b}"), ("\\e", "\u{1b}"), ("\\N", "\u{85}"), ("\\_", "\u{a0}"), ("\\L", "\u{2028}"), ("\\P", "\u{2029}"),
    ("\\\\", "\\"), ("\\\"", "\""), ("\\/", "/"), ("\\x41", "A"), ("\\xe9", "é"), ("\\u0041", "A"), ("\\u20AC", "€"), ("\\ud83d\\ude00", "😀"), ("\\U0001f600", "😀"), ("\\uFFFF", "\u{ffff}"), ("\\U0010FFFF", "\u{10ffff}"), ("n", "n"), ("x41", "x41"), ("é", "é"), ("\\x00", "\0"), (" ", " "),
    ("\n", "\n"),
];
fn escapes(ch: &mut Ch, len: usize) -> Result<(), String> {
    let n = ch.pick(len + 1);
    let (mut a, mut b) = (String::new(), String::new());
    for _ in 0..n {
        let (x, y) = ch.of(ESC);
        a += x;
        b += y;
    }
    if !ch.begin(|| format!("escaped {a:?} is {b:?}")) {
        return Ok(());
    }
    ch.state(hash_of(&a));
    ch.tally.validated += 1;
    let got = Parser::escape(&a);
    if got != b {
        return Err(format!("got {got:?}"));
    }
    ch.outcome("equal");
    Ok(())
}

/// Block scalars called directly, with the parts of a document behind them left.
fn scalars(ch: &mut Ch, len: usize) -> Result<(), String> {
    let fold = ch.flip();
    let chomp = ch.pick(3);
    let level = ch.pick(3);
    let tail = *ch.of(&["", "c", "- c", "# c"]);
    let n = ch.pick(len + 1);
    let ind = 2 * level + ch.pick(2) * 2 * (level > 0) as usize;
    let mut lines: Vec<&str> = (0..n).map(|_| *ch.of(&["a", "", "b c", "#", "x: y", "---a"])).collect();
    let cut = ch.flip();
    let mut text = format!("{}{}\n", if fold { ">" } else { "|" }, ["", "-", "+"][chomp]);
    for l in &lines {
        if !l.is_empty() {
            text += &" ".repeat(ind);
            text += l;
        }
        text.push('\n');
    }
    // the text behind has less indentation
    if level > 0 {
        text += tail;
    }
    if cut && text.ends_with('\n') {
        text.pop();
    }
    // a text on the level of the root ends with the input only
    ch.skip |= level == 0 && !tail.is_empty() || level > 0 && ind == 0;
    if !ch.begin(|| format!("block scalar {text:?} at level {level}")) {
        return Ok(());
    }
    ch.state(hash_of(&text));
    ch.tally.validated += 1;
    let mut ends = 0;
    while lines.last() == Some(&"") {
        lines.pop();
        ends += 1;
    }
    let mut want = String::new();
    if fold {
        let mut gap = None;
        for l in &lines {
            match (l.is_empty(), gap) {
                (true, None) => want.push('\n'),
                (true, Some(n)) => gap = Some(n + 1),
                (false, None) => (want += l, gap = Some(0)).1,
                (false, Some(0)) => (want.push(' '), want += l).1,
                (false, Some(n)) => (want += &"\n".repeat(n), want += l, gap = Some(0)).2,
            }
        }
    } else {
        want = lines.join("\n");
    }
    let closed = !lines.is_empty();
    let mut p = Parser::new(text.as_bytes());
    let r = if fold { p.string_folded(level) } else { p.string_literal(level) };
    let got = match r {
        Ok(s) => s,
        r => return Err(format!("{r:?}")),
    };
    let ok = match (chomp, closed) {
        (1, true) => got == want,
        (0, true) => got == format!("{want}\n"),
        (2, true) => {
            // a break that is cut off at the end of the input is one less or not
            let all = format!("{want}\n{}", "\n".repeat(ends));
            got == all || cut && text.len() > 2 && (got.clone() + "\n") == all
        }
        (2, false) => got.chars().all(|c| c == '\n') && got.len() <= ends,
        _ => got.is_empty(),
    };
    if !ok {
        return Err(format!("got {got:?}, the lines are {want:?}"));
    }
    if level > 0 && !tail.is_empty() && !p.food_str().trim_start_matches('\n').starts_with(tail) {
        return Err(format!("left is {:?}, expected {tail:?}", p.food_str()));
    }
    if p.eaten != 0 {
        return Err(format!("the eaten cursor moved to {}", p.eaten));
    }
    ch.outcome("equal");
    Ok(())
}

pub fn c24() -> Prop {
    Prop {
        id: "C24",
        spaces: |t| {
            let (a, b, c, d, e) = if t { (6, 4, 4, 4, 6) } else { (5, 3, 3, 3, 4) };
            let (f, g, h) = if t { (6, 5, 5) } else { (5, 4, 4) };
            vec![
                Space::new("lexical", format!("{SUBS} sub-parsers on every text of at most {a} characters over their alphabets, behind three beginnings"), move |ch| lexical(ch, a)),
                Space::new("indentation", format!("every sequence of at most {b} matches and definitions of four levels on lines with up to five spaces"), move |ch| indentation(ch, b)),
                Space::new("directives", format!("every sequence of at most {c} directives and a tag behind them"), move |ch| directives(ch, c)),
                Space::new("escapes", format!("every sequence of at most {d} of {} escapes and characters", ESC.len()), move |ch| escapes(ch, d)),
                Space::new("scalars", format!("block scalars of at most {e} lines with every header, level and text behind"), move |ch| scalars(ch, e)),
                Space::new("flow parts", format!("the parts for flow collections of the loader on every sequence of at most {f} of 16 tokens behind three beginnings, in both modes"), move |ch| parts::flow(ch, f)),
                Space::new("scalar parts", "the parts for single nodes on 23 scalars with six properties, three beginnings and ten ends, in both modes", parts::scalars),
                Space::new("block parts", format!("the parts for block collections on every text of at most {g} lines of 12 forms in three columns, in both modes"), move |ch| parts::blocks(ch, g)),
                Space::new("steps", format!("streams of at most {h} of nine documents read one by one, in both modes"), move |ch| parts::steps(ch, h)),
            ]
        },
        oracle: "matchers over bytes written from the documentation of each sub-parser: the value, the part that is matched, and on a mismatch no movement",
        assumptions: &["a number with blanks and something else behind it is left open"],
    }
}
