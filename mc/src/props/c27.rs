//! C27: JSON texts are YAML texts.
use super::{chars, Prop};
use crate::engine::*;
use yaml_peg::{parse, parse_cyclic, repr::*, serde as yserde, Node, Yaml};

/// An independent JSON reader. Numbers keep their text.
#[derive(Clone, Debug, PartialEq)]
pub(super) enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}
pub(super) struct Json<'a> {
    t: &'a [u8],
    i: usize,
}
impl Json<'_> {
    fn ws(&mut self) {
        while matches!(self.t.get(self.i), Some(b' ' | b'\t' | b'\n' | b'\r')) {
            self.i += 1;
        }
    }
    fn lit(&mut self, s: &str) -> Option<()> {
        self.t[self.i..].starts_with(s.as_bytes()).then(|| self.i += s.len())
    }
    fn number(&mut self) -> Option<J> {
        let from = self.i;
        let digits = |p: &mut Self| {
            let n = p.t[p.i..].iter().take_while(|c| c.is_ascii_digit()).count();
            p.i += n;
            n
        };
        let _ = self.lit("-");
        let zero = self.t.get(self.i) == Some(&b'0');
        let n = digits(self);
        if n == 0 || zero && n > 1 {
            return None;
        }
        if self.lit(".").is_some() && digits(self) == 0 {
            return None;
        }
        if matches!(self.t.get(self.i), Some(b'e' | b'E')) {
            self.i += 1;
            if matches!(self.t.get(self.i), Some(b'+' | b'-')) {
                self.i += 1;
            }
            if digits(self) == 0 {
                return None;
            }
        }
        Some(J::Num(String::from_utf8(self.t[from..self.i].to_vec()).unwrap()))
    }
    fn hex(&mut self) -> Option<u16> {
        let h = std::str::from_utf8(self.t.get(self.i..self.i + 4)?).ok()?;
        if !h.bytes().all(|c| c.is_ascii_hexdigit()) {
            return None;
        }
        self.i += 4;
        u16::from_str_radix(h, 16).ok()
    }
    fn string(&mut self) -> Option<String> {
        self.lit("\"")?;
        let mut v: Vec<u16> = vec![];
        loop {
            let rest = std::str::from_utf8(&self.t[self.i..]).ok()?;
            let c = rest.chars().next()?;
            self.i += c.len_utf8();
            match c {
                '"' => return String::from_utf16(&v).ok(),
                '\\' => {
                    let e = *self.t.get(self.i)?;
                    self.i += 1;
                    v.push(match e {
                        b'"' | b'\\' | b'/' => e as u16,
                        b'b' => 8,
                        b'f' => 12,
                        b'n' => 10,
                        b'r' => 13,
                        b't' => 9,
                        b'u' => self.hex()?,
                        _ => return None,
                    });
                }
                c if (c as u32) < 32 => return None,
                c => v.extend(c.encode_utf16(&mut [0; 2]).iter()),
            }
        }
    }
    fn value(&mut self) -> Option<J> {
        self.ws();
        let v = match *self.t.get(self.i)? {
            b'n' => self.lit("null").map(|()| J::Null)?,
            b't' => self.lit("true").map(|()| J::Bool(true))?,
            b'f' => self.lit("false").map(|()| J::Bool(false))?,
            b'"' => J::Str(self.string()?),
            b'[' => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.lit("]").is_none() {
                    loop {
                        v.push(self.value()?);
                        if self.lit(",").is_none() {
                            self.lit("]")?;
                            break;
                        }
                    }
                }
                J::Arr(v)
            }
            b'{' => {
                self.i += 1;
                let mut v: Vec<(String, J)> = vec![];
                self.ws();
                if self.lit("}").is_none() {
                    loop {
                        self.ws();
                        let k = self.string()?;
                        self.ws();
                        self.lit(":")?;
                        let x = self.value()?;
                        v.retain(|(o, _)| *o != k);
                        v.push((k, x));
                        if self.lit(",").is_none() {
                            self.lit("}")?;
                            break;
                        }
                    }
                }
                J::Obj(v)
            }
            _ => self.number()?,
        };
        self.ws();
        Some(v)
    }
    pub(super) fn read(t: &str) -> Option<J> {
        let mut p = Json { t: t.as_bytes(), i: 0 };
        let v = p.value()?;
        (p.i == t.len()).then_some(v)
    }
}
pub(super) fn same<R: Repr>(n: &Node<R>, j: &J) -> Result<(), String> {
    let ok = match (n.yaml(), j) {
        (Yaml::Null, J::Null) => true,
        (Yaml::Bool(a), J::Bool(b)) => a == b,
        (Yaml::Str(a), J::Str(b)) => a == b,
        (Yaml::Int(a), J::Num(b)) => {
            let exact = match b.parse::<i64>() {
                Ok(i) => n.as_int() == Ok(i),
                Err(_) => n.as_int().is_err(),
            };
            !b.contains(['.', 'e', 'E']) && a == b && exact
        }
        (Yaml::Float(_), J::Num(b)) => b.contains(['.', 'e', 'E']) && n.as_float().map(f64::to_bits) == Ok(b.parse::<f64>().unwrap().to_bits()),
        (Yaml::Seq(a), J::Arr(b)) if a.len() == b.len() => {
            for (x, y) in a.iter().zip(b) {
                same(x, y)?;
            }
            true
        }
        (Yaml::Map(a), J::Obj(b)) if a.len() == b.len() => {
            for ((k, v), (ek, ev)) in a.iter().zip(b) {
                if !matches!(k.yaml(), Yaml::Str(k) if k == ek) {
                    return Err(format!("key {k:?}, expected {ek:?}"));
                }
                same(v, ev)?;
            }
            true
        }
        _ => false,
    };
    if ok {
        Ok(())
    } else {
        Err(format!("loaded as {n:?}, expected {j:?}"))
    }
}
/// The value of another reader, numbers by their nearest float.
fn like(v: &serde_json::Value, j: &J) -> bool {
    use serde_json::Value::*;
    match (v, j) {
        (Null, J::Null) => true,
        (Bool(a), J::Bool(b)) => a == b,
        (String(a), J::Str(b)) => a == b,
        (Number(a), J::Num(b)) => match b.parse::<i64>() {
            Ok(i) => a.as_i64() == Some(i) || b.starts_with("-0"),
            Err(_) => {
                let (x, y) = (a.as_f64().unwrap(), b.parse::<f64>().unwrap());
                x == y || (x - y).abs() <= y.abs() * 1e-15
            }
        },
        (Array(a), J::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| like(a, b)),
        (Object(a), J::Obj(b)) => a.len() == b.len() && b.iter().all(|(k, v)| a.get(k).map_or(false, |a| like(a, v))),
        _ => false,
    }
}
/// A number that the other data format has not.
fn wide(j: &J) -> bool {
    match j {
        J::Num(b) if b.contains(['.', 'e', 'E']) => !b.parse::<f64>().unwrap().is_finite(),
        J::Num(b) => b.parse::<i64>().is_err(),
        J::Arr(v) => v.iter().any(wide),
        J::Obj(v) => v.iter().any(|(_, v)| wide(v)),
        _ => false,
    }
}
const PLACE: &[(&str, &str)] = &[("", ""), ("", "\n"), ("--- ", "\n..."), ("k: ", "\n"), ("- ", "\n- b\n"), ("? ", "\n: b\n"), ("- &x !t ", " # c")];
fn judge(ch: &mut Ch, text: &str, place: usize) -> Result<(), String> {
    let j = if ch.skip { None } else { Json::read(text) };
    ch.skip |= j.is_none();
    let (a, b) = PLACE[place];
    if !ch.begin(|| format!("load the JSON text {text:?} between {a:?} and {b:?}")) {
        return Ok(());
    }
    let j = j.unwrap();
    let whole = format!("{a}{text}{b}");
    ch.state(hash_of(&whole));
    ch.tally.validated += 1;
    // the reference agrees with another reader
    match serde_json::from_str::<serde_json::Value>(text) {
        Ok(v) if like(&v, &j) => {}
        Err(e) if e.to_string().contains("out of range") => {}
        r => return Err(format!("[checker] the reference reads {j:?}, serde_json {r:?}")),
    }
    fn find<R: Repr>(n: &Node<R>, place: usize) -> Option<Node<R>> {
        Some(match (place, n.yaml()) {
            (0..=2, _) => n.clone(),
            (3, Yaml::Map(m)) => m.iter().next()?.1.clone(),
            (5, Yaml::Map(m)) => m.iter().next()?.0.clone(),
            (_, Yaml::Seq(v)) => v.first()?.clone(),
            _ => return None,
        })
    }
    let v = parse::<RcRepr>(&whole).map_err(|e| format!("rejected: {e}"))?;
    let w = parse_cyclic::<ArcRepr>(&whole).map_err(|e| format!("cyclic mode: rejected: {e}"))?.0;
    if v.len() != 1 || w.len() != 1 {
        return Err(format!("{} documents", v.len()));
    }
    same(&find(&v[0], place).ok_or("structure lost")?, &j)?;
    same(&find(&w[0], place).ok_or("structure lost")?, &j).map_err(|e| format!("cyclic mode: {e}"))?;
    if place == 0 {
        // as a value of a data format
        match yserde::from_str::<serde_json::Value>(&whole) {
            Ok(v) if v.len() == 1 && like(&v[0], &j) => {}
            // beyond the numbers of the target
            r if wide(&j) => drop(r),
            r => return Err(format!("deserialized as {r:?}")),
        }
    }
    ch.outcome(match j {
        J::Arr(_) => "array",
        J::Obj(_) => "object",
        J::Str(_) => "string",
        J::Num(_) => "number",
        _ => "word",
    });
    Ok(())
}

const TOK: &[&str] = &["[", "]", "{", "}", ",", ":", "\"a\"", "1", "null", "\"\""];
fn tokens(ch: &mut Ch, max: usize) -> Result<(), String> {
    // only prefixes of texts: a state machine of what may follow
    let sep = *ch.of(&["", " ", "\n", "\t", " \r\n "]);
    let mut stack: Vec<(bool, u8)> = vec![];
    let mut text = String::new();
    let mut done = false;
    for i in 0..max {
        // 0 value or end, 1 value, 2 comma or end, 3 key or end, 4 key, 5 colon, 6 value of a pair
        let opts: &[usize] = match stack.last() {
            None if done => break,
            None => &[0, 2, 6, 7, 8, 9],
            Some((_, 0)) => &[0, 1, 2, 6, 7, 8, 9],
            Some((_, 1 | 6)) => &[0, 2, 6, 7, 8, 9],
            Some((false, 2)) => &[1, 4],
            Some((true, 2)) => &[3, 4],
            Some((_, 3)) => &[3, 6, 9],
            Some((_, 4)) => &[6, 9],
            _ => &[5],
        };
        let t = *ch.of(opts);
        if i > 0 {
            text += sep;
        }
        text += TOK[t];
        let mut value = false;
        match t {
            0 => stack.push((false, 0)),
            2 => stack.push((true, 3)),
            1 | 3 => {
                stack.pop();
                value = true;
            }
            4 => {
                let l = stack.last_mut().unwrap();
                l.1 = if l.0 { 4 } else { 1 };
            }
            5 => stack.last_mut().unwrap().1 = 6,
            _ if matches!(stack.last(), Some((_, 3 | 4))) => stack.last_mut().unwrap().1 = 5,
            _ => value = true,
        }
        if value {
            match stack.last_mut() {
                Some(l) => l.1 = 2,
                None => done = true,
            }
        }
    }
    ch.skip |= !done;
    // white space around the whole text
    let text = match ch.pick(5) {
        0 => text,
        1 => format!("{text}{sep}"),
        2 => format!("{text} \t"),
        3 => format!("{text}\t\r\n\t"),
        _ => format!("\n{text}\t\n\n"),
    };
    judge(ch, &text, 0)
}
fn numbers(ch: &mut Ch, max: usize) -> Result<(), String> {
    let n = 1 + ch.pick(max);
    let place = ch.pick(3);
    let t: String = (0..n).map(|_| *ch.of(&['0', '1', '9', '-', '+', '.', 'e', 'E'])).collect();
    let text = match place {
        0 => t,
        1 => format!("[{t},{t} ]"),
        _ => format!("{{\"a\":{t}}}"),
    };
    judge(ch, &text, 0)
}
const UNIT: &[&str] = &[
    "a", " ", "\\\"", "\\\\", "\\/", "\\b", "\\f", "\\n", "\\r", "\\t", "\\u0041", "\\u00E9", "\\ud83d\\uDE00", "\\u0000", "\\uFFFD", "é", "😀", ":", ": ", " #", ",", "]", "}", "'", "{", "n", "u", "- ", "\u{7f}", "%", "\\u2028", "\u{2028}",
];
fn strings(ch: &mut Ch, max: usize) -> Result<(), String> {
    let n = ch.pick(max + 1);
    let t: String = (0..n).map(|_| *ch.of(UNIT)).collect();
    let (text, p) = match ch.pick(5) {
        0 => (format!("\"{t}\""), ch.pick(PLACE.len())),
        1 => (format!("[\"{t}\"]"), 0),
        2 => (format!("{{\"{t}\":1}}"), 0),
        3 => (format!("{{\"{t}\" : \"{t}\"}}"), 3),
        _ => (format!("[1,\n\t\"{t}\"\n]"), 0),
    };
    judge(ch, &text, p)
}

const LEAF: &[&str] = &["1", "\"a\"", "null", "true", "-2.50", "\"\"", "\"x: y, #z\"", "1e5", "[]", "{}", "false", "\"\\\"\\u00e9\\\\\"", "123456789012345678901234567890", "0"];
/// All trees with all layouts.
fn tree(ch: &mut Ch, left: &mut usize, depth: usize, ind: usize, lay: usize, out: &mut String) {
    let kind = if depth == 0 || *left == 0 { 0 } else { ch.pick(3) };
    if kind == 0 {
        let many = if *left > 2 { LEAF.len() } else { 6 };
        *out += LEAF[ch.pick(many)];
        return;
    }
    let n = 1 + ch.pick((*left).min(3));
    *left -= n.min(*left);
    // compact, usual, pretty, tabs, comma in front, wide
    let (open, comma, colon, close) = match lay {
        0 => (String::new(), ",".into(), ":", String::new()),
        1 => (String::new(), ", ".into(), ": ", String::new()),
        2 => (format!("\n{}", "  ".repeat(ind + 1)), format!(",\n{}", "  ".repeat(ind + 1)), ": ", format!("\n{}", "  ".repeat(ind))),
        3 => (format!("\n{}", "\t".repeat(ind + 1)), format!(",\n{}", "\t".repeat(ind + 1)), ":\t", format!("\n{}", "\t".repeat(ind))),
        4 => ("\r\n ".into(), "\r\n , ".into(), "\r\n:\r\n", "\r\n".into()),
        _ => (" ".into(), " ,\n\n  ".into(), " : ", "  ".into()),
    };
    *out += if kind == 1 { "[" } else { "{" };
    *out += &open;
    for i in 0..n {
        if i > 0 {
            *out += &comma;
        }
        if kind == 2 {
            *out += ["\"a\"", "\"b c\"", "\"\""][i];
            *out += colon;
        }
        tree(ch, left, depth - 1, ind + 1, lay, out);
    }
    *out += &close;
    *out += if kind == 1 { "]" } else { "}" };
}
fn trees(ch: &mut Ch, nodes: usize) -> Result<(), String> {
    let lay = ch.pick(6);
    let mut left = nodes;
    let mut text = String::new();
    tree(ch, &mut left, 3, 0, lay, &mut text);
    // lines of a nested text would need more indentation
    let place = if lay < 2 { ch.pick(PLACE.len()) } else { ch.pick(3) };
    judge(ch, &text, place)
}

pub fn prop() -> Prop {
    Prop {
        id: "C27",
        spaces: |t| {
            let (a, b, c, d) = if t { (14, 8, 5, 7) } else { (12, 7, 4, 5) };
            vec![
                Space::new("characters", "every character, as it is and as an escape with digits in both cases", chars::json),
                Space::new("tokens", format!("every JSON text of at most {a} tokens with five separators"), move |ch| tokens(ch, a)),
                Space::new("numbers", format!("every JSON number of at most {b} characters, alone, in arrays and in objects"), move |ch| numbers(ch, b)),
                Space::new("strings", format!("every JSON string of at most {c} of {} units, as root, item, key and value", UNIT.len()), move |ch| strings(ch, c)),
                Space::new("trees", format!("every tree with {d} items, {} leaves, in six layouts and seven places", LEAF.len()), move |ch| trees(ch, d)),
            ]
        },
        oracle: "a JSON reader written by hand, itself compared with serde_json on every text",
        assumptions: &["lines of a text within a block structure are not enumerated", "the last of equal keys wins"],
    }
}
