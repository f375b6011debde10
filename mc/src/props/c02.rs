//! C02: plain scalars resolve by the core schema, wherever they stand.
use super::Prop;
use crate::{doc::*, engine::*};
use yaml_peg::{parse, repr::RcRepr, Node, Yaml};

/// The core schema, recognised by hand.
pub enum Kind {
    Null,
    Bool(bool),
    Int(Option<i64>),
    Float(f64),
    Str,
}
pub fn core(t: &str) -> Kind {
    match t {
        "" | "~" | "null" | "Null" | "NULL" => return Kind::Null,
        "true" | "True" | "TRUE" => return Kind::Bool(true),
        "false" | "False" | "FALSE" => return Kind::Bool(false),
        ".nan" | ".NaN" | ".NAN" => return Kind::Float(f64::NAN),
        _ => {}
    }
    let (sign, body) = match t.as_bytes()[0] {
        b'+' => (1, &t[1..]),
        b'-' => (-1, &t[1..]),
        _ => (0, t),
    };
    if matches!(body, ".inf" | ".Inf" | ".INF") {
        return Kind::Float(if sign < 0 { f64::NEG_INFINITY } else { f64::INFINITY });
    }
    let radix = |d: &str, r: u32| -> Option<Option<i64>> {
        if d.is_empty() || !d.chars().all(|c| c.is_digit(r)) {
            return None;
        }
        let mut n: i128 = 0;
        for c in d.chars() {
            n = n.saturating_mul(r as i128).saturating_add(c.to_digit(r).unwrap() as i128);
        }
        Some(i64::try_from(if sign < 0 { -n } else { n }).ok())
    };
    if sign == 0 {
        if let Some(n) = body.strip_prefix("0o").and_then(|d| radix(d, 8)) {
            return Kind::Int(n);
        }
        if let Some(n) = body.strip_prefix("0x").and_then(|d| radix(d, 16)) {
            return Kind::Int(n);
        }
    }
    if let Some(n) = radix(body, 10) {
        return Kind::Int(n);
    }
    // [0-9]* (. [0-9]*)? ([eE] [+-]? [0-9]+)?, with a digit in the mantissa
    let b = body.as_bytes();
    let mut i = 0;
    let digits = |i: &mut usize| {
        let s = *i;
        while *i < b.len() && b[*i].is_ascii_digit() {
            *i += 1
        }
        *i - s
    };
    let mut mant = digits(&mut i);
    if i < b.len() && b[i] == b'.' {
        i += 1;
        mant += digits(&mut i);
    }
    if mant == 0 {
        return Kind::Str;
    }
    if i < b.len() && (b[i] == b'e' || b[i] == b'E') {
        i += 1;
        if i < b.len() && (b[i] == b'+' || b[i] == b'-') {
            i += 1;
        }
        if digits(&mut i) == 0 {
            return Kind::Str;
        }
    }
    if i != b.len() {
        return Kind::Str;
    }
    Kind::Float(t.parse::<f64>().expect("float text"))
}

pub fn fits(n: &Node<RcRepr>, t: &str) -> Result<(), String> {
    let y = n.yaml();
    let p = n.pos();
    let ck = |b: bool, w: &str| if b { Ok(()) } else { Err(format!("{t:?} is read as {y:?}: {w}")) };
    let tag = |k: &str| n.tag() == format!("{CORE}{k}");
    // which of the typed views work, as (bool, int, float, number, str, value)
    let views = (n.as_bool().is_ok(), n.as_int().is_ok(), n.as_float().is_ok(), n.as_number().is_ok(), n.as_str().is_ok(), n.as_value().is_ok());
    let eqf = |a: f64, b: f64| a == b || (a.is_nan() && b.is_nan());
    match core(t) {
        Kind::Null => {
            ck(matches!(y, Yaml::Null) && n.is_null() && tag("null"), "expected null")?;
            ck(n.as_str() == Ok("") && n.as_value() == Ok(""), "null reads as the empty text")?;
            ck(views == (false, false, false, false, true, true), "typed views of null")
        }
        Kind::Bool(b) => {
            ck(matches!(y, Yaml::Bool(x) if *x == b) && tag("bool"), "expected a boolean")?;
            ck(n.as_bool() == Ok(b) && n.as_value() == Ok(if b { "true" } else { "false" }), "boolean value")?;
            ck(views == (true, false, false, false, false, true), "typed views of a boolean")
        }
        Kind::Int(v) => {
            ck(matches!(y, Yaml::Int(_)) && tag("int") && !n.is_null(), "expected an integer")?;
            ck(n.as_int() == v.ok_or(p), "integer value")?;
            ck(n.as_number() == v.map(|v| v as f64).ok_or(p), "integer as number")?;
            ck(!views.0 && !views.2 && !views.4 && views.5, "typed views of an integer")
        }
        Kind::Float(v) => {
            ck(matches!(y, Yaml::Float(_)) && tag("float"), "expected a float")?;
            ck(n.as_float().map_or(false, |x| eqf(x, v)), "float value")?;
            ck(n.as_number().map_or(false, |x| eqf(x, v)), "float as number")?;
            ck(views == (false, false, true, true, false, true), "typed views of a float")
        }
        Kind::Str => {
            ck(matches!(y, Yaml::Str(s) if s == t) && tag("str"), "expected the text itself")?;
            ck(n.as_str() == Ok(t) && n.as_value() == Ok(t), "text value")?;
            ck(views == (false, false, false, false, true, true), "typed views of a string")
        }
    }
}

/// (before, after, path to the scalar): k first key, v first value, digit item
const CTX: &[(&str, &str, &str)] = &[
    ("k: ", "\n", "v"),
    ("", "\n", ""),
    ("", "", ""),
    ("--- ", "\n...\n", ""),
    ("- ", "\n- b\n", "0"),
    ("- - ", "\n", "00"),
    ("[", "]", "0"),
    ("[b, ", " , c]", "1"),
    ("{b: ", "}", "v"),
    ("{b: ", ", c: d}", "v"),
    ("", ": b\n", "k"),
    ("? ", "\n: b\n", "k"),
    ("{", ": b}", "k"),
    ("k: &x ", " # c\n", "v"),
    ("k: !t ", "\nl: b", "v"),
    ("k:\n  - ", "\n", "v0"),
    ("- k: ", "  \n  l: b\n", "0v"),
];

pub fn walk<'n>(n: &'n Node<RcRepr>, path: &str) -> Option<&'n Node<RcRepr>> {
    let mut n = n;
    for c in path.chars() {
        n = match (c, n.yaml()) {
            ('k', Yaml::Map(m)) => m.iter().next()?.0,
            ('v', Yaml::Map(m)) => m.iter().next()?.1,
            (d, Yaml::Seq(v)) => v.get(d.to_digit(10)? as usize)?,
            _ => return None,
        }
    }
    Some(n)
}

fn run(ch: &mut Ch, t: &str) -> Result<(), String> {
    if t.is_empty() || matches!(t, "-" | "---" | "...") {
        return Ok(());
    }
    let (a, b, path) = *ch.of(CTX);
    let text = format!("{a}{t}{b}");
    if !ch.begin(|| format!("load {text:?}")) {
        return Ok(());
    }
    ch.state(hash_of(&text));
    ch.tally.validated += 1;
    let docs = parse::<RcRepr>(&text).map_err(|e| format!("rejected: {e}"))?;
    if docs.len() != 1 {
        return Err(format!("{} documents", docs.len()));
    }
    let n = walk(&docs[0], path).ok_or_else(|| format!("structure lost: {:?}", docs[0]))?;
    // a tag given explicitly hides the default one
    let n2;
    let n = if a.contains('!') {
        if n.tag() != "t" {
            return Err(format!("tag {:?}", n.tag()));
        }
        n2 = Node::new_repr(n.clone_yaml(), n.pos(), "");
        &n2
    } else {
        n
    };
    ch.outcome(match core(t) {
        Kind::Null => "null",
        Kind::Bool(_) => "bool",
        Kind::Int(Some(_)) => "int",
        Kind::Int(None) => "int beyond 64 bits",
        Kind::Float(_) => "float",
        Kind::Str => "string",
    });
    fits(n, t)
}

fn words(name: &str, alpha: &'static str, max: usize) -> Space {
    let what = format!("every text of at most {max} characters of {alpha:?} in {} positions", CTX.len());
    Space::new(name, what, move |ch| {
        let a: Vec<char> = alpha.chars().collect();
        let mut t = String::new();
        for _ in 0..max {
            let c = ch.pick(a.len() + 1);
            if c == 0 {
                break;
            }
            t.push(a[c - 1]);
        }
        run(ch, &t)
    })
}

const WORDS: &[&str] = &[
    "null", "true", "false", ".inf", "-.inf", "+.inf", ".nan", "~", "yes", "no", "on", "off", "0x1F", "0o17", "1e10", "-1.5e-3", "9223372036854775807", "-9223372036854775808",
    "9223372036854775808", "0x7fffffffffffffff", "0xffffffffffffffff", "12345678901234567890123", "1.7976931348623157e308", "0.1", "00.5", "2001-01-01",
];
/// every case mix of the words, and one edit of each
fn near(ch: &mut Ch) -> Result<(), String> {
    let w: Vec<char> = ch.of(WORDS).chars().collect();
    let mut t = w.clone();
    match ch.pick(4) {
        0 if w.len() <= 5 => {
            for c in t.iter_mut() {
                if c.is_ascii_lowercase() && ch.flip() {
                    *c = c.to_ascii_uppercase();
                }
            }
        }
        0 => {}
        1 => {
            let i = ch.pick(w.len());
            t.remove(i);
        }
        2 => {
            let i = ch.pick(w.len() + 1);
            t.insert(i, *ch.of(&['0', 'x', '.', '-', 'e', '_', 'L', '+']));
        }
        _ => {
            let i = ch.pick(w.len());
            t[i] = *ch.of(&['0', '8', 'o', '.', '-', 'E', 'a', 'g']);
        }
    }
    let t: String = t.into_iter().collect();
    run(ch, &t)
}

pub fn prop() -> Prop {
    Prop {
        id: "C02",
        spaces: |t| {
            vec![
                words("digits", "01.e-", if t { 7 } else { 6 }),
                words("letters", "0179afgxoeE.+-_~ntN", if t { 5 } else { 4 }),
                Space::new("words", "all case mixes and single edits of the schema's words and of extreme numbers", near),
            ]
        },
        oracle: "a hand-written recogniser of the YAML 1.2 core schema; type, tag, value and every typed view of the node are compared",
        assumptions: &["texts are plain scalars without blanks, at most 7 characters or one edit away from a listed word"],
    }
}
