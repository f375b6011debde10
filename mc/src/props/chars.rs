//! Every character there is, and every numeric escape, in few texts each.
use super::{c02::walk, c13::canon};
use crate::{doc::*, engine::*, util::*};
use serde::{de::DeserializeOwned, Serialize};
use std::fmt::Debug;
use yaml_peg::{
    dump, parse,
    repr::RcRepr,
    serde::{from_str, to_arc_node, to_node, to_string},
    NodeRc, Yaml,
};

/// Any number below 0x110000.
fn code(ch: &mut Ch) -> u32 {
    let hi = ch.pick(0x1100) as u32;
    hi << 8 | ch.pick(0x100) as u32
}

// ------------------------------------------------------------------ content
/// before, after, path, indicator characters are text, a line break may follow
const PLACES: &[(&str, &str, &str)] = &[
    ("", "\n", ""),
    ("k: ", "\nl: b\n", "v"),
    ("- ", "", "0"),
    ("", ": b\n", "k"),
    ("[b, ", "]\n", "1"),
    ("{k: ", " }\n", "v"),
    ("'", "'", ""),
    ("k: '", "' # c\n", "v"),
    ("\"", "\": b\n", "k"),
    ("[\"", "\"]", "0"),
    ("|-\n  ", "\n", ""),
    ("k: |-\n ", "\nl: b\n", "v"),
    (">-\n  ", "", ""),
    ("- >-\n    ", "\n- b\n", "0"),
];
/// Every character beyond ASCII is text wherever text may be, alone and next to others.
pub fn content(ch: &mut Ch) -> Result<(), String> {
    let n = code(ch);
    let shape = ch.pick(5);
    let Some(c) = char::from_u32(n).filter(|c| *c >= '\u{a0}' || *c == '\u{85}') else { return Ok(()) };
    let text = match shape {
        0 => format!("{c}"),
        1 => format!("a{c}"),
        2 => format!("{c}a"),
        3 => format!("a {c}"),
        _ => format!("{c} {c}1"),
    };
    if !ch.begin(|| format!("{text:?} with U+{n:04X} in {} places", PLACES.len())) {
        return Ok(());
    }
    ch.state(u64::from(n) << 8 | shape as u64);
    for (a, b, path) in PLACES {
        ch.tally.validated += 1;
        let doc = format!("{a}{text}{b}");
        let docs = parse::<RcRepr>(&doc).map_err(|e| format!("{doc:?} is rejected: {e}"))?;
        match walk(&docs[0], path).map(|n| n.yaml()) {
            Some(Yaml::Str(s)) if *s == text && docs.len() == 1 => {}
            y => return Err(format!("{doc:?} is read as {y:?}")),
        }
    }
    Ok(ch.outcome("equal"))
}
/// Every numeric escape of each length, with digits in both cases, and every surrogate pair.
pub fn escapes(ch: &mut Ch) -> Result<(), String> {
    let kind = ch.pick(4);
    let n = match kind {
        0 => ch.pick(0x100) as u32,
        1 => (ch.pick(0x100) << 8 | ch.pick(0x100)) as u32,
        _ => code(ch),
    };
    let upper = ch.flip();
    let hex = |n: u32, w: usize| if upper { format!("{n:0w$X}") } else { format!("{n:0w$x}") };
    let (esc, len) = match kind {
        0 => (format!("\\x{}", hex(n, 2)), 2),
        1 => (format!("\\u{}", hex(n, 4)), 4),
        2 => (format!("\\U{}", hex(n, 8)), 8),
        _ if n < 0x10000 => return Ok(()),
        _ => {
            let m = n - 0x10000;
            (format!("\\u{}\\u{}", hex(0xd800 + (m >> 10), 4), hex(0xdc00 + (m & 0x3ff), 4)), 4)
        }
    };
    // a lone surrogate is no character
    let Some(c) = char::from_u32(n) else { return Ok(()) };
    if !ch.begin(|| format!("the escape {esc} of {len} digits")) {
        return Ok(());
    }
    ch.state(hash_of(&esc));
    for (a, b, path) in [("\"", "\"", ""), ("k: \"0", "a\"\n", "v"), ("[\"\\\\", "\\t\", b]", "0"), ("\"", "F\": b\n", "k")] {
        ch.tally.validated += 1;
        let doc = format!("{a}{esc}{b}");
        let want = format!("{}{c}{}", if a.ends_with('0') { "0" } else if a.ends_with("\\\\") { "\\" } else { "" }, if b.starts_with('a') { "a" } else if b.starts_with('\\') { "\t" } else if b.starts_with('F') { "F" } else { "" });
        let docs = parse::<RcRepr>(&doc).map_err(|e| format!("{doc:?} is rejected: {e}"))?;
        match walk(&docs[0], path).map(|n| n.yaml()) {
            Some(Yaml::Str(s)) if *s == want => {}
            y => return Err(format!("{doc:?} is read as {y:?}, expected {want:?}")),
        }
    }
    Ok(ch.outcome("equal"))
}
/// The same escapes in JSON, against what they denote.
pub fn json(ch: &mut Ch) -> Result<(), String> {
    let n = code(ch);
    let form = ch.pick(3);
    let Some(c) = char::from_u32(n) else { return Ok(()) };
    if form == 0 && n < 0x20 {
        return Ok(());
    }
    let units = |upper: bool| -> String {
        let mut b = [0; 2];
        c.encode_utf16(&mut b).iter().map(|u| if upper { format!("\\u{u:04X}") } else { format!("\\u{u:04x}") }).collect()
    };
    let t = match form {
        0 if c == '"' || c == '\\' => format!("\\{c}"),
        0 => c.to_string(),
        1 => units(false),
        _ => units(true),
    };
    let doc = format!("{{\"k{t}\": [\"{t}\", \"{t}{t}x\"]}}");
    if !ch.begin(|| format!("load {doc:?}")) {
        return Ok(());
    }
    ch.state(hash_of(&doc));
    ch.tally.validated += 2;
    let model: serde_json::Value = serde_json::from_str(&doc).map_err(|e| format!("the reader of the check: {e}"))?;
    let docs = parse::<RcRepr>(&doc).map_err(|e| format!("rejected: {e}"))?;
    let got = serde_json::to_value(&docs[0]).map_err(|e| e.to_string())?;
    if got != model || model[format!("k{c}")][1] != format!("{c}{c}x") {
        return Err(format!("read as {got:?}, expected {model:?}"));
    }
    Ok(ch.outcome("equal"))
}
/// Strings with each character, as every program can build them, are dumped and loaded.
pub fn dumped(ch: &mut Ch) -> Result<(), String> {
    let n = code(ch);
    let shape = ch.pick(6);
    let Some(c) = char::from_u32(n) else { return Ok(()) };
    let text = match shape {
        0 => format!("{c}"),
        1 => format!("a{c}"),
        2 => format!("{c}a"),
        3 => format!("a{c}a {c} a"),
        4 => format!("a\n{c}\n{c}a"),
        _ => format!("{c}a\nb{c}\n"),
    };
    if !ch.begin(|| format!("dump {text:?} with U+{n:04X} as document, value, item and key")) {
        return Ok(());
    }
    ch.state(u64::from(n) << 8 | shape as u64);
    ch.tally.validated += 1;
    let t: N = s(&text);
    let tree: Vec<N> = vec![t.clone(), V::Map(vec![(t.clone(), V::Seq(vec![t.clone(), t.clone()]).into()), (s("another key"), t)]).into(), s("b")];
    let nodes: Vec<NodeRc> = tree.iter().map(build).collect();
    let doc = dump(&nodes, &[]);
    let back = parse::<RcRepr>(&doc).map_err(|e| format!("{doc:?} is rejected: {e}"))?;
    if back.len() != tree.len() {
        return Err(format!("{doc:?}: {} documents", back.len()));
    }
    for (b, t) in back.iter().zip(&tree) {
        if canon(&read(b).v) != canon(&t.v) {
            return Err(format!("{doc:?} is read as {}", show(&read(b).v)));
        }
    }
    if dump(&back, &[]) != doc {
        return Err(format!("{doc:?} is dumped as {:?} the second time", dump(&back, &[])));
    }
    Ok(ch.outcome("equal"))
}

// ------------------------------------------------------------------ numbers
/// Numbers around the powers of two and ten: sign and magnitude.
fn integers() -> Vec<String> {
    let mut m: Vec<u128> = (0..=300).collect();
    let (mut two, mut ten) = (Some(1u128), Some(1u128));
    for _ in 0..128 {
        for p in [two, ten].into_iter().flatten() {
            for d in 0..3 {
                m.extend([p.checked_add(d), p.checked_sub(d)].into_iter().flatten());
            }
        }
        two = two.and_then(|p| p.checked_mul(2));
        ten = ten.and_then(|p| p.checked_mul(10));
    }
    m.extend([u128::MAX, u128::MAX - 1, i128::MAX as u128]);
    m.sort_unstable();
    m.dedup();
    m.iter().map(|n| n.to_string()).chain(m.iter().filter(|n| **n > 0).map(|n| format!("-{n}"))).collect()
}
fn floats64(ch: &mut Ch) -> f64 {
    const M: [u64; 8] = [0, 1, 2, 0x8000000000000, 0xfffffffffffff, 0x5555555555555, 0xfffffffffffff - 1, 0x9999999999999];
    let e = ch.pick(0x800) as u64;
    let m = *ch.of(&M);
    f64::from_bits((ch.flip() as u64) << 63 | e << 52 | m)
}
fn floats32(ch: &mut Ch, low: &[u32]) -> f32 {
    let hi = (ch.pick(0x100) << 8 | ch.pick(0x100)) as u32;
    f32::from_bits(hi << 16 | *ch.of(low))
}
macro_rules! all_ints {
    ($d:expr, $t:ident => $e:expr) => {
        all_ints!(@ $d, $t => $e; u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 usize isize)
    };
    (@ $d:expr, $t:ident => $e:expr; $($ty:ident)+) => {
        $(if let Ok($t) = $d.parse::<$ty>() { $e })+
    };
}
/// Nodes of every primitive type: number, its text and its views.
pub fn primitives(ch: &mut Ch) -> Result<(), String> {
    match ch.pick(4) {
        0 => {
            let all = integers();
            let d = ch.of(&all).clone();
            if !ch.begin(|| format!("nodes of the integer {d}")) {
                return Ok(());
            }
            ch.state(hash_of(&d));
            all_ints!(d, v => {
                ch.tally.validated += 1;
                for n in [NodeRc::from(v), NodeRc::new(Yaml::from(v), 0, "")] {
                    if n.yaml() != &Yaml::Int(d.clone()) || n.as_value() != Ok(&d) || n.as_int() != d.parse().map_err(|_| 0) || n.as_number() != d.parse::<i64>().map(|i| i as f64).map_err(|_| 0) || n.as_float().is_ok() {
                        return Err(format!("{n:?}: as_int {:?}, as_number {:?}, as_value {:?}", n.as_int(), n.as_number(), n.as_value()));
                    }
                }
            });
        }
        1 => {
            let f = floats64(ch);
            if !ch.begin(|| format!("nodes of the float {f:?}")) {
                return Ok(());
            }
            ch.state(f.to_bits());
            ch.tally.validated += 1;
            let n = NodeRc::from(f);
            let same = |g: Result<f64, u64>| g.map_or(false, |g| g.to_bits() == f.to_bits() || g.is_nan() && f.is_nan());
            if !same(n.as_float()) || !same(n.as_number()) || n.as_int().is_ok() || !same(n.as_value().map(|t| t.parse().unwrap_or(f64::from(42)))) {
                return Err(format!("{n:?}: as_float {:?}", n.as_float()));
            }
        }
        2 => {
            let f = floats32(ch, &[0, 1, 0x8000, 0xffff]);
            if !ch.begin(|| format!("nodes of the float {f:?} of 32 bits")) {
                return Ok(());
            }
            ch.state(u64::from(f.to_bits()));
            ch.tally.validated += 1;
            let n = NodeRc::from(f);
            let same = |g: Result<f64, u64>| g.map_or(false, |g| (g as f32).to_bits() == f.to_bits() || g.is_nan() && f.is_nan());
            if !same(n.as_float()) || !same(n.as_number()) {
                return Err(format!("{n:?}: as_float {:?}", n.as_float()));
            }
        }
        _ => {
            let n = code(ch);
            let Some(c) = char::from_u32(n) else { return Ok(()) };
            if !ch.begin(|| format!("nodes of the character U+{n:04X}")) {
                return Ok(());
            }
            ch.state(u64::from(n) << 32);
            ch.tally.validated += 1;
            let node = NodeRc::from(c);
            if node.as_str() != Ok(c.to_string().as_str()) || node != NodeRc::from(c.to_string()) {
                return Err(format!("{node:?}"));
            }
        }
    }
    Ok(ch.outcome("equal"))
}
fn trip<T: Serialize + DeserializeOwned + Debug>(v: &T) -> Result<(), String> {
    let d = format!("{v:?}");
    let text = to_string(v).map_err(|e| e.to_string())?;
    let back = [
        ("the node", T::deserialize(to_node(v).map_err(|e| e.to_string())?)),
        ("the multi-threaded node", T::deserialize(to_arc_node(v).map_err(|e| e.to_string())?)),
        ("the text", from_str::<T>(&text).map(|mut v| v.remove(0))),
    ];
    for (w, b) in back {
        let b = b.map_err(|e| format!("{w} of {d} ({text:?}) is rejected: {e}"))?;
        if format!("{b:?}") != d {
            return Err(format!("{b:?} comes back from {w} ({text:?})"));
        }
    }
    Ok(())
}
/// Numbers and characters through serde.
pub fn serialized(ch: &mut Ch) -> Result<(), String> {
    match ch.pick(4) {
        0 => {
            let all = integers();
            let d = ch.of(&all).clone();
            if !ch.begin(|| format!("serialize the integer {d} of each type")) {
                return Ok(());
            }
            ch.state(hash_of(&d));
            all_ints!(d, v => {
                ch.tally.validated += 1;
                trip(&v)?;
                trip(&vec![v])?;
                trip(&Some((v, v)))?;
            });
        }
        1 => {
            let f = floats64(ch);
            if !ch.begin(|| format!("serialize the float {f:?}")) {
                return Ok(());
            }
            ch.state(f.to_bits());
            ch.tally.validated += 1;
            trip(&f)?;
            trip(&vec![Some(f)])?;
        }
        2 => {
            let f = floats32(ch, &[0, 0x5555]);
            if !ch.begin(|| format!("serialize the float {f:?} of 32 bits")) {
                return Ok(());
            }
            ch.state(u64::from(f.to_bits()));
            ch.tally.validated += 1;
            trip(&f)?;
        }
        _ => {
            let n = code(ch);
            let Some(c) = char::from_u32(n) else { return Ok(()) };
            if !ch.begin(|| format!("serialize the character U+{n:04X}")) {
                return Ok(());
            }
            ch.state(u64::from(n) << 32);
            ch.tally.validated += 1;
            trip(&c)?;
            trip(&c.to_string())?;
            trip(&vec![(c, 1)])?;
        }
    }
    Ok(ch.outcome("equal"))
}
/// Every `step`th float of 32 bits, those of an upper half at a time.
pub fn all_floats32(ch: &mut Ch, step: u32) -> Result<(), String> {
    let hi = (ch.pick(0x100) << 8 | ch.pick(0x100)) as u32;
    if !ch.begin(|| format!("the floats of 32 bits whose upper half is {hi:04x}")) {
        return Ok(());
    }
    ch.state(u64::from(hi));
    for low in (hi % step..0x10000).step_by(step as usize) {
        let f = f32::from_bits(hi << 16 | low);
        ch.tally.validated += 1;
        let n = to_node(&f).map_err(|e| e.to_string())?;
        let g = <f32 as serde::Deserialize>::deserialize(n).map_err(|e| format!("{f:?}: {e}"))?;
        if g.to_bits() != f.to_bits() && !(g.is_nan() && f.is_nan()) {
            return Err(format!("{f:?} comes back as {g:?}"));
        }
    }
    Ok(ch.outcome("equal"))
}
/// Every notation of an integer into every type.
pub fn integers_into(ch: &mut Ch) -> Result<(), String> {
    let all = integers();
    let d = ch.of(&all).clone();
    let form = ch.pick(6);
    let mag: u128 = d.trim_start_matches('-').parse().unwrap();
    let neg = d.starts_with('-');
    if neg && form > 1 {
        return Ok(());
    }
    let text = match form {
        0 => d.clone(),
        1 if neg => format!("-00{mag}"),
        1 => format!("00{mag}"),
        2 => format!("+{mag}"),
        3 => format!("0x{mag:x}"),
        4 => format!("0x{mag:X}"),
        _ => format!("0o{mag:o}"),
    };
    let (a, b) = *ch.of(&[("", ""), ("[", "]")]);
    let doc = format!("{a}{text}{b}");
    if !ch.begin(|| format!("deserialize {doc:?} into every integer type")) {
        return Ok(());
    }
    ch.state(hash_of(&doc));
    macro_rules! each {
        ($($t:ident)+) => {$({
            ch.tally.validated += 1;
            let want = d.parse::<$t>().ok();
            let got = if a.is_empty() { from_str::<$t>(&doc).map(|v| v[0]) } else { from_str::<Vec<$t>>(&doc).map(|v| v[0][0]) };
            let g = got.as_ref().ok().copied();
            if g != want {
                return Err(format!("{}: {got:?}, expected {want:?}", stringify!($t)));
            }
        })+};
    }
    each!(u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 usize isize);
    // as floats, for what is decimal
    if form < 3 && mag > 0 {
        ch.tally.validated += 2;
        let want: f64 = d.parse().unwrap();
        let got = if a.is_empty() { from_str::<f64>(&doc).map(|v| v[0]) } else { from_str::<Vec<f64>>(&doc).map(|v| v[0][0]) };
        if got.as_ref().ok() != Some(&want) {
            return Err(format!("f64: {got:?}, expected {want:?}"));
        }
    } else if mag < 1 << 127 && mag > 0 {
        let want = mag as f64;
        let got = if a.is_empty() { from_str::<f64>(&doc).map(|v| v[0]) } else { from_str::<Vec<f64>>(&doc).map(|v| v[0][0]) };
        if got.as_ref().ok() != Some(&want) {
            return Err(format!("f64: {got:?}, expected {want:?}"));
        }
    }
    Ok(ch.outcome("exact or an error"))
}
