//! C17: what is serialized is deserialized to the same value. C18: typed deserialization.
//! C19: positions of errors. C20: nodes as data of serde. C21: the wrapper types.
use super::{c13::canon, c13::leaves, chars, Prop};
use crate::{doc::*, engine::*, util::*};
use serde::{
    de::{DeserializeOwned, DeserializeSeed, Deserializer, IgnoredAny, MapAccess, SeqAccess, Visitor},
    Deserialize, Serialize,
};
use std::collections::BTreeMap;
use std::fmt::Debug;
use yaml_peg::{
    dump, parse,
    repr::RcRepr,
    serde::{from_str, to_arc_node, to_node, to_string, InlineList, Optional, SerdeError, Stringify},
    NodeArc, NodeRc, Yaml,
};

fn e(x: SerdeError) -> String {
    format!("{x}")
}
fn i(n: impl ToString) -> V {
    V::Int(n.to_string())
}
fn map(v: Vec<(&str, V)>) -> V {
    V::Map(v.into_iter().map(|(k, v)| (s(k), v.into())).collect())
}
fn seq(v: Vec<V>) -> V {
    V::Seq(v.into_iter().map(N::from).collect())
}

// ------------------------------------------------------------------ C17
/// The value, its node and its text in every direction.
fn trip<T>(ch: &mut Ch, what: &str, v: &T, want: V) -> Result<(), String>
where
    T: Serialize + DeserializeOwned + Debug,
{
    if !ch.begin(|| format!("serialize {what} {v:?}")) {
        return Ok(());
    }
    ch.state(hash_of(&format!("{what} {v:?}")));
    ch.tally.validated += 1;
    // the debug form holds every bit of a float but those of NaN
    let d = format!("{v:?}");
    let eq = |w: &str, t: &T| {
        let g = format!("{t:?}");
        if g == d {
            Ok(())
        } else {
            Err(format!("{w}: {g}"))
        }
    };
    let n = to_node(v).map_err(e)?;
    let c = canon(&want);
    if canon(&read(&n).v) != c {
        return Err(format!("its node is {}, expected {}", show(&read(&n).v), show(&want)));
    }
    let a = to_arc_node(v).map_err(e)?;
    if canon(&read(&a).v) != c {
        return Err(format!("its multi-threaded node is {}", show(&read(&a).v)));
    }
    eq("back from the node", &T::deserialize(n).map_err(e)?)?;
    eq("back from the multi-threaded node", &T::deserialize(a).map_err(e)?)?;
    let text = to_string(v).map_err(e)?;
    let back: Vec<T> = from_str(&text).map_err(|x| format!("{text:?} is rejected: {x}"))?;
    if back.len() != 1 {
        return Err(format!("{} documents in {text:?}", back.len()));
    }
    eq(&format!("back from {text:?}"), &back[0])?;
    let two = format!("---\n{text}---\n{text}");
    let back: Vec<T> = from_str(&two).map_err(|x| format!("{two:?} is rejected: {x}"))?;
    if back.len() != 2 {
        return Err(format!("{} documents in {two:?}", back.len()));
    }
    for b in &back {
        eq(&format!("back from {two:?}"), b)?;
    }
    ch.outcome("equal");
    Ok(())
}

#[derive(Serialize, Deserialize, Debug, Clone)]
struct St<T> {
    a: T,
    b: Option<T>,
    c_d: Vec<T>,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
struct New<T>(T);
#[derive(Serialize, Deserialize, Debug, Clone)]
struct Two<T>(T, T);
#[derive(Serialize, Deserialize, Debug, Clone)]
struct Unit;
#[derive(Serialize, Deserialize, Debug, Clone)]
enum En<T> {
    U,
    N(T),
    P(T, T),
    S { a: T, b: T },
}
#[derive(Serialize, Deserialize, Debug, Clone)]
#[serde(tag = "t")]
enum Internal<T> {
    U,
    S { a: T },
}
#[derive(Serialize, Deserialize, Debug, Clone)]
#[serde(tag = "t", content = "c")]
enum Adjacent<T> {
    U,
    N(T),
    P(T, T),
    S { a: T },
}
#[derive(Serialize, Deserialize, Debug, Clone)]
#[serde(untagged)]
enum Untagged<T> {
    L(Vec<T>),
    S { a: T },
    V(T),
}
#[derive(Serialize, Deserialize, Debug, Clone)]
struct Flat<T> {
    a: i64,
    #[serde(flatten)]
    rest: BTreeMap<String, T>,
}
fn en<T: Clone>(ch: &mut Ch, v: &T, w: &T, f: &dyn Fn(&T) -> V) -> (En<T>, V) {
    match ch.pick(4) {
        0 => (En::U, V::Str("U".into())),
        1 => (En::N(v.clone()), map(vec![("N", f(v))])),
        2 => (En::P(v.clone(), w.clone()), map(vec![("P", seq(vec![f(v), f(w)]))])),
        _ => (En::S { a: v.clone(), b: w.clone() }, map(vec![("S", map(vec![("a", f(v)), ("b", f(w))]))])),
    }
}
/// A value of a type, in every wrapper.
fn wrapped<T>(ch: &mut Ch, name: &str, vals: &[T], any: bool, f: &dyn Fn(&T) -> V) -> Result<(), String>
where
    T: Serialize + DeserializeOwned + Debug + Clone,
{
    let k = ch.pick(if any { 22 } else { 17 });
    let v = ch.of(vals).clone();
    // the second one of pairs: few
    let w = if matches!(k, 1 | 2 | 4 | 10 | 13 | 18 | 21) { v.clone() } else { vals[ch.pick(vals.len().min(3))].clone() };
    let (fv, fw) = (f(&v), f(&w));
    match k {
        0 => trip(ch, name, &(v, w), seq(vec![fv, fw])),
        1 => trip(ch, name, &v, fv),
        2 => trip(ch, name, &Some(v), fv),
        3 => trip(ch, name, &vec![Some(v), None, Some(w)], seq(vec![fv, V::Null, fw])),
        4 => trip(ch, name, &vec![v], seq(vec![fv])),
        5 => trip(ch, name, &[v, w], seq(vec![fv, fw])),
        6 => trip(ch, name, &BTreeMap::from([("k".to_string(), v), ("".to_string(), w)]), map(vec![("", fw), ("k", fv)])),
        7 => {
            let n = ch.pick(3);
            let (b, fb) = if n == 0 { (None, V::Null) } else { (Some(w.clone()), fw.clone()) };
            let c: Vec<T> = (0..n).map(|_| w.clone()).collect();
            let fc = (0..n).map(|_| fw.clone()).collect();
            trip(ch, name, &St { a: v, b, c_d: c }, map(vec![("a", fv), ("b", fb), ("c_d", seq(fc))]))
        }
        8 => trip(ch, name, &(v, (w.clone(), w)), seq(vec![fv, seq(vec![fw.clone(), fw])])),
        9 => trip(ch, name, &Two(v, w), seq(vec![fv, fw])),
        10 => trip(ch, name, &New(v), fv),
        11 => {
            let (x, fx) = en(ch, &v, &w, f);
            trip(ch, name, &x, fx)
        }
        12 => {
            let (x, fx) = en(ch, &v, &w, f);
            let (y, fy) = en(ch, &w, &v, f);
            trip(ch, name, &vec![x, y], seq(vec![fx, fy]))
        }
        13 => match ch.pick(3) {
            0 => trip(ch, name, &Option::<T>::None, V::Null),
            1 => trip(ch, name, &Vec::<T>::new(), seq(vec![])),
            _ => trip(ch, name, &BTreeMap::<String, T>::new(), map(vec![])),
        },
        14 => trip(ch, name, &vec![vec![v], vec![], vec![w]], seq(vec![seq(vec![fv]), seq(vec![]), seq(vec![fw])])),
        15 => {
            let (x, fx) = en(ch, &v, &w, f);
            trip(ch, name, &BTreeMap::from([("k".to_string(), vec![Some(x)]), ("l".to_string(), vec![])]), map(vec![("k", seq(vec![fx])), ("l", seq(vec![]))]))
        }
        16 => trip(ch, name, &En::N(En::P(New(v), New(w))), map(vec![("N", map(vec![("P", seq(vec![fv, fw]))]))])),
        // these go through the untyped interface
        17 => match ch.pick(2) {
            0 => trip(ch, name, &vec![Internal::S { a: v }, Internal::U], seq(vec![map(vec![("t", V::Str("S".into())), ("a", fv)]), map(vec![("t", V::Str("U".into()))])])),
            _ => trip(ch, name, &Internal::S { a: vec![v, w] }, map(vec![("t", V::Str("S".into())), ("a", seq(vec![fv, fw]))])),
        },
        18 => match ch.pick(3) {
            0 => trip(ch, name, &Adjacent::N(v), map(vec![("t", V::Str("N".into())), ("c", fv)])),
            1 => trip(ch, name, &Adjacent::<T>::U, map(vec![("t", V::Str("U".into()))])),
            _ => trip(ch, name, &Adjacent::S { a: v }, map(vec![("t", V::Str("S".into())), ("c", map(vec![("a", fv)]))])),
        },
        19 => trip(ch, name, &Adjacent::P(v, w), map(vec![("t", V::Str("P".into())), ("c", seq(vec![fv, fw]))])),
        20 => trip(ch, name, &Flat { a: 5, rest: BTreeMap::from([("x".to_string(), v), ("y".to_string(), w)]) }, map(vec![("a", i(5)), ("x", fv), ("y", fw)])),
        _ => match ch.pick(3) {
            0 => trip(ch, name, &Untagged::V(v), fv),
            1 => trip(ch, name, &Untagged::S { a: v }, map(vec![("a", fv)])),
            _ => trip(ch, name, &Untagged::L(vec![v, w]), seq(vec![fv, fw])),
        },
    }
}
fn keyed<K: Serialize + DeserializeOwned + Debug + Clone + Ord>(ch: &mut Ch, name: &str, vals: &[K], f: &dyn Fn(&K) -> V) -> Result<(), String> {
    let (a, b) = (ch.of(vals).clone(), ch.of(vals).clone());
    let mut m = BTreeMap::new();
    m.insert(a, vec!["x".to_string()]);
    m.insert(b, vec![]);
    let want = V::Map(m.iter().map(|(k, v)| (f(k).into(), seq(v.iter().map(|t| V::Str(t.clone())).collect()).into())).collect());
    trip(ch, name, &m, want)
}
/// Serialized through the byte interface.
#[derive(Debug, Clone)]
struct Bytes(Vec<u8>);
impl Serialize for Bytes {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(&self.0)
    }
}
impl<'de> Deserialize<'de> for Bytes {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct B;
        impl<'de> Visitor<'de> for B {
            type Value = Bytes;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("bytes")
            }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Bytes, A::Error> {
                let mut v = vec![];
                while let Some(b) = a.next_element()? {
                    v.push(b);
                }
                Ok(Bytes(v))
            }
            fn visit_str<E>(self, s: &str) -> Result<Bytes, E> {
                Ok(Bytes(s.as_bytes().to_vec()))
            }
        }
        d.deserialize_byte_buf(B)
    }
}

const STRS: &[&str] = &["", "a", "1", "null", "~", "true", "1.5", ".nan", "- a", "a: b", "# c", "a #b", "\n", "a\n", "a\nb\n\n", " a", "a ", "\"", "'", "\\", "\t", "\r", "é", "😀", "\u{0}", "\u{7f}", "\u{85}", "\u{2028}", "\u{feff}", "[", "{", "&a", "*a", "!t", "|", ">", "%", "@", "`", "---", "...", "--- a", "? a", ": a", "-", "a:", "0x1F", "1_000", "12:30", "a, b", "\n a", "  a\nb", "\r\n", "U", "N"];
const FLOATS: &[f64] = &[0.0, 1.0, -0.0, 1.5, 0.1, -2.5e-3, 1e15, 1e16, 1e17, 1e21, 1e100, 1e-7, 123456789.125, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, f64::EPSILON, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 9007199254740993.0, 0.30000000000000004, 2.2250738585072011e-308, 1e38, 1.7e38, 1.8e38, 3.5e38];

fn types(ch: &mut Ch) -> Result<(), String> {
    macro_rules! ints {
        ($($k:literal $t:ident $any:literal)+) => {
            match ch.pick(16) {
                $($k => {
                    let mut v: Vec<$t> = vec![0, 1, 7, 100, $t::MAX, $t::MIN, $t::MAX - 1, $t::MIN + 1, $t::MAX / 2, $t::MAX / 2 + 1];
                    v.push((0 as $t).wrapping_sub(1));
                    wrapped(ch, stringify!($t), &v, $any, &|n| i(n))
                })+
                10 => wrapped(ch, "bool", &[true, false], true, &|b| V::Bool(*b)),
                11 => wrapped(ch, "f64", FLOATS, true, &|f| V::Float(f.to_string())),
                12 => {
                    let v: Vec<f32> = FLOATS.iter().map(|f| *f as f32).chain([f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1e-45, f32::EPSILON, 16777216.0, 16777217.0, 0.1, 7.038531e-26, -7.038531e-26]).collect();
                    wrapped(ch, "f32", &v, false, &|f| V::Float(f.to_string()))
                }
                13 => {
                    let v: Vec<char> = (0..0xc0u32).chain([0x2028, 0x2029, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff, 0xd7ff, 0xe000]).filter_map(char::from_u32).collect();
                    wrapped(ch, "char", &v, true, &|c| V::Str(c.to_string()))
                }
                14 => {
                    let v: Vec<String> = STRS.iter().map(|t| t.to_string()).collect();
                    wrapped(ch, "String", &v, true, &|t| V::Str(t.clone()))
                }
                _ => match ch.pick(10) {
                    0 => trip(ch, "()", &(), V::Null),
                    1 => trip(ch, "unit struct", &[Unit, Unit], seq(vec![V::Null, V::Null])),
                    2 => {
                        let n = ch.pick(4);
                        let b: Vec<u8> = (0..n).map(|_| *ch.of(&[0u8, 10, 255])).collect();
                        let w = seq(b.iter().map(|b| i(*b)).collect());
                        trip(ch, "bytes", &Bytes(b), w)
                    }
                    3 => keyed(ch, "bool keys", &[true, false], &|b| V::Bool(*b)),
                    4 => keyed(ch, "i64 keys", &[0, 1, -1, i64::MAX, i64::MIN], &|n| i(n)),
                    5 => keyed(ch, "u128 keys", &[0, 1, u128::MAX, i128::MAX as u128 + 1], &|n| i(n)),
                    6 => keyed(ch, "char keys", &['a', '1', ':', '#', '\n', 'é', '-', '~', ' '], &|c| V::Str(c.to_string())),
                    7 => keyed(ch, "string keys", &STRS.iter().map(|t| t.to_string()).collect::<Vec<_>>(), &|t| V::Str(t.clone())),
                    8 => keyed(ch, "tuple keys", &[(0, "".to_string()), (0, "a".into()), (1, "~".into())], &|k| seq(vec![i(k.0), V::Str(k.1.clone())])),
                    _ => keyed(ch, "optional keys", &[None, Some(1), Some(2)], &|k| k.map_or(V::Null, |n| i(n))),
                },
            }
        };
    }
    ints! { 0 i8 true 1 i16 true 2 i32 true 3 i64 true 4 u8 true 5 u16 true 6 u32 true 7 u64 true 8 i128 false 9 u128 false }
}

#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
enum T {
    Unit,
    Num(i8),
    Text(String),
    New(Box<T>),
    Pair(Box<T>, Box<T>),
    List(Vec<T>),
    Rec { a: Box<T>, b: Option<Box<T>> },
    Map(BTreeMap<String, T>),
    Opt(Option<Box<T>>),
    Mixed { l: Vec<(bool, T)>, n: () },
}
fn tree(ch: &mut Ch, left: &mut usize) -> (T, V) {
    *left = left.saturating_sub(1);
    let tag = |n: &str, v: V| map(vec![(n, v)]);
    match ch.pick(if *left > 0 { 14 } else { 6 }) {
        0 => (T::Unit, V::Str("Unit".into())),
        1 => (T::Num(-7), tag("Num", i(-7))),
        2 => (T::Text("Unit".into()), tag("Text", V::Str("Unit".into()))),
        3 => (T::List(vec![]), tag("List", seq(vec![]))),
        4 => (T::Map(BTreeMap::new()), tag("Map", map(vec![]))),
        5 => (T::Opt(None), tag("Opt", V::Null)),
        6 => {
            let (a, x) = tree(ch, left);
            (T::New(a.into()), tag("New", x))
        }
        7 => {
            let ((a, x), (b, y)) = (tree(ch, left), tree(ch, left));
            (T::Pair(a.into(), b.into()), tag("Pair", seq(vec![x, y])))
        }
        8 => {
            let (a, x) = tree(ch, left);
            (T::List(vec![a]), tag("List", seq(vec![x])))
        }
        9 => {
            let ((a, x), (b, y)) = (tree(ch, left), tree(ch, left));
            (T::List(vec![a, b]), tag("List", seq(vec![x, y])))
        }
        10 => {
            let (a, x) = tree(ch, left);
            let (b, y) = if ch.flip() {
                let (b, y) = tree(ch, left);
                (Some(b.into()), y)
            } else {
                (None, V::Null)
            };
            (T::Rec { a: a.into(), b }, tag("Rec", map(vec![("a", x), ("b", y)])))
        }
        11 => {
            let ((a, x), (b, y)) = (tree(ch, left), tree(ch, left));
            (T::Map([("k".to_string(), a), ("Unit".to_string(), b)].into()), tag("Map", map(vec![("Unit", y), ("k", x)])))
        }
        12 => {
            let (a, x) = tree(ch, left);
            (T::Opt(Some(a.into())), tag("Opt", x))
        }
        _ => {
            let (a, x) = tree(ch, left);
            (T::Mixed { l: vec![(true, a)], n: () }, tag("Mixed", map(vec![("l", seq(vec![seq(vec![V::Bool(true), x])])), ("n", V::Null)])))
        }
    }
}

pub fn c17() -> Prop {
    Prop {
        id: "C17",
        spaces: |t| vec![
            Space::new("characters and numbers", "every character, integers around every power of two and ten in every type, floats of every exponent", chars::serialized),
            Space::new("floats", if t { "all floats of 32 bits" } else { "every 31st float of 32 bits" }, move |ch| chars::all_floats32(ch, if t { 1 } else { 31 })),
            Space::new("types", "every primitive type with its extreme values in 22 wrappers (options, sequences, tuples, maps, structures, four kinds of enumerations), and ten kinds of keys", types),
            Space::new("trees", format!("every value of a recursive enumeration with {} constructors", if t { 6 } else { 4 }), move |ch| {
                let (v, w) = tree(ch, &mut (if t { 6 } else { 4 }));
                trip(ch, "a tree", &v, w)
            }),
        ],
        oracle: "the value itself, and the node its type stands for in the data model of serde; through nodes of both holders, through text, and through a stream of two documents",
        assumptions: &["an option of a type that serializes as null is not used", "128-bit integers and 32-bit floats do not go through the buffered interface of untagged types"],
    }
}

// ------------------------------------------------------------------ C18
fn whole(t: &str) -> Option<i128> {
    let c = canon(&V::Int(t.into()));
    c.strip_prefix('i').and_then(|d| d.parse().ok())
}
fn float(v: &V) -> Option<f64> {
    match v {
        V::Float(t) => t.parse().ok(),
        V::Int(t) => whole(t).map(|n| n as f64).or_else(|| t.parse().ok()),
        _ => None,
    }
}
fn float32(v: &V) -> Option<f32> {
    match v {
        V::Float(t) => t.parse().ok(),
        V::Int(t) => whole(t).map(|n| n as f32).or_else(|| t.parse().ok()),
        _ => None,
    }
}
fn text(v: &V) -> Option<String> {
    match v {
        V::Str(t) | V::Int(t) | V::Float(t) => Some(t.clone()),
        V::Bool(b) => Some(b.to_string()),
        V::Null => Some("null".into()),
        _ => None,
    }
}
fn int64(v: &V) -> Option<i64> {
    match v {
        V::Int(t) => whole(t).and_then(|n| n.try_into().ok()),
        _ => None,
    }
}
fn list<A>(v: &V, f: impl Fn(&V) -> Option<A>) -> Option<Vec<A>> {
    match v {
        V::Seq(v) => v.iter().map(|n| f(&n.v)).collect(),
        _ => None,
    }
}
fn two<A>(v: &V, f: impl Fn(&V) -> Option<A>) -> Option<(A, A)> {
    match v {
        V::Seq(v) if v.len() >= 2 => Some((f(&v[0].v)?, f(&v[1].v)?)),
        _ => None,
    }
}
fn dict<A>(v: &V, f: impl Fn(&V) -> Option<A>) -> Option<BTreeMap<String, A>> {
    match v {
        V::Map(m) => m.iter().map(|(k, v)| Some((text(&k.v)?, f(&v.v)?))).collect(),
        _ => None,
    }
}
#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct Rec {
    k: i64,
    l: Option<String>,
    #[serde(default)]
    m: Vec<bool>,
}
fn rec(v: &V) -> Option<Rec> {
    let opt = |v: &V| if *v == V::Null { Some(None) } else { text(v).map(Some) };
    let flags = |v: &V| list(v, |v| if let V::Bool(b) = v { Some(*b) } else { None });
    match v {
        V::Map(p) => {
            let mut r = (None, None, None);
            for (k, v) in p {
                // names of fields are strings; other names are ignored
                let V::Str(k) = &k.v else { return None };
                match k.as_str() {
                    "k" => r.0 = Some(int64(&v.v)?),
                    "l" => r.1 = Some(opt(&v.v)?),
                    "m" => r.2 = Some(flags(&v.v)?),
                    _ => {}
                }
            }
            Some(Rec { k: r.0?, l: r.1.unwrap_or_default(), m: r.2.unwrap_or_default() })
        }
        // in the order of the fields; only the defaulted ones may be missing
        V::Seq(p) if p.len() >= 2 => Some(Rec { k: int64(&p[0].v)?, l: opt(&p[1].v)?, m: if p.len() > 2 { flags(&p[2].v)? } else { vec![] } }),
        _ => None,
    }
}
fn enumeration(v: &V) -> Option<En<i64>> {
    match v {
        V::Str(t) if t == "U" => Some(En::U),
        V::Map(m) if m.len() == 1 => {
            let (V::Str(k), v) = (&m[0].0.v, &m[0].1.v) else { return None };
            match k.as_str() {
                "U" if *v == V::Null => Some(En::U),
                "N" => Some(En::N(int64(v)?)),
                "P" => two(v, int64).map(|(a, b)| En::P(a, b)),
                "S" => {
                    let V::Map(m) = v else { return None };
                    let (mut a, mut b) = (None, None);
                    for (k, v) in m {
                        match &k.v {
                            V::Str(k) if k == "a" => a = Some(int64(&v.v)?),
                            V::Str(k) if k == "b" => b = Some(int64(&v.v)?),
                            V::Str(_) => {}
                            _ => return None,
                        }
                    }
                    Some(En::S { a: a?, b: b? })
                }
                _ => None,
            }
        }
        _ => None,
    }
}
/// Values that meet the types above.
fn target(ch: &mut Ch, depth: usize) -> V {
    let all = leaves();
    let extra: Vec<V> = ["U", "N", "k", "é", "ab", "127", "-"].iter().map(|t| V::Str(t.to_string())).chain(["127", "128", "-128", "-129", "255", "256", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "-170141183460469231731687303715884105728", "340282366920938463463374607431768211455", "0xff", "0o377", "+255", "-0x80"].iter().map(|t| i(t))).chain([V::Float("1.5".into()), V::Float("3.5e38".into())]).collect();
    let n = all.len() + extra.len();
    let c = ch.pick(n + if depth > 0 { 5 } else { 0 });
    if c < all.len() {
        return all[c].clone();
    }
    if c < n {
        return extra[c - all.len()].clone();
    }
    let small = |ch: &mut Ch| -> N {
        ch.of(&[i(1), V::Null, V::Str("a".into()), V::Bool(true), V::Int("128".into()), V::Int("99999999999999999999".into()), V::Float("1.5".into()), seq(vec![]), seq(vec![V::Bool(true)]), seq(vec![i(1), i(2)]), seq(vec![i(1), i(2), i(3)]), seq(vec![i(1), V::Null]), map(vec![("a", i(1)), ("b", i(2))]), map(vec![("a", i(1))]), map(vec![("b", i(1)), ("a", i(2)), ("c", V::Null)]), V::Alias("x".into())]).clone().into()
    };
    let key = |ch: &mut Ch| -> N { ch.of(&[V::Str("k".into()), V::Str("l".into()), V::Str("m".into()), V::Str("U".into()), V::Str("N".into()), V::Str("P".into()), V::Str("S".into()), V::Str("a".into()), i(1), V::Null, seq(vec![])]).clone().into() };
    match c - n {
        0 => V::Seq(vec![]),
        1 => V::Map(vec![]),
        2 => V::Seq((0..1 + ch.pick(3)).map(|_| small(ch)).collect()),
        3 => V::Map(vec![(key(ch), small(ch))]),
        _ => {
            let (a, b) = (key(ch), key(ch));
            ch.skip |= a == b;
            V::Map(vec![(a, small(ch)), (b, small(ch))])
        }
    }
}
fn typed(ch: &mut Ch) -> Result<(), String> {
    let v = target(ch, 1);
    if !ch.begin(|| format!("deserialize {}", show(&v))) {
        return Ok(());
    }
    ch.state(hash_of(&v));
    let n: NodeRc = build(&N::from(v.clone()));
    let a: NodeArc = build(&N::from(v.clone()));
    fn alias(v: &V) -> bool {
        match v {
            V::Alias(_) => true,
            V::Seq(v) => v.iter().any(|n| alias(&n.v)),
            V::Map(m) => m.iter().any(|(k, v)| alias(&k.v) || alias(&v.v)),
            _ => false,
        }
    }
    // texts that no document has
    fn odd(v: &V) -> bool {
        match v {
            V::Int(t) => t.starts_with("-0x"),
            V::Float(t) => t == "nan" || t == "-nan",
            _ => false,
        }
    }
    let text_of = if alias(&v) || odd(&v) { None } else { Some(dump(&[n.clone()], &[])) };
    macro_rules! conv {
        ($($t:ty, $text:expr => $want:expr;)+) => {
            $({
                let want: Option<$t> = $want;
                let w = want.map(|w| format!("{w:?}"));
                let show = |r: Result<$t, SerdeError>| r.map(|t| format!("{t:?}")).map_err(e);
                ch.tally.validated += 2;
                let mut got = vec![("the node", show(<$t>::deserialize(n.clone()))), ("the multi-threaded node", show(<$t>::deserialize(a.clone())))];
                if let (Some(t), true) = (&text_of, $text) {
                    ch.tally.validated += 1;
                    got.push(("its text", show(from_str::<$t>(t).map(|mut v| v.remove(0)))));
                }
                for (from, g) in got {
                    if g.clone().ok() != w {
                        return Err(format!("{} from {from}: {g:?}, expected {w:?}", stringify!($t)));
                    }
                }
            })+
        };
    }
    macro_rules! ints {
        ($($t:ident)+) => { $(conv! { $t, true => if let V::Int(t) = &v { whole(t).and_then(|n| n.try_into().ok()) } else { None }; })+ };
    }
    ints! { i8 i16 i32 i64 i128 u8 u16 u32 u64 isize usize }
    if v == V::Int("-0".into()) {
        // its sign as a float is not defined
        return Ok(());
    }
    conv! {
        u128, true => if let V::Int(t) = &v { canon(&V::Int(t.clone())).strip_prefix('i').and_then(|d| d.parse().ok()).or_else(|| t.parse().ok()) } else { None };
        bool, true => if let V::Bool(b) = v { Some(b) } else { None };
        f64, true => float(&v);
        f32, true => float32(&v);
        char, true => match &v {
            V::Str(t) | V::Int(t) if t.chars().count() == 1 => t.chars().next(),
            _ => None,
        };
        // the text of a float is not kept
        String, !matches!(v, V::Float(_)) => text(&v);
        (), true => if v == V::Null { Some(()) } else { None };
        Unit, true => if v == V::Null { Some(Unit) } else { None };
        Option<i64>, true => if v == V::Null { Some(None) } else { int64(&v).map(Some) };
        Option<String>, !matches!(v, V::Float(_)) => if v == V::Null { Some(None) } else { text(&v).map(Some) };
        New<i64>, true => int64(&v).map(New);
        Vec<i64>, true => list(&v, int64);
        Vec<String>, true => list(&v, text);
        Vec<Option<u8>>, true => list(&v, |v| if *v == V::Null { Some(None) } else { int64(v).and_then(|n| n.try_into().ok()).map(Some) });
        (i64, i64), true => two(&v, int64);
        Two<i64>, true => two(&v, int64).map(|(a, b)| Two(a, b));
        BTreeMap<String, i64>, true => dict(&v, int64);
        BTreeMap<String, Vec<i64>>, true => dict(&v, |v| list(v, int64));
        Rec, true => rec(&v);
        En<i64>, true => enumeration(&v);
        IgnoredAny, true => Some(IgnoredAny);
    }
    ch.outcome("as expected");
    Ok(())
}

pub fn c18() -> Prop {
    Prop {
        id: "C18",
        spaces: |_| vec![Space::new("integers", "integers around every power of two and ten in six notations into every integer type and as floats", chars::integers_into), Space::new("typed", "31 target types for every value of a universe of scalars with all range limits, sequences of at most three and maps of at most two entries", typed)],
        oracle: "a conversion table written by hand: which kinds a type accepts, exact integers or an error out of range, fields by name or in order, variants by name; from nodes of both holders and from text",
        assumptions: &["additional fields and items are ignored, as documented"],
    }
}

// ------------------------------------------------------------------ C19
/// What is asked of a node, down to one place where it does not fit.
struct Expect<'a> {
    model: &'a N,
    /// preorder number of the node that is asked for another kind
    bad: usize,
    how: usize,
    next: &'a std::cell::Cell<usize>,
    at: &'a std::cell::RefCell<Option<N>>,
}
macro_rules! kinds {
    ($d:ident, $how:expr, $v:expr, $($n:literal $m:ident)+) => { match $how { $($n => $d.$m($v),)+ _ => $d.deserialize_enum("E", &["U"], $v) } };
}
fn kind_of(v: &V, how: usize) -> bool {
    // does the question number `how` fit?
    match how {
        0 => matches!(v, V::Bool(_)),
        1..=4 => matches!(v, V::Int(_)),
        5 => matches!(v, V::Int(_) | V::Float(_)),
        6 => matches!(v, V::Seq(_)),
        7 => matches!(v, V::Map(_)),
        8 => matches!(v, V::Null),
        9 => matches!(v, V::Str(_)),
        10 => !matches!(v, V::Seq(_) | V::Map(_)),
        // a text of one character or a number of one digit
        11 => matches!(v, V::Str(t) | V::Int(t) if t.chars().count() == 1),
        12 => matches!(v, V::Int(_)),
        13 => matches!(v, V::Str(_)) || matches!(v, V::Map(m) if m.len() == 1),
        _ => matches!(v, V::Str(_) | V::Seq(_)),
    }
}
const HOWS: usize = 15;
impl<'de, 'a> DeserializeSeed<'de> for Expect<'a> {
    type Value = ();
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        let me = self.next.get();
        self.next.set(me + 1);
        if me == self.bad {
            *self.at.borrow_mut() = Some(self.model.clone());
            struct Any;
            impl<'de> Visitor<'de> for Any {
                type Value = ();
                fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                    f.write_str("something else")
                }
                fn visit_bool<E>(self, _: bool) -> Result<(), E> { Ok(()) }
                fn visit_i8<E>(self, _: i8) -> Result<(), E> { Ok(()) }
                fn visit_u64<E>(self, _: u64) -> Result<(), E> { Ok(()) }
                fn visit_i64<E>(self, _: i64) -> Result<(), E> { Ok(()) }
                fn visit_str<E>(self, _: &str) -> Result<(), E> { Ok(()) }
            }
            return kinds!(d, self.how, Any, 0 deserialize_bool 1 deserialize_i64 2 deserialize_u64 3 deserialize_i128 4 deserialize_u128 5 deserialize_f64 6 deserialize_seq 7 deserialize_map 8 deserialize_unit 9 deserialize_identifier 10 deserialize_string 11 deserialize_char 12 deserialize_i8 14 deserialize_bytes);
        }
        struct Vis<'a>(Expect<'a>);
        impl<'de, 'a> Visitor<'de> for Vis<'a> {
            type Value = ();
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("what the model says")
            }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
                let V::Seq(v) = &self.0.model.v else { unreachable!() };
                for n in v {
                    a.next_element_seed(Expect { model: n, ..self.0 })?;
                }
                Ok(())
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
                let V::Map(m) = &self.0.model.v else { unreachable!() };
                for (k, v) in m {
                    a.next_key_seed(Expect { model: k, ..self.0 })?;
                    a.next_value_seed(Expect { model: v, ..self.0 })?;
                }
                Ok(())
            }
            fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
                self.0.next.set(self.0.next.get() - 1);
                self.0.deserialize(d)
            }
            fn visit_none<E>(self) -> Result<(), E> { Ok(()) }
            fn visit_unit<E>(self) -> Result<(), E> { Ok(()) }
            fn visit_i64<E>(self, _: i64) -> Result<(), E> { Ok(()) }
            fn visit_str<E>(self, _: &str) -> Result<(), E> { Ok(()) }
        }
        match &self.model.v {
            V::Seq(_) => d.deserialize_seq(Vis(self)),
            V::Map(_) => d.deserialize_map(Vis(self)),
            V::Int(_) => d.deserialize_i64(Vis(self)),
            V::Null => d.deserialize_unit(Vis(self)),
            _ => d.deserialize_str(Vis(self)),
        }
    }
}
fn nodes(n: &N) -> usize {
    1 + match &n.v {
        V::Seq(v) => v.iter().map(nodes).sum(),
        V::Map(m) => m.iter().map(|(k, v)| nodes(k) + nodes(v)).sum(),
        _ => 0,
    }
}
fn errors(ch: &mut Ch, cfg: &Cfg) -> Result<(), String> {
    let lead = *ch.of(&["", "a: [é]\n---\n"]);
    let (text, doc) = {
        let mut w = Writer::new(ch, cfg);
        w.out.push_str(lead);
        let d = w.block(At::Root, 0, cfg.depth);
        (w.out, d)
    };
    let doc = &doc;
    let bad = ch.pick(nodes(doc));
    let how = ch.pick(HOWS);
    if !ch.begin(|| format!("ask node {bad} of {text:?} for kind {how}")) {
        return Ok(());
    }
    ch.state(hash_of(&(&text, bad, how)));
    ch.tally.validated += 1;
    let all = parse::<RcRepr>(&text).map_err(|e| format!("rejected: {e}"))?;
    let n = all.last().unwrap().clone();
    let (next, at) = (std::cell::Cell::new(0), std::cell::RefCell::new(None));
    let r = Expect { model: doc, bad, how, next: &next, at: &at }.deserialize(n);
    let at = at.into_inner();
    let Some(at) = at else { return Err(format!("the place is not reached: {r:?}")) };
    match r {
        Ok(()) => {
            ch.outcome("fits");
            if kind_of(&at.v, how) {
                return Ok(());
            }
            Err(format!("{} is accepted as kind {how}", show(&at.v)))
        }
        // refused by the visitor, not by the library
        Err(_) if kind_of(&at.v, how) => Ok(()),
        Err(x) => {
            ch.outcome("points at the node");
            if (at.lo as u64..=at.hi as u64).contains(&x.pos) {
                Ok(())
            } else {
                Err(format!("the error {:?} is at {}, expected {}..={}", x.msg, x.pos, at.lo, at.hi))
            }
        }
    }
}
/// Through derived types and the whole interface.
#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct Conf {
    n: u8,
    f: f32,
    b: bool,
    c: char,
    l: Vec<i16>,
    p: (u16, bool),
    o: Option<u32>,
    e: En<u8>,
    m: BTreeMap<String, i32>,
    s: Inner,
}
#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct Inner {
    x: i8,
    y: New<u64>,
}
fn derived(ch: &mut Ch) -> Result<(), String> {
    // field, good value, bad values with the offset of the mistake
    const FIELDS: &[(&str, &str, &[(&str, usize)])] = &[
        ("n", "1", &[("256", 0), ("-1", 0), ("a", 0), ("1.5", 0), ("[]", 0), ("99999999999999999999999999999999999999999", 0)]),
        ("f", "1.5", &[("a", 0), ("[1]", 0), ("~", 0), ("true", 0)]),
        ("b", "true", &[("1", 0), ("'true'", 0), ("yes", 0)]),
        ("c", "x", &[("xy", 0), ("[x]", 0), ("10", 0)]),
        ("l", "[1, 2]", &[("[1, a]", 4), ("[99999, 1]", 1), ("1", 0), ("{a: 1}", 0), ("[1, [2]]", 4), ("[1, 2, 3, ~]", 10)]),
        ("p", "[1, true]", &[("[-1, true]", 1), ("[1, 2]", 4), ("x", 0)]),
        ("o", "~", &[("-1", 0), ("a", 0), ("[]", 0)]),
        ("e", "{N: 1}", &[("{N: 300}", 4), ("{P: [1, x]}", 8), ("{S: {a: 1, b: ~}}", 14), ("{N: 1, U: 2}", 0), ("[]", 0), ("1", 0), ("{P: 1}", 4), ("{S: 2}", 4)]),
        ("m", "{a: 1}", &[("{a: b}", 4), ("{a: 1, b: 2.5}", 10), ("[1]", 0), ("{[a]: 1}", 1)]),
        ("s", "{x: 1, y: 2}", &[("{x: 128, y: 2}", 4), ("{x: 1, y: -2}", 10), ("{y: 1, x: []}", 10), ("1", 0), ("{1: 2}", 1)]),
    ];
    let block = ch.flip();
    let lead = *ch.of(&["", "--- # c\n", "# é\n\n", "%YAML 1.2\n---\n"]);
    let bad = ch.pick(FIELDS.len());
    let (val, off) = *ch.of(FIELDS[bad].2);
    let rot = ch.pick(FIELDS.len());
    let mut text = lead.to_string();
    let mut at = 0;
    if !block {
        text.push('{');
    }
    for j in 0..FIELDS.len() {
        let f = (j + rot) % FIELDS.len();
        let (n, good, _) = FIELDS[f];
        text.push_str(n);
        text.push_str(": ");
        if f == bad {
            at = text.len() + off;
        }
        text.push_str(if f == bad { val } else { good });
        text.push_str(if block { "\n" } else { ", " });
    }
    if !block {
        text.push('}');
    }
    if !ch.begin(|| format!("deserialize {text:?}")) {
        return Ok(());
    }
    ch.state(hash_of(&text));
    ch.tally.validated += 1;
    match from_str::<Conf>(&text) {
        Ok(v) => Err(format!("accepted: {v:?}")),
        Err(x) if x.pos == at as u64 && !x.msg.is_empty() => {
            ch.outcome("points at the node");
            Ok(())
        }
        Err(x) => Err(format!("the error {:?} is at {}, expected {at}", x.msg, x.pos)),
    }
}

/// A placeholder has no kind at all: whatever is asked for, the error is at the placeholder.
fn placeholders(ch: &mut Ch) -> Result<(), String> {
    // the text with a hole, and how to get there
    const FRAMES: &[(&str, usize)] = &[
        ("@", 0),
        ("--- # c\n@\n", 0),
        ("- &x a\n- @\n", 1),
        ("[é, @]", 1),
        ("- a\n- @\n- b\n", 1),
        ("k: &x a\nl: @\n", 2),
        ("{k: 'é', l: @}\n", 2),
        ("l: @\nk: a\n", 2),
        ("- &x a\n-\n  - b\n  - @\n", 3),
        ("- a\n- [b, @, c]\n", 3),
        ("k: a\nl:\n  k: b\n  l: @\n", 4),
        ("k: a\nl: {k: [], l: @}", 4),
        ("- a\n- k: b\n  l: @\n", 5),
        ("k: a\nl:\n- b\n- @\n", 6),
        ("@ : a\n", 7),
        ("{@ : a}", 7),
        ("? @\n: a\n", 7),
        ("a: b\n---\n- c\n- @\n", 1),
    ];
    #[derive(Deserialize, Debug)]
    #[allow(dead_code)]
    struct Kl<X> {
        k: IgnoredAny,
        l: X,
    }
    struct Key<X>(#[allow(dead_code)] std::marker::PhantomData<X>);
    impl<'de, X: Deserialize<'de>> Deserialize<'de> for Key<X> {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            struct Vis<X>(std::marker::PhantomData<X>);
            impl<'de, X: Deserialize<'de>> Visitor<'de> for Vis<X> {
                type Value = Key<X>;
                fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                    f.write_str("a map")
                }
                fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Key<X>, A::Error> {
                    while a.next_entry::<X, IgnoredAny>()?.is_some() {}
                    Ok(Key(self.0))
                }
            }
            d.deserialize_map(Vis(std::marker::PhantomData))
        }
    }
    type It = IgnoredAny;
    fn ask<X: DeserializeOwned>(n: NodeRc, frame: usize) -> Option<u64> {
        match frame {
            0 => X::deserialize(n).err(),
            1 => <(It, X)>::deserialize(n).err(),
            2 => Kl::<X>::deserialize(n).err(),
            3 => <(It, (It, X))>::deserialize(n).err(),
            4 => Kl::<Kl<X>>::deserialize(n).err(),
            5 => <(It, Kl<X>)>::deserialize(n).err(),
            6 => Kl::<(It, X)>::deserialize(n).err(),
            _ => Key::<X>::deserialize(n).err(),
        }
        .map(|e| e.pos)
    }
    let (frame, way) = *ch.of(FRAMES);
    let lead = *ch.of(&["", "# é\n\n", "%YAML 1.2\n---\n"]);
    if lead.starts_with('%') && frame.starts_with("---") {
        return Ok(());
    }
    let props = *ch.of(&["", "!t ", "&y "]);
    let what = ch.pick(22);
    let text = format!("{lead}{}", frame.replace('@', &format!("{props}*x")));
    if !ch.begin(|| format!("ask the alias in {text:?} for kind {what}")) {
        return Ok(());
    }
    ch.state(hash_of(&(&text, what)));
    ch.tally.validated += 1;
    let at = text.rfind("*x").unwrap() as u64;
    let all = yaml_peg::parse_cyclic::<RcRepr>(&text).map_err(|e| format!("rejected: {e}"))?.0;
    let n = all.last().unwrap().clone();
    macro_rules! kinds {
        ($($k:literal $t:ty;)+) => {
            match what {
                $($k => ask::<$t>(n, way),)+
                _ => ask::<serde_json::Value>(n, way),
            }
        };
    }
    let got = kinds! {
        0 bool; 1 i8; 2 u64; 3 i128; 4 u128; 5 f32; 6 f64; 7 char; 8 String; 9 (); 10 Unit; 11 Option<u8>; 12 New<u8>;
        13 Vec<u8>; 14 (u8, u8); 15 BTreeMap<String, u8>; 16 Inner; 17 En<u8>; 18 NodeRc; 19 NodeArc; 20 Option<NodeRc>;
    };
    match got {
        Some(p) if p == at => {
            ch.outcome("points at the alias");
            Ok(())
        }
        Some(p) => Err(format!("the error is at {p}, the alias at {at}")),
        None => Err("accepted".into()),
    }
}

pub fn c19() -> Prop {
    Prop {
        id: "C19",
        spaces: |t| vec![
            space("trees", "trees and streams of two documents; each node is asked for each of 15 kinds", 1, Cfg { nodes: if t { 6 } else { 5 }, depth: 3, layout: t, leaves: &[Leaf::Plain, Leaf::Int, Leaf::Tilde, Leaf::Literal, Leaf::Empty], flow_leaves: &[Leaf::Plain, Leaf::Int, Leaf::Tilde], keys: &[Key::Plain, Key::Explicit, Key::Flow, Key::Int, Key::Bare], pairs: true, next_line: true, ..Cfg::default() }, errors),
            Space::new("placeholders", "an alias in 18 places of the cyclic mode, with properties, asked for 22 types", placeholders),
            Space::new("derived", "one wrong value in one of ten fields of a derived structure, in every order, block and flow, with four beginnings", derived),
        ],
        oracle: "the position of the node the writer recorded; what fits is accepted, what does not fit is an error at that node",
        assumptions: &["errors that a visitor raises for missing or unknown names have no position"],
    }
}

// ------------------------------------------------------------------ C20
fn node_data(ch: &mut Ch, depth: usize) -> Result<(), String> {
    let all = leaves();
    fn value(ch: &mut Ch, all: &[V], depth: usize) -> V {
        let c = ch.pick(all.len() + if depth > 0 { 6 } else { 0 });
        if c < all.len() {
            return all[c].clone();
        }
        let small = [V::Null, V::Int("0x1".into()), V::Float("NaN".into()), V::Str("1".into()), V::Bool(true), V::Alias("x".into())];
        let mut sub = |ch: &mut Ch| -> N { value(ch, &small, depth - 1).into() };
        match c - all.len() {
            0 => V::Seq(vec![]),
            1 => V::Map(vec![]),
            2 => V::Seq(vec![sub(ch)]),
            3 => V::Seq(vec![sub(ch), sub(ch)]),
            4 => V::Map(vec![(s("k"), sub(ch)), (s("l"), sub(ch))]),
            _ => V::Map(vec![(sub(ch), sub(ch))]),
        }
    }
    let v = value(ch, &all, depth);
    if !ch.begin(|| format!("the node {} as data", show(&v))) {
        return Ok(());
    }
    ch.state(hash_of(&v));
    ch.tally.validated += 1;
    // aliases and integers beyond 128 bits are refused
    fn ok(v: &V) -> bool {
        match v {
            V::Alias(_) => false,
            V::Int(t) => canon(v).starts_with("i") && !canon(v).starts_with("it") || t.parse::<u128>().is_ok(),
            V::Seq(v) => v.iter().all(|n| ok(&n.v)),
            V::Map(m) => m.iter().all(|(k, v)| ok(&k.v) && ok(&v.v)),
            _ => true,
        }
    }
    let n: NodeRc = build(&N { tag: "t".into(), ..v.clone().into() });
    let a: NodeArc = build(&v.clone().into());
    let c = canon(&v);
    let json = serde_json::to_value(&n);
    let got: Vec<(&str, Result<N, String>)> = vec![
        ("serialized into a node", to_node(&n).map(|n| read(&n)).map_err(e)),
        ("serialized into a multi-threaded node", to_arc_node(&n).map(|n| read(&n)).map_err(e)),
        ("multi-threaded into a node", to_node(&a).map(|n| read(&n)).map_err(e)),
        ("deserialized from a node", NodeRc::deserialize(n.clone()).map(|n| read(&n)).map_err(e)),
        ("deserialized from a multi-threaded node", NodeRc::deserialize(a.clone()).map(|n| read(&n)).map_err(e)),
        ("deserialized into a multi-threaded node", NodeArc::deserialize(n.clone()).map(|n| read(&n)).map_err(e)),
        ("as a field", to_node(&vec![Some(n.clone())]).map(|n| match read(&n).v { V::Seq(mut v) => v.remove(0), _ => s("?") }).map_err(e)),
        ("from its text", to_string(&n).and_then(|t| from_str::<NodeRc>(&t)).map(|v| read(&v[0])).map_err(e)),
    ];
    for (w, g) in got {
        match (&g, ok(&v)) {
            (Ok(g), true) if canon(&g.v) == c => {}
            (Err(_), false) => {}
            _ => return Err(format!("{w}: {g:?}")),
        }
    }
    // another format: JSON has maps with text keys, and no values that are not finite
    let jv = json_of(&v);
    if let Some(w) = jv {
        match json {
            Ok(j) if j == w => {
                let back: NodeRc = serde_json::from_value(j).map_err(|e| e.to_string())?;
                if canon(&read(&back).v) != canon(&from_json(&w)) {
                    return Err(format!("back from JSON: {}", show(&read(&back).v)));
                }
                let back: NodeArc = serde_json::from_str(&w.to_string()).map_err(|e| e.to_string())?;
                if canon(&read(&back).v) != canon(&from_json(&w)) {
                    return Err(format!("back from JSON text: {}", show(&read(&back).v)));
                }
            }
            j => return Err(format!("as JSON: {j:?}, expected {w}")),
        }
    }
    ch.outcome(if ok(&v) { "equal" } else { "refused" });
    Ok(())
}
fn json_of(v: &V) -> Option<serde_json::Value> {
    use serde_json::Value as J;
    Some(match v {
        V::Null => J::Null,
        V::Bool(b) => J::Bool(*b),
        V::Int(t) => {
            let n = whole(t)?;
            i64::try_from(n).map(J::from).ok().or_else(|| u64::try_from(n).map(J::from).ok())?
        }
        V::Float(t) => {
            let f: f64 = t.parse().ok()?;
            if f.is_finite() { J::from(f) } else { J::Null }
        }
        V::Str(t) => J::String(t.clone()),
        V::Seq(v) => J::Array(v.iter().map(|n| json_of(&n.v)).collect::<Option<_>>()?),
        V::Map(m) => J::Object(m.iter().map(|(k, v)| if let V::Str(k) = &k.v { json_of(&v.v).map(|v| (k.clone(), v)) } else { None }).collect::<Option<_>>()?),
        V::Alias(_) => return None,
    })
}
pub fn from_json(j: &serde_json::Value) -> V {
    use serde_json::Value as J;
    match j {
        J::Null => V::Null,
        J::Bool(b) => V::Bool(*b),
        J::Number(n) if n.is_f64() => V::Float(n.as_f64().unwrap().to_string()),
        J::Number(n) => V::Int(n.to_string()),
        J::String(t) => V::Str(t.clone()),
        J::Array(v) => V::Seq(v.iter().map(|j| from_json(j).into()).collect()),
        J::Object(m) => V::Map(m.iter().map(|(k, v)| (s(k), from_json(v).into())).collect()),
    }
}

pub fn c20() -> Prop {
    Prop {
        id: "C20",
        spaces: |t| vec![Space::new("nodes", format!("every node of a universe of scalars and collections {} levels deep, through nine ways of serde", if t { 3 } else { 2 }), move |ch| node_data(ch, if t { 3 } else { 2 })), Space::new("formats", format!("every tree of {} levels of the events of the serde data model, with every width of integers, every kind of text, size hint and doubled keys, into a node, and from it into another format", if t { 3 } else { 2 }), move |ch| super::format::formats(ch, if t { 3 } else { 2 }))],
        oracle: "the canonical form of the node; aliases and integers beyond 128 bits are errors; the value of an independent JSON library",
        assumptions: &["positions and tags are not data"],
    }
}

// ------------------------------------------------------------------ C21
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct Opt {
    x: u8,
}
impl Default for Opt {
    fn default() -> Self {
        Opt { x: 99 }
    }
}
fn opt_of(v: &V) -> Option<Opt> {
    match v {
        V::Map(m) => {
            let mut x = None;
            for (k, v) in m {
                let V::Str(k) = &k.v else { return None };
                if k == "x" {
                    x = Some(int64(&v.v)?.try_into().ok()?);
                }
            }
            Some(Opt { x: x? })
        }
        V::Seq(v) if v.len() == 1 => v.first().and_then(|n| int64(&n.v)).and_then(|n| n.try_into().ok()).map(|x| Opt { x }),
        _ => None,
    }
}
fn wrappers(ch: &mut Ch) -> Result<(), String> {
    let v = match ch.pick(3) {
        0 => target(ch, 1),
        1 => {
            let x = |ch: &mut Ch| ch.of(&[i(1), i(255), i(256), V::Null, V::Str("1".into()), V::Bool(false)]).clone();
            let m = |ch: &mut Ch| match ch.pick(3) {
                0 => map(vec![("x", x(ch))]),
                1 => map(vec![("x", x(ch)), ("y", i(1))]),
                _ => map(vec![("y", i(1))]),
            };
            match ch.pick(3) {
                0 => m(ch),
                1 => seq(vec![m(ch)]),
                _ => seq(vec![m(ch), m(ch)]),
            }
        }
        _ => V::Seq((0..ch.pick(4)).map(|_| ch.of(&[i(0), i(7), V::Str("a".into()), seq(vec![i(1)]), V::Bool(true)]).clone().into()).collect()),
    };
    if !ch.begin(|| format!("the wrapper types from {}", show(&v))) {
        return Ok(());
    }
    ch.state(hash_of(&v));
    ch.tally.validated += 1;
    let n: NodeRc = build(&N::from(v.clone()));
    // options
    let got = Optional::<Opt>::deserialize(n.clone()).map_err(e);
    let want = match &v {
        V::Bool(b) => Some(Optional::Bool(*b)),
        v => opt_of(v).map(Optional::Some),
    };
    if got.as_ref().ok() != want.as_ref() {
        return Err(format!("optional: {got:?}, expected {want:?}"));
    }
    if let Some(o) = &want {
        let x = match o {
            Optional::Bool(false) => None,
            Optional::Bool(true) => Some((99, 55)),
            Optional::Some(t) => Some((t.x, t.x)),
        };
        let dflt = Opt { x: 55 };
        let (mut a, mut b) = (vec![], vec![]);
        o.ok(|t| a.push(t.x));
        o.ok_instead(|t| b.push(t.x), &dflt);
        let mut none = 0;
        let c = o.ok_or(|t| Some(t.x), || None);
        let d = o.ok_or_instead(|t| Some(t.x), &dflt, || { none += 1; None });
        if a != x.iter().map(|x| x.0).collect::<Vec<_>>() || b != x.iter().map(|x| x.1).collect::<Vec<_>>() || c != x.map(|x| x.0) || d != x.map(|x| x.1) || none != x.is_none() as i32 {
            return Err(format!("optional {o:?}: called with {a:?} and {b:?}, gives {c:?} and {d:?}"));
        }
        let back = Optional::<Opt>::deserialize(to_node(o).map_err(e)?).map_err(e)?;
        let t = to_string(o).map_err(e)?;
        if back != *o || from_str::<Optional<Opt>>(&t).map_err(e)? != vec![want.unwrap()] {
            return Err("optional: other value behind serialization".into());
        }
    }
    // lists
    let got = InlineList::<Opt>::deserialize(n.clone()).map_err(e);
    let want = list(&v, opt_of).map(InlineList::List).or_else(|| opt_of(&v).map(InlineList::Inline));
    if got.as_ref().ok() != want.as_ref() {
        return Err(format!("list: {got:?}, expected {want:?}"));
    }
    if let Ok(l) = got {
        items(&l, list(&v, opt_of).unwrap_or_else(|| vec![opt_of(&v).unwrap()]), matches!(l, InlineList::List(_)))?;
        let t = to_string(&l).map_err(e)?;
        let back = InlineList::<Opt>::deserialize(to_node(&l).map_err(e)?).map_err(e)?;
        if back != l || from_str::<InlineList<Opt>>(&t).map_err(e)? != vec![back] {
            return Err("list: other value behind serialization".into());
        }
        let w = list(&v, opt_of).unwrap_or_else(|| vec![opt_of(&v).unwrap()]);
        if l.into_iter().collect::<Vec<_>>() != w {
            return Err("list: other items by value".into());
        }
    }
    let got = InlineList::<i64>::deserialize(n.clone()).map_err(e);
    let want = list(&v, int64).map(InlineList::List).or_else(|| int64(&v).map(InlineList::Inline));
    if got.as_ref().ok() != want.as_ref() {
        return Err(format!("list of integers: {got:?}, expected {want:?}"));
    }
    if let Ok(l) = got {
        let w = list(&v, int64).unwrap_or_else(|| vec![int64(&v).unwrap()]);
        items(&l, w.clone(), matches!(v, V::Seq(_)))?;
        if l.into_iter().collect::<Vec<_>>() != w {
            return Err("list of integers: other items by value".into());
        }
    }
    // texts: a number that fits the type keeps its value
    let got = Stringify::deserialize(n.clone()).map_err(e);
    let want = match &v {
        V::Bool(b) => Some(Stringify::Bool(*b)),
        V::Str(t) => Some(Stringify::Str(t.clone())),
        V::Int(t) if whole(t).map_or(false, |n| i32::try_from(n).is_ok()) => Some(Stringify::Int(whole(t).unwrap() as i32)),
        V::Float(t) => Some(Stringify::Float(t.parse::<f64>().unwrap() as f32)),
        V::Int(_) => return fits(ch),
        _ => None,
    };
    let d = |g: &Option<Stringify>| format!("{g:?}");
    if d(&got.clone_ok()) != d(&want) {
        return Err(format!("text: {got:?}, expected {want:?}"));
    }
    if let Some(w) = want {
        let t = match (&v, &w) {
            (V::Bool(b), _) => b.to_string(),
            (V::Int(t), _) => whole(t).unwrap().to_string(),
            (V::Str(t), _) => t.clone(),
            (_, Stringify::Float(f)) => f.to_string(),
            _ => unreachable!(),
        };
        if w.to_string() != t || got.clone_ok().unwrap().to_string() != t {
            return Err(format!("text: {:?}, expected {t:?}", w.to_string()));
        }
        let back = Stringify::deserialize(to_node(&w).map_err(e)?).map_err(e)?;
        let text = from_str::<Stringify>(&to_string(&w).map_err(e)?).map_err(e)?;
        if back.to_string() != t || text.len() != 1 || text[0].to_string() != t {
            return Err("text: other value behind serialization".into());
        }
    }
    fits(ch)
}
fn fits(ch: &mut Ch) -> Result<(), String> {
    ch.outcome("as expected");
    if InlineList::<u8>::default() != InlineList::List(vec![]) || Optional::<u8>::default() != Optional::Bool(true) || !InlineList::<u8>::default().is_empty() || !Stringify::default().to_string().is_empty() {
        return Err("the defaults are an empty list, an enabled option and an empty text".into());
    }
    Ok(())
}
trait CloneOk {
    fn clone_ok(&self) -> Option<Stringify>;
}
impl CloneOk for Result<Stringify, String> {
    fn clone_ok(&self) -> Option<Stringify> {
        Some(match self.as_ref().ok()? {
            Stringify::Bool(b) => Stringify::Bool(*b),
            Stringify::Int(n) => Stringify::Int(*n),
            Stringify::Float(f) => Stringify::Float(*f),
            Stringify::Str(t) => Stringify::Str(t.clone()),
        })
    }
}
fn items<A: PartialEq + Debug + Clone>(l: &InlineList<A>, want: Vec<A>, listed: bool) -> Result<(), String> {
    let got: Vec<A> = l.iter().cloned().collect();
    if got != want || l.len() != want.len() || l.is_empty() != want.is_empty() || l.is_single() != (want.len() == 1) || matches!(l, InlineList::List(_)) != listed {
        return Err(format!("list: items {got:?}, expected {want:?}; len {} empty {} single {}", l.len(), l.is_empty(), l.is_single()));
    }
    Ok(())
}

pub fn c21() -> Prop {
    Prop {
        id: "C21",
        spaces: |_| vec![Space::new("wrappers", "the three wrapper types from every value of a universe of scalars, sequences and maps, with every method", wrappers)],
        oracle: "the documentation of the types: what enables, disables or defaults an option, the items of a list, the text of a value",
        assumptions: &["numbers beyond the 32 bits of the text wrapper are rounded, as its type says"],
    }
}
#[allow(unused)]
fn _unused(_: &Yaml<RcRepr>) {}
