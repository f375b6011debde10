//! C26: the work of loading and dumping grows moderately with the input, at any nesting and length.
use super::Prop;
use crate::engine::*;
use serde::de::{Deserialize, Deserializer, Error, MapAccess, SeqAccess, Visitor};
use yaml_peg::{dumper::dump, parse, parse_cyclic, repr::RcRepr};

/// Any document, through the interface of self-describing formats.
#[allow(dead_code)]
enum Any {
    Leaf(String),
    Seq(Vec<Any>),
    Map(Vec<(Any, Any)>),
}
impl<'de> Deserialize<'de> for Any {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Any, D::Error> {
        struct Vis;
        impl<'de> Visitor<'de> for Vis {
            type Value = Any;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("anything")
            }
            fn visit_unit<E: Error>(self) -> Result<Any, E> {
                Ok(Any::Leaf(String::new()))
            }
            fn visit_bool<E: Error>(self, b: bool) -> Result<Any, E> {
                Ok(Any::Leaf(b.to_string()))
            }
            fn visit_i64<E: Error>(self, n: i64) -> Result<Any, E> {
                Ok(Any::Leaf(n.to_string()))
            }
            fn visit_u64<E: Error>(self, n: u64) -> Result<Any, E> {
                Ok(Any::Leaf(n.to_string()))
            }
            fn visit_i128<E: Error>(self, n: i128) -> Result<Any, E> {
                Ok(Any::Leaf(n.to_string()))
            }
            fn visit_u128<E: Error>(self, n: u128) -> Result<Any, E> {
                Ok(Any::Leaf(n.to_string()))
            }
            fn visit_f64<E: Error>(self, n: f64) -> Result<Any, E> {
                Ok(Any::Leaf(n.to_string()))
            }
            fn visit_str<E: Error>(self, t: &str) -> Result<Any, E> {
                Ok(Any::Leaf(t.into()))
            }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Any, A::Error> {
                let mut v = vec![];
                while let Some(x) = a.next_element()? {
                    v.push(x);
                }
                Ok(Any::Seq(v))
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Any, A::Error> {
                let mut v = vec![];
                while let Some(x) = a.next_entry()? {
                    v.push(x);
                }
                Ok(Any::Map(v))
            }
        }
        d.deserialize_any(Vis)
    }
}

/// Wrappers of a nested document: what is written in front of and behind the inner part.
const WRAP: &[(&str, &str)] = &[
    ("[", "]"),
    ("[ b, ", " ]"),
    ("{a: ", " }"),
    ("{? ", " : b }"),
    ("- ", ""),
    ("? ", ""),
    ("&@ ", ""),
    ("!t ", ""),
    ("[ # c\n ", "]"),
    ("{\"q\": ", "}"),
    ("[\n", "\n]"),
    ("'", "'"),
    ("- b\n- ", ""),
    ("- |\n  ", "\n"),
    ("? a\n: ", ""),
    ("{", "}"),
    ("a: ", ""),
    ("--- ", "\n...\n"),
    ("\"x\\", "\""),
    ("*", ""),
];
const CORE: &[&str] = &["a", "", "1", "\"", "'q'", "]", ": ", "|", "b: c", "- x"];

/// A chain of wrappers, repeated.
fn nest(words: &[usize], core: &str, n: usize) -> String {
    let (mut head, mut tail) = (String::new(), String::new());
    for i in 0..n {
        let (h, t) = WRAP[words[i % words.len()]];
        head.push_str(&h.replace('@', &format!("n{i}")));
        tail.insert_str(0, t);
    }
    head + core + &tail
}
/// A block structure of some depth: each level is one of the forms.
fn block(words: &[usize], n: usize) -> String {
    let mut s = String::new();
    for i in 0..n {
        let pad = "  ".repeat(i);
        s.push_str(&match words[i % words.len()] {
            0 => format!("{pad}a:\n"),
            1 => format!("{pad}-\n"),
            2 => format!("{pad}? b\n{pad}:\n"),
            3 => format!("{pad}b: 1\n{pad}c: # x\n"),
            4 => format!("{pad}- [b, {{c: d}}]\n\n{pad}- &n{i} !t\n"),
            5 => format!("{pad}? - b\n{pad}  - c\n{pad}: d\n{pad}e:\n"),
            6 => format!("{pad}? &n{i}\n"),
            _ => format!("{pad}?\n"),
        });
    }
    s + &"  ".repeat(n) + "z\n"
}
const BLOCKS: usize = 8;

/// Flat documents: a head, `n` parts, a tail.
const FLAT: &[(&str, &str, &str)] = &[
    ("", "- a\n", ""),
    ("", "- 'b' # x\n\n", ""),
    ("", "k@: v\n", ""),
    ("", "? k@\n: v\n", ""),
    ("[", "a, ", "]"),
    ("[", "[a, b], ", "]"),
    ("{", "k@: v, ", "}"),
    ("{", "? [k@] : v, ", "}"),
    ("", "# x\n", "a"),
    ("", "\n", "a"),
    ("a", "\n", ""),
    ("a: b", "\n# x", "\n"),
    ("", "a ", ""),
    ("", "a\n", ""),
    ("", "a: ", ""),
    ("", "a:b", ""),
    ("", "a #b", ""),
    ("\"", "a\\n", "\""),
    ("\"", "\\\\", "\""),
    ("\"", "\\\"", "\""),
    ("\"", "a\n\n", "\""),
    ("\"", "a", ""),
    ("'", "''", "'"),
    ("'", "''", ""),
    ("'", "a\n", "'"),
    ("|\n", " a\n", ""),
    ("|\n", "\n", ""),
    ("|\n", "\n", " a"),
    ("|+\n", "  \n", " a"),
    (">\n", " a\n", ""),
    (">\n", " a\n\n", ""),
    (">-\n", "\n", ""),
    ("", "---\na\n", ""),
    ("", "---\n", ""),
    ("", "--- |\n a\n", ""),
    ("", "a\n...\n---\n", "b"),
    ("", "%TAG !t@! x\n", "---\na"),
    ("", "%X y\n", "---\na"),
    ("", "- &n@ a\n", ""),
    ("- &n a\n", "- *n\n", ""),
    ("", "- !t a\n", ""),
    ("", "1", ""),
    ("", "1.", ""),
    ("0x", "f", ""),
    ("[", "1", "]"),
    ("{", "1", ": 2}"),
    ("- ", "a\n    ", ""),
    ("a:", " ", "b"),
    ("a:", "\n", "  b"),
    ("[", "\n", "]"),
    ("[", "# x\n", "]"),
    ("[", " # x\n", "a]"),
    ("", "&a ", "a"),
    ("", "!t ", "a"),
    ("", "- ", ""),
    ("", "? ", ""),
    ("", "[", ""),
    ("", "{", ""),
    ("", "]", ""),
    ("", "é", ""),
    ("- ", "é😀 ", ""),
    ("", "-", ""),
    ("", ":", ""),
    ("", "\t", "a"),
    ("a", "\t", ""),
    ("", "\r\n", "a"),
    ("\"", "\\u00e9", "\""),
    ("\"", "\\ud83d", "\""),
];
fn flat(i: usize, n: usize) -> String {
    let (h, m, t) = FLAT[i];
    let mut s = h.to_string();
    for k in 0..n {
        s.push_str(&m.replace('@', &k.to_string()));
    }
    s + t
}
/// Every level uses the one in front of it twice.
fn doubled(i: usize, n: usize) -> String {
    let mut s = String::from("- &n0 a\n");
    for k in 1..n {
        let (p, q) = (format!("*n{}", k - 1), format!("*n{}", k - 1));
        s.push_str(&match i {
            0 => format!("- &n{k} [{p} , {q} ]\n"),
            1 => format!("- &n{k} {{a: {p} , b: {q} }}\n"),
            2 => format!("- &n{k}\n  - {p}\n  - {q}\n"),
            _ => format!("- &n{k}\n  a: {p}\n  b: {q}\n"),
        });
    }
    s
}

fn cpu() -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
}
/// Allocator calls, bytes and CPU time of the work on a text; the last item is whether it was accepted.
fn work(text: &str, all: bool) -> (u64, u64, f64, bool) {
    let (a, b, t) = (allocs(), bytes(), cpu());
    let got = parse::<RcRepr>(text);
    let ok = got.is_ok();
    if all {
        let _ = yaml_peg::serde::from_str::<Any>(text);
        if let Ok(v) = &got {
            let _ = yaml_peg::serde::to_string(v);
        }
        drop(got);
        if let Ok((v, a)) = parse_cyclic::<RcRepr>(text) {
            let _ = dump(&v, &a);
        }
    }
    (allocs() - a, bytes() - b, cpu() - t, ok)
}
/// Twice the text: at most twice the allocations, with a margin. The bytes are also at most doubled if
/// the text is flat; the dump of a nested text is indented, so its length is quadratic by nature and
/// it is copied on each level. A second for a text of a few kilobytes is far from what the loader
/// takes, and far below anything exponential.
fn compare(ch: &mut Ch, one: String, two: String, all: bool, flat: bool) -> Result<(), String> {
    if !ch.begin(|| format!("work for {one:?} and its double {two:?}")) {
        return Ok(());
    }
    ch.state(hash_of(&two));
    ch.tally.validated += 2;
    let (a, x, t, ok) = work(&one, all);
    let (b, y, u, ok2) = work(&two, all);
    if b > 3 * a + 300 {
        return Err(format!("{b} allocations instead of {a}"));
    }
    if y > if flat { 3 * x + 30_000 } else { 9 * x + 30_000 } {
        return Err(format!("{y} bytes allocated instead of {x}"));
    }
    if t > 1.0 || u > 2.0 {
        return Err(format!("{t:.1} and {u:.1} seconds"));
    }
    ch.outcome(match (ok, ok2) {
        (true, true) => "accepted",
        (false, false) => "rejected",
        _ => "accepted or rejected by size",
    });
    Ok(())
}

fn nested(ch: &mut Ch, len: usize) -> Result<(), String> {
    let k = 1 + ch.pick(len);
    let w: Vec<usize> = (0..k).map(|_| ch.pick(WRAP.len())).collect();
    let core = *ch.of(CORE);
    compare(ch, nest(&w, core, 24), nest(&w, core, 48), true, false)
}
fn blocks(ch: &mut Ch, len: usize) -> Result<(), String> {
    let k = 1 + ch.pick(len);
    let w: Vec<usize> = (0..k).map(|_| ch.pick(BLOCKS)).collect();
    compare(ch, block(&w, 16), block(&w, 32), true, false)
}
fn long(ch: &mut Ch, n: usize) -> Result<(), String> {
    let i = ch.pick(FLAT.len());
    let n = n << ch.pick(6);
    compare(ch, flat(i, n), flat(i, 2 * n), true, !matches!(FLAT[i].1, "- " | "? " | "[" | "{"))
}
/// A text of some hundred kilobytes is loaded in a fraction of a second; quadratic work takes minutes.
fn huge(ch: &mut Ch, n: usize) -> Result<(), String> {
    let i = ch.pick(FLAT.len());
    if !ch.begin(|| format!("load {n} times {:?}", FLAT[i])) {
        return Ok(());
    }
    let text = flat(i, n);
    ch.state(hash_of(&text));
    ch.tally.validated += 1;
    let (_, _, t, ok) = work(&text, false);
    if t > 4.0 {
        return Err(format!("{t:.1} seconds"));
    }
    ch.outcome(if ok { "accepted" } else { "rejected" });
    Ok(())
}
fn shared(ch: &mut Ch) -> Result<(), String> {
    let i = ch.pick(4);
    let n = 8 << ch.pick(4);
    compare(ch, doubled(i, n), doubled(i, 2 * n), false, true)
}

/// Deep structures are loaded or reported, on the stack of a usual thread.
fn deep(ch: &mut Ch) -> Result<(), String> {
    let n = *ch.of(&[1usize, 10, 50, 60, 64, 100, 127, 128, 129, 200, 255, 256, 257, 300, 500, 1000, 5000, 20000]);
    let form = ch.pick(2);
    let k = 1 + ch.pick(2);
    let words: Vec<usize> = (0..k).map(|_| ch.pick(if form == 0 { WRAP.len() } else { BLOCKS })).collect();
    if form == 1 && n > 1000 {
        ch.skip = true;
    }
    let core = *ch.of(if form == 0 { &["a", "\""] } else { &["a"] });
    if !ch.begin(|| match form {
        0 => format!("{n} nested wrappers {:?} around {core:?}", words.iter().map(|w| WRAP[*w]).collect::<Vec<_>>()),
        _ => format!("{n} nested block structures {words:?}"),
    }) {
        return Ok(());
    }
    let text = if form == 0 { nest(&words, core, n) } else { block(&words, n) };
    ch.state(hash_of(&text));
    ch.tally.validated += 1;
    let r = std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || {
            let r = guard(|| {
                let a = parse::<RcRepr>(&text).map(|v| v.len()).map_err(|e| e.to_string());
                let _ = yaml_peg::serde::from_str::<Any>(&text);
                if let Ok(v) = parse::<RcRepr>(&text) {
                    let _ = yaml_peg::serde::to_string(&v);
                }
                let b = parse_cyclic::<RcRepr>(&text).map(|v| dump(&v.0, &v.1).len()).map_err(|e| e.to_string());
                (a, b.is_ok())
            });
            // (the text is dropped here)
            r
        })
        .unwrap()
        .join()
        .unwrap()?;
    // simple nesting is supported up to a usual depth
    let simple = core == "a" && n <= 60 && if form == 0 { words.iter().all(|w| matches!(w, 0..=4 | 8 | 9 | 10)) && !words.iter().any(|w| *w == 4 && words.iter().any(|v| *v != 4)) && !words.contains(&3) } else { words.iter().all(|w| *w <= 4) };
    if let (true, Err(e)) = (simple, &r.0) {
        return Err(format!("rejected: {e}"));
    }
    ch.outcome(if r.0.is_ok() { "loaded" } else { "reported" });
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C26",
        spaces: |t| {
            let len = if t { 5 } else { 4 };
            let blen = if t { 7 } else { 5 };
            let hn = if t { 200_000 } else { 100_000 };
            vec![
                Space::new("nested", format!("chains of 24 and 48 wrappers: every period of at most {len} out of {} wrappers, around {} cores", WRAP.len(), CORE.len()), move |ch| nested(ch, len)),
                Space::new("blocks", format!("block structures 16 and 32 levels deep: every period of at most {blen} out of {BLOCKS} forms"), move |ch| blocks(ch, blen)),
                Space::new("long", format!("{} repeated parts, 64 to 4096 times", FLAT.len()), |ch| long(ch, 64)),
                Space::new("huge", format!("{} repeated parts, {hn} times", FLAT.len()), move |ch| huge(ch, hn)),
                Space::new("shared", "aliases that use each earlier level twice, 8 to 128 levels", shared),
                Space::new("deep", "every pair of wrappers or block forms nested 1 to 20000 times, on a stack of 2 MiB", deep),
            ]
        },
        oracle: "twice the input takes at most three times the allocations (and bytes, if it is not nested) and a bounded time, for accepted and rejected texts; every depth ends in documents or an error",
        assumptions: &["allocator calls and bytes stand for work; scanning without allocation is bounded by the time limit of long texts"],
    }
}
