//! C01: loading any input terminates with documents or an error.
use super::Prop;
use crate::engine::*;
use yaml_peg::{parser::Loader, repr::RcRepr, Node, Yaml};

fn size(n: &Node<RcRepr>) -> usize {
    1 + match n.yaml() {
        Yaml::Seq(v) => v.iter().map(size).sum::<usize>(),
        Yaml::Map(m) => m.iter().map(|(k, v)| size(k) + size(v)).sum(),
        _ => 0,
    }
}

fn run(ch: &mut Ch, s: &[u8]) -> Result<(), String> {
    if !ch.begin(|| format!("load \"{}\" in both modes", s.escape_ascii())) {
        return Ok(());
    }
    ch.state(hash_of(s));
    ch.tally.validated += 2;
    let mut l = Loader::<RcRepr>::new(s);
    let r = l.parse();
    let mut l2 = Loader::<RcRepr>::new(s).cyclic_mode(true);
    let r2 = l2.parse();
    for (r, l) in [(&r, l), (&r2, l2)] {
        match r {
            Ok(v) => {
                if v.is_empty() {
                    return Err("no document and no error".into());
                }
                let tables = l.get_anchors();
                if tables.len() != v.len() {
                    return Err(format!("{} documents with {} anchor tables", v.len(), tables.len()));
                }
                // the result can be walked and is not larger than the input allows
                let n: usize = v.iter().map(size).sum();
                if n > (s.len() + 1) * (s.len() + 1) * 4 + 8 {
                    return Err(format!("{n} nodes from {} bytes", s.len()));
                }
            }
            Err(e) => {
                if e.to_string().trim().is_empty() {
                    return Err("error without a message".into());
                }
            }
        }
    }
    ch.outcome(match (&r, &r2) {
        (Ok(_), Ok(_)) => "both modes accept",
        (Err(_), Ok(_)) => "cyclic mode accepts",
        (Err(_), Err(_)) => "both modes reject",
        (Ok(_), Err(e)) => return Err(format!("only the cyclic mode rejects it: {e}")),
    });
    Ok(())
}

fn seqs(name: &str, toks: &'static [&'static [u8]], max: usize) -> Space {
    let show: Vec<String> = toks.iter().map(|t| t.escape_ascii().to_string()).collect();
    Space::new(name, format!("all sequences of at most {max} of {show:?}"), move |ch| {
        let mut s = vec![];
        for _ in 0..max {
            let c = ch.pick(toks.len() + 1);
            if c == 0 {
                break;
            }
            s.extend_from_slice(toks[c - 1]);
        }
        run(ch, &s)
    })
}

const BYTES: &[&[u8]] = &[
    b"a", b" ", b"\n", b":", b"-", b"[", b"]", b"{", b"}", b",", b"?", b"&", b"*", b"!", b"|", b">", b"'", b"\"", b"%", b"#", b".", b"0", b"\\", b"\t", b"\r", b"\xc3\xa9",
];
const TOKS: &[&[u8]] = &[
    b"a", b" ", b"\n", b": ", b"- ", b"[", b"]", b"{", b"}", b",", b"? ", b"&a ", b"*a", b"!", b"|", b">", b"'", b"\"", b"#", b"  ", b"---", b"...", b"\n  ", b"0", b"!!", b"<", b"\n- ", b":\n",
];
/// not UTF-8, or control characters
const RAW: &[&[u8]] = &[b"a", b"\x00", b"\x80", b"\xff", b"\xc3", b"\xe2\x82", b"\x0b", b"\x0c", b"\x1b", b"\n", b" ", b": ", b"'", b"\"", b"[", b"]", b"- ", b"|\n", b"&", b"!", b"\xef\xbb\xbf"];

/// Documents with a hole that is filled with every short string.
const HOLES: &[(&str, &str)] = &[
    ("k: |\n  ", "\nl: b\n"),
    ("k: >", "\n  a\n"),
    ("- ", "\n- b\n"),
    ("- a\n", "- b\n"),
    ("{a: ", "}"),
    ("{", ": b}"),
    ("[a, ", ", b]"),
    ("k:\n  l: ", "\n  m: 2\n"),
    ("k:\n", "l: b\n"),
    ("k", "l: b\n"),
    ("\"", "\""),
    ("'", "'"),
    ("\"\\", "\""),
    ("%TAG ", "\n---\na\n"),
    ("%YAML ", "\n---\na\n"),
    ("%", "\n---\na\n"),
    ("a\n---", "\n...\n---\nb\n"),
    ("a\n...", "---\nb\n"),
    ("? ", "\n: b\n"),
    ("? a\n", "b\n"),
    ("&", " a\n"),
    ("- &x a\n- *", "\n"),
    ("!", " a\n"),
    ("!!", " a\n"),
    ("!<", "> a\n"),
    ("0", ": 1\n"),
    ("- - - ", "\n"),
    ("  - a\n", "  - b\n"),
];
fn holes(max: usize) -> Space {
    Space::new("holes", format!("{} documents with a hole, filled with all sequences of at most {max} of the bytes", HOLES.len()), move |ch| {
        let (a, b) = *ch.of(HOLES);
        let mut s = a.as_bytes().to_vec();
        for _ in 0..max {
            let c = ch.pick(BYTES.len() + 1);
            if c == 0 {
                break;
            }
            s.extend_from_slice(BYTES[c - 1]);
        }
        s.extend_from_slice(b.as_bytes());
        run(ch, &s)
    })
}

/// Feature-complete documents that are damaged.
const SEEDS: &[&str] = &[
    "%YAML 1.2\n%TAG !e! tag:e,1:\n--- !e!m &r\nname: \"a\\tb\"\nlist:\n- 1\n- -2.5e3\n- - ~\n  - 'it''s'\nmap: {a: [1, 2], ? b : c}\n...\n---\n&x k: *x\n",
    "# c\n? - a\n  - b\n: |+\n  lit\n   eral\n\nfold: >-\n    a\n    b\n\n    c\nplain: a b\n  c # d\nend: !!str\n",
    "- &a {x: 1}\n- *a\n- !<t:x> [a, 'b', \"c\n  d\"]\n-\n  k:\n    - |\n      t\n  l: 0x1F\n- \"\\u00e9\\x41\\\n  z\"\n",
];
fn damage(ch: &mut Ch, times: usize) -> Result<(), String> {
    let mut s = ch.of(SEEDS).as_bytes().to_vec();
    for _ in 0..times {
        match ch.pick(5) {
            0 => {}
            1 => {
                // truncated
                let n = at(ch, s.len() + 1);
                s.truncate(n);
            }
            2 => {
                let i = at(ch, s.len());
                if i < s.len() {
                    s.remove(i);
                }
            }
            3 => {
                let i = at(ch, s.len() + 1);
                let t = *ch.of(BYTES);
                s.splice(i..i, t.iter().copied());
            }
            _ => {
                let i = at(ch, s.len());
                let t = *ch.of(RAW);
                if i < s.len() {
                    s.splice(i..i + 1, t.iter().copied());
                }
            }
        }
    }
    run(ch, &s)
}
/// A position below `n`, which can be larger than one choice allows.
fn at(ch: &mut Ch, n: usize) -> usize {
    let n = n.max(1);
    if n <= 200 {
        return ch.pick(n);
    }
    let hi = ch.pick((n + 15) / 16);
    (hi * 16 + ch.pick(16)).min(n - 1)
}

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        spaces: |t| {
            let n = if t { 2 } else { 1 };
            vec![
                seqs("bytes", BYTES, if t { 6 } else { 5 }),
                seqs("tokens", TOKS, if t { 6 } else { 4 }),
                seqs("raw", RAW, if t { 5 } else { 4 }),
                holes(if t { 4 } else { 3 }),
                Space::new("damage", format!("{} feature-complete documents with at most {n} truncations, deletions, insertions or replacements of one byte", SEEDS.len()), move |ch| damage(ch, n)),
            ]
        },
        oracle: "the loader returns within the time and memory limits, without a panic; there is at least one document or an error with a message, one anchor table per document, and the cyclic mode accepts whatever the direct mode accepts",
        assumptions: &["5 s of CPU time and 512 MiB of live memory per input stand for termination", "nesting stays far below the 8 MiB stack"],
    }
}
