//! C04: layout does not change the value.
use super::{c27, Prop};
use crate::{doc::*, engine::*, util::*};
use yaml_peg::{parse, repr::RcRepr};

fn run(ch: &mut Ch, cfg: &Cfg) -> Result<(), String> {
    let mut cfg = cfg.clone();
    cfg.nl = ["\n", "\r\n", "\r", "\n\r"][ch.dev(4)];
    let lead = ch.dev(7);
    let (text, want) = {
        let mut w = Writer::new(ch, &cfg);
        let nl = cfg.nl;
        let at = match lead {
            0 => At::Root,
            1 => { w.out.push_str(&format!("{nl}  {nl}")); At::Root }
            2 => { w.out.push_str(&format!("# x: [{nl}")); At::Root }
            3 => { w.out.push_str(&format!("---{nl}")); At::Root }
            4 => { w.out.push_str(&format!("# x{nl}--- # y{nl}# z{nl}")); At::Root }
            5 => { w.out.push_str(&format!("%YAML 1.2{nl}---{nl}{nl}")); At::Root }
            _ => { w.out.push_str("---"); At::Marker }
        };
        let n = w.block(at, 0, cfg.depth);
        match w.ch.dev(5) {
            0 => {}
            1 => w.chop(),
            2 => w.out.push_str(&format!("...{nl}")),
            3 => w.out.push_str("# x"),
            _ => w.out.push_str(&format!("{nl}# x: y{nl}{nl}")),
        }
        (w.out, n)
    };
    load_eq(ch, &text, &[want], VALUE)
}

/// Documents with places for gaps, and their value. `~` is a line end, `^` a blank between tokens,
/// `@` a place for white space in a flow collection, `_` a line end where only blank lines may be
/// added, `>` the indentation of a line: as many columns at each of them.
const GAPS: &[(&str, &str)] = &[
    ("~a~", r#""a""#),
    ("~---^a~...~---^b~", r#"["a","b"]"#),
    ("~k:^v~l:^w~", r#"{"k":"v","l":"w"}"#),
    ("~-^v~-^w~", r#"["v","w"]"#),
    ("~k:~>-^v~>-^w~l:~>m:^x~>n:^y~", r#"{"k":["v","w"],"l":{"m":"x","n":"y"}}"#),
    ("~-~>-^v~>-^w~-~>m:^x~>n:^y~", r#"[["v","w"],{"m":"x","n":"y"}]"#),
    ("~k:~-^v~-^w~l:^x~", r#"{"k":["v","w"],"l":"x"}"#),
    ("~?^k~:^v~?^l~", r#"{"k":"v","l":null}"#),
    ("~k:~l:^~m:^~-~", "!"),
    ("~k:~l:~m:^x~", r#"{"k":null,"l":null,"m":"x"}"#),
    ("~-~-~-^x~", r#"[null,null,"x"]"#),
    ("k:^|_>a_>b_l:^x~", "!"),
    ("k:^\"v\"~l:^'w'~m:^[a]~n:^{a:^b}~o:^x~", r#"{"k":"v","l":"w","m":["a"],"n":{"a":"b"},"o":"x"}"#),
    ("k:^&x^!t^v~l:^!t^&y^v~m:^*x~", r#"{"k":"v","l":"v","m":"v"}"#),
    ("k:^&x~>a:^1~l:^!t~>-^2~", r#"{"k":{"a":1},"l":[2]}"#),
    ("k:^[@a@,@b@,@]~l:^x~", r#"{"k":["a","b"],"l":"x"}"#),
    ("-^{@a:^@b@,@c:^@[@]@}~-^x~", r#"[{"a":"b","c":[]},"x"]"#),
    ("[@[@'a'@,@\"b\"@]@,@{@}@,@&x^@1@,@!t^@2@]~", r#"[["a","b"],{},1,2]"#),
    ("{@'a'@:^@1@,@?^b@:^@2@,@c:^@3@}~", r#"{"a":1,"b":2,"c":3}"#),
    ("k:~>l:~>>m:^a~>>n:^b~>o:^c~p:^d~", r#"{"k":{"l":{"m":"a","n":"b"},"o":"c"},"p":"d"}"#),
    ("-~>-~>>-^a~>>-^b~>-^c~-^d~", r#"[[["a","b"],"c"],"d"]"#),
    ("-^a:^1~  b:^2~-^-^3~  -^4~", r#"[{"a":1,"b":2},[3,4]]"#),
    ("%YAML^1.2~---~a:^1~...~", r#"{"a":1}"#),
    ("%TAG^!e!^tag:e,1:~%TAG^!f!^f:~---^# x~a:^!e!t^1~", r#"{"a":1}"#),
];
fn gaps(ch: &mut Ch, max: usize) -> Result<(), String> {
    let (doc, value) = GAPS[ch.pick(GAPS.len())];
    if value == "!" {
        return Ok(());
    }
    let nl = *ch.of(&["\n", "\r\n", "\r", "\n\r"]);
    let places: Vec<char> = doc.chars().filter(|c| "~^@_>".contains(*c)).collect();
    // the width of the indentation is one place
    let indent = doc.contains('>');
    let n = places.iter().filter(|c| **c != '>').count();
    let wide = ch.pick(n + usize::from(indent));
    let second = ch.pick(n + 1);
    if second < n && (second == wide || wide == n) {
        return Ok(());
    }
    let (mut text, mut at) = (String::new(), 0);
    let width = if wide == n { (1..=max).chain([48, 70, 300]).nth(ch.pick(max + 3)).unwrap() } else { 2 };
    for c in doc.chars() {
        if c == '>' {
            (0..width).for_each(|_| text.push(' '));
            continue;
        }
        if !"~^@_".contains(c) {
            text.push(c);
            continue;
        }
        let num = if at == wide { ch.pick(max + 1) } else if at == second { 1 + ch.pick(2) } else { 0 };
        at += 1;
        let first = text.is_empty();
        let times = |t: &str| t.repeat(num);
        let lines = |t: &str| format!("{t}{nl}").repeat(num);
        if num == 0 {
            text.push_str(match c {
                '^' => " ",
                '@' => "",
                _ if first => "",
                _ => nl,
            });
            continue;
        }
        let new = match c {
            '^' => match ch.pick(3) {
                0 => format!(" {}", times(" ")),
                1 => times("\t"),
                _ => times(" \t"),
            },
            '@' => match ch.pick(8) {
                0 => times(" "),
                1 => times("\t"),
                2 => format!("{}  ", times(nl)),
                3 => format!("{}  ", times(&format!("{nl}  "))),
                4 => format!("{nl}{}  ", lines("  # c")),
                5 => format!("{nl}{}  ", lines("#")),
                6 => format!(" #{}{nl}  ", times(" ]")),
                _ => format!("{}\t  \t", times(&format!("{nl}\t"))),
            },
            _ => {
                let (end, k) = if first { ("", 3 + ch.pick(6)) } else { (nl, ch.pick(9)) };
                if c == '_' && matches!(k, 2 | 5..) {
                    return Ok(());
                }
                match k {
                    0 => format!("{}{nl}", times(" ")),
                    1 => format!("{}{nl}", times("\t")),
                    2 => format!(" #{}{nl}", times(" k: \"")),
                    3 => format!("{end}{}", lines("")),
                    4 => format!("{end}{}", lines("   ")),
                    5 => format!("{end}{}", lines("\t")),
                    6 => format!("{end}{}", lines("# c: [")),
                    7 => format!("{end}{}", lines("      #- c")),
                    _ => format!("{end}{}", lines(&format!("#{nl} {nl}  #"))),
                }
            }
        };
        text.push_str(&new);
    }
    if !ch.begin(|| format!("load {text:?}")) {
        return Ok(());
    }
    ch.state(hash_of(&text));
    ch.tally.validated += 1;
    let got = parse::<RcRepr>(&text).map_err(|e| format!("rejected: {e}"))?;
    let one = if got.len() == 1 { got[0].clone() } else { got.into_iter().collect() };
    let want = c27::Json::read(value).expect("the value is JSON");
    c27::same(&one, &want)?;
    Ok(ch.outcome("equal"))
}

pub fn prop() -> Prop {
    Prop {
        id: "C04",
        spaces: |t| {
            let base = Cfg { layout: true, leaves: &[Leaf::Plain, Leaf::Empty, Leaf::Single, Leaf::Literal, Leaf::Multi], keys: &[Key::Plain, Key::Explicit, Key::Bare], pairs: true, next_line: true, widths: &[2, 1, 3, 5], ..Cfg::default() };
            let n = if t { 150 } else { 24 };
            vec![
                Space::new("gaps", format!("{} documents, at one place of each a run of 0 to {n} of each kind of blank, line end, comment or blank line, or that many columns of indentation, at another at most 2; three line end styles", GAPS.len() - 2), move |ch| gaps(ch, n)),
                space("one", "every single change of layout in larger trees", 1, Cfg { nodes: if t { 8 } else { 6 }, ..base.clone() }, run),
                space("few", "combined changes of layout in small trees", if t { 4 } else { 3 }, Cfg { nodes: if t { 4 } else { 3 }, ..base }, run),
            ]
        },
        oracle: "the tree the writer rendered; comments, blank lines, trailing blanks, line end style, indentation widths, document markers and a missing final line end may not change it",
        assumptions: &["combinations of at most 4 layout changes per document"],
    }
}
