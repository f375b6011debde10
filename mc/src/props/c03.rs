//! C03: every supported notation of a tree loads to exactly that tree.
use super::{big, Prop};
use crate::{doc::*, engine::*, util::*};

fn run(ch: &mut Ch, cfg: &Cfg) -> Result<(), String> {
    let (text, want) = {
        let mut w = Writer::new(ch, cfg);
        let n = w.block(At::Root, 0, cfg.depth);
        (w.out, n)
    };
    load_eq(ch, &text, &[want], VALUE)
}

pub fn prop() -> Prop {
    Prop {
        id: "C03",
        spaces: |t| {
            vec![
                space("shapes", "block and flow trees, one notation per leaf and key", 0, Cfg { nodes: if t { 10 } else { 8 }, ..Cfg::default() }, run),
                space("leaves", "trees with notations of leaves and keys as deviations", if t { 4 } else { 3 },
                    Cfg { nodes: if t { 6 } else { 5 }, leaves: LEAVES, flow_leaves: FLOW_LEAVES, keys: KEYS, flow_keys: FLOW_KEYS, widths: &[2, 1, 3, 4], pairs: true, next_line: true, ..Cfg::default() }, run),
                Space::new("deep", format!("block and flow collections of every depth up to {}, in every period of at most {} of nine notations, in five streams", if t { 100 } else { 60 }, if t { 3 } else { 2 }), move |ch| { let b = if t { big::deep(ch, 3, 100) } else { big::deep(ch, 2, 60) }; let b = big::stream(ch, b); big::load(ch, &b, VALUE) }),
                Space::new("wide", "collections of every size up to 300, in nine notations and three places, in five streams", |ch| { let b = big::wide(ch, 300); let b = big::stream(ch, b); big::load(ch, &b, VALUE) }),
            ]
        },
        oracle: "the tree the writer rendered, compared type by type, text by text and in order",
        assumptions: &[],
    }
}
