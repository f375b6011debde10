//! Small shared helpers.
use crate::{doc::*, engine::*};
use yaml_peg::{parse, repr::RcRepr};

/// A space that renders documents with the writer.
pub fn space(
    name: &str,
    what: &str,
    devs: usize,
    cfg: Cfg,
    run: fn(&mut Ch, &Cfg) -> Result<(), String>,
) -> Space {
    let what = format!("{what}; at most {} nodes, {} nested containers, {devs} deviations", cfg.nodes, cfg.depth);
    Space::new(name, what, move |ch| run(ch, &cfg)).devs(devs)
}

/// Load the text and compare with the expected documents.
pub fn load_eq(ch: &mut Ch, text: &str, want: &[N], see: See) -> Result<(), String> {
    if !ch.begin(|| format!("load {text:?}")) {
        return Ok(());
    }
    ch.state(hash_of(text));
    ch.tally.validated += 1;
    let got = parse::<RcRepr>(text).map_err(|e| format!("rejected: {e}"))?;
    same_docs(&got, want, see)?;
    ch.outcome("equal");
    Ok(())
}
