//! The reference model of documents: an abstract tree, a nondeterministic writer that renders it
//! in every supported notation while recording what a reader must see (value, tag, anchor and
//! position of every node), and the structural comparison with the nodes of the implementation.
//! Nothing here uses the implementation's own parser, dumper, equality or hashing.
use crate::engine::Ch;
use yaml_peg::{parser::Anchors, repr::Repr, Node, Yaml};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum V {
    Null,
    Bool(bool),
    Int(String),
    Float(String),
    Str(String),
    Seq(Vec<N>),
    Map(Vec<(N, N)>),
    Alias(String),
}
/// Expected node. `tag` empty: the default tag of its type. The position must lie in `lo..=hi`.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct N {
    pub v: V,
    pub tag: String,
    pub anchor: Option<String>,
    pub lo: usize,
    pub hi: usize,
}
impl From<V> for N {
    fn from(v: V) -> N {
        N { v, tag: String::new(), anchor: None, lo: 0, hi: usize::MAX }
    }
}
pub fn s(t: &str) -> N {
    V::Str(t.into()).into()
}

pub const CORE: &str = "tag:yaml.org,2002:";
pub fn default_tag(v: &V) -> String {
    let k = match v {
        V::Null => "null",
        V::Bool(_) => "bool",
        V::Int(_) => "int",
        V::Float(_) => "float",
        V::Str(_) => "str",
        V::Seq(_) => "seq",
        V::Map(_) => "map",
        V::Alias(_) => return String::new(),
    };
    format!("{CORE}{k}")
}

/// What is compared.
#[derive(Clone, Copy)]
pub struct See {
    pub tag: bool,
    pub pos: bool,
}
pub const VALUE: See = See { tag: false, pos: false };
pub const TAGS: See = See { tag: true, pos: false };
pub const ALL: See = See { tag: true, pos: true };

pub fn same<R: Repr>(n: &Node<R>, e: &N, see: See) -> Result<(), String> {
    fn go<R: Repr>(n: &Node<R>, e: &N, see: See, path: &mut Vec<String>) -> Result<(), String> {
        let bad = |w: String| Err(w);
        match (n.yaml(), &e.v) {
            (Yaml::Null, V::Null) => {}
            (Yaml::Bool(a), V::Bool(b)) if a == b => {}
            (Yaml::Int(a), V::Int(b)) if a == b => {}
            (Yaml::Float(a), V::Float(b)) if a == b => {}
            (Yaml::Str(a), V::Str(b)) if a == b => {}
            (Yaml::Alias(a), V::Alias(b)) if a == b => {}
            (Yaml::Seq(a), V::Seq(b)) => {
                if a.len() != b.len() {
                    return bad(format!("sequence of {} items, expected {}", a.len(), b.len()));
                }
                for (i, (x, y)) in a.iter().zip(b).enumerate() {
                    path.push(format!("[{i}]"));
                    go(x, y, see, path)?;
                    path.pop();
                }
            }
            (Yaml::Map(a), V::Map(b)) => {
                if a.len() != b.len() {
                    return bad(format!("map of {} pairs, expected {}", a.len(), b.len()));
                }
                for (i, ((k, v), (ek, ev))) in a.iter().zip(b).enumerate() {
                    path.push(format!("{{key {i}}}"));
                    go(k, ek, see, path)?;
                    path.pop();
                    path.push(format!("{{value {i}}}"));
                    go(v, ev, see, path)?;
                    path.pop();
                }
            }
            (a, b) => {
                let mut g = format!("{a:?}");
                g.truncate(400);
                return bad(format!("got {g}, expected {}", show(b)));
            }
        }
        if see.tag {
            let want = if e.tag.is_empty() { default_tag(&e.v) } else { e.tag.clone() };
            if n.tag() != want {
                return bad(format!("tag {:?}, expected {want:?}", n.tag()));
            }
        }
        if see.pos && !(e.lo as u64 <= n.pos() && n.pos() <= e.hi as u64) {
            return bad(format!("position {} of {}, expected {}..={}", n.pos(), show(&e.v), e.lo, e.hi));
        }
        Ok(())
    }
    let mut path = vec![];
    go(n, e, see, &mut path).map_err(|m| format!("at ${}: {m}", path.concat()))
}

pub fn same_docs<R: Repr>(ns: &[Node<R>], es: &[N], see: See) -> Result<(), String> {
    if ns.len() != es.len() {
        return Err(format!("{} documents, expected {}", ns.len(), es.len()));
    }
    for (i, (n, e)) in ns.iter().zip(es).enumerate() {
        same(n, e, see).map_err(|m| format!("document {i} {m}"))?;
    }
    Ok(())
}

/// Readable form of an expected value (not YAML).
pub fn show(v: &V) -> String {
    match v {
        V::Null => "null".into(),
        V::Bool(b) => b.to_string(),
        V::Int(t) => format!("int {t}"),
        V::Float(t) => format!("float {t}"),
        V::Str(t) => format!("{t:?}"),
        V::Alias(a) => format!("*{a}"),
        V::Seq(v) => format!("[{}]", v.iter().map(|n| show(&n.v)).collect::<Vec<_>>().join(", ")),
        V::Map(m) => format!(
            "{{{}}}",
            m.iter().map(|(k, v)| format!("{}: {}", show(&k.v), show(&v.v))).collect::<Vec<_>>().join(", ")
        ),
    }
}

/// Build the node through the construction interface, positions and anchors ignored.
pub fn build<R: Repr>(e: &N) -> Node<R> {
    let y: Yaml<R> = match &e.v {
        V::Null => Yaml::Null,
        V::Bool(b) => Yaml::Bool(*b),
        V::Int(t) => Yaml::Int(t.clone()),
        V::Float(t) => Yaml::Float(t.clone()),
        V::Str(t) => Yaml::Str(t.clone()),
        V::Alias(a) => Yaml::Alias(a.clone()),
        V::Seq(v) => Yaml::Seq(v.iter().map(build).collect()),
        V::Map(m) => Yaml::Map(m.iter().map(|(k, v)| (build(k), build(v))).collect()),
    };
    Node::new(y, 0, &e.tag)
}

/// Read the whole node back into the model (for comparisons between two implementations runs).
pub fn read<R: Repr>(n: &Node<R>) -> N {
    let v = match n.yaml() {
        Yaml::Null => V::Null,
        Yaml::Bool(b) => V::Bool(*b),
        Yaml::Int(t) => V::Int(t.clone()),
        Yaml::Float(t) => V::Float(t.clone()),
        Yaml::Str(t) => V::Str(t.clone()),
        Yaml::Alias(a) => V::Alias(a.clone()),
        Yaml::Seq(v) => V::Seq(v.iter().map(read).collect()),
        Yaml::Map(m) => V::Map(m.iter().map(|(k, v)| (read(k), read(v))).collect()),
    };
    N { v, tag: n.tag().to_string(), anchor: None, lo: n.pos() as usize, hi: n.pos() as usize }
}
/// Forget positions (and tags).
pub fn plain(mut n: N, tags: bool) -> N {
    n.lo = 0;
    n.hi = 0;
    n.anchor = None;
    if !tags {
        n.tag = String::new();
    }
    n.v = match n.v {
        V::Seq(v) => V::Seq(v.into_iter().map(|n| plain(n, tags)).collect()),
        V::Map(m) => V::Map(m.into_iter().map(|(k, v)| (plain(k, tags), plain(v, tags))).collect()),
        v => v,
    };
    n
}

/// Anchor table of one document against the expectation.
pub fn same_anchors<R: Repr>(got: &Anchors<R>, want: &[(String, N)], see: See) -> Result<(), String> {
    let mut names: Vec<_> = want.iter().map(|a| a.0.clone()).collect();
    names.sort();
    let g: Vec<_> = got.keys().cloned().collect();
    if g != names {
        return Err(format!("anchors {g:?}, expected {names:?}"));
    }
    for (k, e) in want {
        same(&got[k], e, see).map_err(|m| format!("anchor {k} {m}"))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- writer
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Leaf {
    Plain,
    Single,
    Double,
    Literal,
    Folded,
    Empty,
    Tilde,
    Int,
    /// a plain scalar continued on the next line
    Multi,
    /// a single quoted scalar continued on the next line
    SingleMulti,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Key {
    Plain,
    Single,
    Double,
    /// `? key` and `: value` on lines of their own
    Explicit,
    Flow,
    /// `?` and a block collection
    BlockSeq,
    BlockMap,
    Int,
    Empty,
    /// `? key` without a value
    Bare,
}

#[derive(Clone)]
pub struct Cfg {
    /// nodes of one document, keys not counted
    pub nodes: usize,
    pub depth: usize,
    pub block: bool,
    pub flow: bool,
    /// the first is the default, the others are deviations
    pub leaves: &'static [Leaf],
    pub flow_leaves: &'static [Leaf],
    pub keys: &'static [Key],
    pub flow_keys: &'static [Key],
    /// indent widths: the first is the default, the others are deviations
    pub widths: &'static [usize],
    /// comments, blank lines, trailing spaces and separators wider than needed as deviations
    pub layout: bool,
    /// anchors, aliases and tags as deviations
    pub anchors: bool,
    pub aliases: bool,
    pub cyclic: bool,
    pub tags: &'static [(&'static str, &'static str)],
    pub nl: &'static str,
    /// a block collection in a sequence item starts on the same line
    pub compact: bool,
    /// single pairs as items of flow sequences, as deviations
    pub pairs: bool,
    /// scalars and flow collections on the line behind their indicator, as deviations
    pub next_line: bool,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            nodes: 4,
            depth: 3,
            block: true,
            flow: true,
            leaves: &[Leaf::Plain],
            flow_leaves: &[Leaf::Plain],
            keys: &[Key::Plain],
            flow_keys: &[Key::Plain],
            widths: &[2],
            layout: false,
            anchors: false,
            aliases: false,
            cyclic: false,
            tags: &[],
            nl: "\n",
            compact: true,
            pairs: false,
            next_line: false,
        }
    }
}
pub const LEAVES: &[Leaf] = &[
    Leaf::Plain,
    Leaf::Empty,
    Leaf::Single,
    Leaf::Double,
    Leaf::Literal,
    Leaf::Folded,
    Leaf::Tilde,
    Leaf::Int,
    Leaf::Multi,
    Leaf::SingleMulti,
];
pub const FLOW_LEAVES: &[Leaf] = &[Leaf::Plain, Leaf::Single, Leaf::Double, Leaf::Tilde, Leaf::Int];
pub const KEYS: &[Key] = &[
    Key::Plain,
    Key::Single,
    Key::Double,
    Key::Explicit,
    Key::Flow,
    Key::BlockSeq,
    Key::BlockMap,
    Key::Int,
    Key::Bare,
];
pub const FLOW_KEYS: &[Key] = &[Key::Plain, Key::Single, Key::Double, Key::Explicit, Key::Int];

/// The notation a node follows.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum At {
    /// start of a line at the document root
    Root,
    /// behind `---`
    Marker,
    Dash,
    Colon,
    /// behind the `:` of an explicit key, or the `?` of it
    Explicit,
}

pub struct Writer<'w, 'a> {
    pub ch: &'w mut Ch<'a>,
    pub cfg: &'w Cfg,
    pub out: String,
    left: usize,
    leafs: usize,
    keys: usize,
    pub anchors: Vec<(String, N)>,
    /// anchors of nodes that are still open, or later: usable by aliases in the cyclic mode only
    pub open: Vec<String>,
    pub used_alias: bool,
    /// the last thing written ended with the indentation of a block scalar: layout would be text
    raw: bool,
    /// the key that was written last has no value
    bare: bool,
}

const NAMES: &[&str] = &["a", "b", "c", "d", "e", "f", "g", "h"];
const KEYN: &[&str] = &["k", "l", "m", "n", "o", "p", "q", "r"];
const ANCH: &[&str] = &["x", "y", "z", "w", "u2", "v-3"];

impl<'w, 'a> Writer<'w, 'a> {
    pub fn new(ch: &'w mut Ch<'a>, cfg: &'w Cfg) -> Self {
        Writer {
            ch,
            cfg,
            out: String::new(),
            left: cfg.nodes,
            leafs: 0,
            keys: 0,
            anchors: vec![],
            open: vec![],
            used_alias: false,
            raw: false,
            bare: false,
        }
    }
    /// Start the next document of the stream (its own anchors).
    pub fn next_doc(&mut self) {
        self.left = self.cfg.nodes;
        self.anchors.clear();
        self.open.clear();
    }
    fn name(&mut self) -> &'static str {
        self.leafs += 1;
        NAMES[(self.leafs - 1) % NAMES.len()]
    }
    fn key_name(&mut self) -> &'static str {
        self.keys += 1;
        KEYN[(self.keys - 1) % KEYN.len()]
    }
    fn put(&mut self, t: &str) {
        self.out.push_str(t);
    }
    fn pad(&mut self, n: usize) {
        for _ in 0..n {
            self.out.push(' ');
        }
    }
    /// End of a line of structure: blanks, comments and empty lines may follow.
    pub fn eol(&mut self) {
        let nl = self.cfg.nl;
        if self.cfg.layout && !self.raw {
            match self.ch.dev(10) {
                0 => {}
                7 => self.put("\t"),
                8 => self.put(" \t# x"),
                9 => self.put(&format!("{nl} \t")),
                1 => self.put("  "),
                2 => self.put(" # x"),
                3 => self.put(nl),
                4 => self.put(&format!("{nl}# x")),
                5 => self.put(&format!("{nl}      # - x: [")),
                _ => self.put(&format!(" # x: y{nl}{nl}  {nl}#")),
            }
        }
        self.raw = false;
        self.put(nl);
    }
    /// Space behind an indicator, before content on the same line.
    fn gap(&mut self) {
        self.put(" ");
    }
    fn wide_gap(&mut self) {
        let k = if self.cfg.layout { self.ch.dev(4) } else { 0 };
        self.put([" ", "   ", "\t", " \t"][k]);
    }
    fn leaf_at(&mut self, kind: Leaf, ind: usize) -> V {
        let nl = self.cfg.nl;
        match kind {
            Leaf::Plain => {
                let t = self.name();
                self.put(t);
                V::Str(t.into())
            }
            Leaf::Single => {
                let t = self.name();
                self.put(&format!("'{t}: ''#'"));
                V::Str(format!("{t}: '#"))
            }
            Leaf::Double => {
                let t = self.name();
                self.put(&format!("\"{t}\\n: \\\" #\""));
                V::Str(format!("{t}\n: \" #"))
            }
            Leaf::Literal | Leaf::Folded => {
                let t = self.name();
                let i = " ".repeat(ind + 2);
                let lit = kind == Leaf::Literal;
                self.put(&format!("{}{nl}{i}{t}: ]{nl}{i}- #x", if lit { "|" } else { ">-" }));
                self.raw = true;
                V::Str(if lit { format!("{t}: ]\n- #x\n") } else { format!("{t}: ] - #x") })
            }
            Leaf::Empty => V::Null,
            Leaf::Tilde => {
                self.put("~");
                V::Null
            }
            Leaf::Int => {
                self.leafs += 1;
                let t = (self.leafs + 10).to_string();
                self.put(&t);
                V::Int(t)
            }
            Leaf::Multi => {
                let t = self.name();
                let i = " ".repeat(ind + 4);
                self.put(&format!("{t}{nl}{i}w"));
                V::Str(format!("{t} w"))
            }
            Leaf::SingleMulti => {
                let t = self.name();
                let i = " ".repeat(ind + 4);
                self.put(&format!("'{t}{nl}{i}w'"));
                V::Str(format!("{t} w"))
            }
        }
    }
    /// Anchor and tag in front of a node. Returns (anchor, tag); the text starts with a space.
    fn props(&mut self, flow: Option<usize>) -> (Option<String>, String) {
        let (mut a, mut t) = (None, String::new());
        let mut txt: Vec<String> = vec![];
        if self.cfg.anchors && self.anchors.len() + self.open.len() < ANCH.len() && self.ch.dev(2) == 1 {
            let n = ANCH[self.anchors.len() + self.open.len()].to_string();
            txt.push(format!("&{n}"));
            a = Some(n);
        }
        if !self.cfg.tags.is_empty() {
            let i = self.ch.dev(self.cfg.tags.len() + 1);
            if i > 0 {
                let (src, tag) = self.cfg.tags[i - 1];
                txt.push(src.to_string());
                t = tag.to_string();
            }
        }
        if txt.len() == 2 && self.ch.dev(2) == 1 {
            txt.reverse();
        }
        for t in txt {
            self.put(&t);
            self.put(" ");
            if let Some(ind) = flow {
                self.flow_ws(ind);
            }
        }
        (a, t)
    }
    fn close(&mut self, anchor: Option<String>, mut n: N) -> N {
        if let Some(a) = &anchor {
            self.open.retain(|o| o != a);
            n.anchor = anchor.clone();
            self.anchors.push((a.clone(), n.clone()));
        }
        n
    }
    fn open(&mut self, a: &Option<String>) {
        if let Some(a) = a {
            self.open.push(a.clone());
        }
    }
    /// Alias targets usable here.
    fn targets(&self) -> Vec<String> {
        let mut v: Vec<String> = self.anchors.iter().map(|a| a.0.clone()).collect();
        if self.cfg.cyclic {
            v.extend(self.open.iter().cloned());
        }
        v
    }
    fn alias(&mut self) -> Option<V> {
        if !self.cfg.aliases {
            return None;
        }
        let t = self.targets();
        if t.is_empty() {
            return None;
        }
        let i = self.ch.pick(t.len() + 1);
        if i == 0 {
            return None;
        }
        self.used_alias = true;
        let name = t[i - 1].clone();
        self.put(&format!("*{name}"));
        Some(if self.cfg.cyclic {
            V::Alias(name)
        } else {
            self.anchors.iter().find(|a| a.0 == name).unwrap().1.v.clone()
        })
    }

    /// One block node behind `at`, in a container whose lines start at column `ind`.
    /// `depth` containers may still be opened. Ends with its line end.
    pub fn block(&mut self, at: At, ind: usize, depth: usize) -> N {
        self.left = self.left.saturating_sub(1);
        let open_ok = depth > 0 && self.left > 0;
        // kinds: leaf, block seq, block map, flow seq, flow map
        let mut kinds = vec![0];
        if open_ok && self.cfg.block {
            kinds.extend([1, 2]);
        }
        if open_ok && self.cfg.flow {
            kinds.extend([3, 4]);
        }
        let start = self.out.len();
        let kind = kinds[self.ch.pick(kinds.len())];
        match kind {
            0 | 3 | 4 => {
                // 1: the content is on the next line, 2: its properties as well
                let drop = if self.cfg.next_line && at != At::Root { self.ch.dev(3) } else { 0 };
                let base = if at == At::Marker { 0 } else { self.cfg.widths[0] };
                if drop == 2 {
                    self.eol();
                    self.pad(ind + base);
                } else if at != At::Root {
                    let k = if self.cfg.layout { self.ch.dev(4) } else { 0 };
                    self.put([" ", "  ", "\t", " \t"][k]);
                }
                let (anchor, tag) = self.props(None);
                if drop == 1 {
                    let t = self.out.trim_end_matches(' ').len();
                    self.out.truncate(t);
                    self.eol();
                    self.pad(ind + base);
                } else if at != At::Root && anchor.is_none() && tag.is_empty() && self.cfg.layout && self.ch.dev(2) == 1 && drop == 0 {
                    self.put("  ");
                }
                let lo = self.out.len();
                let mut empty = false;
                let v = if kind == 0 {
                    let al = if anchor.is_none() && tag.is_empty() { self.alias() } else { None };
                    match al {
                        Some(v) => v,
                        None => {
                            let k = self.ch.dev(self.cfg.leaves.len());
                            let mut k = self.cfg.leaves[k];
                            if drop > 0 && matches!(k, Leaf::Literal | Leaf::Folded | Leaf::Multi | Leaf::Empty) {
                                // not supported there
                                self.ch.skip = true;
                                k = Leaf::Tilde;
                            }
                            if k == Leaf::Empty && (anchor.is_some() || !tag.is_empty() || at == At::Root) {
                                self.leaf_at(Leaf::Tilde, ind)
                            } else {
                                // nothing behind an indicator: no trailing space by default
                                if k == Leaf::Empty {
                                    empty = true;
                                    let t = self.out.trim_end_matches(' ').len();
                                    self.out.truncate(t);
                                }
                                self.leaf_at(k, ind)
                            }
                        }
                    }
                } else {
                    self.open(&anchor);
                    self.flow_body(kind == 3, depth - 1, ind)
                };
                let n = N { v, tag, anchor: None, lo, hi: lo };
                let n = if empty { N { lo: start, hi: self.out.len(), ..n } } else { n };
                let mut n = self.close(anchor, n);
                self.eol();
                if empty {
                    // nothing is written: it may be anywhere up to the next item
                    n.hi = self.out.len();
                }
                n
            }
            _ => {
                let seq = kind == 1;
                // properties stay on the line of the indicator
                let mark = self.out.len();
                if at != At::Root {
                    self.put(" ");
                }
                let before = self.out.len();
                let (anchor, tag) = self.props(None);
                let has = self.out.len() > before;
                if !has {
                    self.out.truncate(mark);
                } else {
                    // the space behind the last property
                    self.out.pop();
                }
                self.open(&anchor);
                let compact = !has
                    && match at {
                        At::Root => true,
                        At::Dash => self.cfg.compact && self.ch.pick(2) == 0,
                        _ => false,
                    };
                let (lo, col, hi);
                if compact {
                    if at == At::Dash {
                        self.put(" ");
                    }
                    lo = self.out.len();
                    col = if at == At::Dash { ind + 2 } else { ind };
                    hi = lo;
                } else {
                    lo = self.out.len();
                    self.eol();
                    let w = self.cfg.widths;
                    let base = match at {
                        At::Root | At::Marker => 0,
                        // a sequence can be aligned with the keys of its map
                        At::Colon if seq && self.ch.pick(2) == 1 => 0,
                        _ => w[self.ch.dev(w.len())],
                    };
                    col = ind + base;
                    self.pad(col);
                    hi = self.out.len();
                }
                let v = if seq { self.seq_body(col, depth - 1) } else { self.map_body(col, depth - 1, (compact && at != At::Colon) || (!has && at == At::Marker)) };
                self.close(anchor, N { v, tag, anchor: None, lo, hi })
            }
        }
    }

    fn more(&mut self, n: usize) -> bool {
        n < 4 && self.left > 0 && self.ch.pick(2) == 1
    }

    /// The cursor is at column `col` of the first item.
    fn seq_body(&mut self, col: usize, depth: usize) -> V {
        let mut v = vec![];
        loop {
            self.put("-");
            v.push(self.block(At::Dash, col, depth));
            if !self.more(v.len()) {
                return V::Seq(v);
            }
            self.pad(col);
        }
    }
    fn map_body(&mut self, col: usize, depth: usize, inline: bool) -> V {
        let mut m = vec![];
        loop {
            let (k, explicit) = self.key(col, depth, inline && m.is_empty());
            let v = if std::mem::take(&mut self.bare) {
                let lo = self.out.len();
                self.eol();
                N { lo, hi: self.out.len(), ..V::Null.into() }
            } else {
                self.block(if explicit { At::Explicit } else { At::Colon }, col, depth)
            };
            // equal keys are merged: not in this model
            self.ch.skip |= m.iter().any(|(l, _)| plain(N::clone(l), false) == plain(k.clone(), false));
            m.push((k, v));
            if !self.more(m.len()) {
                return V::Map(m);
            }
            self.pad(col);
        }
    }
    /// A key and its `:`. `first_inline`: properties would belong to the map.
    fn key(&mut self, col: usize, depth: usize, first_inline: bool) -> (N, bool) {
        let mut k = self.cfg.keys[self.ch.dev(self.cfg.keys.len())];
        if depth == 0 && matches!(k, Key::BlockSeq | Key::BlockMap) {
            k = Key::Explicit;
        }
        if matches!(k, Key::BlockSeq | Key::BlockMap) {
            self.put("?");
            let lo = self.out.len();
            self.eol();
            let c = col + self.cfg.widths[0];
            self.pad(c);
            let hi = self.out.len();
            let save = std::mem::replace(&mut self.left, 1);
            let v = if k == Key::BlockSeq { self.seq_body(c, 0) } else {
                let kn = self.key_name();
                let klo = self.out.len();
                self.put(&format!("{kn}:"));
                let key = N { lo: klo, hi: klo, ..s(kn) };
                let val = self.block(At::Colon, c, 0);
                V::Map(vec![(key, val)])
            };
            self.left = save;
            self.pad(col);
            self.put(":");
            return (N { lo, hi, ..v.into() }, true);
        }
        let explicit = matches!(k, Key::Explicit | Key::Bare);
        if explicit {
            self.put("?");
            self.wide_gap();
        }
        let (anchor, tag) = if first_inline && !explicit { (None, String::new()) } else { self.props(None) };
        let lo = self.out.len();
        let v = match k {
            Key::Plain | Key::Explicit | Key::Bare => {
                let t = self.key_name();
                self.put(t);
                V::Str(t.into())
            }
            Key::Single => {
                let t = self.key_name();
                self.put(&format!("'{t}: ''#'"));
                V::Str(format!("{t}: '#"))
            }
            Key::Double => {
                let t = self.key_name();
                self.put(&format!("\"{t}: \\\"#\""));
                V::Str(format!("{t}: \"#"))
            }
            Key::Int => {
                self.keys += 1;
                let t = (self.keys + 100).to_string();
                self.put(&t);
                V::Int(t)
            }
            Key::Flow => {
                let t = self.key_name();
                self.put(&format!("[{t}, ~]"));
                V::Seq(vec![
                    N { lo: lo + 1, hi: lo + 1, ..s(t) },
                    N { lo: lo + 2 + t.len(), hi: lo + 3 + t.len(), ..V::Null.into() },
                ])
            }
            Key::Empty => V::Null,
            Key::BlockSeq | Key::BlockMap => unreachable!(),
        };
        let n = self.close(anchor, N { v, tag, anchor: None, lo, hi: lo });
        if k == Key::Bare {
            self.bare = true;
            return (n, true);
        }
        if explicit {
            self.eol();
            self.pad(col);
        } else if self.cfg.layout {
            match self.ch.dev(3) {
                0 => {}
                1 => self.put(" "),
                _ => self.put("\t"),
            }
        }
        self.put(":");
        (n, explicit)
    }

    fn flow_ws(&mut self, ind: usize) {
        if self.cfg.layout {
            let nl = self.cfg.nl;
            match self.ch.dev(6) {
                0 => {}
                1 => self.put("  "),
                4 => self.put("\t"),
                5 => {
                    self.put(&format!("{nl}\t{nl}"));
                    self.pad(ind + 2);
                    self.put("\t");
                }
                2 => {
                    self.put(nl);
                    self.pad(ind + 2);
                }
                _ => {
                    self.put(&format!(" # ] }}{nl}"));
                    self.pad(ind + 2);
                }
            }
        }
    }
    /// A flow node with its properties.
    fn flow_node(&mut self, depth: usize, ind: usize) -> N {
        self.left = self.left.saturating_sub(1);
        let kinds = if depth > 0 && self.left > 0 { 3 } else { 1 };
        let (anchor, tag) = self.props(Some(ind));
        let lo = self.out.len();
        let v = match self.ch.pick(kinds) {
            0 => {
                let al = if anchor.is_none() && tag.is_empty() { self.alias() } else { None };
                match al {
                    Some(v) => v,
                    None => {
                        let k = self.cfg.flow_leaves[self.ch.dev(self.cfg.flow_leaves.len())];
                        self.leaf_at(k, ind)
                    }
                }
            }
            k => {
                self.open(&anchor);
                self.flow_body(k == 1, depth - 1, ind)
            }
        };
        self.close(anchor, N { v, tag, anchor: None, lo, hi: lo })
    }
    fn flow_body(&mut self, seq: bool, depth: usize, ind: usize) -> V {
        if seq {
            let mut v = vec![];
            self.put("[");
            self.flow_ws(ind);
            while self.more(v.len()) {
                if !v.is_empty() {
                    self.put(",");
                    self.wide_gap();
                }
                if self.cfg.pairs && self.ch.dev(2) == 1 {
                    let mark = self.out.len();
                    let k = self.flow_key();
                    let lo = mark + if self.out[mark..].starts_with("? ") { 2 } else { 0 };
                    self.put(":");
                    self.wide_gap();
                    let val = self.flow_node(depth, ind);
                    v.push(N { lo, hi: lo, ..V::Map(vec![(k, val)]).into() });
                } else {
                    v.push(self.flow_node(depth, ind));
                }
                self.flow_ws(ind);
            }
            if !v.is_empty() && self.cfg.layout && self.ch.dev(2) == 1 {
                self.put(",");
            }
            self.put("]");
            V::Seq(v)
        } else {
            let mut m = vec![];
            self.put("{");
            self.flow_ws(ind);
            while self.more(m.len()) {
                if !m.is_empty() {
                    self.put(",");
                    self.wide_gap();
                }
                let k = self.flow_key();
                self.put(":");
                self.wide_gap();
                self.flow_ws(ind);
                let v = self.flow_node(depth, ind);
                self.flow_ws(ind);
                m.push((k, v));
            }
            if !m.is_empty() && self.cfg.layout && self.ch.dev(2) == 1 {
                self.put(",");
            }
            self.put("}");
            V::Map(m)
        }
    }
    fn flow_key(&mut self) -> N {
        let k = self.cfg.flow_keys[self.ch.dev(self.cfg.flow_keys.len())];
        if k == Key::Explicit {
            self.put("? ");
        }
        let (anchor, tag) = self.props(None);
        let lo = self.out.len();
        let v = match k {
            Key::Single => {
                let t = self.key_name();
                self.put(&format!("'{t}'"));
                V::Str(t.into())
            }
            Key::Double => {
                let t = self.key_name();
                self.put(&format!("\"{t}, }}\""));
                V::Str(format!("{t}, }}"))
            }
            Key::Int => {
                self.keys += 1;
                let t = (self.keys + 100).to_string();
                self.put(&t);
                V::Int(t)
            }
            _ => {
                let t = self.key_name();
                self.put(t);
                V::Str(t.into())
            }
        };
        self.close(anchor, N { v, tag, anchor: None, lo, hi: lo })
    }
    /// Drop the final line end (only possible if it does not carry content).
    pub fn chop(&mut self) {
        let nl = self.cfg.nl;
        if self.out.ends_with(nl) {
            let n = self.out.len() - nl.len();
            self.out.truncate(n);
        }
    }
}
