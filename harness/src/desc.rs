//! Tree descriptions, their random generation, and building real trees from
//! them through several independent routes of the public API.
use crate::json::{self, J};
use crate::rng::Rng;
use lumberjack::io::PTBFormat;
use lumberjack::{Features, NegraReader, Node, Terminal, Tree};
use petgraph::prelude::{EdgeIndex, NodeIndex};
use std::collections::{BTreeMap, HashMap};
use std::io::BufReader;

#[derive(Clone, Debug, Default)]
pub struct DNode {
    pub term: bool,
    pub label: String,
    pub feats: Vec<(String, Option<String>)>,
    pub form: String,
    pub lemma: Option<String>,
    pub pos: usize,
    pub parent: Option<usize>,
    pub edge: Option<String>,
}

#[derive(Clone, Debug, Default)]
pub struct Desc {
    pub nodes: Vec<DNode>,
    pub sec: Vec<(usize, usize, Option<String>)>,
}

impl Desc {
    pub fn root(&self) -> usize {
        self.nodes.iter().position(|n| n.parent.is_none()).unwrap()
    }
    pub fn kids(&self, n: usize) -> Vec<usize> {
        (0..self.nodes.len())
            .filter(|c| self.nodes[*c].parent == Some(n))
            .collect()
    }
    pub fn terms(&self) -> Vec<usize> {
        let mut v = (0..self.nodes.len())
            .filter(|n| self.nodes[*n].term)
            .collect::<Vec<_>>();
        v.sort_by_key(|n| self.nodes[*n].pos);
        v
    }
    pub fn nts(&self) -> Vec<usize> {
        (0..self.nodes.len()).filter(|n| !self.nodes[*n].term).collect()
    }
    pub fn yields(&self, n: usize) -> Vec<usize> {
        let mut out = Vec::new();
        self.collect(n, &mut out);
        out.sort();
        out
    }
    fn collect(&self, n: usize, out: &mut Vec<usize>) {
        if self.nodes[n].term {
            out.push(self.nodes[n].pos)
        }
        for c in self.kids(n) {
            self.collect(c, out)
        }
    }
    pub fn continuous(&self) -> bool {
        self.nts().into_iter().all(|n| {
            let y = self.yields(n);
            y[y.len() - 1] - y[0] + 1 == y.len()
        })
    }
    /// Children in order of their first token.
    pub fn ordered(&self, n: usize) -> Vec<usize> {
        let mut k = self.kids(n);
        k.sort_by_key(|c| self.yields(*c)[0]);
        k
    }
    pub fn height(&self, n: usize) -> usize {
        self.kids(n).into_iter().map(|c| self.height(c) + 1).max().unwrap_or(0)
    }
    pub fn shape(&self) -> String {
        self.shape_at(self.root())
    }
    fn shape_at(&self, n: usize) -> String {
        if self.nodes[n].term {
            return self.nodes[n].pos.to_string();
        }
        let k = self.ordered(n).into_iter().map(|c| self.shape_at(c)).collect::<Vec<_>>();
        format!("({})", k.join(" "))
    }
    pub fn to_json(&self) -> J {
        json::o(vec![
            ("r", json::n(self.root())),
            (
                "N",
                json::a(self.nodes.iter().enumerate().map(|(i, d)| {
                    json::a(vec![
                        json::n(i),
                        json::s(if d.term { "T" } else { "N" }),
                        json::s(d.label.clone()),
                        json::a(d.feats.iter().map(|(k, v)| {
                            json::a(vec![json::s(k.clone()), json::opt(v.as_ref().map(|x| x.as_str()))])
                        })),
                        json::n(d.pos),
                        json::s(d.form.clone()),
                        json::opt(d.lemma.as_ref().map(|x| x.as_str())),
                    ])
                })),
            ),
            (
                "E",
                json::a(
                    self.nodes
                        .iter()
                        .enumerate()
                        .filter(|(_, d)| d.parent.is_some())
                        .map(|(i, d)| {
                            json::a(vec![
                                json::n(d.parent.unwrap()),
                                json::n(i),
                                json::n(1),
                                json::opt(d.edge.as_ref().map(|x| x.as_str())),
                            ])
                        })
                        .chain(self.sec.iter().map(|(p, c, l)| {
                            json::a(vec![
                                json::n(*p),
                                json::n(*c),
                                json::n(0),
                                json::opt(l.as_ref().map(|x| x.as_str())),
                            ])
                        })),
                ),
            ),
        ])
    }
    /// Descriptions may use arbitrary ids.
    pub fn from_json(j: &J) -> Desc {
        let mut map = HashMap::new();
        let mut d = Desc::default();
        for q in j.get("N").arr() {
            map.insert(q.at(0).int(), d.nodes.len());
            d.nodes.push(DNode {
                term: q.at(1).str() == "T",
                label: q.at(2).str().to_string(),
                feats: q.at(3).arr().iter().map(|x| (x.at(0).str().to_string(), x.at(1).opt())).collect(),
                pos: q.at(4).int().max(0) as usize,
                form: q.at(5).str().to_string(),
                lemma: q.at(6).opt(),
                parent: None,
                edge: None,
            });
        }
        for e in j.get("E").arr() {
            let (s, t) = (map[&e.at(0).int()], map[&e.at(1).int()]);
            if e.at(2).int() == 1 {
                d.nodes[t].parent = Some(s);
                d.nodes[t].edge = e.at(3).opt();
            } else {
                d.sec.push((s, t, e.at(3).opt()));
            }
        }
        d
    }
}

// ---------------------------------------------------------------------------
// random descriptions
#[derive(Clone)]
pub struct Cfg {
    pub max_terms: usize,
    pub min_terms: usize,
    pub disc: bool,
    pub unary: bool,
    pub labels: Vec<&'static str>,
    pub tags: Vec<&'static str>,
    pub forms: Vec<&'static str>,
    pub edges: Vec<&'static str>,
    pub feats: bool,
    pub lemmas: bool,
    pub sec: bool,
    /// also secondary edges that start at terminals or end at the root
    pub wild_sec: bool,
    pub max_depth: usize,
    /// one in so many values is an odd string (0: none)
    pub odd: usize,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            max_terms: 7,
            min_terms: 1,
            disc: true,
            unary: true,
            labels: vec!["S", "NP", "VP", "X"],
            tags: vec!["N", "V", "D", "$,"],
            forms: vec![],
            edges: vec!["HD", "SB", "OA", "A:B"],
            feats: true,
            lemmas: true,
            sec: true,
            wild_sec: false,
            max_depth: 5,
            odd: 16,
        }
    }
}

pub fn gen(r: &mut Rng, c: &Cfg) -> Desc {
    let n = r.range(c.min_terms.min(c.max_terms), c.max_terms);
    let mut d = Desc::default();
    if n == 1 && r.chance(1, 8) {
        d.nodes.push(DNode { term: true, ..DNode::default() });
    } else {
        d.nodes.push(DNode::default());
        let all = (0..n).collect::<Vec<_>>();
        grow(&mut d, r, c, 0, all, 0);
    }
    decorate(&mut d, r, c);
    d
}

/// A tree that is as deep as its sentence is long: every level takes one token off.
pub fn comb(r: &mut Rng, c: &Cfg, most: usize) -> Desc {
    let n = if most > 100 { most } else { r.range(4, most) };
    let inside = c.disc && r.chance(1, 2);
    let mut d = Desc::default();
    d.nodes.push(DNode::default());
    let mut ps = (0..n).collect::<Vec<_>>();
    let mut cur = 0;
    let side = r.below(3);
    while ps.len() > 2 {
        let at = match (side, inside && r.chance(1, 3)) {
            (_, true) => r.below(ps.len()),
            (0, _) => 0,
            (1, _) => ps.len() - 1,
            _ => [0, ps.len() - 1][r.below(2)],
        };
        let pos = ps.remove(at);
        if r.chance(1, 2) {
            add(&mut d, true, pos, cur);
            cur = add(&mut d, false, 0, cur);
        } else {
            let next = add(&mut d, false, 0, cur);
            add(&mut d, true, pos, cur);
            cur = next;
        }
        if c.unary && r.chance(1, 15) {
            cur = add(&mut d, false, 0, cur);
        }
    }
    for p in ps {
        add(&mut d, true, p, cur);
    }
    decorate(&mut d, r, c);
    d
}

/// A long sentence: more tokens than fit a byte, a word or a usual width; a few of them out of place.
pub fn giant(r: &mut Rng, c: &Cfg, n: usize) -> Desc {
    let mut d = Desc::default();
    d.nodes.push(DNode::default());
    let g = Cfg { disc: false, max_depth: 7, ..c.clone() };
    grow(&mut d, r, &g, 0, (0..n).collect(), 0);
    if c.disc && r.chance(2, 3) {
        let ts = (0..d.nodes.len()).filter(|i| d.nodes[*i].term).collect::<Vec<_>>();
        for _ in 0..r.range(1, 2) {
            let (a, b) = (*r.pick(&ts), *r.pick(&ts));
            let p = d.nodes[a].pos;
            d.nodes[a].pos = d.nodes[b].pos;
            d.nodes[b].pos = p;
        }
    }
    decorate(&mut d, r, c);
    d
}

fn add(d: &mut Desc, term: bool, pos: usize, parent: usize) -> usize {
    d.nodes.push(DNode { term, pos, parent: Some(parent), ..DNode::default() });
    d.nodes.len() - 1
}

fn grow(d: &mut Desc, r: &mut Rng, c: &Cfg, node: usize, ps: Vec<usize>, depth: usize) {
    if c.unary && depth < c.max_depth && r.chance(1, 6) {
        let u = add(d, false, 0, node);
        return grow(d, r, c, u, ps, depth + 1);
    }
    if ps.len() == 1 {
        add(d, true, ps[0], node);
        return;
    }
    let k = if depth >= c.max_depth { ps.len() } else { r.range(2, ps.len().min(4)) };
    let mut parts: Vec<Vec<usize>> = vec![Vec::new(); k];
    if c.disc && r.chance(1, 2) {
        for (i, p) in ps.iter().enumerate() {
            let g = if i < k { i } else { r.below(k) };
            parts[g].push(*p);
        }
        // rotate assignments a little
        if r.chance(1, 2) {
            let mut sh = ps.clone();
            r.shuffle(&mut sh);
            parts = vec![Vec::new(); k];
            for (i, p) in sh.iter().enumerate() {
                parts[if i < k { i } else { r.below(k) }].push(*p);
            }
            for p in parts.iter_mut() {
                p.sort()
            }
        }
    } else {
        let mut cuts = (1..ps.len()).collect::<Vec<_>>();
        r.shuffle(&mut cuts);
        cuts.truncate(k - 1);
        cuts.sort();
        cuts.push(ps.len());
        let mut st = 0;
        for (i, e) in cuts.into_iter().enumerate() {
            parts[i] = ps[st..e].to_vec();
            st = e;
        }
    }
    for p in parts {
        if p.len() == 1 && !(c.unary && depth < c.max_depth && r.chance(1, 5)) {
            add(d, true, p[0], node);
        } else {
            let x = add(d, false, 0, node);
            grow(d, r, c, x, p, depth + 1);
        }
    }
}

/// What the formats and encodings give a meaning to.
const AFFIX: &[&str] = &[
    "", "", "NONE", "DUMMY", "VROOT", "-", "--", "=", ":", "+", "~", "_", "%", "%%", "#", "#EOS", "|", "0", "1", ".", "*", "(", ")", "\u{e4}", "\u{3b1}",
    "'", "\"", "\\", "/", " ", "$(", "LBR", "S", "n",
];

/// A string close to `s` that a comparison or a delimiter could take for something else.
pub fn odd(r: &mut Rng, s: &str) -> String {
    let a = *r.pick(AFFIX);
    match r.below(9) {
        0 | 1 => format!("{}{}", a, s),
        2 | 3 => format!("{}{}", s, a),
        4 => a.to_string(),
        5 => format!("{}{}", a, r.pick(AFFIX)),
        6 => format!("{}{}", s, s),
        // values as wide as the columns of a table, or nearly so
        7 => {
            let n = if r.chance(1, 2) { *r.pick(&[7, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32, 33]) } else { r.range(1, 40) };
            s.chars().chain("abcdefgh".chars()).cycle().take(n).collect()
        }
        _ => s.chars().rev().collect(),
    }
}

pub fn decorate(d: &mut Desc, r: &mut Rng, c: &Cfg) {
    let root = d.root();
    for i in 0..d.nodes.len() {
        let term = d.nodes[i].term;
        let pos = d.nodes[i].pos;
        let x = &mut d.nodes[i];
        x.label = if term { *r.pick(&c.tags) } else { *r.pick(&c.labels) }.to_string();
        if term {
            x.form = if c.forms.is_empty() || r.chance(1, 3) {
                format!("w{}", pos)
            } else {
                r.pick(&c.forms).to_string()
            };
            if c.lemmas && r.chance(1, 3) {
                x.lemma = Some(match r.below(9) {
                    8 => String::new(),
                    0 => "Donaudampfschifffahrtsgesellschaft".to_string(),
                    k => format!("l{}", k % 3),
                });
            }
            if c.feats && r.chance(1, 3) {
                let v = *r.pick(&[Some("nsf"), Some("p:q"), Some("x"), Some("nom.sg.fem.sehr.lange.Angabe"), Some(""), None]);
                x.feats.push(("morph".into(), v.map(|v| v.to_string())));
            }
            if c.feats && r.chance(1, 6) {
                x.feats.push(("k".into(), None));
            }
            if c.feats && r.chance(1, 10) {
                x.feats.push(("node_annotation".into(), Some(r.pick(&["SBJ", "A=B", "x-y", "("]).to_string())));
            }
        } else if c.feats && r.chance(1, 4) {
            x.feats.push(("node_annotation".into(), Some(r.pick(&["SBJ", "LOC", "TMP-CLR", "A=B"]).to_string())));
        }
        if i != root && !c.edges.is_empty() && r.chance(1, 2) {
            x.edge = Some(r.pick(&c.edges).to_string());
        }
        if c.odd > 0 {
            if r.chance(1, c.odd) {
                x.label = odd(r, &x.label);
            }
            if x.term && r.chance(1, c.odd) {
                x.form = odd(r, &x.form);
            }
            if r.chance(1, c.odd) {
                x.edge = x.edge.as_ref().map(|e| odd(r, e));
            }
            if r.chance(1, c.odd) {
                x.lemma = x.lemma.as_ref().map(|e| odd(r, e));
            }
            for (_, v) in x.feats.iter_mut() {
                if r.chance(1, c.odd) {
                    *v = v.as_ref().map(|v| odd(r, v));
                }
            }
        }
    }
    if c.sec && d.nodes.len() > 1 && r.chance(if c.wild_sec { 2 } else { 1 }, if c.wild_sec { 3 } else { 2 }) {
        for _ in 0..r.range(1, if c.wild_sec { 4 } else { 2 }) {
            let nts = d.nts();
            let p = if c.wild_sec { r.below(d.nodes.len()) } else { *r.pick(&nts) };
            let t = r.below(d.nodes.len());
            if p == t || (!c.wild_sec && t == root) {
                continue;
            }
            let l = if r.chance(1, 3) { None } else { Some(r.pick(&["s1", "s2"]).to_string()) };
            let l = if c.odd > 0 && r.chance(1, c.odd) { l.map(|l| odd(r, &l)) } else { l };
            d.sec.push((p, t, l));
        }
    }
}

// ---------------------------------------------------------------------------
// building real trees
pub const MODES: usize = 4;

/// Plan: {mode, seed, desc}
pub fn plan(d: &Desc, mode: usize, seed: u64) -> J {
    json::o(vec![
        ("mode", json::n(mode)),
        ("seed", json::n((seed & 0xffff_ffff) as usize)),
        ("desc", d.to_json()),
    ])
}

/// Build the described tree; other routes are tried if the requested one does
/// not deliver that tree.
pub fn build(p: &J) -> Option<Tree> {
    let d = Desc::from_json(p.get("desc"));
    let mode = p.get("mode").us();
    let seed = p.get("seed").int() as u64;
    let mut first = None;
    for m in vec![mode, 2, 3, 0] {
        let r = std::panic::catch_unwind(|| build_by(&d, m, seed));
        if let Ok(Some(t)) = r {
            if snapshot_shape(&t) == d.shape() {
                return Some(t);
            }
            if first.is_none() {
                first = Some(t);
            }
        }
    }
    first
}

fn build_by(d: &Desc, mode: usize, seed: u64) -> Option<Tree> {
    let mut r = Rng::new(seed);
    let mut t = match mode {
        0 => by_edits(d, &mut r, false)?,
        1 => by_edits(d, &mut r, true)?,
        2 => by_negra(d, &mut r)?,
        _ => by_ptb(d)?,
    };
    // the structure carries placeholder labels n<i> / t<pos>
    let mut map = HashMap::new();
    for ix in t.graph().node_indices().collect::<Vec<_>>() {
        let i = match &t[ix] {
            Node::Terminal(q) => {
                let pos: usize = q.form()[1..].parse().ok()?;
                d.terms().into_iter().find(|n| d.nodes[*n].pos == pos)?
            }
            Node::NonTerminal(q) => q.label()[1..].parse().ok()?,
        };
        map.insert(i, ix);
    }
    for (i, ix) in map.iter() {
        let x = &d.nodes[*i];
        let ix = *ix;
        t[ix].set_features(None);
        t[ix].set_label(x.label.clone());
        if x.term {
            let q = t[ix].terminal_mut().unwrap();
            q.set_form(x.form.clone());
            q.set_lemma(x.lemma.clone());
        }
        for (k, v) in &x.feats {
            t[ix].features_mut().insert(k.clone(), v.clone());
        }
        if x.parent.is_some() {
            let (_, e) = t.parent(ix)?;
            t[e].set_label(x.edge.clone());
        }
    }
    for i in 0..d.nodes.len() {
        if d.nodes[i].feats.is_empty() && r.chance(1, 4) {
            t[map[&i]].features_mut();
        }
    }
    for (p, c, l) in &d.sec {
        t.add_secondary_edge(map[p], map[c], l.clone());
    }
    Some(t)
}

fn by_edits(d: &Desc, r: &mut Rng, shuffled: bool) -> Option<Tree> {
    let terms = d.terms();
    let mut order = (0..terms.len()).collect::<Vec<_>>();
    if shuffled {
        r.shuffle(&mut order)
    }
    let form = |p: usize| format!("t{}", p);
    let mut t = Tree::new(form(order[0]), "T");
    let root = d.root();
    if d.nodes[root].term {
        return Some(t);
    }
    let troot = t.root();
    let top = t.insert_unary_above(troot, format!("n{}", root));
    let mut at = vec![None; d.nodes.len()];
    at[terms[order[0]]] = Some(troot);
    let mut placed = vec![order[0]];
    for p in order.into_iter().skip(1) {
        let idx = placed.iter().filter(|q| **q < p).count();
        if shuffled && r.chance(1, 3) {
            let junk = t.insert_terminal(top, Terminal::new("junk", "J", r.below(placed.len() + 1)));
            if r.chance(1, 2) {
                let u = t.insert_unary_above(junk, "junk");
                t.remove_node(u).ok()?;
            }
            t.remove_node(junk).ok()?;
        }
        let ix = if idx == placed.len() && (!shuffled || r.chance(1, 2)) {
            t.push_terminal(form(p), "T").ok()?
        } else {
            t.insert_terminal(top, Terminal::new(form(p), "T", idx))
        };
        at[terms[p]] = Some(ix);
        placed.push(p);
    }
    let mut nts = d.nts().into_iter().filter(|n| *n != root).collect::<Vec<_>>();
    if shuffled {
        r.shuffle(&mut nts)
    }
    nts.sort_by_key(|n| d.height(*n));
    for x in nts {
        let mut kids = d.kids(x);
        if shuffled {
            r.shuffle(&mut kids)
        }
        let u = t.insert_unary_above(at[kids[0]]?, format!("n{}", x));
        for k in kids.into_iter().skip(1) {
            let (_, e) = t.parent(at[k]?)?;
            t.reattach_node(u, e).ok()?;
        }
        at[x] = Some(u);
    }
    Some(t)
}

fn by_negra(d: &Desc, r: &mut Rng) -> Option<Tree> {
    let root = d.root();
    if d.nodes[root].term {
        return None;
    }
    let mut nts = d.nts().into_iter().filter(|n| *n != root).collect::<Vec<_>>();
    r.shuffle(&mut nts);
    nts.sort_by_key(|n| d.height(*n));
    let mut num = BTreeMap::new();
    num.insert(root, 0);
    for (i, x) in nts.iter().enumerate() {
        num.insert(*x, 500 + i);
    }
    let mut s = String::from("#BOS 1\n");
    for x in d.terms() {
        s += &format!("t{} -- T -- -- {}\n", d.nodes[x].pos, num[&d.nodes[x].parent.unwrap()]);
    }
    for x in &nts {
        s += &format!("#{} -- n{} -- -- {}\n", num[x], x, num[&d.nodes[*x].parent.unwrap()]);
    }
    s += "#EOS 1\n";
    let mut t = NegraReader::new(BufReader::new(s.as_bytes())).next()?.ok()?;
    let ix = t.root();
    t[ix].set_label(format!("n{}", root));
    Some(t)
}

fn by_ptb(d: &Desc) -> Option<Tree> {
    if !d.continuous() {
        return None;
    }
    fn show(d: &Desc, n: usize) -> String {
        if d.nodes[n].term {
            return format!("(T t{})", d.nodes[n].pos);
        }
        let k = d.ordered(n).into_iter().map(|c| show(d, c)).collect::<Vec<_>>();
        format!("(n{} {})", n, k.join(" "))
    }
    PTBFormat::Simple.string_to_tree(&show(d, d.root())).ok()
}

// ---------------------------------------------------------------------------
// projecting real trees
pub fn feats_json(f: Option<&Features>) -> J {
    json::a(f.into_iter().flat_map(|f| {
        f.inner()
            .iter()
            .map(|(k, v)| json::a(vec![json::s(k.clone()), json::opt(v.as_ref().map(|x| x.as_str()))]))
            .collect::<Vec<_>>()
    }))
}

pub fn snapshot(t: &Tree) -> J {
    let g = t.graph();
    json::o(vec![
        ("r", json::n(t.root().index())),
        ("n", json::n(t.n_terminals())),
        ("p", J::B(t.is_projective())),
        (
            "N",
            json::a(g.node_indices().map(|ix| {
                let x = &t[ix];
                let mut skips = x
                    .span()
                    .skips()
                    .map(|q| q.iter().cloned().collect::<Vec<_>>())
                    .unwrap_or_default();
                skips.sort();
                let (form, lemma) = match x.terminal() {
                    Some(q) => (q.form().to_string(), q.lemma()),
                    None => (String::new(), None),
                };
                json::a(vec![
                    json::n(ix.index()),
                    json::s(if x.is_terminal() { "T" } else { "N" }),
                    json::s(x.label()),
                    feats_json(x.features()),
                    json::n(x.span().start),
                    json::n(x.span().end),
                    json::ids(skips),
                    json::s(form),
                    json::opt(lemma),
                ])
            })),
        ),
        (
            "E",
            json::a(g.edge_indices().map(|e| {
                let (a, b) = g.edge_endpoints(e).unwrap();
                edge_json(t, e, a, b)
            })),
        ),
    ])
}
fn edge_json(t: &Tree, e: EdgeIndex, a: NodeIndex, b: NodeIndex) -> J {
    json::a(vec![
        json::n(e.index()),
        json::n(a.index()),
        json::n(b.index()),
        json::n(if t[e].is_primary() { 1 } else { 0 }),
        json::opt(t[e].label()),
    ])
}

/// Structure only, computed from the edges; safe on malformed graphs.
pub fn snapshot_shape(t: &Tree) -> String {
    let g = t.graph();
    let mut kids: HashMap<NodeIndex, Vec<NodeIndex>> = HashMap::new();
    for e in g.edge_indices() {
        if t[e].is_primary() {
            let (a, b) = g.edge_endpoints(e).unwrap();
            kids.entry(a).or_default().push(b);
        }
    }
    fn go(t: &Tree, kids: &HashMap<NodeIndex, Vec<NodeIndex>>, n: NodeIndex, d: usize) -> Option<(usize, String)> {
        if d > 40 {
            return None;
        }
        if let Some(q) = t[n].terminal() {
            return Some((q.span().start, q.span().start.to_string()));
        }
        let mut v = Vec::new();
        for c in kids.get(&n)? {
            v.push(go(t, kids, *c, d + 1)?);
        }
        v.sort();
        let s = v.iter().map(|x| x.1.clone()).collect::<Vec<_>>();
        Some((v[0].0, format!("({})", s.join(" "))))
    }
    go(t, &kids, t.root(), 0).map(|x| x.1).unwrap_or_default()
}
