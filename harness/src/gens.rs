//! Workloads: which cases are run for which property.
use crate::desc::{self, plan, Cfg, Desc, MODES};
use crate::json::{self, J};
use crate::rng::Rng;
use crate::run::{op, Log, Op};
use crate::text;
use lumberjack::Tree;
use petgraph::prelude::{Direction, EdgeIndex, EdgeRef, NodeIndex};
use petgraph::visit::IntoEdgeReferences;
use std::collections::HashMap;

pub struct Gen {
    pub r: Rng,
    pub trees: Vec<Desc>,
    pub hist: Vec<J>,
    pub thorough: bool,
    /// trees drawn so far
    pub drawn: usize,
    pub giant: usize,
}

fn nids(t: &Tree) -> Vec<usize> {
    t.graph().node_indices().map(|n| n.index()).collect()
}
fn is_t(t: &Tree, n: usize) -> bool {
    t[NodeIndex::new(n)].is_terminal()
}
fn nts(t: &Tree) -> Vec<usize> {
    nids(t).into_iter().filter(|n| !is_t(t, *n)).collect()
}
fn ts(t: &Tree) -> Vec<usize> {
    nids(t).into_iter().filter(|n| is_t(t, *n)).collect()
}
fn eids(t: &Tree) -> Vec<usize> {
    t.graph().edge_indices().map(|e| e.index()).collect()
}
fn n_terms(t: &Tree) -> usize {
    ts(t).len()
}
const LAB: [&str; 4] = ["S", "NP", "U", "X"];

// --- single operations -----------------------------------------------------
fn push(r: &mut Rng) -> Op {
    op(
        "push",
        vec![
            ("form", json::s(format!("p{}", r.below(5)))),
            ("l", json::s(*r.pick(&["N", "V"]))),
        ],
    )
}
fn insterm(r: &mut Rng, p: usize, idx: usize) -> Op {
    let m = if r.chance(1, 3) { Some("lem") } else { None };
    let x = if r.chance(1, 3) {
        json::a(vec![json::a(vec![json::s("morph"), json::opt(Some("z"))])])
    } else {
        json::a(vec![])
    };
    op(
        "insterm",
        vec![
            ("p", json::n(p)),
            ("idx", json::n(idx)),
            ("form", json::s(format!("i{}", r.below(5)))),
            ("l", json::s(*r.pick(&["N", "V"]))),
            ("m", json::opt(m)),
            ("x", x),
        ],
    )
}
fn mv(n: usize, idx: usize) -> Op {
    op("move", vec![("n", json::n(n)), ("idx", json::n(idx))])
}
fn remove(n: usize) -> Op {
    op("remove", vec![("n", json::n(n))])
}
fn above(n: usize, l: &str) -> Op {
    op("above", vec![("n", json::n(n)), ("l", json::s(l))])
}
fn below(n: usize, l: &str) -> Op {
    op("below", vec![("n", json::n(n)), ("l", json::s(l))])
}
fn reattach(np: usize, e: usize) -> Op {
    op("reattach", vec![("np", json::n(np)), ("e", json::n(e))])
}
fn addsec(p: usize, c: usize, l: Option<&str>) -> Op {
    op(
        "addsec",
        vec![("p", json::n(p)), ("c", json::n(c)), ("l", json::opt(l))],
    )
}
fn rmsec(e: usize) -> Op {
    op("rmsec", vec![("e", json::n(e))])
}
fn delim(r: &mut Rng) -> Op {
    let d = *r.pick(&["_", "_", "+", "::", "~"]);
    op("collapse", vec![("d", json::s(d))])
}
fn subset(r: &mut Rng, v: &[usize]) -> Vec<usize> {
    let k = r.range(1, 5);
    v.iter().cloned().filter(|_| r.below(6) < k).collect()
}
fn filter(keep: Vec<usize>) -> Op {
    op("filter", vec![("keep", json::ids(keep))])
}
fn insint(r: &mut Rng, sel: Vec<usize>) -> Op {
    op(
        "insint",
        vec![(
            "sel",
            json::a(
                sel.into_iter()
                    .map(|p| json::a(vec![json::n(p), json::s(*r.pick(&["I", "I", "K"]))])),
            ),
        )],
    )
}
fn reterm(att: usize, s: Vec<usize>) -> Op {
    op("reterm", vec![("att", json::n(att)), ("S", json::ids(s))])
}
fn nil(name: &str) -> Op {
    op(name, vec![])
}

pub fn token_ops(t: &Tree, r: &mut Rng) -> Vec<Op> {
    let n = n_terms(t);
    let mut v = vec![push(r)];
    for p in nts(t) {
        for i in 0..=n {
            v.push(insterm(r, p, i));
        }
    }
    for x in ts(t) {
        for i in 0..n {
            v.push(mv(x, i));
        }
        v.push(remove(x));
    }
    v
}
pub fn struct_ops(t: &Tree, r: &mut Rng) -> Vec<Op> {
    let mut v = Vec::new();
    for n in nids(t) {
        v.push(above(n, r.pick(&LAB)));
        v.push(below(n, r.pick(&LAB)));
        v.push(remove(n));
    }
    for e in eids(t) {
        for np in nids(t) {
            v.push(reattach(np, e));
        }
        v.push(rmsec(e));
    }
    v.push(rmsec(eids(t).len() + 3));
    v.push(rmsec(999));
    let all = nids(t);
    for _ in 0..4 {
        let (p, c) = (*r.pick(&all), *r.pick(&all));
        if p != c {
            v.push(addsec(p, c, if r.chance(1, 2) { Some("sx") } else { None }));
        }
    }
    v
}
fn access_ops(t: &Tree, r: &mut Rng) -> Vec<Op> {
    let all = nids(t);
    let mut v = vec![
        op(
            "setlabel",
            vec![("n", json::n(*r.pick(&all))), ("l", json::s("Q"))],
        ),
        op(
            "setfeat",
            vec![
                ("n", json::n(*r.pick(&all))),
                ("key", json::s(*r.pick(&["k", "morph"]))),
                ("v", json::opt(*r.pick(&[None, Some("v")]))),
            ],
        ),
    ];
    let es = eids(t);
    if !es.is_empty() {
        v.push(op(
            "setedge",
            vec![
                ("e", json::n(*r.pick(&es))),
                ("l", json::opt(*r.pick(&[None, Some("EL")]))),
            ],
        ));
    }
    v
}
/// Reading and writing the content of one node or edge.
fn content_op(t: &Tree, r: &mut Rng) -> Op {
    let (all, es) = (nids(t), eids(t));
    let n = *r.pick(&all);
    let lab = *r.pick(&["Q", "", "ä", "a b"]);
    match r.below(8) {
        0 => op("setlabel", vec![("n", json::n(n)), ("l", json::s(lab))]),
        1 | 2 => op("setform", vec![("n", json::n(n)), ("f", json::s(lab))]),
        3 => op(
            "setlemma",
            vec![
                ("n", json::n(n)),
                ("m", json::opt(*r.pick(&[None, Some("le"), Some("")]))),
            ],
        ),
        4 | 5 => {
            let k = r.below(4);
            let x = json::a((0..k).map(|_| {
                json::a(vec![
                    json::s(*r.pick(&["a", "morph", "k", "zz"])),
                    json::opt(*r.pick(&[None, Some("1"), Some("")])),
                ])
            }));
            let (none, direct) = (r.chance(1, 3), r.chance(1, 2));
            op(
                "putfeats",
                vec![
                    ("n", json::n(n)),
                    ("x", x),
                    ("none", J::B(none)),
                    ("direct", J::B(direct)),
                ],
            )
        }
        6 if !es.is_empty() => op(
            "setedge",
            vec![
                ("e", json::n(*r.pick(&es))),
                ("l", json::opt(*r.pick(&[None, Some("EL"), Some("")]))),
            ],
        ),
        _ => op(
            "setfeat",
            vec![
                ("n", json::n(n)),
                ("key", json::s(*r.pick(&["k", "morph", "new"]))),
                ("v", json::opt(*r.pick(&[None, Some("v"), Some("")]))),
            ],
        ),
    }
}
pub fn bulk_op(t: &Tree, r: &mut Rng) -> Op {
    let (n, x, all) = (nts(t), ts(t), nids(t));
    match r.below(11) {
        0 => nil("projectivize"),
        1 => delim(r),
        2 => op("restore", vec![("d", json::s("_"))]),
        3 => filter(subset(r, &n)),
        4 => {
            let s = subset(r, &n);
            insint(r, s)
        }
        5 if !n.is_empty() => {
            let s = subset(r, &x);
            reterm(*r.pick(&n), s)
        }
        6 => nil("remdummy"),
        7 => op(
            "projids",
            vec![("key", json::s("id")), ("S", json::ids(subset(r, &n)))],
        ),
        8 => op(
            "projtags",
            vec![("key", json::s("tag")), ("S", json::ids(subset(r, &n)))],
        ),
        9 => op("annparent", vec![("key", json::s("parent"))]),
        _ => {
            let k = if r.chance(1, 6) { x.len() + 1 } else { x.len() };
            let _ = all;
            op(
                "annpos",
                vec![(
                    "tags",
                    json::a((0..k).map(|i| json::s(format!("P{}", i % 3)))),
                )],
            )
        }
    }
}

/// A node, more often than not one that is easily overlooked: the root, the ends of secondary edges, unary nodes.
fn some(t: &Tree, r: &mut Rng, among: &[usize]) -> usize {
    let g = t.graph();
    let special = match r.below(8) {
        0 => vec![t.root().index()],
        1 | 2 => g
            .edge_references()
            .filter(|e| !e.weight().is_primary())
            .flat_map(|e| vec![e.source().index(), e.target().index()])
            .collect(),
        3 => nts(t)
            .into_iter()
            .filter(|n| {
                g.edges_directed(NodeIndex::new(*n), Direction::Outgoing)
                    .count()
                    == 1
            })
            .collect(),
        _ => Vec::new(),
    };
    let special = special
        .into_iter()
        .filter(|n| among.contains(n))
        .collect::<Vec<_>>();
    *r.pick(if special.is_empty() { among } else { &special })
}
/// A position for a token below `p`, often at the edges of what `p` covers.
fn place(t: &Tree, r: &mut Rng, p: usize) -> usize {
    let n = n_terms(t);
    let (a, z) = t[NodeIndex::new(p)].span().bounds();
    let i = match r.below(8) {
        0 => a,
        1 => z,
        2 => z.saturating_sub(1),
        3 => n,
        4 => n - 1,
        _ => r.range(0, n),
    };
    i.min(n)
}

/// One random edit, mostly permitted ones.
pub fn edit(t: &Tree, r: &mut Rng, bulk: bool, cap: usize) -> Op {
    let (all, n, x, es) = (nids(t), nts(t), ts(t), eids(t));
    if n.is_empty() {
        return above(all[0], r.pick(&LAB));
    }
    if x.len() >= cap && r.chance(2, 3) {
        return remove(some(t, r, &x));
    }
    if all.len() > 2 * cap && r.chance(2, 3) {
        return remove(some(t, r, &n));
    }
    match r.below(if bulk { 21 } else { 18 }) {
        0 => push(r),
        1 | 2 => {
            let p = some(t, r, &n);
            let i = place(t, r, p);
            insterm(r, p, i)
        }
        3 | 4 => mv(*r.pick(&x), r.below(x.len())),
        5 => remove(some(t, r, &x)),
        6 => remove(some(t, r, &n)),
        7 | 8 => above(some(t, r, &all), r.pick(&LAB)),
        9 => below(some(t, r, &n), r.pick(&LAB)),
        10 | 11 | 12 if !es.is_empty() => reattach(some(t, r, &n), *r.pick(&es)),
        13 if !es.is_empty() => reattach(*r.pick(&all), *r.pick(&es)),
        14 | 17 => {
            let (p, c) = (some(t, r, &all), some(t, r, &all));
            if p == c || eids(t).len() > all.len() + 4 {
                rmsec(*es.last().unwrap_or(&0))
            } else {
                addsec(p, c, if r.chance(1, 2) { Some("sx") } else { None })
            }
        }
        15 => rmsec(if es.is_empty() { 0 } else { *r.pick(&es) }),
        16 => {
            let v = access_ops(t, r);
            v[r.below(v.len())].clone()
        }
        _ => bulk_op(t, r),
    }
}

/// At most `k` operations, of each kind about as many.
fn sample(r: &mut Rng, mut v: Vec<Op>, k: usize) -> Vec<Op> {
    if v.len() > k {
        r.shuffle(&mut v);
        let mut kinds: Vec<Vec<Op>> = Vec::new();
        for o in v {
            match kinds.iter_mut().find(|q| q[0].0 == o.0) {
                Some(q) => q.push(o),
                None => kinds.push(vec![o]),
            }
        }
        v = Vec::new();
        while v.len() < k {
            for q in kinds.iter_mut() {
                v.extend(q.pop());
            }
        }
        v.truncate(k);
    }
    v
}

// --- behaviours generated from the specification ------------------------------
/// References name a node by the positions it covers and its depth.
fn resolve(t: &Tree, y: &J) -> Option<usize> {
    let g = t.graph();
    let mut par: HashMap<NodeIndex, NodeIndex> = HashMap::new();
    for e in g.edge_references() {
        if e.weight().is_primary() {
            par.insert(e.target(), e.source());
        }
    }
    let mut cover: HashMap<NodeIndex, Vec<usize>> = HashMap::new();
    let up = |n: NodeIndex| {
        let mut v = vec![n];
        while let Some(p) = par.get(v.last().unwrap()) {
            v.push(*p);
            if v.len() > 100 {
                break;
            }
        }
        v
    };
    for x in g.node_indices().filter(|n| t[*n].is_terminal()) {
        for a in up(x) {
            cover.entry(a).or_default().push(t[x].span().start);
        }
    }
    let want = y.at(0).arr().iter().map(|x| x.us()).collect::<Vec<_>>();
    let depth = y.at(1).us();
    g.node_indices()
        .find(|n| {
            let mut c = cover.get(n).cloned().unwrap_or_default();
            c.sort();
            c == want && up(*n).len() == depth + 1
        })
        .map(|n| n.index())
}
fn concrete(t: &Tree, step: &J) -> Option<Op> {
    let name = step.get("op").str();
    let f = |k: &str| resolve(t, step.get(k));
    let set = |k: &str| -> Option<Vec<usize>> {
        step.get(k).arr().iter().map(|y| resolve(t, y)).collect()
    };
    let pe = |n: usize| t.parent(NodeIndex::new(n)).map(|x| x.1.index());
    let sec = |p: usize, c: usize| {
        t.graph()
            .edges_directed(NodeIndex::new(c), Direction::Incoming)
            .find(|e| !e.weight().is_primary() && e.source().index() == p)
            .map(|e: petgraph::stable_graph::EdgeReference<_>| EdgeIndex::index(e.id()))
    };
    Some(match name {
        "push" => op(
            "push",
            vec![
                ("form", step.get("form").clone()),
                ("l", step.get("l").clone()),
            ],
        ),
        "insterm" => op(
            "insterm",
            vec![
                ("p", json::n(f("p")?)),
                ("idx", step.get("idx").clone()),
                ("form", step.get("form").clone()),
                ("l", step.get("l").clone()),
                ("m", json::a(vec![])),
                ("x", json::a(vec![])),
            ],
        ),
        "move" => mv(f("n")?, step.get("idx").us()),
        "remove" => remove(f("n")?),
        "above" => above(f("n")?, step.get("l").str()),
        "below" => below(f("n")?, step.get("l").str()),
        "reattach" => reattach(f("np")?, pe(f("c")?)?),
        "addsec" => addsec(f("p")?, f("c")?, Some("s")),
        "rmsec" => rmsec(sec(f("p")?, f("c")?)?),
        "reattsec" => reattach(f("np")?, sec(f("p")?, f("c")?)?),
        "filter" => filter(set("keep")?),
        "insint" => op(
            "insint",
            vec![(
                "sel",
                json::a(
                    set("sel")?
                        .into_iter()
                        .map(|p| json::a(vec![json::n(p), json::s("I")])),
                ),
            )],
        ),
        "reterm" => reterm(f("att")?, set("S")?),
        "projectivize" => nil("projectivize"),
        "collapse" => op("collapse", vec![("d", json::s("_"))]),
        "restore" => op("restore", vec![("d", json::s("_"))]),
        _ => return None,
    })
}

impl Gen {
    fn mode(&mut self) -> usize {
        self.r.below(MODES)
    }
    fn plan_of(&mut self, d: &Desc) -> J {
        let (m, s) = (self.mode(), self.r.next());
        plan(d, m, s)
    }
    fn tree(&mut self, c: &Cfg) -> J {
        // now and then a tree well beyond the usual size
        self.drawn += 1;
        let giant = match self.drawn {
            20 => 70,
            50 => self.giant,
            n if n % 500 == 0 && self.giant > 100 => 70,
            _ => 0,
        };
        let d = if giant > 0 && c.max_terms > 4 && c.max_depth > 2 {
            desc::giant(&mut self.r, c, giant)
        } else if c.max_terms >= 6 && c.max_depth >= 5 && self.r.chance(1, 50) {
            desc::comb(&mut self.r, c, 22)
        } else if c.max_terms >= 6 && self.r.chance(1, 30) {
            let deep = self.r.chance(1, 3);
            let c = Cfg {
                min_terms: 12,
                max_terms: if deep { 14 } else { 26 },
                max_depth: if deep { 12 } else { 6 },
                ..c.clone()
            };
            desc::gen(&mut self.r, &c)
        } else {
            desc::gen(&mut self.r, c)
        };
        self.plan_of(&d)
    }
    /// The enumerated trees of the specification, with random content.
    fn small(&mut self, c: &Cfg, max: usize) -> Vec<J> {
        let mut v = self.trees.clone();
        self.r.shuffle(&mut v);
        v.truncate(max);
        v.into_iter()
            .map(|mut d| {
                desc::decorate(&mut d, &mut self.r, c);
                self.plan_of(&d)
            })
            .collect()
    }
    fn seed(&mut self) -> Rng {
        Rng::new(self.r.next())
    }

    /// Histories generated by TLC from the specification.
    fn spec_histories(&mut self, log: &mut Log) {
        let hs = std::mem::replace(&mut self.hist, Vec::new());
        for h in &hs {
            if log.full() {
                break;
            }
            let d = Desc::from_json(h.get("t"));
            let p = self.plan_of(&d);
            let steps = h.get("ops").arr();
            log.chain(&p, |t, i| steps.get(i).and_then(|s| concrete(t, s)));
        }
        self.hist = hs;
    }

    fn histories(&mut self, log: &mut Log, bulk: bool, len: usize, share: usize) {
        let goal = log.events + share;
        while log.events < goal && !log.full() {
            let big = self.r.chance(1, 4);
            let c = Cfg {
                max_terms: if big { 10 } else { 6 },
                wild_sec: true,
                feats: self.r.chance(1, 2),
                ..Cfg::default()
            };
            let p = self.tree(&c);
            let mut r = self.seed();
            let len = 3 + r.below(len);
            let cap = if big { 12 } else { 7 };
            log.chain(&p, |t, i| {
                if i < len {
                    Some(edit(t, &mut r, bulk, cap))
                } else {
                    None
                }
            });
        }
    }

    /// Stars over enumerated, then random, trees until the log is full.
    fn stars<F>(&mut self, log: &mut Log, c: &Cfg, small: usize, mut f: F)
    where
        F: FnMut(&Tree, &mut Rng) -> Vec<Op>,
    {
        for p in self.small(c, small) {
            if log.full() {
                return;
            }
            let mut r = self.seed();
            log.star(&p, |t| f(t, &mut r));
        }
        while !log.full() {
            let p = self.tree(c);
            let mut r = self.seed();
            log.star(&p, |t| {
                let v = f(t, &mut r);
                if n_terms(t) >= 12 {
                    sample(&mut r, v, 10)
                } else {
                    v
                }
            });
        }
    }
    fn chains<F>(&mut self, log: &mut Log, c: &Cfg, small: usize, mut f: F)
    where
        F: FnMut(&Tree, usize, &mut Rng) -> Option<Op>,
    {
        for p in self.small(c, small) {
            if log.full() {
                return;
            }
            let mut r = self.seed();
            log.chain(&p, |t, i| f(t, i, &mut r));
        }
        while !log.full() {
            let p = self.tree(c);
            let mut r = self.seed();
            log.chain(&p, |t, i| f(t, i, &mut r));
        }
    }

    pub fn run(&mut self, prop: &str, log: &mut Log, total: usize) {
        let wild = Cfg {
            wild_sec: true,
            max_terms: 6,
            ..Cfg::default()
        };
        let half = total / 2;
        match prop {
            "C01" | "C02" => {
                self.spec_histories(log);
                if prop == "C02" {
                    let goal = log.events + total / 6;
                    while log.events < goal {
                        self.negra_text(log);
                        self.ptb_text(log);
                    }
                    let goal = log.events + total / 12;
                    while log.events < goal {
                        self.tags(log);
                    }
                }
                self.histories(log, true, 25, half);
                self.stars(log, &wild, 400, |t, r| {
                    let mut v = token_ops(t, r);
                    v.extend(struct_ops(t, r));
                    for _ in 0..8 {
                        v.push(bulk_op(t, r));
                    }
                    sample(r, v, 30)
                });
            }
            "C03" => {
                self.spec_histories(log);
                // trees of one token and of a chain
                for _ in 0..total / 60 {
                    let c = Cfg {
                        max_terms: 1,
                        wild_sec: true,
                        max_depth: self.r.below(4),
                        ..Cfg::default()
                    };
                    let mut d = desc::gen(&mut self.r, &c);
                    if self.r.chance(1, 3) {
                        d = Desc::default();
                        d.nodes.push(desc::DNode {
                            term: true,
                            ..desc::DNode::default()
                        });
                        desc::decorate(&mut d, &mut self.r, &c);
                    }
                    let p = self.plan_of(&d);
                    let mut r = self.seed();
                    log.chain(&p, |t, i| {
                        if i == 6 {
                            return None;
                        }
                        if r.chance(1, 3) {
                            return Some(push(&mut r));
                        }
                        let v = struct_ops(t, &mut r);
                        Some(v[r.below(v.len())].clone())
                    });
                }
                self.histories(log, false, 12, total / 4);
                self.stars(log, &wild, 400, |t, r| {
                    let mut v = struct_ops(t, r);
                    v.push(push(r));
                    sample(r, v, 60)
                });
            }
            "C04" => {
                self.spec_histories(log);
                let c = wild.clone();
                for _ in 0..total / 60 {
                    let p = self.tree(&c);
                    let mut r = self.seed();
                    log.chain(&p, |t, i| {
                        if i >= 15 {
                            return None;
                        }
                        let v = token_ops(t, &mut r);
                        let bad = nts(t).is_empty();
                        if bad || i % 5 == 4 {
                            return Some(edit(t, &mut r, false, 8));
                        }
                        Some(v[r.below(v.len())].clone())
                    });
                }
                self.stars(log, &c, 400, |t, r| {
                    let v = token_ops(t, r);
                    sample(r, v, 40)
                });
            }
            "C05" => {
                self.spec_histories(log);
                self.histories(log, false, 20, total / 3);
                self.stars(log, &wild, 400, |t, r| {
                    let mut v = struct_ops(t, r);
                    v.extend(access_ops(t, r));
                    sample(r, v, 50)
                });
            }
            "C06" => {
                let c = Cfg {
                    max_terms: 9,
                    wild_sec: true,
                    ..Cfg::default()
                };
                self.chains(log, &c, 2000, |t, i, r| match i {
                    0 => Some(nil("projectivize")),
                    1 if r.chance(1, 3) => Some(nil("projectivize")),
                    1 => Some(edit(t, r, false, 12)),
                    2 => Some(edit(t, r, false, 12)),
                    3 => Some(nil("projectivize")),
                    _ => None,
                });
            }
            "C07" => {
                let c = Cfg {
                    unary: true,
                    labels: vec!["S", "NP", "VP", "X", "A-B"],
                    max_terms: 6,
                    ..Cfg::default()
                };
                let mut d = "_".to_string();
                self.chains(log, &c, 1200, move |t, i, r| {
                    if i == 0 {
                        d = r
                            .pick(&[
                                "_", "_", "+", "::", "~", "||", " ", "-|", "ab", "_-_", "\u{e4}+",
                            ])
                            .to_string();
                    }
                    let all = nids(t);
                    match i {
                        0 if r.chance(1, 2) => Some(above(*r.pick(&all), "U1")),
                        1 if r.chance(1, 2) => Some(above(*r.pick(&all), "U2")),
                        0 | 1 | 2 => Some(op("collapse", vec![("d", json::s(d.clone()))])),
                        3 => Some(op("colres", vec![("d", json::s(d.clone()))])),
                        4 => Some(op("restore", vec![("d", json::s(d.clone()))])),
                        5 => Some(op("colres", vec![("d", json::s(d.clone()))])),
                        _ => None,
                    }
                });
            }
            "C08" => {
                let c = Cfg {
                    max_terms: 8,
                    disc: false,
                    ..Cfg::default()
                };
                let dc = Cfg {
                    max_terms: 6,
                    disc: true,
                    ..Cfg::default()
                };
                let mut k = 0;
                let small = self.small(&c, 1500);
                let mut small = small.into_iter();
                while !log.full() {
                    k += 1;
                    let p = match small.next() {
                        Some(p) => p,
                        None => self.tree(if k % 8 == 0 { &dc } else { &c }),
                    };
                    if k % 2 == 0 {
                        log.star(&p, |_| {
                            ["abs", "rel", "cabs", "crel"]
                                .iter()
                                .map(|v| op("cyc", vec![("via", json::s(*v))]))
                                .collect()
                        });
                    } else {
                        let mut r = self.seed();
                        log.chain(&p, |t, i| match i {
                            0 if r.chance(1, 4) => Some(edit(t, &mut r, false, 9)),
                            0 | 1 => Some(op("collapse", vec![("d", json::s("_"))])),
                            2 => Some(nil("encabs")),
                            3 => Some(nil("encrel")),
                            4 => Some(nil("encrelabs")),
                            5 => Some(nil("encabsrel")),
                            6 => Some(nil("annabs")),
                            7 => Some(nil("annrel")),
                            _ => None,
                        });
                    }
                }
            }
            "C09" => {
                let dum = Cfg {
                    labels: vec!["DUMMY", "DUMMY", "X", "S", "DUMMY-NP", "DUMM"],
                    max_terms: 6,
                    ..Cfg::default()
                };
                while !log.full() {
                    for _ in 0..6 {
                        self.tags(log);
                    }
                    let p = self.tree(&dum);
                    log.star(&p, |_| vec![nil("remdummy")]);
                }
            }
            "C10" => {
                let c = Cfg {
                    max_terms: 8,
                    wild_sec: true,
                    ..Cfg::default()
                };
                self.stars(log, &c, 1500, |t, r| {
                    let n = nts(t);
                    let mut v = vec![filter(vec![]), filter(n.clone())];
                    for _ in 0..4 {
                        v.push(filter(subset(r, &n)));
                    }
                    let ls = ["S", "NP", "VP", "X"];
                    let ls = ls
                        .iter()
                        .filter(|_| r.chance(1, 2))
                        .map(|x| json::s(*x))
                        .collect::<Vec<_>>();
                    let neg = r.chance(1, 2);
                    v.push(op(
                        "filterlab",
                        vec![("labels", json::a(ls)), ("neg", J::B(neg))],
                    ));
                    v
                });
            }
            "C11" => {
                let c = Cfg {
                    max_terms: 8,
                    wild_sec: true,
                    ..Cfg::default()
                };
                self.stars(log, &c, 1500, |t, r| {
                    let n = nts(t);
                    let mut v = vec![insint(r, n.clone())];
                    for _ in 0..3 {
                        let s = subset(r, &n);
                        v.push(insint(r, s));
                    }
                    let ls = ["S", "NP", "VP", "X"];
                    let ls = ls
                        .iter()
                        .filter(|_| r.chance(1, 2))
                        .map(|x| json::s(*x))
                        .collect::<Vec<_>>();
                    let l = *r.pick(&["UNK", "NP", "S"]);
                    v.push(op(
                        "insintlab",
                        vec![("labels", json::a(ls)), ("l", json::s(l))],
                    ));
                    v
                });
            }
            "C12" => {
                let c = Cfg {
                    max_terms: 8,
                    wild_sec: true,
                    ..Cfg::default()
                };
                self.stars(log, &c, 1500, |t, r| {
                    let (n, x) = (nts(t), ts(t));
                    if n.is_empty() {
                        return vec![];
                    }
                    let mut v = vec![reterm(*r.pick(&n), x.clone())];
                    for _ in 0..4 {
                        let s = subset(r, &x);
                        v.push(reterm(*r.pick(&n), s));
                    }
                    v.push(reterm(t.root().index(), subset(r, &x)));
                    v
                });
            }
            "C13" => {
                let c = Cfg {
                    max_terms: 7,
                    wild_sec: true,
                    ..Cfg::default()
                };
                self.stars(log, &c, 1000, |t, r| {
                    let (n, x) = (nts(t), ts(t));
                    let mut v = vec![op(
                        "annparent",
                        vec![("key", json::s(*r.pick(&["parent", "morph"])))],
                    )];
                    for _ in 0..2 {
                        let s = subset(r, &n);
                        for o in &["projtags", "projids"] {
                            v.push(op(
                                o,
                                vec![
                                    ("key", json::s(*r.pick(&["id", "k"]))),
                                    ("S", json::ids(s.clone())),
                                ],
                            ));
                        }
                        v.push(op("projidx", vec![("S", json::ids(s.clone()))]));
                        v.push(op("climb", vec![("S", json::ids(s))]));
                    }
                    for k in 0..3 {
                        let m = (x.len() + k).max(1) - 1;
                        v.push(op(
                            "annpos",
                            vec![("tags", json::a((0..m).map(|i| json::s(format!("P{}", i)))))],
                        ));
                    }
                    v
                });
            }
            "C14" => {
                self.deep(log, &["write"]);
                let c = Cfg {
                    max_terms: 7,
                    disc: false,
                    labels: vec!["S", "NP", "-NONE-", "V+P", "ä"],
                    tags: vec!["N", "V", "$,", "-NONE-", "$("],
                    forms: vec![
                        "a", "x(y", ")", "(", "ü-1", "1:2=3", "((", "a((b))", "))(", "(a)(b)",
                        "x)", "-LRB-",
                    ],
                    ..Cfg::default()
                };
                let dc = Cfg {
                    disc: true,
                    ..c.clone()
                };
                let mut k = 0;
                let small = self.small(&c, 800);
                let mut small = small.into_iter();
                while !log.full() {
                    k += 1;
                    let p = match small.next() {
                        Some(p) => p,
                        None => self.tree(if k % 6 == 0 { &dc } else { &c }),
                    };
                    let rt = || {
                        ["simple", "ptb", "tueba"]
                            .iter()
                            .map(|f| op("ptbrt", vec![("fmt", json::s(*f))]))
                            .collect::<Vec<_>>()
                    };
                    let mut r = self.seed();
                    if k % 3 == 0 {
                        // scramble the numbering through edits first
                        let n = 2 + r.below(6);
                        log.chain(&p, |t, i| {
                            if i < n {
                                Some(edit(t, &mut r, false, 9))
                            } else {
                                rt().get(i - n).cloned()
                            }
                        });
                    } else {
                        log.star(&p, |_| rt());
                    }
                }
            }
            "C15" => {
                self.deep(log, &["simple", "ptb", "tueba"]);
                while !log.full() {
                    self.ptb_text(log)
                }
            }
            "C16" => {
                let c = Cfg {
                    max_terms: 7,
                    sec: true,
                    labels: vec!["S", "NP", "VP", "X", "Ein-sehr-langes-Label"],
                    tags: vec!["N", "V", "D", "$,", "ADJA-SEHRLANG-XYZ"],
                    forms: vec![
                        "a", "-", "--x", "ü", "0", "1,5", "(", "%x",
                        "Donaudampfschifffahrtsgesellschaft",
                        "Donaudampfschifffahrtsgesell",
                        "\u{e4}\u{f6}\u{fc}\u{e4}\u{f6}\u{fc}\u{e4}\u{f6}\u{fc}\u{e4}\u{f6}\u{fc}\u{e4}\u{f6}\u{fc}\u{e4}\u{f6}",
                    ],
                    edges: vec!["HD", "SB", "OA", "A:B", "ein-langes-Kantenlabel"],
                    ..Cfg::default()
                };
                let w = Cfg {
                    max_terms: 5,
                    wild_sec: true,
                    ..Cfg::default()
                };
                let mut k = 0;
                let small = self.small(&c, 800);
                let mut small = small.into_iter();
                while !log.full() {
                    k += 1;
                    let p = match small.next() {
                        Some(p) => p,
                        None => self.tree(if k % 6 == 0 { &w } else { &c }),
                    };
                    let n = if self.r.chance(1, 2) {
                        self.r.below(4)
                    } else {
                        0
                    };
                    let more = (0..n).map(|_| self.tree(&c)).collect::<Vec<_>>();
                    let rt = op("negrart", vec![("more", json::a(more))]);
                    let mut r = self.seed();
                    let ann = r.below(4);
                    let ed = if r.chance(1, 3) { 4 } else { 0 };
                    let first =
                        (if ann & 1 == 1 { 1 } else { 0 }) + (if ann & 2 == 2 { 1 } else { 0 });
                    log.chain(&p, |t, i| {
                        let root = t.root().index();
                        if i < ed {
                            return Some(edit(t, &mut r, false, 9));
                        }
                        if i - ed == first {
                            return Some(rt.clone());
                        }
                        match i - ed {
                            0 if ann & 1 == 1 => Some(op(
                                "setfeat",
                                vec![
                                    ("n", json::n(root)),
                                    ("key", json::s("sentence_id")),
                                    ("v", json::opt(Some("17"))),
                                ],
                            )),
                            q if q < first => Some(op(
                                "setfeat",
                                vec![
                                    ("n", json::n(root)),
                                    ("key", json::s("metadata")),
                                    ("v", json::opt(Some("7 109 %% x"))),
                                ],
                            )),
                            _ => None,
                        }
                    });
                }
            }
            "C17" => {
                while !log.full() {
                    self.negra_text(log)
                }
            }
            "C18" => {
                let c = Cfg {
                    max_terms: 6,
                    labels: vec!["S", "NP", "VP", "X", "NONE-S", "NONE"],
                    ..Cfg::default()
                };
                let mut k = 0;
                let small = self.small(&c, 300);
                let mut small = small.into_iter();
                while !log.full() {
                    k += 1;
                    let p = match small.next() {
                        Some(p) => p,
                        None => self.tree(&c),
                    };
                    match k % 4 {
                        0 | 1 => {
                            let mut r = self.seed();
                            let n = r.below(4);
                            log.chain(&p, |t, i| {
                                if i < n {
                                    Some(edit(t, &mut r, true, 9))
                                } else if i == n {
                                    Some(nil("toconll"))
                                } else {
                                    None
                                }
                            })
                        }
                        2 => {
                            // distances to an ancestor of two digits, and now and then of three
                            let p = if k % 20 == 2 {
                                let n = if k % 2000 == 2 { 104 } else { 24 };
                                let d = desc::comb(&mut self.r, &c, n);
                                self.plan_of(&d)
                            } else {
                                p
                            };
                            log.star(&p, |_| {
                                vec![
                                    op("cyc", vec![("via", json::s("cabs"))]),
                                    op("cyc", vec![("via", json::s("crel"))]),
                                ]
                            })
                        }
                        _ => self.rows(log),
                    }
                }
            }
            "C19" => {
                self.deep(log, &["eq"]);
                let c = Cfg {
                    max_terms: 6,
                    sec: false,
                    ..Cfg::default()
                };
                let mut k = 0;
                let small = self.trees.clone();
                while !log.full() {
                    let d = if k < small.len() && k % 2 == 0 {
                        let mut d = small[self.r.below(small.len())].clone();
                        desc::decorate(&mut d, &mut self.r, &c);
                        d
                    } else {
                        desc::gen(&mut self.r, &c)
                    };
                    k += 1;
                    let p = self.plan_of(&d);
                    let mut os = Vec::new();
                    for _ in 0..2 {
                        os.push(self.plan_of(&d));
                    }
                    for _ in 0..5 {
                        let m = self.mutate(&d);
                        os.push(self.plan_of(&m));
                    }
                    if self.r.chance(1, 4) {
                        os.push(self.tree(&c));
                    }
                    log.star(&p, |_| {
                        os.into_iter()
                            .map(|q| op("eq", vec![("other", q)]))
                            .collect()
                    });
                }
            }
            "C25" => {
                let c = Cfg { max_terms: 8, labels: vec!["S", "NP", "VP", "NP"], ..Cfg::default() };
                let small = self.trees.clone();
                let mut k = 0;
                while !log.full() {
                    k += 1;
                    if k % 12 == 0 {
                        let run = self.tool().1;
                        let p = self.trivial();
                        log.star(&p, |_| vec![op("cli2", vec![("run", run)])]);
                        continue;
                    }
                    let d = if k % 4 == 0 && !small.is_empty() {
                        let mut d = small[self.r.below(small.len())].clone();
                        desc::decorate(&mut d, &mut self.r, &c);
                        d
                    } else if k % 200 == 1 {
                        desc::giant(&mut self.r, &c, 40)
                    } else if k % 40 == 1 {
                        desc::comb(&mut self.r, &c, 22)
                    } else {
                        desc::gen(&mut self.r, &c)
                    };
                    let p = self.plan_of(&d);
                    let os = (0..3).map(|_| self.plan_of(&d)).collect::<Vec<_>>();
                    log.star(&p, |_| {
                        os.into_iter().map(|q| op("again", vec![("other", q), ("label", json::s("NP"))])).collect()
                    });
                }
            }
            "C20" => {
                while !log.full() {
                    self.pipeline(log)
                }
            }
            "C21" | "C23" => {
                let q = if prop == "C21" { "spans" } else { "nav" };
                let n = if prop == "C21" { 600 } else { 600 };
                for p in self.small(&wild, n) {
                    log.star(&p, |_| vec![nil(q)]);
                }
                while !log.full() {
                    let c = Cfg {
                        max_terms: if self.r.chance(1, 3) { 12 } else { 6 },
                        wild_sec: true,
                        ..Cfg::default()
                    };
                    let p = self.tree(&c);
                    let mut r = self.seed();
                    let n = r.below(10);
                    log.chain(&p, |t, i| {
                        if i < n && i % 3 != 2 {
                            Some(edit(t, &mut r, true, 9))
                        } else if i <= n {
                            Some(nil(q))
                        } else {
                            None
                        }
                    });
                }
            }
            "C24" => {
                let c = Cfg {
                    feats: true,
                    lemmas: true,
                    wild_sec: true,
                    max_terms: 5,
                    ..Cfg::default()
                };
                self.stars(log, &c, 300, |t, r| {
                    let mut v = vec![nil("reads"), nil("readedges")];
                    let word = |r: &mut Rng| json::s(*r.pick(&["S", "", "a b", "ä", "--", "_", "0"]));
                    v.push(op(
                        "make",
                        vec![
                            ("l", word(r)),
                            ("f", word(r)),
                            ("at", json::n(r.below(9))),
                            ("el", json::opt(*r.pick(&[None, Some("HD"), Some(""), Some("--")]))),
                        ],
                    ));
                    for _ in 0..10 {
                        v.push(content_op(t, r));
                    }
                    let pool = ["S", "NP", "", "N", "ä", "NP-SBJ", "s"];
                    let ls = pool
                        .iter()
                        .filter(|_| r.chance(1, 2))
                        .map(|x| json::s(*x))
                        .collect::<Vec<_>>();
                    let neg = r.chance(1, 2);
                    v.push(op(
                        "labelset",
                        vec![
                            ("labels", json::a(ls)),
                            ("neg", J::B(neg)),
                            ("qs", json::a(pool.iter().map(|x| json::s(*x)))),
                        ],
                    ));
                    v
                });
            }
            "C22" => {
                while !log.full() {
                    self.features(log)
                }
            }
            x => panic!("unknown property {}", x),
        }
    }

    // --- texts ---------------------------------------------------------------
    fn trivial(&mut self) -> J {
        let mut d = Desc::default();
        d.nodes.push(desc::DNode {
            term: true,
            label: "A".into(),
            form: "a".into(),
            ..desc::DNode::default()
        });
        plan(&d, 0, 1)
    }

    /// Trees that are much deeper than wide.
    fn deep(&mut self, log: &mut Log, kinds: &[&str]) {
        let p = self.trivial();
        let ops = [(10, 0), (60, 0), (60, 2), (150, 0), (150, 1), (20000, 0)]
            .iter()
            .enumerate()
            .map(|(i, (d, o))| {
                op(
                    "deep",
                    vec![
                        ("kind", json::s(kinds[i % kinds.len()])),
                        ("depth", json::n(*d)),
                        ("open", json::n(*o)),
                    ],
                )
            })
            .collect::<Vec<_>>();
        log.star(&p, |_| ops);
    }

    fn ptb_text(&mut self, log: &mut Log) {
        let f = *self.r.pick(&["simple", "ptb", "tueba"]);
        let multi = self.r.chance(1, 2);
        let c = Cfg {
            max_terms: 5,
            disc: false,
            max_depth: 4,
            ..Cfg::default()
        };
        let n = self.r.range(1, 4);
        let ds = (0..n)
            .map(|_| desc::gen(&mut self.r, &c))
            .collect::<Vec<_>>();
        let clean = text::stream(&ds, f, multi, &mut self.r);
        let p = self.trivial();
        let mut v = vec![clean.clone()];
        for _ in 0..3 {
            let mut s = clean.clone();
            for _ in 0..self.r.range(1, 2) {
                s = text::damage_chars(&s, &mut self.r);
            }
            v.push(s);
        }
        // read single-line text as multi-line and vice versa
        let other = self.r.chance(1, 4);
        let mut ops = v
            .into_iter()
            .map(|s| {
                op(
                    "ptbr",
                    vec![
                        ("fmt", json::s(f)),
                        ("multi", J::B(multi)),
                        ("text", json::s(s)),
                    ],
                )
            })
            .collect::<Vec<_>>();
        if other {
            ops.push(op(
                "ptbr",
                vec![
                    ("fmt", json::s(f)),
                    ("multi", J::B(!multi)),
                    ("text", json::s(clean)),
                ],
            ));
        }
        log.star(&p, |_| ops);
    }

    fn negra_text(&mut self, log: &mut Log) {
        let c = Cfg {
            max_terms: 5,
            max_depth: 3,
            ..Cfg::default()
        };
        let n = self.r.range(1, 3);
        let mut ls: Vec<String> = Vec::new();
        if self.r.chance(1, 3) {
            ls.push("#FORMAT 4".into());
            ls.push("%% header 1".into());
        }
        let mut k = 0;
        while k < n {
            let d = desc::gen(&mut self.r, &c);
            if d.nodes[d.root()].term {
                continue;
            }
            k += 1;
            ls.extend(text::negra(&d, k, &mut self.r));
            if self.r.chance(1, 3) {
                ls.push(self.r.pick(&["", "%% between", "x y z"]).to_string());
            }
        }
        let mut v = vec![ls.clone()];
        for _ in 0..4 {
            let mut m = ls.clone();
            for _ in 0..self.r.range(1, 2) {
                text::damage_lines(&mut m, &mut self.r);
            }
            v.push(m);
        }
        let p = self.trivial();
        let nl = if self.r.chance(1, 12) { "\r\n" } else { "\n" };
        log.star(&p, |_| {
            v.into_iter()
                .map(|m| op("negrar", vec![("text", json::s(m.join(nl) + nl))]))
                .collect()
        });
    }

    fn tags(&mut self, log: &mut Log) {
        let r = &mut self.r;
        let n = r.range(1, 7);
        let lab = ["S", "NP", "X", "U_S", "A_B_C"];
        let mut ops = Vec::new();
        let toks = json::a((0..n).map(|i| {
            json::a(vec![
                json::s(if r.chance(1, 3) {
                    "w".to_string()
                } else {
                    format!("w{}", i)
                }),
                json::s(*r.pick(&["N", "V"])),
                json::opt(*r.pick(&[None, Some("l")])),
            ])
        }));
        for _ in 0..3 {
            let style = r.below(4);
            let lo = if style == 0 { 0 } else { 1 };
            let enc = json::a((0..n).map(|i| {
                let none = match style {
                    1 => i + 1 == n,
                    2 => i + 1 == n || r.chance(1, 6),
                    3 => false,
                    _ => r.chance(1, 5),
                };
                let mut l = r.pick(&lab).to_string();
                if r.chance(1, 12) {
                    l = desc::odd(r, &l).replace("+", "");
                }
                let t = format!("{}+{}", l, r.range(lo, 5));
                let chain = if r.chance(1, 6) {
                    Some(*r.pick(&["U", "U_V"]))
                } else {
                    None
                };
                json::a(vec![
                    json::opt(if none { None } else { Some(t.as_str()) }),
                    json::opt(chain),
                ])
            }));
            let p = vec![("enc", enc.clone()), ("toks", toks.clone())];
            ops.push(op("decode", p));
            ops.push(op("absrel", vec![("enc", enc.clone())]));
            ops.push(op("relabs", vec![("enc", enc)]));
            let parts = ["S", "NP", "+", "+", "1", "0", "12", "007", "-", "-3", "_", " ", "ä", "٣", "x", ""];
            let t = (0..r.range(0, 4)).map(|_| *r.pick(&parts)).collect::<String>();
            let t = if r.chance(1, 2) { format!("{}+{}{}", r.pick(&lab), r.below(30), t) } else { t };
            ops.push(op("tag", vec![("t", json::opt(Some(t.as_str())))]));
        }
        let p = self.trivial();
        log.star(&p, |_| ops);
        for _ in 0..2 {
            self.rows(log);
        }
        // decode, then remove the placeholders
        let r = &mut self.r;
        let enc = json::a((0..n).map(|i| {
            let l = *r.pick(&["S", "X", "DUMMY", "DUMMY2", "DUMM", "dummy", "XDUMMY"]);
            let t = format!("{}+{}", l, r.range(0, 4));
            json::a(vec![
                json::opt(if i + 1 == n { None } else { Some(t.as_str()) }),
                json::a(vec![]),
            ])
        }));
        let d = op("decode", vec![("enc", enc), ("toks", toks)]);
        log.chain(&p, |_, i| match i {
            0 => Some(d.clone()),
            1 => Some(nil("remdummy")),
            _ => None,
        });
    }

    /// CONLL-X rows carrying tags, good and bad.
    fn rows(&mut self, log: &mut Log) {
        let r = &mut self.r;
        let mut ops = Vec::new();
        for _ in 0..4 {
            let rel = r.chance(1, 2);
            let n = if r.chance(1, 15) { 0 } else { r.range(1, 6) };
            let bad = if n > 0 && r.chance(1, 3) {
                r.below(n)
            } else {
                99
            };
            let key = if rel { "rel_ancestor" } else { "abs_ancestor" };
            let rows = json::a((0..n).map(|i| {
                let off = if rel {
                    r.range(0, 6) as i64 - 3
                } else {
                    r.range(0, 4) as i64
                };
                let mut t = if i + 1 == n && r.chance(3, 4) {
                    "NONE".to_string()
                } else if rel && r.chance(1, 3) {
                    r.pick(&["S", "X"]).to_string()
                } else {
                    let mut l = r.pick(&["S", "NP", "U_S", "NONE-S"]).to_string();
                    if r.chance(1, 8) {
                        l = desc::odd(r, &l);
                    }
                    format!("{}+{}", l, off)
                };
                if r.chance(1, 5) {
                    t = format!("{}~{}", t, r.pick(&["U", "U_V"]));
                }
                let mut f = Some(format!("{}:{}", key, t));
                if i == bad {
                    f = match r.below(7) {
                        0 => None,
                        1 => Some(key.to_string()),
                        2 => Some(format!("other:{}", t)),
                        3 => Some(format!("{}:S+x", key)),
                        4 => Some(format!("{}:+", key)),
                        5 => Some(format!("{}:{}", key, if rel { "S+1.5" } else { "S" })),
                        _ => Some(format!("{}:{}", key, if rel { "+2" } else { "S+-1" })),
                    };
                } else if r.chance(1, 4) {
                    f = f.map(|f| format!("case:nom|{}", f));
                }
                json::a(vec![
                    json::s(format!("w{}", i)),
                    json::opt(*r.pick(&[None, Some("l")])),
                    json::opt(*r.pick(&[Some("N"), Some("V"), None])),
                    json::opt(f.as_ref().map(|x| x.as_str())),
                ])
            }));
            ops.push(op("fromconll", vec![("rel", J::B(rel)), ("rows", rows)]));
        }
        let p = self.trivial();
        log.star(&p, |_| ops);
    }

    /// One difference (or none visible, e.g. two equal siblings swapped).
    fn mutate(&mut self, d: &Desc) -> Desc {
        let mut m = d.clone();
        let i = self.r.below(m.nodes.len());
        let root = m.root();
        let (nt, tm) = (m.nts(), m.terms());
        let r = &mut self.r;
        match r.below(12) {
            0 => m.nodes[i].label.push('2'),
            1 => m.nodes[i].feats.push(("new".into(), Some("1".into()))),
            2 => {
                if m.nodes[i].feats.pop().is_none() {
                    m.nodes[i].feats.push(("q".into(), None))
                }
            }
            3 => {
                let t = *r.pick(&tm);
                m.nodes[t].form.push('x')
            }
            4 => {
                let t = *r.pick(&tm);
                m.nodes[t].lemma = match m.nodes[t].lemma {
                    None => Some("lx".into()),
                    Some(_) => None,
                }
            }
            5 if i != root => {
                m.nodes[i].edge = match m.nodes[i].edge {
                    None => Some("ED".into()),
                    Some(_) => None,
                }
            }
            6 => m.nodes[root].label.push('r'),
            7 if !nt.is_empty() => {
                // re-hang a node that has siblings
                let p = *r.pick(&nt);
                let c = r.below(m.nodes.len());
                let mut up = Some(p);
                let mut cyc = c == root;
                while let Some(x) = up {
                    cyc = cyc || x == c;
                    up = m.nodes[x].parent;
                }
                if !cyc {
                    let old = m.nodes[c].parent.unwrap();
                    if m.kids(old).len() > 1 {
                        m.nodes[c].parent = Some(p);
                    }
                }
            }
            8 if tm.len() > 1 => {
                let (a, b) = (tm[0], tm[tm.len() - 1]);
                let (pa, pb) = (m.nodes[a].pos, m.nodes[b].pos);
                m.nodes[a].pos = pb;
                m.nodes[b].pos = pa;
            }
            9 if !nt.is_empty() => {
                // a unary node above some node
                let x = desc::DNode {
                    label: "S".into(),
                    parent: m.nodes[i].parent,
                    edge: m.nodes[i].edge.clone(),
                    ..desc::DNode::default()
                };
                m.nodes.push(x);
                let n = m.nodes.len() - 1;
                m.nodes[i].parent = Some(n);
                m.nodes[i].edge = None;
            }
            10 if nt.len() > 1 => {
                let (a, b) = (*r.pick(&nt), *r.pick(&nt));
                let (la, lb) = (m.nodes[a].label.clone(), m.nodes[b].label.clone());
                m.nodes[a].label = lb;
                m.nodes[b].label = la;
            }
            _ => {
                if let Some(f) = m.nodes[i].feats.get_mut(0) {
                    f.1 = match f.1 {
                        None => Some("v".into()),
                        Some(_) => None,
                    }
                } else {
                    m.nodes[i].label = "ZZ".into();
                }
            }
        }
        m
    }

    fn features(&mut self, log: &mut Log) {
        let r = &mut self.r;
        let keys = ["a", "b", "ab", "B", "z9", "_"];
        let vals = [None, Some("v"), Some("x:y"), Some("1"), Some(":")];
        let n = r.range(2, 10);
        let ops = json::a((0..n).map(|_| {
            let k = json::s(*r.pick(&keys));
            let v = json::opt(*r.pick(&vals));
            match r.below(9) {
                0 | 1 | 2 => json::a(vec![json::s("ins"), k, v]),
                3 => json::a(vec![json::s("get"), k]),
                4 => json::a(vec![json::s("rm"), k]),
                5 => json::a(vec![json::s("text")]),
                6 => json::a(vec![json::s("rt")]),
                7 => {
                    let m = r.below(6);
                    let mut parts = Vec::new();
                    for _ in 0..m {
                        let k = *r.pick(&keys);
                        parts.push(match r.below(5) {
                            0 => String::new(),
                            1 => k.to_string(),
                            2 => format!("{}:{}", k, r.pick(&["1", "2", "a:b"])),
                            3 => format!("{}:", k),
                            _ => format!("{}:{}", k, r.below(3)),
                        });
                    }
                    json::a(vec![json::s("parse"), json::s(parts.join("|"))])
                }
                _ => {
                    let m = r.below(4);
                    let ps = json::a((0..m).map(|_| {
                        json::a(vec![json::s(*r.pick(&keys)), json::opt(*r.pick(&vals))])
                    }));
                    json::a(vec![json::s("coll"), ps])
                }
            }
        }));
        let p = self.trivial();
        log.star(&p, |_| vec![op("feats", vec![("ops", ops)])]);
    }

    fn pipeline(&mut self, log: &mut Log) {
        let ev = self.tool();
        let p = self.trivial();
        log.star(&p, |_| vec![ev]);
    }
    fn tool(&mut self) -> Op {
        let inf = *self.r.pick(&[
            "negra", "negra", "simple", "ptb", "tueba", "absolute", "relative",
        ]);
        let disc = inf == "negra";
        let big = self.r.chance(1, 6);
        let c = Cfg {
            // (all ways to projectivise a tree are enumerated, hence small discontinuous trees)
            max_terms: if big { 10 } else { 5 },
            disc: disc && !big && self.r.chance(2, 3),
            max_depth: if big { 6 } else { 3 },
            tags: vec![
                "N",
                "V",
                "$,",
                if text::is_bracket(inf) { "$." } else { "$(" },
            ],
            labels: vec!["S", "NP", "VP", "DUMMY"],
            ..Cfg::default()
        };
        let n = self.r.range(1, 3);
        let mut ds = Vec::new();
        while ds.len() < n {
            let d = desc::gen(&mut self.r, &c);
            if d.nodes[d.root()].term && (inf == "negra" || !self.r.chance(1, 3)) {
                continue;
            }
            ds.push(d);
        }
        let r = &mut self.r;
        let multi = r.chance(1, 3);
        let mut txt = match inf {
            "negra" => {
                let mut v = Vec::new();
                for (i, d) in ds.iter().enumerate() {
                    v.extend(text::negra(d, i + 1, r));
                }
                v.join("\n") + "\n"
            }
            "absolute" | "relative" => {
                let mut s = String::new();
                for d in &ds {
                    let m = d.terms().len();
                    for (i, x) in d.terms().into_iter().enumerate() {
                        let t = if i + 1 == m {
                            "NONE".to_string()
                        } else if inf == "absolute" {
                            format!("{}+{}", r.pick(&["S", "NP", "U_S"]), r.range(1, 4))
                        } else if i == 0 || r.chance(1, 3) {
                            r.pick(&["S", "NP"]).to_string()
                        } else {
                            format!(
                                "{}+{}",
                                r.pick(&["S", "NP", "U_S"]),
                                r.range(0, 4) as i64 - 2
                            )
                        };
                        let ch = if r.chance(1, 5) { "~U" } else { "" };
                        let k = if inf == "absolute" { "abs" } else { "rel" };
                        s += &format!(
                            "{}\t{}\t_\tX\t{}\t{}_ancestor:{}{}\t_\t_\t_\t_\n",
                            i + 1,
                            d.nodes[x].form,
                            d.nodes[x].label,
                            k,
                            t,
                            ch
                        );
                    }
                    s += "\n";
                }
                s
            }
            f => text::stream(&ds, f, multi, r),
        };
        if r.chance(1, 15) {
            txt = if inf == "negra" {
                let mut ls = txt.lines().map(|x| x.to_string()).collect::<Vec<_>>();
                text::damage_lines(&mut ls, r);
                ls.join("\n") + "\n"
            } else if inf == "absolute" || inf == "relative" {
                txt
            } else {
                text::damage_chars(&txt, r)
            };
        }
        let outf = *r.pick(&[
            "absolute", "relative", "conllx", "negra", "ptb", "simple", "tueba",
        ]);
        let proj = if disc { r.chance(3, 4) } else { r.chance(1, 4) };
        let p = |r: &mut Rng, k: usize| r.chance(1, k);
        let words = |r: &mut Rng, on: bool| {
            if on {
                let w = ["S", "NP", "VP", "VROOT", "U", "N", "P", "DUMMY", "NPX"]
                    .iter()
                    .filter(|_| r.chance(1, 2))
                    .map(|x| json::s(*x))
                    .collect::<Vec<_>>();
                json::a(vec![json::a(w)])
            } else {
                json::a(vec![])
            }
        };
        let multi_flag = multi || r.chance(1, 6);
        let sec = proj && r.chance(1, 2);
        // (only NEGRA shows the secondary edges)
        let outf = if sec && disc && r.chance(1, 2) { "negra" } else { outf };
        let pos_on = p(r, 4);
        let pos = if pos_on {
            let off = if r.chance(1, 8) { 1 } else { 0 };
            let k = if r.chance(1, 10) {
                ds.len() - 1
            } else {
                ds.len()
            };
            json::a(vec![json::a(ds.iter().take(k).map(|d| {
                json::a(
                    (0..d.terms().len() + off)
                        .map(|i| json::s(format!("{}{}", ["$", "P", "N"][i % 3], i))),
                )
            }))])
        } else {
            json::a(vec![])
        };
        let o = json::o(vec![
            ("multi", J::B(multi_flag)),
            ("proj", J::B(proj)),
            ("sec", J::B(sec)),
            ("dummies", J::B(p(r, 3))),
            (
                "parent",
                if p(r, 4) {
                    json::opt(Some("par"))
                } else {
                    json::a(vec![])
                },
            ),
            (
                "reattach",
                if p(r, 4) {
                    json::opt(Some(*r.pick(&["$", "N", "V"])))
                } else {
                    json::a(vec![])
                },
            ),
            (
                "inslabel",
                if p(r, 2) {
                    // (also a label that the input may hold)
                    json::opt(Some(*r.pick(&["INS", "INS", "NP", "S", "U", "VP"])))
                } else {
                    json::a(vec![])
                },
            ),
            (
                "idfeat",
                if p(r, 3) {
                    json::opt(Some("num"))
                } else {
                    json::a(vec![])
                },
            ),
            ("filter", {
                let b = p(r, 4);
                words(r, b)
            }),
            ("ids", {
                let b = p(r, 4);
                words(r, b)
            }),
            ("insset", {
                let b = p(r, 4);
                words(r, b)
            }),
            ("pos", pos),
        ]);
        op(
            "cli",
            vec![
                ("inf", json::s(inf)),
                ("outf", json::s(outf)),
                ("text", json::s(txt)),
                ("tofile", J::B(r.chance(1, 4))),
                ("stdin", J::B(r.chance(1, 5))),
                ("defaults", J::B(r.chance(1, 2))),
                ("o", o),
            ],
        )
    }
}
