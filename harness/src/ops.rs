//! One logged event = one call (or a fixed short sequence of calls) of the
//! public API.  `apply` executes the event on a tree and returns what came back.
use crate::desc::{build, feats_json, snapshot};
use crate::json::{self, J};
use conllx::graph::{Node as CNode, Sentence};
use conllx::io::{ReadSentence, WriteSentence};
use conllx::token::{Features as CFeatures, Token};
use lumberjack::io::{
    AbsoluteEncoding, Decode, Encode, NegraWriter, PTBFormat, PTBLineFormat, RelativeEncoding,
    ToConllx, TryFromConllx,
};
use lumberjack::util::{Climber, LabelSet};
use lumberjack::{
    AnnotatePOS, Continuity, Edge, Features, NegraReader, Node, PTBReader, PTBWriter, Projectivize,
    Terminal, Tree, TreeOps, UnaryChains, WriteTree,
};
use petgraph::prelude::{EdgeIndex, NodeIndex};
use std::cmp::Ordering;
use std::collections::{HashMap, HashSet};
use std::convert::TryInto;
use std::io::BufReader;
use std::process::{Command, Stdio};

fn ni(j: &J) -> NodeIndex {
    NodeIndex::new(j.us())
}
fn nodes(j: &J) -> HashSet<NodeIndex> {
    j.arr().iter().map(ni).collect()
}
fn edge(e: &Edge) -> J {
    json::a(vec![json::n(if e.is_primary() { 1 } else { 0 }), json::opt(e.label())])
}
fn er(e: failure::Error) -> String {
    e.to_string()
}
fn ix(n: NodeIndex) -> J {
    json::n(n.index())
}
fn absenc(e: &AbsoluteEncoding) -> J {
    json::a(e.iter().map(|(t, c)| {
        json::a(vec![
            json::opt(t.as_ref().map(|t| t.to_string()).as_ref().map(|x| x.as_str())),
            json::opt(c.as_ref().map(|x| x.as_str())),
        ])
    }))
}
fn relenc(e: &RelativeEncoding) -> J {
    json::a(e.iter().map(|(t, c)| {
        json::a(vec![
            json::opt(t.as_ref().map(|t| t.to_string()).as_ref().map(|x| x.as_str())),
            json::opt(c.as_ref().map(|x| x.as_str())),
        ])
    }))
}
fn mkabs(j: &J) -> Result<AbsoluteEncoding, String> {
    let mut v = Vec::new();
    for q in j.arr() {
        let t = match q.at(0).opt() {
            Some(t) => Some(t.as_str().try_into().map_err(er)?),
            None => None,
        };
        v.push((t, q.at(1).opt()));
    }
    Ok(AbsoluteEncoding::new(v))
}
fn mktoks(j: &J) -> Vec<Terminal> {
    j.arr()
        .iter()
        .enumerate()
        .map(|(i, q)| {
            let mut t = Terminal::new(q.at(0).str(), q.at(1).str(), i);
            t.set_lemma(q.at(2).opt());
            t
        })
        .collect()
}
fn fmt(j: &J) -> PTBFormat {
    match j.str() {
        "ptb" => PTBFormat::PTB,
        "tueba" => PTBFormat::TueBa,
        _ => PTBFormat::Simple,
    }
}
fn results<I: Iterator<Item = Result<Tree, failure::Error>>>(it: I) -> J {
    let mut v = Vec::new();
    for r in it {
        v.push(match r {
            Ok(t) => json::a(vec![json::s("ok"), snapshot(&t)]),
            Err(_) => json::a(vec![json::s("err"), snapshot(&Tree::new("a", "A"))]),
        });
        assert!(v.len() < 10_000, "endless reader");
    }
    json::a(v)
}
fn lines(s: &str) -> J {
    json::a(s.split('\n').map(json::s))
}
fn token(t: &Token) -> J {
    json::a(vec![
        json::s(t.form()),
        json::opt(t.lemma()),
        json::opt(t.pos()),
        json::a(t.features().into_iter().map(|f| {
            // from the written form: conllx' own map cuts values at a second ':'
            json::a(f.as_str().split('|').map(|kv| {
                let mut p = kv.splitn(2, ':');
                let k = p.next().unwrap();
                json::a(vec![json::s(k), json::opt(p.next())])
            }))
        })),
    ])
}
fn tokens(s: &Sentence) -> J {
    json::a(s.iter().filter_map(CNode::token).map(token))
}
fn conll_text(s: &Sentence) -> Result<String, String> {
    let mut w = conllx::io::Writer::new(Vec::new());
    w.write_sentence(s).map_err(er)?;
    Ok(String::from_utf8(w.get_ref().clone()).unwrap())
}

/// Everything that is written for a tree.
fn written(t: &Tree) -> Vec<(&'static str, String)> {
    let bad = || "(rejected)".to_string();
    let mut v = Vec::new();
    for f in &["simple", "ptb", "tueba"] {
        v.push((*f, fmt(&json::s(*f)).tree_to_string(t).unwrap_or_else(|_| bad())));
    }
    let mut buf = Vec::new();
    let ok = NegraWriter::new(&mut buf).write_tree(t).is_ok();
    v.push(("negra", if ok { String::from_utf8(buf).unwrap() } else { bad() }));
    v.push(("conllx", conll_text(&t.to_conllx()).unwrap_or_else(|_| bad())));
    v.push(("absolute", t.encode_absolute().map(|e| absenc(&e).text()).unwrap_or_else(|_| bad())));
    v.push(("relative", t.encode_relative().map(|e| relenc(&e).text()).unwrap_or_else(|_| bad())));
    for k in &["annotate_absolute", "annotate_relative"] {
        let mut c = t.clone();
        let r = if *k == "annotate_absolute" { c.annotate_absolute() } else { c.annotate_relative() };
        v.push((*k, if r.is_ok() { conll_text(&c.to_conllx()).unwrap_or_else(|_| bad()) } else { bad() }));
    }
    let mut c = t.clone();
    let _ = c.collapse_unary_chains("_");
    v.push(("collapsed", conll_text(&c.to_conllx()).unwrap_or_else(|_| bad())));
    v.push(("projective", t.is_projective().to_string()));
    v
}

pub fn cli_path() -> String {
    std::env::var("LJ_CLI").unwrap_or_default()
}

/// A new tree in place of the old one, or a value.
pub fn apply(op: &str, a: &J, t: &mut Tree) -> Result<J, String> {
    let nil = || json::a(vec![]);
    Ok(match op {
        // --- tokens
        "push" => json::a(vec![ix(t.push_terminal(a.get("form").str(), a.get("l").str()).map_err(er)?)]),
        "insterm" => {
            let mut x = Terminal::new(a.get("form").str(), a.get("l").str(), a.get("idx").us());
            x.set_lemma(a.get("m").opt());
            for f in a.get("x").arr() {
                x.features_mut().insert(f.at(0).str(), f.at(1).opt());
            }
            json::a(vec![ix(t.insert_terminal(ni(a.get("p")), x))])
        }
        "move" => {
            t.move_terminal(ni(a.get("n")), a.get("idx").us());
            nil()
        }
        "remove" => {
            let x = t.remove_node(ni(a.get("n"))).map_err(er)?;
            json::a(vec![
                json::s(if x.is_terminal() { "T" } else { "N" }),
                json::s(x.label()),
                json::s(x.terminal().map(|q| q.form()).unwrap_or("")),
                json::a(vec![feats_json(x.features())]),
            ])
        }
        // --- structure
        "above" => json::a(vec![ix(t.insert_unary_above(ni(a.get("n")), a.get("l").str()))]),
        "below" => json::a(vec![ix(t.insert_unary_below(ni(a.get("n")), a.get("l").str()).map_err(er)?)]),
        "reattach" => {
            let (e, old) = t
                .reattach_node(ni(a.get("np")), EdgeIndex::new(a.get("e").us()))
                .map_err(er)?;
            json::a(vec![json::n(e.index()), edge(&old)])
        }
        "addsec" => {
            let e = t.add_secondary_edge(ni(a.get("p")), ni(a.get("c")), a.get("l").opt());
            json::a(vec![json::n(e.index())])
        }
        "rmsec" => json::a(
            t.remove_secondary_edge(EdgeIndex::new(a.get("e").us()))
                .iter()
                .map(edge),
        ),
        // --- direct access to node and edge content
        "setlabel" => json::a(vec![json::s(t[ni(a.get("n"))].set_label(a.get("l").str()))]),
        "setedge" => {
            let e = EdgeIndex::new(a.get("e").us());
            json::a(vec![json::opt(t[e].set_label(a.get("l").opt()).as_ref().map(|x| x.as_str()))])
        }
        "setfeat" => {
            let o = t[ni(a.get("n"))].features_mut().insert(a.get("key").str(), a.get("v").opt());
            json::a(vec![json::opt(o.as_ref().map(|x| x.as_str()))])
        }
        "setform" => {
            let q = t[ni(a.get("n"))].terminal_mut().ok_or_else(|| "not a token".to_string())?;
            json::a(vec![json::s(q.set_form(a.get("f").str()))])
        }
        "setlemma" => {
            let q = t[ni(a.get("n"))].terminal_mut().ok_or_else(|| "not a token".to_string())?;
            json::a(vec![json::opt(q.set_lemma(a.get("m").opt()).as_ref().map(|x| x.as_str()))])
        }
        "putfeats" => {
            let n = ni(a.get("n"));
            let x = a.get("x").arr();
            let new = if a.get("none").bool() {
                None
            } else {
                Some(x.iter().map(|q| (q.at(0).str().to_string(), q.at(1).opt())).collect::<Features>())
            };
            let old = if a.get("direct").bool() {
                match &mut t[n] {
                    Node::Terminal(q) => q.set_features(new),
                    Node::NonTerminal(q) => q.set_features(new),
                }
            } else {
                t[n].set_features(new)
            };
            let show = |f: Option<&Features>| {
                json::a(f.iter().map(|f| {
                    json::a(f.inner().iter().map(|(k, v)| {
                        json::a(vec![json::s(k.clone()), json::opt(v.as_ref().map(|x| x.as_str()))])
                    }))
                }))
            };
            // what was there, and what is there now: features that are present may be empty
            json::a(vec![show(old.as_ref()), show(t[n].features())])
        }
        "reads" => json::a(t.graph().node_indices().map(|n| {
            let x = &t[n];
            let f = |f: Option<&Features>| {
                json::a(f.iter().flat_map(|f| {
                    f.inner().iter().map(|(k, v)| {
                        json::a(vec![json::s(k.clone()), json::opt(v.as_ref().map(|x| x.as_str()))])
                    })
                }))
            };
            let sp = |s: &lumberjack::Span| json::a(s.into_iter().map(json::n));
            let (sub, bare, inner, own) = match (x.terminal(), x.nonterminal()) {
                (Some(q), None) => (q.label(), f(q.features()), sp(q.span()), json::a(vec![json::n(q.idx())])),
                (None, Some(q)) => (q.label(), f(q.features()), sp(q.span()), json::a(vec![])),
                _ => ("neither or both", json::a(vec![]), json::a(vec![]), json::a(vec![])),
            };
            json::a(vec![
                json::n(n.index()),
                J::B(x.is_terminal()),
                json::s(x.label()),
                json::s(sub),
                f(x.features()),
                bare,
                sp(x.span()),
                inner,
                own,
                json::s(x.to_string()),
                json::s(match x {
                    Node::Terminal(q) => q.to_string(),
                    Node::NonTerminal(q) => q.to_string(),
                }),
            ])
        })),
        "readedges" => json::a(t.graph().edge_indices().map(|e| {
            let x = &t[e];
            json::a(vec![json::n(e.index()), J::B(x.is_primary()), json::opt(x.label()), json::s(x.to_string())])
        })),
        // values on their own, not (yet) in a tree
        "make" => {
            let (l, f, at) = (a.get("l").str(), a.get("f").str(), a.get("at").us());
            let node = |x: Node| {
                json::a(vec![
                    J::B(x.is_terminal()),
                    json::s(x.label()),
                    json::opt(x.terminal().map(|q| q.form())),
                    json::opt(x.terminal().and_then(|q| q.lemma())),
                    json::a(x.span().into_iter().map(json::n)),
                    json::n(x.features().map_or(0, |f| f.inner().len())),
                    J::B(x.terminal().is_some() != x.nonterminal().is_some()),
                ])
            };
            let mut new = Terminal::new(f, l, at);
            let first = node(new.clone().into());
            new.set_lemma(Some(l));
            new.features_mut().inner_mut().insert(f.to_string(), None);
            let edge = |e: Edge| json::a(vec![J::B(e.is_primary()), json::opt(e.label()), json::s(e.to_string())]);
            let own = a.get("el").opt();
            let mut small = Tree::new("f", "l");
            let top = small.insert_unary_above(small.root(), l);
            let mut upper: Node = small[top].nonterminal().unwrap().clone().into();
            let lower = node(upper.clone());
            let old = upper.nonterminal_mut().map(|q| q.set_label(f));
            let none = Node::from(new.clone()).nonterminal_mut().is_none() && upper.terminal_mut().is_none();
            json::a(vec![
                first,
                node(new.into()),
                lower,
                node(upper),
                json::opt(old.as_ref().map(|x| x.as_str())),
                J::B(none),
                edge(Edge::new_primary(own.clone())),
                edge(Edge::new_secondary(own.clone())),
            ])
        }
        "labelset" => {
            let set = a.get("labels").arr().iter().map(|x| x.str().to_string()).collect::<HashSet<_>>();
            let set = if a.get("neg").bool() { LabelSet::Negative(set) } else { LabelSet::Positive(set) };
            json::a(a.get("qs").arr().iter().map(|q| J::B(set.matches(q.str()))))
        }
        // --- bulk
        "projectivize" => json::a(t.projectivize().into_iter().map(|v| {
            json::a(v.into_iter().map(|(p, e, c)| {
                json::a(vec![
                    ix(p),
                    json::n(if e.is_primary() { 1 } else { 0 }),
                    json::opt(e.label()),
                    ix(c),
                ])
            }))
        })),
        "collapse" => {
            t.collapse_unary_chains(a.get("d").str()).map_err(er)?;
            nil()
        }
        "restore" => {
            t.restore_unary_chains(a.get("d").str()).map_err(er)?;
            nil()
        }
        "filter" => {
            let keep = nodes(a.get("keep"));
            t.filter_nonterminals(|_, n| keep.contains(&n)).map_err(er)?;
            nil()
        }
        "filterlab" => {
            let set = a.get("labels").arr().iter().map(|x| x.str().to_string()).collect::<HashSet<_>>();
            let set = if a.get("neg").bool() { LabelSet::Negative(set) } else { LabelSet::Positive(set) };
            t.filter_nonterminals(|t, n| set.matches(t[n].label())).map_err(er)?;
            nil()
        }
        "insint" => {
            let sel = a
                .get("sel")
                .arr()
                .iter()
                .map(|q| (ni(q.at(0)), q.at(1).str().to_string()))
                .collect::<HashMap<_, _>>();
            t.insert_intermediate(|_, n| sel.get(&n).cloned()).map_err(er)?;
            nil()
        }
        "insintlab" => {
            let set = a.get("labels").arr().iter().map(|x| x.str().to_string()).collect::<HashSet<_>>();
            let l = a.get("l").str().to_string();
            t.insert_intermediate(|t, n| if set.contains(t[n].label()) { Some(l.clone()) } else { None })
                .map_err(er)?;
            nil()
        }
        "reterm" => {
            let set = nodes(a.get("S"));
            t.reattach_terminals(ni(a.get("att")), |_, n| set.contains(&n));
            nil()
        }
        "remdummy" => {
            t.remove_dummy_nodes().map_err(er)?;
            nil()
        }
        // --- projections
        "annparent" => {
            t.annotate_parent_tag(a.get("key").str()).map_err(er)?;
            nil()
        }
        "projtags" => {
            let set = nodes(a.get("S"));
            t.project_tag_set(a.get("key").str(), |_, n| set.contains(&n));
            nil()
        }
        "projids" => {
            let set = nodes(a.get("S"));
            t.project_ids(a.get("key").str(), |_, n| set.contains(&n));
            nil()
        }
        "projidx" => {
            let set = nodes(a.get("S"));
            json::a(t.project_nt_indices(|_, n| set.contains(&n)).into_iter().map(ix))
        }
        "annpos" => {
            let tags = a.get("tags").arr().iter().map(|x| x.str().to_string()).collect::<Vec<_>>();
            t.annotate_pos(tags).map_err(er)?;
            nil()
        }
        "climb" => {
            let set = nodes(a.get("S"));
            let mut seen = Vec::new();
            t.map_climber_path(|_, n, x| {
                seen.push(json::a(vec![ix(x), ix(n)]));
                set.contains(&n)
            });
            json::a(seen)
        }
        // --- encodings
        "encabs" => absenc(&t.encode_absolute().map_err(er)?),
        "encrel" => relenc(&t.encode_relative().map_err(er)?),
        "encrelabs" => {
            let r = AbsoluteEncoding::try_from_relative(t.encode_relative().map_err(er)?);
            match r.into_result() {
                Ok(e) => json::a(vec![json::s("ok"), absenc(&e)]),
                Err(e) => json::a(vec![json::s("fix"), absenc(&e.fix())]),
            }
        }
        "encabsrel" => {
            let r: RelativeEncoding = t.encode_absolute().map_err(er)?.into();
            relenc(&r)
        }
        "colres" => {
            t.collapse_unary_chains(a.get("d").str()).map_err(er)?;
            t.restore_unary_chains(a.get("d").str()).map_err(er)?;
            nil()
        }
        "annabs" => {
            t.annotate_absolute().map_err(er)?;
            nil()
        }
        "annrel" => {
            t.annotate_relative().map_err(er)?;
            nil()
        }
        "absrel" => {
            let r: RelativeEncoding = mkabs(a.get("enc"))?.into();
            relenc(&r)
        }
        "tag" => {
            let e = mkabs(&json::a(vec![json::a(vec![a.get("t").clone(), json::a(vec![])])]))?;
            let q = e[0].0.clone().unwrap();
            let v = vec![json::s(q.label()), json::n(q.n_common()), json::s(q.to_string())];
            let (n, l) = q.into_parts();
            json::a(v.into_iter().chain(vec![json::s(l), json::n(n)]))
        }
        "relabs" => {
            let r: RelativeEncoding = mkabs(a.get("enc"))?.into();
            let first = AbsoluteEncoding::try_from_relative(r.clone()).unwrap_or_fix();
            match AbsoluteEncoding::try_from_relative(r).into_result() {
                Ok(e) => json::a(vec![json::s("ok"), absenc(&e), absenc(&first)]),
                Err(e) => json::a(vec![json::s("fix"), absenc(&e.fix()), absenc(&first)]),
            }
        }
        "decode" => {
            *t = Tree::decode(mkabs(a.get("enc"))?, mktoks(a.get("toks")));
            nil()
        }
        "cyc" => {
            let terms = {
                let mut v = t.terminals().map(|n| t[n].terminal().unwrap().clone()).collect::<Vec<_>>();
                v.sort_by_key(|x| x.idx());
                v
            };
            t.collapse_unary_chains("_").map_err(er)?;
            match a.get("via").str() {
                "abs" => *t = Tree::decode(t.encode_absolute().map_err(er)?, terms),
                "rel" => {
                    let e = t.encode_relative().map_err(er)?;
                    let e = AbsoluteEncoding::try_from_relative(e).into_result().map_err(|_| "unconvertible".to_string())?;
                    *t = Tree::decode(e, terms)
                }
                "cabs" => {
                    t.annotate_absolute().map_err(er)?;
                    *t = Tree::try_from_conllx_with_absolute_encoding(&t.to_conllx()).map_err(er)?;
                    return Ok(nil());
                }
                _ => {
                    t.annotate_relative().map_err(er)?;
                    *t = Tree::try_from_conllx_with_relative_encoding(&Sentence::from(t.clone())).map_err(er)?;
                    return Ok(nil());
                }
            }
            t.restore_unary_chains("_").map_err(er)?;
            nil()
        }
        "toconll" => {
            let b = t.to_conllx();
            let c: Sentence = t.clone().into();
            let txt = conll_text(&b)?;
            let mut rd = conllx::io::Reader::new(BufReader::new(txt.as_bytes()));
            let back = rd.read_sentence().map_err(er)?;
            json::a(vec![
                tokens(&b),
                tokens(&c),
                lines(&txt),
                json::a(back.iter().map(tokens)),
            ])
        }
        "fromconll" => {
            let mut s = Sentence::new();
            for q in a.get("rows").arr() {
                let mut tok = Token::new(q.at(0).str());
                tok.set_lemma(q.at(1).opt());
                tok.set_pos(q.at(2).opt());
                if let Some(f) = q.at(3).opt() {
                    tok.set_features(Some(CFeatures::from_string(f)));
                }
                s.push(tok);
            }
            *t = if a.get("rel").bool() {
                Tree::try_from_conllx_with_relative_encoding(&s).map_err(er)?
            } else {
                Tree::try_from_conllx_with_absolute_encoding(&s).map_err(er)?
            };
            nil()
        }
        // --- brackets
        "ptbrt" => {
            let f = fmt(a.get("fmt"));
            let text = f.tree_to_string(t).map_err(er)?;
            let mut w = Vec::new();
            PTBWriter::new(&mut w, fmt(a.get("fmt"))).write_tree(t).map_err(er)?;
            let written = String::from_utf8(w).unwrap();
            let back = results(vec![f.string_to_tree(&text)].into_iter());
            let again = match f.string_to_tree(&text) {
                Ok(b) => f.tree_to_string(&b).unwrap_or_default(),
                Err(_) => String::new(),
            };
            json::a(vec![json::s(text), json::s(written), back, json::s(again)])
        }
        "ptbr" => {
            let lf = if a.get("multi").bool() { PTBLineFormat::MultiLine } else { PTBLineFormat::SingleLine };
            let text = a.get("text").str().to_string();
            results(PTBReader::new(BufReader::new(text.as_bytes()), fmt(a.get("fmt")), lf))
        }
        // one bracketing of the given depth, read by a process of its own (a stack overflow ends it)
        "deep" => {
            let exe = std::env::current_exe().map_err(|e| e.to_string())?;
            let out = Command::new(exe)
                .args(&["deep", a.get("kind").str(), &a.get("depth").us().to_string(), &a.get("open").us().to_string()])
                .stdin(Stdio::null())
                .stderr(Stdio::null())
                .output()
                .map_err(|e| e.to_string())?;
            let said = String::from_utf8_lossy(&out.stdout).trim().to_string();
            let v = said.split(' ').map(|x| x.parse::<usize>().unwrap_or(0)).collect::<Vec<_>>();
            if out.status.success() && v.len() == 4 {
                json::a(v.into_iter().map(json::n))
            } else {
                json::a(vec![])
            }
        }
        // --- NEGRA
        "negrart" => {
            let mut snaps = Vec::new();
            let mut oks = Vec::new();
            let mut buf = Vec::new();
            {
                let mut w = NegraWriter::new(&mut buf);
                let mut trees = vec![t.clone()];
                for p in a.get("more").arr() {
                    trees.push(build(p).ok_or("cannot build")?);
                }
                for x in trees {
                    snaps.push(snapshot(&x));
                    oks.push(J::B(w.write_tree(&x).is_ok()));
                }
            }
            let text = String::from_utf8(buf).unwrap();
            let back = results(NegraReader::new(BufReader::new(text.as_bytes())));
            json::a(vec![json::a(snaps), json::a(oks), lines(&text), back])
        }
        "negrar" => {
            let text = a.get("text").str().to_string();
            results(NegraReader::new(BufReader::new(text.as_bytes())))
        }
        // --- equality, spans, navigation, features
        "eq" => {
            let b = build(a.get("other")).ok_or("cannot build")?;
            json::a(vec![
                J::B(*t == b),
                J::B(b == *t),
                J::B(t.clone() == *t),
                snapshot(&b),
            ])
        }
        "spans" => {
            let v = t.graph().node_indices().collect::<Vec<_>>();
            json::o(vec![
                (
                    "per",
                    json::a(v.iter().map(|n| {
                        let s = t[*n].span();
                        json::a(vec![
                            ix(*n),
                            json::a((0..t.n_terminals() + 2).map(|i| J::B(s.contains(i)))),
                            json::n(s.n_indices()),
                            json::ids(vec![s.bounds().0, s.bounds().1]),
                            J::B(t[*n].continuity() == Continuity::Discontinuous),
                            json::ids(s.into_iter()),
                            J::B(s.skips().is_some()),
                        ])
                    })),
                ),
                (
                    "rel",
                    json::a(v.iter().flat_map(|n| {
                        let t = &*t;
                        v.iter()
                            .map(move |m| {
                                let (x, y) = (t[*n].span(), t[*m].span());
                                let c = match x.cmp(y) {
                                    Ordering::Less => 0,
                                    Ordering::Equal => 1,
                                    Ordering::Greater => 2,
                                };
                                let pc = match x.partial_cmp(y) {
                                    Some(Ordering::Less) => 0,
                                    Some(Ordering::Equal) => 1,
                                    Some(Ordering::Greater) => 2,
                                    None => 3,
                                };
                                json::a(vec![
                                    ix(*n),
                                    ix(*m),
                                    J::B(x.covers_span(y)),
                                    json::n(c),
                                    json::n(pc),
                                    J::B(x == y),
                                ])
                            })
                            .collect::<Vec<_>>()
                    })),
                ),
            ])
        }
        "nav" => {
            let v = t.graph().node_indices().collect::<Vec<_>>();
            let pr = |x: Option<(NodeIndex, EdgeIndex)>| json::a(x.into_iter().map(|(n, e)| json::ids(vec![n.index(), e.index()])));
            let ps = |x: Vec<(NodeIndex, EdgeIndex)>| json::a(x.into_iter().map(|(n, e)| json::ids(vec![n.index(), e.index()])));
            let per = v
                .iter()
                .map(|n| {
                    let mut up = Vec::new();
                    let mut c = Climber::new(*n, t);
                    while let Some(x) = c.next(t) {
                        up.push(ix(x));
                        assert!(up.len() < 10_000, "endless climb");
                    }
                    let mut upe = Vec::new();
                    let mut c = Climber::new(*n, t);
                    while let Some((x, e)) = c.next_with_edge(t) {
                        upe.push(json::ids(vec![x.index(), e.index()]));
                        assert!(upe.len() < 10_000, "endless climb");
                    }
                    json::a(vec![
                        ix(*n),
                        pr(t.parent(*n)),
                        pr(t.secondary_parent(*n)),
                        ps(t.children(*n).collect()),
                        ps(t.secondary_children(*n).collect()),
                        ps(t.siblings(*n).collect()),
                        json::a(t.descendent_terminals(*n).map(ix)),
                        json::a(up),
                        json::a(upe),
                    ])
                })
                .collect::<Vec<_>>();
            let sib = v
                .iter()
                .flat_map(|n| {
                    let t = &*t;
                    v.iter().filter(move |m| t.are_siblings(*n, **m)).map(move |m| json::ids(vec![n.index(), m.index()]))
                })
                .collect::<Vec<_>>();
            json::o(vec![
                ("per", json::a(per)),
                ("sib", json::a(sib)),
                ("terms", json::a(t.terminals().map(ix))),
                ("nts", json::a(t.nonterminals().map(ix))),
            ])
        }
        "feats" => {
            let mut f = Features::new();
            json::a(
                a.get("ops")
                    .arr()
                    .iter()
                    .map(|q| {
                        let mut ret: Vec<J> = Vec::new();
                        match q.at(0).str() {
                            "ins" => {
                                let old = f.insert(q.at(1).str(), q.at(2).opt());
                                ret.push(json::opt(old.as_ref().map(|x| x.as_str())));
                            }
                            "get" => {
                                let g = f.get_val(q.at(1).str());
                                ret.extend(g.into_iter().map(json::opt));
                            }
                            "rm" => {
                                let g = f.remove(q.at(1).str());
                                ret.extend(g.iter().map(|x| json::opt(x.as_ref().map(|x| x.as_str()))));
                            }
                            "parse" => f = Features::from(q.at(1).str()),
                            "text" => ret.push(json::opt(Some(&f.to_string()))),
                            "rt" => f = Features::from(f.to_string()),
                            "coll" => {
                                f = q
                                    .at(1)
                                    .arr()
                                    .iter()
                                    .map(|x| (x.at(0).str().to_string(), x.at(1).opt()))
                                    .collect()
                            }
                            x => panic!("unknown {}", x),
                        }
                        json::a(vec![json::a(ret), feats_json(Some(&f))])
                    })
                    .collect::<Vec<_>>(),
            )
        }
        // the same again: on the same tree, on a copy and on an equal tree built otherwise
        "again" => {
            let b = build(a.get("other")).ok_or("cannot build")?;
            let (one, two, three) = (written(t), written(&t.clone()), written(&b));
            let texts = one
                .into_iter()
                .zip(two)
                .zip(three)
                .map(|(((k, x), (_, y)), (_, z))| json::a(vec![json::s(k), json::s(x), json::s(y), json::s(z)]))
                .collect::<Vec<_>>();
            let label = a.get("label").str();
            let mut runs = Vec::new();
            for what in &["projectivize", "ids", "insint", "decode"] {
                // only what differs is written down
                let mut v: Vec<J> = Vec::new();
                for _ in 0..5 {
                    let mut c = t.clone();
                    match *what {
                        "projectivize" => {
                            c.projectivize();
                        }
                        "ids" => c.project_ids("id", |t, n| t[n].label() == label),
                        "insint" => {
                            let _ = c.insert_intermediate(|t, n| Some(format!("I{}", t[n].label())));
                        }
                        _ => {
                            c.projectivize();
                            if let Ok(e) = c.encode_absolute() {
                                let mut ts = c.terminals().collect::<Vec<_>>();
                                ts.sort_by_key(|n| c[*n].span().start);
                                let ts = ts.into_iter().map(|n| c[n].terminal().unwrap().clone()).collect::<Vec<_>>();
                                c = Tree::decode(e, ts);
                            }
                        }
                    }
                    let state = snapshot(&c);
                    if v.iter().all(|x| x.text() != state.text()) {
                        v.push(state);
                    }
                }
                runs.push(json::a(vec![json::s(*what), json::a(v)]));
            }
            json::a(vec![snapshot(&b), json::a(texts), json::a(runs)])
        }
        "cli" => return cli(a),
        "cli2" => return Ok(json::a(vec![cli(a.get("run"))?, cli(a.get("run"))?])),
        x => panic!("unknown op {}", x),
    })
}

/// Run the conversion tool on a scratch directory.
fn cli(a: &J) -> Result<J, String> {
    let dir = std::env::var("LJ_SCRATCH").unwrap();
    let file = |name: &str, text: &str| {
        let p = format!("{}/{}", dir, name);
        std::fs::write(&p, text).unwrap();
        p
    };
    let mut c = Command::new(cli_path());
    let input = file("in.txt", a.get("text").str());
    let stdin = a.get("stdin").bool();
    let defaults = a.get("defaults").bool();
    if !stdin {
        c.arg("--input_file").arg(&input);
    }
    if !defaults || a.get("inf").str() != "tueba" {
        c.arg("--input_format").arg(a.get("inf").str());
    }
    if !defaults || a.get("outf").str() != "simple" {
        c.arg("--output_format").arg(a.get("outf").str());
    }
    let o = a.get("o");
    for (k, flag) in &[
        ("multi", "--multiline_brackets"),
        ("proj", "--projectivize"),
        ("sec", "--sec_edges"),
        ("dummies", "--remove_dummies"),
    ] {
        if o.get(k).bool() {
            c.arg(flag);
        }
    }
    for (k, flag) in &[("parent", "--parent"), ("reattach", "--reattach"), ("inslabel", "--insertion_label"), ("idfeat", "--id_feature")] {
        if let Some(v) = o.get(k).opt() {
            c.arg(flag).arg(v);
        }
    }
    for (k, flag) in &[("filter", "--filter"), ("ids", "--id_set"), ("insset", "--insertion_set")] {
        if let Some(v) = o.get(k).arr().get(0) {
            let words = v.arr().iter().map(|x| x.str().to_string()).collect::<Vec<_>>();
            c.arg(flag).arg(file(k, &words.join(if words.len() % 2 == 0 { "\n" } else { " " })));
        }
    }
    if let Some(v) = o.get("pos").arr().get(0) {
        let mut s = String::new();
        for sent in v.arr() {
            for (i, tag) in sent.arr().iter().enumerate() {
                s += &format!("{}\tx\t_\t_\t{}\t_\t_\t_\t_\t_\n", i + 1, tag.str());
            }
            s += "\n";
        }
        c.arg("--pos").arg(file("pos.conll", &s));
    }
    let to_file = a.get("tofile").bool();
    let outp = format!("{}/out.txt", dir);
    let _ = std::fs::remove_file(&outp);
    if to_file {
        c.arg("--output_file").arg(&outp);
    }
    if stdin {
        c.stdin(std::fs::File::open(&input).unwrap());
    } else {
        c.stdin(Stdio::null());
    }
    c.stdout(Stdio::piped()).stderr(Stdio::null());
    let out = c.output().map_err(|e| e.to_string())?;
    let text = if to_file {
        std::fs::read_to_string(&outp).unwrap_or_default()
    } else {
        String::from_utf8_lossy(&out.stdout).to_string()
    };
    Ok(json::a(vec![J::B(out.status.success()), lines(&text)]))
}


/// `<trees> <errors> <nodes> <depth of the token>` for a bracketing that is `depth` deep, the
/// last `open` brackets of which are missing.
/// For "write" and "eq", a tree of that depth is built node by node; the answer is
/// `<written and read by hand> 0 <nodes> <brackets>` and `<equal> <equal to another> <nodes> 0`.
pub fn deep(kind: &str, depth: usize, open: usize) -> String {
    if kind == "write" || kind == "eq" {
        let mut t = Tree::new("a", "A");
        for _ in 0..depth {
            let root = t.root();
            t.insert_unary_above(root, "S");
        }
        if kind == "write" {
            let s = PTBFormat::Simple.tree_to_string(&t).unwrap_or_default();
            let expected = format!("{}(A a){}", "(S ".repeat(depth), ")".repeat(depth));
            return format!("{} 0 {} {}", (s == expected) as usize, t.graph().node_count(), s.matches('(').count());
        }
        let mut u = t.clone();
        let low = u.terminals().next().unwrap();
        u[low].terminal_mut().unwrap().set_form("b");
        return format!("{} {} {} 0", (t == t.clone()) as usize, (t == u) as usize, t.graph().node_count());
    }
    let format = kind;
    let text = format!("{}(A a){}\n(S (A a))\n", "(S ".repeat(depth), ")".repeat(depth - open));
    let (mut trees, mut errors, mut nodes, mut up) = (0, 0, 0, 0);
    for t in PTBReader::new(BufReader::new(text.as_bytes()), fmt(&json::s(format)), PTBLineFormat::SingleLine) {
        match t {
            Err(_) => errors += 1,
            Ok(t) => {
                trees += 1;
                nodes += t.graph().node_count();
                let first = t.terminals().next().unwrap();
                let mut c = Climber::new(first, &t);
                while c.next(&t).is_some() {
                    up += 1;
                }
            }
        }
    }
    format!("{} {} {} {}", trees, errors, nodes, up)
}
