//! Writing descriptions as text in the input formats, independently of the
//! library, with random layout; and damaging texts.
use crate::desc::Desc;
use crate::rng::Rng;
use std::collections::BTreeMap;

/// One bracketed tree as a sequence of tokens "(", ")" and words.
pub fn brackets(d: &Desc, fmt: &str) -> Vec<String> {
    fn label(d: &Desc, n: usize, fmt: &str) -> String {
        let x = &d.nodes[n];
        let ann = x
            .feats
            .iter()
            .find(|(k, _)| k == "node_annotation")
            .and_then(|(_, v)| v.clone())
            .filter(|a| !a.is_empty());
        match fmt {
            "ptb" => match ann {
                Some(a) => format!("{}-{}", x.label, a),
                None => x.label.clone(),
            },
            "tueba" => format!(
                "{}{}:{}",
                x.label,
                ann.map(|a| format!("={}", a)).unwrap_or_default(),
                x.edge.clone().unwrap_or_else(|| "--".into())
            ),
            _ => x.label.clone(),
        }
    }
    fn go(d: &Desc, n: usize, fmt: &str, out: &mut Vec<String>) {
        out.push("(".into());
        out.push(label(d, n, fmt));
        if d.nodes[n].term {
            out.push(d.nodes[n].form.clone());
        } else {
            for c in d.ordered(n) {
                go(d, c, fmt, out)
            }
        }
        out.push(")".into());
    }
    let mut out = Vec::new();
    go(d, d.root(), fmt, &mut out);
    out
}

/// Lay tokens out; `nl`: line breaks are allowed between tokens.
pub fn layout(toks: &[String], r: &mut Rng, nl: bool) -> String {
    let mut s = String::new();
    let loose = r.chance(1, 3);
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            let p = &toks[i - 1];
            let word = |x: &str| x != "(" && x != ")";
            let need = word(p) && word(t);
            // an opening bracket and its label usually touch
            let want = need || (loose && r.chance(1, 4)) || (t == "(" && r.chance(3, 4));
            if want {
                if nl && r.chance(1, 4) {
                    s.push('\n');
                    for _ in 0..r.below(3) {
                        s.push(' ')
                    }
                } else {
                    s.push(' ');
                    if loose && r.chance(1, 6) {
                        s.push(' ')
                    }
                }
            }
        }
        s.push_str(t);
    }
    s
}

pub fn stream(ds: &[Desc], fmt: &str, multi: bool, r: &mut Rng) -> String {
    let mut s = String::new();
    for d in ds {
        if r.chance(1, 6) {
            s.push_str(r.pick(&["% a comment\n", "%(X (Y y))\n", "%\n"]));
        }
        if multi && r.chance(1, 4) {
            s.push('\n')
        }
        s.push_str(&layout(&brackets(d, fmt), r, multi));
        if multi && r.chance(1, 8) {
            s.push('\n')
        }
        s.push('\n');
    }
    if r.chance(1, 10) {
        s.pop();
    }
    if r.chance(1, 12) {
        s = s.replace("\n", "\r\n");
    }
    s
}

/// One NEGRA sentence, line by line.
pub fn negra(d: &Desc, id: usize, r: &mut Rng) -> Vec<String> {
    let root = d.root();
    let mut nts = d.nts().into_iter().filter(|n| *n != root).collect::<Vec<_>>();
    r.shuffle(&mut nts);
    if !r.chance(1, 8) {
        nts.sort_by_key(|n| d.height(*n));
    }
    let mut nums = (1..=nts.len()).map(|i| if r.chance(3, 4) { 499 + i } else { 600 + 7 * i }).collect::<Vec<_>>();
    if r.chance(1, 3) {
        r.shuffle(&mut nums)
    }
    let mut num = BTreeMap::new();
    num.insert(root, 0);
    for (i, x) in nts.iter().enumerate() {
        num.insert(*x, nums[i]);
    }
    let gap = |r: &mut Rng| r.pick(&["\t", " ", "\t\t", "   "]).to_string();
    let dash = |x: &Option<String>| x.clone().unwrap_or_else(|| "--".into());
    let tail = |n: usize, r: &mut Rng| {
        let x = &d.nodes[n];
        let mut s = format!("{}{}{}", dash(&x.edge), gap(r), num[&x.parent.unwrap()]);
        for (p, c, l) in &d.sec {
            if *c == n && num.contains_key(p) {
                s += &format!("{}{}{}{}", gap(r), dash(l), gap(r), num[p]);
            }
        }
        if r.chance(1, 12) {
            s += " %% note 5";
        }
        s
    };
    let idt = if r.chance(1, 10) { format!("0{}", id) } else { id.to_string() };
    let meta = r.pick(&["", "", " 7 1098266456 1 %% x", "  meta"]).to_string();
    let mut out = vec![format!("#BOS {}{}", idt, meta)];
    for x in d.terms() {
        let n = &d.nodes[x];
        let morph = n.feats.iter().find(|(k, _)| k == "morph").and_then(|(_, v)| v.clone());
        let (g1, g2, g3, g4) = (gap(r), gap(r), gap(r), gap(r));
        out.push(format!("{}{}{}{}{}{}{}{}{}", n.form, g1, dash(&n.lemma), g2, n.label, g3, dash(&morph), g4, tail(x, r)));
    }
    for x in &nts {
        let n = &d.nodes[*x];
        let ann = n.feats.iter().find(|(k, _)| k == "node_annotation").and_then(|(_, v)| v.clone());
        let l = match ann {
            Some(a) => format!("{}={}", n.label, a),
            None => n.label.clone(),
        };
        let (g1, g2, g3, g4) = (gap(r), gap(r), gap(r), gap(r));
        out.push(format!("#{}{}--{}{}{}--{}{}", num[x], g1, g2, l, g3, g4, tail(*x, r)));
    }
    out.push(format!("#EOS {}", if r.chance(1, 10) { format!("0{}", id) } else { id.to_string() }));
    out
}

pub fn damage_line(l: &str, r: &mut Rng) -> String {
    let mut w = l.split_whitespace().map(|x| x.to_string()).collect::<Vec<_>>();
    if w.is_empty() {
        return l.to_string();
    }
    let i = r.below(w.len());
    match r.below(6) {
        0 => {
            w.remove(i);
        }
        1 => w[i] = r.pick(&["0", "500", "501", "502", "999", "1", "-1", "x", "--", "5a"]).to_string(),
        2 => {
            let j = r.below(w.len());
            w.swap(i, j)
        }
        3 => w.insert(i, r.pick(&["x", "500", "%%", "--"]).to_string()),
        4 => w.truncate(i),
        _ => w[i] = format!("{}{}", r.pick(&["#", "%", "0", "+"]), w[i]),
    }
    w.join("\t")
}

pub fn damage_lines(ls: &mut Vec<String>, r: &mut Rng) {
    if ls.is_empty() {
        return;
    }
    let i = r.below(ls.len());
    match r.below(9) {
        0 => {
            ls.remove(i);
        }
        1 => {
            let l = ls[i].clone();
            ls.insert(i, l)
        }
        2 => {
            let j = r.below(ls.len());
            ls.swap(i, j)
        }
        3 | 4 | 5 => ls[i] = damage_line(&ls[i], r),
        6 => ls.insert(i, r.pick(&["", "#BOS 3", "#EOS 3", "#500 -- X -- -- 0", "#501 -- X -- HD 500", "%% note", "#FORMAT 4"]).to_string()),
        7 => ls.truncate(i + 1),
        _ => {
            // redirect an edge: the last number of the line
            let mut w = ls[i].split_whitespace().map(|x| x.to_string()).collect::<Vec<_>>();
            if let Some(k) = w.iter().rposition(|x| x.parse::<usize>().is_ok()) {
                w[k] = r.pick(&["0", "500", "501", "502", "503"]).to_string();
            }
            ls[i] = w.join("\t");
        }
    }
}

pub fn damage_chars(s: &str, r: &mut Rng) -> String {
    let mut c = s.chars().collect::<Vec<_>>();
    if c.is_empty() {
        return s.to_string();
    }
    let i = r.below(c.len());
    match r.below(5) {
        0 => {
            c.remove(i);
        }
        1 => c.insert(i, *r.pick(&['(', ')', ' ', 'a', '%', '\n', '-', ':', '='])),
        2 => c[i] = *r.pick(&['(', ')', ' ', 'a', '\n']),
        3 => c.truncate(i),
        _ => {
            // remove a bracket
            let br = (0..c.len()).filter(|k| c[*k] == '(' || c[*k] == ')').collect::<Vec<_>>();
            if !br.is_empty() {
                let k = *r.pick(&br);
                if r.chance(1, 2) {
                    c.remove(k);
                } else {
                    let x = c[k];
                    c.insert(k, x);
                }
            }
        }
    }
    c.into_iter().collect()
}

pub fn is_bracket(f: &str) -> bool {
    f == "simple" || f == "ptb" || f == "tueba"
}
