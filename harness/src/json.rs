//! A small JSON value: reader and writer.
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    B(bool),
    N(i64),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}

pub fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
pub fn n(x: usize) -> J {
    J::N(x as i64)
}
pub fn a<I: IntoIterator<Item = J>>(x: I) -> J {
    J::A(x.into_iter().collect())
}
pub fn ids<I: IntoIterator<Item = usize>>(x: I) -> J {
    J::A(x.into_iter().map(n).collect())
}
pub fn opt(x: Option<&str>) -> J {
    J::A(x.into_iter().map(s).collect())
}
pub fn o(x: Vec<(&str, J)>) -> J {
    J::O(x.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

impl J {
    pub fn get(&self, k: &str) -> &J {
        match self {
            J::O(v) => v
                .iter()
                .find(|(q, _)| q == k)
                .map(|(_, v)| v)
                .unwrap_or_else(|| panic!("no field {} in {}", k, self.text())),
            _ => panic!("not an object: {}", self.text()),
        }
    }
    pub fn has(&self, k: &str) -> bool {
        match self {
            J::O(v) => v.iter().any(|(q, _)| q == k),
            _ => false,
        }
    }
    pub fn at(&self, i: usize) -> &J {
        &self.arr()[i]
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::A(v) => v,
            _ => panic!("not an array"),
        }
    }
    pub fn int(&self) -> i64 {
        match self {
            J::N(i) => *i,
            _ => panic!("not a number: {}", self.text()),
        }
    }
    pub fn us(&self) -> usize {
        self.int() as usize
    }
    pub fn bool(&self) -> bool {
        match self {
            J::B(b) => *b,
            _ => panic!("not a bool"),
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::S(x) => x,
            _ => panic!("not a string: {}", self.text()),
        }
    }
    pub fn opt(&self) -> Option<String> {
        self.arr().get(0).map(|x| x.str().to_string())
    }
    pub fn text(&self) -> String {
        let mut out = String::new();
        self.write(&mut out);
        out
    }
    fn write(&self, out: &mut String) {
        match self {
            J::B(b) => out.push_str(if *b { "true" } else { "false" }),
            J::N(i) => write!(out, "{}", i).unwrap(),
            J::S(x) => {
                out.push('"');
                for c in x.chars() {
                    match c {
                        '"' => out.push_str("\\\""),
                        '\\' => out.push_str("\\\\"),
                        '\n' => out.push_str("\\n"),
                        '\r' => out.push_str("\\r"),
                        '\t' => out.push_str("\\t"),
                        c if (c as u32) < 32 => write!(out, "\\u{:04x}", c as u32).unwrap(),
                        c => out.push(c),
                    }
                }
                out.push('"');
            }
            J::A(v) => {
                out.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',')
                    }
                    x.write(out);
                }
                out.push(']');
            }
            J::O(v) => {
                out.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',')
                    }
                    write!(out, "\"{}\":", k).unwrap();
                    x.write(out);
                }
                out.push('}');
            }
        }
    }
    pub fn parse(text: &str) -> J {
        let cs = text.chars().collect::<Vec<_>>();
        let mut p = 0;
        let v = value(&cs, &mut p);
        ws(&cs, &mut p);
        assert!(p == cs.len(), "trailing JSON");
        v
    }
}

fn ws(c: &[char], p: &mut usize) {
    while *p < c.len() && c[*p].is_whitespace() {
        *p += 1
    }
}
fn value(c: &[char], p: &mut usize) -> J {
    ws(c, p);
    match c[*p] {
        '{' => {
            *p += 1;
            let mut v = Vec::new();
            loop {
                ws(c, p);
                match c[*p] {
                    '}' => {
                        *p += 1;
                        return J::O(v);
                    }
                    ',' => *p += 1,
                    _ => {
                        let k = string(c, p);
                        ws(c, p);
                        assert!(c[*p] == ':');
                        *p += 1;
                        let x = value(c, p);
                        v.push((k, x));
                    }
                }
            }
        }
        '[' => {
            *p += 1;
            let mut v = Vec::new();
            loop {
                ws(c, p);
                match c[*p] {
                    ']' => {
                        *p += 1;
                        return J::A(v);
                    }
                    ',' => *p += 1,
                    _ => v.push(value(c, p)),
                }
            }
        }
        '"' => J::S(string(c, p)),
        't' => {
            *p += 4;
            J::B(true)
        }
        'f' => {
            *p += 5;
            J::B(false)
        }
        _ => {
            let st = *p;
            while *p < c.len() && (c[*p] == '-' || c[*p].is_ascii_digit()) {
                *p += 1
            }
            J::N(c[st..*p].iter().collect::<String>().parse().expect("number"))
        }
    }
}
fn string(c: &[char], p: &mut usize) -> String {
    assert!(c[*p] == '"');
    *p += 1;
    let mut out = String::new();
    loop {
        match c[*p] {
            '"' => {
                *p += 1;
                return out;
            }
            '\\' => {
                *p += 1;
                match c[*p] {
                    'n' => out.push('\n'),
                    'r' => out.push('\r'),
                    't' => out.push('\t'),
                    'b' => out.push('\u{8}'),
                    'f' => out.push('\u{c}'),
                    'u' => {
                        let h: String = c[*p + 1..*p + 5].iter().collect();
                        out.push(std::char::from_u32(u32::from_str_radix(&h, 16).unwrap()).unwrap());
                        *p += 4;
                    }
                    x => out.push(x),
                }
                *p += 1;
            }
            x => {
                out.push(x);
                *p += 1
            }
        }
    }
}
