//! Literals of the code under test, as a dictionary for the generators: a value that the code
//! treats specially is one that it names. It decides only what is generated, never what is right.

use std::collections::BTreeSet;
use std::path::Path;
use std::sync::OnceLock;

#[derive(Default)]
pub struct Dict {
    /// any text
    pub texts: Vec<String>,
    /// texts that can be an unqualified name
    pub names: Vec<String>,
    /// texts that can be a class name
    pub classes: Vec<String>,
    pub ints: Vec<i64>,
    pub floats: Vec<f64>,
}

fn repo() -> &'static str {
    // the tree this harness was built against
    let toml = include_str!("../Cargo.toml");
    toml.lines()
        .find(|l| l.starts_with("coffer = "))
        .and_then(|l| l.split('"').nth(1))
        .unwrap_or("/repo")
}

fn sources(d: &Path, out: &mut Vec<String>) {
    let Ok(es) = std::fs::read_dir(d) else { return };
    let mut es: Vec<_> = es.filter_map(|e| e.ok()).map(|e| e.path()).collect();
    es.sort();
    for p in es {
        if p.is_dir() {
            sources(&p, out);
        } else if p.extension().map_or(false, |x| x == "rs") {
            out.extend(std::fs::read_to_string(&p));
        }
    }
}

/// The literals of a Rust source text.
fn lex(s: &str, texts: &mut BTreeSet<String>, ints: &mut BTreeSet<i64>, floats: &mut BTreeSet<u64>) {
    let c: Vec<char> = s.chars().collect();
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    let escape = |i: &mut usize| -> Option<char> {
        // at the character after the backslash
        let x = at(*i);
        *i += 1;
        Some(match x {
            'n' => '\n',
            't' => '\t',
            'r' => '\r',
            '0' => '\0',
            'x' => {
                let v = at(*i).to_digit(16)? * 16 + at(*i + 1).to_digit(16)?;
                *i += 2;
                char::from_u32(v)?
            }
            'u' => {
                let mut v = 0u32;
                while *i < c.len() && at(*i) != '}' {
                    if let Some(h) = at(*i).to_digit(16) {
                        v = v.wrapping_mul(16).wrapping_add(h);
                    }
                    *i += 1;
                }
                *i += 1;
                char::from_u32(v)?
            }
            x => x,
        })
    };
    let mut i = 0;
    while i < c.len() {
        let x = c[i];
        if x == '/' && at(i + 1) == '/' {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if x == '/' && at(i + 1) == '*' {
            while i < c.len() && !(c[i] == '*' && at(i + 1) == '/') {
                i += 1;
            }
            i += 2;
        } else if x == '"' {
            i += 1;
            let mut t = String::new();
            while i < c.len() && c[i] != '"' {
                if c[i] == '\\' {
                    i += 1;
                    t.extend(escape(&mut i));
                } else {
                    t.push(c[i]);
                    i += 1;
                }
            }
            i += 1;
            texts.insert(t);
        } else if x == '\'' {
            let mut j = i + 1;
            let ch = if at(j) == '\\' {
                j += 1;
                escape(&mut j)
            } else {
                j += 1;
                Some(at(j - 1))
            };
            if at(j) == '\'' {
                if let Some(ch) = ch {
                    texts.insert(ch.to_string());
                    ints.insert(ch as i64);
                }
                i = j + 1;
            } else {
                i += 1; // a lifetime
            }
        } else if x.is_ascii_digit() {
            let mut t = String::new();
            while at(i).is_ascii_alphanumeric() || at(i) == '_' || (at(i) == '.' && at(i + 1).is_ascii_digit()) {
                if at(i) != '_' {
                    t.push(at(i));
                }
                i += 1;
            }
            let (radix, digits) = match t.get(..2) {
                Some("0x") => (16, &t[2..]),
                Some("0b") => (2, &t[2..]),
                Some("0o") => (8, &t[2..]),
                _ => (10, &t[..]),
            };
            if radix == 10 && t.contains('.') {
                if let Ok(f) = t.trim_end_matches("f32").trim_end_matches("f64").parse::<f64>() {
                    floats.insert(f.to_bits());
                }
            } else {
                let end = digits.find(|x: char| !x.is_digit(radix)).unwrap_or(digits.len());
                if let Ok(v) = u64::from_str_radix(&digits[..end], radix) {
                    ints.insert(v as i64);
                }
            }
        } else if x.is_alphabetic() || x == '_' {
            while at(i).is_alphanumeric() || at(i) == '_' {
                i += 1;
            }
        } else {
            i += 1;
        }
    }
}

pub fn get() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let mut all = vec![];
        for d in ["src", "wtf8/src", "coffer_macros/src"] {
            sources(&Path::new(repo()).join(d), &mut all);
        }
        let (mut texts, mut ints, mut floats) = (BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
        for s in &all {
            lex(s, &mut texts, &mut ints, &mut floats);
        }
        texts.retain(|t| t.chars().count() <= 60 && !t.contains(' ') && !t.contains('{'));
        // parts of texts: the class of a descriptor, the segments of a path
        let mut more = vec![];
        for t in &texts {
            let u = t.trim_start_matches('[');
            if let Some(x) = u.strip_prefix('L').and_then(|x| x.strip_suffix(';')) {
                more.push(x.to_string());
            }
            if t.contains('/') {
                more.extend(t.split('/').map(|x| x.to_string()));
            }
        }
        texts.extend(more);
        texts.remove("");
        let free = |t: &str, not: &str| !t.chars().any(|x| not.contains(x));
        let mut d = Dict {
            names: texts.iter().filter(|t| free(t, ".;[/<>:()")).cloned().collect(),
            classes: texts.iter().filter(|t| free(t, ".;[<>:()") && t.split('/').all(|x| !x.is_empty())).cloned().collect(),
            texts: texts.into_iter().collect(),
            ints: vec![],
            floats: floats.into_iter().map(f64::from_bits).collect(),
        };
        let mut near = BTreeSet::new();
        for i in ints {
            near.extend([i, i.wrapping_neg(), i.wrapping_add(1), i.wrapping_sub(1)]);
        }
        d.ints = near.into_iter().collect();
        for v in [&mut d.texts, &mut d.names, &mut d.classes] {
            if v.is_empty() {
                v.push("a".into());
            }
        }
        if d.ints.is_empty() {
            d.ints.push(0);
        }
        if d.floats.is_empty() {
            d.floats.push(0.0);
        }
        d
    })
}

#[cfg(test)]
mod tests {
    #[test]
    fn show() {
        let d = super::get();
        println!("{} texts {} names {} classes {} ints {} floats", d.texts.len(), d.names.len(), d.classes.len(), d.ints.len(), d.floats.len());
        println!("{:?}", d.texts);
        println!("{:?}", d.classes.iter().filter(|x| x.contains('/')).collect::<Vec<_>>());
        println!("{:?}", d.ints);
        println!("{:?}", d.floats);
    }
}
