//! Where to look: numbers, characters and narrow types that /repo's current
//! source mentions more often than it did when the checks were written
//! (`literals.txt`).  They only steer the generation of inputs.
use std::collections::BTreeMap;
use std::path::Path;

#[derive(Default, Debug)]
pub struct Hints {
    pub sizes: Vec<usize>,
    pub chars: Vec<char>,
}

/// Counts of `i<number>`, `c<code point>`, `t<type>`, `n<name>`.
pub fn tokens(src: &str, out: &mut BTreeMap<String, usize>) {
    let s: Vec<char> = src.chars().collect();
    let mut add = |k: String| *out.entry(k).or_insert(0) += 1;
    let mut i = 0;
    // the last number and operator, for `1 << 12` and `64 * 64`
    let mut last: Option<u128> = None;
    let mut op: Option<char> = None;
    while i < s.len() {
        let c = s[i];
        if c == '/' && s.get(i + 1) == Some(&'/') {
            while i < s.len() && s[i] != '\n' {
                i += 1;
            }
            continue;
        }
        if c == '/' && s.get(i + 1) == Some(&'*') {
            i += 2;
            while i + 1 < s.len() && !(s[i] == '*' && s[i + 1] == '/') {
                i += 1;
            }
            i += 2;
            continue;
        }
        if c == '"' {
            i += 1;
            while i < s.len() && s[i] != '"' {
                if s[i] == '\\' {
                    i += 1;
                } else {
                    add(format!("c{}", s[i] as u32));
                }
                i += 1;
            }
            i += 1;
            last = None;
            continue;
        }
        if c == '\'' {
            // a character, or a lifetime
            if s.get(i + 1) == Some(&'\\') {
                let mut j = i + 2;
                let v = match s.get(j) {
                    Some('u') => {
                        let h: String = s[j..].iter().skip(2).take_while(|x| **x != '}').filter(|x| **x != '_').collect();
                        u32::from_str_radix(&h, 16).ok()
                    },
                    Some('x') => {
                        let h: String = s[j..].iter().skip(1).take(2).collect();
                        u32::from_str_radix(&h, 16).ok()
                    },
                    Some('n') => Some(10),
                    Some('t') => Some(9),
                    Some('r') => Some(13),
                    Some('0') => Some(0),
                    Some(x) => Some(*x as u32),
                    None => None,
                };
                if let Some(v) = v {
                    add(format!("c{v}"));
                }
                j += 1;
                while j < s.len() && s[j] != '\'' {
                    j += 1;
                }
                i = j + 1;
                continue;
            }
            if s.get(i + 2) == Some(&'\'') {
                add(format!("c{}", s[i + 1] as u32));
                i += 3;
                continue;
            }
            i += 1;
            continue;
        }
        if c.is_ascii_digit() {
            let mut j = i;
            while j < s.len() && (s[j].is_ascii_alphanumeric() || s[j] == '_') {
                j += 1;
            }
            let t: String = s[i..j].iter().filter(|x| **x != '_').collect();
            i = j;
            let (radix, t) = match t.get(..2) {
                Some("0x") => (16, t[2..].to_string()),
                Some("0b") => (2, t[2..].to_string()),
                Some("0o") => (8, t[2..].to_string()),
                _ => (10, t),
            };
            let d: String = t.chars().take_while(|x| x.is_digit(radix)).collect();
            if let Ok(v) = u128::from_str_radix(&d, radix) {
                add(format!("i{v}"));
                match (last, op) {
                    (Some(a), Some('<')) if v < 64 => add(format!("i{}", a << v)),
                    (Some(a), Some('*')) => add(format!("i{}", a.saturating_mul(v))),
                    _ => {},
                }
                last = Some(v);
                op = None;
            }
            continue;
        }
        if c.is_alphabetic() || c == '_' {
            let mut j = i;
            while j < s.len() && (s[j].is_alphanumeric() || s[j] == '_') {
                j += 1;
            }
            let t: String = s[i..j].iter().collect();
            if matches!(t.as_str(), "u8" | "i8" | "u16" | "i16" | "u32" | "i32") {
                add(format!("t{t}"));
            }
            i = j;
            last = None;
            continue;
        }
        match c {
            '<' | '*' => op = Some(c),
            _ if c.is_whitespace() => {},
            _ => last = None,
        }
        i += 1;
    }
}

fn walk(p: &Path, out: &mut BTreeMap<String, usize>) {
    let Ok(d) = std::fs::read_dir(p) else { return };
    for e in d.flatten() {
        let p = e.path();
        if p.is_dir() {
            walk(&p, out);
        } else if p.extension().map_or(false, |x| x == "rs") {
            if let Ok(t) = std::fs::read_to_string(&p) {
                tokens(&t, out);
            }
        }
    }
}

pub fn counts(p: &Path) -> BTreeMap<String, usize> {
    let mut m = BTreeMap::new();
    walk(p, &mut m);
    m
}

pub fn hints(p: &Path) -> Hints {
    let mut base = BTreeMap::new();
    for l in include_str!("../literals.txt").lines() {
        if let Some((k, n)) = l.split_once(' ') {
            base.insert(k.to_string(), n.parse().unwrap_or(0usize));
        }
    }
    let mut h = Hints::default();
    for (k, n) in counts(p) {
        if n <= base.get(&k).copied().unwrap_or(0) {
            continue;
        }
        let v = &k[1..];
        match &k[..1] {
            "i" => {
                if let Ok(v) = v.parse::<usize>() {
                    if (3..=300_000).contains(&v) {
                        h.sizes.push(v);
                    }
                    if v >= 32 {
                        h.chars.extend(u32::try_from(v).ok().and_then(char::from_u32));
                    }
                }
            },
            "c" => h.chars.extend(v.parse::<u32>().ok().and_then(char::from_u32)),
            "t" => {
                if v.ends_with('8') {
                    h.sizes.extend([127, 128, 255, 256]);
                } else if v.ends_with("16") {
                    h.sizes.extend([256, 1024, 2048, 4096, 32768, 65536]);
                }
            },
            _ => {},
        }
    }
    h.sizes.sort();
    h.sizes.dedup();
    if h.sizes.len() > 40 {
        h.sizes.truncate(40);
    }
    h.chars.truncate(60);
    h
}
