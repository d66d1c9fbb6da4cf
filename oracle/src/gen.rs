//! Case generation.
use crate::real::Set;
use crate::refimpl::*;
use crate::table;
use crate::{Call, Case_};

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.below(v.len())].clone()
    }
}

pub static HINTS: std::sync::OnceLock<crate::mine::Hints> = std::sync::OnceLock::new();

fn hints() -> &'static crate::mine::Hints {
    HINTS.get_or_init(Default::default)
}

const SCHEMES: [SchemeKind; 3] = [SchemeKind::Default, SchemeKind::Path, SchemeKind::History];
const CASES: [Case; 3] = [Case::Sensitive, Case::Insensitive, Case::Smart];

fn alphabet(r: &mut Rng, prop: &str) -> Vec<char> {
    let h = &hints().chars;
    if !h.is_empty() && r.one_in(3) {
        // characters the current source mentions and the original did not
        let mut v = vec!['a', 'b', 'A', ' '];
        for _ in 0..1 + r.below(3) {
            let c = r.pick(h);
            v.extend([c, c]);
            let u = c as u32;
            v.extend(char::from_u32(u + 1).into_iter().chain(char::from_u32(u.saturating_sub(1))));
            v.push(flip(c));
        }
        return v;
    }
    let k = match prop {
        "C16" => 3 + r.below(3),
        "C15" => [1, 1, 2, 4, 6, 7, 8][r.below(7)],
        _ => r.below(10),
    };
    match k {
        8 => {
            // anything
            let mut v = vec!['a', ' '];
            for _ in 0..4 {
                let u = match r.below(6) {
                    0 => 0x80 + r.below(0x780),
                    1 => 0x370 + r.below(0x200),
                    2 => 0x600 + r.below(0x1a00),
                    3 => 0x2000 + r.below(0x300),
                    4 => r.below(0x10000),
                    _ => 0x10000 + r.below(0x100000),
                };
                if let Some(c) = char::from_u32(u as u32) {
                    v.push(c);
                    v.push(flip(c));
                }
            }
            v
        },
        0 => "ab".chars().collect(),
        1 => "aabbAB".chars().collect(),
        2 => "aabbcAB_/ 1,:;|".chars().collect(),
        3 => "abAeEéÀßñÑnoø_ 1".chars().collect(),
        4 => {
            // some letters of the normalisation table, with their images
            let mut v = vec![];
            for _ in 0..4 {
                let (c, a) = table::TABLE[r.below(table::TABLE.len())];
                v.push(char::from_u32(c).unwrap());
                v.push(a);
                v.push(if r.one_in(2) { a.to_ascii_uppercase() } else { a.to_ascii_lowercase() });
            }
            // a character of the table's ranges that is not in the table
            let (lo, hi) = table::RANGES[r.below(3)];
            if let Some(c) = char::from_u32(lo + r.below((hi - lo + 1) as usize) as u32) {
                v.push(c);
            }
            v.push(' ');
            v
        },
        5 => "aÀ\u{bf}\u{c0}\u{36f}\u{370}\u{1cff}\u{1d00}\u{1ef9}\u{1efa}\u{2070}\u{2071}\u{2184}\u{2185}é".chars().collect(),
        6 => "aA一語ß\u{1F600}é\u{3000}\u{a0}\tªǅΩ٣²K".chars().collect(),
        7 => "aZzA@[`{kKsS\u{212a}\u{17f}çÇ".chars().collect(),
        _ => {
            let mut v: Vec<char> = vec![];
            for _ in 0..3 + r.below(4) {
                v.push((32 + r.below(95)) as u8 as char);
            }
            if r.one_in(3) {
                v.push((r.below(32)) as u8 as char);
                v.push('\x7f');
            }
            v
        },
    }
}

fn text(r: &mut Rng, al: &[char], n: usize) -> Vec<char> {
    let mut v: Vec<char> = (0..n).map(|_| al[r.below(al.len())]).collect();
    if r.one_in(6) {
        for _ in 0..r.below(4) {
            v.insert(0, ' ');
        }
    }
    if r.one_in(6) {
        for _ in 0..r.below(4) {
            v.push(' ');
        }
    }
    v
}

fn candidate(r: &mut Rng, prop: &str, al: &[char], big: bool) -> Vec<char> {
    if big && r.one_in(12) {
        // sizes around the scratch buffers' initial ones and beyond
        let base = [63, 64, 65, 127, 128, 129, 130, 200, 255, 256, 257, 511, 513, 1025, 3000][r.below(15)];
        let n = base + r.below(3);
        return text(r, al, n);
    }
    if r.one_in(8) {
        // clusters separated by long gaps
        let mut v = vec![];
        let filler = r.pick(&['x', '.', 'q', ' ', '一', '/']);
        for _ in 0..2 + r.below(3) {
            let k = 1 + r.below(3);
            v.extend(text(r, al, k));
            let g = match r.below(4) {
                0 => r.below(100),
                1 => r.below(50),
                _ if prop == "C13" => r.below(50),
                _ => r.below(12),
            };
            v.extend(std::iter::repeat(filler).take(g));
        }
        let k = r.below(4);
        v.extend(text(r, al, k));
        return v;
    }
    let n = if r.one_in(4) { r.below(30) } else { r.below(9) };
    text(r, al, n)
}

/// A term that has a chance of matching `c`.
fn term(r: &mut Rng, al: &[char], c: &[char], big: bool) -> Vec<char> {
    let mut t: Vec<char> = match r.below(if c.is_empty() { 1 } else { 8 }) {
        0 => {
            let n = 1 + r.below(4);
            text(r, al, n)
        },
        1 | 2 | 3 => {
            // a substring, prefixes and suffixes favoured
            let m = if big && r.one_in(4) { c.len() } else { 1 + r.below(6.min(c.len())) };
            let a = match r.below(3) {
                0 => 0,
                1 => c.len() - m,
                _ => r.below(c.len() - m + 1),
            };
            c[a..a + m].to_vec()
        },
        4 => c.to_vec(),
        5 if c.len() > 8 => {
            // across most of it: few characters, long gaps
            let a = r.below(3);
            let b = c.len() - 1 - r.below(3);
            if r.one_in(3) {
                vec![c[a], c[r.below(c.len())], c[b]]
            } else {
                vec![c[a], c[b]]
            }
        },
        _ => {
            let den = if big && r.one_in(3) { 2 } else { (c.len() / 4).max(2) };
            let v: Vec<char> = c.iter().copied().filter(|_| r.one_in(den)).collect();
            if v.is_empty() {
                vec![c[0]]
            } else {
                v
            }
        },
    };
    if t.len() > 8 && !big && r.one_in(2) {
        t.truncate(8);
    }
    for x in t.iter_mut() {
        match r.below(24) {
            0 => *x = flip(*x),
            1 => *x = table::normalize(*x),
            2 => *x = table::normalize(*x).to_ascii_lowercase(),
            3 => *x = r.pick(al),
            4 => *x = ' ',
            _ => {},
        }
    }
    if r.one_in(8) {
        for x in t.iter_mut() {
            *x = x.to_ascii_lowercase();
        }
    }
    if r.one_in(20) {
        let i = r.below(t.len() + 1);
        t.insert(i, r.pick(&['\\', '$', '^', '!', '\'', '|', 'é']));
    }
    // trimmed-space variants for anchored terms
    if r.one_in(4) {
        let keep = r.below(3);
        let l = lead(&t).saturating_sub(keep);
        t.drain(..l);
    }
    if r.one_in(4) {
        let keep = r.below(3);
        let l = trail(&t).saturating_sub(keep);
        t.truncate(t.len() - l);
    }
    t
}

fn escape(t: &[char], out: &mut String) {
    for &c in t {
        if c == ' ' {
            out.push_str("\\ ");
        } else {
            out.push(c);
        }
    }
}

fn marked(r: &mut Rng, prop: &str, t: &[char], out: &mut String) {
    let (pre, post) = match prop {
        "C01" | "C12" | "C13" => ("", ""),
        "C02" => ("'", ""),
        "C03" => r.pick(&[("^", ""), ("", "$"), ("^", "$")]),
        "C11" => r.pick(&[("", ""), ("'", ""), ("^", ""), ("", "$"), ("^", "$")]),
        _ => r.pick(&[
            ("", ""),
            ("", ""),
            ("", ""),
            ("'", ""),
            ("'", ""),
            ("^", ""),
            ("", "$"),
            ("^", "$"),
            ("!", ""),
            ("!'", ""),
            ("!^", ""),
            ("!", "$"),
            ("!^", "$"),
            ("'", "$"),
        ]),
    };
    out.push_str(pre);
    escape(t, out);
    out.push_str(post);
}

fn query(r: &mut Rng, prop: &str, al: &[char], c: &[char], big: bool) -> (bool, String) {
    let single = matches!(prop, "C01" | "C02" | "C03" | "C11" | "C12" | "C13");
    let ext = match prop {
        "C02" | "C03" | "C04" => true,
        "C05" => !r.one_in(8),
        _ => !r.one_in(6),
    };
    let mut q = String::new();
    if !ext {
        let t = term(r, al, c, big);
        q.extend(t);
        if r.one_in(30) {
            q.clear();
        }
        return (ext, q);
    }
    if prop == "C05" && r.one_in(3) || prop == "C17" && r.one_in(6) {
        // raw syntax soup
        let n = r.below(14);
        for _ in 0..n {
            let x = r.pick(&['a', 'b', ' ', ' ', '\\', '|', '!', '\'', '^', '$', 'é', 'A', '\t']);
            q.push(x);
        }
        return (ext, q);
    }
    let words = if single {
        1
    } else if big && r.one_in(10) {
        30 + r.below(120)
    } else if prop == "C04" {
        r.below(5)
    } else {
        1 + r.below(3)
    };
    for w in 0..words {
        if w > 0 {
            q.push_str(r.pick(&[" ", " ", "  ", " | ", " | ", "  |  ", " | | "]));
        } else if !single && r.one_in(10) {
            q.push_str(r.pick(&[" ", "| ", "  "]));
        }
        let t = if words > 8 && !r.one_in(4) {
            vec![r.pick(al)]
        } else {
            term(r, al, c, big)
        };
        marked(r, prop, &t, &mut q);
        if !single && r.one_in(16) {
            q.push_str(r.pick(&[" '", " !", " ^", " $", " |"]));
        }
    }
    if !single && r.one_in(10) {
        q.push_str(r.pick(&[" ", " |", "  ", "\\"]));
    }
    (ext, q)
}

fn tail_of(r: &mut Rng, v: &mut Vec<char>, al: &[char]) {
    let k = r.below(4);
    for _ in 0..k {
        v.push(r.pick(al));
    }
}

/// A query and a candidate in which something comes to about `n`.
fn sized(r: &mut Rng, prop: &str, al: &[char], n: usize) -> (bool, String, Vec<char>) {
    let single = matches!(prop, "C01" | "C02" | "C03" | "C11" | "C12" | "C13");
    let n = match r.below(10) {
        0..=5 => n + r.below(3),
        6 => 2 * n + r.below(3),
        7 => n / 2 + r.below(3),
        8 => n / [16, 18, 20, 24, 26, 36][r.below(6)] + r.below(3),
        _ => n + r.below(40),
    }
    .saturating_sub(1)
    .max(1);
    let filler = r.pick(&['x', '.', 'q', ' ', '一', '/', 'é']);
    let mut c: Vec<char> = vec![];
    let mut q: Vec<char> = vec![];
    let mut raw: Option<String> = None;
    if n > 4000 && r.one_in(2) && prop != "C01" {
        // a term of n characters and a candidate that is little else: linear, both of them,
        // where the term is not fuzzy or the metric is FzfV1
        let t: Vec<char> = al.iter().copied().filter(|x| !" |!'^$\\".contains(*x)).collect();
        let t = if t.is_empty() { vec!['a', 'b'] } else { t };
        let one = r.one_in(3).then(|| r.pick(&t));
        if r.one_in(2) {
            c.extend(std::iter::repeat(r.pick(&t)).take(r.below(4)));
        }
        for _ in 0..n {
            let x = one.unwrap_or_else(|| t[r.below(t.len())]);
            q.push(x);
            c.push(x);
        }
        if r.one_in(2) {
            c.extend(std::iter::repeat(r.pick(&t)).take(r.below(4)));
        }
        if r.one_in(6) {
            let i = n - 1 - r.below(n.min(8));
            q[i] = r.pick(&t);
        }
        let (a, b) = r.pick(&[("'", ""), ("'", ""), ("^", ""), ("", "$"), ("^", "$"), ("!", ""), ("", "")]);
        if prop == "C12" || (a, b) == ("", "") {
            return (prop != "C12" && r.one_in(2), q.into_iter().collect(), c);
        }
        return (true, format!("{a}{}{b}", q.into_iter().collect::<String>()), c);
    }
    match r.below(if single { 8 } else { 12 }) {
        0 | 1 => {
            // a term of n characters
            if r.one_in(2) {
                tail_of(r, &mut c, al);
            }
            let one = r.one_in(3).then(|| r.pick(al));
            for _ in 0..n {
                let x = one.unwrap_or_else(|| r.pick(al));
                q.push(x);
                c.push(x);
                if r.one_in(200) {
                    c.push(filler);
                }
            }
            if r.one_in(2) {
                tail_of(r, &mut c, al);
            }
            if r.one_in(4) {
                let i = r.below(q.len());
                q[i] = r.pick(al);
            }
        },
        2 => {
            // a match that starts, or ends, around n
            let bg = r.one_in(2).then_some(filler);
            for _ in 0..n {
                c.push(bg.unwrap_or_else(|| al[r.below(al.len())]));
            }
            let k = 1 + r.below(4);
            for _ in 0..k {
                q.push(r.pick(al));
            }
            let at = if r.one_in(2) { c.len() } else { r.below(c.len()) };
            for (i, x) in q.iter().enumerate() {
                if i > 0 && r.one_in(4) {
                    c.push(filler);
                }
                if at + i < c.len() {
                    c[at + i] = *x;
                } else {
                    c.push(*x);
                }
            }
            if r.one_in(3) {
                let k = r.below(2 * n.min(50) + 1);
                c.extend(std::iter::repeat(filler).take(k));
            }
        },
        3 => {
            // a gap of n
            for part in 0..2 + r.below(2) {
                if part > 0 {
                    let g = if r.one_in(3) { r.below(6) } else { n };
                    c.extend(std::iter::repeat(filler).take(g));
                }
                for _ in 0..1 + r.below(4) {
                    let x = r.pick(al);
                    c.push(x);
                    if !r.one_in(4) {
                        q.push(x);
                    }
                }
            }
        },
        4 => {
            // n matched characters, none adjacent
            for _ in 0..n {
                let x = r.pick(al);
                q.push(x);
                c.push(x);
                c.push(filler);
            }
        },
        5 => {
            // n spaces around
            let (a, b) = (r.one_in(2), r.one_in(2));
            let k = 1 + r.below(3);
            let mid = text(r, al, k);
            if a || !b {
                c.extend(std::iter::repeat(' ').take(n));
            }
            c.extend(&mid);
            if b {
                c.extend(std::iter::repeat(' ').take(n));
            }
            let l = if r.one_in(2) { 0 } else { (n + 1).saturating_sub(r.below(3)) };
            if a {
                q.extend(std::iter::repeat(' ').take(l));
            }
            q.extend(&mid);
            if b {
                q.extend(std::iter::repeat(' ').take(l));
            }
        },
        6 => {
            // n bytes
            let mut k = 0;
            while k < n {
                let x = al[r.below(al.len())];
                k += x.len_utf8();
                c.push(x);
            }
            let big = r.one_in(2);
            q = term(r, al, &c, big);
        },
        7 => {
            c = text(r, al, n);
            q = term(r, al, &c, true);
        },
        8 | 9 => {
            // n words
            let mut s = String::new();
            let bars = r.pick(&[0usize, 2, 5, 40]);
            let one = r.one_in(2).then(|| r.pick(al));
            let t: Vec<char> = al.iter().copied().filter(|x| !" |!'^$\\".contains(*x)).collect();
            if t.is_empty() {
                s.push('a');
            } else {
                for w in 0..n.min(140_000) {
                    if w > 0 {
                        s.push(' ');
                        if bars > 0 && r.one_in(bars) {
                            s.push_str("| ");
                        }
                    }
                    let x = one.filter(|x| t.contains(x)).unwrap_or_else(|| r.pick(&t));
                    s.push(x);
                }
            }
            c = al.to_vec();
            if r.one_in(3) {
                let k = r.below(12);
                c.extend(text(r, al, k));
            }
            if r.one_in(3) {
                s.push_str(r.pick(&["", " ", " |", " b", " | b", "b"]));
            }
            raw = Some(s);
        },
        10 => {
            // n alternatives, of which the last one matches
            let mut s = String::new();
            for _ in 0..n.min(140_000) {
                s.push_str("zq | ");
            }
            s.push('a');
            c = al.to_vec();
            c.push('a');
            raw = Some(s);
        },
        _ => {
            // a word of n characters, escapes included
            let mut s = String::new();
            for _ in 0..n {
                let x = r.pick(al);
                if x == ' ' || r.one_in(9) {
                    s.push_str("\\ ");
                    c.push(' ');
                } else {
                    s.push(x);
                    c.push(x);
                }
            }
            raw = Some(s);
        },
    }
    // keep the product affordable
    while q.len() > 1 && q.len() * c.len() > 18_000_000 {
        q.truncate(q.len() / 2);
    }
    if q.is_empty() {
        q.push('a');
    }
    if let Some(s) = raw {
        return (true, s, c);
    }
    if !matches!(prop, "C02" | "C03" | "C04") && r.one_in(3) {
        return (false, q.into_iter().collect(), c);
    }
    let mut s = String::new();
    marked(r, prop, &q, &mut s);
    if !single && r.one_in(6) {
        s.push_str(r.pick(&[" ", " | "]));
        let k = term(r, al, &c, false);
        marked(r, prop, &k, &mut s);
    }
    (true, s, c)
}

const SIZES: [usize; 12] = [64, 100, 128, 200, 256, 400, 512, 1024, 2000, 2048, 4096, 65536];

pub fn call(r: &mut Rng, prop: &str, big: bool) -> Call {
    call_(r, prop, big, false)
}

fn call_(r: &mut Rng, prop: &str, big: bool, huge: bool) -> Call {
    let al = alphabet(r, prop);
    let h = &hints().sizes;
    let n = if !h.is_empty() && r.one_in(4) {
        let n = r.pick(h);
        // rarely the expensive ones
        (n <= 400 || r.one_in(1 + n / 200)).then_some(n)
    } else if huge {
        let n = r.pick(&SIZES);
        (n <= 400 || r.one_in(1 + n / 400)).then_some(n)
    } else {
        None
    };
    let mut ranges = 0;
    let (ext, q, c) = match n {
        Some(n) => {
            if r.one_in(12) && (n <= 3000 || r.one_in(4)) {
                ranges = n + r.below(6);
            }
            if ranges > 0 && r.one_in(2) {
                let c = candidate(r, prop, &al, false);
                let (ext, q) = query(r, prop, &al, &c, false);
                (ext, q, c)
            } else {
                sized(r, prop, &al, n)
            }
        },
        None => {
            let c = candidate(r, prop, &al, big);
            let qal = if r.one_in(8) { alphabet(r, prop) } else { al.clone() };
            let (ext, q) = query(r, prop, &qal, &c, big);
            (ext, q, c)
        },
    };
    let mut sets = vec![];
    if !(prop == "C19" && r.one_in(3)) {
        for _ in 0..r.below(4) {
            sets.push(match r.below(3) {
                0 => Set::Scheme(r.pick(&SCHEMES)),
                1 => Set::Case(r.pick(&CASES)),
                _ => Set::Norm(if prop == "C16" { !r.one_in(3) } else { r.one_in(2) }),
            });
        }
        if prop == "C16" && r.one_in(2) {
            sets.push(Set::Norm(true));
        }
    }
    let mut prefill = vec![];
    if r.one_in(4) {
        for _ in 0..r.below(4) {
            let a = r.below(10);
            prefill.push(a..a + r.below(6));
        }
    }
    for i in 0..ranges {
        prefill.push(i..i + 1);
    }
    Call { sets, ext, q, c: c.into_iter().collect(), prefill }
}

/// FzfV2 needs memory, and the reference time, for the product of the lengths.
fn affordable(k: &mut Call, algo: Algo, prop: &str) {
    let cap = if algo == Algo::V1 && prop != "C01" { 200_000_000 } else { 12_000_000 };
    let cut = |s: &mut String, n: usize| {
        if let Some((i, _)) = s.char_indices().nth(n) {
            s.truncate(i);
        }
    };
    let (q, c) = (k.q.chars().count(), k.c.chars().count());
    let marked = k.ext && (k.q.starts_with(['\'', '^', '!']) || k.q.ends_with('$')) && !k.q.contains(' ');
    if (marked || algo == Algo::V1) && c <= q + 16 && q < 300_000 {
        return;
    }
    if q * c > cap {
        let side = (cap as f64).sqrt() as usize;
        if q > side {
            cut(&mut k.q, side.max(cap / c.max(1)));
        }
        let q = k.q.chars().count().max(1);
        cut(&mut k.c, cap / q);
    }
}

pub fn case(r: &mut Rng, prop: &str) -> Case_ {
    if prop == "C20" {
        return crate::cost::case(r);
    }
    let algo = match prop {
        "C12" => Algo::V1,
        "C13" => Algo::V2,
        _ => {
            if r.one_in(2) {
                Algo::V1
            } else {
                Algo::V2
            }
        },
    };
    let n = match prop {
        "C06" | "C10" => 2 + r.below(4),
        "C14" => 2 + r.below(3),
        _ => {
            if r.one_in(3) {
                2 + r.below(3)
            } else {
                1
            }
        },
    };
    let bigp = match prop {
        "C06" | "C10" | "C17" => 4,
        _ => 10,
    };
    let mut calls = vec![];
    let h = &hints().sizes;
    if !h.is_empty() && r.one_in(12) && prop != "C14" {
        // as many calls as some number the source mentions
        let k = (r.pick(h) + r.below(3)).min(600);
        let al = alphabet(r, prop);
        for _ in 0..k {
            let c = candidate(r, prop, &al, false);
            let (ext, q) = query(r, prop, &al, &c, false);
            calls.push(Call { sets: vec![], ext, q, c: c.into_iter().collect(), prefill: vec![] });
        }
        return Case_ { algo, calls };
    }
    let huge = r.one_in(400);
    for _ in 0..n {
        let big = r.one_in(bigp);
        let mut k = call_(r, prop, big, huge);
        affordable(&mut k, algo, prop);
        calls.push(k);
    }
    if calls.len() > 1 && r.one_in(6) {
        // the same again, something else in between
        let k = calls[0].clone();
        calls.push(Call { sets: vec![], ..k });
    }
    if prop == "C14" {
        // the distances of one query over several candidates
        let q = calls[0].q.clone();
        let ext = calls[0].ext;
        for c in calls.iter_mut() {
            c.q = q.clone();
            c.ext = ext;
        }
    }
    Case_ { algo, calls }
}

/// Exhaustive small scope: all queries and candidates over a tiny alphabet.
pub struct Small {
    pub al: Vec<char>,
    pub qmax: usize,
    pub cmax: usize,
}

pub fn nth_string(al: &[char], mut n: u64) -> Option<Vec<char>> {
    // 0 -> "", 1..=k -> length 1, ...
    let k = al.len() as u64;
    let mut len = 0;
    let mut block = 1u64;
    while n >= block {
        n -= block;
        block = block.checked_mul(k)?;
        len += 1;
    }
    let mut v = vec![];
    for _ in 0..len {
        v.push(al[(n % k) as usize]);
        n /= k;
    }
    Some(v)
}

pub fn count_strings(k: u64, max: u32) -> u64 {
    (0..=max).map(|l| k.pow(l)).sum()
}

fn flip(c: char) -> char {
    if c.is_ascii_lowercase() {
        c.to_ascii_uppercase()
    } else if c.is_ascii_uppercase() {
        c.to_ascii_lowercase()
    } else {
        c.to_lowercase().chain(c.to_uppercase()).find(|x| *x != c).unwrap_or(c)
    }
}
