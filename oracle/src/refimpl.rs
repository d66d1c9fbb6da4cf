//! Executable reference specification (independent of /repo's code, except for
//! `table.rs`, which is the frozen latin-to-ascii table).  It is the executable
//! twin of the Verus spec functions in /verif/contracts/spec.rs.

use crate::table;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum SchemeKind {
    Default,
    Path,
    History,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Case {
    Sensitive,
    Insensitive,
    Smart,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Algo {
    V1,
    V2,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Config {
    pub algo: Algo,
    pub scheme: SchemeKind,
    pub case: Case,
    pub norm: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Class {
    White,
    NonWord,
    Delim,
    Lower,
    Upper,
    Letter,
    Number,
}

impl SchemeKind {
    pub fn white(self) -> i64 {
        match self {
            SchemeKind::Default => 10,
            _ => 8,
        }
    }
    pub fn delim(self) -> i64 {
        match self {
            SchemeKind::Default | SchemeKind::Path => 9,
            SchemeKind::History => 8,
        }
    }
    pub fn initial(self) -> Class {
        match self {
            SchemeKind::Path => Class::Delim,
            _ => Class::White,
        }
    }
    pub fn is_delim(self, c: char) -> bool {
        match self {
            SchemeKind::Path => c == '/',
            _ => "/,:;|".contains(c),
        }
    }
}

pub fn class(s: SchemeKind, c: char) -> Class {
    if c.is_ascii() {
        if c.is_ascii_lowercase() {
            Class::Lower
        } else if c.is_ascii_uppercase() {
            Class::Upper
        } else if c.is_ascii_digit() {
            Class::Number
        } else if c == ' ' || c == '\t' || c == '\n' || c == '\x0c' || c == '\r' {
            Class::White
        } else if s.is_delim(c) {
            Class::Delim
        } else {
            Class::NonWord
        }
    } else if c.is_lowercase() {
        Class::Lower
    } else if c.is_uppercase() {
        Class::Upper
    } else if c.is_numeric() {
        Class::Number
    } else if c.is_alphabetic() {
        Class::Letter
    } else if c.is_whitespace() {
        Class::White
    } else if s.is_delim(c) {
        Class::Delim
    } else {
        Class::NonWord
    }
}

pub fn bonus(s: SchemeKind, prev: Class, cur: Class) -> i64 {
    match cur {
        Class::NonWord => 8,
        Class::White => s.white(),
        Class::Upper if prev == Class::Lower => 7,
        Class::Number if prev != Class::Number => 7,
        _ => match prev {
            Class::White => s.white(),
            Class::Delim => s.delim(),
            Class::NonWord => 8,
            _ => 0,
        },
    }
}

pub fn bonus_at(s: SchemeKind, cand: &[char], i: usize) -> i64 {
    let prev = if i == 0 { s.initial() } else { class(s, cand[i - 1]) };
    bonus(s, prev, class(s, cand[i]))
}

pub fn ceq(sensitive: bool, norm: bool, q: char, c: char) -> bool {
    let c = if norm && !table::in_table_range(q) { table::normalize(c) } else { c };
    if sensitive {
        q == c
    } else {
        q.eq_ignore_ascii_case(&c)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Fuzzy,
    Exact,
    Prefix,
    Suffix,
    Equal,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Pat {
    pub text: Vec<char>,
    pub kind: Kind,
    pub inverse: bool,
}

impl Pat {
    pub fn upper(&self) -> bool {
        self.text.iter().any(|c| c.is_uppercase())
    }
    pub fn lead(&self) -> usize {
        lead(&self.text)
    }
    pub fn trail(&self) -> usize {
        trail(&self.text)
    }
}

pub fn lead(t: &[char]) -> usize {
    t.iter().take_while(|&&c| c == ' ').count()
}

pub fn trail(t: &[char]) -> usize {
    t.iter().rev().take_while(|&&c| c == ' ').count()
}

/// Splits on unescaped runs of spaces; `\ ` is a literal space.
pub fn words(q: &str) -> Vec<Vec<char>> {
    let mut out = vec![];
    let mut cur: Vec<char> = vec![];
    let mut has = false;
    let cs: Vec<char> = q.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        if cs[i] == '\\' && i + 1 < cs.len() && cs[i + 1] == ' ' {
            cur.push(' ');
            has = true;
            i += 2;
        } else if cs[i] == ' ' {
            if has {
                out.push(std::mem::take(&mut cur));
                has = false;
            }
            i += 1;
        } else {
            cur.push(cs[i]);
            has = true;
            i += 1;
        }
    }
    if has {
        out.push(cur);
    }
    out
}

pub fn parse_word(w: &[char]) -> Option<Pat> {
    let mut t = w;
    let mut inverse = false;
    let mut kind = Kind::Fuzzy;
    if t.first() == Some(&'!') {
        inverse = true;
        kind = Kind::Exact;
        t = &t[1..];
    }
    if t.last() == Some(&'$') && t.len() > 1 {
        kind = Kind::Suffix;
        t = &t[..t.len() - 1];
    }
    if t.first() == Some(&'\'') {
        kind = if inverse { Kind::Fuzzy } else { Kind::Exact };
        t = &t[1..];
    } else if t.first() == Some(&'^') {
        kind = if kind == Kind::Suffix { Kind::Equal } else { Kind::Prefix };
        t = &t[1..];
    }
    if t.is_empty() {
        None
    } else {
        Some(Pat { text: t.to_vec(), kind, inverse })
    }
}

/// AND of ORs.
pub fn parse(q: &str) -> Vec<Vec<Pat>> {
    let mut out: Vec<Vec<Pat>> = vec![];
    let mut or_pending = false;
    for w in words(q) {
        if w == ['|'] {
            or_pending = true;
            continue;
        }
        let Some(p) = parse_word(&w) else { continue };
        if or_pending && !out.is_empty() {
            out.last_mut().unwrap().push(p);
        } else {
            out.push(vec![p]);
        }
        or_pending = false;
    }
    out
}

/// Is `pat` a subsequence of `cand` under `eq`?
pub fn is_subseq(pat: &[char], cand: &[char], eq: &dyn Fn(char, char) -> bool) -> bool {
    let mut i = 0;
    for &c in cand {
        if i < pat.len() && eq(pat[i], c) {
            i += 1;
        }
    }
    i == pat.len()
}

/// Score of the alignment `pos` (strictly increasing indices of `cand`).
pub fn align_score(s: SchemeKind, cand: &[char], pos: &[usize]) -> i64 {
    let mut score = 0;
    let mut first_bonus = 0;
    let mut consecutive = 0;
    for (k, &p) in pos.iter().enumerate() {
        if k > 0 {
            let gap = p - pos[k - 1] - 1;
            if gap > 0 {
                score -= 3 + (gap as i64 - 1);
                consecutive = 0;
                first_bonus = 0;
            }
        }
        let mut b = bonus_at(s, cand, p);
        if consecutive == 0 {
            first_bonus = b;
        } else {
            if b >= 8 && b > first_bonus {
                first_bonus = b;
            }
            b = b.max(first_bonus).max(4);
        }
        score += 16 + if k == 0 { 2 * b } else { b };
        consecutive += 1;
    }
    score
}

pub type M = Option<(i64, Vec<usize>)>;

pub fn fuzzy_v1(s: SchemeKind, pat: &[char], cand: &[char], eq: &dyn Fn(char, char) -> bool) -> M {
    let mut i = 0;
    let mut end = None;
    for (j, &c) in cand.iter().enumerate() {
        if eq(pat[i], c) {
            i += 1;
            if i == pat.len() {
                end = Some(j + 1);
                break;
            }
        }
    }
    let end = end?;
    // latest start such that the pattern still fits before `end`
    let mut k = pat.len();
    let mut start = end;
    while k > 0 {
        start -= 1;
        if eq(pat[k - 1], cand[start]) {
            k -= 1;
        }
    }
    let mut pos = vec![];
    for j in start..end {
        if pos.len() < pat.len() && eq(pat[pos.len()], cand[j]) {
            pos.push(j);
        }
    }
    assert_eq!(pos.len(), pat.len());
    Some((align_score(s, cand, &pos), pos))
}

pub fn fuzzy_v2(s: SchemeKind, pat: &[char], cand: &[char], eq: &dyn Fn(char, char) -> bool) -> M {
    let m = pat.len();
    let n = cand.len();
    // first[i]: earliest index where pat[..=i] fits
    let mut first = vec![];
    let mut j = 0;
    for i in 0..m {
        while j < n && !eq(pat[i], cand[j]) {
            j += 1;
        }
        if j == n {
            return None;
        }
        first.push(j);
        j += 1;
    }
    if m == 1 {
        let mut best = (0, 0);
        for j in 0..n {
            if eq(pat[0], cand[j]) {
                let sc = 16 + 2 * bonus_at(s, cand, j);
                if sc > best.0 {
                    best = (sc, j);
                }
            }
        }
        return Some((best.0, vec![best.1]));
    }
    let last = (0..n).rev().find(|&j| eq(pat[m - 1], cand[j])).unwrap();
    let mut h = vec![vec![0i64; n]; m];
    let mut c = vec![vec![0usize; n]; m];
    let mut best = (0, 0);
    for i in 0..m {
        let mut in_gap = false;
        for j in first[i]..=last {
            let left = if j > first[i] { h[i][j - 1] } else { 0 };
            let s2 = left - if in_gap { 1 } else { 3 };
            let mut s1 = 0;
            let mut cons = 0;
            if eq(pat[i], cand[j]) {
                if i == 0 {
                    s1 = 16 + 2 * bonus_at(s, cand, j);
                    cons = 1;
                } else {
                    s1 = h[i - 1][j - 1] + 16;
                    let b0 = bonus_at(s, cand, j);
                    let mut b = b0;
                    cons = c[i - 1][j - 1] + 1;
                    if cons > 1 {
                        let fb = bonus_at(s, cand, j + 1 - cons);
                        if b >= 8 && b > fb {
                            cons = 1;
                        } else {
                            b = b.max(4).max(fb);
                        }
                    }
                    if s1 + b < s2 {
                        s1 += b0;
                        cons = 0;
                    } else {
                        s1 += b;
                    }
                }
            }
            if i == 0 {
                // fzf's first row never keeps the "left" value on a match
                if cons == 1 {
                    h[i][j] = s1;
                    in_gap = false;
                } else {
                    h[i][j] = s2.max(0);
                    in_gap = true;
                }
            } else {
                h[i][j] = s1.max(s2).max(0);
                in_gap = s1 < s2;
            }
            c[i][j] = cons;
            if i == m - 1 && h[i][j] > best.0 {
                best = (h[i][j], j);
            }
        }
    }
    // traceback
    let mut pos = vec![];
    let (mut i, mut j) = (m - 1, best.1);
    let mut prefer = true;
    loop {
        let sc = h[i][j];
        let s1 = if i > 0 && j >= first[i] { h[i - 1][j - 1] } else { 0 };
        let s2 = if j > first[i] { h[i][j - 1] } else { 0 };
        let this_prefer = prefer;
        prefer = c[i][j] > 1 || (i + 1 < m && j + 1 <= last && c[i + 1][j + 1] > 0);
        if sc > s1 && (sc > s2 || sc == s2 && this_prefer) {
            pos.push(j);
            if i == 0 {
                break;
            }
            i -= 1;
        }
        j -= 1;
    }
    pos.reverse();
    Some((best.0, pos))
}

pub fn range(s: SchemeKind, cand: &[char], a: usize, b: usize) -> (i64, Vec<usize>) {
    let pos: Vec<usize> = (a..b).collect();
    (align_score(s, cand, &pos), pos)
}

pub fn exact(s: SchemeKind, pat: &[char], cand: &[char], eq: &dyn Fn(char, char) -> bool) -> M {
    let (m, n) = (pat.len(), cand.len());
    let mut best: Option<(i64, usize)> = None;
    for a in 0..n {
        if a + m > n {
            break;
        }
        if (0..m).all(|k| eq(pat[k], cand[a + k])) {
            let b = bonus_at(s, cand, a);
            if best.map_or(true, |(bb, _)| b > bb) {
                best = Some((b, a));
            }
            if b >= 8 {
                break;
            }
        }
    }
    best.map(|(_, a)| range(s, cand, a, a + m))
}

fn occurs_at(pat: &[char], cand: &[char], a: usize, eq: &dyn Fn(char, char) -> bool) -> bool {
    a + pat.len() <= cand.len() && (0..pat.len()).all(|k| eq(pat[k], cand[a + k]))
}

pub fn anchored(s: SchemeKind, p: &Pat, cand: &[char], eq: &dyn Fn(char, char) -> bool) -> M {
    let (m, n) = (p.text.len(), cand.len());
    let a = lead(cand).checked_sub(p.lead());
    let z = trail(cand).checked_sub(p.trail());
    match p.kind {
        Kind::Prefix => {
            let a = a?;
            occurs_at(&p.text, cand, a, eq).then(|| range(s, cand, a, a + m))
        },
        Kind::Suffix => {
            let e = n - z?;
            let a = e.checked_sub(m)?;
            occurs_at(&p.text, cand, a, eq).then(|| range(s, cand, a, a + m))
        },
        Kind::Equal => {
            let (a, e) = (a?, n - z?);
            (a + m == e && occurs_at(&p.text, cand, a, eq)).then(|| range(s, cand, a, a + m))
        },
        _ => unreachable!(),
    }
}

/// Positive match of one pattern (inversion not applied).
pub fn positive(cfg: Config, p: &Pat, cand: &[char]) -> M {
    let sens = match cfg.case {
        Case::Sensitive => true,
        Case::Insensitive => false,
        Case::Smart => p.upper(),
    };
    let eq = move |q: char, c: char| ceq(sens, cfg.norm, q, c);
    match p.kind {
        Kind::Fuzzy => match cfg.algo {
            Algo::V1 => fuzzy_v1(cfg.scheme, &p.text, cand, &eq),
            Algo::V2 => fuzzy_v2(cfg.scheme, &p.text, cand, &eq),
        },
        Kind::Exact => exact(cfg.scheme, &p.text, cand, &eq),
        _ => anchored(cfg.scheme, p, cand, &eq),
    }
}

pub fn pattern(cfg: Config, p: &Pat, cand: &[char]) -> M {
    match (positive(cfg, p, cand), p.inverse) {
        (Some(x), false) => Some(x),
        (None, true) => Some((0, vec![])),
        _ => None,
    }
}

/// Result of a whole query: score and set of matched character indices.
pub fn query(cfg: Config, q: &[Vec<Pat>], cand: &str) -> M {
    let cand: Vec<char> = cand.chars().collect();
    let mut total = 0;
    let mut set = std::collections::BTreeSet::new();
    for cond in q {
        let (s, pos) = cond.iter().find_map(|p| pattern(cfg, p, &cand))?;
        total += s;
        set.extend(pos);
    }
    Some((total, set.into_iter().collect()))
}

pub fn not_extended(q: &str) -> Vec<Vec<Pat>> {
    let text: Vec<char> = q.chars().collect();
    if text.is_empty() {
        vec![]
    } else {
        vec![vec![Pat { text, kind: Kind::Fuzzy, inverse: false }]]
    }
}

/// Canonical byte ranges (sorted, disjoint, non adjacent) of a set of chars.
pub fn byte_ranges(cand: &str, pos: &[usize]) -> Vec<std::ops::Range<usize>> {
    let offs: Vec<(usize, char)> = cand.char_indices().collect();
    let mut out: Vec<std::ops::Range<usize>> = vec![];
    for &p in pos {
        let (a, c) = offs[p];
        let b = a + c.len_utf8();
        match out.last_mut() {
            Some(l) if l.end == a => l.end = b,
            _ => out.push(a..b),
        }
    }
    out
}
