//! The contracts the proof assumes of `std` and of the memchr crate, tested on
//! the real functions: on every character (pairs: every character with every
//! ASCII one, itself and its neighbours in case), and on all short slices.
use crate::gen::Rng;

fn fold(c: char) -> char {
    if ('A'..='Z').contains(&c) { (c as u8 + 32) as char } else { c }
}

pub fn run() -> (u64, Vec<String>) {
    let mut n = 0u64;
    let mut bad = vec![];
    let mut ck = |ok: bool, what: &dyn Fn() -> String| {
        n += 1;
        if !ok && bad.len() < 5 {
            bad.push(what());
        }
    };
    for u in 0..=0x10ffffu32 {
        let Some(c) = char::from_u32(u) else { continue };
        ck(c.is_ascii() == (u < 128), &|| format!("is_ascii {c:?}"));
        ck(c.is_ascii_lowercase() == ('a' <= c && c <= 'z'), &|| format!("is_ascii_lowercase {c:?}"));
        ck(c.is_ascii_uppercase() == ('A' <= c && c <= 'Z'), &|| format!("is_ascii_uppercase {c:?}"));
        ck(c.is_ascii_digit() == ('0' <= c && c <= '9'), &|| format!("is_ascii_digit {c:?}"));
        ck(c.is_ascii_whitespace() == matches!(c, ' ' | '\t' | '\n' | '\x0C' | '\r'), &|| format!("is_ascii_whitespace {c:?}"));
        // the transmute of normalize.rs
        ck(char::from_u32(u).map(|c| c as u32) == Some(u), &|| format!("u32 as char {u}"));
        // len_utf8, and the bytes a character is encoded in
        let l = if u < 0x80 { 1 } else if u < 0x800 { 2 } else if u < 0x10000 { 3 } else { 4 };
        ck(c.len_utf8() == l && c.to_string().len() == l, &|| format!("len_utf8 {c:?}"));
        ck(u < 128 || c.to_string().bytes().all(|b| b >= 128), &|| format!("bytes of {c:?}"));
        for d in (0..128u8).map(char::from).chain([c]).chain(c.to_lowercase()).chain(c.to_uppercase()) {
            ck(c.eq_ignore_ascii_case(&d) == (fold(c) == fold(d)), &|| format!("eq_ignore_ascii_case {c:?} {d:?}"));
        }
    }
    for b in 0..=255u8 {
        ck(char::from(b) as u32 == b as u32, &|| format!("char::from {b}"));
        ck(b.is_ascii_alphabetic() == ((65..=90).contains(&b) || (97..=122).contains(&b)), &|| format!("is_ascii_alphabetic {b}"));
    }
    // memchr and friends: all slices over three bytes up to length 7, and random
    // ones long enough for every vector width
    let mut r = Rng(7);
    let mut hs: Vec<Vec<u8>> = vec![];
    for len in 0..8u32 {
        for mut k in 0..3u32.pow(len) {
            let mut v = vec![];
            for _ in 0..len {
                v.push(b"abc"[(k % 3) as usize]);
                k /= 3;
            }
            hs.push(v);
        }
    }
    for _ in 0..20000 {
        let len = r.below(300);
        let den = 1 + r.below(80);
        hs.push((0..len).map(|_| if r.one_in(den) { b"ab"[r.below(2)] } else { (r.next() & 0xff) as u8 }).collect());
    }
    for h in &hs {
        let all = |f: &dyn Fn(u8) -> bool| -> Vec<usize> { (0..h.len()).filter(|&i| f(h[i])).collect() };
        let one = all(&|b| b == b'a');
        let two = all(&|b| b == b'a' || b == b'b');
        ck(memchr::memchr(b'a', h) == one.first().copied(), &|| format!("memchr {h:?}"));
        ck(memchr::memrchr(b'a', h) == one.last().copied(), &|| format!("memrchr {h:?}"));
        ck(memchr::memchr2(b'a', b'b', h) == two.first().copied(), &|| format!("memchr2 {h:?}"));
        ck(memchr::memrchr2(b'a', b'b', h) == two.last().copied(), &|| format!("memrchr2 {h:?}"));
        ck(memchr::Memchr::new(b'a', h).collect::<Vec<_>>() == one, &|| format!("Memchr {h:?}"));
        ck(memchr::Memchr2::new(b'a', b'b', h).collect::<Vec<_>>() == two, &|| format!("Memchr2 {h:?}"));
        // binary_search_by on a sorted slice
        let mut s = h.clone();
        s.sort();
        for x in [0u8, b'a', b'b', b'c', 255] {
            let ok = match s.binary_search_by(|y| y.cmp(&x)) {
                Ok(i) => s[i] == x,
                Err(i) => s[..i].iter().all(|y| *y < x) && s[i..].iter().all(|y| *y > x),
            };
            ck(ok, &|| format!("binary_search_by {s:?} {x}"));
        }
        let mut f = h.clone();
        f.fill(9);
        ck(f.len() == h.len() && f.iter().all(|x| *x == 9), &|| "fill".into());
        // string slices at character boundaries
        let t: String = h.iter().map(|b| *b as char).collect();
        let cs: Vec<char> = t.chars().collect();
        for (k, (i, _)) in t.char_indices().enumerate() {
            ck(t[..i].chars().eq(cs[..k].iter().copied()) && t[i..].chars().eq(cs[k..].iter().copied()), &|| format!("str slices {t:?} {i}"));
        }
    }
    ck(true.then_some(1) == Some(1) && false.then_some(1).is_none(), &|| "then_some".into());
    ck(Some(&3).copied() == Some(3) && None::<&i32>.copied().is_none(), &|| "copied".into());
    ck((2..5usize).clone() == (2..5), &|| "Range::clone".into());
    (n, bad)
}
