//! C20 on the real code: processor time of its calls against what the lengths allow.
use crate::gen::Rng;
use crate::real::{Real, Set};
use crate::refimpl::*;
use crate::{Call, Case_};

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn clock_gettime(id: i32, t: *mut Timespec) -> i32;
}
/// Processor time of this thread in ns.
fn now() -> f64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    unsafe { clock_gettime(3, &mut t) };
    t.sec as f64 * 1e9 + t.nsec as f64
}

/// Nothing is held against a call before this many ns ...
pub const FREE: f64 = 15e6;
/// ... and from then on so many per char, and per pair of chars.
pub const LINEAR: f64 = 200.0;
pub const PRODUCT: f64 = 60.0;

/// What a call may take: linear for FzfV1, and where a single term is rejected;
/// the product for exact terms, where FzfV2 matches, and for each of several terms
/// if ranges are asked for.
fn allowed(cfg: Config, pq: &[Vec<Pat>], c: &str, matched: bool, ranges: bool) -> f64 {
    let n = c.len() as f64;
    let single = pq.len() == 1 && pq[0].len() == 1;
    let mut t = n * LINEAR;
    for p in pq.iter().flatten() {
        let m = p.text.len() as f64;
        let product = match p.kind {
            _ if ranges && !single => true,
            Kind::Fuzzy if p.inverse => true,
            Kind::Fuzzy => cfg.algo == Algo::V2 && (matched || !single),
            Kind::Exact => true,
            _ => false,
        };
        t += (m + n) * LINEAR;
        if product {
            t += m * n * PRODUCT;
        }
    }
    t
}

/// Runs the history; per suffix of it, (time, allowed).
fn run(case: &Case_) -> Vec<(f64, f64, String)> {
    let mut real = Real::new(case.algo);
    let mut out: Vec<(f64, f64, String)> = vec![];
    for k in &case.calls {
        real.set(&k.sets);
        let pq = if k.ext { parse(&k.q) } else { not_extended(&k.q) };
        let cfg = real.cfg;
        let mut matched = false;
        let mut t = [0.0; 2];
        real.timed(k.ext, &k.q, &k.c, None, &mut |w, on| t[w] += if on { -now() } else { now() }, &mut matched);
        let mut time = t[1];
        let mut allow = allowed(cfg, &pq, &k.c, matched, false);
        let mut what = format!("distance ({})", if matched { "match" } else { "no match" });
        {
            let with = allowed(cfg, &pq, &k.c, matched, true);
            let mut buf = vec![];
            let mut u = [0.0; 2];
            real.timed(k.ext, &k.q, &k.c, Some(&mut buf), &mut |w, on| u[w] += if on { -now() } else { now() }, &mut matched);
            let t2 = u[1];
            t[0] += u[0];
            if t2 - with > time - allow {
                what = format!("distance_and_ranges ({})", if matched { "match" } else { "no match" });
            }
            time += t2;
            allow += with;
        }
        // parsing, twice
        let parse = 2.0 * k.q.len() as f64 * LINEAR;
        if t[0] - parse > time - allow {
            what = format!("parsing ({})", if k.ext { "extended" } else { "not extended" });
        }
        time += t[0];
        allow += parse;
        let m = k.q.chars().count();
        out.push((time, allow, format!("{cfg:?}: {what} of a query of {m} chars, candidate of {} bytes", k.c.len())));
    }
    let mut acc = (0.0, 0.0);
    for (i, x) in out.iter_mut().enumerate().rev() {
        acc.0 += x.0;
        acc.1 += x.1;
        let own = *&x.0 > FREE + x.1;
        if !own {
            x.0 = acc.0;
            x.1 = acc.1;
            if case.calls.len() - i > 1 {
                x.2 = format!("from call {i} on, {} calls; the first: {}", case.calls.len() - i, x.2);
            }
        }
    }
    out
}

/// The largest time / allowed of the history.
pub fn ratio(case: &Case_) -> f64 {
    run(case).iter().map(|x| x.0 / (FREE + x.1)).fold(0.0, f64::max)
}

/// Fails only if the same suffix is too slow again and again.
pub fn judge(case: &Case_) -> Option<String> {
    let mut bad: Option<Vec<(f64, f64, String)>> = None;
    for _ in 0..3 {
        let r = run(case);
        let b = match bad {
            None => r,
            Some(b) => b.into_iter().zip(r).map(|(x, y)| if x.0 / x.1 < y.0 / y.1 { x } else { y }).collect(),
        };
        if !b.iter().any(|x| x.0 > FREE + x.1) {
            return None;
        }
        bad = Some(b);
    }
    let b = bad?;
    let x = b.iter().filter(|x| x.0 > FREE + x.1).max_by(|x, y| x.0.total_cmp(&y.0))?;
    Some(format!("{}: {:.1} ms, at most {:.1} ms expected", x.2, x.0 / 1e6, (FREE + x.1) / 1e6))
}

// -------------------------------------------------------------------- generation
fn chars(r: &mut Rng, kind: usize, n: usize) -> Vec<char> {
    let al: &[char] = [&['a'][..], &['a', 'b'], &['a', 'B', '_'], &['a', 'é', '中'], &['é'], &['a', '/', ' ', '1']][kind % 6];
    match r.below(4) {
        0 => (0..n).map(|i| al[i % al.len()]).collect(),
        1 => {
            let k = 1 + r.below(n.max(1));
            (0..n).map(|i| al[(i / k) % al.len()]).collect()
        },
        _ => (0..n).map(|_| r.pick(al)).collect(),
    }
}

/// A long query and a short candidate.
fn wordy(r: &mut Rng) -> Call {
    let n = 1000 << r.below(10);
    let al = r.pick(&["a ", "ab  ", "é|^ ", "a\\ ", "\\ ", "a!'$^| ", "  ", "a"]);
    let al: Vec<char> = al.chars().collect();
    let q: String = if r.one_in(2) {
        (0..n).map(|i| al[i % al.len()]).collect()
    } else {
        (0..n).map(|_| r.pick(&al)).collect()
    };
    let c = {
        let k = r.below(10);
        chars(r, 1, k)
    }
    .into_iter().collect();
    Call { sets: vec![], ext: !r.one_in(5), q, c, prefill: vec![] }
}

fn call(r: &mut Rng, algo: Algo, small: bool) -> Call {
    if !small && r.one_in(6) {
        return wordy(r);
    }
    let mut sets = vec![];
    if r.one_in(2) {
        sets.push(Set::Scheme(r.pick(&[SchemeKind::Default, SchemeKind::Path, SchemeKind::History])));
        sets.push(Set::Case(r.pick(&[Case::Sensitive, Case::Insensitive, Case::Smart])));
        sets.push(Set::Norm(r.one_in(2)));
    }
    let kind = r.below(6);
    // either the product is affordable, or the candidate is to be rejected
    let (m, n) = if small {
        (r.below(6), r.below(40))
    } else {
        match r.below(6) {
            0 => (1 + r.below(3), 1000 << r.below(9)),
            1 => (1000 + r.below(3000), 2000 + r.below(4000)),
            2 => (1 << r.below(12), 100_000 + r.below(200_000)),
            3 => (2 + r.below(40), 3000 << r.below(4)),
            4 => (500 << r.below(8), 500 << r.below(8)),
            _ => (r.below(30), 200_000 + r.below(300_000)),
        }
    };
    let mut c = chars(r, kind, n);
    let mut t: Vec<char> = match r.below(4) {
        0 => chars(r, kind, m),
        1 if n > 0 => {
            // a piece of the candidate
            let m = m.min(n);
            let a = r.below(n - m + 1);
            c[a..a + m].to_vec()
        },
        _ => {
            // a subsequence of it
            if m == 0 || n == 0 {
                chars(r, kind, m)
            } else {
                let step = (n / m).max(1);
                c.iter().step_by(step).take(m).copied().collect()
            }
        },
    };
    // where it stops matching
    let reject = m * n > 2_000_000 && algo == Algo::V2 || r.one_in(2);
    if reject && !t.is_empty() {
        let z = r.pick(&['z', 'ž']);
        let i = match r.below(4) {
            0 => 0,
            1 => r.below(t.len()),
            _ => t.len() - 1,
        };
        t[i] = z;
        // found, but too early for what comes before it
        if i > 0 && r.one_in(2) {
            c.insert(0, z);
        }
        if r.one_in(3) {
            for x in t.iter_mut() {
                *x = z;
            }
            c.splice(0..0, std::iter::repeat(z).take((t.len() - 1).min(5000)));
        }
    }
    if r.one_in(8) {
        let k = r.below(n + 1);
        for x in c.iter_mut().take(k) {
            *x = ' ';
        }
    }
    if r.one_in(8) {
        let k = r.below(n + 1);
        for x in c.iter_mut().rev().take(k) {
            *x = ' ';
        }
    }
    let (t, c): (String, String) = (t.into_iter().collect(), c.into_iter().collect());
    let e = t.replace(' ', "\\ ");
    let heavy = m * n > 2_000_000;
    let (ext, q) = match r.below(14) {
        8 if !heavy => (true, format!("'{e}")),
        9 => (true, format!("^{e}")),
        10 => (true, format!("{e}$")),
        11 => (true, format!("^{e}$")),
        12 if !heavy => (true, format!("!{e}")),
        13 if !heavy => (true, format!("{e} | b a c | '{e}")),
        _ => (false, t),
    };
    Call { sets, ext, q, c, prefill: vec![] }
}

pub fn case(r: &mut Rng) -> Case_ {
    let algo = if r.one_in(3) { Algo::V1 } else { Algo::V2 };
    let mut calls = vec![call(r, algo, false)];
    if r.one_in(2) {
        // what an expensive call leaves behind
        for _ in 0..r.below(400) {
            calls.push(call(r, algo, true));
        }
    }
    Case_ { algo, calls }
}
