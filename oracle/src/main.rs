//! Oracle driver: searches for, and replays, failing inputs of a property on
//! the real code.  Never the deciding step: it runs next to the proof, and it
//! turns a failed obligation into a concrete failing input.
mod assume;
mod cost;
mod gen;
mod mine;
mod real;
mod refimpl;
mod table;
use real::{Real, Set};
use refimpl::*;
use std::fmt::Write as _;
use std::ops::Range;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering as O};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

// --------------------------------------------------------------- run-away memory
/// A worker that holds more than this many bytes is stopped where it is, and
/// reported like one that does not return.
const MEMORY: isize = 3 << 30;
static STOPPED: AtomicBool = AtomicBool::new(false);
static STOPPED_BY: AtomicU64 = AtomicU64::new(0);
thread_local! {
    static HELD: std::cell::Cell<isize> = const { std::cell::Cell::new(isize::MIN / 2) };
    static WORKER: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
struct Counting;
impl Counting {
    fn add(n: isize) {
        let over = HELD.try_with(|h| {
            h.set(h.get() + n);
            n > 0 && h.get() > MEMORY
        });
        if over == Ok(true) {
            STOPPED_BY.store(WORKER.with(|w| w.get()), O::SeqCst);
            STOPPED.store(true, O::SeqCst);
            loop {
                std::thread::sleep(Duration::from_secs(1));
            }
        }
    }
}
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        Self::add(l.size() as isize);
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        Self::add(-(l.size() as isize));
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        Self::add(l.size() as isize);
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        Self::add(n as isize - l.size() as isize);
        std::alloc::System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOCATOR: Counting = Counting;
/// Starts counting for this thread.
fn count_memory(worker: u64) {
    HELD.with(|h| h.set(0));
    WORKER.with(|w| w.set(worker));
}

#[derive(Clone, Debug, PartialEq)]
pub struct Call {
    pub sets: Vec<Set>,
    pub ext: bool,
    pub q: String,
    pub c: String,
    pub prefill: Vec<Range<usize>>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Case_ {
    pub algo: Algo,
    pub calls: Vec<Call>,
}

// ---------------------------------------------------------------- replay files
fn hex(s: &str) -> String {
    s.bytes().map(|b| format!("{b:02x}")).collect()
}
fn unhex(s: &str) -> String {
    let b: Vec<u8> =
        (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
    String::from_utf8(b).unwrap()
}
fn set_str(s: &Set) -> String {
    match s {
        Set::Scheme(SchemeKind::Default) => "s0".into(),
        Set::Scheme(SchemeKind::Path) => "s1".into(),
        Set::Scheme(SchemeKind::History) => "s2".into(),
        Set::Case(Case::Sensitive) => "c0".into(),
        Set::Case(Case::Insensitive) => "c1".into(),
        Set::Case(Case::Smart) => "c2".into(),
        Set::Norm(b) => format!("n{}", *b as u8),
    }
}
fn str_set(s: &str) -> Set {
    match s {
        "s0" => Set::Scheme(SchemeKind::Default),
        "s1" => Set::Scheme(SchemeKind::Path),
        "s2" => Set::Scheme(SchemeKind::History),
        "c0" => Set::Case(Case::Sensitive),
        "c1" => Set::Case(Case::Insensitive),
        "c2" => Set::Case(Case::Smart),
        "n1" => Set::Norm(true),
        _ => Set::Norm(false),
    }
}
fn encode(prop: &str, c: &Case_, why: &str) -> String {
    let mut s = String::new();
    for l in why.lines() {
        writeln!(s, "# {l}").unwrap();
    }
    writeln!(s, "property {prop}").unwrap();
    writeln!(s, "algo {:?}", c.algo).unwrap();
    for k in &c.calls {
        let l = format!("# settings {:?} ext={} query={:?} candidate={:?} buffer={:?}", k.sets, k.ext, k.q, k.c, k.prefill);
        writeln!(s, "{l:.4000}").unwrap();
        let sets: Vec<String> = k.sets.iter().map(set_str).collect();
        let pre: Vec<String> = k.prefill.iter().map(|r| format!("{}-{}", r.start, r.end)).collect();
        writeln!(s, "call sets={} ext={} q={} c={} pre={}", sets.join(","), k.ext as u8, hex(&k.q), hex(&k.c), pre.join(",")).unwrap();
    }
    s
}
fn decode(s: &str) -> Option<(String, Case_)> {
    let mut prop = None;
    let mut algo = Algo::V1;
    let mut calls = vec![];
    for l in s.lines() {
        if let Some(p) = l.strip_prefix("property ") {
            prop = Some(p.trim().to_string());
        } else if let Some(a) = l.strip_prefix("algo ") {
            algo = if a.trim() == "V2" { Algo::V2 } else { Algo::V1 };
        } else if let Some(rest) = l.strip_prefix("call ") {
            let mut k = Call { sets: vec![], ext: true, q: String::new(), c: String::new(), prefill: vec![] };
            for kv in rest.split_whitespace() {
                let (a, b) = kv.split_once('=')?;
                match a {
                    "sets" => k.sets = b.split(',').filter(|x| !x.is_empty()).map(str_set).collect(),
                    "ext" => k.ext = b == "1",
                    "q" => k.q = unhex(b),
                    "c" => k.c = unhex(b),
                    "pre" => {
                        k.prefill = b
                            .split(',')
                            .filter(|x| !x.is_empty())
                            .map(|x| {
                                let (a, b) = x.split_once('-').unwrap();
                                a.parse().unwrap()..b.parse().unwrap()
                            })
                            .collect()
                    },
                    _ => {},
                }
            }
            calls.push(k);
        }
    }
    Some((prop?, Case_ { algo, calls }))
}

// ---------------------------------------------------------------------- judging
struct Obs {
    cfg: Config,
    dist: Option<i64>,
    rdist: Option<i64>,
    buf: Vec<Range<usize>>,
}

fn single(q: &[Vec<Pat>]) -> Option<&Pat> {
    match q {
        [c] if c.len() == 1 => Some(&c[0]),
        _ => None,
    }
}

/// Is this call in the property's domain?
fn applies(prop: &str, cfg: Config, pq: &[Vec<Pat>]) -> bool {
    let one = single(pq);
    match prop {
        "C01" => one.map_or(false, |p| p.kind == Kind::Fuzzy && !p.inverse),
        "C02" => one.map_or(false, |p| p.kind == Kind::Exact && !p.inverse),
        "C03" => one.map_or(false, |p| {
            matches!(p.kind, Kind::Prefix | Kind::Suffix | Kind::Equal) && !p.inverse
        }),
        "C11" => one.map_or(false, |p| !p.inverse && (p.kind != Kind::Fuzzy || cfg.algo == Algo::V1)),
        "C12" => one.map_or(false, |p| p.kind == Kind::Fuzzy && !p.inverse) && cfg.algo == Algo::V1,
        "C13" => one.map_or(false, |p| p.kind == Kind::Fuzzy && !p.inverse) && cfg.algo == Algo::V2,
        _ => true,
    }
}

fn well_formed(c: &str, prefill: &[Range<usize>], res: Option<i64>, buf: &[Range<usize>]) -> Option<String> {
    if buf.len() < prefill.len() || &buf[..prefill.len()] != prefill {
        return Some(format!("the buffer's previous content changed: {buf:?}"));
    }
    let new = &buf[prefill.len()..];
    if res.is_none() && !new.is_empty() {
        return Some(format!("no match, but ranges were appended: {new:?}"));
    }
    let mut prev: Option<usize> = None;
    for r in new {
        if r.start >= r.end || r.end > c.len() || !c.is_char_boundary(r.start) || !c.is_char_boundary(r.end) {
            return Some(format!("malformed range {r:?} in {new:?}"));
        }
        if prev.map_or(false, |p| r.start <= p) {
            return Some(format!("unordered, overlapping or adjacent ranges: {new:?}"));
        }
        prev = Some(r.end);
    }
    None
}

fn bytes(rs: &[Range<usize>]) -> Vec<usize> {
    let mut v: Vec<usize> = rs.iter().cloned().flatten().collect();
    v.sort();
    v.dedup();
    v
}

/// `None`: fine.  Runs the whole history on the real code.
fn judge(prop: &str, case: &Case_) -> Option<String> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| judge_(prop, case)));
    match r {
        Ok(x) => x,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or(e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            if m.starts_with("ORACLE") {
                return None;
            }
            Some(format!("panicked: {m}"))
        },
    }
}

fn judge_(prop: &str, case: &Case_) -> Option<String> {
    if prop == "C20" {
        return cost::judge(case);
    }
    let mut real = Real::new(case.algo);
    let mut dists = vec![];
    let clones = matches!(prop, "C10" | "C19")
        && case.calls.iter().map(|k| k.q.len() * k.c.len()).max() < Some(4096);
    for (n, k) in case.calls.iter().enumerate() {
        real.set(&k.sets);
        // a copy has the settings of the original, and gives the same results
        if clones && n % 2 == 1 {
            real = real.cloned();
        }
        let cfg = real.cfg;
        let pq = if k.ext { parse(&k.q) } else { not_extended(&k.q) };
        // calls outside the property's domain still are part of the history
        let dom = applies(prop, cfg, &pq);
        if matches!(prop, "C17" | "C18") {
            real.distance(k.ext, &k.q, &k.c);
            real.ranges(k.ext, &k.q, &k.c, &mut k.prefill.clone());
            continue;
        }
        let dist = real.distance(k.ext, &k.q, &k.c);
        let mut buf = k.prefill.clone();
        let rdist = real.ranges(k.ext, &k.q, &k.c, &mut buf);
        if prop == "C14" {
            dists.push((real.dist(k.ext, &k.q, &k.c), dist));
            continue;
        }
        if !dom {
            continue;
        }
        let o = Obs { cfg, dist, rdist, buf };
        if let Some(w) = judge_call(prop, k, &pq, &o) {
            return Some(format!("call {n}, settings {cfg:?}, ext={}, query {:?}, candidate {:?}: {w}", k.ext, k.q, k.c));
        }
    }
    if prop == "C14" {
        use std::cmp::Ordering::*;
        let ds: Vec<_> = dists.iter().filter_map(|(d, s)| Some(((*d)?, (*s)?))).collect();
        for &(a, x) in &ds {
            for &(b, y) in &ds {
                let want = y.cmp(&x);
                if a.cmp(&b) != want
                    || a.partial_cmp(&b) != Some(want)
                    || (a == b) != (x == y)
                    || (a != b) != (x != y)
                    || (a < b) != (want == Less)
                    || (a > b) != (want == Greater)
                    || (a <= b) != (want != Greater)
                    || (a >= b) != (want != Less)
                    || a.max(b) != if want == Greater { a } else { b }
                    || a.min(b) != if want == Greater { b } else { a }
                {
                    return Some(format!("distances of scores {x} and {y} compare {:?} (expected {want:?}) or inconsistently", a.cmp(&b)));
                }
            }
        }
    }
    None
}

fn judge_call(prop: &str, k: &Call, pq: &[Vec<Pat>], o: &Obs) -> Option<String> {
    let new = if o.buf.len() >= k.prefill.len() { &o.buf[k.prefill.len()..] } else { &[] };
    match prop {
        "C07" => return well_formed(&k.c, &k.prefill, o.rdist, &o.buf),
        "C09" => {
            return (o.dist != o.rdist)
                .then(|| format!("distance -> {:?}, distance_and_ranges -> {:?}", o.dist, o.rdist))
        },
        "C10" => {
            let mut f = Real::configured(o.cfg);
            let d = f.distance(k.ext, &k.q, &k.c);
            let mut f = Real::configured(o.cfg);
            let mut b = k.prefill.clone();
            let rd = f.ranges(k.ext, &k.q, &k.c, &mut b);
            return ((d, rd, &b) != (o.dist, o.rdist, &o.buf)).then(|| {
                format!("fresh metric: {d:?} {rd:?} {b:?}, after this history: {:?} {:?} {:?}", o.dist, o.rdist, o.buf)
            });
        },
        "C05" if k.ext => {
            let got: Vec<String> = norm::fzf::words(&k.q).collect();
            let want: Vec<String> = words(&k.q).iter().map(|w| w.iter().collect()).collect();
            if got != want {
                return Some(format!("words {got:?}, expected {want:?}"));
            }
        },
        _ => {},
    }
    let exp = query(o.cfg, pq, &k.c);
    for (what, d) in [("distance", o.dist), ("distance_and_ranges", o.rdist)] {
        if d.is_some() != exp.is_some() {
            return Some(format!("{what} -> {d:?}, expected {:?}", exp.as_ref().map(|e| e.0)));
        }
    }
    let (es, pos) = exp?;
    let score = !matches!(prop, "C01" | "C08");
    let ranges = matches!(prop, "C02" | "C03" | "C05" | "C06" | "C08" | "C12" | "C13" | "C15" | "C16" | "C19");
    if score {
        for (what, d) in [("distance", o.dist), ("distance_and_ranges", o.rdist)] {
            if d != Some(es) {
                return Some(format!("{what}: score {d:?}, expected {es}"));
            }
        }
    }
    if ranges {
        let want = bytes(&byte_ranges(&k.c, &pos));
        if bytes(new) != want {
            return Some(format!("ranges {new:?}, expected {:?}", byte_ranges(&k.c, &pos)));
        }
    }
    None
}

// --------------------------------------------------------------------- shrinking
/// In a thread of its own: a smaller case may not return at all.
fn shrink(prop: &str, case: &Case_, why: &str, budget: Duration) -> (Case_, String) {
    let best = Arc::new(Mutex::new((case.clone(), why.to_string())));
    let (tx, rx) = std::sync::mpsc::channel();
    let (p, b) = (prop.to_string(), best.clone());
    let t = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        count_memory(0);
        shrink_(&p, &b, budget);
        let _ = tx.send(());
    });
    if t.is_ok() {
        let _ = rx.recv_timeout(budget + Duration::from_secs(5));
    }
    let r = best.lock().unwrap().clone();
    r
}

fn shrink_(prop: &str, shared: &Mutex<(Case_, String)>, budget: Duration) {
    let t0 = Instant::now();
    let mut best = shared.lock().unwrap().0.clone();
    loop {
        let mut cands: Vec<Case_> = vec![];
        for i in 0..best.calls.len() {
            if best.calls.len() > 1 {
                let mut c = best.clone();
                let k = c.calls.remove(i);
                if i < c.calls.len() {
                    let mut s = k.sets.clone();
                    s.extend(c.calls[i].sets.clone());
                    c.calls[i].sets = s;
                }
                cands.push(c);
            }
            for which in 0..2 {
                let s: Vec<char> =
                    if which == 0 { best.calls[i].q.chars().collect() } else { best.calls[i].c.chars().collect() };
                let mut step = (s.len() / 2).max(1);
                while step >= 1 {
                    let mut a = 0;
                    while a < s.len() {
                        let t: String = s[..a].iter().chain(&s[(a + step).min(s.len())..]).collect();
                        let mut c = best.clone();
                        if which == 0 {
                            c.calls[i].q = t
                        } else {
                            c.calls[i].c = t
                        }
                        cands.push(c);
                        a += step;
                        if cands.len() > 400 {
                            break;
                        }
                    }
                    step /= 2;
                }
            }
            for j in 0..best.calls[i].sets.len() {
                let mut c = best.clone();
                c.calls[i].sets.remove(j);
                cands.push(c);
            }
            if !best.calls[i].prefill.is_empty() {
                let mut c = best.clone();
                c.calls[i].prefill.clear();
                cands.push(c);
            }
        }
        let mut found = false;
        for c in cands {
            if t0.elapsed() > budget {
                return;
            }
            if let Some(w) = judge(prop, &c) {
                best = c;
                *shared.lock().unwrap() = (best.clone(), w);
                found = true;
                break;
            }
        }
        if !found {
            return;
        }
    }
}

// ------------------------------------------------------------------------ search
struct Shared {
    stop: AtomicBool,
    cases: AtomicU64,
    nontrivial: AtomicU64,
    found: Mutex<Option<(Case_, String)>>,
}

fn nontrivial(c: &Case_) -> bool {
    c.calls.iter().any(|k| !k.q.is_empty() && !k.c.is_empty())
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("search") => search(&args),
        Some("replay") => {
            let t = std::fs::read_to_string(&args[2]).expect("replay file");
            let (p, c) = decode(&t).expect("replay file");
            // a case that never returns fails by timing out
            let (tx, rx) = std::sync::mpsc::channel();
            let (p2, c2) = (p.clone(), c.clone());
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    count_memory(0);
                    let _ = tx.send(judge(&p2, &c2));
                })
                .unwrap();
            let t0 = Instant::now();
            let got = loop {
                match rx.recv_timeout(Duration::from_millis(100)) {
                    Err(e) if t0.elapsed() > Duration::from_secs(20) || STOPPED.load(O::SeqCst) => break Err(e),
                    Err(std::sync::mpsc::RecvTimeoutError::Timeout) => {},
                    x => break x,
                }
            };
            match got {
                Ok(None) => {
                    println!("property {p} holds on this input");
                    std::process::exit(0);
                },
                Ok(Some(w)) => {
                    println!("property {p} fails: {w}");
                    std::process::exit(1);
                },
                Err(_) => {
                    println!("property {p} fails: no result after 20 s or 3 GiB");
                    std::process::exit(1);
                },
            }
        },
        Some("casefold") => {
            // the known finding of C15
            let mut r = Real::new(Algo::V1);
            r.set(&[Set::Case(Case::Insensitive)]);
            println!("{}", r.distance(false, "é", "É").is_some());
        },
        Some("normalize") => normalize_all(),
        Some("assumptions") => {
            let (n, bad) = assume::run();
            for b in &bad {
                println!("FAIL {b}");
            }
            println!("checked {n} bad {}", bad.len());
            std::process::exit(!bad.is_empty() as i32);
        },
        Some("cases") => cases(&args),
        Some("ratios") => {
            let mut r = gen::Rng(args[2].parse().unwrap());
            let mut v: Vec<(f64, String)> = vec![];
            let t0 = Instant::now();
            while t0.elapsed() < Duration::from_secs(args[3].parse().unwrap()) {
                let c = cost::case(&mut r);
                let x = cost::ratio(&c);
                let k = &c.calls[0];
                v.push((x, format!("{:?} {:?} ext={} m={} n={} calls={} q={:.20} c={:.20}", c.algo, k.sets, k.ext, k.q.len(), k.c.len(), c.calls.len(), k.q, k.c)));
            }
            v.sort_by(|a, b| b.0.total_cmp(&a.0));
            println!("{} cases", v.len());
            for x in v.iter().take(12) {
                println!("{:.3} {}", x.0, x.1);
            }
        },
        Some("literals") => {
            for (k, n) in mine::counts(std::path::Path::new(&args[2])) {
                println!("{k} {n}");
            }
        },
        _ => {
            eprintln!("usage: vxoracle search PROP SECONDS SEED OUT | replay FILE | normalize");
            std::process::exit(2);
        },
    }
}

/// `cases N SEED CASES RESULTS`: generated calls, and what the real code returns.
fn cases(args: &[String]) {
    count_memory(0);
    let n: usize = args[2].parse().unwrap();
    let mut r = gen::Rng(args[3].parse().unwrap());
    let (mut cs, mut rs) = (String::new(), String::new());
    for i in 0..n {
        let prop = format!("C{:02}", 1 + i % 19);
        let case = gen::case(&mut r, &prop);
        let mut real = Real::new(case.algo);
        writeln!(cs, "algo {:?}", case.algo).unwrap();
        for k in &case.calls {
            let sets: Vec<String> = k.sets.iter().map(set_str).collect();
            let pre: Vec<String> = k.prefill.iter().map(|r| format!("{}-{}", r.start, r.end)).collect();
            writeln!(cs, "call sets={} ext={} q={} c={} pre={}", sets.join(","), k.ext as u8, hex(&k.q), hex(&k.c), pre.join(",")).unwrap();
            real.set(&k.sets);
            let d = real.distance(k.ext, &k.q, &k.c);
            let mut buf = k.prefill.clone();
            let rd = real.ranges(k.ext, &k.q, &k.c, &mut buf);
            writeln!(rs, "{d:?} {rd:?} {buf:?}").unwrap();
        }
    }
    std::fs::write(&args[4], cs).unwrap();
    std::fs::write(&args[5], rs).unwrap();
}

/// All of `char`: normalisation as observed through matching.
fn normalize_all() {
    let mut on = Real::configured(Config { algo: Algo::V1, scheme: SchemeKind::Default, case: Case::Sensitive, norm: true });
    let mut off = Real::configured(Config { algo: Algo::V1, scheme: SchemeKind::Default, case: Case::Sensitive, norm: false });
    let mut bad = 0;
    let mut n = 0;
    for u in 0..=0x10FFFFu32 {
        let Some(c) = char::from_u32(u) else { continue };
        n += 1;
        let cs = c.to_string();
        let a = table::normalize(c);
        // the candidate character c matches its image (as a query) ...
        let q = a.to_string();
        let want = ceq(true, true, a, c);
        let got = on.distance(false, &q, &cs).is_some();
        // ... and itself iff it is compared as is
        let want2 = ceq(true, true, c, c);
        let got2 = on.distance(false, &cs, &cs).is_some();
        let got3 = off.distance(false, &q, &cs).is_some();
        if got != want || got2 != want2 || got3 != (a == c) {
            if bad == 0 {
                println!("FAIL {u:x} {c:?} image {a:?}: {got} {want} {got2} {want2} {got3}");
            }
            bad += 1;
        }
    }
    println!("checked {n} bad {bad}");
    std::process::exit((bad > 0) as i32);
}

fn search(args: &[String]) {
    let prop = args[2].clone();
    let secs: f64 = args[3].parse().unwrap();
    let seed: u64 = args[4].parse().unwrap();
    let out = args[5].clone();
    let _ = gen::HINTS.set(mine::hints(std::path::Path::new(&std::env::var("VX_SRC").unwrap_or("/repo/src".into()))));
    let sh = Arc::new(Shared {
        stop: AtomicBool::new(false),
        cases: AtomicU64::new(0),
        nontrivial: AtomicU64::new(0),
        found: Mutex::new(None),
    });
    let threads = std::thread::available_parallelism().map_or(4, |n| n.get()).min(if prop == "C20" { 4 } else { 8 });
    let current: Vec<Arc<Mutex<Option<(Instant, Case_)>>>> = (0..threads).map(|_| Arc::new(Mutex::new(None))).collect();
    let t0 = Instant::now();
    for (i, cur) in current.iter().enumerate() {
        let sh = sh.clone();
        let prop = prop.clone();
        let cur = cur.clone();
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                count_memory(i as u64);
                let log = std::env::var("VX_LOG").ok();
                let mut r = gen::Rng(seed.wrapping_mul(1000003).wrapping_add(i as u64 * 7919));
                let mut small = i as u64;
                let smalls = small_scopes(&prop);
                let mut scope = 0;
                let mut it = 0u64;
                while !sh.stop.load(O::Relaxed) {
                    it += 1;
                    let case = if it % 2 == 0 && scope < smalls.len() {
                        match small_case(&prop, &smalls[scope], small) {
                            Some(c) => {
                                small += threads as u64;
                                c
                            },
                            None => {
                                scope += 1;
                                small = i as u64;
                                continue;
                            },
                        }
                    } else {
                        gen::case(&mut r, &prop)
                    };
                    *cur.lock().unwrap() = Some((Instant::now(), case.clone()));
                    if let Some(l) = &log {
                        let _ = std::fs::write(format!("{l}.{i}"), encode(&prop, &case, "the process died in this call"));
                    }
                    let j = judge(&prop, &case);
                    *cur.lock().unwrap() = None;
                    sh.cases.fetch_add(1, O::Relaxed);
                    if nontrivial(&case) {
                        sh.nontrivial.fetch_add(1, O::Relaxed);
                    }
                    if let Some(w) = j {
                        let mut f = sh.found.lock().unwrap();
                        if f.is_none() {
                            *f = Some((case, w));
                        }
                        sh.stop.store(true, O::Relaxed);
                    }
                }
            })
            .unwrap();
    }
    let mut hung = None;
    while t0.elapsed().as_secs_f64() < secs && !sh.stop.load(O::Relaxed) {
        std::thread::sleep(Duration::from_millis(20));
        let stopped = STOPPED.load(O::SeqCst);
        for (i, c) in current.iter().enumerate() {
            if let Some((t, case)) = &*c.lock().unwrap() {
                if t.elapsed() > Duration::from_secs(15) || stopped && STOPPED_BY.load(O::SeqCst) == i as u64 {
                    hung = Some(case.clone());
                }
            }
        }
        if hung.is_some() {
            break;
        }
    }
    sh.stop.store(true, O::Relaxed);
    let cases = sh.cases.load(O::Relaxed);
    let nt = sh.nontrivial.load(O::Relaxed);
    let mut r = gen::Rng(seed);
    let sample = gen::case(&mut r, &prop);
    let report = |found: bool| {
        println!("cases {cases}");
        println!("nontrivial {nt}");
        println!("sample {:.700}", format!("{:?}", sample).replace('\n', " "));
        println!("found {found}");
    };
    if let Some(c) = hung {
        // again, alone in a process of its own: a busy machine is no finding
        let why = "no result after 15 s or 3 GiB (the call does not terminate)";
        std::fs::write(&out, encode(&prop, &c, why)).unwrap();
        let again = std::process::Command::new(std::env::current_exe().unwrap()).arg("replay").arg(&out).output();
        let bad = again.map_or(true, |o| !o.status.success());
        if !bad {
            let _ = std::fs::remove_file(&out);
        }
        report(bad);
        if bad {
            println!("why {why}");
        }
        std::process::exit(bad as i32);
    }
    let f = sh.found.lock().unwrap().take();
    if let Some((c, w)) = f {
        let (c, w) = if prop == "C20" {
            // again, nothing else running
            std::thread::sleep(Duration::from_millis(500));
            match judge(&prop, &c) {
                Some(w) => (c, w),
                None => {
                    report(false);
                    std::process::exit(0);
                },
            }
        } else {
            shrink(&prop, &c, &w, Duration::from_secs(10))
        };
        std::fs::write(&out, encode(&prop, &c, &w)).unwrap();
        report(true);
        println!("why {}", w.replace('\n', " "));
        std::process::exit(1);
    }
    report(false);
    std::process::exit(0);
}

fn small_scopes(prop: &str) -> Vec<gen::Small> {
    let s = |al: &str, qmax, cmax| gen::Small { al: al.chars().collect(), qmax, cmax };
    match prop {
        "C03" => vec![s("a b", 3, 5), s("aB é", 2, 4)],
        "C05" => vec![s("a |\\!'^$", 4, 0), s("ab ", 4, 2)],
        "C15" | "C16" => vec![s("aAéÉ", 3, 4)],
        "C14" | "C19" | "C20" => vec![],
        _ => vec![s("ab", 4, 7), s("aB_", 3, 5), s("aA/ ", 3, 4)],
    }
}

fn small_case(prop: &str, s: &gen::Small, n: u64) -> Option<Case_> {
    let k = s.al.len() as u64;
    let nq = gen::count_strings(k, s.qmax as u32);
    let nc = gen::count_strings(k, s.cmax as u32);
    let (algo, n) = (n % 2, n / 2);
    let (marks, n) = (n % 6, n / 6);
    if n >= nq * nc {
        return None;
    }
    let q: String = gen::nth_string(&s.al, n % nq)?.into_iter().collect();
    let c: String = gen::nth_string(&s.al, n / nq)?.into_iter().collect();
    let (ext, q) = match prop {
        "C05" => (true, q),
        _ => {
            let e = q.replace(' ', "\\ ");
            match marks {
                0 => (false, q),
                1 => (true, format!("'{e}")),
                2 => (true, format!("^{e}")),
                3 => (true, format!("{e}$")),
                4 => (true, format!("^{e}$")),
                _ => (true, format!("!{e}")),
            }
        },
    };
    let sets = match (n / 7) % 4 {
        0 => vec![Set::Case(Case::Sensitive)],
        1 => vec![Set::Case(Case::Insensitive), Set::Norm(true)],
        2 => vec![Set::Scheme(SchemeKind::Path)],
        _ => vec![Set::Scheme(SchemeKind::History), Set::Norm(true)],
    };
    let algo = if algo == 0 { Algo::V1 } else { Algo::V2 };
    Some(Case_ { algo, calls: vec![Call { sets, ext, q, c, prefill: vec![] }] })
}
