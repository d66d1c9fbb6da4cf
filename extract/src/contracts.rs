//! Reader for the contract files (/verif/contracts/*.vx).
use std::collections::BTreeMap;

#[derive(Default, Debug, Clone)]
pub struct FnContract {
    pub ret: Option<String>,
    pub attrs: Vec<String>,
    pub contract: String,
    pub loops: BTreeMap<usize, String>,
    /// (anchor, text)
    pub proofs: Vec<(String, String)>,
    pub closures: BTreeMap<usize, String>,
    pub external: bool,
    pub file: String,
}

#[derive(Default, Debug)]
pub struct Contracts {
    pub prelude: String,
    /// module path -> raw text
    pub items: BTreeMap<String, String>,
    pub impl_items: BTreeMap<String, String>,
    pub trait_items: BTreeMap<String, String>,
    pub fns: BTreeMap<String, FnContract>,
    /// constants and statics with a contract
    pub consts: BTreeMap<String, FnContract>,
    pub drops: Vec<String>,
    /// contracts on the number of steps, merged into `fns`
    pub costs: BTreeMap<String, FnContract>,
    /// impl Iterator blocks that stay inherent
    pub inherent_iters: Vec<String>,
    /// types whose comparison impls stay trait impls, checked against std's contracts
    pub compared: Vec<String>,
    /// modules of which only external functions are kept
    pub opaque: Vec<String>,
}

pub fn load(dir: &str) -> Result<Contracts, String> {
    let mut files: Vec<_> = std::fs::read_dir(dir)
        .map_err(|e| e.to_string())?
        .filter_map(|e| e.ok().map(|e| e.path()))
        .filter(|p| p.extension().map_or(false, |e| e == "vx"))
        .collect();
    files.sort();
    let clock = clock();
    let mut c = Contracts::default();
    for f in files {
        // cost is about distance computations: no parser, no theorems, no clients
        let name = f.file_name().unwrap().to_string_lossy().to_string();
        if clock && ["95_", "96_"].iter().any(|p| name.starts_with(p)) {
            continue;
        }
        let text = std::fs::read_to_string(&f).map_err(|e| e.to_string())?;
        parse(&mut c, &text, &f.file_name().unwrap().to_string_lossy())?;
    }
    for (k, x) in std::mem::take(&mut c.costs) {
        let e = c.fns.entry(k).or_insert_with(|| FnContract { file: x.file.clone(), ..Default::default() });
        e.contract = merge(&e.contract, &x.contract);
        for (n, t) in x.loops {
            let l = e.loops.entry(n).or_default();
            *l = merge(l, &t);
        }
        e.proofs.extend(x.proofs);
        e.attrs.extend(x.attrs);
    }
    Ok(c)
}

/// Is the cost of the code asked for?
pub fn clock() -> bool {
    std::env::var("VX_CLOCK").is_ok()
}

const CLAUSES: [&str; 5] = ["requires", "invariant_except_break", "invariant", "ensures", "decreases"];

/// the clauses of a contract: (keyword, text)
fn clauses(s: &str) -> Vec<(usize, String)> {
    let mut out: Vec<(usize, String)> = vec![];
    let mut depth = 0i32;
    for l in s.lines() {
        let t = l.trim_start();
        let k = CLAUSES.iter().position(|k| {
            t.strip_prefix(k).map_or(false, |r| r.is_empty() || r.starts_with(char::is_whitespace))
        });
        let mut line = l;
        if depth == 0 {
            if let Some(k) = k {
                out.push((k, String::new()));
                line = &t[CLAUSES[k].len()..];
            }
        }
        for c in line.split("//").next().unwrap().chars() {
            depth += match c {
                '(' | '[' | '{' => 1,
                ')' | ']' | '}' => -1,
                _ => 0,
            };
        }
        if let Some(x) = out.last_mut() {
            x.1.push_str(line);
            x.1.push('\n');
        }
    }
    out
}

/// one contract with the clauses of both
fn merge(a: &str, b: &str) -> String {
    let mut parts: BTreeMap<usize, Vec<String>> = BTreeMap::new();
    for (k, t) in clauses(a).into_iter().chain(clauses(b)) {
        parts.entry(k).or_default().push(t);
    }
    let mut s = String::new();
    for (k, ts) in parts {
        s.push_str(CLAUSES[k]);
        s.push('\n');
        for t in ts {
            s.push_str(t.trim_end());
            let bare: String =
                t.lines().map(|l| l.split("//").next().unwrap()).collect::<Vec<_>>().join(" ");
            s.push('\n');
            if !bare.trim_end().ends_with(',') && k != 4 {
                s.push_str(",\n");
            }
        }
    }
    s
}

fn parse(c: &mut Contracts, text: &str, file: &str) -> Result<(), String> {
    #[derive(Clone)]
    enum Dst {
        None,
        Prelude,
        Items(String),
        ImplItems(String),
        TraitItems(String),
        Fn(String),
        Const(String),
        Cost(String),
    }
    let clock = clock();
    #[derive(Clone)]
    enum Sub {
        None,
        Contract,
        Loop(usize),
        Proof(usize),
        Closure(usize),
    }
    let mut dst = Dst::None;
    let mut sub = Sub::None;
    for (n, line) in text.lines().enumerate() {
        if let Some(rest) = line.strip_prefix("@@ ") {
            sub = Sub::None;
            let (kw, arg) = rest.split_once(' ').unwrap_or((rest, ""));
            let arg = arg.trim().to_string();
            dst = match kw {
                "prelude" => Dst::Prelude,
                "items" => Dst::Items(arg),
                "impl-items" => Dst::ImplItems(arg),
                "trait-items" => Dst::TraitItems(arg),
                "clock-prelude" | "clock-items" | "clock-drop" | "cost" if !clock => Dst::None,
                "plain-items" | "plain-fn" if clock => Dst::None,
                "clock-prelude" => Dst::Prelude,
                "clock-items" | "plain-items" => Dst::Items(arg),
                "clock-drop" => {
                    c.drops.push(arg);
                    Dst::None
                },
                "cost" => {
                    c.costs.entry(arg.clone()).or_default().file = file.to_string();
                    Dst::Cost(arg)
                },
                "fn" | "plain-fn" => {
                    if c.fns.contains_key(&arg) {
                        return Err(format!("{file}:{}: duplicate contract for {arg}", n + 1));
                    }
                    c.fns.entry(arg.clone()).or_default().file = file.to_string();
                    Dst::Fn(arg)
                },
                "external" => {
                    let e = c.fns.entry(arg.clone()).or_default();
                    e.external = true;
                    e.file = file.to_string();
                    Dst::Fn(arg)
                },
                "const" => {
                    if c.consts.contains_key(&arg) {
                        return Err(format!("{file}:{}: duplicate contract for {arg}", n + 1));
                    }
                    c.consts.entry(arg.clone()).or_default().file = file.to_string();
                    Dst::Const(arg)
                },
                "drop" => {
                    c.drops.push(arg);
                    Dst::None
                },
                "compared" => {
                    c.compared.push(arg);
                    Dst::None
                },
                "opaque" => {
                    c.opaque.push(arg);
                    Dst::None
                },
                "inherent-iter" => {
                    c.inherent_iters.push(arg);
                    Dst::None
                },
                "#" => Dst::None,
                _ => return Err(format!("{file}:{}: unknown section {kw}", n + 1)),
            };
            continue;
        }
        let add = |s: &mut String| {
            s.push_str(line);
            s.push('\n');
        };
        match &dst {
            Dst::None => {},
            Dst::Prelude => add(&mut c.prelude),
            Dst::Items(m) => add(c.items.entry(m.clone()).or_default()),
            Dst::ImplItems(m) => add(c.impl_items.entry(m.clone()).or_default()),
            Dst::TraitItems(m) => add(c.trait_items.entry(m.clone()).or_default()),
            Dst::Fn(_) | Dst::Const(_) | Dst::Cost(_) => {
                let e = match &dst {
                    Dst::Fn(f) => c.fns.get_mut(f).unwrap(),
                    Dst::Const(f) => c.consts.get_mut(f).unwrap(),
                    Dst::Cost(f) => c.costs.get_mut(f).unwrap(),
                    _ => unreachable!(),
                };
                if let Some(rest) = line.strip_prefix('@') {
                    let (kw, arg) = rest.split_once(' ').unwrap_or((rest, ""));
                    let arg = arg.trim();
                    sub = match kw {
                        "ret" => {
                            e.ret = Some(arg.to_string());
                            Sub::None
                        },
                        "attr" => {
                            e.attrs.push(arg.to_string());
                            Sub::None
                        },
                        "contract" => Sub::Contract,
                        "loop" => {
                            let k = arg.parse().map_err(|_| format!("{file}:{}", n + 1))?;
                            e.loops.insert(k, String::new());
                            Sub::Loop(k)
                        },
                        "closure" => {
                            let k = arg.parse().map_err(|_| format!("{file}:{}", n + 1))?;
                            e.closures.insert(k, String::new());
                            Sub::Closure(k)
                        },
                        "proof" => {
                            e.proofs.push((arg.to_string(), String::new()));
                            Sub::Proof(e.proofs.len() - 1)
                        },
                        _ => return Err(format!("{file}:{}: unknown @{kw}", n + 1)),
                    };
                    continue;
                }
                match sub {
                    Sub::None => {},
                    Sub::Contract => add(&mut e.contract),
                    Sub::Loop(k) => add(e.loops.get_mut(&k).unwrap()),
                    Sub::Proof(k) => add(&mut e.proofs[k].1),
                    Sub::Closure(k) => add(e.closures.get_mut(&k).unwrap()),
                }
            },
        }
    }
    Ok(())
}
