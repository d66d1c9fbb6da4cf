//! Keeps the contracts applicable to refactored code: small functions without
//! a contract are inlined at their calls, renamed functions and variables get
//! the names the contracts use back, and a few loop forms are normalized.
//! Each of these rewrites preserves the meaning of the program; on a tree
//! whose functions all have contracts under their own names none applies.
use crate::contracts::Contracts;
use crate::{impl_name, type_name, Module};
use proc_macro2::{Group, TokenStream, TokenTree};
use quote::{format_ident, ToTokens};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

// ------------------------------------------------------------ functions
#[derive(Clone)]
struct FnRef {
    module: usize,
    item: usize,
    sub: Option<usize>,
    key: String,
    name: String,
    /// type of the impl, for methods
    self_ty: Option<String>,
    in_trait: bool,
    sig: Signature,
    body: Block,
}

fn pfx(m: &str, n: &str) -> String {
    if m.is_empty() {
        n.to_string()
    } else {
        format!("{m}::{n}")
    }
}

fn functions(mods: &[Module]) -> Vec<FnRef> {
    let mut v = vec![];
    for (mi, m) in mods.iter().enumerate() {
        for (ii, it) in m.items.iter().enumerate() {
            match it {
                Item::Fn(f) => v.push(FnRef {
                    module: mi,
                    item: ii,
                    sub: None,
                    key: pfx(&m.path, &f.sig.ident.to_string()),
                    name: f.sig.ident.to_string(),
                    self_ty: None,
                    in_trait: false,
                    sig: f.sig.clone(),
                    body: (*f.block).clone(),
                }),
                Item::Impl(im) => {
                    for (si, x) in im.items.iter().enumerate() {
                        if let ImplItem::Fn(f) = x {
                            v.push(FnRef {
                                module: mi,
                                item: ii,
                                sub: Some(si),
                                key: pfx(&m.path, &format!("{}::{}", impl_name(im), f.sig.ident)),
                                name: f.sig.ident.to_string(),
                                self_ty: Some(type_name(&im.self_ty)),
                                in_trait: im.trait_.is_some(),
                                sig: f.sig.clone(),
                                body: f.block.clone(),
                            });
                        }
                    }
                },
                Item::Trait(t) => {
                    for (si, x) in t.items.iter().enumerate() {
                        if let TraitItem::Fn(f) = x {
                            if let Some(b) = &f.default {
                                v.push(FnRef {
                                    module: mi,
                                    item: ii,
                                    sub: Some(si),
                                    key: pfx(&m.path, &format!("{}::{}", t.ident, f.sig.ident)),
                                    name: f.sig.ident.to_string(),
                                    self_ty: Some(t.ident.to_string()),
                                    in_trait: true,
                                    sig: f.sig.clone(),
                                    body: b.clone(),
                                });
                            }
                        }
                    }
                },
                _ => {},
            }
        }
    }
    v
}

/// runs `f` on the signature and body of every function
fn each_fn(mods: &mut [Module], f: &mut dyn FnMut(&str, &mut Signature, &mut Block)) {
    for m in mods.iter_mut() {
        let path = m.path.clone();
        for it in m.items.iter_mut() {
            match it {
                Item::Fn(x) => f(&pfx(&path, &x.sig.ident.to_string()), &mut x.sig, &mut x.block),
                Item::Impl(im) => {
                    let n = impl_name(im);
                    for x in im.items.iter_mut() {
                        if let ImplItem::Fn(x) = x {
                            let k = pfx(&path, &format!("{n}::{}", x.sig.ident));
                            f(&k, &mut x.sig, &mut x.block);
                        }
                    }
                },
                Item::Trait(t) => {
                    let n = t.ident.to_string();
                    for x in t.items.iter_mut() {
                        if let TraitItem::Fn(x) = x {
                            let k = pfx(&path, &format!("{n}::{}", x.sig.ident));
                            if let Some(b) = x.default.as_mut() {
                                f(&k, &mut x.sig, b);
                            }
                        }
                    }
                },
                _ => {},
            }
        }
    }
}

// ------------------------------------------------------------ normal forms
/// `Some(p) = x.next()`
fn next_of(l: &ExprLet) -> Option<(Pat, Expr)> {
    let Pat::TupleStruct(t) = &*l.pat else { return None };
    if !t.path.is_ident("Some") || t.elems.len() != 1 {
        return None;
    }
    fn plain(p: &Pat) -> bool {
        match p {
            Pat::Ident(i) => i.subpat.is_none(),
            Pat::Wild(_) => true,
            Pat::Reference(r) => plain(&r.pat),
            Pat::Tuple(t) => t.elems.iter().all(plain),
            _ => false,
        }
    }
    let Expr::MethodCall(m) = &*l.expr else { return None };
    let ok = plain(&t.elems[0])
        && m.method == "next"
        && m.args.is_empty()
        && matches!(&*m.receiver, Expr::Path(p) if p.path.get_ident().is_some());
    ok.then(|| (t.elems[0].clone(), (*m.receiver).clone()))
}

struct Normal {
    /// `while let Some(x) = it.next()` is `for x in it.by_ref()`
    to_for: bool,
    /// `if c { continue; } rest` at the end of a loop is `if !c { rest }`
    no_continue: bool,
}
impl Normal {
    fn nest(b: &mut Block) {
        let is = |s: &Stmt| match s {
            Stmt::Expr(Expr::If(i), _) => {
                i.else_branch.is_none()
                    && !matches!(&*i.cond, Expr::Let(_))
                    && matches!(&i.then_branch.stmts[..], [Stmt::Expr(Expr::Continue(c), _)] if c.label.is_none())
            },
            _ => false,
        };
        let Some(k) = b.stmts.iter().position(is) else { return };
        let mut rest = Block { brace_token: Default::default(), stmts: b.stmts.split_off(k + 1) };
        Self::nest(&mut rest);
        let Some(Stmt::Expr(Expr::If(i), _)) = b.stmts.pop() else { unreachable!() };
        let c = &i.cond;
        let flip = match &**c {
            Expr::Binary(x) => match x.op {
                BinOp::Lt(_) => Some(BinOp::Ge(Default::default())),
                BinOp::Le(_) => Some(BinOp::Gt(Default::default())),
                BinOp::Gt(_) => Some(BinOp::Le(Default::default())),
                BinOp::Ge(_) => Some(BinOp::Lt(Default::default())),
                BinOp::Eq(_) => Some(BinOp::Ne(Default::default())),
                BinOp::Ne(_) => Some(BinOp::Eq(Default::default())),
                _ => None,
            }
            .map(|op| (x, op)),
            _ => None,
        };
        b.stmts.push(match flip {
            Some((x, op)) => {
                let (l, r) = (&x.left, &x.right);
                parse_quote!(if #l #op #r #rest)
            },
            None => parse_quote!(if !(#c) #rest),
        });
    }
}
impl VisitMut for Normal {
    fn visit_expr_for_loop_mut(&mut self, f: &mut ExprForLoop) {
        visit_mut::visit_expr_for_loop_mut(self, f);
        if self.no_continue {
            Self::nest(&mut f.body);
        }
    }
    fn visit_expr_loop_mut(&mut self, f: &mut ExprLoop) {
        visit_mut::visit_expr_loop_mut(self, f);
        if self.no_continue {
            Self::nest(&mut f.body);
        }
    }
    fn visit_expr_while_mut(&mut self, f: &mut ExprWhile) {
        visit_mut::visit_expr_while_mut(self, f);
        if self.no_continue {
            Self::nest(&mut f.body);
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        if !self.to_for {
            return;
        }
        // `let mut it = e; for x in it.by_ref()` is `for x in e`, if `it` is not used elsewhere
        let mut i = 0;
        while i + 1 < b.stmts.len() {
            let new = (|| {
                let Stmt::Local(l) = &b.stmts[i] else { return None };
                let Pat::Ident(id) = &l.pat else { return None };
                let init = l.init.as_ref().filter(|x| x.diverge.is_none())?;
                let Stmt::Expr(Expr::ForLoop(f), _) = &b.stmts[i + 1] else { return None };
                let Expr::MethodCall(m) = &*f.expr else { return None };
                let Expr::Path(p) = &*m.receiver else { return None };
                if m.method != "by_ref" || !p.path.is_ident(&id.ident) {
                    return None;
                }
                let mut used = FreePaths(Default::default());
                used.visit_block(&f.body);
                for s in &b.stmts[i + 2..] {
                    used.visit_stmt(s);
                }
                if used.0.contains(&id.ident.to_string()) {
                    return None;
                }
                let mut f = f.clone();
                f.expr = init.expr.clone();
                Some(Stmt::Expr(Expr::ForLoop(f), None))
            })();
            if let Some(n) = new {
                b.stmts[i + 1] = n;
                b.stmts.remove(i);
            } else {
                i += 1;
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let new: Option<Expr> = match e {
            Expr::While(w) => match &*w.cond {
                Expr::Let(l) if self.to_for && next_of(l).is_some() => {
                    let (p, x) = next_of(l).unwrap();
                    let (b, lab) = (&w.body.stmts, &w.label);
                    Some(parse_quote!(#lab for #p in #x.by_ref() { #(#b)* }))
                },
                Expr::Let(l) => {
                    let (p, x, b, lab) = (&l.pat, &l.expr, &w.body.stmts, &w.label);
                    Some(parse_quote!(#lab loop { let #p = #x else { break; }; #(#b)* }))
                },
                _ => None,
            },
            Expr::Match(m) if m.arms.len() == 2 && m.arms.iter().all(|a| a.guard.is_none()) => {
                let lit = |p: &Pat| match p {
                    Pat::Lit(l) => match &l.lit {
                        Lit::Bool(b) => Some(b.value),
                        _ => None,
                    },
                    _ => None,
                };
                let (a, b) = (&m.arms[0], &m.arms[1]);
                let c = &m.expr;
                let (x, y) = (&a.body, &b.body);
                match (lit(&a.pat), lit(&b.pat)) {
                    (Some(true), Some(false)) => Some(parse_quote!(if #c { #x } else { #y })),
                    (Some(false), Some(true)) => Some(parse_quote!(if #c { #y } else { #x })),
                    _ => None,
                }
            },
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
    }
}

// ------------------------------------------------------------ renaming
fn rename_tokens(t: TokenStream, map: &BTreeMap<String, String>) -> TokenStream {
    t.into_iter()
        .map(|tt| match tt {
            TokenTree::Ident(i) => match map.get(&i.to_string()) {
                Some(n) => TokenTree::Ident(format_ident!("{}", n)),
                None => TokenTree::Ident(i),
            },
            TokenTree::Group(g) => {
                TokenTree::Group(Group::new(g.delimiter(), rename_tokens(g.stream(), map)))
            },
            x => x,
        })
        .collect()
}

/// renames variables (not fields, methods, or paths of several segments)
struct RenameVars<'a>(&'a BTreeMap<String, String>);
impl RenameVars<'_> {
    fn id(&self, i: &mut Ident) {
        if let Some(n) = self.0.get(&i.to_string()) {
            *i = format_ident!("{}", n);
        }
    }
}
impl VisitMut for RenameVars<'_> {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        self.id(&mut p.ident);
        visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        if f.colon_token.is_none() {
            if let Pat::Ident(i) = &*f.pat {
                if self.0.contains_key(&i.ident.to_string()) {
                    f.colon_token = Some(Default::default());
                }
            }
        }
        self.visit_pat_mut(&mut f.pat);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        self.visit_expr_mut(&mut f.expr);
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.qself.is_none() && p.path.segments.len() == 1 && p.path.leading_colon.is_none() {
            self.id(&mut p.path.segments[0].ident);
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        m.tokens = rename_tokens(std::mem::take(&mut m.tokens), self.0);
    }
}

struct Binders(Vec<String>);
impl<'a> Visit<'a> for Binders {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        let n = p.ident.to_string();
        // an upper-case name is a constant or a variant
        if !n.starts_with(char::is_uppercase) && !self.0.contains(&n) {
            self.0.push(n);
        }
        visit::visit_pat_ident(self, p);
    }
}

fn binders(sig: &Signature, body: &Block) -> (Vec<String>, Vec<String>) {
    let mut p = Binders(vec![]);
    for a in &sig.inputs {
        if let FnArg::Typed(t) = a {
            p.visit_pat(&t.pat);
        }
    }
    let mut l = Binders(vec![]);
    l.visit_block(body);
    (p.0, l.0)
}

/// single-segment paths that are not called
struct FreePaths(BTreeSet<String>);
impl<'a> Visit<'a> for FreePaths {
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        if !matches!(&*c.func, Expr::Path(_)) {
            self.visit_expr(&c.func);
        }
        for a in &c.args {
            self.visit_expr(a);
        }
    }
    fn visit_expr_path(&mut self, p: &'a ExprPath) {
        if p.path.segments.len() == 1 {
            self.0.insert(p.path.segments[0].ident.to_string());
        }
    }
    fn visit_macro(&mut self, m: &'a Macro) {
        crate::idents(m.tokens.clone(), &mut self.0);
    }
}

// ------------------------------------------------------------ shapes
struct Loops(Vec<String>);
impl<'a> Visit<'a> for Loops {
    fn visit_expr(&mut self, e: &'a Expr) {
        match e {
            Expr::Loop(_) => self.0.push("loop".into()),
            Expr::While(_) => self.0.push("while".into()),
            Expr::ForLoop(f) => self.0.push(format!(
                "for {} in {}",
                match &*f.pat {
                    Pat::Ident(_) | Pat::Wild(_) => "x",
                    _ => "(..)",
                },
                match &*f.expr {
                    Expr::Range(_) => "range",
                    _ => "iter",
                }
            )),
            Expr::MethodCall(m)
                if ["map", "find_map", "take_while", "for_each", "any", "all", "position",
                    "rposition", "sum", "count", "fold", "filter"]
                .contains(&m.method.to_string().as_str()) =>
            {
                self.0.push(m.method.to_string())
            },
            _ => {},
        }
        visit::visit_expr(self, e);
    }
}

/// Does a loop use one of these variables without declaring it?
struct Crossing<'a>(&'a [String], bool);
impl<'a, 'b> Visit<'b> for Crossing<'a> {
    fn visit_expr(&mut self, e: &'b Expr) {
        if matches!(e, Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_)) {
            let mut used = FreePaths(Default::default());
            visit::visit_expr(&mut used, e);
            let mut here = Binders(vec![]);
            visit::visit_expr(&mut here, e);
            self.1 |= self.0.iter().any(|x| used.0.contains(x) && !here.0.contains(x));
        }
        visit::visit_expr(self, e);
    }
}

fn flat(t: TokenStream, out: &mut Vec<String>) {
    for tt in t {
        match tt {
            TokenTree::Group(g) => {
                out.push(format!("{:?}(", g.delimiter()));
                flat(g.stream(), out);
                out.push(")".into());
            },
            x => out.push(x.to_string()),
        }
    }
}

pub fn shape(sig: &Signature, body: &Block) -> Value {
    let (params, locals) = binders(sig, body);
    let mut l = Loops(vec![]);
    l.visit_block(body);
    let mut toks = vec![];
    flat(body.to_token_stream(), &mut toks);
    json!({"params": params, "locals": locals, "loops": l.0, "tokens": toks.join(" ")})
}

pub fn shapes(mods: &mut [Module], con: &Contracts) -> Value {
    let mut m = serde_json::Map::new();
    each_fn(mods, &mut |k, s, b| {
        if con.fns.contains_key(k) {
            m.insert(k.to_string(), shape(s, b));
        }
    });
    Value::Object(m)
}

fn strings(v: &Value) -> Vec<String> {
    v.as_array()
        .map(|a| a.iter().filter_map(|x| x.as_str().map(String::from)).collect())
        .unwrap_or_default()
}

/// why the proof of a function, written for the recorded shape, may fail for
/// another reason than wrong code
/// the length of the longest common subsequence
fn common(a: &[String], b: &[String], keep: impl Fn(&String) -> bool) -> usize {
    let b: Vec<&String> = b.iter().filter(|x| keep(x)).collect();
    let mut row = vec![0usize; b.len() + 1];
    for x in a.iter().filter(|x| keep(x)) {
        let mut diag = 0;
        for (j, y) in b.iter().enumerate() {
            let up = row[j + 1];
            row[j + 1] = if x == *y { diag + 1 } else { up.max(row[j]) };
            diag = up;
        }
    }
    row[b.len()]
}

pub fn differs(old: &Value, new: &Value) -> Option<String> {
    if old["loops"] != new["loops"] {
        return Some(format!("its loops are {} instead of {}", new["loops"], old["loops"]));
    }
    let split = |v: &Value| -> Vec<String> {
        v["tokens"].as_str().unwrap_or("").split(' ').map(String::from).collect()
    };
    let (a, b) = (split(old), split(new));
    if a == b {
        return None;
    }
    let (mut x, mut y) = (a.clone(), b.clone());
    // the position of a comma or a pair of parentheses is no difference
    let noise = |s: &String| !["," , "Parenthesis(", ")", ";"].contains(&s.as_str());
    x.retain(noise);
    y.retain(noise);
    x.sort();
    y.sort();
    if x == y {
        return Some("its statements are permuted".into());
    }
    let mut count: HashMap<&String, i64> = HashMap::new();
    for t in &x {
        *count.entry(t).or_default() += 1;
    }
    for t in &y {
        *count.entry(t).or_default() -= 1;
    }
    // a loop that is left by `break` instead of `return`, or the other way round
    let n = |t: &str| count.get(&t.to_string()).copied().unwrap_or(0);
    if n("break") * (n("return") + n("?")) < 0 {
        return Some("it leaves its loops in other ways".into());
    }
    if n("continue") < 0 {
        return Some("it continues its loops in other places".into());
    }
    let diff: i64 = count.values().map(|v| v.abs()).sum();
    // a statement was moved, and little else happened
    let moved = (x.len() as i64 + y.len() as i64 - diff) / 2 - common(&a, &b, noise) as i64;
    if moved >= 8 && diff <= 12 {
        return Some("its statements are permuted".into());
    }
    if diff > 30 && diff * 3 > x.len() as i64 {
        return Some("it was rewritten".into());
    }
    None
}

// ------------------------------------------------------------ inlining
struct Subst<'a> {
    /// parameter -> (place it stands for, how it is passed: "" | "&" | "&mut")
    map: &'a HashMap<String, (Expr, &'static str)>,
    ok: bool,
}
impl Subst<'_> {
    fn get(&self, e: &Expr) -> Option<(Expr, &'static str)> {
        match e {
            Expr::Path(p) if p.qself.is_none() && p.path.segments.len() == 1 => {
                self.map.get(&p.path.segments[0].ident.to_string()).cloned()
            },
            _ => None,
        }
    }
}
impl VisitMut for Subst<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => {
                if let Some((x, how)) = self.get(&u.expr) {
                    *e = if how.is_empty() { parse_quote!(*#x) } else { x };
                    return;
                }
            },
            Expr::Field(f) => {
                if let Some((x, _)) = self.get(&f.base) {
                    f.base = Box::new(x);
                    return;
                }
            },
            Expr::Index(i) => {
                if let Some((x, _)) = self.get(&i.expr) {
                    i.expr = Box::new(x);
                    self.visit_expr_mut(&mut i.index);
                    return;
                }
            },
            Expr::MethodCall(m) => {
                if let Some((x, _)) = self.get(&m.receiver) {
                    m.receiver = Box::new(x);
                    for a in m.args.iter_mut() {
                        self.visit_expr_mut(a);
                    }
                    return;
                }
            },
            _ => {},
        }
        if let Some((x, how)) = self.get(e) {
            *e = match how {
                "&" => parse_quote!(&#x),
                "&mut" => parse_quote!(&mut #x),
                _ => x,
            };
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        self.visit_expr_mut(&mut f.expr);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        let mut s = BTreeSet::new();
        crate::idents(m.tokens.clone(), &mut s);
        if s.iter().any(|i| self.map.contains_key(i)) {
            self.ok = false;
        }
    }
}

/// `x`, `x.y`, `self.x.y`: evaluating it has no effect
fn is_place(e: &Expr) -> bool {
    match e {
        Expr::Path(p) => p.qself.is_none() && p.path.segments.len() == 1,
        Expr::Field(f) => is_place(&f.base),
        Expr::Paren(p) => is_place(&p.expr),
        _ => false,
    }
}

struct Leaves(bool);
impl<'a> Visit<'a> for Leaves {
    fn visit_expr(&mut self, e: &'a Expr) {
        match e {
            Expr::Return(_) | Expr::Try(_) => self.0 = true,
            Expr::Closure(_) => {},
            _ => visit::visit_expr(self, e),
        }
    }
}

struct Erase<'a>(&'a HashMap<String, TokenStream>, bool);
impl VisitMut for Erase<'_> {
    fn visit_lifetime_mut(&mut self, l: &mut Lifetime) {
        *l = Lifetime::new("'_", proc_macro2::Span::call_site());
    }
    fn visit_type_path_mut(&mut self, t: &mut TypePath) {
        if t.path.segments.len() == 1 {
            if let Some(x) = self.0.get(&t.path.segments[0].ident.to_string()) {
                if let Ok(n) = parse2::<TypePath>(x.clone()) {
                    *t = n;
                    return;
                }
            }
        }
        visit_mut::visit_type_path_mut(self, t);
    }
    fn visit_type_impl_trait_mut(&mut self, _: &mut TypeImplTrait) {
        self.1 = true;
    }
}

struct Inliner<'a> {
    cands: &'a HashMap<String, FnRef>,
    module_path: String,
    /// type of the impl the function is in
    self_ty: Option<String>,
    k: usize,
    done: usize,
    into: BTreeSet<String>,
}

impl Inliner<'_> {
    fn inline(&mut self, f: &FnRef, recv: Option<&Expr>, args: Vec<&Expr>, generics: Vec<TokenStream>) -> Option<Expr> {
        let mut body = f.body.clone();
        // const and type parameters
        let gp: Vec<String> = f
            .sig
            .generics
            .params
            .iter()
            .filter_map(|p| match p {
                GenericParam::Const(c) => Some(c.ident.to_string()),
                GenericParam::Type(t) => Some(t.ident.to_string()),
                _ => None,
            })
            .collect();
        let mut gmap: HashMap<String, TokenStream> = HashMap::new();
        if !generics.is_empty() {
            if generics.len() != gp.len() {
                return None;
            }
            gmap = gp.iter().cloned().zip(generics).collect();
            fn go(t: TokenStream, m: &HashMap<String, TokenStream>) -> TokenStream {
                t.into_iter()
                    .flat_map(|tt| match tt {
                        TokenTree::Ident(i) => match m.get(&i.to_string()) {
                            Some(x) => x.clone(),
                            None => TokenTree::Ident(i).into(),
                        },
                        TokenTree::Group(g) => {
                            TokenTree::Group(Group::new(g.delimiter(), go(g.stream(), m))).into()
                        },
                        x => x.into(),
                    })
                    .collect()
            }
            body = parse2(go(body.to_token_stream(), &gmap)).ok()?;
        } else if !gp.is_empty() {
            let mut s = BTreeSet::new();
            crate::idents(body.to_token_stream(), &mut s);
            if gp.iter().any(|g| s.contains(g)) {
                return None;
            }
        }
        let bound: HashSet<String> = {
            let mut b = Binders(vec![]);
            b.visit_block(&body);
            b.0.into_iter().collect()
        };
        let names = |e: &Expr| {
            let mut s = BTreeSet::new();
            crate::idents(e.to_token_stream(), &mut s);
            s
        };
        let mut map: HashMap<String, (Expr, &'static str)> = HashMap::new();
        let mut lets: Vec<Stmt> = vec![];
        let mut ren: BTreeMap<String, String> = BTreeMap::new();
        // the receiver
        let mut params = f.sig.inputs.iter();
        if let Some(FnArg::Receiver(r)) = f.sig.inputs.first() {
            params.next();
            let recv = recv?;
            let is_self = matches!(recv, Expr::Path(p) if p.path.is_ident("self"));
            if !is_self {
                if !is_place(recv) || names(recv).iter().any(|n| bound.contains(n)) {
                    return None;
                }
                let how = match (&r.reference, &r.mutability) {
                    (Some(_), Some(_)) => "&mut",
                    (Some(_), None) => "&",
                    _ => "",
                };
                map.insert("self".into(), (recv.clone(), how));
            }
        } else if recv.is_some() {
            return None;
        }
        let typed: Vec<&PatType> =
            params.filter_map(|p| if let FnArg::Typed(t) = p { Some(t) } else { None }).collect();
        if typed.len() != args.len() {
            return None;
        }
        self.k += 1;
        let all: Vec<BTreeSet<String>> = args.iter().map(|a| names(a)).collect();
        for (i, (t, a)) in typed.iter().zip(&args).enumerate() {
            let Pat::Ident(p) = &*t.pat else { return None };
            let pname = p.ident.to_string();
            let shared = all.iter().enumerate().any(|(j, s)| {
                j != i && args[j].to_token_stream().to_string().starts_with("& mut")
                    && s.iter().any(|n| all[i].contains(n))
            });
            let (inner, how): (&Expr, &'static str) = match a {
                Expr::Reference(r) if r.mutability.is_some() => (&r.expr, "&mut"),
                Expr::Reference(r) => (&r.expr, "&"),
                x => (x, ""),
            };
            let captured = all[i].iter().any(|n| bound.contains(n));
            if p.mutability.is_none() && !shared && !captured && is_place(inner) && !bound.contains(&pname) {
                map.insert(pname, (inner.clone(), how));
                continue;
            }
            let fresh = if bound.contains(&pname) || all.iter().skip(i + 1).any(|s| s.contains(&pname))
                || map.values().any(|(e, _)| names(e).contains(&pname))
            {
                let n = format!("vx_h{}_{}", self.k, pname);
                if bound.contains(&pname) {
                    // shadowed inside: the first uses cannot be told apart
                    return None;
                }
                ren.insert(pname.clone(), n.clone());
                n
            } else {
                pname.clone()
            };
            let id = format_ident!("{}", fresh);
            let m = &p.mutability;
            let mut ty = (*t.ty).clone();
            let mut er = Erase(&gmap, false);
            er.visit_type_mut(&mut ty);
            let mentions = {
                let mut s = BTreeSet::new();
                crate::idents(ty.to_token_stream(), &mut s);
                gp.iter().any(|g| s.contains(g))
            };
            // later arguments must not be moved past an effect: keep the order
            lets.push(if er.1 || mentions {
                parse_quote!(let #m #id = #a;)
            } else {
                parse_quote!(let #m #id: #ty = #a;)
            });
        }
        RenameVars(&ren).visit_block_mut(&mut body);
        let mut s = Subst { map: &map, ok: true };
        s.visit_block_mut(&mut body);
        if !s.ok {
            return None;
        }
        self.done += 1;
        self.into.insert(f.key.clone());
        let mut stmts = lets;
        stmts.extend(body.stmts);
        if let [Stmt::Expr(e, None)] = &stmts[..] {
            return Some(match e {
                Expr::If(_) | Expr::Match(_) | Expr::Block(_) | Expr::Path(_) | Expr::Call(_)
                | Expr::MethodCall(_) | Expr::Field(_) | Expr::Lit(_) => e.clone(),
                e => parse_quote!((#e)),
            });
        }
        Some(parse_quote!({ #(#stmts)* }))
    }
}

fn turbofish(a: &PathArguments) -> Vec<TokenStream> {
    match a {
        PathArguments::AngleBracketed(a) => a
            .args
            .iter()
            .filter(|g| !matches!(g, GenericArgument::Lifetime(_)))
            .map(|g| g.to_token_stream())
            .collect(),
        _ => vec![],
    }
}

impl VisitMut for Inliner<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let new = match &*e {
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) if p.qself.is_none() => {
                    let last = p.path.segments.last().unwrap();
                    match self.cands.get(&last.ident.to_string()) {
                        Some(f) => {
                            let f = f.clone();
                            let n = p.path.segments.len();
                            let owner = if n > 1 { Some(p.path.segments[n - 2].ident.to_string()) } else { None };
                            let args: Vec<&Expr> = c.args.iter().collect();
                            let own = owner.as_ref().map_or(false, |o| {
                                f.self_ty.as_ref() == Some(o)
                                    || (o == "Self" && f.self_ty.is_some() && f.self_ty == self.self_ty)
                            });
                            let has_self = matches!(f.sig.inputs.first(), Some(FnArg::Receiver(_)));
                            if f.self_ty.is_none() || (own && !has_self) {
                                self.inline(&f, None, args, turbofish(&last.arguments))
                            } else {
                                None
                            }
                        },
                        None => None,
                    }
                },
                _ => None,
            },
            Expr::MethodCall(m) => match self.cands.get(&m.method.to_string()) {
                Some(f) if f.self_ty.is_some() => {
                    let f = f.clone();
                    let g = m
                        .turbofish
                        .as_ref()
                        .map(|t| turbofish(&PathArguments::AngleBracketed(t.clone())))
                        .unwrap_or_default();
                    let args: Vec<&Expr> = m.args.iter().collect();
                    self.inline(&f, Some(&m.receiver), args, g)
                },
                _ => None,
            },
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
    }
}

/// is the function (name, is it a method) used?
struct Uses<'a>(&'a str, bool, bool);
impl<'a> Visit<'a> for Uses<'_> {
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        if m.method == self.0 {
            self.1 = true;
        }
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_path(&mut self, p: &'a ExprPath) {
        let n = p.path.segments.len();
        if p.path.segments[n - 1].ident == self.0 && (n > 1 || !self.2) {
            self.1 = true;
        }
    }
    fn visit_macro(&mut self, m: &'a Macro) {
        let mut s = BTreeSet::new();
        crate::idents(m.tokens.clone(), &mut s);
        if s.contains(self.0) {
            self.1 = true;
        }
    }
}

fn used(mods: &[Module], f: &FnRef) -> bool {
    functions(mods).iter().any(|g| {
        if g.key == f.key {
            return false;
        }
        let mut u = Uses(&f.name, false, f.self_ty.is_some());
        u.visit_block(&g.body);
        u.1
    })
}

fn inline_all(mods: &mut Vec<Module>, con: &Contracts, notes: &mut Vec<String>, touched: &mut BTreeMap<String, String>) {
    for _ in 0..6 {
        let fns = functions(mods);
        let mut by_name: HashMap<String, usize> = HashMap::new();
        for f in &fns {
            *by_name.entry(f.name.clone()).or_default() += 1;
        }
        let mut cands: HashMap<String, FnRef> = HashMap::new();
        for f in &fns {
            if con.fns.contains_key(&f.key) || f.in_trait || by_name[&f.name] != 1 {
                continue;
            }
            if con.opaque.contains(&mods[f.module].path) || con.drops.iter().any(|d| f.key.starts_with(d.as_str())) {
                continue;
            }
            let mut l = Leaves(false);
            l.visit_block(&f.body);
            let mut rec = Uses(&f.name, false, f.self_ty.is_some());
            rec.visit_block(&f.body);
            if l.0 || rec.1 {
                continue;
            }
            cands.insert(f.name.clone(), f.clone());
        }
        if cands.is_empty() {
            return;
        }
        let mut done = 0;
        let mut k = 0;
        let mut inlined: BTreeSet<String> = BTreeSet::new();
        let tys: HashMap<String, Option<String>> =
            fns.iter().map(|f| (f.key.clone(), f.self_ty.clone())).collect();
        each_fn(mods, &mut |key, _, b| {
            let mut i = Inliner {
                cands: &cands,
                module_path: String::new(),
                self_ty: tys.get(key).cloned().flatten(),
                k,
                done: 0,
                into: Default::default(),
            };
            i.visit_block_mut(b);
            let _ = &i.module_path;
            k = i.k;
            done += i.done;
            inlined.extend(i.into.iter().cloned());
            if i.done > 0 {
                touched.insert(key.to_string(), format!("calls of {} were inlined", i.into.iter().cloned().collect::<Vec<_>>().join(", ")));
            }
        });
        if done == 0 {
            return;
        }
        // the inlined functions are no longer needed
        let mut gone: Vec<FnRef> =
            cands.into_values().filter(|f| inlined.contains(&f.key) && !used(mods, f)).collect();
        gone.sort_by_key(|f| (f.module, f.item, f.sub));
        for f in gone.iter().rev() {
            notes.push(format!("inlined {}", f.key));
            match (f.sub, &mut mods[f.module].items[f.item]) {
                (Some(s), Item::Impl(im)) => {
                    im.items.remove(s);
                },
                _ => {
                    mods[f.module].items.remove(f.item);
                },
            }
        }
    }
}

// ------------------------------------------------------------ driver
fn sig_types(s: &Signature) -> String {
    let a: Vec<String> = s
        .inputs
        .iter()
        .map(|a| match a {
            FnArg::Typed(t) => t.ty.to_token_stream().to_string(),
            FnArg::Receiver(r) => r.to_token_stream().to_string(),
        })
        .collect();
    format!("{} -> {}", a.join(", "), s.output.to_token_stream())
}

/// a contracted function that is gone, and one without contract with the same
/// container and the same types: it was renamed
fn renamed_fns(mods: &mut Vec<Module>, con: &Contracts, shapes: &Value, notes: &mut Vec<String>) {
    let fns = functions(mods);
    let have: HashSet<&String> = fns.iter().map(|f| &f.key).collect();
    let all_names: HashSet<&String> = fns.iter().map(|f| &f.name).collect();
    let mut map: BTreeMap<String, String> = BTreeMap::new();
    let container = |k: &str| k.rsplit_once("::").map(|x| x.0.to_string()).unwrap_or_default();
    for (k, _) in con.fns.iter().filter(|(k, _)| !have.contains(k) && shapes.get(k.as_str()).is_some()) {
        let want = shapes[k]["sig"].as_str().unwrap_or("").to_string();
        let c: Vec<&FnRef> = fns
            .iter()
            .filter(|f| {
                !con.fns.contains_key(&f.key)
                    && !f.in_trait
                    && container(&f.key) == container(k)
                    && sig_types(&f.sig) == want
            })
            .collect();
        let old = k.rsplit("::").next().unwrap().to_string();
        if c.len() == 1 && !all_names.contains(&old) && fns.iter().filter(|f| f.name == c[0].name).count() == 1 {
            notes.push(format!("{} is now called {}", k, c[0].name));
            map.insert(c[0].name.clone(), old);
        }
    }
    if map.is_empty() {
        return;
    }
    for m in mods.iter_mut() {
        for it in m.items.iter_mut() {
            let t = rename_tokens(it.to_token_stream(), &map);
            if let Ok(n) = parse2::<Item>(t) {
                *it = n;
            }
        }
    }
}

pub struct Aligned {
    pub notes: Vec<String>,
    /// key -> why a failing proof of it is not conclusive
    pub changed: BTreeMap<String, String>,
    /// functions with new local variables: their loops are verified with what is
    /// known before the loop
    pub open: BTreeSet<String>,
    pub shapes: Value,
}

pub fn align(mods: &mut Vec<Module>, con: &Contracts, recorded: &Value) -> Aligned {
    let mut notes = vec![];
    let mut changed: BTreeMap<String, String> = BTreeMap::new();
    renamed_fns(mods, con, recorded, &mut notes);
    inline_all(mods, con, &mut notes, &mut changed);
    each_fn(mods, &mut |k, _, b| {
        let fors = |l: &[String]| l.iter().filter(|x| x.starts_with("for ")).count();
        let mut l = Loops(vec![]);
        l.visit_block(b);
        let to_for = recorded.get(k).is_some_and(|o| fors(&strings(&o["loops"])) > fors(&l.0));
        let conts = |t: &str| t.split(' ').filter(|x| *x == "continue").count();
        let no_continue = recorded.get(k).is_some_and(|o| {
            conts(o["tokens"].as_str().unwrap_or("")) < conts(&b.to_token_stream().to_string())
        });
        Normal { to_for, no_continue }.visit_block_mut(b)
    });
    let mut now = serde_json::Map::new();
    let mut open = BTreeSet::new();
    each_fn(mods, &mut |k, s, b| {
        if !con.fns.contains_key(k) {
            return;
        }
        if let Some(old) = recorded.get(k) {
            let (p, l) = binders(s, b);
            let cat = |a: Vec<String>, b: Vec<String>| {
                let mut v = a;
                for x in b {
                    if !v.contains(&x) {
                        v.push(x);
                    }
                }
                v
            };
            let new = cat(p.clone(), l);
            let was = cat(strings(&old["params"]), strings(&old["locals"]));
            let mut map: BTreeMap<String, String> = BTreeMap::new();
            // parameters by position, variables by order of appearance
            let op = strings(&old["params"]);
            if op.len() == p.len() {
                for (o, n) in op.iter().zip(&p) {
                    if o != n && !new.contains(o) {
                        map.insert(n.clone(), o.clone());
                    }
                }
            }
            let extra: Vec<&String> = new.iter().filter(|x| !was.contains(x) && !map.contains_key(*x)).collect();
            let missing: Vec<&String> =
                was.iter().filter(|x| !new.contains(x) && !map.values().any(|v| v == *x)).collect();
            if extra.len() == missing.len() {
                for (n, o) in extra.iter().zip(&missing) {
                    map.insert((*n).clone(), (*o).clone());
                }
            }
            if extra.len() > missing.len() {
                let names: Vec<String> = extra.iter().map(|x| x.to_string()).collect();
                let mut c = Crossing(&names, false);
                c.visit_block(b);
                if c.1 {
                    open.insert(k.to_string());
                }
            }
            let mut fp = FreePaths(Default::default());
            fp.visit_block(b);
            if !map.is_empty() && map.values().all(|o| !fp.0.contains(o)) {
                let mut r = RenameVars(&map);
                for a in s.inputs.iter_mut() {
                    if let FnArg::Typed(t) = a {
                        r.visit_pat_mut(&mut t.pat);
                    }
                }
                r.visit_block_mut(b);
                let d: Vec<String> = map.iter().map(|(n, o)| format!("{n} -> {o}")).collect();
                notes.push(format!("{k}: renamed back {}", d.join(", ")));
                changed.entry(k.to_string()).or_insert("its variables were renamed".into());
            }
        }
        let mut sh = shape(s, b);
        sh["sig"] = json!(sig_types(s));
        if let Some(old) = recorded.get(k) {
            if let Some(w) = differs(old, &sh) {
                changed.insert(k.to_string(), w);
            }
        }
        now.insert(k.to_string(), sh);
    });
    Aligned { notes, changed, open, shapes: Value::Object(now) }
}
