//! Extracts the code under contract from nomad/norm's sources, lowers the
//! constructs Verus doesn't accept, weaves the contracts of
//! /verif/contracts in and prints one Verus file.
//!
//! usage: vxextract REPO_SRC CONTRACTS_DIR OUT.rs OUT.json
mod align;
mod contracts;
mod lower;

use contracts::Contracts;
use lower::{cfg_on_attrs, Lower};
use quote::{format_ident, quote, ToTokens};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Default)]
pub struct Ctx {
    pub from_impl: Option<String>,
    /// `const X: &[T] = &[..]` -> its initializer
    pub const_slices: HashMap<String, Expr>,
    /// free fn name -> fn pointer enum
    pub fn_values: HashMap<String, String>,
    /// fn pointer signature -> enum
    pub fnptr_enums: BTreeMap<String, String>,
    /// type aliases of fn pointers -> enum
    pub fnptr_aliases: HashMap<String, String>,
    pub index_types: HashSet<String>,
    /// `Output` of the `Index` impl of a type
    pub index_outputs: HashMap<String, Type>,
    /// names of fields holding, and fns returning, a fn pointer
    pub fnptr_sources: HashSet<String>,
    /// the crate's own methods
    pub methods: HashSet<String>,
    /// field names whose type is `Vec<_>`, or a reference to one, in every struct that has them
    pub vec_fields: HashSet<String>,
}

pub fn barefn_key(f: &TypeBareFn) -> String {
    let args: Vec<String> =
        f.inputs.iter().map(|a| a.ty.to_token_stream().to_string()).collect();
    let ret = match &f.output {
        ReturnType::Default => "unit".to_string(),
        ReturnType::Type(_, t) => t.to_token_stream().to_string(),
    };
    format!("{}->{}", args.join(","), ret)
}

fn sig_key(s: &Signature) -> Option<String> {
    let mut args = vec![];
    for a in &s.inputs {
        match a {
            FnArg::Typed(t) => args.push(t.ty.to_token_stream().to_string()),
            _ => return None,
        }
    }
    if !s.generics.params.is_empty() {
        return None;
    }
    let ret = match &s.output {
        ReturnType::Default => "unit".to_string(),
        ReturnType::Type(_, t) => t.to_token_stream().to_string(),
    };
    Some(format!("{}->{}", args.join(","), ret))
}

pub fn type_kind(cx: &Ctx, t: &Type) -> String {
    match t {
        Type::BareFn(_) => "fnptr".into(),
        Type::Reference(r) => type_kind(cx, &r.elem),
        Type::Path(p) => {
            let l = p.path.segments.last().unwrap().ident.to_string();
            if cx.fnptr_aliases.contains_key(&l) {
                "fnptr".into()
            } else {
                l
            }
        },
        _ => "?".into(),
    }
}

pub struct Module {
    pub path: String,
    pub items: Vec<Item>,
}

fn load(dir: &std::path::Path, file: &std::path::Path, path: &str, out: &mut Vec<Module>) {
    let text = std::fs::read_to_string(file)
        .unwrap_or_else(|e| fail(&format!("cannot read {}: {e}", file.display())));
    let ast = parse_file(&text)
        .unwrap_or_else(|e| fail(&format!("cannot parse {}: {e}", file.display())));
    load_items(dir, ast.items, path, out);
}

fn load_items(dir: &std::path::Path, items: Vec<Item>, path: &str, out: &mut Vec<Module>) {
    let mut kept = vec![];
    let idx = out.len();
    out.push(Module { path: path.to_string(), items: vec![] });
    for mut it in items {
        let keep = match &mut it {
            Item::Const(i) => cfg_on_attrs(&mut i.attrs),
            Item::Enum(i) => cfg_on_attrs(&mut i.attrs),
            Item::ExternCrate(_) => false,
            Item::Fn(i) => cfg_on_attrs(&mut i.attrs),
            Item::Impl(i) => cfg_on_attrs(&mut i.attrs),
            Item::Macro(_) => false,
            Item::Mod(i) => cfg_on_attrs(&mut i.attrs),
            Item::Static(i) => cfg_on_attrs(&mut i.attrs),
            Item::Struct(i) => cfg_on_attrs(&mut i.attrs),
            Item::Trait(i) => cfg_on_attrs(&mut i.attrs),
            Item::Type(i) => cfg_on_attrs(&mut i.attrs),
            Item::Use(i) => cfg_on_attrs(&mut i.attrs),
            _ => true,
        };
        if !keep {
            continue;
        }
        if let Item::Mod(m) = it {
            let name = m.ident.to_string();
            let sub = if path.is_empty() { name.clone() } else { format!("{path}::{name}") };
            match m.content {
                Some((_, items)) => load_items(&dir.join(&name), items, &sub, out),
                None => {
                    let a = dir.join(format!("{name}.rs"));
                    let b = dir.join(&name).join("mod.rs");
                    let f = if a.exists() { a } else { b };
                    load(&dir.join(&name), &f, &sub, out);
                },
            }
            continue;
        }
        kept.push(it);
    }
    out[idx].items = kept;
}

fn fail(m: &str) -> ! {
    eprintln!("vxextract: {m}");
    std::process::exit(2)
}

/// Removes every attribute, keeping cfg semantics, and every visibility
/// restriction.
struct Strip;
impl VisitMut for Strip {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.retain(|a| a.path().is_ident("derive") || a.path().is_ident("default"));
    }
    fn visit_visibility_mut(&mut self, v: &mut Visibility) {
        *v = Visibility::Public(Default::default());
    }
    fn visit_fields_named_mut(&mut self, f: &mut FieldsNamed) {
        f.named = std::mem::take(&mut f.named)
            .into_iter()
            .filter_map(|mut x| cfg_on_attrs(&mut x.attrs).then_some(x))
            .collect();
        visit_mut::visit_fields_named_mut(self, f);
    }
    fn visit_item_impl_mut(&mut self, i: &mut ItemImpl) {
        i.items.retain_mut(|x| match x {
            ImplItem::Fn(f) => cfg_on_attrs(&mut f.attrs),
            ImplItem::Const(f) => cfg_on_attrs(&mut f.attrs),
            ImplItem::Type(f) => cfg_on_attrs(&mut f.attrs),
            _ => true,
        });
        let is_trait = i.trait_.is_some();
        for a in i.attrs.iter() {
            let _ = a;
        }
        i.attrs.clear();
        for x in i.items.iter_mut() {
            if let ImplItem::Fn(f) = x {
                self.visit_impl_item_fn_mut(f);
                if is_trait {
                    f.vis = Visibility::Inherited;
                }
            }
            if let ImplItem::Type(t) = x {
                t.attrs.clear();
            }
        }
    }
    fn visit_item_mut(&mut self, i: &mut Item) {
        visit_mut::visit_item_mut(self, i);
    }
    fn visit_expr_struct_mut(&mut self, e: &mut ExprStruct) {
        e.fields = std::mem::take(&mut e.fields)
            .into_iter()
            .filter_map(|mut x| cfg_on_attrs(&mut x.attrs).then_some(x))
            .collect();
        if e.rest.is_some() && !e.fields.empty_or_trailing() {
            e.fields.push_punct(Default::default());
        }
        visit_mut::visit_expr_struct_mut(self, e);
    }
    fn visit_expr_match_mut(&mut self, e: &mut ExprMatch) {
        e.arms.retain_mut(|x| cfg_on_attrs(&mut x.attrs));
        visit_mut::visit_expr_match_mut(self, e);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain_mut(|s| match s {
            Stmt::Local(l) => cfg_on_attrs(&mut l.attrs),
            Stmt::Macro(m) => cfg_on_attrs(&mut m.attrs),
            Stmt::Expr(e, _) => {
                let mut a: Vec<Attribute> = expr_attrs(e);
                cfg_on_attrs(&mut a)
            },
            _ => true,
        });
        visit_mut::visit_block_mut(self, b);
    }
}

fn expr_attrs(e: &Expr) -> Vec<Attribute> {
    match e {
        Expr::Block(b) => b.attrs.clone(),
        Expr::If(b) => b.attrs.clone(),
        Expr::MethodCall(b) => b.attrs.clone(),
        Expr::Call(b) => b.attrs.clone(),
        Expr::Assign(b) => b.attrs.clone(),
        Expr::Match(b) => b.attrs.clone(),
        Expr::Macro(b) => b.attrs.clone(),
        _ => vec![],
    }
}

fn derives(attrs: &[Attribute]) -> Vec<String> {
    let mut v = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                v.push(m.path.segments.last().unwrap().ident.to_string());
                Ok(())
            });
        }
    }
    v
}

fn type_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => type_name(&r.elem),
        t => t.to_token_stream().to_string(),
    }
}

/// All identifiers occurring in a token stream (macro bodies included).
fn idents(t: proc_macro2::TokenStream, out: &mut BTreeSet<String>) {
    for tt in t {
        match tt {
            proc_macro2::TokenTree::Ident(i) => {
                out.insert(i.to_string());
            },
            proc_macro2::TokenTree::Group(g) => idents(g.stream(), out),
            _ => {},
        }
    }
}

struct FnInfo {
    key: String,
    name: String,
    uses: BTreeSet<String>,
}

// ------------------------------------------------------------------ consts
fn eval(e: &Expr, env: &HashMap<String, i128>, module: &str) -> Option<i128> {
    match e {
        Expr::Lit(l) => match &l.lit {
            Lit::Int(i) => i.base10_parse().ok(),
            _ => None,
        },
        Expr::Paren(p) => eval(&p.expr, env, module),
        Expr::Cast(c) => eval(&c.expr, env, module),
        Expr::Unary(u) if matches!(u.op, UnOp::Neg(_)) => Some(-eval(&u.expr, env, module)?),
        Expr::Binary(b) => {
            let (x, y) = (eval(&b.left, env, module)?, eval(&b.right, env, module)?);
            Some(match b.op {
                BinOp::Add(_) => x + y,
                BinOp::Sub(_) => x - y,
                BinOp::Mul(_) => x * y,
                BinOp::Div(_) if y != 0 => x / y,
                BinOp::Rem(_) if y != 0 => x % y,
                BinOp::BitOr(_) => x | y,
                BinOp::BitAnd(_) => x & y,
                BinOp::Shl(_) => x.checked_shl(y as u32)?,
                _ => return None,
            })
        },
        Expr::Path(p) => {
            let segs: Vec<String> =
                p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            if segs.len() == 1 {
                if let Some(v) = env.get(&format!("{module}::{}", segs[0])) {
                    return Some(*v);
                }
            }
            let suffix: Vec<String> = segs
                .into_iter()
                .filter(|s| s != "super" && s != "self" && s != "crate")
                .collect();
            let suffix = format!("::{}", suffix.join("::"));
            let c: Vec<_> =
                env.iter().filter(|(k, _)| format!("::{k}").ends_with(&suffix)).collect();
            if c.len() == 1 {
                Some(*c[0].1)
            } else {
                None
            }
        },
        _ => None,
    }
}

// ------------------------------------------------------------------ weaving
struct Weave<'a> {
    /// a const fn
    compile_time: bool,
    key: &'a str,
    c: Option<&'a contracts::FnContract>,
    nloops: usize,
    nclosures: usize,
    lost: Vec<String>,
    placed: Vec<bool>,
    /// how many statements each anchor has matched
    seen: Vec<usize>,
}

/// `TOKENS #n` -> (TOKENS, n)
fn nth(s: &str) -> (&str, usize) {
    match s.rsplit_once(" #") {
        Some((a, n)) => match n.trim().parse() {
            Ok(n) => (a, n),
            Err(_) => (s, 0),
        },
        None => (s, 0),
    }
}

/// puts a proof before every `return`
struct Exits<'a>(&'a str, usize);
impl VisitMut for Exits<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Closure(_) => {},
            Expr::Return(r) => {
                let p = mk_proof(self.0, self.1);
                *e = match &r.expr {
                    Some(x) => parse_quote!({ let vx_ret = #x; #p return vx_ret; }),
                    None => parse_quote!({ #p return; }),
                };
            },
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

fn norm_tokens(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

fn mk_proof(key: &str, i: usize) -> Stmt {
    parse_quote!(__vx_proof!(#key, #i);)
}

impl<'a> Weave<'a> {
    fn hit(&mut self, i: usize, n: usize) -> bool {
        self.seen[i] += 1;
        self.seen[i] == n + 1
    }
    fn loop_body(&mut self, b: &mut Block) -> usize {
        let k = self.nloops;
        self.nloops += 1;
        self.visit_block_mut(b);
        let key = self.key;
        if let Some(c) = self.c {
            for (i, (a, _)) in c.proofs.iter().enumerate() {
                if *a == format!("loop {k} head") {
                    b.stmts.insert(0, mk_proof(key, i));
                    self.placed[i] = true;
                }
                if *a == format!("loop {k} tail") {
                    if let Some(Stmt::Expr(_, semi @ None)) = b.stmts.last_mut() {
                        *semi = Some(Default::default());
                    }
                    b.stmts.push(mk_proof(key, i));
                    self.placed[i] = true;
                }
            }
        }
        if contracts::clock() && !self.compile_time {
            b.stmts.insert(0, parse_quote!(__vx_tick!();));
        }
        b.stmts.insert(0, parse_quote!(__vx_loop!(#key, #k);));
        k
    }
}

/// tokens of a statement without the marker macros
fn stmt_text(s: &Stmt) -> String {
    norm_tokens(&s.to_token_stream().to_string())
}

impl<'a> VisitMut for Weave<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out: Vec<Stmt> = vec![];
        let key = self.key;
        for mut st in std::mem::take(&mut b.stmts) {
            let text = stmt_text(&st);
            let first_loop = self.nloops;
            let is_loop = matches!(
                &st,
                Stmt::Expr(Expr::Loop(_) | Expr::While(_), _)
            );
            self.visit_stmt_mut(&mut st);
            let mut before = vec![];
            let mut after = vec![];
            if let Some(c) = self.c {
                for (i, (a, _)) in c.proofs.iter().enumerate() {
                    if self.placed[i] {
                        continue;
                    }
                    if is_loop && *a == format!("loop {first_loop} before") {
                        before.push(mk_proof(key, i));
                        self.placed[i] = true;
                    } else if is_loop && *a == format!("loop {first_loop} after") {
                        after.push(mk_proof(key, i));
                        self.placed[i] = true;
                    } else if let Some(p) = a.strip_prefix("before ") {
                        let (p, n) = nth(p);
                        if text.starts_with(&norm_tokens(p)) && self.hit(i, n) {
                            before.push(mk_proof(key, i));
                            self.placed[i] = true;
                        }
                    } else if let Some(p) = a.strip_prefix("after ") {
                        let (p, n) = nth(p);
                        if text.starts_with(&norm_tokens(p)) && self.hit(i, n) {
                            after.push(mk_proof(key, i));
                            self.placed[i] = true;
                        }
                    }
                }
            }
            out.extend(before);
            if !after.is_empty() {
                if let Stmt::Expr(_, semi @ None) = &mut st {
                    *semi = Some(Default::default());
                }
            }
            out.push(st);
            out.extend(after);
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Loop(l) => {
                self.loop_body(&mut l.body);
            },
            Expr::While(w) => {
                self.visit_expr_mut(&mut w.cond);
                self.loop_body(&mut w.body);
            },
            Expr::Closure(c) => {
                let k = self.nclosures;
                self.nclosures += 1;
                let key = self.key;
                if self.c.map_or(false, |c| c.closures.contains_key(&k)) {
                    let p = match c.inputs.first() {
                        Some(Pat::Type(t)) => t.pat.to_token_stream().to_string(),
                        Some(p) => p.to_token_stream().to_string(),
                        None => String::new(),
                    };
                    let body = &c.body;
                    *e = parse_quote!(__vx_closure!(#key, #k, #p, { #body }));
                    return;
                }
                visit_mut::visit_expr_mut(self, e);
            },
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

/// std's methods that take more than constant time are called through shims
/// that advance the clock (where the receiver is not a char, a range, ...).
struct StdCost<'a>(&'a Ctx);
impl VisitMut for StdCost<'_> {
    fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) {
        visit_mut::visit_expr_method_call_mut(self, m);
        let n = m.method.to_string();
        // what std does in time linear in something; those without a contract in
        // 97_cost.vx leave the cost undecided
        const LINEAR: &[&str] = &[
            "resize", "fill", "is_ascii", "clone", "insert", "remove", "truncate", "to_vec", "extend_from_slice",
            "append", "contains", "copy_from_slice", "copy_within", "splice", "drain", "reverse", "starts_with",
            "ends_with", "split_off", "to_string", "to_owned", "sort", "sort_by", "sort_by_key", "sort_unstable",
            "sort_unstable_by", "sort_unstable_by_key", "dedup", "dedup_by", "dedup_by_key", "rotate_left",
            "rotate_right", "concat", "join", "repeat", "retain", "retain_mut", "clone_from_slice",
            "swap_with_slice", "fill_with", "resize_with", "extend", "extend_from_within", "to_lowercase",
            "to_uppercase", "find", "rfind", "matches", "trim", "trim_start", "trim_end", "select_nth_unstable", "binary_search_by_key", "shrink_to_fit", "shrink_to",
            "reserve_exact", "into_boxed_slice", "chunk_by", "strip_prefix", "strip_suffix", "replace",
        ];
        let on_vec = matches!(&*m.receiver, Expr::Field(f) if matches!(&f.member, Member::Named(i) if self.0.vec_fields.contains(&i.to_string())));
        if LINEAR.contains(&n.as_str()) && (on_vec || !self.0.methods.contains(&n)) {
            m.method = format_ident!("vx_{}", n);
        }
    }
    /// `vec![x; n]` where n is not a literal
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Macro(m) = e {
            if m.mac.path.is_ident("vec") {
                let r = m.mac.parse_body_with(|i: syn::parse::ParseStream| {
                    let a: Expr = i.parse()?;
                    i.parse::<Token![;]>()?;
                    Ok((a, i.parse::<Expr>()?))
                });
                if let Ok((mut a, mut n)) = r {
                    if !matches!(n, Expr::Lit(_)) {
                        self.visit_expr_mut(&mut a);
                        self.visit_expr_mut(&mut n);
                        *e = parse_quote!(vx_vec(#a, #n));
                    }
                }
            }
        }
    }
}

struct SubstSelf<'a>(&'a HashMap<String, Type>);
impl VisitMut for SubstSelf<'_> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.qself.is_none()
                && p.path.segments.len() == 2
                && p.path.segments[0].ident == "Self"
            {
                if let Some(x) = self.0.get(&p.path.segments[1].ident.to_string()) {
                    *t = x.clone();
                    return;
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
}

struct Out<'c> {
    cx: &'c Ctx,
    con: &'c Contracts,
    reach: HashSet<String>,
    /// functions whose loops see what is known before them
    open: BTreeSet<String>,
    errors: Vec<String>,
    lost: Vec<String>,
    uncontracted: Vec<String>,
    dropped: Vec<String>,
    emitted: BTreeSet<String>,
    fns: Vec<serde_json::Value>,
}

impl<'c> Out<'c> {
    fn dropped(&self, path: &str) -> bool {
        self.con.drops.iter().any(|d| d == path)
    }

    /// the value of a constant or static with a contract
    fn constant(&mut self, key: &str, e: &mut Expr) {
        let c = &self.con.consts[key];
        let mut b: Block = parse_quote!({ __vx_const!(#key); #e });
        for (i, (a, _)) in c.proofs.iter().enumerate() {
            if a == "start" {
                let n = b.stmts.len() - 1;
                b.stmts.insert(n, mk_proof(key, i));
            } else {
                self.lost.push(format!("{key}: proof anchor `{a}`"));
            }
        }
        self.emitted.insert(key.to_string());
        self.fns.push(json!({"key": key, "contract": true, "constant": true}));
        *e = parse_quote!(#b);
    }

    fn function(
        &mut self,
        key: &str,
        sig: &mut Signature,
        body: Option<&mut Block>,
        attrs: &mut Vec<Attribute>,
    ) -> bool {
        if !self.reach.contains(key) {
            self.dropped.push(format!("fn {key} (unreachable from the contracted functions)"));
            return false;
        }
        self.emitted.insert(key.to_string());
        attrs.clear();
        let c = self.con.fns.get(key);
        if c.is_none() {
            self.uncontracted.push(key.to_string());
        }
        // parameters
        let mut lw = Lower {
            cx: self.cx,
            k: 0,
            locals: Default::default(),
            errors: vec![],
        };
        let mut pre: Vec<Stmt> = vec![];
        for a in sig.inputs.iter_mut() {
            if let FnArg::Typed(t) = a {
                lower::fix_type(self.cx, &mut t.ty);
                lw.visit_type_mut(&mut t.ty);
                if let Pat::Ident(i) = &mut *t.pat {
                    lw.locals.insert(i.ident.to_string(), type_kind(self.cx, &t.ty));
                    // `mut` parameters are rebound
                    if i.mutability.is_some() {
                        i.mutability = None;
                        let id = &i.ident;
                        pre.push(parse_quote!(let mut #id = #id;));
                    }
                }
            }
            if let FnArg::Receiver(r) = a {
                if r.mutability.is_some() && r.reference.is_none() {
                    self.errors.push(format!("{key}: mut self"));
                }
            }
        }
        if let ReturnType::Type(_, t) = &mut sig.output {
            lw.visit_type_mut(t);
            let ty = &*t;
            let new: Type = parse_quote!(__VxRet<#ty>);
            if c.is_some() {
                **t = new;
            }
        }
        let loc_of = body.as_ref().map(|b| b.to_token_stream().to_string().len());
        let Some(body) = body else {
            return true;
        };
        if c.map_or(false, |c| c.external) {
            // the body stays the original one and is not checked
            body.stmts = vec![parse_quote!(__vx_fn!(#key);), Stmt::Expr(parse_quote!(unimplemented!()), None)];
            attrs.push(parse_quote!(#[verifier::external_body]));
            self.fns.push(json!({"key": key, "external": true}));
            return true;
        }
        lw.visit_block_mut(body);
        self.errors.extend(lw.errors.iter().map(|e| format!("{key}: {e}")));
        let mut w = Weave {
            key,
            c,
            nloops: 0,
            compile_time: sig.constness.is_some(),
            nclosures: 0,
            lost: vec![],
            placed: vec![false; c.map_or(0, |c| c.proofs.len())],
            seen: vec![0; c.map_or(0, |c| c.proofs.len())],
        };
        w.visit_block_mut(body);
        let nloops = w.nloops;
        if contracts::clock() {
            StdCost(self.cx).visit_block_mut(body);
        }
        if let Some(c) = c {
            for (i, (a, _)) in c.proofs.iter().enumerate() {
                if a == "start" {
                    body.stmts.insert(0, mk_proof(key, i));
                    w.placed[i] = true;
                } else if a == "end" || a == "exits" {
                    if a == "exits" {
                        Exits(key, i).visit_block_mut(body);
                    }
                    match body.stmts.last_mut() {
                        Some(Stmt::Expr(e, None))
                            if matches!(sig.output, ReturnType::Type(..)) =>
                        {
                            let e = e.clone();
                            let n = body.stmts.len() - 1;
                            body.stmts[n] = parse_quote!(let vx_ret = #e;);
                            body.stmts.push(mk_proof(key, i));
                            body.stmts.push(Stmt::Expr(parse_quote!(vx_ret), None));
                        },
                        Some(Stmt::Expr(_, semi @ None)) => {
                            *semi = Some(Default::default());
                            body.stmts.push(mk_proof(key, i));
                        },
                        _ => body.stmts.push(mk_proof(key, i)),
                    }
                    w.placed[i] = true;
                }
            }
            for (i, p) in w.placed.iter().enumerate() {
                if !p {
                    self.lost.push(format!("{key}: proof anchor `{}`", c.proofs[i].0));
                }
            }
            let spec_loops = c.loops.keys().max().map_or(0, |k| k + 1);
            if spec_loops != nloops {
                self.lost.push(format!(
                    "{key}: the contract has invariants for {spec_loops} loops, the function has {nloops}"
                ));
            }
        }
        for (i, s) in pre.into_iter().enumerate() {
            body.stmts.insert(i, s);
        }
        body.stmts.insert(0, parse_quote!(__vx_fn!(#key);));
        if let Some(c) = c {
            for a in &c.attrs {
                let t: proc_macro2::TokenStream = a.parse().unwrap();
                attrs.push(parse_quote!(#[#t]));
            }
        }
        if nloops > 0 && self.open.contains(key) {
            attrs.push(parse_quote!(#[verifier::loop_isolation(false)]));
            attrs.push(parse_quote!(#[verifier::allow_complex_invariants]));
        }
        self.fns.push(json!({"key": key, "external": false, "contract": c.is_some(),
            "loops": nloops, "source_tokens": loc_of}));
        true
    }
}

fn default_of(t: &Type) -> Expr {
    let n = type_name(t);
    match (t, n.as_str()) {
        (Type::Path(_), "bool") => parse_quote!(false),
        (Type::Path(_), "usize" | "u8" | "u32" | "i64" | "u64" | "Score") => parse_quote!(0),
        (Type::Reference(r), _) if matches!(&*r.elem, Type::Slice(_)) => parse_quote!(&[]),
        (Type::Path(p), _) => {
            let mut p = p.path.clone();
            if let Some(s) = p.segments.last_mut() {
                if let PathArguments::AngleBracketed(a) = &mut s.arguments {
                    a.colon2_token = Some(Default::default());
                }
            }
            parse_quote!(#p::default())
        },
        _ => parse_quote!(Default::default()),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() != 5 {
        fail("usage: vxextract REPO_SRC CONTRACTS_DIR OUT.rs OUT.json");
    }
    let src = std::path::Path::new(&args[1]);
    let con = contracts::load(&args[2]).unwrap_or_else(|e| fail(&e));
    let mut mods = vec![];
    load(src, &src.join("lib.rs"), "", &mut mods);

    // ---- opaque modules keep only their external functions
    for m in mods.iter_mut() {
        if con.opaque.contains(&m.path) {
            m.items.retain(|i| match i {
                Item::Fn(f) => con
                    .fns
                    .get(&format!("{}::{}", m.path, f.sig.ident))
                    .map_or(false, |c| c.external),
                _ => false,
            });
        }
    }

    // ---- strip attributes and visibilities
    for m in mods.iter_mut() {
        for i in m.items.iter_mut() {
            match i {
                Item::Use(u) => u.attrs.clear(),
                Item::Impl(im) => Strip.visit_item_impl_mut(im),
                i => Strip.visit_item_mut(i),
            }
        }
    }

    // ---- formatting code is not verified
    let mut formatting = vec![];
    for m in mods.iter_mut() {
        m.items.retain(|i| match i {
            Item::Impl(im) => match &im.trait_ {
                Some((_, p, _)) => {
                    let t = p.segments.last().unwrap().ident.to_string();
                    let keep = t != "Debug" && t != "Display";
                    if !keep {
                        formatting.push(format!("impl {t} for {}::{}", m.path, type_name(&im.self_ty)));
                    }
                    keep
                },
                None => true,
            },
            _ => true,
        });
    }

    // ---- refactored code
    let recorded: serde_json::Value =
        std::fs::read_to_string(std::path::Path::new(&args[2]).join("shapes.json"))
            .ok()
            .and_then(|s| serde_json::from_str(&s).ok())
            .unwrap_or(json!({}));
    let aligned = align::align(&mut mods, &con, &recorded);
    if let Ok(p) = std::env::var("VX_SHAPES") {
        std::fs::write(p, serde_json::to_string_pretty(&aligned.shapes).unwrap() + "\n").unwrap();
    }

    // ---- global tables
    let mut cx = Ctx::default();
    let mut consts: HashMap<String, i128> = HashMap::new();
    let mut pending: Vec<(String, String, Expr)> = vec![];
    let mut barefns: BTreeMap<String, TypeBareFn> = BTreeMap::new();
    struct Bare<'a>(&'a mut BTreeMap<String, TypeBareFn>);
    impl<'a, 'b> Visit<'b> for Bare<'a> {
        fn visit_type_bare_fn(&mut self, f: &'b TypeBareFn) {
            self.0.insert(barefn_key(f), f.clone());
        }
    }
    let mut free_fns: HashMap<String, (String, String)> = HashMap::new(); // name -> (sig, path)
    for m in &mods {
        for i in &m.items {
            Bare(&mut barefns).visit_item(i);
            match i {
                Item::Const(c) => match &*c.expr {
                    Expr::Reference(r) if matches!(&*r.expr, Expr::Array(_)) => {
                        cx.const_slices.insert(c.ident.to_string(), (*c.expr).clone());
                    },
                    e => pending.push((m.path.clone(), c.ident.to_string(), e.clone())),
                },
                Item::Fn(f) => {
                    if let Some(k) = sig_key(&f.sig) {
                        free_fns.insert(
                            f.sig.ident.to_string(),
                            (k, format!("{}::{}", m.path, f.sig.ident)),
                        );
                    }
                },
                Item::Impl(im) => {
                    if let Some((_, p, _)) = &im.trait_ {
                        let tn = p.segments.last().unwrap().ident.to_string();
                        if tn == "From" {
                            cx.from_impl = Some(type_name(&im.self_ty));
                        }
                        if tn == "Index" {
                            cx.index_types.insert(type_name(&im.self_ty));
                            for x in &im.items {
                                if let ImplItem::Type(t) = x {
                                    cx.index_outputs.insert(type_name(&im.self_ty), t.ty.clone());
                                }
                            }
                        }
                    }
                },
                _ => {},
            }
        }
    }
    loop {
        let n = pending.len();
        pending.retain(|(m, name, e)| match eval(e, &consts, m) {
            Some(v) => {
                consts.insert(format!("{m}::{name}"), v);
                false
            },
            None => true,
        });
        if pending.len() == n {
            break;
        }
    }
    let enum_name = |key: &str| {
        let s: String =
            key.chars().map(|c| if c.is_alphanumeric() { c } else { '_' }).collect();
        format!("VxFnPtr_{s}")
    };
    for k in barefns.keys() {
        cx.fnptr_enums.insert(k.clone(), enum_name(k));
    }
    for m in &mods {
        for i in &m.items {
            if let Item::Type(t) = i {
                if let Type::BareFn(f) = &*t.ty {
                    cx.fnptr_aliases.insert(t.ident.to_string(), enum_name(&barefn_key(f)));
                }
            }
        }
    }
    // fields that are, or refer to, a Vec
    {
        let mut non = HashSet::new();
        struct W<'a>(&'a mut HashSet<String>, &'a mut HashSet<String>);
        impl<'a, 'b> Visit<'b> for W<'a> {
            fn visit_field(&mut self, f: &'b Field) {
                if let Some(i) = &f.ident {
                    let ty = if let Type::Reference(r) = &f.ty { &*r.elem } else { &f.ty };
                    let is_vec = matches!(ty, Type::Path(p) if p.path.segments.last().unwrap().ident == "Vec");
                    if is_vec { self.0.insert(i.to_string()); } else { self.1.insert(i.to_string()); }
                }
            }
        }
        let mut yes = HashSet::new();
        for m in &mods {
            for i in &m.items {
                W(&mut yes, &mut non).visit_item(i);
            }
        }
        cx.vec_fields = yes.difference(&non).cloned().collect();
        for m in &mods {
            for i in &m.items {
                if let Item::Impl(im) = i {
                    for x in &im.items {
                        if let ImplItem::Fn(f) = x {
                            if f.sig.receiver().is_some() {
                                cx.methods.insert(f.sig.ident.to_string());
                            }
                        }
                    }
                }
            }
        }
    }
    // names of fields and fns producing fn pointers
    for m in &mods {
        for i in &m.items {
            struct V<'a>(&'a Ctx, HashSet<String>);
            impl<'a, 'b> Visit<'b> for V<'a> {
                fn visit_field(&mut self, f: &'b Field) {
                    if type_kind(self.0, &f.ty) == "fnptr" {
                        if let Some(i) = &f.ident {
                            self.1.insert(i.to_string());
                        }
                    }
                }
                fn visit_signature(&mut self, s: &'b Signature) {
                    if let ReturnType::Type(_, t) = &s.output {
                        if type_kind(self.0, t) == "fnptr" {
                            self.1.insert(s.ident.to_string());
                        }
                    }
                }
            }
            let mut v = V(&cx, Default::default());
            v.visit_item(i);
            let n = v.1;
            cx.fnptr_sources.extend(n);
        }
    }
    // fn items used as values
    let mut variants: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    {
        struct V<'a> {
            free: &'a HashMap<String, (String, String)>,
            enums: &'a BTreeMap<String, String>,
            found: Vec<(String, String)>,
        }
        impl<'a, 'b> Visit<'b> for V<'a> {
            fn visit_expr_call(&mut self, c: &'b ExprCall) {
                if !matches!(&*c.func, Expr::Path(_)) {
                    self.visit_expr(&c.func);
                }
                for a in &c.args {
                    self.visit_expr(a);
                }
            }
            fn visit_expr_path(&mut self, p: &'b ExprPath) {
                let n = p.path.segments.last().unwrap().ident.to_string();
                if let Some((k, path)) = self.free.get(&n) {
                    if let Some(e) = self.enums.get(k) {
                        self.found.push((e.clone(), format!("{n} {path}")));
                    }
                }
            }
        }
        let mut v = V { free: &free_fns, enums: &cx.fnptr_enums, found: vec![] };
        for m in &mods {
            if con.opaque.contains(&m.path) {
                continue;
            }
            for i in &m.items {
                v.visit_item(i);
            }
        }
        for (e, f) in v.found {
            variants.entry(e).or_default().insert(f);
        }
    }
    for (e, fs) in &variants {
        for f in fs {
            let n = f.split(' ').next().unwrap();
            cx.fn_values.insert(n.to_string(), e.clone());
        }
    }

    // ---- reachability (by name)
    let mut infos: Vec<FnInfo> = vec![];
    let add = |key: String, name: String, ts: proc_macro2::TokenStream, infos: &mut Vec<FnInfo>| {
        let mut uses = BTreeSet::new();
        idents(ts, &mut uses);
        infos.push(FnInfo { key, name, uses });
    };
    let pfx = |m: &str, n: &str| if m.is_empty() { n.to_string() } else { format!("{m}::{n}") };
    for m in &mods {
        for i in &m.items {
            match i {
                Item::Fn(f) => add(
                    pfx(&m.path, &f.sig.ident.to_string()),
                    f.sig.ident.to_string(),
                    f.block.to_token_stream(),
                    &mut infos,
                ),
                Item::Trait(t) => {
                    for x in &t.items {
                        if let TraitItem::Fn(f) = x {
                            add(
                                pfx(&m.path, &format!("{}::{}", t.ident, f.sig.ident)),
                                f.sig.ident.to_string(),
                                f.default.to_token_stream(),
                                &mut infos,
                            )
                        }
                    }
                },
                Item::Impl(im) => {
                    let tn = impl_name(im);
                    for x in &im.items {
                        if let ImplItem::Fn(f) = x {
                            add(
                                pfx(&m.path, &format!("{tn}::{}", f.sig.ident)),
                                f.sig.ident.to_string(),
                                f.block.to_token_stream(),
                                &mut infos,
                            )
                        }
                    }
                },
                _ => {},
            }
        }
    }
    let mut reach: HashSet<String> = HashSet::new();
    let mut names: BTreeSet<String> = BTreeSet::new();
    for n in ["call", "index", "index_mut", "next", "next_back"] {
        names.insert(n.into());
    }
    for f in cx.fn_values.keys() {
        names.insert(f.clone());
    }
    let unwanted = |key: &str| {
        ["Debug", "Display", "Write"]
            .iter()
            .any(|t| key.contains(&format!(" as {t}>")))
            || con.drops.iter().any(|d| {
                key == d || key.starts_with(&format!("{d}::")) || {
                    // impls of a dropped type
                    let (m, t) = d.rsplit_once("::").unwrap_or(("", d));
                    key.starts_with(&format!("{m}::<{t} as ")) 
                }
            })
    };
    loop {
        let mut changed = false;
        for f in &infos {
            if reach.contains(&f.key) || unwanted(&f.key) {
                continue;
            }
            let c = con.fns.get(&f.key);
            if c.is_some()
                || names.contains(&f.name)
                || con.compared.iter().any(|t| {
                    let (m, n) = t.rsplit_once("::").unwrap_or(("", t));
                    ["PartialOrd", "Ord", "PartialEq"]
                        .iter()
                        .any(|tr| f.key.starts_with(&pfx(m, &format!("<{n} as {tr}>"))))
                })
            {
                reach.insert(f.key.clone());
                changed = true;
                if !c.map_or(false, |c| c.external) {
                    names.extend(f.uses.iter().cloned());
                    if f.uses.contains("into") {
                        names.insert("from".into());
                    }
                }
            }
        }
        if !changed {
            break;
        }
    }

    // ---- emission
    let mut o = Out {
        cx: &cx,
        con: &con,
        reach,
        open: aligned.open.clone(),
        errors: vec![],
        lost: vec![],
        uncontracted: vec![],
        dropped: formatting,
        emitted: Default::default(),
        fns: vec![],
    };
    // derive(Default) of a type used by the emitted code
    let mut text_mods: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for m in mods {
        let path = m.path.clone();
        let mut out: Vec<String> = vec![];
        for it in m.items {
            for s in emit_item(&mut o, &path, it, &consts) {
                out.push(s);
            }
        }
        text_mods.insert(path, out);
    }
    // fn pointer enums
    let mut root_extra = vec![];
    for (k, en) in &cx.fnptr_enums {
        let Some(fs) = variants.get(en) else { continue };
        let id = format_ident!("{}", en);
        let vs: Vec<_> =
            fs.iter().map(|f| format_ident!("{}", f.split(' ').next().unwrap())).collect();
        let paths: Vec<Path> = fs
            .iter()
            .map(|f| parse_str(&format!("crate::{}", f.split(' ').nth(1).unwrap())).unwrap())
            .collect();
        let f = &barefns[k];
        let tys: Vec<Type> = f.inputs.iter().map(|a| a.ty.clone()).collect();
        let args: Vec<_> = (0..tys.len()).map(|i| format_ident!("a{}", i)).collect();
        let ret = match &f.output {
            ReturnType::Default => parse_quote!(()),
            ReturnType::Type(_, t) => (**t).clone(),
        };
        let key = format!("{en}::call");
        o.emitted.insert(key.clone());
        o.fns.push(json!({"key": key, "external": false, "contract": con.fns.contains_key(&key), "loops": 0}));
        let ret: Type =
            if con.fns.contains_key(&key) { parse_quote!(__VxRet<#ret>) } else { ret };
        let arms: Vec<proc_macro2::TokenStream> = vs
            .iter()
            .zip(&paths)
            .map(|(v, p)| quote!(Self::#v => #p(#(#args),*)))
            .collect();
        root_extra.push(
            quote! {
                #[derive(Clone, Copy)]
                pub enum #id { #(#vs),* }
                impl #id {
                    pub fn call(self, #(#args: #tys),*) -> #ret {
                        __vx_fn!(#key);
                        match self { #(#arms),* }
                    }
                }
            }
            .to_string(),
        );
    }
    for k in con.items.keys() {
        text_mods.entry(if k == "root" { String::new() } else { k.clone() }).or_default();
    }
    for (k, c) in &con.consts {
        if !o.emitted.contains(k) {
            o.lost.push(format!("{k}: constant not found ({})", c.file));
        }
    }
    for (k, c) in &con.fns {
        if !o.emitted.contains(k) {
            o.lost.push(format!("{k}: function not found ({})", c.file));
        }
    }

    // nest the modules
    fn render(path: &str, t: &BTreeMap<String, Vec<String>>, extra: &[String], s: &mut String) {
        let hdr = "use vstd::prelude::*;\nuse vstd::std_specs::iter::IteratorSpec;\nuse crate::vxspec::*;\n";
        s.push_str(hdr);
        s.push_str(&format!("__vx_items!(\"{}\");\n", if path.is_empty() { "root" } else { path }));
        for e in extra {
            s.push_str(e);
            s.push('\n');
        }
        if let Some(v) = t.get(path) {
            for x in v {
                s.push_str(x);
                s.push('\n');
            }
        }
        for k in t.keys() {
            let (par, name) = k.rsplit_once("::").unwrap_or(("", k));
            if !k.is_empty() && par == path {
                s.push_str(&format!("pub mod {name} {{\n"));
                render(k, t, &[], s);
                s.push_str("}\n");
            }
        }
    }
    let mut body = String::new();
    render("", &text_mods, &root_extra, &mut body);
    let formatted = rustfmt(&body);
    let text = expand(&formatted, &con, &mut o.errors);
    let full = format!(
        "#![allow(unused, dead_code, non_camel_case_types, unused_imports, unused_variables, unused_mut, ambiguous_glob_reexports)]\n// generated by vxextract from {}\nuse vstd::prelude::*;\nverus! {{\npub mod vxspec {{\nuse vstd::prelude::*;\n{}\n}}\n{}\n}} // verus!\nfn main() {{}}\n",
        args[1], con.prelude, text
    );
    std::fs::write(&args[3], full).unwrap();
    let rep = json!({
        "lost": o.lost, "errors": o.errors, "uncontracted": o.uncontracted,
        "aligned": aligned.notes, "changed": aligned.changed,
        "dropped": o.dropped, "functions": o.fns,
        "consts": consts.iter().map(|(k, v)| (k.clone(), v.to_string())).collect::<BTreeMap<_,_>>(),
    });
    std::fs::write(&args[4], serde_json::to_string_pretty(&rep).unwrap()).unwrap();
}

fn impl_name(im: &ItemImpl) -> String {
    let t = type_name(&im.self_ty);
    match &im.trait_ {
        None => t,
        Some((_, p, _)) => format!("<{t} as {}>", p.segments.last().unwrap().ident),
    }
}

fn keep_derives(ds: &[String]) -> Vec<Ident> {
    let mut v = vec![];
    for d in ["Clone", "Copy", "PartialEq", "Eq"] {
        if ds.iter().any(|x| x == d) && (d != "Clone" || ds.iter().any(|x| x == "Copy")) {
            v.push(format_ident!("{}", d));
        }
    }
    v
}

fn strip_bounds(g: &mut Generics) {
    struct V;
    impl VisitMut for V {
        fn visit_type_param_mut(&mut self, t: &mut TypeParam) {
            let _ = t;
        }
    }
    V.visit_generics_mut(g);
}

fn emit_item(
    o: &mut Out,
    path: &str,
    it: Item,
    consts: &HashMap<String, i128>,
) -> Vec<String> {
    let full = |n: &str| if path.is_empty() { n.to_string() } else { format!("{path}::{n}") };
    match it {
        Item::Use(u) => {
            let t = u.to_token_stream().to_string();
            if t.contains("fmt") || t.contains("transmute") {
                return vec![];
            }
            if t.contains("Metric") {
                return vec![];
            }
            vec![u.to_token_stream().to_string()]
        },
        Item::Const(mut c) => {
            let name = c.ident.to_string();
            if o.cx.const_slices.contains_key(&name) {
                return vec![];
            }
            if let Some(v) = consts.get(&full(&name)) {
                let l = proc_macro2::Literal::i128_unsuffixed(*v);
                c.expr = Box::new(parse_quote!(#l));
            } else {
                let mut lw =
                    Lower { cx: o.cx, k: 0, locals: Default::default(), errors: vec![] };
                lw.visit_expr_mut(&mut c.expr);
                o.errors.extend(lw.errors);
            }
            if o.con.consts.contains_key(&full(&name)) {
                o.constant(&full(&name), &mut c.expr);
            }
            vec![c.to_token_stream().to_string()]
        },
        Item::Static(mut c) => {
            let name = c.ident.to_string();
            if !o.con.consts.contains_key(&full(&name)) {
                o.errors.push(format!("{}: a static without a contract", full(&name)));
                return vec![];
            }
            let mut lw = Lower { cx: o.cx, k: 0, locals: Default::default(), errors: vec![] };
            lw.visit_expr_mut(&mut c.expr);
            o.errors.extend(lw.errors);
            o.constant(&full(&name), &mut c.expr);
            vec![c.to_token_stream().to_string()]
        },
        Item::Type(mut t) => {
            let mut lw = Lower { cx: o.cx, k: 0, locals: Default::default(), errors: vec![] };
            lw.visit_type_mut(&mut t.ty);
            vec![t.to_token_stream().to_string()]
        },
        Item::Struct(mut s) => {
            let name = s.ident.to_string();
            if o.dropped(&full(&name)) {
                o.dropped.push(format!("struct {}", full(&name)));
                return vec![];
            }
            let mut ds = derives(&s.attrs);
            // Verus only specifies a derived `Clone` that copies
            if ds.iter().any(|d| d == "Clone")
                && s.fields.iter().all(|f| {
                    let t = f.ty.to_token_stream().to_string();
                    ["bool", "char", "u8", "usize", "i64", "u64", "u32", "Score", "Distance"].contains(&t.as_str())
                })
            {
                ds.push("Copy".into());
            }
            let keep = keep_derives(&ds);
            s.attrs.clear();
            if !keep.is_empty() {
                s.attrs.push(parse_quote!(#[derive(#(#keep),*)]));
            }
            let mut lw = Lower { cx: o.cx, k: 0, locals: Default::default(), errors: vec![] };
            let mut defaults: Vec<FieldValue> = vec![];
            for f in s.fields.iter_mut() {
                lw.visit_type_mut(&mut f.ty);
                if let Some(i) = &f.ident {
                    let d = default_of(&f.ty);
                    defaults.push(parse_quote!(#i: #d));
                }
            }
            let mut v = vec![s.to_token_stream().to_string()];
            if ds.iter().any(|d| d == "Default") {
                let (ig, tg, wc) = s.generics.split_for_impl();
                let id = &s.ident;
                let im: ItemImpl = parse_quote!(
                    impl #ig #id #tg #wc {
                        pub fn default() -> Self { Self { #(#defaults),* } }
                    }
                );
                v.extend(emit_derived(o, path, im, &name, "Default", "default"));
            }
            // a derived `Clone` that does not copy is spelled out where it has a contract
            let key = full(&format!("<{name} as Clone>::clone"));
            if ds.iter().any(|d| d == "Clone")
                && !ds.iter().any(|d| d == "Copy")
                && o.con.fns.contains_key(&key)
            {
                let (ig, tg, wc) = s.generics.split_for_impl();
                let id = &s.ident;
                let fs = s.fields.iter().filter_map(|f| f.ident.clone());
                let im: ItemImpl = parse_quote!(
                    impl #ig #id #tg #wc {
                        pub fn clone(&self) -> Self { Self { #(#fs: self.#fs.clone()),* } }
                    }
                );
                v.extend(emit_derived(o, path, im, &name, "Clone", "clone"));
            }
            v
        },
        Item::Enum(mut s) => {
            let name = s.ident.to_string();
            let ds = derives(&s.attrs);
            // `derive(Structural)` makes Verus panic in nested modules; a
            // fieldless enum with derived equality is structural
            let unit = s.variants.iter().all(|v| v.fields.is_empty())
                && ["PartialEq", "Eq"].iter().all(|d| ds.iter().any(|x| x == d));
            let keep = keep_derives(&ds);
            s.attrs.clear();
            if !keep.is_empty() {
                s.attrs.push(parse_quote!(#[derive(#(#keep),*)]));
            }
            let mut lw = Lower { cx: o.cx, k: 0, locals: Default::default(), errors: vec![] };
            let mut dv = None;
            for v in s.variants.iter_mut() {
                if v.attrs.iter().any(|a| a.path().is_ident("default")) {
                    dv = Some(v.ident.clone());
                }
                v.attrs.clear();
                for f in v.fields.iter_mut() {
                    f.vis = Visibility::Inherited;
                    lw.visit_type_mut(&mut f.ty);
                }
            }
            let mut v = vec![s.to_token_stream().to_string()];
            if unit {
                let id = &s.ident;
                v.push(quote!(unsafe impl Structural for #id {}).to_string());
            }
            if ds.iter().any(|d| d == "Default") {
                if let Some(dv) = dv {
                    let id = &s.ident;
                    let im: ItemImpl =
                        parse_quote!(impl #id { pub fn default() -> Self { Self::#dv } });
                    v.extend(emit_derived(o, path, im, &name, "Default", "default"));
                }
            }
            v
        },
        Item::Fn(mut f) => {
            let key = full(&f.sig.ident.to_string());
            let ok = o.function(&key, &mut f.sig, Some(&mut f.block), &mut f.attrs);
            if ok {
                vec![f.to_token_stream().to_string()]
            } else {
                vec![]
            }
        },
        Item::Trait(mut t) => {
            let name = t.ident.to_string();
            if name == "Metric" || o.dropped(&full(&name)) {
                o.dropped.push(format!("trait {}", full(&name)));
                return vec![];
            }
            t.attrs.clear();
            t.supertraits = t
                .supertraits
                .into_iter()
                .filter(|b| {
                    let s = b.to_token_stream().to_string();
                    !s.contains("Display") && !s.contains("Ord")
                })
                .collect();
            let mut items = vec![];
            for x in std::mem::take(&mut t.items) {
                if let TraitItem::Fn(mut f) = x {
                    let key = full(&format!("{name}::{}", f.sig.ident));
                    if f.default.is_none() {
                        if o.reach.contains(&key) {
                            let mut d = o.function(&key, &mut f.sig, None, &mut f.attrs);
                            d &= true;
                            let _ = d;
                            o.fns.push(json!({"key": key, "external": false,
                                "contract": o.con.fns.contains_key(&key), "loops": 0, "declaration": true}));
                            // the marker needs a body
                            f.semi_token = None;
                            f.default = Some(parse_quote!({ __vx_nobody!(#key); }));
                            items.push(TraitItem::Fn(f));
                        } else {
                            o.dropped.push(format!("fn {key}"));
                        }
                    } else if o.function(&key, &mut f.sig, f.default.as_mut(), &mut f.attrs) {
                        items.push(TraitItem::Fn(f));
                    }
                }
            }
            t.items = items;
            let k = full(&name);
            if o.con.trait_items.contains_key(&k) {
                t.items.insert(0, TraitItem::Verbatim(quote!(__vx_trait_items!(#k);)));
            }
            vec![t.to_token_stream().to_string()]
        },
        Item::Impl(mut im) => {
            im.attrs.clear();
            let tn = type_name(&im.self_ty);
            if o.dropped(&full(&tn)) {
                return vec![];
            }
            let trait_name =
                im.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident.to_string());
            if let Some(t) = &trait_name {
                if t == "Debug" || t == "Display" {
                    o.dropped.push(format!("impl {t} for {}", full(&tn)));
                    return vec![];
                }
            }
            let iname = impl_name(&im);
            let compared = o.con.compared.contains(&full(&tn));
            let inherent_iter = o.con.inherent_iters.iter().any(|i| *i == full(&tn));
            // associated types
            let mut assoc: HashMap<String, Type> = HashMap::new();
            for x in &im.items {
                if let ImplItem::Type(t) = x {
                    assoc.insert(t.ident.to_string(), t.ty.clone());
                }
            }
            if trait_name.as_deref() == Some("IndexMut") {
                if let Some(t) = o.cx.index_outputs.get(&tn) {
                    assoc.insert("Output".into(), t.clone());
                }
            }
            let mut keep_assoc = false;
            let mut inherent = false;
            if let Some(t) = &trait_name {
                match t.as_str() {
                    "PartialOrd" | "Ord" | "PartialEq" | "Eq" if compared => keep_assoc = true,
                    "Iterator" | "DoubleEndedIterator" if inherent_iter => inherent = true,
                    "Iterator" => {
                        keep_assoc = true;
                        im.trait_.as_mut().unwrap().1 = parse_quote!(VxIterator);
                    },
                    "DoubleEndedIterator" => {
                        im.trait_.as_mut().unwrap().1 = parse_quote!(VxDoubleEnded);
                    },
                    "ExactSizeIterator" => {
                        im.trait_.as_mut().unwrap().1 = parse_quote!(VxExactSize);
                    },
                    "Clone" if o.con.fns.contains_key(&full(&format!("{iname}::clone"))) => {
                        inherent = true
                    },
                    "Metric" | "Default" | "From" | "PartialOrd" | "Ord" | "Index"
                    | "IndexMut" => inherent = true,
                    _ => keep_assoc = true,
                }
            }
            if inherent {
                im.trait_ = None;
            }
            let mut items = vec![];
            for x in std::mem::take(&mut im.items) {
                match x {
                    ImplItem::Fn(mut f) => {
                        let key = full(&format!("{iname}::{}", f.sig.ident));
                        if trait_name.as_deref() == Some("Clone") && o.con.fns.contains_key(&key) {
                            o.reach.insert(key.clone());
                        }
                        if !keep_assoc {
                            SubstSelf(&assoc).visit_impl_item_fn_mut(&mut f);
                        } else {
                            // Verus wants the type spelled out
                            SubstSelf(&assoc).visit_impl_item_fn_mut(&mut f);
                        }
                        if f.sig.ident == "index" && inherent {
                            f.sig.ident = format_ident!("vx_index");
                        }
                        if f.sig.ident == "index_mut" && inherent {
                            f.sig.ident = format_ident!("vx_index_mut");
                        }
                        if f.sig.ident == "iter" {
                            f.sig.ident = format_ident!("vx_iter");
                        }
                        if inherent || im.trait_.is_none() {
                            f.vis = Visibility::Public(Default::default());
                        } else {
                            f.vis = Visibility::Inherited;
                        }
                        if o.function(&key, &mut f.sig, Some(&mut f.block), &mut f.attrs) {
                            items.push(ImplItem::Fn(f));
                        }
                        if compared && keep_assoc {
                            // std's contract applies
                            o.uncontracted.retain(|k| *k != key);
                        }
                    },
                    ImplItem::Type(t) if keep_assoc => items.push(ImplItem::Type(t)),
                    _ => {},
                }
            }
            let k = match (&trait_name, inherent) {
                (Some(t), false) => full(&format!("{tn} as {t}")),
                (Some(t), true) => full(&format!("{tn} as {t}")),
                (None, _) => full(&tn),
            };
            if o.con.impl_items.contains_key(&k) {
                items.insert(0, ImplItem::Verbatim(quote!(__vx_impl_items!(#k);)));
            }
            if items.is_empty() && !(compared && keep_assoc) {
                return vec![];
            }
            strip_bounds(&mut im.generics);
            im.items = items;
            vec![im.to_token_stream().to_string()]
        },
        other => {
            o.errors.push(format!("{path}: unsupported item {}", {
                let s = other.to_token_stream().to_string();
                s.chars().take(40).collect::<String>()
            }));
            vec![]
        },
    }
}

fn emit_derived(
    o: &mut Out,
    path: &str,
    mut im: ItemImpl,
    name: &str,
    tr: &str,
    f: &str,
) -> Vec<String> {
    let key = format!("{path}::<{name} as {tr}>::{f}");
    let key = key.trim_start_matches("::").to_string();
    // always emitted if contracted; otherwise only when somebody needs it
    o.reach.insert(key.clone());
    for x in im.items.iter_mut() {
        if let ImplItem::Fn(f) = x {
            o.function(&key, &mut f.sig, Some(&mut f.block), &mut f.attrs);
        }
    }
    vec![im.to_token_stream().to_string()]
}

fn rustfmt(s: &str) -> String {
    use std::io::Write;
    let mut p = std::process::Command::new("rustfmt")
        .args(["--edition", "2021", "--config", "max_width=100"])
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::piped())
        .spawn()
        .unwrap_or_else(|e| fail(&format!("rustfmt: {e}")));
    let mut stdin = p.stdin.take().unwrap();
    let owned = s.to_string();
    let h = std::thread::spawn(move || {
        let _ = stdin.write_all(owned.as_bytes());
    });
    let out = p.wait_with_output().unwrap();
    let _ = h.join();
    if !out.status.success() || out.stdout.is_empty() {
        let _ = std::fs::write("/tmp/vx_unformatted.rs", s);
        fail(&format!("rustfmt failed: {}", String::from_utf8_lossy(&out.stderr)));
    }
    String::from_utf8(out.stdout).unwrap()
}

/// Replaces the markers with the contract text.
fn expand(s: &str, con: &Contracts, errors: &mut Vec<String>) -> String {
    let mut out: Vec<String> = vec![];
    let arg = |l: &str| -> Vec<String> {
        // the arguments of a marker
        let a = l.find('(').unwrap();
        let b = l.rfind(')').unwrap();
        l[a + 1..b]
            .split(',')
            .map(|x| x.trim().trim_matches('"').trim_end_matches("usize").to_string())
            .collect()
    };
    let lines: Vec<&str> = s.lines().collect();
    let mut i = 0;
    // how the constant being copied ends
    let mut ends: Vec<String> = vec![];
    while i < lines.len() {
        let mut l = lines[i].to_string();
        if ends.last().map_or(false, |e| *e == l) {
            ends.pop();
            l = l.trim_end_matches(';').to_string();
        }
        let t = l.trim().to_string();
        if t.starts_with("__vx_") && !t.starts_with("__vx_closure") {
            // a marker may have been broken over several lines
            let mut full = t.clone();
            while !full.ends_with(");") {
                i += 1;
                full.push_str(lines[i].trim());
            }
            let a = arg(&full);
            let insert_before_brace = |out: &mut Vec<String>, text: &str, tag: &str| {
                let n = out.len() - 1;
                let prev = out[n].clone();
                let Some(p) = prev.rfind('{') else {
                    panic!("marker without a brace: {prev}");
                };
                out[n] = prev[..p].trim_end().to_string();
                out.push(text.trim_end().to_string());
                out.push(format!("{{ {tag}"));
            };
            if full.starts_with("__vx_fn!") {
                let c = con.fns.get(&a[0]);
                if let Some(c) = c {
                    fix_ret(&mut out, c.ret.as_deref().unwrap_or("vx_r"));
                    insert_before_brace(&mut out, &c.contract, &format!("// VXFN {}", a[0]));
                } else {
                    insert_before_brace(&mut out, "", &format!("// VXFN {}", a[0]));
                }
            } else if full.starts_with("__vx_const!") {
                let c = &con.consts[&a[0]];
                let name = a[0].rsplit("::").next().unwrap();
                let head = (0..out.len())
                    .rev()
                    .find(|&n| {
                        let t = out[n].trim_start();
                        [format!("const {name}:"), format!("static {name}:")]
                            .iter()
                            .any(|k| t.trim_start_matches("pub ").starts_with(k.as_str()))
                    })
                    .expect("constant");
                let indent: String = out[head].chars().take_while(|c| *c == ' ').collect();
                let t = out[head].trim_start().to_string();
                let (p, t) = match t.strip_prefix("pub ") {
                    Some(t) => ("pub ", t.to_string()),
                    None => ("", t),
                };
                out[head] = format!("{indent}{p}exec {t}");
                let n = out.len() - 1;
                let l = out[n].trim_end().trim_end_matches('{').trim_end();
                out[n] = l.strip_suffix('=').expect("constant").trim_end().to_string();
                out.push(c.contract.trim_end().to_string());
                out.push(format!("{{ // VXFN {}", a[0]));
                ends.push(format!("{indent}}};"));
            } else if full.starts_with("__vx_nobody!") {
                let c = con.fns.get(&a[0]);
                if let Some(c) = c {
                    fix_ret(&mut out, c.ret.as_deref().unwrap_or("vx_r"));
                    insert_before_brace(&mut out, &c.contract, "");
                } else {
                    insert_before_brace(&mut out, "", "");
                }
                // `{` ... `}` becomes `;`
                out.pop();
                out.push(format!("; // VXFN {}", a[0]));
                i += 1;
                assert_eq!(lines[i].trim(), "}");
            } else if full.starts_with("__vx_loop!") {
                let k: usize = a[1].parse().unwrap();
                let t = con.fns.get(&a[0]).and_then(|c| c.loops.get(&k));
                match t {
                    Some(t) => insert_before_brace(&mut out, t, &format!("// VXLOOP {k}")),
                    None => {},
                }
            } else if full.starts_with("__vx_proof!") {
                let k: usize = a[1].parse().unwrap();
                out.push(con.fns.get(&a[0]).or(con.consts.get(&a[0])).unwrap().proofs[k].1.clone());
            } else if full.starts_with("__vx_tick!") {
                out.push("proof { vx_clk.tick(1); } // VXTICK".into());
            } else if full.starts_with("__vx_items!") {
                out.push(con.items.get(&a[0]).cloned().unwrap_or_default());
            } else if full.starts_with("__vx_impl_items!") {
                out.push(con.impl_items[&a[0]].clone());
            } else if full.starts_with("__vx_trait_items!") {
                out.push(con.trait_items[&a[0]].clone());
            } else {
                errors.push(format!("unknown marker {full}"));
            }
            i += 1;
            continue;
        }
        // closures
        while let Some(p) = l.find("__vx_closure!(") {
            // take text up to the matching parenthesis
            let mut depth = 0;
            let mut end = None;
            let mut j = i;
            let mut acc = l.clone();
            loop {
                depth = 0;
                for (x, ch) in acc.char_indices().skip_while(|(x, _)| *x < p + 13) {
                    match ch {
                        '(' => depth += 1,
                        ')' => {
                            depth -= 1;
                            if depth == 0 {
                                end = Some(x);
                                break;
                            }
                        },
                        _ => {},
                    }
                }
                if end.is_some() {
                    break;
                }
                j += 1;
                acc.push(' ');
                acc.push_str(lines[j].trim());
            }
            let _ = depth;
            i = j;
            let e = end.unwrap();
            let inner = &acc[p + 14..e];
            let parts: Vec<&str> = inner.splitn(4, ',').collect();
            let key = parts[0].trim().trim_matches('"');
            let k: usize = parts[1].trim().trim_end_matches("usize").parse().unwrap();
            let param = parts[2].trim().trim_matches('"');
            let body = parts[3].trim();
            let text = con.fns[key].closures[&k].trim_end().replace("$P0", param);
            l = format!("{}{} {}{}", &acc[..p], text, body, &acc[e + 1..]);
        }
        out.push(l);
        i += 1;
    }
    out.join("\n")
}

/// `-> __VxRet<T>` becomes `-> (name: T)` in the last signature.
fn fix_ret(out: &mut Vec<String>, name: &str) {
    let mut n = out.len();
    while n > 0 {
        n -= 1;
        if let Some(p) = out[n].find("__VxRet<") {
            // join the rest to find the matching bracket
            let tail = out.split_off(n).join("\n");
            let mut depth = 0i32;
            let mut end = 0;
            let b: Vec<char> = tail.chars().collect();
            let start = tail[..p].chars().count() + "__VxRet".len();
            let mut x = start;
            while x < b.len() {
                match b[x] {
                    '<' => depth += 1,
                    '>' if x > 0 && b[x - 1] != '-' => {
                        depth -= 1;
                        if depth == 0 {
                            end = x;
                            break;
                        }
                    },
                    _ => {},
                }
                x += 1;
            }
            let head: String = b[..start - "__VxRet".len()].iter().collect();
            let mid: String = b[start + 1..end].iter().collect();
            let rest: String = b[end + 1..].iter().collect();
            let new = format!("{head}({name}: {mid}){rest}");
            out.extend(new.lines().map(|l| l.to_string()));
            return;
        }
        if out[n].contains("fn ") && !out[n].trim_start().starts_with("//") {
            return;
        }
    }
}
