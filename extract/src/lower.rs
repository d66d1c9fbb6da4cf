//! Mechanical lowering of the Rust constructs Verus does not accept:
//! `for` loops and iterator pipelines, `Option` combinators taking closures,
//! function pointers, `matches!`, `debug_assert!`, lifetime transmutes.
use crate::Ctx;
use quote::{format_ident, quote, ToTokens};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Lower<'c> {
    pub cx: &'c Ctx,
    pub k: usize,
    /// local name -> "fnptr" | type name
    pub locals: std::collections::HashMap<String, String>,
    pub errors: Vec<String>,
}

struct Stage {
    setup: Vec<Stmt>,
    pull: Vec<Stmt>,
    item: Expr,
}

fn unparen(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => unparen(&p.expr),
        Expr::Group(p) => unparen(&p.expr),
        _ => e,
    }
}

fn peel_block(e: &Expr) -> Expr {
    e.clone()
}

impl<'c> Lower<'c> {
    fn fresh(&mut self) -> usize {
        let k = self.k;
        self.k += 1;
        k
    }

    /// Statements binding `pat` to `e`, with reference patterns turned into
    /// dereferences.
    fn bind(&mut self, pat: &Pat, e: Expr, out: &mut Vec<Stmt>) {
        match pat {
            Pat::Paren(p) => self.bind(&p.pat, e, out),
            Pat::Reference(r) => {
                // `&P = &x` is `P = x`
                let inner = match &e {
                    Expr::Reference(r) => (*r.expr).clone(),
                    _ => parse_quote!(*#e),
                };
                self.bind(&r.pat, inner, out)
            },
            Pat::Tuple(t) if t.elems.iter().any(has_ref) => {
                let k = self.fresh();
                let tmp = format_ident!("vx_t{}", k);
                out.push(parse_quote!(let #tmp = #e;));
                for (i, p) in t.elems.iter().enumerate() {
                    let idx = Index::from(i);
                    self.bind(p, parse_quote!(#tmp.#idx), out);
                }
            },
            Pat::Wild(_) => out.push(parse_quote!(let _ = #e;)),
            _ => out.push(parse_quote!(let #pat = #e;)),
        }
    }

    /// Applies a closure (or function path) to one argument expression.
    fn apply(&mut self, f: &Expr, arg: Expr) -> Option<Expr> {
        match unparen(f) {
            Expr::Closure(c) => {
                if c.inputs.len() != 1 {
                    return None;
                }
                let pat = match &c.inputs[0] {
                    Pat::Type(t) => (*t.pat).clone(),
                    p => p.clone(),
                };
                let body = &c.body;
                if contains_return(body) {
                    self.errors.push("return or ? inside a closure".into());
                    return None;
                }
                let mut st = vec![];
                self.bind(&pat, arg, &mut st);
                Some(parse_quote!({ #(#st)* #body }))
            },
            Expr::Path(p) => Some(parse_quote!(#p(#arg))),
            _ => None,
        }
    }

    /// The value of a closure without parameters.
    fn thunk(&mut self, f: &Expr) -> Option<Expr> {
        match unparen(f) {
            Expr::Closure(c) if c.inputs.is_empty() && !contains_return(&c.body) => {
                Some((*c.body).clone())
            },
            Expr::Path(p) => Some(parse_quote!(#p())),
            _ => None,
        }
    }

    fn source(&mut self, base: &Expr, back: bool, for_src: bool) -> Stage {
        let k = self.fresh();
        let it = format_ident!("vx_it{}", k);
        let item = format_ident!("vx_e{}", k);
        let next = if back { format_ident!("next_back") } else { format_ident!("next") };
        // a place that is already an iterator
        let (place, setup): (Expr, Vec<Stmt>) = match base {
            Expr::MethodCall(m) if m.method == "by_ref" && m.args.is_empty() => {
                ((*m.receiver).clone(), vec![])
            },
            Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => {
                let r = &m.receiver;
                (parse_quote!(#it), vec![parse_quote!(let mut #it = #r.vx_iter();)])
            },
            Expr::MethodCall(m) if m.method == "bytes" && m.args.is_empty() => {
                let r = &m.receiver;
                (
                    parse_quote!(#it),
                    vec![parse_quote!(let mut #it = VxCopied::new(#r.as_bytes().vx_iter());)],
                )
            },
            Expr::Path(_) | Expr::Reference(_) | Expr::Field(_) if for_src => (
                parse_quote!(#it),
                vec![parse_quote!(let mut #it = #base.vx_into_iter();)],
            ),
            Expr::Path(_) => (base.clone(), vec![]),
            _ => (parse_quote!(#it), vec![parse_quote!(let mut #it = #base;)]),
        };
        let pull: Vec<Stmt> = vec![parse_quote!(
            let #item = match #place.#next() {
                Some(vx_x) => vx_x,
                None => break,
            };
        )];
        Stage { setup, pull, item: parse_quote!(#item) }
    }

    /// Lowers an iterator-valued expression to a pull loop stage.
    fn chain(&mut self, e: &Expr, for_src: bool) -> Option<Stage> {
        let e = unparen(e);
        let Expr::MethodCall(m) = e else {
            return Some(self.source(e, false, for_src));
        };
        let name = m.method.to_string();
        let nargs = m.args.len();
        match (name.as_str(), nargs) {
            ("map", 1) => {
                let mut s = self.chain(&m.receiver, false)?;
                let k = self.fresh();
                let item = format_ident!("vx_e{}", k);
                let v = self.apply(&m.args[0], s.item)?;
                s.pull.push(parse_quote!(let #item = #v;));
                s.item = parse_quote!(#item);
                Some(s)
            },
            ("copied" | "cloned", 0) => {
                let mut s = self.chain(&m.receiver, false)?;
                let i = &s.item;
                s.item = parse_quote!((*#i));
                Some(s)
            },
            ("enumerate", 0) => {
                let mut s = self.chain(&m.receiver, false)?;
                let k = self.fresh();
                let cnt = format_ident!("vx_n{}", k);
                let item = format_ident!("vx_e{}", k);
                let i = &s.item;
                s.setup.push(parse_quote!(let mut #cnt: usize = 0;));
                s.pull.push(parse_quote!(let #item = (#cnt, #i);));
                s.pull.push(parse_quote!(#cnt += 1;));
                s.item = parse_quote!(#item);
                Some(s)
            },
            ("take", 1) => {
                let mut s = self.chain(&m.receiver, false)?;
                let k = self.fresh();
                let cnt = format_ident!("vx_n{}", k);
                let n = &m.args[0];
                s.setup.push(parse_quote!(let mut #cnt: usize = #n;));
                s.pull.insert(0, parse_quote!(if #cnt == 0 { break; }));
                s.pull.insert(1, parse_quote!(#cnt -= 1;));
                Some(s)
            },
            ("take_while", 1) => {
                let mut s = self.chain(&m.receiver, false)?;
                let i = s.item.clone();
                let c = self.apply(&m.args[0], parse_quote!(&#i))?;
                s.pull.push(parse_quote!(if !#c { break; }));
                Some(s)
            },
            ("filter", 1) => {
                let mut s = self.chain(&m.receiver, false)?;
                let i = s.item.clone();
                let c = self.apply(&m.args[0], parse_quote!(&#i))?;
                s.pull.push(parse_quote!(if !#c { continue; }));
                Some(s)
            },
            ("zip", 1) => {
                let a = self.chain(&m.receiver, for_src)?;
                let b = self.chain(&m.args[0], true)?;
                let (ai, bi) = (a.item, b.item);
                let mut setup = a.setup;
                setup.extend(b.setup);
                let mut pull = a.pull;
                pull.extend(b.pull);
                Some(Stage { setup, pull, item: parse_quote!((#ai, #bi)) })
            },
            ("rev", 0) => self.rev_chain(&m.receiver),
            _ => Some(self.source(e, false, for_src)),
        }
    }

    fn rev_chain(&mut self, e: &Expr) -> Option<Stage> {
        let e = unparen(e);
        if let Expr::MethodCall(m) = e {
            match m.method.to_string().as_str() {
                "copied" | "cloned" if m.args.is_empty() => {
                    let mut s = self.rev_chain(&m.receiver)?;
                    let i = &s.item;
                    s.item = parse_quote!((*#i));
                    return Some(s);
                },
                "enumerate" if m.args.is_empty() => {
                    // ExactSizeIterator: the index is the number of items left
                    let mut s = self.rev_chain(&m.receiver)?;
                    let k = self.fresh();
                    let item = format_ident!("vx_e{}", k);
                    let i = s.item.clone();
                    // the base iterator is bound by the first setup statement
                    let Some(Stmt::Local(l)) = s.setup.first() else { return None };
                    let Pat::Ident(id) = &l.pat else { return None };
                    let id = &id.ident;
                    s.pull.push(parse_quote!(let #item = (#id.len(), #i);));
                    s.item = parse_quote!(#item);
                    return Some(s);
                },
                _ => {},
            }
        }
        Some(self.source(e, true, false))
    }

    fn is_chain_method(name: &str) -> bool {
        matches!(
            name,
            "iter" | "chars" | "bytes" | "map" | "copied" | "cloned" | "enumerate" | "take"
                | "take_while" | "filter" | "zip" | "rev" | "by_ref" | "chars_from"
        )
    }

    /// Does this expression look like an iterator (as opposed to an Option)?
    fn looks_like_iter(e: &Expr) -> bool {
        match unparen(e) {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if n == "map" || n == "copied" || n == "cloned" || n == "filter" {
                    return Self::looks_like_iter(&m.receiver);
                }
                Self::is_chain_method(&n)
            },
            Expr::Path(_) => false,
            _ => false,
        }
    }

    /// Lowers `<iterator chain>.terminal(..)`.
    fn terminal(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let recv_iter = Self::looks_like_iter(&m.receiver);
        match (name.as_str(), m.args.len()) {
            ("count", 0) if recv_iter => {
                let s = self.chain(&m.receiver, false)?;
                let acc = format_ident!("vx_acc{}", self.fresh());
                let (setup, pull) = (s.setup, s.pull);
                Some(parse_quote!({
                    let mut #acc: usize = 0;
                    #(#setup)*
                    loop { #(#pull)* #acc += 1; }
                    #acc
                }))
            },
            ("sum", 0) => {
                let s = self.chain(&m.receiver, false)?;
                let acc = format_ident!("vx_acc{}", self.fresh());
                let (setup, pull, item) = (s.setup, s.pull, s.item);
                let init: Stmt = match &m.turbofish {
                    Some(t) => {
                        let ty = t.args.first()?;
                        parse_quote!(let mut #acc: #ty = 0;)
                    },
                    None => parse_quote!(let mut #acc = 0;),
                };
                Some(parse_quote!({
                    #init
                    #(#setup)*
                    loop { #(#pull)* #acc += #item; }
                    #acc
                }))
            },
            ("any" | "all", 1) => {
                let s = self.chain(&m.receiver, false)?;
                let acc = format_ident!("vx_acc{}", self.fresh());
                let c = self.apply(&m.args[0], s.item)?;
                let (setup, pull) = (s.setup, s.pull);
                let (init, test): (Expr, Expr) = if name == "any" {
                    (parse_quote!(false), parse_quote!(#c))
                } else {
                    (parse_quote!(true), parse_quote!(!#c))
                };
                Some(parse_quote!({
                    let mut #acc = #init;
                    #(#setup)*
                    loop { #(#pull)* if #test { #acc = !#acc; break; } }
                    #acc
                }))
            },
            ("find_map", 1) => {
                let s = self.chain(&m.receiver, false)?;
                let acc = format_ident!("vx_acc{}", self.fresh());
                let c = self.apply(&m.args[0], s.item)?;
                let (setup, pull) = (s.setup, s.pull);
                Some(parse_quote!({
                    let mut #acc = None;
                    #(#setup)*
                    loop { #(#pull)* #acc = #c; if #acc.is_some() { break; } }
                    #acc
                }))
            },
            ("position", 1) => {
                let s = self.chain(&m.receiver, false)?;
                let k = self.fresh();
                let acc = format_ident!("vx_acc{}", k);
                let cnt = format_ident!("vx_n{}", k);
                let c = self.apply(&m.args[0], s.item)?;
                let (setup, pull) = (s.setup, s.pull);
                Some(parse_quote!({
                    let mut #acc: Option<usize> = None;
                    let mut #cnt: usize = 0;
                    #(#setup)*
                    loop { #(#pull)* if #c { #acc = Some(#cnt); break; } #cnt += 1; }
                    #acc
                }))
            },
            _ => None,
        }
    }

    /// Statements for a `for` loop.
    fn for_loop(&mut self, f: &ExprForLoop) -> Option<Vec<Stmt>> {
        let body = &f.body.stmts;
        let label = &f.label;
        let src = unparen(&f.expr);
        if let Expr::Range(r) = src {
            let (Some(a), Some(b)) = (&r.start, &r.end) else { return None };
            let k = self.fresh();
            let i = format_ident!("vx_i{}", k);
            let end = format_ident!("vx_end{}", k);
            let cmp: BinOp = match r.limits {
                RangeLimits::HalfOpen(_) => parse_quote!(<),
                RangeLimits::Closed(_) => return None,
            };
            let mut st = vec![];
            self.bind(&f.pat, parse_quote!(#i), &mut st);
            return Some(vec![
                parse_quote!(let mut #i = #a;),
                parse_quote!(let #end = #b;),
                Stmt::Expr(
                    parse_quote!(#label while #i #cmp #end { #(#st)* #i += 1; #(#body)* }),
                    None,
                ),
            ]);
        }
        // `for x in slice.iter_mut()`: an index loop
        if let Expr::MethodCall(m) = src {
            if m.method == "iter_mut" && m.args.is_empty() {
                return self.iter_mut_loop(&m.receiver, &f.pat, body, label);
            }
        }
        let s = self.chain(&f.expr, true)?;
        let mut st = vec![];
        // tuples of plain bindings can be destructured directly
        match (&*f.pat, unparen(&s.item)) {
            (Pat::Tuple(p), Expr::Tuple(t)) if p.elems.len() == t.elems.len() => {
                for (p, e) in p.elems.iter().zip(t.elems.iter()) {
                    self.bind(p, e.clone(), &mut st);
                }
            },
            _ => self.bind(&f.pat, s.item.clone(), &mut st),
        }
        let pull = &s.pull;
        let mut out = s.setup;
        out.push(Stmt::Expr(parse_quote!(#label loop { #(#pull)* #(#st)* #(#body)* }), None));
        Some(out)
    }

    fn iter_mut_loop(
        &mut self,
        recv: &Expr,
        pat: &Pat,
        body: &[Stmt],
        label: &Option<Label>,
    ) -> Option<Vec<Stmt>> {
        let k = self.fresh();
        let i = format_ident!("vx_i{}", k);
        let mut st = vec![];
        self.bind(pat, parse_quote!(&mut #recv[#i]), &mut st);
        Some(vec![
            parse_quote!(let mut #i: usize = 0;),
            Stmt::Expr(
                parse_quote!(#label while #i < #recv.len() { #(#st)* #i += 1; #(#body)* }),
                None,
            ),
        ])
    }

    /// Is this expression a `bool`, by its form?
    fn is_bool(&self, e: &Expr) -> bool {
        match unparen(e) {
            Expr::Lit(l) => matches!(l.lit, Lit::Bool(_)),
            Expr::Binary(b) => match b.op {
                BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_)
                | BinOp::Ge(_) | BinOp::And(_) | BinOp::Or(_) => true,
                BinOp::BitAnd(_) | BinOp::BitOr(_) => self.is_bool(&b.left) || self.is_bool(&b.right),
                _ => false,
            },
            Expr::Unary(u) => matches!(u.op, UnOp::Not(_)) && self.is_bool(&u.expr),
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                n.starts_with("is_")
                    || matches!(
                        n.as_str(),
                        "contains" | "starts_with" | "ends_with" | "any" | "all" | "eq_ignore_ascii_case"
                    )
            },
            Expr::Macro(m) => m.mac.path.is_ident("matches"),
            Expr::Path(p) => p.path.get_ident().is_some_and(|i| {
                self.locals.get(&i.to_string()).is_some_and(|t| t == "bool")
            }),
            Expr::Field(f) => match &f.member {
                Member::Named(i) => i.to_string().starts_with("is_"),
                _ => false,
            },
            _ => false,
        }
    }

    fn option_combinator(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let r = &m.receiver;
        match (name.as_str(), m.args.len()) {
            ("map", 1) => {
                let v = self.apply(&m.args[0], parse_quote!(vx_x))?;
                Some(parse_quote!(match #r { Some(vx_x) => Some(#v), None => None }))
            },
            ("and_then", 1) => {
                let v = self.apply(&m.args[0], parse_quote!(vx_x))?;
                Some(parse_quote!(match #r { Some(vx_x) => #v, None => None }))
            },
            ("map_or", 2) => {
                let d = &m.args[0];
                let v = self.apply(&m.args[1], parse_quote!(vx_x))?;
                Some(parse_quote!(match #r { Some(vx_x) => #v, None => #d }))
            },
            ("is_some_and", 1) => {
                let v = self.apply(&m.args[0], parse_quote!(vx_x))?;
                Some(parse_quote!(match #r { Some(vx_x) => #v, None => false }))
            },
            ("is_none_or", 1) => {
                let v = self.apply(&m.args[0], parse_quote!(vx_x))?;
                Some(parse_quote!(match #r { Some(vx_x) => #v, None => true }))
            },
            ("filter", 1) => {
                let c = self.apply(&m.args[0], parse_quote!(&vx_x))?;
                Some(parse_quote!(match #r {
                    Some(vx_x) => if #c { Some(vx_x) } else { None },
                    None => None,
                }))
            },
            ("unwrap_or_else", 1) => {
                let v = self.thunk(&m.args[0])?;
                Some(parse_quote!(match #r { Some(vx_x) => vx_x, None => #v }))
            },
            ("or_else", 1) => {
                let v = self.thunk(&m.args[0])?;
                Some(parse_quote!(match #r { Some(vx_x) => Some(vx_x), None => #v }))
            },
            ("map_or_else", 2) => {
                let d = self.thunk(&m.args[0])?;
                let v = self.apply(&m.args[1], parse_quote!(vx_x))?;
                Some(parse_quote!(match #r { Some(vx_x) => #v, None => #d }))
            },
            ("then", 1) if matches!(unparen(&m.args[0]), Expr::Closure(_)) => {
                let v = self.thunk(&m.args[0])?;
                Some(parse_quote!(if #r { Some(#v) } else { None }))
            },
            _ => None,
        }
    }

    fn macro_expr(&mut self, mac: &Macro) -> Option<Expr> {
        let name = mac.path.segments.last()?.ident.to_string();
        match name.as_str() {
            "matches" => {
                struct M(Expr, Pat, Option<Expr>);
                impl parse::Parse for M {
                    fn parse(input: parse::ParseStream) -> Result<Self> {
                        let e = input.parse()?;
                        input.parse::<Token![,]>()?;
                        let p = Pat::parse_multi_with_leading_vert(input)?;
                        let g = if input.peek(Token![if]) {
                            input.parse::<Token![if]>()?;
                            Some(input.parse()?)
                        } else {
                            None
                        };
                        let _ = input.parse::<Option<Token![,]>>()?;
                        Ok(M(e, p, g))
                    }
                }
                let M(e, p, g) = parse2(mac.tokens.clone()).ok()?;
                // `A..=B | C..=D`: comparisons, which is what the patterns mean
                if let (None, Some(rs)) = (&g, ranges(&p)) {
                    let mut c: Option<Expr> = None;
                    for (a, b) in rs {
                        let t: Expr = parse_quote!((#a <= vx_m && vx_m <= #b));
                        c = Some(match c {
                            None => t,
                            Some(c) => parse_quote!(#c || #t),
                        });
                    }
                    return Some(parse_quote!({ let vx_m = #e; #c }));
                }
                Some(match g {
                    Some(g) => parse_quote!(match #e { #p if #g => true, _ => false }),
                    None => parse_quote!(match #e { #p => true, _ => false }),
                })
            },
            "debug_assert" | "assert" => {
                let args: punctuated::Punctuated<Expr, Token![,]> =
                    mac.parse_body_with(punctuated::Punctuated::parse_terminated).ok()?;
                let e = args.first()?;
                Some(parse_quote!(vx_check(#e)))
            },
            "debug_assert_eq" | "assert_eq" => {
                let args: punctuated::Punctuated<Expr, Token![,]> =
                    mac.parse_body_with(punctuated::Punctuated::parse_terminated).ok()?;
                let (a, b) = (args.first()?, args.iter().nth(1)?);
                Some(parse_quote!(vx_check(#a == #b)))
            },
            "unreachable" | "panic" | "todo" | "unimplemented" => {
                Some(parse_quote!(vx_unreachable()))
            },
            _ => None,
        }
    }

    fn transmute(&mut self, e: &Expr) -> Option<Expr> {
        // unsafe { transmute::<A, B>(x) }
        let Expr::Unsafe(u) = e else { return None };
        if u.block.stmts.len() != 1 {
            return None;
        }
        let Stmt::Expr(Expr::Call(c), None) = &u.block.stmts[0] else { return None };
        let Expr::Path(p) = &*c.func else { return None };
        let last = p.path.segments.last()?;
        if last.ident != "transmute" || c.args.len() != 1 {
            return None;
        }
        let arg = &c.args[0];
        let f = match &last.arguments {
            PathArguments::None => format_ident!("vx_extend_slice"),
            PathArguments::AngleBracketed(a) => {
                let tys: Vec<&Type> = a
                    .args
                    .iter()
                    .filter_map(|g| if let GenericArgument::Type(t) = g { Some(t) } else { None })
                    .collect();
                if tys.len() != 2 {
                    return None;
                }
                let name = |t: &Type| t.to_token_stream().to_string();
                if name(tys[0]) == "u32" && name(tys[1]) == "char" {
                    return Some(parse_quote!(vx_u32_as_char(#arg)));
                }
                // the two types must be equal up to lifetimes
                let (x, y) = (erase_lifetimes(tys[0]), erase_lifetimes(tys[1]));
                if x != y {
                    return None;
                }
                match tys[0] {
                    Type::Reference(r) if r.mutability.is_some() => {
                        format_ident!("vx_retag_mut")
                    },
                    Type::Reference(_) => format_ident!("vx_extend_slice"),
                    Type::Path(p) => {
                        format_ident!("vx_retag_{}", p.path.segments.last()?.ident)
                    },
                    _ => return None,
                }
            },
            _ => return None,
        };
        Some(parse_quote!(#f(#arg)))
    }

    fn is_fnptr_local(&self, e: &Expr) -> bool {
        match e {
            Expr::Paren(p) => matches!(&*p.expr, Expr::Field(_)) || self.is_fnptr_local(&p.expr),
            Expr::Path(p) => p
                .path
                .get_ident()
                .map_or(false, |i| self.locals.get(&i.to_string()).map_or(false, |t| t == "fnptr")),
            _ => false,
        }
    }
}

/// the bounds of a pattern made of inclusive ranges only
fn ranges(p: &Pat) -> Option<Vec<(Expr, Expr)>> {
    match p {
        Pat::Or(o) => {
            let mut v = vec![];
            for c in &o.cases {
                v.extend(ranges(c)?);
            }
            Some(v)
        },
        Pat::Paren(p) => ranges(&p.pat),
        Pat::Range(PatRange { start: Some(a), end: Some(b), limits: RangeLimits::Closed(_), .. }) => {
            Some(vec![((**a).clone(), (**b).clone())])
        },
        _ => None,
    }
}

pub fn erase_lifetimes(t: &Type) -> String {
    struct V;
    impl VisitMut for V {
        fn visit_type_reference_mut(&mut self, r: &mut TypeReference) {
            r.lifetime = None;
            visit_mut::visit_type_reference_mut(self, r);
        }
        fn visit_path_segment_mut(&mut self, s: &mut PathSegment) {
            if let PathArguments::AngleBracketed(a) = &mut s.arguments {
                let args: Vec<_> = a
                    .args
                    .iter()
                    .filter(|g| !matches!(g, GenericArgument::Lifetime(_)))
                    .cloned()
                    .collect();
                if args.is_empty() {
                    s.arguments = PathArguments::None;
                } else {
                    a.args = args.into_iter().collect();
                }
            }
            visit_mut::visit_path_segment_mut(self, s);
        }
    }
    let mut t = t.clone();
    V.visit_type_mut(&mut t);
    t.to_token_stream().to_string()
}

fn has_ref(p: &Pat) -> bool {
    match p {
        Pat::Reference(_) => true,
        Pat::Tuple(t) => t.elems.iter().any(has_ref),
        Pat::Paren(p) => has_ref(&p.pat),
        _ => false,
    }
}

fn contains_return(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, _: &'a ExprTry) {
            self.0 = true;
        }
    }
    let mut v = V(false);
    syn::visit::Visit::visit_expr(&mut v, e);
    v.0
}

impl<'c> VisitMut for Lower<'c> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out: Vec<Stmt> = vec![];
        for st in std::mem::take(&mut b.stmts) {
            match st {
                Stmt::Expr(Expr::ForLoop(f), semi) => match self.for_loop(&f) {
                    Some(v) => {
                        for mut s in v {
                            self.visit_stmt_mut(&mut s);
                            out.push(s);
                        }
                    },
                    None => {
                        self.errors.push("unsupported for loop".into());
                        out.push(Stmt::Expr(Expr::ForLoop(f), semi));
                    },
                },
                Stmt::Expr(Expr::MethodCall(m), Some(_))
                    if m.method == "for_each" && m.args.len() == 1 =>
                {
                    let done = (|| {
                        let Expr::Closure(c) = unparen(&m.args[0]) else { return None };
                        let pat = c.inputs.first()?.clone();
                        let body = &c.body;
                        if contains_return(body) {
                            return None;
                        }
                        let f: ExprForLoop = {
                            let r = &m.receiver;
                            parse_quote!(for #pat in #r { #body; })
                        };
                        self.for_loop(&f)
                    })();
                    match done {
                        Some(v) => {
                            for mut s in v {
                                self.visit_stmt_mut(&mut s);
                                out.push(s);
                            }
                        },
                        None => {
                            self.errors.push("unsupported for_each".into());
                            out.push(Stmt::Expr(Expr::MethodCall(m), None));
                        },
                    }
                },
                Stmt::Macro(m) => {
                    if let Some(e) = self.macro_expr(&m.mac) {
                        let mut s = Stmt::Expr(e, m.semi_token);
                        self.visit_stmt_mut(&mut s);
                        out.push(s);
                    } else {
                        out.push(Stmt::Macro(m));
                    }
                },
                // a local `use` or item
                Stmt::Local(mut l) => {
                    if !cfg_on_attrs(&mut l.attrs) {
                        continue;
                    }
                    let mut s = Stmt::Local(l);
                    self.visit_stmt_mut(&mut s);
                    // remember the type of `let x: T` / `let x = <..>.char_eq(..)`
                    if let Stmt::Local(l) = &s {
                        self.note_local(l);
                    }
                    out.push(s);
                },
                mut s => {
                    self.visit_stmt_mut(&mut s);
                    out.push(s);
                },
            }
        }
        b.stmts = out;
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // top-down rewriting, then the children
        for _ in 0..8 {
            let new: Option<Expr> = match &*e {
                Expr::MethodCall(m) => {
                    let name = m.method.to_string();
                    if let Some(t) = self.terminal(m) {
                        Some(t)
                    } else if (name == "map"
                        || name == "and_then"
                        || name == "map_or"
                        || name == "is_some_and"
                        || name == "is_none_or"
                        || name == "filter"
                        || name == "unwrap_or_else"
                        || name == "or_else"
                        || name == "map_or_else"
                        || name == "then")
                        && !Self::looks_like_iter(&m.receiver)
                    {
                        self.option_combinator(m)
                    } else {
                        let r = &m.receiver;
                        match (name.as_str(), m.args.len()) {
                            ("enumerate", 0) => Some(parse_quote!(VxEnumerate::new(#r))),
                            ("rev", 0) => Some(parse_quote!(VxRev::new(#r))),
                            // `Ordering::reverse` (a slice's is a statement)
                            ("reverse", 0)
                                if matches!(&**r, Expr::MethodCall(m) if m.method == "cmp") =>
                            {
                                Some(parse_quote!(vx_reverse(#r)))
                            },
                            ("iter", 0) => Some(parse_quote!(#r.vx_iter())),
                            ("copied" | "cloned", 0)
                                if matches!(&**r, Expr::MethodCall(m) if m.method == "iter") =>
                            {
                                Some(parse_quote!(VxCopied::new(#r)))
                            },
                            ("len", 0)
                                if match unparen(r) {
                                    Expr::Range(_) => true,
                                    Expr::Path(p) => p.path.get_ident().map_or(false, |i| {
                                        self.locals.get(&i.to_string()).map_or(false, |t| t == "Range")
                                    }),
                                    _ => false,
                                } =>
                            {
                                Some(parse_quote!(vx_range_len(&#r)))
                            },
                            ("into", 0) => self.cx.from_impl.as_ref().map(|t| {
                                let t = format_ident!("{}", t);
                                let e: Expr = parse_quote!(#t::from(#r));
                                e
                            }),
                            _ => None,
                        }
                    }
                },
                Expr::Match(m) => guard_arms(m),
                Expr::ForLoop(f) => self.for_loop(f).map(|v| parse_quote!({ #(#v)* })),
                Expr::Macro(m) => self.macro_expr(&m.mac),
                Expr::Unsafe(_) => match self.transmute(e) {
                    Some(t) => Some(t),
                    None => {
                        self.errors.push("unsafe block that is not a lifetime transmute".into());
                        None
                    },
                },
                Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) => {
                    let cs = |x: &Expr| match x {
                        Expr::Path(p) => self
                            .cx
                            .const_slices
                            .get(&p.path.segments.last().unwrap().ident.to_string())
                            .cloned(),
                        _ => None,
                    };
                    let (l, r) = (&b.left, &b.right);
                    let v = match (cs(l), cs(r)) {
                        (_, Some(x)) => Some(quote!(vx_slice_eq(#l, #x))),
                        (Some(x), _) => Some(quote!(vx_slice_eq(#r, #x))),
                        _ => None,
                    };
                    v.map(|v| {
                        if matches!(b.op, BinOp::Eq(_)) {
                            parse_quote!(#v)
                        } else {
                            parse_quote!(!#v)
                        }
                    })
                },
                Expr::Call(c) if self.is_fnptr_local(&c.func) => {
                    let f = unparen(&c.func);
                    let a = &c.args;
                    Some(parse_quote!(#f.call(#a)))
                },
                // `&` and `|` of booleans: both sides are evaluated
                Expr::Binary(b)
                    if matches!(b.op, BinOp::BitAnd(_) | BinOp::BitOr(_))
                        && (self.is_bool(&b.left) || self.is_bool(&b.right)) =>
                {
                    let (l, r) = (&b.left, &b.right);
                    let op: BinOp = match b.op {
                        BinOp::BitAnd(_) => parse_quote!(&&),
                        _ => parse_quote!(||),
                    };
                    Some(parse_quote!({ let vx_l = #l; let vx_r = #r; vx_l #op vx_r }))
                },
                Expr::Binary(b)
                    if matches!(b.op, BinOp::BitAndAssign(_) | BinOp::BitOrAssign(_))
                        && matches!(unparen(&b.left), Expr::Path(_) | Expr::Field(_))
                        && (self.is_bool(&b.left) || self.is_bool(&b.right)) =>
                {
                    let (l, r) = (&b.left, &b.right);
                    let op: BinOp = match b.op {
                        BinOp::BitAndAssign(_) => parse_quote!(&&),
                        _ => parse_quote!(||),
                    };
                    Some(parse_quote!({ let vx_r = #r; #l = #l #op vx_r; }))
                },
                Expr::Index(i) => match &*i.expr {
                    Expr::Path(p) => p.path.get_ident().and_then(|id| {
                        let t = self.locals.get(&id.to_string())?;
                        if self.cx.index_types.contains(t) {
                            let ix = &i.index;
                            let e: Expr = parse_quote!((*#id.vx_index(#ix)));
                            Some(e)
                        } else {
                            None
                        }
                    }),
                    _ => None,
                },
                _ => None,
            };
            match new {
                Some(n) => *e = peel_block(&n),
                None => break,
            }
        }
        // function items used as values
        if let Expr::Call(c) = e {
            // do not treat the callee as a value
            for a in c.args.iter_mut() {
                self.visit_expr_mut(a);
            }
            if !matches!(&*c.func, Expr::Path(_)) {
                self.visit_expr_mut(&mut c.func);
            } else {
                self.visit_callee(&mut c.func);
            }
            return;
        }
        if let Expr::Path(p) = e {
            if p.qself.is_none() {
                let last = p.path.segments.last().unwrap().ident.to_string();
                let is_local = p.path.segments.len() == 1 && self.locals.contains_key(&last);
                if !is_local {
                    if let Some(en) = self.cx.fn_values.get(&last) {
                        let en = format_ident!("{}", en);
                        let v = format_ident!("{}", last);
                        *e = parse_quote!(crate::#en::#v);
                        return;
                    }
                }
            }
        }
        // `&mut v[a..b]` with `v: Vec` is `&mut (*v)[a..b]` (Vec's IndexMut
        // is defined as indexing its slice)
        if let Expr::Reference(r) = e {
            if r.mutability.is_some() {
                if let Expr::Index(i) = &mut *r.expr {
                    if matches!(unparen(&i.index), Expr::Range(_)) {
                        if let Expr::Field(f) = &*i.expr {
                            if matches!(&f.member, Member::Named(n) if self.cx.vec_fields.contains(&n.to_string())) {
                                let b = &i.expr;
                                *i.expr = parse_quote!((*#b));
                            }
                        }
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }

    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        fix_path(&mut p.path);
        visit_mut::visit_expr_path_mut(self, p);
    }

    fn visit_type_mut(&mut self, t: &mut Type) {
        fix_type(self.cx, t);
        visit_mut::visit_type_mut(self, t);
    }
}

impl<'c> Lower<'c> {
    fn visit_callee(&mut self, f: &mut Expr) {
        if let Expr::Path(p) = f {
            fix_path(&mut p.path);
            visit_mut::visit_expr_path_mut(self, p);
        }
    }

    fn note_local(&mut self, l: &Local) {
        if let Pat::Type(t) = &l.pat {
            if let Pat::Ident(i) = &*t.pat {
                let ty = crate::type_kind(self.cx, &t.ty);
                self.locals.insert(i.ident.to_string(), ty);
            }
            return;
        }
        if let Pat::Ident(i) = &l.pat {
            let mut kind = "?".to_string();
            if let Some(init) = &l.init {
                if let Expr::Range(_) = unparen(&init.expr) {
                    kind = "Range".into();
                }
                if self.is_bool(&init.expr) {
                    kind = "bool".into();
                }
                let name = match &*init.expr {
                    Expr::MethodCall(m) => Some(m.method.to_string()),
                    Expr::Call(c) => match &*c.func {
                        Expr::Path(p) => Some(p.path.segments.last().unwrap().ident.to_string()),
                        _ => None,
                    },
                    Expr::Field(f) => match &f.member {
                        Member::Named(n) => Some(n.to_string()),
                        _ => None,
                    },
                    _ => None,
                };
                if name.map_or(false, |n| self.cx.fnptr_sources.contains(&n)) {
                    kind = "fnptr".into();
                }
            }
            self.locals.insert(i.ident.to_string(), kind);
        }
    }
}

pub fn fix_path(p: &mut Path) {
    let first = p.segments.first().unwrap().ident.to_string();
    if first == "memchr" && p.segments.len() > 1 {
        let old = p.clone();
        *p = parse_quote!(crate::#old);
    }
}

pub fn fix_type(cx: &Ctx, t: &mut Type) {
    if let Type::BareFn(f) = t {
        let key = crate::barefn_key(f);
        if let Some(n) = cx.fnptr_enums.get(&key) {
            let n = format_ident!("{}", n);
            *t = parse_quote!(crate::#n);
        }
        return;
    }
    if let Type::Path(p) = t {
        fix_path(&mut p.path);
        let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        if segs == ["core", "slice", "Iter"] || segs == ["std", "slice", "Iter"] {
            let args = p.path.segments.last().unwrap().arguments.clone();
            let mut seg: PathSegment = parse_quote!(VxIter);
            seg.arguments = args;
            p.path.segments.clear();
            p.path.segments.push(seg);
            p.path.leading_colon = None;
        }
    }
    if let Type::ImplTrait(i) = t {
        // impl [ExactSize|DoubleEnded]Iterator<Item = T> + '_  ->  VxCopied<'_, T>
        for b in &i.bounds {
            if let TypeParamBound::Trait(tb) = b {
                let s = tb.path.segments.last().unwrap();
                if s.ident.to_string().ends_with("Iterator") {
                    if let PathArguments::AngleBracketed(a) = &s.arguments {
                        for g in &a.args {
                            if let GenericArgument::AssocType(at) = g {
                                let ty = &at.ty;
                                *t = parse_quote!(VxCopied<'_, #ty>);
                                return;
                            }
                        }
                    }
                }
            }
        }
    }
}

pub fn cfg_on_attrs(attrs: &mut Vec<Attribute>) -> bool {
    let mut keep = true;
    for a in attrs.iter() {
        if a.path().is_ident("cfg") {
            if let Ok(m) = a.parse_args::<Meta>() {
                keep &= cfg_eval(&m);
            }
        }
    }
    attrs.retain(|a| !a.path().is_ident("cfg") && !a.path().is_ident("cfg_attr"));
    keep
}

pub fn cfg_eval(m: &Meta) -> bool {
    match m {
        Meta::Path(p) => {
            // neither test, windows, docsrs nor kani
            p.is_ident("unix") || p.is_ident("debug_assertions")
        },
        Meta::NameValue(nv) => {
            let v = nv.value.to_token_stream().to_string();
            nv.path.is_ident("feature")
                && ["\"fzf-v1\"", "\"fzf-v2\"", "\"__any-metric\"", "\"__into-score\""]
                    .contains(&v.as_str())
        },
        Meta::List(l) => {
            let Ok(args) = l.parse_args_with(
                punctuated::Punctuated::<Meta, Token![,]>::parse_terminated,
            ) else {
                return false;
            };
            if l.path.is_ident("not") {
                !args.iter().all(cfg_eval)
            } else if l.path.is_ident("any") {
                args.iter().any(cfg_eval)
            } else if l.path.is_ident("all") {
                args.iter().all(cfg_eval)
            } else {
                false
            }
        },
    }
}

/// `(true, false) if g => A` in a match over bools becomes
/// `(true, false) => if g { A } else { B }` with B the body of the arm that is
/// tried next: Verus doesn't see what the borrows of a match resolve to in
/// the arms after one with a guard.
fn guard_arms(m: &ExprMatch) -> Option<Expr> {
    fn bools(p: &Pat) -> Option<Vec<Option<bool>>> {
        match p {
            Pat::Tuple(t) => t
                .elems
                .iter()
                .map(|e| match e {
                    Pat::Wild(_) => Some(None),
                    Pat::Lit(ExprLit { lit: Lit::Bool(b), .. }) => Some(Some(b.value)),
                    _ => None,
                })
                .collect(),
            Pat::Wild(_) => Some(vec![]),
            _ => None,
        }
    }
    if !m.arms.iter().any(|a| a.guard.is_some()) {
        return None;
    }
    let pats: Vec<_> = m.arms.iter().map(|a| bools(&a.pat)).collect::<Option<_>>()?;
    let mut m = m.clone();
    for i in (0..m.arms.len()).rev() {
        let Some((_, g)) = m.arms[i].guard.take() else { continue };
        let a = &pats[i];
        let next = (i + 1..m.arms.len()).find(|j| {
            let b = &pats[*j];
            b.is_empty()
                || a.iter().zip(b).all(|(x, y)| !matches!((x, y), (Some(x), Some(y)) if x != y))
        })?;
        let b = &pats[next];
        // the next arm must take all that this one leaves
        if !(b.is_empty() || a.iter().zip(b).all(|(x, y)| y.is_none() || x == y)) {
            return None;
        }
        let (t, e) = (&m.arms[i].body, &m.arms[next].body);
        m.arms[i].body = parse_quote!(if #g { #t } else { #e });
    }
    Some(Expr::Match(m))
}
