//! The rewrites applied to every extracted function (all purely syntactic; listed in DESIGN.md).
use crate::print::flat;
use proc_macro2::{Span, TokenStream};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Rewriter {
    pub notes: BTreeSet<String>,
    pub opts: BTreeSet<String>,
    n: usize,
}

const LOGS: &[&str] = &["lazy_static", "debug", "trace", "info", "warn", "error", "println", "eprintln", "print", "debug_assert"];

impl Rewriter {
    pub fn new(g: &BTreeSet<String>) -> Self {
        Rewriter { notes: BTreeSet::new(), opts: g.clone(), n: 0 }
    }
    pub fn visit_block(&mut self, b: &mut Block) {
        self.visit_block_mut(b)
    }
    fn note(&mut self, s: &str) {
        self.notes.insert(s.to_string());
    }
    fn fresh(&mut self, p: &str) -> Ident {
        self.n += 1;
        Ident::new(&format!("__{}{}", p, self.n), Span::call_site())
    }
    /// a match with string-literal patterns is read as the chain of comparisons it stands for
    fn str_match(&mut self, m: &ExprMatch) -> Option<Expr> {
        fn parts(p: &Pat) -> Vec<Pat> { match p { Pat::Tuple(t) => t.elems.iter().cloned().collect(), p => vec![p.clone()] } }
        fn is_str(p: &Pat) -> bool { matches!(p, Pat::Lit(l) if matches!(l.lit, Lit::Str(_))) }
        if !m.arms.iter().any(|a| parts(&a.pat).iter().any(is_str)) || m.arms.iter().any(|a| a.guard.is_some()) { return None; }
        let scrut: Vec<Expr> = match &*m.expr { Expr::Tuple(t) => t.elems.iter().cloned().collect(), x => vec![x.clone()] };
        let names: Vec<Ident> = scrut.iter().map(|_| self.fresh("__p")).collect();
        let mut out: Option<Expr> = None;
        for a in m.arms.iter().rev() {
            let body = &a.body;
            let body: Expr = match &**body { Expr::Block(b) if b.label.is_none() => Expr::Block(b.clone()), x => parse_quote!({ #x }) };
            let mut conds: Vec<Expr> = vec![];
            for alt in match &a.pat { Pat::Or(o) => o.cases.iter().cloned().collect::<Vec<_>>(), p => vec![p.clone()] } {
                let mut cs: Vec<Expr> = vec![];
                if !matches!(alt, Pat::Wild(_)) {
                    let ps = parts(&alt);
                    if ps.len() != names.len() { return None; }
                    for (p, n) in ps.iter().zip(&names) {
                        match p {
                            Pat::Wild(_) => {}
                            Pat::Lit(l) => { let l = &l.lit; cs.push(parse_quote!(str_eq(#n, #l))); }
                            Pat::Reference(r) => { let q = &r.pat; cs.push(parse_quote!(#n.veq(&#q))); }
                            Pat::Path(q) => { cs.push(parse_quote!(#n.veq(&#q))); }
                            _ => return None,
                        }
                    }
                }
                let c: Expr = cs.into_iter().reduce(|a, b| parse_quote!(#a && #b)).unwrap_or_else(|| parse_quote!(true));
                conds.push(c);
            }
            let c = conds.into_iter().reduce(|a, b| parse_quote!((#a) || (#b))).unwrap();
            let Expr::Block(bb) = &body else { return None };
            out = Some(match out {
                None => { if c != parse_quote!(true) { return None; } body.clone() }
                Some(rest) => match rest { Expr::If(_) | Expr::Block(_) => parse_quote!(if #c #bb else #rest), _ => return None },
            });
        }
        let out = out?;
        self.note("match on string literals read as a chain of comparisons");
        Some(parse_quote!({ #(let #names = #scrut;)* #out }))
    }
    fn mac(&mut self, m: &Macro) -> Option<Option<Expr>> {
        let name = m.path.segments.last()?.ident.to_string();
        if LOGS.contains(&name.as_str()) {
            self.note("log macros dropped");
            return Some(None);
        }
        let args = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok();
        match name.as_str() {
            "assert" => {
                let mut c = args?.into_iter().next()?;
                self.visit_expr_mut(&mut c);
                self.note("assert! becomes an obligation");
                Some(Some(parse_quote!(vassert(#c))))
            }
            "assert_eq" => {
                let mut it = args?.into_iter();
                let mut a = it.next()?;
                let mut b = it.next()?;
                self.visit_expr_mut(&mut a);
                self.visit_expr_mut(&mut b);
                self.note("assert! becomes an obligation");
                Some(Some(parse_quote!(vassert(#a == #b))))
            }
            "panic" | "unreachable" | "unimplemented" | "todo" => {
                self.note("panic! becomes an obligation");
                Some(Some(parse_quote!(vpanic())))
            }
            "format" => {
                self.note("format! result is opaque");
                Some(Some(parse_quote!(vformat())))
            }
            "vec" => {
                let s = m.tokens.to_string();
                if !s.contains(';') {
                    if let Some(a) = args {
                        let mut v: Vec<Expr> = a.into_iter().collect();
                        for e in v.iter_mut() {
                            self.visit_expr_mut(e);
                        }
                        return Some(Some(parse_quote!(vec![#(#v),*])));
                    }
                } else {
                    struct R(Expr, Expr);
                    impl parse::Parse for R {
                        fn parse(i: parse::ParseStream) -> Result<Self> {
                            let a = i.parse()?;
                            i.parse::<Token![;]>()?;
                            let b = i.parse()?;
                            Ok(R(a, b))
                        }
                    }
                    if let Ok(R(mut a, mut b)) = parse2::<R>(m.tokens.clone()) {
                        self.visit_expr_mut(&mut a);
                        self.visit_expr_mut(&mut b);
                        return Some(Some(parse_quote!(vec_repeat(#a, #b))));
                    }
                }
                None
            }
            _ => None,
        }
    }

    /// Split an iterator chain into (base, adaptors innermost first).
    fn chain(e: &Expr) -> (Expr, Vec<(String, Vec<Expr>)>) {
        let mut ads = vec![];
        let mut cur = e.clone();
        loop {
            if let Expr::MethodCall(m) = &cur {
                let n = m.method.to_string();
                let ok = match n.as_str() {
                    "map" | "filter" | "filter_map" => m.args.len() == 1 && looks_iter(&m.receiver),
                    "enumerate" | "cloned" | "copied" => m.args.is_empty() && looks_iter(&m.receiver),
                    _ => false,
                };
                if ok {
                    ads.push((n, m.args.iter().cloned().collect()));
                    let r = (*m.receiver).clone();
                    cur = r;
                    continue;
                }
            }
            break;
        }
        ads.reverse();
        (cur, ads)
    }

    fn apply(f: &Expr, arg: Expr) -> Expr {
        match f {
            Expr::Closure(c) => {
                let p = &c.inputs[0];
                let p = strip_ty(p);
                let b = &c.body;
                if let Pat::Ident(pi) = &p {
                    if let Expr::Path(ap) = &arg {
                        if ap.path.is_ident(&pi.ident) {
                            return (**b).clone();
                        }
                    }
                }
                parse_quote!({ let #p = #arg; #b })
            }
            _ => parse_quote!(#f(#arg)),
        }
    }

    /// Statements of the loop body that push item `item` through the adaptors into `inner`.
    fn through(&mut self, ads: &[(String, Vec<Expr>)], item: Expr, inner: &dyn Fn(Expr) -> Vec<Stmt>, pre: &mut Vec<Stmt>) -> Vec<Stmt> {
        if ads.is_empty() {
            return inner(item);
        }
        let (n, args) = &ads[0];
        let rest = &ads[1..];
        match n.as_str() {
            "map" => {
                let v = self.fresh("m");
                let e = Self::apply(&args[0], item);
                let mut out: Vec<Stmt> = vec![parse_quote!(let #v = #e;)];
                out.extend(self.through(rest, parse_quote!(#v), inner, pre));
                out
            }
            "filter" => {
                let v = self.fresh("f");
                let c = Self::apply(&args[0], parse_quote!(&#v));
                let body = self.through(rest, parse_quote!(#v), inner, pre);
                let b = Block { brace_token: Default::default(), stmts: body };
                vec![parse_quote!(let #v = #item;), parse_quote!(if #c #b)]
            }
            "filter_map" => {
                let v = self.fresh("f");
                let c = Self::apply(&args[0], item);
                let body = self.through(rest, parse_quote!(#v), inner, pre);
                let b = Block { brace_token: Default::default(), stmts: body };
                vec![parse_quote!(if let Some(#v) = #c #b)]
            }
            "enumerate" => {
                let c = self.fresh("c");
                let k = self.fresh("k");
                pre.push(parse_quote!(let mut #c: usize = 0;));
                let v = self.fresh("e");
                let mut out: Vec<Stmt> = vec![parse_quote!(let #k = #c;), parse_quote!(#c = #c + 1;)];
                // if the next consumer destructures a pair, avoid building it
                out.push(parse_quote!(let #v = (#k, #item);));
                out.extend(self.through(rest, parse_quote!(#v), inner, pre));
                self.note("enumerate() desugared to a counter");
                out
            }
            "cloned" | "copied" => {
                let v = self.fresh("d");
                let mut out: Vec<Stmt> = vec![if n == "cloned" { parse_quote!(let #v = vclone(#item);) } else { parse_quote!(let #v = *#item;) }];
                out.extend(self.through(rest, parse_quote!(#v), inner, pre));
                out
            }
            _ => unreachable!(),
        }
    }

    /// Build the `for` loop over `chain`, with `inner` consuming each final item.
    fn build(&mut self, e: &Expr, pat: Option<&Pat>, inner: &dyn Fn(Expr) -> Vec<Stmt>) -> (Vec<Stmt>, Expr) {
        let (base, ads) = Self::chain(e);
        let mut pre = vec![];
        let body;
        let ipat: Pat;
        if let (true, Some(p)) = (ads.is_empty(), pat) {
            ipat = p.clone();
            body = inner(parse_quote!(__unused));
        } else {
            // first adaptor map with a closure: use its own pattern as the loop pattern
            if ads.first().map(|a| a.0 == "map").unwrap_or(false) && matches!(&ads[0].1[0], Expr::Closure(_)) {
                if let Expr::Closure(c) = &ads[0].1[0] {
                    ipat = strip_ty(&c.inputs[0]);
                    let v = self.fresh("m");
                    let b = &c.body;
                    let mut o: Vec<Stmt> = vec![parse_quote!(let #v = #b;)];
                    let p2 = pat.cloned();
                    let inner2 = |x: Expr| -> Vec<Stmt> { bind(&p2, x, inner) };
                    o.extend(self.through(&ads[1..], parse_quote!(#v), &inner2, &mut pre));
                    body = o;
                } else {
                    unreachable!()
                }
            } else {
                let v = self.fresh("x");
                ipat = parse_quote!(#v);
                let p2 = pat.cloned();
                let inner2 = |x: Expr| -> Vec<Stmt> { bind(&p2, x, inner) };
                body = self.through(&ads, parse_quote!(#v), &inner2, &mut pre);
            }
        }
        let b = Block { brace_token: Default::default(), stmts: body };
        (pre, parse_quote!(for #ipat in #base #b))
    }

    fn terminal(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let n = m.method.to_string();
        if n == "extend" && m.args.len() == 1 && !looks_iter(&m.receiver) && looks_iter(&m.args[0]) && !Self::chain(&m.args[0]).1.is_empty() {
            let (x, r) = (self.fresh("x"), m.receiver.clone());
            let xp: Pat = parse_quote!(#x);
            let (pre, f) = self.build(&m.args[0], Some(&xp), &|_| vec![parse_quote!(#r.push(#x);)]);
            self.note("extend(iterator) read as pushes in order");
            return Some(if pre.is_empty() { f } else { parse_quote!({ #(#pre)* #f }) });
        }
        // repeat(x).take(n), collected or handed to extend
        let rep = |e: &Expr| -> Option<Expr> {
            if let Expr::MethodCall(t) = e {
                if t.method == "take" && t.args.len() == 1 {
                    if let Expr::Call(c) = &*t.receiver {
                        if flat(c.func.to_token_stream()).replace(' ', "").ends_with("iter::repeat") && c.args.len() == 1 {
                            let (v, n) = (&c.args[0], &t.args[0]);
                            return Some(parse_quote!(vec_repeat(#v, #n)));
                        }
                    }
                }
            }
            None
        };
        if n == "collect" { if let Some(v) = rep(&m.receiver) { return Some(v); } }
        if n == "extend" && m.args.len() == 1 && self.opts.contains("extend") {
            let r = m.receiver.clone();
            if let Expr::MethodCall(c) = &m.args[0] {
                if c.method == "drain" && c.args.len() == 1 && matches!(flat(c.args[0].to_token_stream()).replace(' ', "").as_str(), ".." | "0..") {
                    let y = &c.receiver;
                    self.note("extend(v.drain(..)) read as moving all of v");
                    return Some(parse_quote!(vmove_all(&mut #r, &mut #y)));
                }
                if c.method == "into_iter" && c.args.is_empty() {
                    let y = &c.receiver;
                    self.note("extend(v.into_iter()) read as moving all of v");
                    return Some(parse_quote!(vmove(&mut #r, #y)));
                }
            }
            let a = match rep(&m.args[0]) { Some(v) => v, None => match &m.args[0] { Expr::MethodCall(c) if c.method == "iter" && c.args.is_empty() => { let x = &c.receiver; parse_quote!(&#x) } o => o.clone() } };
            self.note("extend(sequence) read as appending it");
            return Some(parse_quote!(#r.vextend(#a)));
        }
        if !looks_iter(&m.receiver) {
            return None;
        }
        match n.as_str() {
            "for_each" => {
                let c = match &m.args[0] { Expr::Closure(c) => c.clone(), _ => return None };
                if has_return(&c.body) { return None; }
                let p = strip_ty(&c.inputs[0]);
                let b = (*c.body).clone();
                let bs: Vec<Stmt> = match b { Expr::Block(x) => x.block.stmts, o => vec![parse_quote!(#o;)] };
                let (pre, f) = self.build(&m.receiver, Some(&p), &|_| bs.clone());
                self.note("iterator chain desugared to a loop");
                Some(if pre.is_empty() { f } else { parse_quote!({ #(#pre)* #f }) })
            }
            "fold" => {
                let init = m.args[0].clone();
                if let Expr::Path(fp) = &m.args[1] {
                    let (acc, x) = (self.fresh("acc"), self.fresh("x"));
                    let xp: Pat = parse_quote!(#x);
                    let (acc2, fp) = (acc.clone(), fp.clone());
                    let (pre, f) = self.build(&m.receiver, Some(&xp), &move |_| vec![parse_quote!(#acc2 = #fp(#acc2, #x);)]);
                    self.note("iterator chain desugared to a loop");
                    return Some(parse_quote!({ let mut #acc = #init; #(#pre)* #f #acc }));
                }
                let c = match &m.args[1] { Expr::Closure(c) => c.clone(), _ => return None };
                if has_return(&c.body) { return None; }
                let acc = self.fresh("acc");
                let accp = strip_ty(&c.inputs[0]);
                let p = strip_ty(&c.inputs[1]);
                let b = (*c.body).clone();
                let acc2 = acc.clone();
                let (pre, f) = self.build(&m.receiver, Some(&p), &move |_| vec![parse_quote!(#acc2 = { let #accp = #acc2; #b };)]);
                self.note("iterator chain desugared to a loop");
                Some(parse_quote!({ let mut #acc = #init; #(#pre)* #f #acc }))
            }
            "sum" => {
                let acc = self.fresh("acc");
                let ty: Option<Type> = m.turbofish.as_ref().and_then(|t| t.args.first().and_then(|a| if let GenericArgument::Type(t) = a { Some(t.clone()) } else { None }));
                let acc2 = acc.clone();
                let x: Pat = { let v = self.fresh("s"); parse_quote!(#v) };
                let xe: Expr = { let p = &x; parse_quote!(#p) };
                let (pre, f) = self.build(&m.receiver, Some(&x), &move |_| vec![parse_quote!(#acc2 = vadd(#acc2, #xe);)]);
                self.note("iterator chain desugared to a loop");
                let decl: Stmt = match ty { Some(t) => parse_quote!(let mut #acc: #t = vzero();), None => parse_quote!(let mut #acc = vzero();) };
                Some(parse_quote!({ #decl #(#pre)* #f #acc }))
            }
            "any" | "all" => {
                let c = m.args[0].clone();
                if !matches!(&c, Expr::Closure(c) if !has_return(&c.body)) { return None; }
                let (acc, x) = (self.fresh("acc"), self.fresh("x"));
                let xp: Pat = parse_quote!(#x);
                let test = Self::apply(&c, parse_quote!(#x));
                let acc2 = acc.clone();
                let any = n == "any";
                let (pre, f) = self.build(&m.receiver, Some(&xp), &move |_| if any { vec![parse_quote!(if #test { #acc2 = true; break; })] } else { vec![parse_quote!(if !#test { #acc2 = false; break; })] });
                self.note("iterator chain desugared to a loop");
                Some(parse_quote!({ let mut #acc: bool = !#any; #(#pre)* #f #acc }))
            }
            // the first least (min_by) or last greatest (max_by) element
            "min_by" | "max_by" if m.args.len() == 1 => {
                let c = match &m.args[0] { Expr::Closure(c) => c.clone(), _ => return None };
                if has_return(&c.body) || c.inputs.len() != 2 { return None; }
                let (acc, x, b) = (self.fresh("acc"), self.fresh("x"), self.fresh("b"));
                let xp: Pat = parse_quote!(#x);
                let binds = |p: &Pat, v: &Ident| -> Vec<Stmt> {
                    let p = strip_ty(p);
                    if let Pat::Tuple(t) = &p {
                        if t.elems.iter().all(|q| matches!(q, Pat::Ident(_) | Pat::Wild(_))) {
                            return t.elems.iter().enumerate().filter(|(_, q)| matches!(q, Pat::Ident(_))).map(|(i, q)| { let i = Index::from(i); parse_quote!(let #q = &#v.#i;) }).collect();
                        }
                    }
                    vec![parse_quote!(let #p = &#v;)]
                };
                let (b1, b2) = (binds(&c.inputs[0], &b), binds(&c.inputs[1], &x));
                let body = (*c.body).clone();
                let acc2 = acc.clone();
                let min = n == "min_by";
                let (pre, f) = self.build(&m.receiver, Some(&xp), &move |_| {
                    let ord: Expr = parse_quote!({ #(#b1)* #(#b2)* #body });
                    let st: Stmt = if min { parse_quote!(#acc2 = match #acc2 { None => Some(#x), Some(#b) => match #ord { Ordering::Greater => Some(#x), _ => Some(#b) } };) }
                        else { parse_quote!(#acc2 = match #acc2 { None => Some(#x), Some(#b) => match #ord { Ordering::Greater => Some(#b), _ => Some(#x) } };) };
                    vec![st]
                });
                self.note("min_by/max_by desugared to a loop");
                Some(parse_quote!({ let mut #acc = None; #(#pre)* #f #acc }))
            }
            // the elements combined from the left, nothing for an empty list
            "reduce" if m.args.len() == 1 => {
                let c = match &m.args[0] { Expr::Closure(c) => c.clone(), _ => return None };
                if has_return(&c.body) || c.inputs.len() != 2 { return None; }
                let (acc, x, b) = (self.fresh("acc"), self.fresh("x"), self.fresh("b"));
                let xp: Pat = parse_quote!(#x);
                let (pa, pb) = (c.inputs[0].clone(), c.inputs[1].clone());
                let body = (*c.body).clone();
                let acc2 = acc.clone();
                let (pre, f) = self.build(&m.receiver, Some(&xp), &move |_| vec![parse_quote!(#acc2 = match #acc2 { None => Some(#x), Some(#b) => { let #pa = #b; let #pb = #x; Some(#body) } };)]);
                self.note("reduce desugared to a loop");
                Some(parse_quote!({ let mut #acc = None; #(#pre)* #f #acc }))
            }
            "next" if m.args.is_empty() && !Self::chain(&m.receiver).1.is_empty() => {
                let (acc, x) = (self.fresh("acc"), self.fresh("x"));
                let xp: Pat = parse_quote!(#x);
                let acc2 = acc.clone();
                let (pre, f) = self.build(&m.receiver, Some(&xp), &move |_| vec![parse_quote!(#acc2 = Some(#x);), parse_quote!(break;)]);
                self.note("iterator chain desugared to a loop");
                Some(parse_quote!({ let mut #acc = None; #(#pre)* #f #acc }))
            }
            "count" if m.args.is_empty() => {
                let (acc, x) = (self.fresh("acc"), self.fresh("x"));
                let xp: Pat = parse_quote!(#x);
                let acc2 = acc.clone();
                let (pre, f) = self.build(&m.receiver, Some(&xp), &move |_| vec![parse_quote!(#acc2 = #acc2 + 1;)]);
                Some(parse_quote!({ let mut #acc: usize = 0; #(#pre)* #f #acc }))
            }
            "collect" => {
                let ts = m.turbofish.as_ref().map(|t| flat(t.to_token_stream())).unwrap_or_default();
                let acc = self.fresh("acc");
                let acc2 = acc.clone();
                let x: Pat = { let v = self.fresh("s"); parse_quote!(#v) };
                let xe: Expr = { let p = &x; parse_quote!(#p) };
                let is_res = ts.contains("Result");
                let dflt = self.opts.iter().find_map(|o| o.strip_prefix("collect_into ").map(|s| s.trim().to_string()));
                let target = if ts.contains("HashMap") { "HashMap".to_string() } else if ts.contains("HashSet") { "HashSet".into() } else if is_res { "Result".into() } else { dflt.unwrap_or("Vec".into()) };
                if target == "keep" { return None; }
                self.note("iterator chain desugared to a loop");
                Some(match target.as_str() {
                    "Result" => {
                        let (pre, f) = self.build(&m.receiver, Some(&x), &move |_| vec![parse_quote!(#acc2.push(#xe?);)]);
                        parse_quote!({ let mut #acc = Vec::new(); #(#pre)* #f Ok(#acc) })
                    }
                    "HashMap" => {
                        let (pre, f) = self.build(&m.receiver, Some(&x), &move |_| vec![parse_quote!(let (__hk, __hv) = #xe;), parse_quote!(#acc2.insert(__hk, __hv);)]);
                        parse_quote!({ let mut #acc = HashMap::new(); #(#pre)* #f #acc })
                    }
                    "HashSet" => {
                        let (pre, f) = self.build(&m.receiver, Some(&x), &move |_| vec![parse_quote!(#acc2.insert(#xe);)]);
                        parse_quote!({ let mut #acc = HashSet::new(); #(#pre)* #f #acc })
                    }
                    _ => {
                        let (pre, f) = self.build(&m.receiver, Some(&x), &move |_| vec![parse_quote!(#acc2.push(#xe);)]);
                        let vt: Option<Type> = m.turbofish.as_ref().and_then(|t| t.args.first().and_then(|a| if let GenericArgument::Type(t) = a { Some(t.clone()) } else { None })).filter(|t| { let s = flat(t.to_token_stream()).replace(' ', ""); s.starts_with("Vec<") && !s.contains('_') });
                        let decl: Stmt = match vt { Some(t) => parse_quote!(let mut #acc: #t = Vec::new();), None => parse_quote!(let mut #acc = Vec::new();) };
                        parse_quote!({ #decl #(#pre)* #f #acc })
                    }
                })
            }
            _ => None,
        }
    }
}

fn bind(p: &Option<Pat>, x: Expr, inner: &dyn Fn(Expr) -> Vec<Stmt>) -> Vec<Stmt> {
    match p {
        Some(p) => {
            let mut o: Vec<Stmt> = vec![parse_quote!(let #p = #x;)];
            o.extend(inner(x));
            o
        }
        None => inner(x),
    }
}

fn strip_ty(p: &Pat) -> Pat {
    match p {
        Pat::Type(t) => (*t.pat).clone(),
        _ => p.clone(),
    }
}

struct Ret(bool);
impl<'a> visit::Visit<'a> for Ret {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true
    }
    fn visit_expr_try(&mut self, _: &'a ExprTry) {
        self.0 = true
    }
}
fn has_return(e: &Expr) -> bool {
    let mut r = Ret(false);
    visit::Visit::visit_expr(&mut r, e);
    r.0
}

/// Is this (syntactically) an iterator?
fn looks_iter(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            match n.as_str() {
                "iter" | "iter_mut" | "into_iter" | "par_iter" | "par_iter_mut" | "into_par_iter" | "keys" | "values" | "values_mut" | "drain" | "chars" | "dense_iter" | "chunks" | "chunks_mut" | "par_chunks" | "par_chunks_mut" | "windows" | "value_iter" | "split_whitespace" | "layers" => true,
                "zip" | "rev" | "skip" | "take" | "enumerate" | "map" | "filter" | "cloned" | "copied" | "chain" | "filter_map" | "step_by" | "flat_map" => looks_iter(&m.receiver),
                _ => false,
            }
        }
        Expr::Paren(p) => looks_iter(&p.expr),
        Expr::Range(r) => r.start.is_some() && r.end.is_some(),
        _ => false,
    }
}

fn float_lit(l: &LitFloat) -> Option<(String, String)> {
    let mut s = l.base10_digits().to_string();
    let mut exp = 0i32;
    if let Some(p) = s.find(|c| c == 'e' || c == 'E') {
        exp = s[p + 1..].parse().ok()?;
        s = s[..p].to_string();
    }
    let (a, b) = match s.split_once('.') {
        Some((a, b)) => (a.to_string(), b.trim_end_matches('0').to_string()),
        None => (s, String::new()),
    };
    let mut num = format!("{}{}", a, b);
    let mut den = "1".to_string();
    let e = exp - b.len() as i32;
    if e >= 0 {
        num.push_str(&"0".repeat(e as usize));
    } else {
        den.push_str(&"0".repeat((-e) as usize));
    }
    let num = num.trim_start_matches('0').to_string();
    Some((if num.is_empty() { "0".into() } else { num }, den))
}

fn is_float_ty(t: &Type) -> bool {
    matches!(t, Type::Path(p) if p.path.is_ident("f32") || p.path.is_ident("f64"))
}

fn is_bool(e: &Expr) -> bool {
    match e {
        Expr::Paren(p) => is_bool(&p.expr),
        Expr::Unary(u) => matches!(u.op, UnOp::Not(_)) && is_bool(&u.expr),
        Expr::Binary(b) => matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) | BinOp::And(_) | BinOp::Or(_)) || (matches!(b.op, BinOp::BitOr(_) | BinOp::BitAnd(_)) && is_bool(&b.left) && is_bool(&b.right)),
        _ => false,
    }
}
fn side_effect_free(e: &Expr) -> bool {
    match e {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Field(f) => side_effect_free(&f.base),
        Expr::Unary(u) => side_effect_free(&u.expr),
        Expr::Paren(u) => side_effect_free(&u.expr),
        Expr::Index(i) => side_effect_free(&i.expr) && side_effect_free(&i.index),
        Expr::Binary(b) => side_effect_free(&b.left) && side_effect_free(&b.right),
        Expr::Reference(b) => side_effect_free(&b.expr),
        Expr::Cast(b) => side_effect_free(&b.expr),
        _ => false,
    }
}

impl VisitMut for Rewriter {
    fn visit_local_mut(&mut self, l: &mut Local) {
        if let Pat::Type(t) = &l.pat {
            if let Some(init) = &mut l.init {
                if let Expr::MethodCall(m) = &mut *init.expr {
                    if m.method == "collect" && m.turbofish.is_none() {
                        let ty = &t.ty;
                        m.turbofish = Some(parse_quote!(::<#ty>));
                    }
                }
            }
        }
        visit_mut::visit_local_mut(self, l);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            match s {
                Stmt::Macro(sm) => {
                    let m = sm.mac.clone();
                    match self.mac(&m) {
                        Some(None) => {}
                        Some(Some(e)) => out.push(Stmt::Expr(e, sm.semi_token)),
                        None => out.push(Stmt::Macro(sm)),
                    }
                }
                mut o => {
                    // statement-level attributes (cfg etc.)
                    let drop = match &o {
                        Stmt::Local(l) => l.attrs.iter().any(|a| a.path().is_ident("cfg")),
                        _ => false,
                    };
                    if let Stmt::Local(l) = &mut o {
                        l.attrs.clear();
                    }
                    let _ = drop;
                    self.visit_stmt_mut(&mut o);
                    // `use` inside a function body is kept out
                    if let Stmt::Item(Item::Use(_)) = o {
                        continue;
                    }
                    out.push(o)
                }
            }
        }
        b.stmts = out;
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // pre-order: chains that end in a terminal
        // unsafe { .. } is read as its block; *p.add(k) as a read at offset k of the buffer p points into
        if let Expr::Await(a) = e {
            let b = &a.base;
            *e = parse_quote!(#b);
            self.note("async functions read as sequential ones: .await is the value awaited");
            return self.visit_expr_mut(e);
        }
        if let Expr::Match(m) = e {
            if let Some(x) = self.str_match(m) {
                *e = x;
                return self.visit_expr_mut(e);
            }
        }
        if let Expr::Unsafe(u) = e {
            let b = &u.block;
            *e = if let [Stmt::Expr(x, None)] = &b.stmts[..] { parse_quote!(#x) } else { parse_quote!(#b) };
            self.note("unsafe block read as a plain block; pointer reads carry their bounds as preconditions");
            return self.visit_expr_mut(e);
        }
        if let Expr::MethodCall(m) = e {
            if matches!(&*m.receiver, Expr::Lit(_)) && m.args.is_empty() && (m.method == "to_string" || m.method == "to_owned") {
                if self.opts.contains("keep_str") { let l = &m.receiver; *e = parse_quote!(vstr(#l)); return; }
                *e = parse_quote!(vformat());
                self.note("message text dropped");
                return;
            }
        }
        if let Expr::Unary(u) = e {
            if let (UnOp::Deref(_), Expr::MethodCall(m)) = (&u.op, &*u.expr) {
                if m.method == "add" && m.args.len() == 1 {
                    let (r, a) = (&m.receiver, &m.args[0]);
                    *e = parse_quote!(#r.vread(#a));
                    return self.visit_expr_mut(e);
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            let mut mm = m.clone();
            normalise_par(&mut mm, self);
            if let Some(x) = self.terminal(&mm) {
                *e = x;
                // fallthrough to visit the result
                return self.visit_expr_mut(e);
            }
            *m = mm;
        }
        // -1. / 0.
        if let Expr::Binary(b) = e {
            let num = |x: &Expr| -> Option<f64> { match x { Expr::Lit(l) => match &l.lit { Lit::Float(f) => f.base10_parse().ok(), _ => None }, Expr::Unary(u) if matches!(u.op, UnOp::Neg(_)) => match &*u.expr { Expr::Lit(l) => match &l.lit { Lit::Float(f) => f.base10_parse::<f64>().ok().map(|x| -x), _ => None }, _ => None }, _ => None } };
            if let (BinOp::Div(_), Some(a), Some(z)) = (&b.op, num(&b.left), num(&b.right)) {
                if z == 0.0 && a != 0.0 {
                    *e = if a < 0.0 { parse_quote!(f32_NEG_INF()) } else { parse_quote!(f32_INF()) };
                    self.note("-1./0. read as the constant minus infinity");
                    return;
                }
            }
        }
        // text == "literal"
        if self.opts.contains("keep_str") {
            if let Expr::Binary(b) = e {
                let lit = |x: &Expr| matches!(x, Expr::Lit(l) if matches!(l.lit, Lit::Str(_)));
                if matches!(b.op, BinOp::Eq(_)) && (lit(&b.right) || lit(&b.left)) {
                    let (x, l) = if lit(&b.right) { (&b.left, &b.right) } else { (&b.right, &b.left) };
                    *e = parse_quote!(str_is(&#x, #l));
                    return;
                }
            }
        }
        // layer.for_each_node(|pi, n| body): a loop over the nodes of the layer
        if let Expr::MethodCall(m) = e {
            if let (true, Some(Expr::Closure(c))) = (m.method == "for_each_node" && m.args.len() == 1, m.args.first().cloned()) {
                if c.inputs.len() == 2 && !has_return(&c.body) {
                    let (p, q) = (strip_ty(&c.inputs[0]), strip_ty(&c.inputs[1]));
                    let (r, b) = (&m.receiver, &c.body);
                    let (o, x) = (self.fresh("o"), self.fresh("es"));
                    *e = parse_quote!({ let #o = #r; let #x = #o.entries_ref(); for (#p, #q) in #x { #b } });
                    self.note("for_each_node read as a loop over the nodes of the layer");
                    return self.visit_expr_mut(e);
                }
            }
        }
        // map.for_each(|k, v| body), map.map_into(|k, v| e): a loop over the entries of the published map
        if let Expr::MethodCall(m) = e {
            if let (true, Some(Expr::Closure(c))) = (m.args.len() == 1 && !looks_iter(&m.receiver), m.args.first().cloned()) {
                if c.inputs.len() == 2 && !has_return(&c.body) && (m.method == "for_each" || m.method == "map_into") {
                    let (p, q) = (strip_ty(&c.inputs[0]), strip_ty(&c.inputs[1]));
                    let (r, b) = (&m.receiver, &c.body);
                    let x = self.fresh("es");
                    *e = if m.method == "for_each" { parse_quote!({ let #x = #r.entries_ref(); for (#p, #q) in #x { #b } }) }
                        else { let acc = self.fresh("acc"); let d: Ident = if self.opts.iter().any(|o| o.trim() == "map_into HashMap") { parse_quote!(HashMap) } else { parse_quote!(Vec) };
                            if d == "Vec" { parse_quote!({ let #x = #r.entries_ref(); let mut #acc = Vec::new(); for (#p, #q) in #x { #acc.push(#b); } #acc }) }
                            else { let (k, v) = (self.fresh("k"), self.fresh("v")); parse_quote!({ let #x = #r.entries_ref(); let mut #acc = HashMap::new(); for (#p, #q) in #x { let (#k, #v) = #b; #acc.insert(#k, #v); } #acc }) } };
                    self.note("for_each / map_into over a published map read as a loop over its entries");
                    return self.visit_expr_mut(e);
                }
            }
        }
        // Option combinators and `*_and(.., |x| body)` accessors, inlined
        if let Expr::MethodCall(m) = e {
            let n = m.method.to_string();
            if let Some(Expr::Closure(c)) = m.args.last().cloned() {
                let has = has_return(&c.body);
                if !has && n.ends_with("_and") && c.inputs.len() == 1 {
                    let p = strip_ty(&c.inputs[0]);
                    let b = &c.body;
                    let r = &m.receiver;
                    let mut args: Vec<Expr> = m.args.iter().cloned().collect();
                    args.pop();
                    let id = Ident::new(&format!("{}_ref", n.trim_end_matches("_and")), Span::call_site());
                    *e = parse_quote!((match #r.#id(#(#args),*) { Some(#p) => Some(#b), None => None }));
                    self.note("x.get_.._and(a, |n| e) read as `match x.get(a) { Some(n) => Some(e), None => None }`");
                    return self.visit_expr_mut(e);
                }
                if n == "binary_search_by_key" && m.args.len() == 2 && c.inputs.len() == 1 {
                    let mut p = strip_ty(&c.inputs[0]);
                    if let Pat::Reference(r) = &p { p = (*r.pat).clone(); }
                    let body = flat(c.body.to_token_stream());
                    let ok = match &p {
                        Pat::Tuple(t) => t.elems.first().map_or(false, |f| { let f = flat(f.to_token_stream()); f == body || body == format!("*{}", f) || body == format!("* {}", f) }),
                        Pat::Ident(i) => { let b = body.replace(' ', "").replace("*", "").replace("&", ""); b == format!("{}.0", i.ident) }
                        _ => false,
                    };
                    if ok {
                        let (r, k) = (&m.receiver, &m.args[0]);
                        *e = parse_quote!(#r.binary_search_first(#k));
                        self.note("binary_search_by_key on the first tuple component read as the contract binary_search_first");
                        return self.visit_expr_mut(e);
                    }
                }
                let is_map = m.args.len() == 1 && !looks_iter(&m.receiver) && !has && !self.opts.contains("no_option_inline");
                if is_map && n == "map" && c.inputs.len() == 1 {
                    let p = strip_ty(&c.inputs[0]);
                    let (b, r) = (&c.body, &m.receiver);
                    *e = if self.opts.contains("result_map") { parse_quote!((match #r { Ok(#p) => Ok(#b), Err(__e) => Err(__e) })) } else { parse_quote!((match #r { Some(#p) => Some(#b), None => None })) };
                    self.note("Option combinators inlined as match");
                    return self.visit_expr_mut(e);
                }
                if n == "map_err" && c.inputs.len() == 1 && self.opts.contains("result_map") {
                    let p = strip_ty(&c.inputs[0]);
                    let (b, r) = (&c.body, &m.receiver);
                    *e = parse_quote!((match #r { Ok(__v) => Ok(__v), Err(#p) => Err(#b) }));
                    self.note("Option combinators inlined as match");
                    return self.visit_expr_mut(e);
                }
                if is_map && n == "and_then" && c.inputs.len() == 1 {
                    let p = strip_ty(&c.inputs[0]);
                    let (b, r) = (&c.body, &m.receiver);
                    *e = parse_quote!((match #r { Some(#p) => #b, None => None }));
                    self.note("Option combinators inlined as match");
                    return self.visit_expr_mut(e);
                }
                if is_map && n == "unwrap_or_else" && c.inputs.is_empty() {
                    let (b, r) = (&c.body, &m.receiver);
                    *e = parse_quote!((match #r { Some(__v) => __v, None => #b }));
                    self.note("Option combinators inlined as match");
                    return self.visit_expr_mut(e);
                }
            }
            if let Expr::MethodCall(m) = &*e {
                if m.method == "get" && m.args.len() == 1 {
                    if let Expr::Range(ExprRange { start: Some(a), end: Some(b), limits: RangeLimits::HalfOpen(_), .. }) = &m.args[0] {
                        let r = &m.receiver;
                        *e = parse_quote!(#r.get_range(#a, #b));
                        self.note("get(a..b) read as the contract get_range(a, b)");
                        return self.visit_expr_mut(e);
                    }
                }
            }
            // X.entry(k).and_modify(|e| b).or_insert_with(|| v)
            if let Expr::MethodCall(m) = &*e {
                if m.method == "or_insert" || m.method == "or_insert_with" {
                    if let Expr::MethodCall(am) = &*m.receiver {
                        if am.method == "and_modify" {
                            if let (Expr::MethodCall(en), Some(Expr::Closure(c))) = (&*am.receiver, am.args.first()) {
                                if en.method == "entry" && c.inputs.len() == 1 {
                                    let (x, k) = (&en.receiver, &en.args[0]);
                                    let v: Expr = if m.method == "or_insert" { m.args[0].clone() } else if let Some(Expr::Closure(c)) = m.args.first() { (*c.body).clone() } else { parse_quote!(vdefault()) };
                                    let (p, b) = (strip_ty(&c.inputs[0]), &c.body);
                                    self.note("entry(k).and_modify(f).or_insert_with(g) read as get_mut, else insert");
                                    *e = parse_quote!({ let __ek = #k; match #x.get_mut(&__ek) { Some(#p) => { #b; } None => { #x.insert(__ek, #v); } } });
                                    return self.visit_expr_mut(e);
                                }
                            }
                        }
                    }
                }
            }
            // X.entry(k).or_insert(v)
            if let (Expr::MethodCall(m), true) = (&*e, true) {
                if m.method == "or_insert" || m.method == "or_insert_with" || m.method == "or_default" {
                    if let Expr::MethodCall(en) = &*m.receiver {
                        if en.method == "entry" {
                            let x = &en.receiver;
                            let k = &en.args[0];
                            let v: Expr = if m.method == "or_insert" { m.args[0].clone() } else if let Some(Expr::Closure(c)) = m.args.first() { (*c.body).clone() } else { parse_quote!(vdefault()) };
                            self.note("entry(k).or_insert(v) read as one operation");
                            *e = parse_quote!(#x.entry_or_insert(#k, #v));
                            return self.visit_expr_mut(e);
                        }
                    }
                }
            }
        }
        if let Expr::ForLoop(f) = e {
            if let Expr::MethodCall(m) = &mut *f.expr {
                normalise_par(m, self);
            }
            let (_, ads) = Self::chain(&f.expr);
            if !ads.is_empty() {
                let st = f.body.stmts.clone();
                let p = (*f.pat).clone();
                let it = (*f.expr).clone();
                let (pre, nf) = self.build(&it, Some(&p), &|_| st.clone());
                self.note("iterator adaptors in a for loop desugared");
                *e = if pre.is_empty() { nf } else { parse_quote!({ #(#pre)* #nf }) };
                return self.visit_expr_mut(e);
            }
        }
        if let Expr::ForLoop(f) = e {
            if has_continue(&f.body.stmts) {
                f.body.stmts = no_continue(&f.body.stmts);
                self.note("`if c { continue } rest` read as `if c {} else { rest }`");
            }
        }
        // rayon::spawn(move || body): the task is read as run at once
        if let Expr::Call(c) = e {
            if flat(c.func.to_token_stream()).replace(' ', "") == "tokio::spawn" && c.args.len() == 1 {
                if let Expr::Async(a) = &c.args[0] {
                    self.note("tokio::spawn(task) read as running the task at once");
                    let b = &a.block;
                    let mut ne: Expr = syn::parse_quote!(#b);
                    self.visit_expr_mut(&mut ne);
                    *e = ne;
                    return;
                }
            }
            if flat(c.func.to_token_stream()).replace(' ', "") == "rayon::spawn" && c.args.len() == 1 {
                if let Expr::Closure(cl) = &c.args[0] {
                    if cl.inputs.is_empty() {
                        self.note("rayon::spawn(task) read as running the task at once");
                        *e = (*cl.body).clone();
                        return self.visit_expr_mut(e);
                    }
                }
            }
        }
        // `for x in v.drain(0..)`: the whole vector is taken out
        if let Expr::ForLoop(f) = e {
            if let Expr::MethodCall(m) = &*f.expr {
                if m.method == "drain" && m.args.len() == 1 {
                    if let Expr::Range(r) = &m.args[0] {
                        let zero = match &r.start { None => true, Some(s) => quote::quote!(#s).to_string() == "0" };
                        if zero && r.end.is_none() {
                            let v = m.receiver.clone();
                            self.note("v.drain(..) read as taking the whole vector");
                            *f.expr = parse_quote!(vtake(&mut #v));
                        }
                    }
                }
            }
        }
        // opt zip_index: `for (a, b) in x.iter_mut().zip(y)` over two vectors read as a loop over the common indexes
        if let (Expr::ForLoop(f), true) = (&*e, self.opts.contains("zip_index")) {
            if let (Expr::MethodCall(z), Pat::Tuple(t)) = (&*f.expr, &*f.pat) {
                if let (true, 1, Expr::MethodCall(m), 2) = (z.method == "zip", z.args.len(), &*z.receiver, t.elems.len()) {
                    if m.method == "iter_mut" && !has_continue(&f.body.stmts) {
                        let mut y = z.args[0].clone();
                        loop {
                            y = match y { Expr::Reference(r) => *r.expr, Expr::MethodCall(c) if c.method == "iter" && c.args.is_empty() => *c.receiver, Expr::Paren(p) => *p.expr, o => { y = o; break; } };
                        }
                        let (k, x) = (self.fresh("k"), m.receiver.clone());
                        let (p, q) = (&t.elems[0], &t.elems[1]);
                        let st = &f.body.stmts;
                        self.note("x.iter_mut().zip(y) read as a loop over the common indexes");
                        *e = parse_quote!({ let mut #k: usize = 0; while #k < #x.len() && #k < #y.len() { let #p = &mut #x[#k]; let #q = &#y[#k]; #(#st)* #k = #k + 1; } });
                        return self.visit_expr_mut(e);
                    }
                }
            }
        }
        // x.iter().skip(a).zip(y.iter().skip(b)): a loop over the offset
        if let Expr::ForLoop(f) = e {
            if let (Expr::MethodCall(z), Pat::Tuple(t)) = (&*f.expr, &*f.pat) {
                if z.method == "zip" && z.args.len() == 1 && t.elems.len() == 2 {
                    fn side(x: &Expr) -> Option<(Expr, Option<Expr>)> {
                        if let Expr::MethodCall(m) = x {
                            if m.method == "iter" && m.args.is_empty() && side_effect_free(&m.receiver) { return Some(((*m.receiver).clone(), None)); }
                            if m.method == "skip" && m.args.len() == 1 && side_effect_free(&m.args[0]) { if let Some((r, None)) = side(&m.receiver) { return Some((r, Some(m.args[0].clone()))); } }
                        }
                        None
                    }
                    if let (Some((x, a)), Some((y, b))) = (side(&z.receiver), side(&z.args[0])) {
                        if a.is_some() || b.is_some() {
                            let k = self.fresh("k");
                            let ix = |o: &Option<Expr>| -> Expr { match o { Some(o) => parse_quote!(#k + #o), None => parse_quote!(#k) } };
                            let (ia, ib, p, q, st, lab) = (ix(&a), ix(&b), &t.elems[0], &t.elems[1], &f.body.stmts, &f.label);
                            self.note("x.iter().skip(a).zip(y.iter().skip(b)) read as a loop over the offset");
                            *e = parse_quote!({ let mut #k: usize = 0; #lab while #ia < #x.len() && #ib < #y.len() { let #p = &#x[#ia]; let #q = &#y[#ib]; #k = #k + 1; #(#st)* } });
                            return self.visit_expr_mut(e);
                        }
                    }
                }
            }
        }
        // v.iter().enumerate().skip(s): a loop over the index from s
        if let Expr::ForLoop(f) = e {
            if let (Expr::MethodCall(sk), Pat::Tuple(t)) = (&*f.expr, &*f.pat) {
                if let (true, 1, Expr::MethodCall(en), 2) = (sk.method == "skip", sk.args.len(), &*sk.receiver, t.elems.len()) {
                    if let (true, Expr::MethodCall(it)) = (en.method == "enumerate", &*en.receiver) {
                        if it.method == "iter" && it.args.is_empty() && side_effect_free(&it.receiver) {
                            let k = self.fresh("k");
                            let (r, a, p, q, st, lab) = (&it.receiver, &sk.args[0], &t.elems[0], &t.elems[1], &f.body.stmts, &f.label);
                            self.note("iter().enumerate().skip(s) read as a loop over the index");
                            *e = parse_quote!({ let mut #k: usize = #a; #lab while #k < #r.len() { let #p = #k; let #q = &#r[#k]; #k = #k + 1; #(#st)* } });
                            return self.visit_expr_mut(e);
                        }
                    }
                }
            }
        }
        // chunks of two sequences in step: a loop over the chunk number
        if let Expr::ForLoop(f) = e {
            if let (Expr::MethodCall(z), Pat::Tuple(t)) = (&*f.expr, &*f.pat) {
                if let (true, 1, Expr::MethodCall(a), 2) = (z.method == "zip", z.args.len(), &*z.receiver, t.elems.len()) {
                    if let Expr::MethodCall(b) = &z.args[0] {
                        let okc = |m: &ExprMethodCall| (m.method == "chunks" || m.method == "chunks_mut") && m.args.len() == 1 && side_effect_free(&m.args[0]) && side_effect_free(&m.receiver);
                        if okc(a) && okc(b) {
                            let (k, n) = (self.fresh("k"), self.fresh("n"));
                            let at = |m: &ExprMethodCall| -> Expr { let (r, c) = (&m.receiver, &m.args[0]); if m.method == "chunks" { parse_quote!(chunk_at(&#r, #c, #k)) } else { parse_quote!(chunk_mut(&mut #r, #c, #k)) } };
                            let (xa, xb) = (at(a), at(b));
                            let (ra, ca, rb, cb) = (&a.receiver, &a.args[0], &b.receiver, &b.args[0]);
                            let (pa, pb) = (&t.elems[0], &t.elems[1]);
                            let st = &f.body.stmts;
                            self.note("chunks of two sequences in step read as a loop over the chunk number");
                            *e = parse_quote!({ let #n = chunk_count(#ra.len(), #ca, #rb.len(), #cb); for #k in 0..#n { let #pa = #xa; let #pb = #xb; #(#st)* } });
                            return self.visit_expr_mut(e);
                        }
                    }
                }
            }
        }
        // `for l in x.iter_mut().rev()`: a loop over the index, downwards
        if let Expr::ForLoop(f) = e {
            if let Expr::MethodCall(m0) = &*f.expr {
                if let (true, Expr::MethodCall(m)) = (m0.method == "rev" && m0.args.is_empty(), &*m0.receiver) {
                    if m.method == "iter_mut" && m.args.is_empty() && !has_continue(&f.body.stmts) {
                        let k = self.fresh("k");
                        let (r, p, st) = (&m.receiver, &f.pat, &f.body.stmts);
                        self.note("iter_mut().rev() read as a loop over the index, downwards");
                        *e = parse_quote!({ let mut #k: usize = #r.len(); while #k > 0 { #k = #k - 1; let #p = &mut #r[#k]; #(#st)* } });
                        return self.visit_expr_mut(e);
                    }
                }
            }
        }
        // an iter_mut loop left by `break`: read as a loop over the index
        if let Expr::ForLoop(f) = e {
            if let Expr::MethodCall(m) = &*f.expr {
                if m.method == "iter_mut" && m.args.is_empty() && (has_break(&f.body.stmts) || self.opts.iter().any(|o| o.trim() == "index_mut")) && !has_continue(&f.body.stmts) {
                    let (k, x) = (self.fresh("k"), self.fresh("m"));
                    let r = &m.receiver;
                    let mut lets: Vec<Stmt> = vec![parse_quote!(let #x = &mut #r[#k];)];
                    match &*f.pat {
                        Pat::Tuple(t) => for (i, p) in t.elems.iter().enumerate() {
                            if matches!(p, Pat::Wild(_)) { continue; }
                            let ix = syn::Index::from(i);
                            lets.push(parse_quote!(let #p = &mut #x.#ix;));
                        },
                        p => lets.push(parse_quote!(let #p = #x;)),
                    }
                    lets.extend(f.body.stmts.clone());
                    if let Some(Stmt::Expr(_, semi @ None)) = lets.last_mut() { *semi = Some(Default::default()); }
                    lets.push(parse_quote!(#k = #k + 1;));
                    self.note("iter_mut loop read as a loop over the index");
                    *e = parse_quote!({ let mut #k: usize = 0; while #k < #r.len() { #(#lets)* } });
                    return self.visit_expr_mut(e);
                }
            }
        }
        // `for (a, b) in x.iter_mut()`: the references into the pair are taken in the body
        if let Expr::ForLoop(f) = e {
            if let (Pat::Tuple(t), Expr::MethodCall(m)) = (&*f.pat, &*f.expr) {
                if m.method == "iter_mut" {
                    let x = self.fresh("m");
                    let mut lets: Vec<Stmt> = vec![];
                    for (i, p) in t.elems.iter().enumerate() {
                        if matches!(p, Pat::Wild(_)) { continue; }
                        let ix = syn::Index::from(i);
                        lets.push(parse_quote!(let #p = &mut #x.#ix;));
                    }
                    lets.extend(f.body.stmts.clone());
                    f.body.stmts = lets;
                    f.pat = Box::new(parse_quote!(#x));
                    self.note("tuple pattern over iter_mut read as &mut of the components");
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Lit(ExprLit { lit: Lit::Float(l), .. }) => {
                if let Some((n, d)) = float_lit(l) {
                    let n = TokenStream::from_str(&n).unwrap();
                    let d = TokenStream::from_str(&d).unwrap();
                    *e = parse_quote!(rlit(#n, #d));
                    self.note("float literals become exact rationals");
                }
            }
            Expr::Lit(ExprLit { lit: Lit::Int(l), .. }) if l.suffix() == "f32" || l.suffix() == "f64" => {
                let n = TokenStream::from_str(l.base10_digits()).unwrap();
                *e = parse_quote!(rlit(#n, 1));
            }
            Expr::Binary(b) if matches!(b.op, BinOp::BitOr(_) | BinOp::BitAnd(_)) && is_bool(&b.left) && is_bool(&b.right) && side_effect_free(&b.right) => {
                let (l, r) = (&b.left, &b.right);
                self.note("| and & of side-effect-free conditions read as || and &&");
                *e = if matches!(b.op, BinOp::BitOr(_)) { parse_quote!((#l || #r)) } else { parse_quote!((#l && #r)) };
            }
            Expr::Binary(b) => {
                let op: Option<TokenStream> = match b.op {
                    BinOp::AddAssign(_) => Some(quote!(+)),
                    BinOp::SubAssign(_) => Some(quote!(-)),
                    BinOp::MulAssign(_) => Some(quote!(*)),
                    BinOp::DivAssign(_) => Some(quote!(/)),
                    _ => None,
                };
                if let Some(op) = op {
                    let (l, r) = (&b.left, &b.right);
                    self.note("compound assignment expanded");
                    if side_effect_free(l) {
                        *e = parse_quote!(#l = #l #op (#r));
                    } else if let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) = &**l {
                        let p = self.fresh("p");
                        *e = parse_quote!({ let #p = #expr; *#p = *#p #op (#r); });
                    }
                }
            }
            Expr::Reference(r) => {
                if let Expr::Index(i) = &*r.expr {
                    if let Expr::Range(rg) = &*i.index {
                        if rg.start.is_none() && rg.end.is_none() {
                            let b = &i.expr;
                            *e = if r.mutability.is_some() { parse_quote!(#b.as_mut_slice()) } else { parse_quote!(#b.as_slice()) };
                            self.note("&v[..] read as v.as_slice()");
                        }
                    }
                }
            }
            Expr::Cast(c) if is_float_ty(&c.ty) => {
                let x = &c.expr;
                *e = parse_quote!(to_real(#x));
                self.note("numeric casts to float are exact");
            }
            Expr::Cast(c) if self.opts.contains("float_to_int_cast") => {
                let x = &c.expr;
                let t = &c.ty;
                if self.opts.contains("cast_trunc_usize") && flat(t.to_token_stream()) == "usize" {
                    *e = parse_quote!(real_to_usize(#x));
                } else if flat(t.to_token_stream()) == "i32" {
                    *e = parse_quote!(real_to_i32(#x));
                }
            }
            Expr::Path(p) => {
                let s = flat(p.to_token_stream()).replace(' ', "");
                let t = s.trim_start_matches("std::").trim_start_matches("core::");
                for fty in ["f32", "f64"] {
                    if let Some(c) = t.strip_prefix(&format!("{}::", fty)) {
                        let c = c.strip_prefix("consts::").unwrap_or(c);
                        if ["MAX", "MIN", "EPSILON", "INFINITY", "NEG_INFINITY", "PI", "NAN", "E", "MIN_POSITIVE"].contains(&c) {
                            let id = Ident::new(&format!("{}_{}", fty, c), Span::call_site());
                            *e = parse_quote!(#id());
                            break;
                        }
                    }
                }
            }
            Expr::Macro(m) => {
                let mc = m.mac.clone();
                match self.mac(&mc) {
                    Some(Some(x)) => *e = x,
                    Some(None) => *e = parse_quote!(()),
                    None => {}
                }
            }
            Expr::While(w) => {
                if let Expr::Let(l) = &*w.cond {
                    let (p, x, b) = (&l.pat, &l.expr, &w.body);
                    let lab = &w.label;
                    *e = parse_quote!(#lab loop { match #x { #p => #b, _ => { break; } } });
                    self.note("while-let expanded to loop/match");
                }
            }
            _ => {}
        }
    }
}

fn normalise_par(m: &mut ExprMethodCall, r: &mut Rewriter) {
    let n = m.method.to_string();
    let to = match n.as_str() {
        "par_iter" => Some("iter"),
        "par_iter_mut" => Some("iter_mut"),
        "into_par_iter" => Some("into_iter"),
        "par_chunks" => Some("chunks"),
        "par_chunks_mut" => Some("chunks_mut"),
        _ => None,
    };
    if let Some(t) = to {
        m.method = Ident::new(t, Span::call_site());
        r.note("rayon parallel iteration read as sequential");
    }
    if let Expr::MethodCall(x) = &mut *m.receiver {
        normalise_par(x, r);
    }
    for a in m.args.iter_mut() {
        if let Expr::MethodCall(x) = a {
            normalise_par(x, r);
        }
    }
}

pub struct LoopTagger<'a> {
    pub n: usize,
    pub nc: usize,
    pub inv: &'a BTreeMap<usize, String>,
    pub ls: &'a BTreeMap<usize, String>,
    pub le: &'a BTreeMap<usize, String>,
    pub lbefore: &'a BTreeMap<usize, String>,
    pub lafter: &'a BTreeMap<usize, String>,
    pub clos: &'a BTreeMap<usize, String>,
    pub anchors: &'a [(bool, String, String, usize)],
    pub seen: BTreeMap<usize, usize>,
    pub hits: BTreeSet<usize>,
}

fn ts(s: &str) -> TokenStream {
    TokenStream::from_str(s).unwrap_or_else(|e| {
        eprintln!("VX-LOST cannot lex {:?}: {}", s, e);
        std::process::exit(3)
    })
}

impl<'a> LoopTagger<'a> {
    pub fn block(&mut self, b: Block, start: &str, end: &str, ret: &str) -> TokenStream {
        let mut b = b;
        let start = ts(start);
        let endt = ts(end);
        let mut tail: Option<Expr> = None;
        if !end.trim().is_empty() {
            if let Some(Stmt::Expr(_, None)) = b.stmts.last() {
                if let Some(Stmt::Expr(e, None)) = b.stmts.pop() {
                    tail = Some(e);
                }
            }
        }
        self.visit_block_mut(&mut b);
        let st = &b.stmts;
        if let Some(mut t) = tail {
            self.visit_expr_mut(&mut t);
            let r = Ident::new(ret, Span::call_site());
            // loops and unit-typed tails are statements
            if is_stmt_like(&t) {
                quote!({ #start #(#st)* #t #endt })
            } else {
                quote!({ #start #(#st)* let #r = #t; #endt #r })
            }
        } else {
            quote!({ #start #(#st)* #endt })
        }
    }
    fn wrap(&mut self, b: &Block, n: usize) -> TokenStream {
        let s = ts(self.ls.get(&n).map(|x| x.as_str()).unwrap_or(""));
        let e = ts(self.le.get(&n).map(|x| x.as_str()).unwrap_or(""));
        let st = &b.stmts;
        if e.is_empty() {
            quote!({ #s #(#st)* })
        } else if let Some(Stmt::Expr(_, None)) = st.last() {
            quote!({ #s #(#st)* ; #e })
        } else {
            quote!({ #s #(#st)* #e })
        }
    }
    fn around(&self, n: usize, t: TokenStream) -> Expr {
        let b = self.lbefore.get(&n);
        let a = self.lafter.get(&n);
        if b.is_none() && a.is_none() {
            return Expr::Verbatim(t);
        }
        let b = ts(b.map(|x| x.as_str()).unwrap_or(""));
        let a = ts(a.map(|x| x.as_str()).unwrap_or(""));
        Expr::Verbatim(quote!(#b #t #a))
    }
}

fn is_stmt_like(e: &Expr) -> bool {
    match e {
        Expr::Verbatim(_) => true,
        Expr::Assign(_) => true,
        _ => false,
    }
}

impl<'a> VisitMut for LoopTagger<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let key = flat(s.to_token_stream());
            let mut bef = vec![];
            let mut aft = vec![];
            for (k, (before, pat, text, occ)) in self.anchors.iter().enumerate() {
                if key.starts_with(pat.as_str()) && !self.hits.contains(&k) {
                    let c = self.seen.entry(k).or_insert(0);
                    *c += 1;
                    if *c != *occ { continue; }
                    self.hits.insert(k);
                    if *before { bef.push(text.clone()) } else { aft.push(text.clone()) }
                }
            }
            self.visit_stmt_mut(&mut s);
            for t in bef {
                out.push(Stmt::Expr(Expr::Verbatim(ts(&t)), None));
            }
            if !aft.is_empty() {
                if let Stmt::Expr(_, semi @ None) = &mut s {
                    *semi = Some(Default::default());
                }
            }
            out.push(s);
            for t in aft {
                out.push(Stmt::Expr(Expr::Verbatim(ts(&t)), None));
            }
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::ForLoop(f) => {
                let n = self.n;
                self.n += 1;
                self.visit_expr_mut(&mut f.expr);
                self.visit_block_mut(&mut f.body);
                let body = self.wrap(&f.body, n);
                let inv = ts(self.inv.get(&n).map(|x| x.as_str()).unwrap_or(""));
                let it = Ident::new(&format!("it{}", n), Span::call_site());
                let (p, x, lab) = (&f.pat, &f.expr, &f.label);
                let t = if inv.is_empty() { quote!(#lab for #p in #x #body) } else { quote!(#lab for #p in #it: #x #inv #body) };
                *e = self.around(n, t);
            }
            Expr::While(f) => {
                let n = self.n;
                self.n += 1;
                self.visit_expr_mut(&mut f.cond);
                self.visit_block_mut(&mut f.body);
                let body = self.wrap(&f.body, n);
                let inv = ts(self.inv.get(&n).map(|x| x.as_str()).unwrap_or(""));
                let (x, lab) = (&f.cond, &f.label);
                *e = self.around(n, quote!(#lab while #x #inv #body));
            }
            Expr::Loop(f) => {
                let n = self.n;
                self.n += 1;
                self.visit_block_mut(&mut f.body);
                let body = self.wrap(&f.body, n);
                let inv = ts(self.inv.get(&n).map(|x| x.as_str()).unwrap_or(""));
                let lab = &f.label;
                *e = self.around(n, quote!(#lab loop #inv #body));
            }
            Expr::Closure(c) => {
                let n = self.nc;
                self.nc += 1;
                visit_mut::visit_expr_closure_mut(self, c);
                if let Some(sp) = self.clos.get(&n) {
                    // text: `|x: T| -> (r: R) ensures ...` ; the body is the code's own
                    let sp = ts(sp);
                    let b = &c.body;
                    *e = Expr::Verbatim(quote!(#sp { #b }));
                }
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

// ---------------------------------------------------------------- preparation: what happens before the rewrites above
/// Expression macros (`macro_rules!` of one rule in the same file), lazy iterators bound to a name and used once,
/// and adaptors inside `zip`.
pub struct Prep {
    pub macros: BTreeMap<String, (Vec<String>, TokenStream)>,
    pub notes: BTreeSet<String>,
    mutexes: BTreeSet<String>,
    n: usize,
    pub chunk_list: bool,
}
impl Prep {
    pub fn new(items: &[Item]) -> Self {
        let mut macros = BTreeMap::new();
        for it in items {
            if let Item::Macro(m) = it {
                if let Some(id) = &m.ident {
                    let gs: Vec<proc_macro2::Group> = m.mac.tokens.clone().into_iter().filter_map(|t| if let proc_macro2::TokenTree::Group(g) = t { Some(g) } else { None }).collect();
                    if gs.len() != 2 { continue; }
                    let pat = gs[0].stream().to_string();
                    let mut ps = vec![];
                    let mut ok = true;
                    for p in pat.split(',') {
                        let p = p.trim().replace(' ', "");
                        if p.is_empty() { continue; }
                        match p.strip_prefix('$').and_then(|p| p.split_once(':')) { Some((n, "expr")) => ps.push(n.to_string()), _ => ok = false }
                    }
                    if ok { macros.insert(id.to_string(), (ps, gs[1].stream())); }
                }
            }
        }
        Prep { macros, notes: BTreeSet::new(), mutexes: BTreeSet::new(), n: 0, chunk_list: false }
    }
    fn expand(&self, m: &Macro) -> Option<Expr> {
        if std::env::var("VX_DEBUG").is_ok() { eprintln!("expand {} known {:?}", m.path.to_token_stream(), self.macros.keys()); }
        let name = m.path.segments.last()?.ident.to_string();
        let (ps, body) = self.macros.get(&name)?;
        let args: Vec<Expr> = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?.into_iter().collect();
        if args.len() != ps.len() { return None; }
        fn go(ts: TokenStream, ps: &[String], args: &[Expr]) -> TokenStream {
            let mut out = TokenStream::new();
            let v: Vec<proc_macro2::TokenTree> = ts.into_iter().collect();
            let mut i = 0;
            while i < v.len() {
                match &v[i] {
                    proc_macro2::TokenTree::Punct(p) if p.as_char() == '$' && i + 1 < v.len() => {
                        let n = v[i + 1].to_string();
                        if let Some(k) = ps.iter().position(|x| *x == n) {
                            let a = &args[k];
                            let a: Expr = match a { Expr::Path(_) | Expr::Field(_) | Expr::Lit(_) => a.clone(), _ => parse_quote!((#a)) };
                            out.extend(a.to_token_stream());
                            i += 2;
                            continue;
                        }
                    }
                    proc_macro2::TokenTree::Group(g) => {
                        out.extend(std::iter::once(proc_macro2::TokenTree::Group(proc_macro2::Group::new(g.delimiter(), go(g.stream(), ps, args)))));
                        i += 1;
                        continue;
                    }
                    _ => {}
                }
                out.extend(std::iter::once(v[i].clone()));
                i += 1;
            }
            out
        }
        let e: Expr = parse2(go(body.clone(), ps, &args)).ok()?;
        if let Expr::Block(b) = &e {
            if let [Stmt::Expr(x, None)] = &b.block.stmts[..] { return Some(x.clone()); }
        }
        Some(e)
    }
    /// a local guard (tuple struct declared in the block, with a Drop impl): its drop body runs at the end of the block
    fn guards(&mut self, b: &mut Block) {
        let mut drops: BTreeMap<String, Block> = BTreeMap::new();
        for s in &b.stmts {
            if let Stmt::Item(Item::Impl(im)) = s {
                if let (Some((_, tr, _)), Type::Path(tp)) = (&im.trait_, &*im.self_ty) {
                    if tr.is_ident("Drop") { for it in &im.items { if let ImplItem::Fn(f) = it { if f.sig.ident == "drop" { drops.insert(tp.path.segments.last().unwrap().ident.to_string(), f.block.clone()); } } } }
                }
            }
        }
        if drops.is_empty() { return; }
        b.stmts.retain(|s| match s {
            Stmt::Item(Item::Impl(im)) => match &*im.self_ty { Type::Path(tp) => !drops.contains_key(&tp.path.segments.last().unwrap().ident.to_string()), _ => true },
            Stmt::Item(Item::Struct(st)) => !drops.contains_key(&st.ident.to_string()),
            _ => true,
        });
        let mut late: Vec<Stmt> = vec![];
        let mut k = 0;
        while k < b.stmts.len() {
            let mut hit = None;
            if let Stmt::Local(l) = &b.stmts[k] {
                if let (Pat::Ident(_), Some(init)) = (&l.pat, &l.init) {
                    if let Expr::Call(c) = &*init.expr { if let Expr::Path(p) = &*c.func { if let Some(i) = p.path.get_ident() { if let Some(d) = drops.get(&i.to_string()) {
                        struct F<'z>(&'z [Expr]);
                        impl<'z> VisitMut for F<'z> {
                            fn visit_expr_mut(&mut self, e: &mut Expr) {
                                if let Expr::Field(f) = e { if let (Expr::Path(p), Member::Unnamed(ix)) = (&*f.base, &f.member) { if p.path.is_ident("self") {
                                    let a = &self.0[ix.index as usize];
                                    *e = match a { Expr::Reference(r) => (*r.expr).clone(), x => x.clone() };
                                    return;
                                } } }
                                visit_mut::visit_expr_mut(self, e)
                            }
                        }
                        let args: Vec<Expr> = c.args.iter().cloned().collect();
                        let mut d = d.clone();
                        F(&args).visit_block_mut(&mut d);
                        hit = Some(d);
                    } } } }
                }
            }
            if let Some(d) = hit {
                b.stmts.remove(k);
                // guards are dropped in reverse order
                late.insert(0, parse_quote!(#d));
            } else { k += 1; }
        }
        self.notes.insert("a local drop guard's body runs at the end of its block (not on panic)".into());
        if let Some(Stmt::Expr(e, None)) = b.stmts.last().cloned() {
            b.stmts.pop();
            let r = self.fresh("g");
            b.stmts.push(parse_quote!(let #r = #e;));
            b.stmts.extend(late);
            b.stmts.push(Stmt::Expr(parse_quote!(#r), None));
        } else { b.stmts.extend(late); }
    }
    fn fresh(&mut self, p: &str) -> Ident {
        self.n += 1;
        Ident::new(&format!("__{}{}", p, self.n), Span::call_site())
    }
}
struct Uses<'b>(&'b Ident, usize);
impl<'a, 'b> visit::Visit<'a> for Uses<'b> {
    fn visit_ident(&mut self, i: &'a Ident) { if i == self.0 { self.1 += 1 } }
    fn visit_macro(&mut self, m: &'a Macro) { if m.tokens.to_string().contains(&self.0.to_string()) { self.1 += 2 } }
}
struct Inl<'b>(&'b Ident, &'b Expr);
impl<'b> VisitMut for Inl<'b> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e { if p.path.is_ident(self.0) { *e = self.1.clone(); return; } }
        visit_mut::visit_expr_mut(self, e)
    }
}
impl VisitMut for Prep {
    fn visit_local_mut(&mut self, l: &mut Local) {
        let mx = match &l.init { Some(i) => match &*i.expr { Expr::Call(c) => flat(c.func.to_token_stream()).replace(' ', "").ends_with("Mutex::new"), _ => false }, None => false };
        if mx {
            // a local mutex around a value shared by the (sequentialised) parallel loop: the value itself
            self.notes.insert("a local Mutex read as the value it guards".into());
            if let Some(i) = &mut l.init { if let Expr::Call(c) = &*i.expr { let a = c.args[0].clone(); i.expr = Box::new(a); } }
            let mut id = None;
            match &mut l.pat {
                Pat::Type(t) => {
                    if let Type::Path(tp) = &*t.ty { if let Some(sg) = tp.path.segments.last() { if let PathArguments::AngleBracketed(ab) = &sg.arguments { if let Some(GenericArgument::Type(x)) = ab.args.first() { let x = x.clone(); t.ty = Box::new(x); } } } }
                    if let Pat::Ident(p) = &mut *t.pat { p.mutability = Some(Default::default()); id = Some(p.ident.to_string()); }
                }
                Pat::Ident(p) => { p.mutability = Some(Default::default()); id = Some(p.ident.to_string()); }
                _ => {}
            }
            if let Some(i) = id { self.mutexes.insert(i); }
        }
        visit_mut::visit_local_mut(self, l);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        self.guards(b);
        visit_mut::visit_block_mut(self, b);
        // lazy iterators bound to a name
        let mut i = 0;
        while i < b.stmts.len() {
            let cand = match &b.stmts[i] {
                Stmt::Local(l) => match (&strip_ty(&l.pat), &l.init) {
                    (Pat::Ident(p), Some(init)) if init.diverge.is_none() && looks_iter(&init.expr) && !matches!(&*init.expr, Expr::Range(_)) => Some((p.ident.clone(), p.mutability.is_some(), (*init.expr).clone())),
                    _ => None,
                },
                _ => None,
            };
            if let Some((id, mt, mut ex)) = cand {
                let mut skip = 0;
                while let Some(s) = b.stmts.get(i + 1 + skip) {
                    if flat(s.to_token_stream()).replace(' ', "") == format!("{}.next();", id) { skip += 1 } else { break }
                }
                let mut u = Uses(&id, 0);
                for s in &b.stmts[i + 1 + skip..] { visit::Visit::visit_stmt(&mut u, s) }
                // asking a list of chunks for its length does not use it up
                if self.chunk_list && flat(ex.to_token_stream()).replace(' ', "").starts_with("chunk_list(") {
                    let q = format!("{}.len()", id);
                    for s in &b.stmts[i + 1 + skip..] { u.1 -= flat(s.to_token_stream()).replace(' ', "").matches(&q).count(); }
                }
                if u.1 == 1 && (!mt || skip > 0) {
                    if skip > 0 { let k = skip; ex = parse_quote!(#ex.skip(#k)); self.notes.insert("`it.next();` on a fresh iterator read as skip".into()); }
                    self.notes.insert("a lazy iterator bound to a name is used in place".into());
                    b.stmts.drain(i..i + 1 + skip);
                    for s in b.stmts[i..].iter_mut() { Inl(&id, &ex).visit_stmt_mut(s) }
                    let st = std::mem::take(&mut b.stmts);
                    b.stmts = st;
                    for s in b.stmts[i..].iter_mut() { self.visit_stmt_mut(s) }
                    continue;
                }
            }
            i += 1;
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if let Some(x) = self.expand(&m.mac) {
                self.notes.insert("expression macros of the file expanded".into());
                *e = x;
            }
        }
        // *m.lock().unwrap(), m.into_inner().unwrap() of an erased mutex
        if !self.mutexes.is_empty() {
            let inner = |x: &Expr, meth: &str, s: &BTreeSet<String>| -> Option<Expr> {
                if let Expr::MethodCall(u) = x { if u.method == "unwrap" { if let Expr::MethodCall(l) = &*u.receiver { if l.method == meth { if let Expr::Path(p) = &*l.receiver { if let Some(i) = p.path.get_ident() { if s.contains(&i.to_string()) { return Some((*l.receiver).clone()); } } } } } } }
                None
            };
            let r = match &*e {
                Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => inner(expr, "lock", &self.mutexes),
                x => inner(x, "into_inner", &self.mutexes),
            };
            if let Some(x) = r { *e = x; }
        }
        visit_mut::visit_expr_mut(self, e);
        if self.chunk_list {
            if let Expr::MethodCall(m) = &*e {
                if (m.method == "chunks" || m.method == "par_chunks") && m.args.len() == 1 {
                    let (r, c) = (&m.receiver, &m.args[0]);
                    self.notes.insert("chunks(n) / par_chunks(n) read as the list of consecutive pieces, in order".into());
                    *e = parse_quote!(chunk_list(&#r, #c).into_iter());
                } else if m.method == "len" {
                    if let Expr::MethodCall(r) = &*m.receiver { if r.method == "into_iter" { let x = &r.receiver; *e = parse_quote!(#x.len()); } }
                }
            }
        }
        // repeatn(x, n): n copies; repeat_with(f).take(n): n results of f; xs.choose_multiple(rng, n): n different entries in some order
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                if c.args.len() == 2 && p.path.segments.last().map_or(false, |s| s.ident == "repeatn") {
                    let (x, n) = (&c.args[0], &c.args[1]);
                    self.notes.insert("rayon repeatn(x, n) read as n clones of x, taken in order".into());
                    *e = parse_quote!((0..#n).map(|_| #x.clone()));
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            if m.method == "take" && m.args.len() == 1 {
                if let Expr::Call(c) = &*m.receiver {
                    if let Expr::Path(p) = &*c.func {
                        if c.args.len() == 1 && p.path.segments.last().map_or(false, |s| s.ident == "repeat_with") {
                            let (f, n) = (&c.args[0], &m.args[0]);
                            if let Expr::Path(_) = f { *e = parse_quote!((0..#n).map(|_| #f())); }
                        }
                    }
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            if m.method == "choose_multiple" && m.args.len() == 2 {
                let mut r = (*m.receiver).clone();
                loop {
                    r = match r {
                        Expr::Paren(p) => *p.expr,
                        Expr::Reference(x) => *x.expr,
                        Expr::Index(i) if matches!(&*i.index, Expr::Range(g) if g.start.is_none() && g.end.is_none()) => *i.expr,
                        x => { r = x; break; }
                    };
                }
                let n = &m.args[1];
                self.notes.insert("choose_multiple(rng, n) read as some n different positions of the list (all of them when there are fewer), in some order".into());
                *e = parse_quote!(choose_many(&#r, #n).into_iter());
            }
        }
        // d.sample_iter(rng).take(n): the list of the next n draws
        if let Expr::MethodCall(m) = e {
            if m.method == "take" && m.args.len() == 1 {
                if let Expr::MethodCall(x) = &*m.receiver {
                    if x.method == "sample_iter" && x.args.len() == 1 {
                        let (d, g, k) = (&x.receiver, &x.args[0], &m.args[0]);
                        self.notes.insert("sample_iter(rng).take(n) read as the list of the next n draws".into());
                        *e = parse_quote!(#d.draw_n(#g, #k).into_iter());
                    }
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            if m.method == "zip" && m.args.len() == 1 && looks_iter(&m.receiver) {
                let ch = |x: &Expr| -> (Expr, Vec<(String, Vec<Expr>)>) {
                    let (mut y, mut ks) = (x.clone(), vec![]);
                    loop { match &y { Expr::MethodCall(m) if m.method == "skip" && m.args.len() == 1 => { ks.push(("skip".to_string(), vec![m.args[0].clone()])); y = (*m.receiver).clone(); } _ => break } }
                    let (r, mut f) = Rewriter::chain(&y);
                    f.extend(ks);
                    (r, f)
                };
                let (ra, fa) = ch(&m.receiver);
                let (rb, fb) = ch(&m.args[0]);
                let okk = |f: &Vec<(String, Vec<Expr>)>| f.iter().all(|a| a.0 == "map" || a.0 == "cloned" || a.0 == "copied" || (a.0 == "skip" && side_effect_free(&a.1[0])));
                // skip commutes with map and moves to the source
                let pull = |r: Expr, f: Vec<(String, Vec<Expr>)>| -> (Expr, Vec<(String, Vec<Expr>)>) {
                    let mut r = r;
                    let mut g = vec![];
                    for a in f { if a.0 == "skip" { let k = &a.1[0]; r = parse_quote!(#r.skip(#k)); } else { g.push(a) } }
                    (r, g)
                };
                let maps = |f: &Vec<(String, Vec<Expr>)>| f.iter().any(|a| a.0 != "skip");
                if (maps(&fa) || maps(&fb)) && okk(&fa) && okk(&fb) {
                    let ((ra, fa), (rb, fb)) = (pull(ra, fa), pull(rb, fb));
                    let (x, y) = (self.fresh("za"), self.fresh("zb"));
                    let app = |f: &Vec<(String, Vec<Expr>)>, v: &Ident| -> Expr {
                        let mut ex: Expr = parse_quote!(#v);
                        for a in f {
                            ex = match a.0.as_str() { "map" => Rewriter::apply(&a.1[0], ex), "cloned" => parse_quote!(vclone(#ex)), _ => parse_quote!(*#ex) };
                        }
                        ex
                    };
                    let (ea, eb) = (app(&fa, &x), app(&fb, &y));
                    self.notes.insert("a.map(f).zip(b.map(g)) read as a.zip(b).map(f x g)".into());
                    *e = parse_quote!(#ra.zip(#rb).map(|(#x, #y)| (#ea, #eb)));
                }
            }
        }
    }
}

struct Cont(bool);
impl<'a> visit::Visit<'a> for Cont {
    fn visit_expr_continue(&mut self, c: &'a ExprContinue) { if c.label.is_none() { self.0 = true } }
    fn visit_expr_for_loop(&mut self, _: &'a ExprForLoop) {}
    fn visit_expr_while(&mut self, _: &'a ExprWhile) {}
    fn visit_expr_loop(&mut self, _: &'a ExprLoop) {}
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
fn has_continue(b: &[Stmt]) -> bool { let mut c = Cont(false); for s in b { visit::Visit::visit_stmt(&mut c, s); } c.0 }
fn ends_continue(b: &[Stmt]) -> bool { matches!(b.last(), Some(Stmt::Expr(Expr::Continue(c), _)) if c.label.is_none()) }
fn expr_continue(e: &Expr) -> bool { match e { Expr::Continue(c) => c.label.is_none(), Expr::Block(b) => ends_continue(&b.block.stmts) , _ => false } }
fn drop_last(b: &[Stmt]) -> Vec<Stmt> { b[..b.len() - 1].to_vec() }
/// forward `continue`s removed by nesting the rest of the body (left alone where the shape is not recognised)
fn no_continue(b: &[Stmt]) -> Vec<Stmt> {
    for (i, s) in b.iter().enumerate() {
        let one = std::slice::from_ref(s);
        if !has_continue(one) { continue; }
        let rest = no_continue(&b[i + 1..]);
        let mut out: Vec<Stmt> = b[..i].to_vec();
        match s {
            Stmt::Expr(Expr::Continue(_), _) => { return out; }
            Stmt::Expr(Expr::If(x), _) => {
                let c = &x.cond;
                let t = &x.then_branch.stmts;
                if ends_continue(t) && !has_continue(&drop_last(t)) {
                    let t2 = drop_last(t);
                    match &x.else_branch {
                        None => { out.push(parse_quote!(if #c { #(#t2)* } else { #(#rest)* })); return out; }
                        Some((_, el)) => {
                            let els: Vec<Stmt> = match &**el { Expr::Block(bl) => bl.block.stmts.clone(), o => vec![Stmt::Expr(o.clone(), None)] };
                            let mut all = els; if let Some(Stmt::Expr(_, semi @ None)) = all.last_mut() { *semi = Some(Default::default()); }
                            all.extend(b[i + 1..].to_vec());
                            let all = no_continue(&all);
                            out.push(parse_quote!(if #c { #(#t2)* } else { #(#all)* })); return out;
                        }
                    }
                }
                if let Some((_, el)) = &x.else_branch {
                    if expr_continue(el) {
                        if let Expr::Block(bl) = &**el {
                            let e2 = drop_last(&bl.block.stmts);
                            let mut all = t.clone(); if let Some(Stmt::Expr(_, semi @ None)) = all.last_mut() { *semi = Some(Default::default()); }
                            all.extend(b[i + 1..].to_vec());
                            let all = no_continue(&all);
                            out.push(parse_quote!(if #c { #(#all)* } else { #(#e2)* })); return out;
                        }
                    }
                }
                return b.to_vec();
            }
            Stmt::Local(l) => {
                if let Some(init) = &l.init {
                    if let (Expr::Match(m), None) = (&*init.expr, &init.diverge) {
                        let p = &l.pat;
                        if m.arms.iter().filter(|a| !expr_continue(&a.body)).count() == 1 && m.arms.iter().all(|a| a.guard.is_none()) {
                            let mut mm = m.clone();
                            for a in mm.arms.iter_mut() {
                                let bd = a.body.clone();
                                a.body = if expr_continue(&bd) { match &*bd { Expr::Block(bl) => { let d = drop_last(&bl.block.stmts); Box::new(parse_quote!({ #(#d)* })) } _ => Box::new(parse_quote!({})) } } else { Box::new(parse_quote!({ let #p = #bd; #(#rest)* })) };
                                a.comma = Some(Default::default());
                            }
                            out.push(Stmt::Expr(Expr::Match(mm), Some(Default::default()))); return out;
                        }
                    }
                    if let Some((_, el)) = &init.diverge {
                        if expr_continue(el) {
                            let (p, e) = (&l.pat, &init.expr);
                            let d = match &**el { Expr::Block(bl) => drop_last(&bl.block.stmts), _ => vec![] };
                            out.push(parse_quote!(if let #p = #e { #(#rest)* } else { #(#d)* })); return out;
                        }
                    }
                }
                return b.to_vec();
            }
            _ => return b.to_vec(),
        }
    }
    b.to_vec()
}

struct Brk(bool);
impl<'a> visit::Visit<'a> for Brk {
    fn visit_expr_break(&mut self, c: &'a ExprBreak) { if c.label.is_none() { self.0 = true } }
    fn visit_expr_for_loop(&mut self, _: &'a ExprForLoop) {}
    fn visit_expr_while(&mut self, _: &'a ExprWhile) {}
    fn visit_expr_loop(&mut self, _: &'a ExprLoop) {}
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
fn has_break(b: &[Stmt]) -> bool { let mut c = Brk(false); for s in b { visit::Visit::visit_stmt(&mut c, s); } c.0 }
