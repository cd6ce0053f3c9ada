//! vx: mechanical extraction of functions of /repo into a Verus file.
//!
//! usage: vx REPO UNIT.vrs OUT.rs REPORT.json
//! UNIT.vrs is Verus text with directive blocks (see /verif/DESIGN.md, "Extraction").
mod desugar;
mod print;
use proc_macro2::{TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;
use syn::*;

#[derive(Default, Clone)]
struct Block {
    file: String,
    path: String,
    kind: String, // fn | struct
    secs: Vec<(String, String)>, // (header, text)
}

pub struct FnReport {
    pub name: String,
    pub file: String,
    pub line: usize,
    pub out_line: usize,
    pub out_end: usize,
    pub notes: BTreeSet<String>,
    pub loops: usize,
}

thread_local!(static IN_FN: std::cell::Cell<bool> = std::cell::Cell::new(false));
fn die(msg: String) -> ! {
    if IN_FN.with(|c| c.get()) {
        std::panic::panic_any(msg)
    }
    eprintln!("VX-LOST {}", msg);
    std::process::exit(3)
}

fn norm(s: &str) -> String {
    match TokenStream::from_str(s) {
        Ok(t) => print::flat(t),
        Err(e) => die(format!("cannot lex template text {:?}: {}", s, e)),
    }
}

fn toks(s: &str) -> TokenStream {
    match TokenStream::from_str(s) {
        Ok(t) => t,
        Err(e) => die(format!("cannot lex template text {:?}: {}", s, e)),
    }
}

fn self_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        Type::Reference(r) => self_name(&r.elem),
        Type::Slice(_) => "Slice".into(),
        Type::Array(_) => "Array".into(),
        _ => "?".into(),
    }
}

struct Found {
    sig: Signature,
    block: syn::Block,
    line: usize,
}

/// Path grammar: `name`, `Type::name`, `Type as Trait::name`, and `mod@...` prefix is ignored.
fn find_fn(items: &[Item], path: &str) -> Vec<Found> {
    let mut out = vec![];
    let (ty, tr, name) = if let Some((l, n)) = path.rsplit_once("::") {
        if let Some((t, tr)) = l.split_once(" as ") {
            (Some(t.trim().to_string()), Some(tr.trim().to_string()), n.trim().to_string())
        } else {
            (Some(l.trim().to_string()), None, n.trim().to_string())
        }
    } else {
        (None, None, path.trim().to_string())
    };
    fn is_test(attrs: &[Attribute]) -> bool {
        attrs.iter().any(|a| {
            let s = a.to_token_stream().to_string();
            s.contains("test") || s.contains("target_os = \"windows\"") || s.contains("cfg (windows)")
        })
    }
    for it in items {
        match it {
            Item::Fn(f) if ty.is_none() && f.sig.ident == name && !is_test(&f.attrs) => out.push(Found {
                sig: f.sig.clone(),
                block: (*f.block).clone(),
                line: f.sig.ident.span().start().line,
            }),
            Item::Impl(im) if ty.as_deref() == Some(&self_name(&im.self_ty)) && !is_test(&im.attrs) => {
                let trn = im.trait_.as_ref().map(|(_, p, _)| {
                    p.segments.last().unwrap().ident.to_string()
                });
                let full = im.trait_.as_ref().map(|(_, p, _)| print::flat(p.to_token_stream()).replace(' ', ""));
                if let Some(t) = &tr {
                    let t2 = t.replace(' ', "");
                    if trn.as_deref() != Some(t) && full.as_deref() != Some(&t2) {
                        continue;
                    }
                }
                for ii in &im.items {
                    if let ImplItem::Fn(f) = ii {
                        if f.sig.ident == name {
                            out.push(Found {
                                sig: f.sig.clone(),
                                block: f.block.clone(),
                                line: f.sig.ident.span().start().line,
                            })
                        }
                    }
                }
            }
            Item::Trait(t) if ty.as_deref() == Some(&t.ident.to_string()) => {
                for ti in &t.items {
                    if let TraitItem::Fn(f) = ti {
                        if f.sig.ident == name {
                            if let Some(b) = &f.default {
                                out.push(Found {
                                    sig: f.sig.clone(),
                                    block: b.clone(),
                                    line: f.sig.ident.span().start().line,
                                })
                            }
                        }
                    }
                }
            }
            Item::Mod(m) if !is_test(&m.attrs) => {
                if let Some((_, its)) = &m.content {
                    out.extend(find_fn(its, path));
                }
            }
            _ => {}
        }
    }
    out
}

/// Items generated by a `macro_rules!` of one rule: `macro NAME with $a => X, ...` expands the body.
fn expand_macro(items: &[Item], name: &str, binds: &[(String, String)]) -> Vec<Item> {
    for it in items {
        if let Item::Macro(m) = it {
            if m.ident.as_ref().map(|i| i.to_string()).as_deref() == Some(name) {
                let tv: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
                // matcher => body
                let groups: Vec<&proc_macro2::Group> = tv
                    .iter()
                    .filter_map(|t| if let TokenTree::Group(g) = t { Some(g) } else { None })
                    .collect();
                if groups.len() < 2 {
                    die(format!("macro {} has an unexpected shape", name));
                }
                let mut body = groups[1].stream().to_string();
                for (k, v) in binds {
                    body = body.replace(&format!("$ {}", k), v).replace(&format!("${}", k), v);
                }
                match syn::parse_str::<File>(&body) {
                    Ok(f) => return f.items,
                    Err(e) => die(format!("macro {} body does not parse: {}", name, e)),
                }
            }
        }
    }
    die(format!("macro {} not found", name))
}

fn find_struct<'a>(items: &'a [Item], name: &str) -> Option<Item> {
    for it in items {
        match it {
            Item::Struct(s) if s.ident == name => return Some(it.clone()),
            Item::Enum(s) if s.ident == name => return Some(it.clone()),
            Item::Type(s) if s.ident == name => return Some(it.clone()),
            Item::Const(s) if s.ident == name => return Some(it.clone()),
            Item::Mod(m) => {
                if let Some((_, its)) = &m.content {
                    if let Some(x) = find_struct(its, name) {
                        return Some(x);
                    }
                }
            }
            _ => {}
        }
    }
    None
}

fn strip_struct(it: &mut Item) {
    match it {
        Item::Struct(s) => {
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            for f in s.fields.iter_mut() {
                f.attrs.clear();
                f.vis = parse_quote!(pub);
            }
        }
        Item::Enum(s) => {
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            for v in s.variants.iter_mut() {
                v.attrs.clear();
                for f in v.fields.iter_mut() {
                    f.attrs.clear();
                }
            }
        }
        Item::Type(s) => {
            s.attrs.clear();
            s.vis = parse_quote!(pub);
        }
        Item::Const(s) => {
            s.attrs.clear();
            s.vis = parse_quote!(pub);
        }
        _ => {}
    }
}

fn sub_text(text: String, from: &str, to: &str) -> (String, bool) {
    let f = norm(from);
    let t = norm(to);
    if text.contains(&f) {
        // only at token boundaries
        let mut out = String::new();
        let mut rest = text.as_str();
        let mut hit = false;
        while let Some(p) = rest.find(&f) {
            let before_ok = p == 0 || {
                let c = rest[..p].chars().last().unwrap();
                let d = f.chars().next().unwrap();
                !(c.is_alphanumeric() || c == '_') || !(d.is_alphanumeric() || d == '_')
            };
            let after_ok = {
                let c = rest[p + f.len()..].chars().next();
                let d = f.chars().last().unwrap();
                c.map(|c| !(c.is_alphanumeric() || c == '_')).unwrap_or(true) || !(d.is_alphanumeric() || d == '_')
            };
            if before_ok && after_ok {
                out.push_str(&rest[..p]);
                out.push_str(&t);
                hit = true;
            } else {
                out.push_str(&rest[..p + f.len()]);
            }
            rest = &rest[p + f.len()..];
        }
        out.push_str(rest);
        (out, hit)
    } else {
        (text, false)
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 5 {
        eprintln!("usage: vx REPO UNIT OUT REPORT");
        std::process::exit(2)
    }
    let vac = a.iter().any(|x| x == "--vacuity");
    // functions whose body is left out (their contract is kept, the body is not verified)
    let skip: BTreeSet<String> = a.iter().zip(a.iter().skip(1)).filter(|(f, _)| *f == "--skip").map(|(_, v)| v.clone()).collect();
    std::panic::set_hook(Box::new(|_| {}));
    let repo = &a[1];
    let unit = &a[2];
    let dir = std::path::Path::new(unit).parent().unwrap().to_path_buf();
    let mut lines: Vec<String> = vec![];
    fn load(p: &std::path::Path, dir: &std::path::Path, lines: &mut Vec<String>, seen: &mut BTreeSet<String>) {
        let s = std::fs::read_to_string(p).unwrap_or_else(|e| die(format!("{}: {}", p.display(), e)));
        for l in s.lines() {
            if let Some(inc) = l.trim().strip_prefix("//@ include ") {
                if seen.insert(inc.trim().to_string()) {
                    load(&dir.join(inc.trim()), dir, lines, seen);
                }
            } else {
                lines.push(l.to_string());
            }
        }
    }
    load(std::path::Path::new(unit), &dir, &mut lines, &mut BTreeSet::new());

    let mut files: BTreeMap<String, (String, File)> = BTreeMap::new();
    let mut get_items = |f: &str| -> Vec<Item> {
        if !files.contains_key(f) {
            let p = format!("{}/{}", repo, f);
            let s = std::fs::read_to_string(&p).unwrap_or_else(|_| die(format!("file {} is gone", f)));
            let ast = syn::parse_file(&s).unwrap_or_else(|e| die(format!("{} does not parse: {}", f, e)));
            files.insert(f.to_string(), (s, ast));
        }
        files[f].1.items.clone()
    };

    let mut out = String::new();
    let mut out_lines = 0usize;
    let mut reports: Vec<FnReport> = vec![];
    let mut gsubst: Vec<(String, String)> = vec![];
    let mut gopts: BTreeSet<String> = BTreeSet::new();
    let mut macros: BTreeMap<String, (String, String, Vec<(String, String)>)> = BTreeMap::new();
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i].clone();
        let t = l.trim();
        if let Some(d) = t.strip_prefix("//@ ") {
            let d = d.trim();
            if let Some(r) = d.strip_prefix("gsubst ") {
                let (x, y) = r.split_once("=>").unwrap_or_else(|| die("gsubst".into()));
                gsubst.push((x.trim().into(), y.trim().into()));
                i += 1;
                continue;
            }
            if let Some(r) = d.strip_prefix("gopt ") {
                gopts.insert(r.trim().to_string());
                i += 1;
                continue;
            }
            if let Some(r) = d.strip_prefix("macro ") {
                // macro ALIAS FILE NAME a=X b=Y
                let w: Vec<&str> = r.split_whitespace().collect();
                let b = w[3..].iter().map(|kv| { let (k, v) = kv.split_once('=').unwrap(); (k.to_string(), v.to_string()) }).collect();
                macros.insert(w[0].into(), (w[1].into(), w[2].into(), b));
                i += 1;
                continue;
            }
            if d.starts_with("fn ") || d.starts_with("struct ") {
                let mut b = Block::default();
                let (kind, rest) = d.split_once(' ').unwrap();
                b.kind = kind.into();
                let (f, p) = rest.trim().split_once(' ').unwrap_or_else(|| die(format!("bad directive {}", d)));
                b.file = f.into();
                b.path = p.trim().into();
                i += 1;
                let mut cur: Option<(String, String)> = None;
                loop {
                    if i >= lines.len() {
                        die(format!("unterminated block {}", d));
                    }
                    let tl = lines[i].trim().to_string();
                    if let Some(h) = tl.strip_prefix("//@ ") {
                        if let Some(c) = cur.take() {
                            b.secs.push(c);
                        }
                        if h.trim() == "end" {
                            break;
                        }
                        cur = Some((h.trim().to_string(), String::new()));
                    } else if let Some(c) = &mut cur {
                        c.1.push_str(&lines[i]);
                        c.1.push('\n');
                    }
                    i += 1;
                }
                i += 1;
                let items = if let Some((mf, mn, binds)) = macros.get(&b.file) {
                    let it = get_items(mf);
                    expand_macro(&it, mn, binds)
                } else {
                    get_items(&b.file)
                };
                let srcfile = macros.get(&b.file).map(|m| m.0.clone()).unwrap_or(b.file.clone());
                let text = if b.kind == "struct" {
                    let mut it = find_struct(&items, &b.path)
                        .unwrap_or_else(|| die(format!("struct {} not found in {}", b.path, srcfile)));
                    strip_struct(&mut it);
                    let mut v = desugar::Rewriter::new(&gopts);
                    syn::visit_mut::visit_item_mut(&mut v, &mut it);
                    let mut s = print::flat(it.to_token_stream());
                    for (x, y) in &gsubst {
                        s = sub_text(s, x, y).0;
                    }
                    for (h, _) in &b.secs {
                        if let Some(r) = h.strip_prefix("subst ") {
                            let (x, y) = r.split_once("=>").unwrap();
                            s = sub_text(s, x.trim(), y.trim()).0;
                        } else if let Some(r) = h.strip_prefix("attr ") {
                            s = format!("{} {}", r, s);
                        }
                    }
                    print::pretty(toks(&s))
                } else {
                    let mut found = find_fn(&items, &b.path);
                    if found.is_empty() {
                        die(format!("fn {} not found in {}", b.path, srcfile));
                    }
                    if found.len() > 1 {
                        die(format!("fn {} ambiguous in {}", b.path, srcfile));
                    }
                    let f = found.remove(0);
                    let line = f.line;
                    drop(f);
                    let mut label = b.path.clone();
                    for (h, _) in &b.secs {
                        if let Some(n) = h.strip_prefix("name ") {
                            label = format!("{} [{}]", label, n.trim());
                        }
                    }
                    let attempt = |b: &Block| {
                        IN_FN.with(|c| c.set(true));
                        let f = find_fn(&items, &b.path).remove(0);
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| process_fn(f, b, &gsubst, &gopts, vac, &items)));
                        IN_FN.with(|c| c.set(false));
                        r.map_err(|e| e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_else(|| "extraction failed".into()))
                    };
                    let mut why = if skip.contains(&label) { Some("not accepted by the verifier's front end".to_string()) } else { None };
                    let mut got = None;
                    if why.is_none() {
                        match attempt(&b) {
                            Ok(r) => got = Some(r),
                            Err(e) => why = Some(e),
                        }
                    }
                    let (txt, notes, loops) = match got {
                        Some(r) => r,
                        None => {
                            let mut b2 = Block::default();
                            b2.kind = b.kind.clone();
                            b2.file = b.file.clone();
                            b2.path = b.path.clone();
                            b2.secs = b.secs.iter().filter(|(h, _)| ["spec", "ret", "sig"].contains(&h.as_str()) || h.starts_with("name") || h.starts_with("subst") || h == "opt nopub").cloned().collect();
                            b2.secs.push(("drop_body".into(), String::new()));
                            match attempt(&b2) {
                                Ok(mut r) => {
                                    r.1.insert(format!("LOST: {}", why.unwrap()));
                                    r
                                }
                                Err(e) => die(format!("{}: {}; {}", b.path, why.unwrap(), e)),
                            }
                        }
                    };
                    reports.push(FnReport {
                        name: label,
                        file: srcfile.clone(),
                        line,
                        out_line: out_lines + 1,
                        out_end: 0,
                        notes,
                        loops,
                    });
                    txt
                };
                let head = format!("// @@ {} {} {}\n", b.kind, srcfile, b.path);
                out.push_str(&head);
                out.push_str(&text);
                out.push('\n');
                out_lines += head.matches('\n').count() + text.matches('\n').count() + 1;
                if b.kind == "fn" {
                    reports.last_mut().unwrap().out_end = out_lines;
                }
                continue;
            }
            die(format!("unknown directive {}", d));
        }
        out.push_str(&l);
        out.push('\n');
        out_lines += 1;
        i += 1;
    }
    std::fs::write(&a[3], &out).unwrap();
    let rep: Vec<serde_json::Value> = reports
        .iter()
        .map(|r| {
            serde_json::json!({"fn": r.name, "file": r.file, "line": r.line, "out_line": r.out_line, "out_end": r.out_end,
            "rewrites": r.notes.iter().cloned().collect::<Vec<_>>(), "loops": r.loops})
        })
        .collect();
    std::fs::write(&a[4], serde_json::to_string_pretty(&serde_json::json!({"functions": rep})).unwrap()).unwrap();
}

fn process_fn(f: Found, b: &Block, gsubst: &[(String, String)], gopts: &BTreeSet<String>, vac: bool, items: &[Item]) -> (String, BTreeSet<String>, usize) {
    let mut notes = BTreeSet::new();
    let mut rw = desugar::Rewriter::new(gopts);
    for (h, _) in &b.secs {
        if let Some(o) = h.strip_prefix("opt ") {
            rw.opts.insert(o.trim().to_string());
        }
    }
    let mut block = f.block;
    if b.secs.iter().any(|s| s.0 == "drop_body") {
        block.stmts.clear();
    }
    let mut sig = f.sig;
    sig.unsafety = None;
    sig.asyncness = None;
    if let Some(FnArg::Receiver(r)) = sig.inputs.first_mut() {
        if r.reference.is_none() && r.mutability.is_some() {
            r.mutability = None;
            struct S;
            impl syn::visit_mut::VisitMut for S {
                fn visit_ident_mut(&mut self, i: &mut Ident) {
                    if i == "self" { *i = Ident::new("self_", i.span()); }
                }
            }
            syn::visit_mut::VisitMut::visit_block_mut(&mut S, &mut block);
            block.stmts.insert(0, parse_quote!(let mut self_ = self;));
            notes.insert("`mut self` read as a local copy".to_string());
        }
    }
    // generics: drop `where` clauses naming bounds Verus cannot take are left to subst.
    let mut prep = desugar::Prep::new(items);
    prep.chunk_list = rw.opts.contains("chunk_list");
    syn::visit_mut::VisitMut::visit_block_mut(&mut prep, &mut block);
    notes.append(&mut prep.notes);
    rw.visit_block(&mut block);
    let mut dead = BTreeSet::new();
    syn::visit_mut::visit_signature_mut(&mut rw, &mut sig);
    notes.append(&mut rw.notes);
    dead.append(&mut BTreeSet::<String>::new());

    // collect sections
    let mut spec = String::new();
    let mut ret = "res".to_string();
    let mut start = String::new();
    let mut endh = String::new();
    let mut attrs = String::new();
    let mut inv: BTreeMap<usize, String> = BTreeMap::new();
    let mut ls: BTreeMap<usize, String> = BTreeMap::new();
    let mut le: BTreeMap<usize, String> = BTreeMap::new();
    let mut lbefore: BTreeMap<usize, String> = BTreeMap::new();
    let mut lafter: BTreeMap<usize, String> = BTreeMap::new();
    let mut clos: BTreeMap<usize, String> = BTreeMap::new();
    let mut subst: Vec<(String, String)> = gsubst.to_vec();
    let mut anchors: Vec<(bool, String, String, usize)> = vec![];
    let mut name: Option<String> = None;
    let mut expect_loops: Option<usize> = None;
    let mut sigover: Option<String> = None;
    let mut nobody = false;
    for (h, t) in &b.secs {
        let w: Vec<&str> = h.split_whitespace().collect();
        match w[0] {
            "ret" => ret = w[1].to_string(),
            "spec" => spec.push_str(t),
            "start" => start.push_str(t),
            "finish" => endh.push_str(t),
            "attr" => attrs.push_str(&format!("{}\n", &h[5..])),
            "name" => name = Some(w[1].to_string()),
            "sig" => sigover = Some(t.clone()),
            "loops" => expect_loops = Some(w[1].parse().unwrap()),
            "loop" => { inv.insert(w[1].parse().unwrap(), t.clone()); }
            "loopstart" => { ls.insert(w[1].parse().unwrap(), t.clone()); }
            "loopend" => { le.insert(w[1].parse().unwrap(), t.clone()); }
            "loopbefore" => { lbefore.insert(w[1].parse().unwrap(), t.clone()); }
            "loopafter" => { lafter.insert(w[1].parse().unwrap(), t.clone()); }
            "closure" => { clos.insert(w[1].parse().unwrap(), t.clone()); }
            "subst" => {
                let (x, y) = h[6..].split_once("=>").unwrap_or_else(|| die(format!("subst {}", h)));
                subst.push((x.trim().into(), y.trim().into()));
            }
            x if x == "before" || x == "after" || x.starts_with("before#") || x.starts_with("after#") => {
                let k: usize = x.split_once('#').map(|p| p.1.parse().unwrap()).unwrap_or(1);
                anchors.push((x.starts_with("before"), norm(h[x.len()..].trim()), t.clone(), k));
            }
            "opt" => {}
            "drop_body" => nobody = true,
            x => die(format!("unknown section {} in {}", x, b.path)),
        }
    }
    if vac {
        start.push_str(" proof { assert(false); } ");
    }
    let mut lt = desugar::LoopTagger { n: 0, inv: &inv, ls: &ls, le: &le, lbefore: &lbefore, lafter: &lafter, clos: &clos, nc: 0, anchors: &anchors, hits: BTreeSet::new(), seen: Default::default() };
    let body_ts = lt.block(block, &start, &endh, &ret);
    let nloops = lt.n;
    if let Some(e) = expect_loops {
        if e != nloops {
            die(format!("fn {}: {} loops, the contract annotates {}", b.path, nloops, e));
        }
    }
    for (k, _) in anchors.iter().enumerate() {
        if !lt.hits.contains(&k) {
            die(format!("fn {}: statement anchor `{}` is gone", b.path, anchors[k].1));
        }
    }
    // signature
    if let Some(n) = &name {
        sig.ident = Ident::new(n, proc_macro2::Span::call_site());
    }
    let out_ty = match &sig.output {
        ReturnType::Default => None,
        ReturnType::Type(_, t) => Some(print::flat(t.to_token_stream())),
    };
    let mut s2 = sig.clone();
    s2.output = ReturnType::Default;
    let where_c = s2.generics.where_clause.take();
    let mut head = print::flat(s2.to_token_stream());
    if let Some(o) = out_ty {
        head = format!("{} -> ({} : {})", head, ret, o);
    }
    if let Some(w) = where_c {
        head = format!("{} {}", head, print::flat(w.to_token_stream()));
    }
    if let Some(s) = sigover {
        notes.insert("signature rewritten by the template".to_string());
        head = norm(&s);
    }
    let mut body = print::flat(body_ts);
    for (x, y) in &subst {
        let (h2, hit1) = sub_text(head, x, y);
        head = h2;
        let (b2, hit2) = sub_text(body, x, y);
        body = b2;
        if hit1 || hit2 {
            notes.insert(format!("`{}` => `{}`", x, y));
        }
    }
    let vis = if head.starts_with("pub ") || gopts.contains("nopub") || b.secs.iter().any(|s| s.0 == "opt nopub") { "" } else { "pub " };
    if nloops > 0 && !b.secs.iter().any(|s| s.0 == "opt isolate") {
        attrs.push_str("#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n");
    }
    let txt = if nobody {
        notes.insert("BODY NOT VERIFIED (trusted contract)".into());
        format!("{}#[verifier::external_body]\n{}{}\n{}\n{{ unimplemented!() }}", attrs, vis, head, spec)
    } else {
        format!("{}{}{}\n{}\n{}", attrs, vis, head, spec.trim_end(), print::pretty(toks(&body)))
    };
    let _ = quote!();
    (txt, notes, nloops)
}
