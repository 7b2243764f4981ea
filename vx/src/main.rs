//! vx: mechanical extractor.  Copies items out of /repo's *current* sources into a Verus
//! file, verbatim except for the edit rules below, and splices in the contracts that live in
//! /verif/contracts.  Every edit is counted per rule and reported, so that the evidence can
//! state exactly what the extraction drops or replaces.
//!
//! Edit rules (names appear in the report):
//!   attrs      attributes and doc comments of the item, its fields and statements removed
//!   vis        visibility normalised to `pub`
//!   async      `async` / `.await` removed (sequential semantics)
//!   log        log macros (debug!/info!/warn!/error!/trace!) removed
//!   fmt        format!(..) replaced by calls that append the same pieces in the same order
//!   for        `for P in E {B}` desugared to its definition (into_iter / loop / match next)
//!   method     method renamed to its contract-carrying shim (vx_*), whose body is that call
//!   path       path renamed to its shim
//!   ret        the return value gets a name, so that contracts can talk about it
//!   implhdr    a trait-impl method is checked as an inherent method of the same type
//!   slicepat / macro ... see code
mod mbe;
use proc_macro2::Span;
use std::collections::{BTreeMap, HashMap};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

type Res<T> = Result<T, String>;

#[derive(Default, Clone)]
struct Rules {
    methods: HashMap<String, String>,
    paths: Vec<(String, String)>,
    keep_fmt: bool,
    opaque_fmt: bool,
    range_index: bool,
    str_index: bool,
    eq_ops: bool,
    str_add: bool,
    each: bool, ghost_args: Vec<(String, String)>,
    maploops: HashMap<usize, Option<String>>,  drop_casts: Vec<String>,
}

struct Cx<'a> {
    src: &'a str,
    rules: &'a Rules,
    edits: Vec<(usize, usize, String)>, // replace [a,b) by text; a==b is insertion
    counts: BTreeMap<String, usize>,
    loops: usize,
    closures: usize,
    loop_spec: BTreeMap<usize, String>,
    loop_pre: BTreeMap<usize, String>,
    loop_post: BTreeMap<usize, String>,
    loop_start: BTreeMap<usize, String>,
    loop_end: BTreeMap<usize, String>,
    closure_spec: BTreeMap<usize, String>,
    before: Vec<(String, String, bool)>,
    after: Vec<(String, String, bool)>,
    errs: Vec<String>,
    sync_ok: Vec<usize>,
}

fn rng(s: Span) -> (usize, usize) {
    let r = s.byte_range();
    (r.start, r.end)
}

impl<'a> Cx<'a> {
    fn new(src: &'a str, rules: &'a Rules) -> Self {
        Cx { src, rules, edits: vec![], counts: BTreeMap::new(), loops: 0, closures: 0,
             loop_spec: BTreeMap::new(), loop_pre: BTreeMap::new(), loop_post: BTreeMap::new(), loop_start: BTreeMap::new(), loop_end: BTreeMap::new(),
             closure_spec: BTreeMap::new(), before: vec![], after: vec![], errs: vec![], sync_ok: vec![] }
    }
    fn count(&mut self, k: &str) { *self.counts.entry(k.to_string()).or_insert(0) += 1; }
    fn text(&self, s: Span) -> &'a str { let (a, b) = rng(s); &self.src[a..b] }
    fn rep(&mut self, s: Span, t: &str) { let (a, b) = rng(s); self.edits.push((a, b, t.to_string())); }
    fn del(&mut self, a: usize, b: usize) { self.edits.push((a, b, String::new())); }
    fn ins(&mut self, p: usize, t: String) { self.edits.push((p, p, t)); }
    fn attrs(&mut self, attrs: &[syn::Attribute]) {
        for a in attrs {
            let (x, y) = rng(a.span());
            self.del(x, y);
            self.count("attrs");
        }
    }
    fn vis(&mut self, v: &syn::Visibility, at: usize) {
        match v {
            syn::Visibility::Public(_) => {}
            syn::Visibility::Restricted(r) => { self.rep(r.span(), "pub"); self.count("vis"); }
            syn::Visibility::Inherited => { self.ins(at, "pub ".into()); self.count("vis"); }
        }
    }
    /// Render [a,b) with the edits applied.
    fn render(&mut self, a: usize, b: usize) -> Res<String> {
        let mut ed: Vec<(usize, (usize, usize, String))> = self.edits.iter().cloned().enumerate()
            .filter(|(_, e)| e.0 >= a && e.1 <= b).collect();
        ed.sort_by(|x, y| (x.1 .0, (x.1 .1 != x.1 .0) as u8, x.0).cmp(&(y.1 .0, (y.1 .1 != y.1 .0) as u8, y.0)));
        let mut out = String::new();
        let mut p = a;
        for (_, (x, y, t)) in ed {
            if x < p {
                if y <= p { continue; } // nested inside an already replaced region
                return Err(format!("overlapping edits at byte {x}"));
            }
            out.push_str(&self.src[p..x]);
            out.push_str(&t);
            p = y;
        }
        out.push_str(&self.src[p..b]);
        Ok(out)
    }
    /// Render an expression that sits inside macro tokens.
    fn render_expr(&mut self, e: &syn::Expr) -> Res<String> {
        let mut sub = Cx::new(self.src, self.rules);
        sub.visit_expr(e);
        let (a, b) = rng(e.span());
        let t = sub.render(a, b)?;
        for (k, v) in sub.counts { *self.counts.entry(k).or_insert(0) += v; }
        self.errs.extend(sub.errs);
        Ok(t)
    }
    fn fmt_call(&mut self, tokens: proc_macro2::TokenStream) -> Res<String> {
        use syn::parse::Parser;
        let p = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated;
        let args = p.parse2(tokens).map_err(|e| format!("format args: {e}"))?;
        let mut it = args.iter();
        let lit = match it.next() {
            Some(syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. })) => s.value(),
            _ => return Err("format!: first argument is no literal".into()),
        };
        let mut pos: Vec<String> = vec![];
        let mut named: HashMap<String, String> = HashMap::new();
        for a in it {
            if let syn::Expr::Assign(asg) = a {
                let k = self.text(asg.left.span()).to_string();
                let v = self.render_expr(&asg.right)?;
                named.insert(k, v);
            } else {
                pos.push(self.render_expr(a)?);
            }
        }
        if self.rules.opaque_fmt { return Ok("vx_opaque_string()".into()); }
        let mut out = String::from("vx_fmt_new()");
        let mut cur = String::new();
        let mut chars = lit.chars().peekable();
        let mut next = 0;
        while let Some(c) = chars.next() {
            match c {
                '{' if chars.peek() == Some(&'{') => { chars.next(); cur.push('{'); }
                '}' if chars.peek() == Some(&'}') => { chars.next(); cur.push('}'); }
                '{' => {
                    let mut spec = String::new();
                    for d in chars.by_ref() { if d == '}' { break; } spec.push(d); }
                    if !cur.is_empty() { out = format!("vx_fmt_lit({out}, {cur:?})"); cur.clear(); }
                    let (name, how) = match spec.split_once(':') { Some((n, h)) => (n.to_string(), h.to_string()), None => (spec.clone(), String::new()) };
                    let arg = if name.is_empty() { let a = pos.get(next).cloned().ok_or("format!: too few args")?; next += 1; a }
                        else if let Ok(i) = name.parse::<usize>() { pos.get(i).cloned().ok_or("format!: arg index")? }
                        else { named.get(&name).cloned().unwrap_or(name) };
                    let f = match how.as_str() { "" => "vx_fmt_disp".to_string(), "?" | "#?" => "vx_fmt_dbg".to_string(),
                        h => format!("vx_fmt_spec_{}", h.replace(|c: char| !c.is_alphanumeric(), "_")) };
                    out = format!("{f}({out}, &({arg}))");
                }
                c => cur.push(c),
            }
        }
        if !cur.is_empty() { out = format!("vx_fmt_lit({out}, {cur:?})"); }
        Ok(out)
    }
    fn do_macro(&mut self, m: &syn::Macro, span: Span, stmt: bool) {
        let name = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        let r: Res<Option<String>> = match name.as_str() {
            "format" => { self.count("fmt"); self.fmt_call(m.tokens.clone()).map(Some) }
            "debug" | "info" | "warn" | "error" | "trace" if stmt => { self.count("log"); Ok(Some("();".into())) }
            "debug" | "info" | "warn" | "error" | "trace" => { self.count("log"); Ok(Some("()".into())) }
            "vec" => {
                use syn::parse::Parser;
                let p = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated;
                match p.parse2(m.tokens.clone()) {
                    Ok(args) => {
                        let mut v = vec![];
                        let mut err = None;
                        for a in args.iter() { match self.render_expr(a) { Ok(t) => v.push(t), Err(e) => err = Some(e) } }
                        match err { Some(e) => Err(e), None => Ok(Some(format!("vec![{}]", v.join(", ")))) }
                    }
                    Err(_) => {
                        // vec![e; n]
                        let s = m.tokens.clone();
                        let f = |input: syn::parse::ParseStream| -> syn::Result<(syn::Expr, syn::Expr)> {
                            let a: syn::Expr = input.parse()?; input.parse::<syn::Token![;]>()?; let b: syn::Expr = input.parse()?; Ok((a, b)) };
                        match f.parse2(s) {
                            Ok((a, b)) => match (self.render_expr(&a), self.render_expr(&b)) {
                                (Ok(a), Ok(b)) => { self.count("macro"); Ok(Some(format!("vx_vec_from_elem({a}, {b})"))) }
                                (Err(e), _) | (_, Err(e)) => Err(e),
                            },
                            Err(e) => Err(format!("vec!: {e}")),
                        }
                    }
                }
            }
            "matches" => {
                let f = |input: syn::parse::ParseStream| -> syn::Result<(syn::Expr, syn::Pat, Option<syn::Expr>)> {
                    let a: syn::Expr = input.parse()?; input.parse::<syn::Token![,]>()?;
                    let p = syn::Pat::parse_multi_with_leading_vert(input)?;
                    let g = if input.peek(syn::Token![if]) { input.parse::<syn::Token![if]>()?; Some(input.parse()?) } else { None };
                    let _ = input.parse::<Option<syn::Token![,]>>()?;
                    Ok((a, p, g)) };
                use syn::parse::Parser;
                match f.parse2(m.tokens.clone()) {
                    Ok((a, p, g)) => {
                        let g = match g { Some(g) => match self.render_expr(&g) { Ok(t) => Ok(format!(" if {t}")), Err(e) => Err(e) }, None => Ok(String::new()) };
                        match (self.render_expr(&a), g) {
                            (Ok(a), Ok(g)) => { self.count("macro"); let p = self.text(p.span()); Ok(Some(format!("(match {a} {{ {p}{g} => true, _ => false }})"))) }
                            (Err(e), _) | (_, Err(e)) => Err(e),
                        }
                    }
                    Err(e) => Err(format!("matches!: {e}")),
                }
            }
            "write" => {
                use syn::parse::Parser;
                let f = |input: syn::parse::ParseStream| -> syn::Result<(syn::Expr, proc_macro2::TokenStream)> { let a: syn::Expr = input.parse()?; input.parse::<syn::Token![,]>()?; Ok((a, input.parse()?)) };
                match f.parse2(m.tokens.clone()) {
                    Ok((a, rest)) => match (self.render_expr(&a), self.fmt_call(rest)) { (Ok(a), Ok(t)) => { self.count("fmt"); Ok(Some(format!("vx_write({a}, {t})"))) } (Err(e), _) | (_, Err(e)) => Err(e) },
                    Err(e) => Err(format!("write!: {e}")),
                }
            }
            "panic" | "unreachable" | "unimplemented" | "todo" => { self.count("macro"); Ok(Some("vx_panic()".into())) }
            other => Err(format!("unsupported macro {other}!")),
        };
        match r { Ok(Some(t)) => self.rep(span, &t), Ok(None) => {}, Err(e) => self.errs.push(e) }
    }
}

fn norm(s: &str) -> String { s.split_whitespace().collect::<Vec<_>>().join(" ") }

impl<'a, 'ast> Visit<'ast> for Cx<'a> {
    fn visit_attribute(&mut self, a: &'ast syn::Attribute) { let (x, y) = rng(a.span()); self.del(x, y); self.count("attrs"); }
    fn visit_expr_await(&mut self, e: &'ast syn::ExprAwait) {
        let (_, b0) = rng(e.base.span());
        let (_, b) = rng(e.span());
        self.del(b0, b);
        self.count("async");
        self.visit_expr(&e.base);
    }
    // a call that chooses what a ghost argument stands for
    fn visit_expr_call(&mut self, e: &'ast syn::ExprCall) {
        let k: String = self.text(e.func.span()).split_whitespace().collect();
        if let Some((_, g)) = self.rules.ghost_args.iter().find(|(a, _)| *a == k) {
            let (_, b) = rng(e.span());
            let t = format!("{}Ghost({g})", if e.args.is_empty() || e.args.trailing_punct() { "" } else { ", " });
            self.ins(b - 1, t); self.count("ghost");
        }
        visit::visit_expr_call(self, e);
    }
    fn visit_expr_async(&mut self, e: &'ast syn::ExprAsync) {
        let (a, _) = rng(e.span());
        if self.sync_ok.contains(&a) { let (b, _) = rng(e.block.span()); self.del(a, b); self.count("async"); self.visit_block(&e.block); return; }
        self.errs.push(format!("async block that is not what a closure answers: {}", norm(self.text(e.span())).chars().take(60).collect::<String>()));
        visit::visit_expr_async(self, e);
    }
    fn visit_expr_macro(&mut self, e: &'ast syn::ExprMacro) { self.do_macro(&e.mac, e.span(), false); }
    fn visit_stmt_macro(&mut self, e: &'ast syn::StmtMacro) {
        // A statement macro `m!(..);` or tail macro without semicolon.
        let stmt = e.semi_token.is_some();
        let name = e.mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        if stmt && !matches!(name.as_str(), "debug" | "info" | "warn" | "error" | "trace") {
            self.do_macro(&e.mac, e.mac.span(), false);
        } else { self.do_macro(&e.mac, e.span(), stmt); }
    }
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        let t = norm(self.text(s.span()));
        let (a, b) = rng(s.span());
        for k in 0..self.before.len() {
            if !self.before[k].2 && t.starts_with(&self.before[k].0) { self.before[k].2 = true; let x = self.before[k].1.clone(); self.ins(a, x); }
        }
        visit::visit_stmt(self, s);
        for k in 0..self.after.len() {
            if !self.after[k].2 && t.starts_with(&self.after[k].0) { self.after[k].2 = true; let x = self.after[k].1.clone(); self.ins(b, x); }
        }
    }
    fn visit_expr_method_call(&mut self, e: &'ast syn::ExprMethodCall) {
        let n = e.method.to_string();
        // `rt.block_on(async {B})` waits for B
        if n == "block_on" && e.args.len() == 1 { if let syn::Expr::Async(a) = &e.args[0] { let (x, _) = rng(a.span()); self.sync_ok.push(x); } }
        // `m.range(..=x)`: the shape of the range selects the contract
        if self.rules.range_index && (n == "range" || n == "range_mut") && e.args.len() == 1 {
            if let syn::Expr::Range(r) = &e.args[0] {
                let closed = matches!(r.limits, syn::RangeLimits::Closed(_));
                let shape = match (&r.start, &r.end) { (None, None) => "full", (Some(_), None) => "from", (None, Some(_)) => if closed { "to_incl" } else { "to" }, (Some(_), Some(_)) => if closed { "incl" } else { "excl" } };
                self.rep(e.method.span(), &format!("vx_{n}_{shape}"));
                let mut args = vec![];
                for x in [&r.start, &r.end].into_iter().flatten() { match self.render_expr(x) { Ok(t) => args.push(format!("&({t})")), Err(e) => self.errs.push(e) } }
                self.rep(r.span(), &args.join(", "));
                self.count("range");
                self.visit_expr(&e.receiver);
                return;
            }
        }
        // `m.entry(k).or_default()` / `.or_insert..`: one call with one contract
        if self.rules.range_index && (n == "or_default" || n == "or_insert_with" || n == "or_insert") {
            if let syn::Expr::MethodCall(en) = &*e.receiver { if en.method == "entry" {
                self.rep(en.method.span(), &format!("vx_entry_{n}"));
                let (_, close) = rng(en.paren_token.span.close());
                let (open2, open2e) = rng(e.paren_token.span.open());
                if e.args.is_empty() { let (_, end) = rng(e.span()); self.del(close, end); } else { self.edits.push((close - 1, open2e, ", ".into())); let _ = open2; }
                self.count("entry");
                self.visit_expr(&en.receiver);
                for a in en.args.iter().chain(e.args.iter()) { self.visit_expr(a); }
                return;
            } }
        }
        // `(a..=b).contains(&x)` on integers
        if self.rules.range_index && n == "contains" && e.args.len() == 1 {
            if let (syn::Expr::Paren(p), syn::Expr::Reference(x)) = (&*e.receiver, &e.args[0]) { if let syn::Expr::Range(r) = &*p.expr { if let (Some(lo), Some(hi)) = (&r.start, &r.end) {
                let op = if matches!(r.limits, syn::RangeLimits::Closed(_)) { "<=" } else { "<" };
                match (self.render_expr(lo), self.render_expr(hi), self.render_expr(&x.expr)) {
                    (Ok(lo), Ok(hi), Ok(x)) => { self.rep(e.span(), &format!("(({lo}) <= ({x}) && ({x}) {op} ({hi}))")); self.count("range"); return; }
                    _ => self.errs.push("range contains".into()),
                }
            } } }
        }
        // `E.for_each(|p| B)` is `for p in E { B }`
        if self.rules.each && n == "for_each" && e.args.len() == 1 {
            if let syn::Expr::Closure(c) = &e.args[0] {
                if leaves(&c.body) { self.errs.push("for_each body returns".into()); return; }
                self.visit_expr(&e.receiver);
                self.closures += 1;
                self.count("for_each");
                self.loop_over(e.span(), e.receiver.span(), c, String::new(), String::new(), String::new(), String::new());
                return;
            }
        }
        // `E.map(|p| B).collect::<Vec<_>>()` where B changes captured state: a loop that pushes B
        if n == "collect" && !self.rules.maploops.is_empty() {
            if let syn::Expr::MethodCall(m) = &*e.receiver { if (m.method == "map" || m.method == "flat_map") && m.args.len() == 1 { if let syn::Expr::Closure(c) = &m.args[0] {
                let mut cc = CountClosures(0); cc.visit_expr(&m.receiver);
                let k = self.closures + cc.0;
                if let Some(given) = self.rules.maploops.get(&k).cloned() {
                    if leaves(&c.body) { self.errs.push("map body returns".into()); return; }
                    let ty = if let Some(t) = given { t } else { match &e.turbofish { Some(t) => match t.args.first() { Some(a) => self.text(a.span()).to_string(), None => "Vec<_>".into() }, None => "Vec<_>".into() } };
                    self.visit_expr(&m.receiver);
                    self.closures += 1;
                    self.count("maploop");
                    let add = if m.method == "map" { "push" } else { "vx_append" };
                    self.loop_over(e.span(), m.receiver.span(), c, format!("let mut vx_out{k}: {ty} = Vec::new(); "), "let vx_y = ".into(), format!("; vx_out{k}.{add}(vx_y);"), format!(" vx_out{k}"));
                    return;
                }
            } } }
        }
        if let Some(t) = self.rules.methods.get(&n) {
            let t = t.clone();
            self.rep(e.method.span(), &t);
            self.count("method");
        }
        visit::visit_expr_method_call(self, e);
    }
    fn visit_expr_binary(&mut self, e: &'ast syn::ExprBinary) {
        if self.rules.eq_ops && matches!(e.op, syn::BinOp::Eq(_) | syn::BinOp::Ne(_)) {
            let (a, b) = rng(e.left.span()); let (c, d) = rng(e.right.span());
            self.ins(a, format!("{}vx_eq(&(", if matches!(e.op, syn::BinOp::Ne(_)) { "!" } else { "" }));
            self.edits.push((b, c, "), &(".into()));
            self.ins(d, "))".into());
            self.count("eqop");
        }
        // `String + &str`
        if self.rules.str_add && matches!(e.op, syn::BinOp::Add(_)) && (matches!(&*e.right, syn::Expr::Reference(_)) || matches!(&*e.right, syn::Expr::Lit(l) if matches!(l.lit, syn::Lit::Str(_)))) {
            let (a, b) = rng(e.left.span()); let (c, d) = rng(e.right.span());
            self.ins(a, "vx_str_add(".into());
            self.edits.push((b, c, ", ".into()));
            self.ins(d, ")".into());
            self.count("str_add");
        }
        visit::visit_expr_binary(self, e);
    }
    fn visit_expr_reference(&mut self, e: &'ast syn::ExprReference) {
        if self.rules.range_index { if let syn::Expr::Index(ix) = &*e.expr { if matches!(&*ix.index, syn::Expr::Range(_)) {
            // `&E[a..b]` on a string: the method yields the reference itself
            let (a, _) = rng(e.span()); let (b, _) = rng(ix.span()); self.del(a, b);
        } } }
        visit::visit_expr_reference(self, e);
    }
    fn visit_expr_index(&mut self, e: &'ast syn::ExprIndex) {
        if let (true, syn::Expr::Range(r)) = (self.rules.range_index, &*e.index) {
            let (_, b) = rng(e.expr.span()); let (_, end) = rng(e.span());
            if matches!(r.limits, syn::RangeLimits::Closed(_)) { self.errs.push("closed range index".into()); return; }
            let f = |c: &mut Self, x: &Option<Box<syn::Expr>>| -> Option<String> { x.as_ref().map(|x| match c.render_expr(x) { Ok(t) => t, Err(e) => { c.errs.push(e); String::new() } }) };
            let (s, t) = (f(self, &r.start), f(self, &r.end));
            let call = match (s, t) { (None, Some(t)) => format!(".vx_to({t})"), (Some(s), None) => format!(".vx_from({s})"), (Some(s), Some(t)) => format!(".vx_range({s}, {t})"), (None, None) => ".vx_full()".into() };
            self.edits.push((b, end, call));
            self.count("slice");
            self.visit_expr(&e.expr);
            return;
        }
        // `v["k"]` on a JSON value
        if let (true, syn::Expr::Lit(l)) = (self.rules.str_index, &*e.index) { if matches!(l.lit, syn::Lit::Str(_)) {
            let (_, b) = rng(e.expr.span()); let (_, end) = rng(e.span());
            let t = self.text(e.index.span()).to_string();
            self.edits.push((b, end, format!(".vx_at({t})")));
            self.count("str_index");
            self.visit_expr(&e.expr);
            return;
        } }
        visit::visit_expr_index(self, e);
    }
    fn visit_path(&mut self, p: &'ast syn::Path) {
        let t: String = self.text(p.span()).split_whitespace().collect();
        if t == "int" || t == "nat" { self.rep(p.span(), &format!("vx_{t}")); self.count("rename"); return; }
        for (k, v) in &self.rules.paths {
            if *k == t { self.rep(p.span(), v); self.count("path"); return; }
        }
        for (k, v) in &self.rules.paths {
            if let Some(rest) = t.strip_prefix(k.as_str()) {
                if rest.starts_with("::") { let r = format!("{v}{rest}"); self.rep(p.span(), &r); self.count("path"); return; }
                // generic args: Foo<..> with Foo renamed: rename the last matching ident only
                if rest.starts_with('<') {
                    let seg = p.segments.last().unwrap();
                    let (a, _) = rng(p.span());
                    let (_, b) = rng(seg.ident.span());
                    self.edits.push((a, b, v.clone()));
                    self.count("path");
                    visit::visit_path(self, p);
                    return;
                }
            }
        }
        visit::visit_path(self, p);
    }
    // `int` and `nat` are types in the verifier's language; the code may use them as names
    fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
        if p.ident == "int" || p.ident == "nat" { let t = format!("vx_{}", p.ident); self.rep(p.ident.span(), &t); self.count("rename"); }
        visit::visit_pat_ident(self, p);
    }
    // `E as T` where T stands for the type E already has (a trait object behind a model type)
    fn visit_expr_cast(&mut self, e: &'ast syn::ExprCast) {
        let t: String = self.text(e.ty.span()).split_whitespace().collect();
        if self.rules.drop_casts.contains(&t) { let (_, a) = rng(e.expr.span()); let (_, b) = rng(e.span()); self.del(a, b); self.count("cast"); self.visit_expr(&e.expr); return; }
        visit::visit_expr_cast(self, e);
    }
    fn visit_type_trait_object(&mut self, t: &'ast syn::TypeTraitObject) {
        let k: String = self.text(t.span()).split_whitespace().collect();
        for (a, b) in &self.rules.paths { if *a == k { let b = b.strip_prefix("impl").map(|x| format!("impl {x}")).unwrap_or(b.clone()); self.rep(t.span(), &b); self.count("path"); return; } }
        visit::visit_type_trait_object(self, t);
    }
    fn visit_lit(&mut self, l: &'ast syn::Lit) {
        // b"..": the array of its bytes
        if let syn::Lit::ByteStr(b) = l { let v: Vec<String> = b.value().iter().enumerate().map(|(i, x)| format!("{x}{}", if i == 0 { "u8" } else { "" })).collect(); self.rep(l.span(), &format!("&[{}]", v.join(", "))); self.count("bytestr"); }
    }
    fn visit_type_impl_trait(&mut self, t: &'ast syn::TypeImplTrait) {
        let k: String = self.text(t.span()).split_whitespace().collect();
        for (a, b) in &self.rules.paths { if *a == k { self.rep(t.span(), b); self.count("instance"); return; } }
        visit::visit_type_impl_trait(self, t);
    }
    fn visit_expr_for_loop(&mut self, e: &'ast syn::ExprForLoop) {
        let k = self.loops;
        self.loops += 1;
        self.count("for");
        // `for &x in ..` binds x to what the item refers to
        let (pat, star) = match &*e.pat { syn::Pat::Reference(r) => (self.text(r.pat.span()).to_string(), "*"), p => (self.text(p.span()).to_string(), "") };
        let (fs, _) = rng(e.for_token.span());
        let (es, ee) = rng(e.expr.span());
        let lbl = match &e.label { Some(l) => { let (a, b) = rng(l.span()); let t = self.src[a..b].to_string(); self.del(a, fs); format!("{t} ") } None => String::new() };
        self.edits.push((fs, es, format!("{{ let mut vx_it{k} = (")));
        self.attrs(&e.attrs);
        self.visit_expr(&e.expr);
        let inv = self.loop_spec.get(&k).cloned().unwrap_or_default();
        let st = self.loop_start.get(&k).cloned().unwrap_or_default();
        let en = self.loop_end.get(&k).cloned().unwrap_or_default();
        let (bo, _) = rng(e.body.brace_token.span.open());
        let (cl, cle) = rng(e.body.brace_token.span.close());
        self.edits.push((ee, bo + 1, format!(").vx_into_iter();\n{pre}{lbl}loop\n{inv}\n{{ let {pat} = {star}match vx_it{k}.next() {{ Some(vx_x) => vx_x, None => break }};\n{st}\n", pre = self.loop_pre.get(&k).cloned().unwrap_or_default())));
        for s in &e.body.stmts { self.visit_stmt(s); }
        if !en.is_empty() { self.ins(cl, format!(";\n{en}\n")); }
        let post = self.loop_post.get(&k).cloned().unwrap_or_default();
        self.ins(cle, format!("\n{post} }}"));
    }
    fn visit_expr_while(&mut self, e: &'ast syn::ExprWhile) {
        let k = self.loops;
        self.loops += 1;
        if let Some(t) = self.loop_pre.get(&k).cloned() { let (a, b) = rng(e.span()); self.ins(a, format!("{{\n{t}\n")); self.ins(b, "\n}".to_string()); }
        let (bo, _) = rng(e.body.brace_token.span.open());
        if let Some(inv) = self.loop_spec.get(&k).cloned() { self.ins(bo, format!("\n{inv}\n")); }
        if let Some(t) = self.loop_start.get(&k).cloned() { self.ins(bo + 1, format!("\n{t}\n")); }
        let (cl, _) = rng(e.body.brace_token.span.close());
        visit::visit_expr_while(self, e);
        if let Some(t) = self.loop_end.get(&k).cloned() { self.ins(cl, format!("\n{t}\n")); }
    }
    fn visit_expr_loop(&mut self, e: &'ast syn::ExprLoop) {
        let k = self.loops;
        self.loops += 1;
        if let Some(t) = self.loop_pre.get(&k).cloned() { let (a, b) = rng(e.span()); self.ins(a, format!("{{\n{t}\n")); self.ins(b, "\n}".to_string()); }
        let (bo, _) = rng(e.body.brace_token.span.open());
        if let Some(inv) = self.loop_spec.get(&k).cloned() { self.ins(bo, format!("\n{inv}\n")); }
        if let Some(t) = self.loop_start.get(&k).cloned() { self.ins(bo + 1, format!("\n{t}\n")); }
        let (cl, _) = rng(e.body.brace_token.span.close());
        visit::visit_expr_loop(self, e);
        if let Some(t) = self.loop_end.get(&k).cloned() { self.ins(cl, format!("\n{t}\n")); }
    }
    fn visit_expr_closure(&mut self, e: &'ast syn::ExprClosure) {
        let k = self.closures;
        self.closures += 1;
        // `|x| async move { B }` (or `|x| { ..; async move { B } }`) answers what B does, once awaited
        let last = match &*e.body { syn::Expr::Block(b) => match b.block.stmts.last() { Some(syn::Stmt::Expr(x, None)) => x, _ => &*e.body }, x => x };
        if let syn::Expr::Async(a) = last { let (x, _) = rng(a.span()); self.sync_ok.push(x); }
        if let Some(h) = self.closure_spec.get(&k).cloned() {
            let (a, _) = rng(e.or1_token.span());
            let (bs, be) = rng(e.body.span());
            // `$1 $2 ..` in the header stand for the closure's own parameter patterns
            let mut h = h;
            let mut lets = String::new();
            for (i, p) in e.inputs.iter().enumerate() {
                let p = match p { syn::Pat::Type(t) => &*t.pat, p => p };
                match p {
                    syn::Pat::Wild(_) => h = h.replace(&format!("${}", i + 1), &format!("vx_a{i}")),
                    syn::Pat::Ident(_) => h = h.replace(&format!("${}", i + 1), self.text(p.span())),
                    // a destructuring parameter is bound in the body: |&(a, b)| is |x| { let (a, b) = *x; .. }
                    syn::Pat::Reference(r) => { h = h.replace(&format!("${}", i + 1), &format!("vx_a{i}")); lets.push_str(&format!("let {} = *vx_a{i}; ", self.text(r.pat.span()))); }
                    p => { h = h.replace(&format!("${}", i + 1), &format!("vx_a{i}")); lets.push_str(&format!("let {} = vx_a{i}; ", self.text(p.span()))); }
                }
            }
            self.count("closure");
            if !lets.is_empty() {
                self.edits.push((a, bs, format!("{h} {{ {lets}")));
                visit::visit_expr(self, &e.body);
                self.ins(be, " }".into());
                return;
            }
            let braces = !matches!(&*e.body, syn::Expr::Block(_));
            self.edits.push((a, bs, format!("{h} {}", if braces { "{ " } else { "" })));
            visit::visit_expr(self, &e.body);
            if braces { self.ins(be, " }".into()); }
        } else {
            for (i, p) in e.inputs.iter().enumerate() { if let syn::Pat::Wild(_) = p { self.rep(p.span(), &format!("vx_a{i}")); } }
            visit::visit_expr_closure(self, e);
        }
    }
}

struct CountClosures(usize);
impl<'ast> Visit<'ast> for CountClosures { fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) { self.0 += 1; visit::visit_expr_closure(self, c); } }
/// does control leave this closure body other than by reaching its end
fn leaves(e: &syn::Expr) -> bool {
    struct L(bool);
    impl<'ast> Visit<'ast> for L {
        fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) { self.0 = true; }
        fn visit_expr_try(&mut self, _: &'ast syn::ExprTry) { self.0 = true; }
        fn visit_expr_await(&mut self, _: &'ast syn::ExprAwait) { self.0 = true; }
        fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
    }
    let mut l = L(false); l.visit_expr(e); l.0
}
impl<'a> Cx<'a> {
    /// `whole` becomes { pre0 for PAT in (recv) { head BODY tail } after }
    #[allow(clippy::too_many_arguments)]
    fn loop_over(&mut self, whole: Span, recv: Span, c: &syn::ExprClosure, pre0: String, head: String, tail: String, after: String) {
        let k = self.loops;
        self.loops += 1;
        let (a, end) = rng(whole);
        let (_, re) = rng(recv);
        let (bs, be) = rng(c.body.span());
        let p = match c.inputs.first() { Some(syn::Pat::Type(t)) => Some(&*t.pat), p => p };
        let (pat, star) = match p { Some(syn::Pat::Reference(r)) => (self.text(r.pat.span()).to_string(), "*"), Some(syn::Pat::Wild(_)) | None => ("_vx_item".into(), ""), Some(p) => (self.text(p.span()).to_string(), "") };
        let inv = self.loop_spec.get(&k).cloned().unwrap_or_default();
        let st = self.loop_start.get(&k).cloned().unwrap_or_default();
        let en = self.loop_end.get(&k).cloned().unwrap_or_default();
        let pre = self.loop_pre.get(&k).cloned().unwrap_or_default();
        let post = self.loop_post.get(&k).cloned().unwrap_or_default();
        self.ins(a, format!("{{ {pre0}let mut vx_it{k} = ("));
        self.edits.push((re, bs, format!(").vx_into_iter();\n{pre}loop\n{inv}\n{{ let {pat} = {star}match vx_it{k}.next() {{ Some(vx_x) => vx_x, None => break }};\n{st}\n{head}{{ ")));
        visit::visit_expr(self, &c.body);
        self.edits.push((be, end, format!(" }}{tail}\n{en}\n }}\n{post}{after} }}")));
    }
}

struct Found<'f> {
    file: &'f syn::File,
}

fn ty_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::Reference(r) => ty_name(&r.elem),
        _ => String::new(),
    }
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    use quote::ToTokens;
    attrs.iter().any(|a| { let s = a.meta.to_token_stream().to_string().replace(' ', ""); s == "test" || s == "cfg(test)" || s == "tokio::test" })
}

enum FnRef<'f> { Free(&'f syn::ItemFn), Method(&'f syn::ItemImpl, &'f syn::ImplItemFn), TraitDefault(&'f syn::ItemTrait, &'f syn::TraitItemFn) }

impl<'f> Found<'f> {
    /// "name" | "Type::name" | "Trait for Type::name" | "Trait<Args> for Type::name" | "trait Trait::name"
    fn find_fn(&self, path: &str) -> Res<FnRef<'f>> {
        let mut hits = vec![];
        for it in &self.file.items {
            match it {
                syn::Item::Fn(f) if !is_test(&f.attrs) && f.sig.ident == path => hits.push(FnRef::Free(f)),
                syn::Item::Impl(im) => {
                    use quote::ToTokens;
                    let (tn, name) = match path.rsplit_once("::") { Some(x) => x, None => continue };
                    let ty = ty_name(&im.self_ty);
                    let want_trait = tn.split_once(" for ");
                    match (want_trait, &im.trait_) {
                        (Some((tr, t)), Some((_, p, _))) => {
                            let full: String = p.to_token_stream().to_string().split_whitespace().collect();
                            let short = p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
                            let short_full: String = p.segments.last().map(|s| s.to_token_stream().to_string().split_whitespace().collect()).unwrap_or_default();
                            let tr: String = tr.split_whitespace().collect();
                            if t != ty || !(tr == full || tr == short || tr == short_full) { continue }
                        }
                        (None, None) => if tn != ty { continue },
                        _ => continue,
                    }
                    for i in &im.items {
                        if let syn::ImplItem::Fn(f) = i { if f.sig.ident == name { hits.push(FnRef::Method(im, f)); } }
                    }
                }
                syn::Item::Trait(t) => {
                    if let Some(rest) = path.strip_prefix("trait ") {
                        if let Some((tn, name)) = rest.rsplit_once("::") {
                            if t.ident == tn {
                                for i in &t.items { if let syn::TraitItem::Fn(f) = i { if f.sig.ident == name && f.default.is_some() { hits.push(FnRef::TraitDefault(t, f)); } } }
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        match hits.len() { 1 => Ok(hits.pop().unwrap()), 0 => Err(format!("function `{path}` not found")), n => Err(format!("function `{path}` found {n} times")) }
    }
}

fn render_type(src: &str, file: &syn::File, name: &str, rules: &Rules, opts: &[&str], counts: &mut BTreeMap<String, usize>) -> Res<String> {
    // `proof=lemma`: the value is computed after a call of the lemma
    let pf = opts.iter().filter_map(|o| o.strip_prefix("proof=")).map(|l| format!("proof {{ {l}(); }} ")).collect::<String>();
    // `Type::NAME`: an associated constant, emitted as the free executable constant Type_NAME
    if let Some((ty, cn)) = name.split_once("::") {
        for it in &file.items {
            if let syn::Item::Impl(im) = it { if im.trait_.is_none() && ty_name(&im.self_ty) == ty { for x in &im.items {
                if let syn::ImplItem::Const(c) = x { if c.ident == cn {
                    let mut cx = Cx::new(src, rules);
                    cx.visit_type(&c.ty); cx.visit_expr(&c.expr);
                    let (a, b) = rng(c.ty.span()); let t = cx.render(a, b)?;
                    let (a, b) = rng(c.expr.span()); let e = cx.render(a, b)?;
                    if !cx.errs.is_empty() { return Err(cx.errs.join("; ")); }
                    let ens = match opts.iter().position(|o| *o == "ensures") { Some(k) => opts[k + 1..].join(" "), None => "true".into() };
                    for (k, v) in cx.counts { *counts.entry(k).or_insert(0) += v; }
                    *counts.entry("const".into()).or_insert(0) += 1;
                    return Ok(format!("pub exec const {ty}_{cn}: {t} ensures {ens} {{ {pf}{e} }}\n"));
                } }
            } } }
        }
        return Err(format!("constant `{name}` not found"));
    }
    // `lazy NAME`: a lazy_static, emitted as the function NAME_value() computing it
    if opts.first() == Some(&"lazy") {
        struct L(Vec<(syn::Ident, syn::Type, syn::Expr)>);
        impl syn::parse::Parse for L { fn parse(input: syn::parse::ParseStream) -> syn::Result<Self> {
            let mut v = vec![];
            while !input.is_empty() {
                let _ = input.call(syn::Attribute::parse_outer)?; let _: syn::Visibility = input.parse()?;
                input.parse::<syn::Token![static]>()?; input.parse::<syn::Token![ref]>()?;
                let n: syn::Ident = input.parse()?; input.parse::<syn::Token![:]>()?; let t: syn::Type = input.parse()?; input.parse::<syn::Token![=]>()?; let e: syn::Expr = input.parse()?; input.parse::<syn::Token![;]>()?;
                v.push((n, t, e));
            }
            Ok(L(v)) } }
        for it in &file.items {
            if let syn::Item::Macro(m) = it { if m.mac.path.is_ident("lazy_static") {
                let l: L = m.mac.parse_body().map_err(|e| e.to_string())?;
                for (n, t, e) in l.0 { if n == name {
                    let mut cx = Cx::new(src, rules);
                    cx.visit_type(&t); cx.visit_expr(&e);
                    let (a, b) = rng(t.span()); let ty = cx.render(a, b)?;
                    let (a, b) = rng(e.span()); let ex = cx.render(a, b)?;
                    if !cx.errs.is_empty() { return Err(cx.errs.join("; ")); }
                    let ens = match opts.iter().position(|o| *o == "ensures") { Some(k) => opts[k + 1..].join(" "), None => "true".into() };
                    for (k, v) in cx.counts { *counts.entry(k).or_insert(0) += v; }
                    *counts.entry("const".into()).or_insert(0) += 1;
                    return Ok(format!("pub fn {name}_value() -> (ret: {ty}) ensures {ens} {{ {pf}{ex} }}\n"));
                } }
            } }
        }
        return Err(format!("lazy_static `{name}` not found"));
    }
    for it in &file.items {
        let mut cx = Cx::new(src, rules);
        let (span, derives) = match it {
            syn::Item::Enum(e) if e.ident == name => {
                cx.attrs(&e.attrs);
                cx.vis(&e.vis, rng(e.enum_token.span()).0);
                for v in &e.variants {
                    cx.attrs(&v.attrs);
                    for f in &v.fields { cx.attrs(&f.attrs); cx.visit_type(&f.ty); }
                    if let Some((_, d)) = &v.discriminant { let (_, ie) = rng(v.ident.span()); let (_, de) = rng(d.span()); let _ = ie; let _ = de; }
                }
                (e.span(), &e.attrs)
            }
            syn::Item::Struct(e) if e.ident == name => {
                cx.attrs(&e.attrs);
                cx.vis(&e.vis, rng(e.struct_token.span()).0);
                for f in &e.fields {
                    cx.attrs(&f.attrs);
                    let at = f.ident.as_ref().map(|i| rng(i.span()).0).unwrap_or(rng(f.ty.span()).0);
                    cx.vis(&f.vis, at);
                    cx.visit_type(&f.ty);
                }
                (e.span(), &e.attrs)
            }
            syn::Item::Const(c) if c.ident == name => {
                cx.attrs(&c.attrs); cx.vis(&c.vis, rng(c.const_token.span()).0);
                struct Refs(Vec<usize>);
                impl<'a> Visit<'a> for Refs { fn visit_type_reference(&mut self, r: &'a syn::TypeReference) { if r.lifetime.is_none() { self.0.push(rng(r.and_token.span()).0 + 1); } visit::visit_type_reference(self, r); } }
                let mut refs = Refs(vec![]); refs.visit_type(&c.ty);
                for x in refs.0 { cx.ins(x, "'static ".into()); cx.count("static"); }
                if let Some(k) = opts.iter().position(|o| *o == "ensures") {
                    // an executable constant: `const N: T = E;` is checked as `exec const N: T ensures .. { E }`
                    let (x, y) = rng(c.eq_token.span()); cx.edits.push((x, y, format!("ensures {} {{ {pf}", opts[k + 1..].join(" "))));
                    let (x, y) = rng(c.semi_token.span()); cx.edits.push((x, y, "}".into()));
                    let (x, _) = rng(c.const_token.span()); cx.ins(x, "exec ".into()); cx.count("const");
                    cx.visit_expr(&c.expr);
                }
                (c.span(), &c.attrs) }
            syn::Item::Type(c) if c.ident == name => { cx.attrs(&c.attrs); cx.vis(&c.vis, rng(c.type_token.span()).0); cx.visit_type(&c.ty); (c.span(), &c.attrs) }
            _ => continue,
        };
        use quote::ToTokens;
        let mut der = vec![];
        for a in derives.iter() {
            if a.path().is_ident("derive") {
                let s = a.meta.to_token_stream().to_string();
                for d in ["Clone", "Copy", "PartialEq", "Eq"] { if s.split(|c: char| !c.is_alphanumeric()).any(|w| w == d) { der.push(d); } }
            }
        }
        let (a, b) = rng(span);
        let mut out = cx.render(a, b)?;
        if !cx.errs.is_empty() { return Err(cx.errs.join("; ")); }
        // structural derive for field-less enums, assumed Clone otherwise
        if opts.contains(&"structural") {
            let mut d: Vec<&str> = der.iter().cloned().filter(|x| *x != "Clone" || der.contains(&"Copy")).collect();
            let eq = d.contains(&"PartialEq");
            if eq { d.push("Structural"); }
            if !d.is_empty() { out = format!("#[derive({})]\n{out}", d.join(", ")); }
            if eq { out.push_str(&format!("\nimpl PartialEqSpecImpl for {name} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, o: &{name}) -> bool {{ *self == *o }} }}\n")); }
            if der.contains(&"Clone") && !der.contains(&"Copy") {
                out.push_str(&format!("\nimpl Clone for {name} {{\n  #[verifier::external_body] /* derived */\n  fn clone(&self) -> (ret: Self) ensures ret == *self {{ unimplemented!() }}\n}}\n"));
            }
        } else if opts.contains(&"clone") {
            if !der.contains(&"Clone") { return Err(format!("{name} no longer derives Clone")); }
            out.push_str(&format!("\nimpl Clone for {name} {{\n  #[verifier::external_body] /* derived */\n  fn clone(&self) -> (ret: Self) ensures ret == *self {{ unimplemented!() }}\n}}\n"));
        }
        if opts.contains(&"ord") {
            // derived PartialOrd/Ord of a field-less enum: the order of the variants in the source
            if !derives.iter().any(|a| a.path().is_ident("derive") && a.meta.to_token_stream().to_string().split(|c: char| !c.is_alphanumeric()).any(|w| w == "Ord")) { return Err(format!("{name} no longer derives Ord")); }
            let Some(syn::Item::Enum(e)) = file.items.iter().find(|i| matches!(i, syn::Item::Enum(e) if e.ident == name)) else { return Err(format!("{name} is no enum")) };
            let arms: Vec<String> = e.variants.iter().enumerate().map(|(k, v)| format!("{name}::{} => {k}", v.ident)).collect();
            out.push_str(&format!("\npub open spec fn rank_{name}(x: {name}) -> int {{ match x {{ {} }} }}\nimpl {name} {{\n  #[verifier::external_body] /* derived Ord */\n  pub fn vx_cmp(&self, o: &{name}) -> (ret: Ordering) ensures ret == vx_int_cmp(rank_{name}(*self), rank_{name}(*o)) {{ unimplemented!() }}\n}}\n", arms.join(", ")));
        }
        if opts.contains(&"strum") {
            // derived AsRefStr: the `strum(serialize = "..")` of each variant
            let Some(syn::Item::Enum(e)) = file.items.iter().find(|i| matches!(i, syn::Item::Enum(e) if e.ident == name)) else { return Err(format!("{name} is no enum")) };
            if !derives.iter().any(|a| a.path().is_ident("derive") && a.meta.to_token_stream().to_string().contains("AsRefStr")) { return Err(format!("{name} no longer derives AsRefStr")); }
            let mut arms = vec![];
            for v in &e.variants {
                let mut ser: Option<String> = None;
                for a in &v.attrs { if a.path().is_ident("strum") { a.parse_nested_meta(|m| { if m.path.is_ident("serialize") { let l: syn::LitStr = m.value()?.parse()?; ser = Some(l.value()); Ok(()) } else { Err(m.error("strum attribute")) } }).map_err(|e| e.to_string())?; } }
                let Some(t) = ser else { return Err(format!("{name}::{} has no strum(serialize)", v.ident)) };
                arms.push(format!("{name}::{} => {t:?}@", v.ident));
            }
            out.push_str(&format!("\npub open spec fn name_{name}(x: {name}) -> Seq<char> {{ match x {{ {} }} }}\nimpl {name} {{\n  #[verifier::external_body] /* derived AsRefStr */\n  pub fn as_ref(&self) -> (ret: &'static str) ensures ret@ == name_{name}(*self) {{ unimplemented!() }}\n}}\n", arms.join(", ")));
        }
        if opts.contains(&"ext_equal") { out = format!("#[verifier::ext_equal]\n{out}"); }
        for o in opts { if let Some(m) = o.strip_prefix("attr=") { out = format!("#[{m}]\n{out}"); } }
        for (k, v) in cx.counts { *counts.entry(k).or_insert(0) += v; }
        return Ok(out);
    }
    Err(format!("item `{name}` not found"))
}

#[derive(Default)]
struct FnSpec {
    ret: String,
    spec: String,
    start: String,
    attr: String,
    loops: BTreeMap<usize, String>,
    loop_pre: BTreeMap<usize, String>,
    loop_post: BTreeMap<usize, String>,
    loop_start: BTreeMap<usize, String>,
    loop_end: BTreeMap<usize, String>,
    closures: BTreeMap<usize, String>,
    before: Vec<(String, String)>,
    after: Vec<(String, String)>,
    nloops: Option<usize>,
    nclosures: Option<usize>,
    rules: Vec<String>,
    header: Option<String>,
    name: Option<String>,
    trusted: bool,
}

fn apply_rule(r: &mut Rules, l: &str) -> Res<()> {
    let w: Vec<&str> = l.split_whitespace().collect();
    match w.as_slice() {
        ["method", a, b] => { if a == b { r.methods.remove(*a); } else { r.methods.insert(a.to_string(), b.to_string()); } }
        ["path", a, b] => r.paths.insert(0, (a.to_string(), b.to_string())),
        ["range_index"] => r.range_index = true,
        ["str_index"] => r.str_index = true,
        ["eq_ops"] => r.eq_ops = true,
        ["plain_eq"] => r.eq_ops = false,
        ["str_add"] => r.str_add = true,
        ["each"] => r.each = true,
        ["ghostarg", a, b @ ..] if !b.is_empty() => r.ghost_args.push((a.to_string(), b.join(" "))),
        ["drop_cast", t] => r.drop_casts.push(t.to_string()),
        ["maploop", n, ty @ ..] => { r.maploops.insert(n.parse().map_err(|_| format!("bad rule: {l}"))?, if ty.is_empty() { None } else { Some(ty.join(" ")) }); }
        ["opaque_fmt"] => r.opaque_fmt = true,
        ["transparent_fmt"] => r.opaque_fmt = false,
        _ => return Err(format!("bad rule: {l}")),
    }
    Ok(())
}

fn parse_spec(lines: &[String]) -> Res<FnSpec> {
    let mut s = FnSpec { ret: "ret".into(), ..Default::default() };
    let mut cur: Option<String> = None;
    let mut buf = String::new();
    let mut flush = |cur: &Option<String>, buf: &mut String, s: &mut FnSpec| -> Res<()> {
        let t = std::mem::take(buf);
        let Some(c) = cur else { return Ok(()) };
        let w: Vec<&str> = c.split_whitespace().collect();
        match w.as_slice() {
            ["spec"] => s.spec = t,
            ["start"] => s.start = t,
            ["attr"] => s.attr = t,
            ["loop", n] => { s.loops.insert(n.parse().unwrap(), t); }
            ["loop", n, "post"] => { s.loop_post.insert(n.parse().unwrap(), t); }
            ["loop", n, "pre"] => { s.loop_pre.insert(n.parse().unwrap(), t); }
            ["loop", n, "start"] => { s.loop_start.insert(n.parse().unwrap(), t); }
            ["loop", n, "end"] => { s.loop_end.insert(n.parse().unwrap(), t); }
            ["closure", n] => { s.closures.insert(n.parse().unwrap(), t.trim().to_string()); }
            ["before", ..] => s.before.push((norm(c.strip_prefix("before").unwrap()), t)),
            ["after", ..] => s.after.push((norm(c.strip_prefix("after").unwrap()), t)),
            _ => return Err(format!("bad section @{c}")),
        }
        Ok(())
    };
    for l in lines {
        let t = l.trim_start();
        if let Some(x) = t.strip_prefix('@') {
            flush(&cur, &mut buf, &mut s)?;
            cur = None;
            if let Some(r) = x.strip_prefix("ret ") { s.ret = r.trim().into(); }
            else if let Some(r) = x.strip_prefix("rule ") { s.rules.push(r.trim().into()); }
            else if let Some(r) = x.strip_prefix("loops ") { s.nloops = r.trim().parse().ok(); }
            else if let Some(r) = x.strip_prefix("closures ") { s.nclosures = r.trim().parse().ok(); }
            else if let Some(r) = x.strip_prefix("header ") { s.header = Some(r.trim().into()); }
            else if x.trim() == "trusted" { s.trusted = true; }
            else if let Some(r) = x.strip_prefix("name ") { s.name = Some(r.trim().into()); }
            else { cur = Some(x.trim().to_string()); }
        } else if cur.is_some() { buf.push_str(l); buf.push('\n'); }
    }
    flush(&cur, &mut buf, &mut s)?;
    Ok(s)
}

fn as_trusted(mut s: FnSpec) -> FnSpec { s.trusted = true; s.start.clear(); s.loops.clear(); s.loop_pre.clear(); s.loop_post.clear(); s.loop_start.clear(); s.loop_end.clear(); s.closures.clear(); s.before.clear(); s.after.clear(); s.nloops = None; s.nclosures = None; s }
fn trust_list() -> Vec<String> { std::env::var("VX_TRUST").unwrap_or_default().split(';').map(|x| x.to_string()).filter(|x| !x.is_empty()).collect() }
fn vacuity() -> bool { std::env::var("VX_VACUITY").is_ok() }

fn render_fn(src: &str, file: &syn::File, path: &str, rules: &Rules, sp: &FnSpec, counts: &mut BTreeMap<String, usize>) -> Res<(String, String)> {
    let mut rules = rules.clone();
    for r in &sp.rules { apply_rule(&mut rules, r)?; }
    let f = Found { file }.find_fn(path)?;
    let (attrs, vis, sig, block, imp): (&[syn::Attribute], Option<&syn::Visibility>, &syn::Signature, &syn::Block, Option<&syn::ItemImpl>) = match &f {
        FnRef::Free(f) => (&f.attrs, Some(&f.vis), &f.sig, &f.block, None),
        FnRef::Method(im, f) => (&f.attrs, Some(&f.vis), &f.sig, &f.block, Some(im)),
        FnRef::TraitDefault(_, f) => (&f.attrs, None, &f.sig, f.default.as_ref().unwrap(), None),
    };
    if let Some(im) = imp { if im.trait_.is_some() { for i in &im.items { if let syn::ImplItem::Type(t) = i {
        let (a, b) = rng(t.ty.span());
        rules.paths.push((format!("Self::{}", t.ident), src[a..b].to_string()));
    } } } }
    // `mut self`: bound at the start of the body
    let own_mut = matches!(sig.receiver(), Some(r) if r.reference.is_none() && r.mutability.is_some());
    if own_mut { rules.paths.push(("self".into(), "vx_self".into())); }
    let mut cx = Cx::new(src, &rules);
    cx.loop_spec = sp.loops.clone();
    cx.loop_pre = sp.loop_pre.clone();
    cx.loop_post = sp.loop_post.clone();
    cx.loop_start = sp.loop_start.clone();
    cx.loop_end = sp.loop_end.clone();
    cx.closure_spec = sp.closures.clone();
    cx.before = sp.before.iter().map(|(a, b)| (a.clone(), b.clone(), false)).collect();
    cx.after = sp.after.iter().map(|(a, b)| (a.clone(), b.clone(), false)).collect();
    // signature
    let start = rng(sig.span()).0;
    if let Some(a) = &sig.asyncness { let (x, y) = rng(a.span()); cx.del(x, y); cx.count("async"); }
    let _ = (attrs, vis);
    if let Some(n) = &sp.name { cx.rep(sig.ident.span(), n); cx.count("rename"); }
    cx.visit_generics(&sig.generics);
    let mut arg_lets = String::new();
    if own_mut { let (x, y) = rng(sig.receiver().unwrap().mutability.unwrap().span()); cx.del(x, y); cx.count("argpat"); arg_lets.push_str("let mut vx_self = self;\n"); }
    for (k, i) in sig.inputs.iter().enumerate() {
        // a destructuring parameter is bound at the start of the body
        if let syn::FnArg::Typed(t) = i { if matches!(&*t.pat, syn::Pat::Tuple(_)) { let p = src[rng(t.pat.span()).0..rng(t.pat.span()).1].to_string(); cx.rep(t.pat.span(), &format!("vx_arg{k}")); arg_lets.push_str(&format!("let {p} = vx_arg{k};\n")); cx.count("argpat"); cx.visit_type(&t.ty); continue; } }
        if own_mut && matches!(i, syn::FnArg::Receiver(_)) { continue; }
        cx.visit_fn_arg(i);
    }
    match &sig.output {
        syn::ReturnType::Type(_, t) => {
            let (a, b) = rng(t.span());
            cx.ins(a, format!("({}: ", sp.ret));
            cx.visit_type(t);
            cx.ins(b, ")".into());
            cx.count("ret");
        }
        syn::ReturnType::Default => {}
    }
    let (bo, _) = rng(block.brace_token.span.open());
    if !sp.trusted { cx.ins(bo, format!("\n{}", sp.spec)); }
    cx.ins(bo + 1, format!("\n{}{}", if vacuity() { "assert(false);\n" } else { "" }, format!("{arg_lets}{}", sp.start)));
    for s in &block.stmts { cx.visit_stmt(s); }
    if let Some(n) = sp.nloops { if n != cx.loops { return Err(format!("`{path}`: expected {n} loops, found {}", cx.loops)); } }
    for k in sp.loops.keys().chain(sp.loop_start.keys()).chain(sp.loop_end.keys()) { if *k >= cx.loops { return Err(format!("`{path}`: loop {k} is gone")); } }
    if let Some(n) = sp.nclosures { if n != cx.closures { return Err(format!("`{path}`: expected {n} closures, found {}", cx.closures)); } }
    for k in sp.closures.keys() { if *k >= cx.closures { return Err(format!("`{path}`: closure {k} is gone")); } }
    for (p, _, hit) in cx.before.iter().chain(cx.after.iter()) { if !hit { return Err(format!("`{path}`: no statement starts with `{p}`")); } }
    if !cx.errs.is_empty() && !sp.trusted { return Err(format!("`{path}`: {}", cx.errs.join("; "))); }
    let (_, end) = rng(block.span());
    let mut body = if sp.trusted { cx.errs.clear(); let mut t = cx.render(start, bo)?; t.push_str(&format!("\n{}{{ unimplemented!() }}\n", sp.spec)); format!("{t}") } else { cx.render(start, end)? };
    let tr = if sp.trusted { "#[verifier::external_body] /* trusted: contract assumed */\n" } else { "" };
    let vis = if sp.header.as_ref().map_or(false, |h| h.contains(" for ")) { "" } else { "pub " };
    body = format!("{tr}{}{vis}{body}", if sp.attr.is_empty() { String::new() } else { format!("{}\n", sp.attr.trim_end()) });
    for (k, v) in std::mem::take(&mut cx.counts) { *counts.entry(k).or_insert(0) += v; }
    let out = match imp {
        Some(im) => {
            if im.trait_.is_some() { *counts.entry("implhdr".into()).or_insert(0) += 1; }
            let hdr = match &sp.header { Some(h) => h.clone(), None => {
                let (gs, wh) = (&im.generics, &im.generics.where_clause);
                let g = if gs.params.is_empty() { String::new() } else { let (a, _) = rng(gs.lt_token.unwrap().span()); let (_, b) = rng(gs.gt_token.unwrap().span()); src[a..b].to_string() };
                let mut c2 = Cx::new(src, &rules);
                c2.visit_type(&im.self_ty);
                let (a, b) = rng(im.self_ty.span());
                let t = c2.render(a, b)?;
                let w = wh.as_ref().map(|w| src[rng(w.span()).0..rng(w.span()).1].to_string()).unwrap_or_default();
                format!("impl{g} {t} {w}")
            } };
            format!("{hdr} {{\n{body}\n}}\n")
        }
        None => match &sp.header { Some(h) => format!("{h} {{\n{body}\n}}\n"), None => format!("{body}\n") },
    };
    let (s0, _) = rng(sig.span());
    Ok((out, src[s0..end].to_string()))
}

fn main() {
    // vx <repo> <contracts-dir> <unit.vrs> <out.rs> <report.json>
    let a: Vec<String> = std::env::args().collect();
    if a.len() != 6 { eprintln!("usage: vx REPO CONTRACTS UNIT OUT REPORT"); std::process::exit(2); }
    let (repo, dir, unit, out, rep) = (&a[1], &a[2], &a[3], &a[4], &a[5]);
    let mut files: HashMap<String, (String, syn::File)> = HashMap::new();
    let mut text = String::new();
    let mut errs: Vec<String> = vec![];
    let mut items: Vec<serde_json::Value> = vec![];
    let mut counts: BTreeMap<String, usize> = BTreeMap::new();
    let mut rules = Rules::default();
    let mut prop = String::new();
    let mut props: Vec<serde_json::Value> = vec![];
    let mut queue: Vec<(String, Vec<String>)> = vec![];
    let read = |n: &str| -> Vec<String> {
        match std::fs::read_to_string(format!("{dir}/{n}")) { Ok(t) => t.lines().map(|l| l.to_string()).collect(), Err(e) => { eprintln!("{n}: {e}"); std::process::exit(2) } } };
    // expand includes
    fn expand(n: &str, read: &dyn Fn(&str) -> Vec<String>, seen: &mut Vec<String>, out: &mut Vec<String>) {
        if seen.iter().any(|s| s == n) { return; }
        seen.push(n.to_string());
        for l in read(n) {
            if let Some(i) = l.trim().strip_prefix("//@include ") { expand(i.trim(), read, seen, out); } else { out.push(l); }
        }
    }
    let mut all = vec![];
    expand(unit, &read, &mut vec![], &mut all);
    queue.push((unit.to_string(), all));
    let lines = queue.pop().unwrap().1;
    let mut load = |p: &str, files: &mut HashMap<String, (String, syn::File)>| -> Res<()> {
        if files.contains_key(p) { return Ok(()); }
        let t = std::fs::read_to_string(format!("{repo}/{p}")).map_err(|e| format!("{p}: {e}"))?;
        let mut t = t;
        let mut f = syn::parse_file(&t).map_err(|e| format!("{p}: does not parse: {e}"))?;
        let made = mbe::made(&f);
        if !made.is_empty() { t.push_str(&made); f = syn::parse_file(&t).map_err(|e| format!("{p}: does not parse: {e}"))?; }
        files.insert(p.to_string(), (t, f));
        Ok(())
    };
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i].trim();
        if l == "//@rules reset" {
            rules = Rules::default();
        } else if let Some(r) = l.strip_prefix("//@rule ") {
            if let Err(e) = apply_rule(&mut rules, r) { eprintln!("{e}"); std::process::exit(2); }
        } else if let Some(r) = l.strip_prefix("//@type ") {
            let w: Vec<&str> = r.split_whitespace().collect();
            let mut c = BTreeMap::new();
            if items.iter().any(|it| it["kind"] == "type" && it["src"] == w[0] && it["path"] == w[1]) { i += 1; continue; }
            let res = load(w[0], &mut files).and_then(|_| { let (s, f) = &files[w[0]]; render_type(s, f, w[1], &rules, &w[2..], &mut c) });
            match res {
                Ok(t) => { items.push(serde_json::json!({"kind":"type","src":w[0],"path":w[1],"line":text.lines().count()+1})); text.push_str(&t); text.push('\n'); }
                Err(e) => errs.push(e),
            }
            for (k, v) in c { *counts.entry(k).or_insert(0) += v; }
        } else if let Some(r) = l.strip_prefix("//@fn ") {
            let (file, path) = match r.trim().split_once(' ') { Some(x) => x, None => { eprintln!("bad //@fn: {r}"); std::process::exit(2) } };
            let mut body = vec![];
            i += 1;
            while i < lines.len() && lines[i].trim() != "//@end" { body.push(lines[i].clone()); i += 1; }
            let sp = match parse_spec(&body) { Ok(s) => s, Err(e) => { eprintln!("{path}: {e}"); std::process::exit(2) } };
            let mut sp = sp;
            let designed = sp.trusted;
            let mut lost: Option<String> = None;
            if !designed && trust_list().iter().any(|t| t == &format!("{file} {}", path.trim())) { sp = as_trusted(sp); lost = Some("outside the verifier's reach as now written".into()); }
            let mut res = load(file, &mut files).and_then(|_| { let (s, f) = &files[file]; render_fn(s, f, path.trim(), &rules, &sp, &mut counts) });
            if let (Err(e), false) = (&res, sp.trusted) {
                // the body no longer has the shape the contract's annotations name: keep the
                // contract for the callers, and report that the body was not checked
                lost = Some(e.clone());
                sp = as_trusted(sp);
                res = load(file, &mut files).and_then(|_| { let (s, f) = &files[file]; render_fn(s, f, path.trim(), &rules, &sp, &mut counts) });
            }
            match res {
                Ok((t, orig)) => {
                    let l0 = text.lines().count() + 1;
                    text.push_str(&t); text.push('\n');
                    let l1 = text.lines().count();
                    items.push(serde_json::json!({"kind":"fn","src":file,"path":path.trim(),"line":l0,"line_end":l1,"orig_bytes":orig.len(),"orig":orig,"has_spec":!sp.spec.trim().is_empty(),"trusted":designed,"lost":lost,"prop":prop}));
                }
                Err(e) => { eprintln!("lost anchor: {e}"); items.push(serde_json::json!({"kind":"fn","src":file,"path":path.trim(),"line":0,"line_end":0,"has_spec":true,"trusted":designed,"lost":e,"prop":prop})); }
            }
        } else if let Some(r) = l.strip_prefix("//@prop") {
            prop = r.trim().to_string();
            props.push(serde_json::json!([text.lines().count() + 1, prop]));
        } else {
            text.push_str(&lines[i]);
            text.push('\n');
        }
        i += 1;
    }
    std::fs::write(out, &text).unwrap();
    std::fs::write(rep, serde_json::to_string_pretty(&serde_json::json!({"unit":unit,"errors":errs,"items":items,"edits":counts,"props":props})).unwrap()).unwrap();
    if !errs.is_empty() { for e in &errs { eprintln!("lost anchor: {e}"); } std::process::exit(3); }
}
