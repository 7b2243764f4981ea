//! The functions a macro_rules of the same file makes: its (single-arm) definition is expanded where it is invoked
//! as an item, with `$x:ident` fragments, one level of `$( .. ) sep op` repetition and paste's `[< .. >]` names;
//! doc attributes are dropped. Anything else is left alone (its functions are then not found, and reported as lost).
use proc_macro2::{Delimiter, Group, Ident, Span, TokenStream, TokenTree as T};
use std::collections::HashMap;

#[derive(Clone)]
enum Bind { One(T), Many(Vec<T>) }
type B = HashMap<String, Bind>;

fn v(t: &TokenStream) -> Vec<T> { t.clone().into_iter().collect() }
fn is_p(t: &T, c: char) -> bool { matches!(t, T::Punct(p) if p.as_char() == c) }
/// `$( .. ) sep op` at p[i]: its group, separator, and the index after it
fn rep(p: &[T], i: usize) -> Option<(TokenStream, Option<T>, usize)> {
    if !is_p(p.get(i)?, '$') { return None }
    let g = match p.get(i + 1)? { T::Group(g) if g.delimiter() == Delimiter::Parenthesis => g.stream(), _ => return None };
    let op = |t: &T| is_p(t, '+') || is_p(t, '*') || is_p(t, '?');
    let x = p.get(i + 2)?;
    if op(x) { return Some((g, None, i + 3)) }
    if op(p.get(i + 3)?) { Some((g, Some(x.clone()), i + 4)) } else { None }
}
fn frag(p: &[T], i: usize) -> Option<String> {
    if !is_p(p.get(i)?, '$') { return None }
    match (p.get(i + 1)?, p.get(i + 2)?, p.get(i + 3)?) { (T::Ident(n), c, T::Ident(k)) if is_p(c, ':') && (k == "ident" || k == "literal" || k == "tt") => Some(n.to_string()), _ => None }
}
fn bind(p: &[T], a: &[T]) -> Option<B> {
    let (mut i, mut j, mut b) = (0, 0, B::new());
    while i < p.len() {
        if let Some(n) = frag(p, i) { b.insert(n, Bind::One(a.get(j)?.clone())); i += 4; j += 1; }
        else if let Some((g, sep, k)) = rep(p, i) {
            if k != p.len() { return None }
            let inner = v(&g);
            let size = { let (mut n, mut q) = (0, 0); while q < inner.len() { q += if frag(&inner, q).is_some() { 4 } else { 1 }; n += 1; } n };
            while j < a.len() {
                for (n, x) in bind(&inner, a.get(j..j + size)?)? { let Bind::One(x) = x else { return None }; match b.entry(n).or_insert(Bind::Many(vec![])) { Bind::Many(m) => m.push(x), _ => return None } }
                j += size;
                if j < a.len() { if let Some(s) = &sep { if s.to_string() != a[j].to_string() { return None } j += 1; } }
            }
            i = k;
        }
        else if a.get(j)?.to_string() == p[i].to_string() { i += 1; j += 1; } else { return None }
    }
    if j == a.len() { Some(b) } else { None }
}
fn many(p: &TokenStream, b: &B) -> Option<usize> {
    let p = v(p); let mut n = None;
    for (i, t) in p.iter().enumerate() {
        let m = match t { T::Group(g) => many(&g.stream(), b), T::Ident(x) if i > 0 && is_p(&p[i - 1], '$') => match b.get(&x.to_string()) { Some(Bind::Many(m)) => Some(m.len()), _ => None }, _ => None };
        if m.is_some() { n = m; }
    }
    n
}
fn subst(p: &TokenStream, b: &B) -> Option<TokenStream> {
    let p = v(p); let mut out: Vec<T> = vec![]; let mut i = 0;
    while i < p.len() {
        if let Some((g, sep, k)) = rep(&p, i) {
            for q in 0..many(&g, b)? {
                if q > 0 { out.extend(sep.clone()); }
                let at: B = b.iter().map(|(n, x)| (n.clone(), match x { Bind::Many(m) if q < m.len() => Bind::One(m[q].clone()), y => y.clone() })).collect();
                out.extend(subst(&g, &at)?);
            }
            i = k;
        } else if is_p(&p[i], '$') {
            match p.get(i + 1)? { T::Ident(n) => match b.get(&n.to_string())? { Bind::One(t) => out.push(t.clone()), _ => return None }, _ => return None }
            i += 2;
        } else {
            match &p[i] { T::Group(g) => out.push(T::Group(Group::new(g.delimiter(), subst(&g.stream(), b)?))), t => out.push(t.clone()) }
            i += 1;
        }
    }
    Some(out.into_iter().collect())
}
fn paste(p: &TokenStream, inside: bool) -> Option<TokenStream> {
    let p = v(p); let mut out: Vec<T> = vec![]; let mut i = 0;
    while i < p.len() {
        match &p[i] {
            T::Ident(n) if n == "paste" && p.get(i + 1).is_some_and(|x| is_p(x, '!')) => { if let Some(T::Group(g)) = p.get(i + 2) { out.extend(paste(&g.stream(), true)?); i += 3; continue } return None }
            x if is_p(x, '#') => if let Some(T::Group(g)) = p.get(i + 1) { if v(&g.stream()).first().is_some_and(|t| t.to_string() == "doc") { i += 2; continue } },
            T::Group(g) => {
                let q = v(&g.stream());
                if inside && g.delimiter() == Delimiter::Bracket && q.len() >= 2 && is_p(&q[0], '<') && is_p(&q[q.len() - 1], '>') {
                    let mut n = String::new();
                    for t in &q[1..q.len() - 1] { match t { T::Ident(x) => n.push_str(&x.to_string()), _ => return None } }
                    out.push(T::Ident(Ident::new(&n, Span::call_site())));
                } else { out.push(T::Group(Group::new(g.delimiter(), paste(&g.stream(), inside)?))); }
                i += 1; continue;
            }
            _ => {}
        }
        out.push(p[i].clone()); i += 1;
    }
    Some(out.into_iter().collect())
}
/// the text of the items the file's own macros make
pub fn made(f: &syn::File) -> String {
    let mut defs: HashMap<String, (TokenStream, TokenStream)> = HashMap::new();
    for it in &f.items { if let syn::Item::Macro(m) = it { if let (Some(n), true) = (&m.ident, m.mac.path.is_ident("macro_rules")) {
        let t = v(&m.mac.tokens);
        if t.len() == 4 || (t.len() == 5 && is_p(&t[4], ';')) { if let (T::Group(a), T::Group(b)) = (&t[0], &t[3]) { defs.insert(n.to_string(), (a.stream(), b.stream())); } }
    } } }
    let mut out = String::new();
    for it in &f.items { if let syn::Item::Macro(m) = it { if let Some(n) = m.mac.path.get_ident() { if let Some((p, b)) = defs.get(&n.to_string()) {
        if let Some(t) = bind(&v(p), &v(&m.mac.tokens)).and_then(|x| subst(b, &x)).and_then(|t| paste(&t, false)) {
            let t = t.to_string();
            if syn::parse_file(&t).is_ok() { out.push('\n'); out.push_str(&t); }
        }
    } } } }
    out
}
