//! quote!(..) as the concatenation it stands for: fixed token sequences
//! (`crate::vxq_lits`, one per distinct text) and the interpolated values. In
//! contracts and specs `vxq![ .. $x .. ]` means the same sequence of tokens.
use std::{cell::RefCell, collections::BTreeMap};

use proc_macro2::{Delimiter, TokenStream, TokenTree};
use quote::{format_ident, quote};
use syn::{parse_quote, Expr};

// per chunk: its text, whether the code has it, whether a contract has it
thread_local!(static LITS: RefCell<BTreeMap<String, (String, bool, bool)>> = Default::default());

fn lit(text: &str, code: bool) -> String {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in text.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    let short: String = text.chars().filter(|c| c.is_ascii_alphanumeric()).take(12).collect();
    let n = format!("{short}_{h:016x}");
    LITS.with(|l| {
        let mut l = l.borrow_mut();
        let e = l.entry(n.clone()).or_insert_with(|| (text.to_string(), false, false));
        e.1 |= code;
        e.2 |= !code;
    });
    n
}

pub enum Part {
    Lit(String),
    Var(String),
    Rep(Vec<Part>, Vec<String>),
}

/// split a template; `sigil` introduces the interpolations
pub fn parts(ts: TokenStream, sigil: char) -> Option<Vec<Part>> {
    let mut o = vec![];
    let mut cur = String::new();
    walk(ts, sigil, &mut cur, &mut o)?;
    if !cur.is_empty() {
        o.push(Part::Lit(cur));
    }
    Some(o)
}

fn walk(ts: TokenStream, sigil: char, cur: &mut String, o: &mut Vec<Part>) -> Option<()> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    let word = |cur: &mut String, s: &str| {
        if !cur.is_empty() {
            cur.push(' ');
        }
        cur.push_str(s);
    };
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == sigil && matches!(v.get(i + 1), Some(TokenTree::Ident(_))) => {
                if !cur.is_empty() {
                    o.push(Part::Lit(std::mem::take(cur)));
                }
                o.push(Part::Var(v[i + 1].to_string()));
                i += 2;
                continue;
            }
            TokenTree::Punct(p) if p.as_char() == sigil && matches!(v.get(i + 1), Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Parenthesis) => {
                let TokenTree::Group(g) = &v[i + 1] else { unreachable!() };
                if sigil == '$' {
                    if !cur.is_empty() {
                        o.push(Part::Lit(std::mem::take(cur)));
                    }
                    o.push(Part::Var(format!("({})", g.stream())));
                    i += 2;
                    continue;
                }
                // #( .. )*   (no separator)
                match v.get(i + 2) {
                    Some(TokenTree::Punct(p)) if p.as_char() == '*' => {}
                    _ => return None,
                }
                let inner = parts(g.stream(), sigil)?;
                let mut vars = vec![];
                for p in &inner {
                    match p {
                        Part::Var(x) => vars.push(x.clone()),
                        Part::Rep(..) => return None,
                        _ => {}
                    }
                }
                vars.sort();
                vars.dedup();
                if !cur.is_empty() {
                    o.push(Part::Lit(std::mem::take(cur)));
                }
                o.push(Part::Rep(inner, vars));
                i += 3;
                continue;
            }
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                word(cur, a);
                walk(g.stream(), sigil, cur, o)?;
                word(cur, b);
            }
            // unbalanced pieces, in contracts only
            TokenTree::Ident(i) if sigil == '$' && *i == "__open" => word(cur, "("),
            TokenTree::Ident(i) if sigil == '$' && *i == "__close" => word(cur, ")"),
            t => word(cur, &t.to_string()),
        }
        i += 1;
    }
    Some(())
}

fn expr(ps: &[Part], looped: bool) -> Option<Expr> {
    let mut e: Option<Expr> = None;
    for p in ps {
        let x: Expr = match p {
            Part::Lit(t) => {
                let n = format_ident!("q_{}", lit(t, true));
                parse_quote!(crate::vxq_lits::#n())
            }
            Part::Var(v) => {
                let v = format_ident!("{}", v);
                parse_quote!(#v.vx_toks())
            }
            Part::Rep(b, vars) => {
                // #( fixed #x fixed )*
                if vars.len() != 1 || looped {
                    return None;
                }
                let v = format_ident!("{}", vars[0]);
                let k = b.iter().position(|p| matches!(p, Part::Var(_)))?;
                let (pre, post) = (expr(&b[..k], true)?, expr(&b[k + 1..], true)?);
                if b.len() > k + 2 || k > 1 || b[k + 1..].iter().any(|p| matches!(p, Part::Var(_))) {
                    return None;
                }
                parse_quote!(#v.vx_rep(#pre, #post))
            }
        };
        e = Some(match e {
            None => x,
            Some(e) => parse_quote!(crate::vxq::cat(#e, #x)),
        });
    }
    Some(e.unwrap_or_else(|| parse_quote!(crate::vxq::TokenStream::new())))
}

thread_local!(static TAKEN: RefCell<std::collections::BTreeSet<String>> = Default::default());
/// did some template take x's place
pub fn substituted(x: &syn::Ident) -> bool {
    TAKEN.with(|t| t.borrow().contains(&x.to_string()))
}

/// the fixed parts that no contract has
fn strange(ps: &[Part]) -> usize {
    ps.iter()
        .map(|p| match p {
            Part::Lit(t) => !LITS.with(|l| l.borrow().values().any(|(x, _, spec)| *spec && x == t)) as usize,
            Part::Var(_) => 0,
            Part::Rep(b, _) => strange(b),
        })
        .sum()
}

/// `names` are the `let x = quote!(..)` in scope: a template that uses one is
/// the same as with x's template in its place. Both are the code; the one that
/// has the contracts' parts is taken.
pub fn lower(ts: TokenStream, names: &[(syn::Ident, TokenStream)]) -> Option<Expr> {
    let ps = parts(ts.clone(), '#')?;
    let n = strange(&ps);
    let here: Vec<&(syn::Ident, TokenStream)> = names.iter().filter(|(x, _)| ps.iter().any(|p| matches!(p, Part::Var(v) if x == v))).collect();
    let own = |t: &TokenStream| parts(t.clone(), '#').map_or(0, |p| strange(&p));
    if n > 0 || here.iter().any(|(_, t)| own(t) > 0) {
        for set in 1u32..1 << here.len().min(6) {
            let mut t = ts.clone();
            let some: Vec<_> = here.iter().enumerate().filter(|(i, _)| set >> i & 1 == 1).map(|(_, x)| *x).collect();
            for (x, y) in &some {
                t = put(t, x, y);
            }
            if let Some(q) = parts(t.clone(), '#') {
                // what is in it may itself stand for something
                if strange(&q) < n + some.iter().map(|(_, t)| own(t)).sum::<usize>() {
                    TAKEN.with(|t| t.borrow_mut().extend(some.iter().map(|(x, _)| x.to_string())));
                    let fewer: Vec<_> = names.iter().filter(|n| !some.iter().any(|(x, _)| *x == n.0)).cloned().collect();
                    return lower(t, &fewer);
                }
            }
        }
    }
    expr(&ps, false)
}

/// t with `#x` replaced by y
fn put(t: TokenStream, x: &syn::Ident, y: &TokenStream) -> TokenStream {
    let v: Vec<TokenTree> = t.into_iter().collect();
    let mut o = TokenStream::new();
    let mut i = 0;
    while i < v.len() {
        match (&v[i], v.get(i + 1)) {
            (TokenTree::Punct(p), Some(TokenTree::Ident(n))) if p.as_char() == '#' && n == x => {
                o.extend(y.clone());
                i += 1;
            }
            (TokenTree::Group(g), _) => o.extend([TokenTree::Group(proc_macro2::Group::new(g.delimiter(), put(g.stream(), x, y)))]),
            (t, _) => o.extend([t.clone()]),
        }
        i += 1;
    }
    o
}

/// `vxq![ .. ]` in the text of a contract or spec
pub fn spec_text(t: &str) -> Result<String, String> {
    let mut o = String::new();
    let mut rest = t;
    while let Some(i) = rest.find("vxq![") {
        o.push_str(&rest[..i]);
        let body = &rest[i + 5..];
        let mut depth = 1;
        let mut end = None;
        for (k, c) in body.char_indices() {
            match c {
                '[' => depth += 1,
                ']' => depth -= 1,
                _ => {}
            }
            if depth == 0 {
                end = Some(k);
                break;
            }
        }
        let k = end.ok_or("vxq![ without its ]")?;
        let ts: TokenStream = body[..k].parse().map_err(|e| format!("vxq!: {e}: {}", &body[..k.min(80)]))?;
        let ps = parts(ts, '$').ok_or("vxq!: not a template")?;
        let xs: Vec<String> = ps
            .iter()
            .map(|p| match p {
                Part::Lit(t) => format!("crate::vxq_lits::l_{}()", lit(t, false)),
                Part::Var(v) => v.clone(),
                Part::Rep(..) => String::new(),
            })
            .collect();
        let mut e = xs[0].clone();
        for x in &xs[1..] {
            e = format!("({e} + {x})");
        }
        o.push_str(&e);
        rest = &body[k + 1..];
    }
    o.push_str(rest);
    Ok(o)
}

type Chunk<'a> = (Vec<String>, &'a String, bool, bool);
/// w as two or more of `from`, one of them `new`
fn tile<'a>(w: &[String], from: &[&Chunk<'a>], new: &dyn Fn(&Chunk) -> bool) -> Option<Vec<&'a String>> {
    fn go<'a>(w: &[String], from: &[&Chunk<'a>], new: &dyn Fn(&Chunk) -> bool, n: usize, any: bool) -> Option<Vec<&'a String>> {
        if w.is_empty() {
            return if n >= 2 && any { Some(vec![]) } else { None };
        }
        let mut c: Vec<&&Chunk<'a>> = from.iter().filter(|c| !c.0.is_empty() && w.starts_with(&c.0)).collect();
        c.sort_by_key(|c| std::cmp::Reverse(c.0.len()));
        for c in c {
            if let Some(mut v) = go(&w[c.0.len()..], from, new, n + 1, any || new(c)) {
                v.insert(0, c.1);
                return Some(v);
            }
        }
        None
    }
    go(w, from, new, 0, false)
}

/// the module with the fixed token sequences
pub fn lits_module() -> String {
    let mut o = String::new();
    LITS.with(|l| {
        if l.borrow().is_empty() {
            return;
        }
        o.push_str("verus! { pub mod vxq_lits { use vstd::prelude::*; use crate::vxq::*;\n");
        // as long as the code's chunks are those of the contracts, what is in
        // them does not matter; others are told apart by the chunks they are made of
        let l = l.borrow();
        let split = l.values().any(|(_, code, spec)| *code && !*spec);
        let words = |t: &str| -> Vec<String> { t.split_whitespace().map(|w| w.to_string()).collect() };
        let all: Vec<(Vec<String>, &String, bool, bool)> = l.iter().map(|(n, (t, c, s))| (words(t), n, *c, *s)).collect();
        let mut tiles: BTreeMap<&String, Vec<&String>> = BTreeMap::new();
        if split {
            for (w, n, c, s) in &all {
                // a contract's chunk of the code's, a chunk of the code of the contracts'
                let mut v = None;
                if *s {
                    v = tile(w, &all.iter().filter(|x| x.2 && x.1 != *n).collect::<Vec<_>>(), &|x| x.2 && !x.3);
                }
                if *c && v.is_none() {
                    v = tile(w, &all.iter().filter(|x| x.3 && x.1 != *n).collect::<Vec<_>>(), &|x| x.3 && !x.2);
                }
                if let Some(v) = v {
                    tiles.insert(n, v);
                }
            }
        }
        // what is left over, token by token
        let used: std::collections::BTreeSet<&String> = tiles.values().flatten().copied().collect();
        let left = all.iter().any(|x| x.2 && !x.3 && !tiles.contains_key(x.1) && !used.contains(x.1));
        let mut names = BTreeMap::new();
        for (w, n, c, s) in &all {
            let mut e = String::new();
            let mut add = |x: String| e = if e.is_empty() { x } else { format!("({e} + {x})") };
            if left && (c != s || used.contains(n)) {
                for w in w {
                    let k = names.len();
                    let k = *names.entry(w.clone()).or_insert(k);
                    add(format!("w{k}()"));
                }
            } else if let Some(v) = tiles.get(n) {
                for m in v {
                    add(format!("l_{m}()"));
                }
            }
            let def = if e.is_empty() { format!("pub uninterp spec fn l_{n}() -> Seq<Tok>;") } else { format!("pub open spec fn l_{n}() -> Seq<Tok> {{ {e} }}") };
            o.push_str(&format!("/// {}\n{def}\n#[verifier::external_body] pub fn q_{n}() -> (r: TokenStream) ensures r@ == l_{n}() {{ unimplemented!() }}\n", w.join(" ")));
        }
        for (_, k) in names {
            o.push_str(&format!("pub uninterp spec fn w{k}() -> Seq<Tok>;\n"));
        }
        o.push_str("} }\n");
    });
    o
}

#[allow(dead_code)]
fn unused() -> TokenStream {
    quote!()
}
