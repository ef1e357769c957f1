//! The local rewrites. Each one is listed in DESIGN.md.
use std::collections::BTreeSet;

use proc_macro2::{Group, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use syn::{
    parse_quote, punctuated::Punctuated, visit::Visit, visit_mut::{self, VisitMut}, Expr, FnArg,
    Generics, Ident, Lit, Pat, Path, Signature, Stmt, Token, Type,
};

use crate::Unit;

pub struct Norm<'a> {
    units: &'a [Unit],
    u: &'a Unit,
    pub lits: BTreeSet<Vec<u8>>,
    pub blits: BTreeSet<Vec<u8>>,
    pub loops: Vec<String>,
    pub calls: Vec<String>,
    pub problems: Vec<String>,
    /// names the file imports from nom
    pub nom: std::collections::BTreeMap<String, String>,
    combs: usize,
    pub applied: usize,
    tmp: usize,
    /// `let x = quote!(..)` in scope, where x stands for the template
    quotes: Vec<(Ident, TokenStream)>,
}

impl<'a> Norm<'a> {
    pub fn new(units: &'a [Unit], u: &'a Unit) -> Self {
        Self { units, u, lits: Default::default(), blits: Default::default(), loops: vec![], calls: vec![], problems: vec![], nom: Default::default(), combs: 0, applied: 0, tmp: 0, quotes: vec![] }
    }
    pub fn generics(&mut self, g: &mut Generics) {
        self.visit_generics_mut(g);
    }
    fn fresh(&mut self) -> Ident {
        self.tmp += 1;
        format_ident!("vx_t{}", self.tmp)
    }
}

/// rename leading path segments; false: drop (refers to something not extracted)
pub fn rename_segments(p: &mut Vec<String>, units: &[Unit], u: &Unit) -> bool {
    let s: Vec<&str> = p.iter().map(|s| s.as_str()).collect();
    let new: Vec<String> = match s.as_slice() {
        ["crate", rest @ ..] => cat(&["crate", &u.module], rest),
        ["core" | "std" | "alloc", "fmt", rest @ ..] => cat(&["crate", "shim", "fmt"], rest),
        ["std", "io", rest @ ..] => cat(&["crate", "shim", "io"], rest),
        ["std", "collections", rest @ ..] => cat(&["crate", "shim_macros", "collections"], rest),
        ["syn", "parse", rest @ ..] => cat(&["crate", "vxsyn"], rest),
        ["syn", "ext", rest @ ..] => cat(&["crate", "vxq", "ext"], rest),
        ["syn" | "quote" | "proc_macro2" | "proc_macro", rest @ ..] => cat(&["crate", "vxq"], rest),
        ["alloc", "string", "String"] => cat(&["std", "string", "String"], &[]),
        ["alloc", rest @ ..] => cat(&["std"], rest),
        ["core", "iter" | "ops" | "cmp" | "str" | "mem" | "option" | "result", ..] => return true,
        ["askama_escape", rest @ ..] => cat(&["crate", "shim", "askama_escape"], rest),
        ["nom", rest @ ..] => cat(&["crate", "vxnom"], rest),
        ["unicode_ident", rest @ ..] => cat(&["crate", "vxnom", "unicode_ident"], rest),
        ["stylish_macros" | "with_builtin_macros", ..] => return false,
        [k, rest @ ..] => match units.iter().find(|x| x.krate == *k) {
            Some(x) => cat(&["crate", &x.module], rest),
            None => return true,
        },
        [] => return true,
    };
    *p = new;
    true
}

fn cat(a: &[&str], b: &[&str]) -> Vec<String> {
    a.iter().chain(b).map(|s| s.to_string()).collect()
}

/// replace `&p` sub-patterns by fresh bindings; returns the lets to prepend
fn strip_refs(n: &mut Norm, p: &mut Pat, lets: &mut Vec<Stmt>) {
    match p {
        Pat::Reference(r) => {
            let inner = (*r.pat).clone();
            let mut depth = 1;
            let mut inner = inner;
            while let Pat::Reference(r2) = inner {
                depth += 1;
                inner = (*r2.pat).clone();
            }
            let id = n.fresh();
            let mut e: Expr = parse_quote!(#id);
            for _ in 0..depth {
                e = parse_quote!(*#e);
            }
            if !matches!(inner, Pat::Wild(_)) {
                lets.push(parse_quote!(let #inner = #e;));
            }
            *p = parse_quote!(#id);
        }
        Pat::Tuple(t) => t.elems.iter_mut().for_each(|p| strip_refs(n, p, lets)),
        Pat::TupleStruct(t) => t.elems.iter_mut().for_each(|p| strip_refs(n, p, lets)),
        Pat::Struct(t) => t.fields.iter_mut().for_each(|f| strip_refs(n, &mut f.pat, lets)),
        Pat::Paren(t) => strip_refs(n, &mut t.pat, lets),
        _ => {}
    }
}

/// function arguments that are patterns become names plus a let
pub fn arg_patterns(sig: &mut Signature) -> Vec<Stmt> {
    let mut v = vec![];
    for (i, a) in sig.inputs.iter_mut().enumerate() {
        if let FnArg::Typed(t) = a {
            match &*t.pat {
                Pat::Ident(_) => {}
                Pat::Wild(_) => {
                    let id = format_ident!("vx_a{i}");
                    *t.pat = parse_quote!(#id);
                }
                p => {
                    let id = format_ident!("vx_a{i}");
                    let p = p.clone();
                    v.push(parse_quote!(let #p = #id;));
                    *t.pat = parse_quote!(#id);
                }
            }
        }
    }
    v
}

struct HasEscape(bool);
impl<'ast> Visit<'ast> for HasEscape {
    fn visit_expr_try(&mut self, _: &'ast syn::ExprTry) {
        self.0 = true;
    }
    fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_break(&mut self, _: &'ast syn::ExprBreak) {
        self.0 = true;
    }
    fn visit_expr_continue(&mut self, _: &'ast syn::ExprContinue) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
    fn visit_item(&mut self, _: &'ast syn::Item) {}
}

fn escapes(e: &Expr) -> bool {
    let mut h = HasEscape(false);
    h.visit_expr(e);
    h.0
}

/// closure `|p| body` as (pattern, body), or a tuple-struct constructor / enum
/// variant used as a function
enum Callee {
    Closure(Vec<Pat>, Expr),
    Ctor(Path),
    Other,
}

fn callee(e: &Expr) -> Callee {
    match e {
        Expr::Closure(c) if !escapes(&c.body) => {
            let pats = c
                .inputs
                .iter()
                .map(|p| match p {
                    Pat::Type(t) => (*t.pat).clone(),
                    p => p.clone(),
                })
                .collect();
            Callee::Closure(pats, (*c.body).clone())
        }
        Expr::Path(p) if p.qself.is_none() => {
            Callee::Ctor(p.path.clone())
        }
        _ => Callee::Other,
    }
}

fn apply1(n: &mut Norm, c: &Callee) -> Option<(Pat, Expr)> {
    match c {
        Callee::Closure(p, b) if p.len() == 1 => {
            let mut pat = p[0].clone();
            let mut lets = vec![];
            strip_refs(n, &mut pat, &mut lets);
            let b: Expr = if lets.is_empty() { b.clone() } else { parse_quote!({ #(#lets)* #b }) };
            Some((pat, b))
        }
        Callee::Ctor(p) => {
            let id = n.fresh();
            Some((parse_quote!(#id), parse_quote!(#p(#id))))
        }
        _ => None,
    }
}

/// a closure that takes a reference, applied to a reference to `t`
fn by_ref1(n: &mut Norm, f: &Expr, t: &syn::Ident) -> Option<Expr> {
    let Callee::Closure(ps, b) = callee(f) else { return None };
    let [p] = ps.as_slice() else { return None };
    Some(match p {
        Pat::Reference(r) => {
            let mut q = (*r.pat).clone();
            let mut lets = vec![];
            strip_refs(n, &mut q, &mut lets);
            parse_quote!({ let #q = #t; #(#lets)* #b })
        }
        p => parse_quote!({ let #p = &#t; #b }),
    })
}

/// visibly an iterator
fn iterates(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => {
            matches!(m.method.to_string().as_str(), "iter" | "into_iter" | "vx_iter" | "chars" | "bytes" | "keys" | "values" | "char_indices" | "vx_peekable" | "vx_enumerate" | "vx_flatten" | "vx_copied" | "vx_cloned")
                || iterates(&m.receiver)
        }
        Expr::Call(c) => matches!(&*c.func, Expr::Path(p) if p.path.is_ident("vx_iter")),
        Expr::Range(_) => true,
        Expr::Paren(p) => iterates(&p.expr),
        _ => false,
    }
}

/// visibly a Result (an Option is assumed otherwise; where that is wrong the types do not fit)
fn gives_result(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => matches!(m.method.to_string().as_str(), "write" | "write_all" | "write_str" | "write_char" | "write_fmt" | "flush" | "finish" | "fmt" | "map_err" | "ok_or" | "ok_or_else"),
        Expr::Call(c) => matches!(&*c.func, Expr::Path(p) if p.path.segments.last().is_some_and(|s| {
            let n = s.ident.to_string();
            n == "Ok" || n == "Err" || n == "vx_write_arg" || n == "vx_write_std" || (n == "fmt" || n.starts_with("write_")) && p.path.segments.len() > 1
        })),
        Expr::Paren(p) => gives_result(&p.expr),
        Expr::Match(m) => m.arms.iter().any(|a| matches!(&*a.body, Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Ok") || p.path.is_ident("Err")))),
        _ => false,
    }
}

fn is_identity(e: &Expr) -> bool {
    // |&s| s   |s| *s   |s| s
    if let Expr::Closure(c) = e {
        if c.inputs.len() == 1 {
            let (id, refs) = match &c.inputs[0] {
                Pat::Ident(p) => (p.ident.clone(), 0),
                Pat::Reference(r) => match &*r.pat {
                    Pat::Ident(p) => (p.ident.clone(), 1),
                    _ => return false,
                },
                _ => return false,
            };
            let mut b: &Expr = &c.body;
            let mut d = refs;
            while let Expr::Unary(syn::ExprUnary { op: syn::UnOp::Deref(_), expr, .. }) = b {
                d += 1;
                b = expr;
            }
            if d > 1 {
                return false;
            }
            return matches!(b, Expr::Path(p) if p.path.is_ident(&id));
        }
    }
    false
}

/// `SINK.write_fmt(format_args!("{0:SPEC}", VALUE, COUNTS..))`: one value with
/// one standard format spec
fn std_write(recv: &Expr, m: &syn::Macro) -> Option<Expr> {
    let args = m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
    let args: Vec<Expr> = args.into_iter().collect();
    let fmt = match args.first()? {
        Expr::Lit(syn::ExprLit { lit: Lit::Str(s), .. }) => s.value(),
        _ => return None,
    };
    let inner = fmt.strip_prefix('{')?.strip_suffix('}')?;
    if inner.contains(['{', '}']) {
        return None;
    }
    let (arg, spec) = inner.split_once(':').unwrap_or((inner, ""));
    let value = if arg.is_empty() { args.get(1)? } else { args.get(1 + arg.parse::<usize>().ok()?)? };
    let c: Vec<char> = spec.chars().collect();
    let mut i = 0;
    let code = |c: char| match c {
        '<' => Some(1u8),
        '^' => Some(2),
        '>' => Some(3),
        _ => None,
    };
    let (mut fill, mut align) = (' ', 0u8);
    if c.len() > 1 && code(c[1]).is_some() {
        (fill, align) = (c[0], code(c[1])?);
        i = 2;
    } else if !c.is_empty() && code(c[0]).is_some() {
        align = code(c[0])?;
        i = 1;
    }
    let mut sign = 0u8;
    if i < c.len() && (c[i] == '+' || c[i] == '-') {
        sign = if c[i] == '+' { 1 } else { 2 };
        i += 1;
    }
    let alternate = i < c.len() && c[i] == '#';
    i += alternate as usize;
    // `0$` is a width taken from argument 0, not the flag
    let zero = i < c.len() && c[i] == '0' && c.get(i + 1) != Some(&'$');
    i += zero as usize;
    let count = |i: &mut usize| -> Option<Option<Expr>> {
        let s: String = c[*i..].iter().take_while(|c| c.is_ascii_digit()).collect();
        if s.is_empty() {
            return Some(None);
        }
        *i += s.len();
        let n: usize = s.parse().ok()?;
        if c.get(*i) == Some(&'$') {
            *i += 1;
            return Some(Some(args.get(1 + n)?.clone()));
        }
        Some(Some(parse_quote!(#n)))
    };
    let opt = |e: Option<Expr>| -> Expr {
        match e {
            Some(e) => parse_quote!(Some(crate::sp_std::vx_count(&#e))),
            None => parse_quote!(None),
        }
    };
    let width = opt(count(&mut i)?);
    let mut precision: Option<Expr> = None;
    if i < c.len() && c[i] == '.' {
        i += 1;
        precision = Some(count(&mut i)??);
    }
    let precision = opt(precision);
    let (debug, hex) = match c[i..].iter().collect::<String>().as_str() {
        "" => (false, 0u8),
        "?" => (true, 0),
        "x?" => (true, 1),
        "X?" => (true, 2),
        _ => return None,
    };
    Some(parse_quote!({
        let mut vx_sink = #recv;
        crate::sp_std::vx_write_std(&mut vx_sink, crate::sp_std::VxOpts {
            debug: #debug, fill: #fill, align: #align, sign: #sign, alternate: #alternate, zero: #zero,
            width: #width, precision: #precision, hex: #hex,
        }, &#value)
    }))
}

/// when every arm of a match is a `std_write` of the same value to the same
/// sink, the options alone are chosen by the match
/// a match over string literals is the comparisons it stands for
fn str_match(n: &mut Norm, m: &syn::ExprMatch) -> Option<Expr> {
    fn lits(p: &Pat, v: &mut Vec<Expr>) -> bool {
        match p {
            Pat::Lit(l) if matches!(l.lit, Lit::Str(_)) => {
                v.push(Expr::Lit(l.clone()));
                true
            }
            Pat::Or(o) => o.cases.iter().all(|p| lits(p, v)),
            Pat::Paren(q) => lits(&q.pat, v),
            _ => false,
        }
    }
    let (last, arms) = m.arms.split_last()?;
    if arms.is_empty() || last.guard.is_some() {
        return None;
    }
    let t = n.fresh();
    let b = &last.body;
    let mut e: Expr = match &last.pat {
        Pat::Wild(_) => parse_quote!({ #b }),
        Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() => parse_quote!({ let #i = #t; #b }),
        _ => return None,
    };
    for a in arms.iter().rev() {
        let mut v = vec![];
        if a.guard.is_some() || !lits(&a.pat, &mut v) {
            return None;
        }
        let b = &a.body;
        e = parse_quote!(if #(#t == #v)||* { #b } else { #e });
    }
    let s = &m.expr;
    Some(parse_quote!({ let #t: &str = #s; #e }))
}

fn factor_writes(m: &syn::ExprMatch) -> Option<Expr> {
    fn parts(e: &Expr) -> Option<(Expr, Expr, Expr)> {
        let Expr::Block(b) = e else { return None };
        match b.block.stmts.as_slice() {
            [Stmt::Expr(inner, None)] => parts(inner),
            [Stmt::Local(l), Stmt::Expr(Expr::Call(c), None)] => {
                let f = c.func.to_token_stream().to_string().replace(' ', "");
                if f != "crate::sp_std::vx_write_std" {
                    return None;
                }
                Some(((*l.init.as_ref()?.expr).clone(), c.args[1].clone(), c.args[2].clone()))
            }
            _ => None,
        }
    }
    struct Bound(Vec<String>);
    impl<'ast> syn::visit::Visit<'ast> for Bound {
        fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
            self.0.push(p.ident.to_string());
        }
    }
    let ps: Vec<_> = m.arms.iter().map(|a| if a.guard.is_some() { None } else { parts(&a.body) }).collect::<Option<_>>()?;
    if ps.len() < 2 {
        return None;
    }
    let (r, v) = (ps[0].0.to_token_stream(), ps[0].2.to_token_stream());
    let mut bound = Bound(vec![]);
    for a in &m.arms {
        syn::visit::Visit::visit_pat(&mut bound, &a.pat);
    }
    let text = format!(" {r} {v} ");
    if bound.0.iter().any(|b| b != "None" && text.contains(&format!(" {b} "))) {
        return None;
    }
    if ps.iter().any(|p| p.0.to_token_stream().to_string() != r.to_string() || p.2.to_token_stream().to_string() != v.to_string()) {
        return None;
    }
    let s = &m.expr;
    let arms = m.arms.iter().zip(&ps).map(|(a, p)| {
        let (pat, o) = (&a.pat, &p.1);
        quote!(#pat => #o,)
    });
    Some(parse_quote!({
        let vx_opts = match #s { #(#arms)* };
        let mut vx_sink = #r;
        crate::sp_std::vx_write_std(&mut vx_sink, vx_opts, #v)
    }))
}

fn is_const_true(_e: &Expr) -> bool {
    false
}

impl Norm<'_> {
    fn method(&mut self, m: &mut syn::ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let recv = m.receiver.clone();
        let args: Vec<Expr> = m.args.iter().cloned().collect();
        self.calls.push(name.clone());
        match (name.as_str(), args.as_slice()) {
            ("map", [f]) if gives_result(&recv) => {
                let (p, b) = apply1(self, &callee(f))?;
                let t = self.fresh();
                Some(parse_quote!(match #recv { Ok(#p) => Ok(#b), Err(#t) => Err(#t) }))
            }
            ("and_then", [f]) if gives_result(&recv) => {
                let (p, b) = apply1(self, &callee(f))?;
                let t = self.fresh();
                Some(parse_quote!(match #recv { Ok(#p) => #b, Err(#t) => Err(#t) }))
            }
            ("map_or", [d, f]) if gives_result(&recv) => {
                let (p, b) = apply1(self, &callee(f))?;
                let t = self.fresh();
                Some(parse_quote!(match (#recv, #d) { (Ok(#p), _) => #b, (Err(_), #t) => #t }))
            }
            ("map_or_else", [d, f]) if gives_result(&recv) => {
                let (p, b) = apply1(self, &callee(f))?;
                let (q, c) = apply1(self, &callee(d))?;
                Some(parse_quote!(match #recv { Ok(#p) => #b, Err(#q) => #c }))
            }
            ("unwrap_or", [d]) if gives_result(&recv) => {
                let (t, u) = (self.fresh(), self.fresh());
                Some(parse_quote!(match (#recv, #d) { (Ok(#t), _) => #t, (Err(_), #u) => #u }))
            }
            // predicates on what an Option holds
            ("filter", [f]) if !iterates(&recv) => {
                let t = self.fresh();
                let c = by_ref1(self, f, &t)?;
                Some(parse_quote!(match #recv { Some(#t) => if #c { Some(#t) } else { None }, None => None }))
            }
            ("is_some_and", [f]) => {
                let (p, b) = apply1(self, &callee(f))?;
                Some(parse_quote!(match #recv { Some(#p) => #b, None => false }))
            }
            ("is_none_or", [f]) => {
                let (p, b) = apply1(self, &callee(f))?;
                Some(parse_quote!(match #recv { Some(#p) => #b, None => true }))
            }
            ("is_ok_and", [f]) => {
                let (p, b) = apply1(self, &callee(f))?;
                Some(parse_quote!(match #recv { Ok(#p) => #b, Err(_) => false }))
            }
            ("is_err_and", [f]) => {
                let (p, b) = apply1(self, &callee(f))?;
                Some(parse_quote!(match #recv { Err(#p) => #b, Ok(_) => false }))
            }
            ("or_else", [f]) => match callee(f) {
                Callee::Closure(ps, b) if ps.is_empty() => {
                    let t = self.fresh();
                    Some(parse_quote!(match #recv { Some(#t) => Some(#t), None => #b }))
                }
                c @ Callee::Closure(..) => {
                    let (p, b) = apply1(self, &c)?;
                    let t = self.fresh();
                    Some(parse_quote!(match #recv { Ok(#t) => Ok(#t), Err(#p) => #b }))
                }
                _ => None,
            },
            ("map", [f]) => {
                let (p, b) = apply1(self, &callee(f))?;
                Some(parse_quote!(match #recv { Some(#p) => Some(#b), None => None }))
            }
            ("and_then", [f]) => {
                let (p, b) = apply1(self, &callee(f))?;
                Some(parse_quote!(match #recv { Some(#p) => #b, None => None }))
            }
            ("map_or", [d, f]) => {
                let (p, b) = apply1(self, &callee(f))?;
                let t = self.fresh();
                Some(parse_quote!(match (#recv, #d) { (Some(#p), _) => #b, (None, #t) => #t }))
            }
            ("map_or_else", [d, f]) => {
                let (p, b) = apply1(self, &callee(f))?;
                if let Callee::Closure(ps, db) = callee(d) {
                    if ps.is_empty() {
                        return Some(parse_quote!(match #recv { Some(#p) => #b, None => #db }));
                    }
                }
                None
            }
            ("map_err", [f]) => {
                let (p, b) = apply1(self, &callee(f))?;
                let t = self.fresh();
                Some(parse_quote!(match #recv { Ok(#t) => Ok(#t), Err(#p) => Err(#b) }))
            }
            ("unwrap_or_else", [f]) => match callee(f) {
                Callee::Closure(ps, b) if ps.is_empty() => {
                    let t = self.fresh();
                    Some(parse_quote!(match #recv { Some(#t) => #t, None => #b }))
                }
                c @ Callee::Closure(..) => {
                    let (p, b) = apply1(self, &c)?;
                    let t = self.fresh();
                    Some(parse_quote!(match #recv { Ok(#t) => #t, Err(#p) => #b }))
                }
                _ => None,
            },
            ("ok_or_else", [f]) => match callee(f) {
                Callee::Closure(ps, b) if ps.is_empty() => {
                    let t = self.fresh();
                    Some(parse_quote!(match #recv { Some(#t) => Ok(#t), None => Err(#b) }))
                }
                _ => None,
            },
            ("then", [f]) => match callee(f) {
                Callee::Closure(ps, b) if ps.is_empty() => Some(parse_quote!(if #recv { Some(#b) } else { None })),
                _ => None,
            },
            ("then_some", [v]) => {
                let t = self.fresh();
                Some(parse_quote!({ let #t = #v; if #recv { Some(#t) } else { None } }))
            }
            ("unwrap_or", [d]) => {
                let (t, u) = (self.fresh(), self.fresh());
                Some(parse_quote!(match (#recv, #d) { (Some(#t), _) => #t, (None, #u) => #u }))
            }
            ("filter_map", [f]) if is_identity(f) => Some(parse_quote!(#recv.vx_flatten())),
            ("flatten", []) => Some(parse_quote!(#recv.vx_flatten())),
            ("iter", []) => Some(parse_quote!(#recv.vx_iter())),
            ("into_iter", []) => Some(parse_quote!(vx_iter(#recv))),
            ("peekable" | "copied" | "cloned" | "enumerate" | "skip" | "chain" | "rev" | "by_ref" | "encode_utf8", _) => {
                if name == "by_ref" || name == "skip" || name == "chain" || name == "rev" {
                    return None;
                }
                let id = format_ident!("vx_{}", name);
                let a = &m.args;
                Some(parse_quote!(#recv.#id(#a)))
            }
            ("unzip", []) => Some(parse_quote!(#recv.vx_unzip())),
            ("replace", [a, b]) => Some(parse_quote!(#recv.vx_replace(#a, #b))),
            ("into", []) if matches!(&*recv, Expr::MethodCall(c) if c.method == "into_token_stream") => Some((*recv).clone()),
            ("unwrap_or_default", []) => Some(parse_quote!(#recv.vx_unwrap_or_default())),
            ("write_fmt", [Expr::Macro(a)]) if a.mac.path.segments.last().is_some_and(|s| s.ident == "format_args") => std_write(&recv, &a.mac),
            ("parse", []) if m.turbofish.as_ref().is_some_and(|t| t.args.to_token_stream().to_string() == "usize") => Some(parse_quote!(crate::vxnom::usize_from_str(#recv))),
            ("expect", [_]) => Some(parse_quote!(#recv.unwrap())),
            _ => None,
        }
    }

    fn write_macro(&mut self, m: &syn::Macro) -> Option<Expr> {
        let args = m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
        let mut it = args.into_iter();
        let w = it.next()?;
        let fmt = match it.next()? {
            Expr::Lit(syn::ExprLit { lit: Lit::Str(s), .. }) => s.value(),
            _ => return None,
        };
        let rest: Vec<Expr> = it.collect();
        // pieces
        enum P {
            L(String),
            A(Expr),
        }
        let mut v: Vec<P> = vec![];
        let mut cur = String::new();
        let mut cs = fmt.chars().peekable();
        let mut next = 0;
        while let Some(c) = cs.next() {
            match c {
                '{' if cs.peek() == Some(&'{') => {
                    cs.next();
                    cur.push('{');
                }
                '}' if cs.peek() == Some(&'}') => {
                    cs.next();
                    cur.push('}');
                }
                '{' => {
                    let mut inner = String::new();
                    for c in cs.by_ref() {
                        if c == '}' {
                            break;
                        }
                        inner.push(c);
                    }
                    if !cur.is_empty() {
                        v.push(P::L(std::mem::take(&mut cur)));
                    }
                    let e: Expr = if inner.is_empty() {
                        next += 1;
                        rest.get(next - 1)?.clone()
                    } else if let Ok(i) = inner.parse::<usize>() {
                        rest.get(i)?.clone()
                    } else {
                        let id = syn::parse_str::<Ident>(&inner).ok()?;
                        let named = rest.iter().find_map(|e| match e {
                            Expr::Assign(a) if a.left.to_token_stream().to_string() == inner => Some((*a.right).clone()),
                            _ => None,
                        });
                        named.unwrap_or_else(|| parse_quote!(#id))
                    };
                    v.push(P::A(e));
                }
                c => cur.push(c),
            }
        }
        if !cur.is_empty() {
            v.push(P::L(cur));
        }
        let place: Expr = match &w {
            Expr::Field(_) => parse_quote!(&mut #w),
            Expr::Path(_) => parse_quote!(&mut *#w),
            Expr::Unary(_) => parse_quote!(&mut #w),
            Expr::Reference(_) => w.clone(),
            _ => return None,
        };
        let mut r: Option<Expr> = None;
        for p in v.into_iter().rev() {
            let step: Expr = match p {
                P::L(s) => {
                    let b = s.into_bytes();
                    let n = format_ident!("str_{}", b.iter().map(|b| format!("{b:02x}")).collect::<String>());
                    self.lits.insert(b);
                    parse_quote!(crate::shim::fmt::vx_write_lit(#place, crate::vx_lits::#n()))
                }
                P::A(e) => parse_quote!(crate::shim::fmt::vx_write_arg(#place, &#e)),
            };
            r = Some(match r {
                None => step,
                Some(rest) => parse_quote!(match #step { Ok(()) => #rest, Err(vx_e) => Err(vx_e) }),
            });
        }
        Some(r.unwrap_or_else(|| parse_quote!(Ok(()))))
    }

    fn macro_expr(&mut self, m: &syn::Macro) -> Option<Expr> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        match name.as_str() {
            "write" => self.write_macro(m),
            "matches" => {
                struct M(Expr, Pat, Option<Expr>);
                impl syn::parse::Parse for M {
                    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                        let e = i.parse()?;
                        i.parse::<Token![,]>()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(Token![if]) {
                            i.parse::<Token![if]>()?;
                            Some(i.parse()?)
                        } else {
                            None
                        };
                        let _ = i.parse::<Option<Token![,]>>()?;
                        Ok(M(e, p, g))
                    }
                }
                let M(e, p, g) = m.parse_body().ok()?;
                let g = g.map(|g| quote!(if #g));
                Some(parse_quote!(match #e { #p #g => true, _ => false }))
            }
            "quote" => crate::quote::lower(m.tokens.clone(), &self.quotes),
            "parse_quote" => {
                let q = crate::quote::lower(m.tokens.clone(), &self.quotes)?;
                Some(parse_quote!(crate::vxq::parse_path(#q)))
            }
            "Token" => {
                let n = token_name(&m.tokens)?;
                Some(parse_quote!(crate::vxsyn::#n))
            }
            "parse_macro_input" => {
                let e: syn::ExprCast = m.parse_body().ok()?;
                let (x, t) = (e.expr, e.ty);
                Some(parse_quote!(match crate::vxsyn::macro_input::<#t>(#x) { Ok(vx_input) => vx_input, Err(vx_error) => { return vx_error; } }))
            }
            "unreachable" | "panic" | "todo" | "unimplemented" => Some(parse_quote!(crate::shim::vx_never())),
            "assert" | "debug_assert" => {
                let a = m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
                let c = a.first()?;
                Some(parse_quote!(crate::shim::vx_assert(#c)))
            }
            "assert_eq" | "debug_assert_eq" => {
                let a = m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
                let (x, y) = (a.first()?, a.iter().nth(1)?);
                Some(parse_quote!(crate::shim::vx_assert(#x == #y)))
            }
            "format" => {
                // the crate's own format!("{:s}", self)
                let a = m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
                let mut it = a.iter();
                match it.next()? {
                    Expr::Lit(syn::ExprLit { lit: Lit::Str(s), .. }) if s.value() == "{:s}" => {}
                    _ => return None,
                }
                let e = it.next()?;
                let k = format_ident!("{}", self.u.module);
                if it.next().is_some() {
                    return None;
                }
                Some({ let _ = k; parse_quote!(format(vx_args_s(#e))) })
            }
            _ => None,
        }
    }
}

/// `let x = quote!(..)`, with nothing in it bound again behind it
fn template(s: &Stmt, rest: &[Stmt]) -> Option<(Ident, TokenStream)> {
    let Stmt::Local(l) = s else { return None };
    let Pat::Ident(syn::PatIdent { ident, mutability: None, by_ref: None, .. }) = &l.pat else { return None };
    let mut e = &*l.init.as_ref()?.expr;
    while let Expr::Paren(p) = e {
        e = &p.expr;
    }
    let Expr::Macro(m) = e else { return None };
    if !m.mac.path.is_ident("quote") {
        return None;
    }
    struct B(BTreeSet<String>);
    impl<'ast> Visit<'ast> for B {
        fn visit_pat_ident(&mut self, i: &'ast syn::PatIdent) {
            self.0.insert(i.ident.to_string());
            syn::visit::visit_pat_ident(self, i);
        }
        fn visit_expr_assign(&mut self, a: &'ast syn::ExprAssign) {
            self.0.insert(a.left.to_token_stream().to_string());
            syn::visit::visit_expr_assign(self, a);
        }
        fn visit_expr_reference(&mut self, r: &'ast syn::ExprReference) {
            if r.mutability.is_some() {
                self.0.insert(r.expr.to_token_stream().to_string());
            }
            syn::visit::visit_expr_reference(self, r);
        }
    }
    let mut b = B(Default::default());
    for s in rest {
        b.visit_stmt(s);
    }
    let t = m.mac.tokens.clone();
    let n = t.to_string();
    if b.0.contains(&ident.to_string()) || n.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| b.0.contains(w)) {
        return None;
    }
    Some((ident.clone(), t))
}

/// the type that stands for `Token![..]`
fn token_name(t: &TokenStream) -> Option<Ident> {
    Some(format_ident!("{}", match t.to_string().as_str() {
        "crate" => "Crate",
        "=" => "Eq",
        "," => "Comma",
        ";" => "Semi",
        ":" => "Colon",
        _ => return None,
    }))
}

/// `const X: &str = ".."` and the like, for each use of X
#[derive(Default)]
pub struct Consts {
    pub known: std::collections::BTreeMap<String, Option<Expr>>,
    pub collect: bool,
}
impl Consts {
    /// is it one of those
    fn take(&mut self, id: &Ident, ty: &Type, e: &Expr) -> bool {
        let t = ty.to_token_stream().to_string();
        let t = t.replace("'static", "").replace(' ', "");
        let ok = match e {
            Expr::Lit(l) => matches!(l.lit, Lit::Str(_)) && t == "&str" || matches!(l.lit, Lit::ByteStr(_)) && t.starts_with("&[u8"),
            _ => false,
        };
        if ok && self.collect {
            self.known.entry(id.to_string()).and_modify(|x| *x = None).or_insert(Some(e.clone()));
        }
        ok && self.known.get(&id.to_string()).is_some_and(|x| x.is_some())
    }
}
impl VisitMut for Consts {
    fn visit_file_mut(&mut self, f: &mut syn::File) {
        f.items.retain(|i| !matches!(i, syn::Item::Const(c) if self.take(&c.ident, &c.ty, &c.expr) && !self.collect));
        visit_mut::visit_file_mut(self, f);
    }
    fn visit_item_mod_mut(&mut self, m: &mut syn::ItemMod) {
        if let Some((_, v)) = &mut m.content {
            v.retain(|i| !matches!(i, syn::Item::Const(c) if self.take(&c.ident, &c.ty, &c.expr) && !self.collect));
        }
        visit_mut::visit_item_mod_mut(self, m);
    }
    fn visit_item_impl_mut(&mut self, i: &mut syn::ItemImpl) {
        if i.trait_.is_none() {
            i.items.retain(|i| !matches!(i, syn::ImplItem::Const(c) if self.take(&c.ident, &c.ty, &c.expr) && !self.collect));
        }
        visit_mut::visit_item_impl_mut(self, i);
    }
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        b.stmts.retain(|s| !matches!(s, Stmt::Item(syn::Item::Const(c)) if self.take(&c.ident, &c.ty, &c.expr) && !self.collect));
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.qself.is_none() && !self.collect {
                if let Some(Some(x)) = p.path.segments.last().and_then(|s| self.known.get(&s.ident.to_string())) {
                    *e = x.clone();
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// what the compiler drops before anything else
pub struct CfgStrip;
impl VisitMut for CfgStrip {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        b.stmts.retain(|s| match s {
            Stmt::Local(l) => crate::emit::cfg_on(&l.attrs),
            Stmt::Macro(m) => crate::emit::cfg_on(&m.attrs),
            Stmt::Expr(Expr::Block(e), _) => crate::emit::cfg_on(&e.attrs),
            Stmt::Expr(Expr::If(e), _) => crate::emit::cfg_on(&e.attrs),
            Stmt::Expr(Expr::MethodCall(e), _) => crate::emit::cfg_on(&e.attrs),
            Stmt::Expr(Expr::Call(e), _) => crate::emit::cfg_on(&e.attrs),
            _ => true,
        });
        visit_mut::visit_block_mut(self, b);
    }
}

impl Norm<'_> {
    /// `let x: C = s.into_iter().map(f).enumerate().map(g).collect()` as a loop
    fn collect(&mut self, ty: &Type, e: &Expr) -> Option<Expr> {
        let Type::Path(tp) = ty else { return None };
        let c = tp.path.segments.last()?.ident.to_string();
        let Expr::MethodCall(m) = e else { return None };
        if m.method != "collect" {
            return None;
        }
        let mut maps = vec![]; // innermost first
        let mut numbered = None;
        let mut cur = (*m.receiver).clone();
        loop {
            let Expr::MethodCall(m) = &cur else { break };
            match (m.method.to_string().as_str(), m.args.len()) {
                ("map", 1) => {
                    let cl = callee(&m.args[0]);
                    if !matches!(&cl, Callee::Closure(p, _) if p.len() == 1) {
                        return None;
                    }
                    maps.insert(0, cl);
                }
                ("enumerate", 0) if numbered.is_none() => numbered = Some(maps.len()),
                _ => break,
            }
            cur = (*m.receiver).clone();
        }
        if maps.is_empty() {
            return None;
        }
        // how many maps come before the numbering
        let before = numbered.map(|after| maps.len() - after);
        let (i, x) = (self.fresh(), self.fresh());
        let mut body: Expr = parse_quote!(#x);
        for (k, f) in maps.iter().enumerate() {
            if before == Some(k) {
                body = parse_quote!((#i, #body));
            }
            let Callee::Closure(p, b) = f else { return None };
            let p = &p[0];
            body = parse_quote!({ let #p = #body; #b });
        }
        if before == Some(maps.len()) {
            body = parse_quote!((#i, #body));
        }
        let out = format_ident!("vx_out");
        let (new, put): (Expr, Stmt) = match c.as_str() {
            "Vec" => (parse_quote!(Vec::new()), parse_quote!(#out.push(#body);)),
            "HashMap" => (parse_quote!(crate::shim_macros::collections::HashMap::new()), {
                let (k, v) = (self.fresh(), self.fresh());
                parse_quote!({ let (#k, #v) = #body; #out.insert(#k, #v); })
            }),
            "HashSet" => (parse_quote!(crate::shim_macros::collections::HashSet::new()), parse_quote!({ #out.insert(#body); })),
            _ => return None,
        };
        let (pat, src): (Pat, Expr) = match before {
            Some(_) => (parse_quote!((#i, #x)), parse_quote!(#cur.enumerate())),
            None => (parse_quote!(#x), cur),
        };
        Some(parse_quote!({ let mut #out: #ty = #new; for #pat in #src { #put } #out }))
    }
}

struct Subst<'a>(&'a syn::Ident, &'a Expr, bool);
impl VisitMut for Subst<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Path(p) if p.path.is_ident(self.0) => {
                let x = self.1;
                *e = parse_quote!((#x));
            }
            // `&mut parser` is the parser
            Expr::Reference(r) if matches!(&*r.expr, Expr::Path(p) if p.path.is_ident(self.0)) => {
                let x = self.1;
                *e = parse_quote!((#x));
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
    fn visit_pat_ident_mut(&mut self, i: &mut syn::PatIdent) {
        let x = self.1.to_token_stream().to_string();
        self.2 |= i.ident == *self.0 || x.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| i.ident == w);
    }
}

impl Norm<'_> {
    /// a parser that is only given a name is put where the name is used
    fn named_parsers(&self, stmts: &mut Vec<Stmt>) {
        let c = crate::comb::Comb { imports: &self.nom, n: 0 };
        let mut k = 0;
        while k < stmts.len() {
            let found = match &stmts[k] {
                Stmt::Local(syn::Local { pat: Pat::Ident(i), init: Some(x), .. }) if i.subpat.is_none() && x.diverge.is_none() && c.is_parser(&x.expr) => Some((i.ident.clone(), (*x.expr).clone())),
                _ => None,
            };
            if let Some((id, x)) = found {
                let mut s = Subst(&id, &x, false);
                let mut rest = stmts[k + 1..].to_vec();
                rest.iter_mut().for_each(|t| s.visit_stmt_mut(t));
                if !s.2 {
                    stmts.truncate(k);
                    stmts.extend(rest);
                    continue;
                }
            }
            k += 1;
        }
    }
}

impl VisitMut for Norm<'_> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        let args: Vec<_> = p.segments.iter().map(|s| s.arguments.clone()).collect();
        let mut v: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let before = v.clone();
        if v.first().map(|s| s == "crate") == Some(true) && v.get(1).map(|s| s == "shim" || s == "shim_macros" || s == "sp" || s == "vx_lits" || s == "vxnom" || s == "vxq" || s == "vxsyn" || s == "vxq_lits") == Some(true) {
            return;
        }
        rename_segments(&mut v, self.units, self.u);
        if v != before {
            let mut q: Path = syn::parse_str(&v.join("::")).unwrap();
            // generic arguments sit on the trailing segments
            let n = q.segments.len();
            let k = args.len();
            for (i, a) in args.into_iter().enumerate() {
                if k - i <= n {
                    q.segments[n - (k - i)].arguments = a;
                }
            }
            *p = q;
        }
    }

    fn visit_attribute_mut(&mut self, _: &mut syn::Attribute) {}

    /// syn's stream is shared and changes inside; here it is borrowed mutably
    fn visit_type_mut(&mut self, t: &mut Type) {
        match t {
            Type::Path(p) if p.path.segments.last().is_some_and(|s| s.ident == "ParseStream") => *t = parse_quote!(&mut crate::vxsyn::ParseBuffer),
            Type::Macro(m) if m.mac.path.is_ident("Token") => {
                if let Some(n) = token_name(&m.mac.tokens) {
                    *t = parse_quote!(crate::vxsyn::#n);
                }
            }
            _ => visit_mut::visit_type_mut(self, t),
        }
    }

    fn visit_item_mut(&mut self, i: &mut syn::Item) {
        if let syn::Item::Use(_) = i {
            return;
        }
        visit_mut::visit_item_mut(self, i);
    }

    fn visit_signature_mut(&mut self, s: &mut Signature) {
        visit_mut::visit_signature_mut(self, s);
        for a in s.inputs.iter_mut() {
            match a {
                FnArg::Typed(t) => t.attrs.clear(),
                FnArg::Receiver(r) => r.attrs.clear(),
            }
        }
    }

    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let mut out = vec![];
        let quotes = self.quotes.len();
        let mut stmts = std::mem::take(&mut b.stmts);
        self.named_parsers(&mut stmts);
        let templates: Vec<Option<(Ident, TokenStream)>> = (0..stmts.len()).map(|i| template(&stmts[i], &stmts[i + 1..])).collect();
        for (mut s, template) in stmts.into_iter().zip(templates) {
            self.quotes.extend(template);
            match &mut s {
                Stmt::Local(l) => {
                    l.attrs.clear();
                    if let (Pat::Type(t), Some(i)) = (&l.pat, &mut l.init) {
                        if let Some(e) = self.collect(&t.ty, &i.expr) {
                            *i.expr = e;
                        }
                    }
                    self.visit_pat_mut(&mut l.pat);
                    if let Some(i) = &mut l.init {
                        self.visit_expr_mut(&mut i.expr);
                        if let Some((_, e)) = &mut i.diverge {
                            self.visit_expr_mut(e);
                        }
                    }
                    let mut lets = vec![];
                    // let &P = e  =>  let P = *e
                    if let (Pat::Reference(r), Some(i)) = (&l.pat, &mut l.init) {
                        let e = &i.expr;
                        let inner = (*r.pat).clone();
                        *i.expr = parse_quote!(*#e);
                        l.pat = inner;
                    }
                    strip_refs(self, &mut l.pat, &mut lets);
                    out.push(s);
                    out.extend(lets);
                }
                Stmt::Macro(m) => {
                    let e = Expr::Macro(syn::ExprMacro { attrs: vec![], mac: m.mac.clone() });
                    let mut e2 = e;
                    self.visit_expr_mut(&mut e2);
                    out.push(Stmt::Expr(e2, m.semi_token));
                }
                // `use core::fmt::Write;` in a body only brings methods into scope
                Stmt::Item(syn::Item::Use(u)) if u.tree.to_token_stream().to_string().replace(' ', "") == "core::fmt::Write" => {}
                Stmt::Item(syn::Item::Use(_)) => {
                    self.problems.push("local use".into());
                    out.push(s);
                }
                _ => {
                    visit_mut::visit_stmt_mut(self, &mut s);
                    out.push(s);
                }
            }
        }
        // a template that every use took the place of
        for (x, _) in self.quotes.split_off(quotes) {
            let Some(i) = out.iter().position(|s| matches!(s, Stmt::Local(syn::Local { pat: Pat::Ident(p), .. }) if p.ident == x)) else { continue };
            let rest: String = out[i + 1..].iter().map(|s| s.to_token_stream().to_string()).collect::<Vec<_>>().join(" ");
            if crate::quote::substituted(&x) && !rest.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| x == w) {
                out.remove(i);
            }
        }
        b.stmts = out;
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Match(m) = e {
            if let Some(r) = str_match(self, m) {
                *e = r;
            }
        }
        // nom's combinators, applied
        let mut c = crate::comb::Comb { imports: &self.nom, n: self.combs };
        if let Some(r) = c.applied(e, self.applied) {
            self.combs = c.n;
            self.applied += 1;
            *e = r;
        }
        // loops are numbered in source order, so before their children
        let idx = match e {
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => {
                self.loops.push(String::new());
                Some(self.loops.len() - 1)
            }
            _ => None,
        };
        if let Expr::Macro(m) = e {
            if let Some(mut r) = self.macro_expr(&m.mac.clone()) {
                // arguments still need normalising
                visit_mut::visit_expr_mut(self, &mut r);
                self.after(&mut r, None);
                *e = r;
                return;
            }
        }
        // the range of an index is not a value
        if let Expr::Index(ix) = e {
            if let Expr::Range(r) = &mut *ix.index {
                self.visit_expr_mut(&mut ix.expr);
                if let Some(a) = &mut r.start {
                    self.visit_expr_mut(a);
                }
                if let Some(b) = &mut r.end {
                    self.visit_expr_mut(b);
                }
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
        self.after(e, idx);
    }
}

impl Norm<'_> {
    fn after(&mut self, e: &mut Expr, idx: Option<usize>) {
        let new: Option<Expr> = match e {
            Expr::MethodCall(m) => self.method(m),
            // calling a closure held in a field
            Expr::Call(c) if matches!(&*c.func, Expr::Paren(p) if matches!(&*p.expr, Expr::Field(_))) => {
                let Expr::Paren(p) = &*c.func else { unreachable!() };
                let Expr::Field(f) = &*p.expr else { unreachable!() };
                let (base, args) = (&f.base, &c.args);
                let n = format_ident!("vx_call_{}", f.member.to_token_stream().to_string());
                Some(parse_quote!(#base.#n(#args)))
            }
            // a panicking constructor
            Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if p.path.to_token_stream().to_string().replace(' ', "").ends_with("Ident::new_raw")) => {
                let a = &c.args;
                Some(parse_quote!(crate::vxq::Ident::vx_new_raw(#a).unwrap()))
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    self.calls.push(p.path.segments.last().unwrap().ident.to_string());
                    let n = p.path.segments.len();
                    if n >= 2 && p.path.segments[n - 1].ident == "new" && p.path.segments[n - 2].ident == "Formatter" {
                        if let Some(a) = c.args.first_mut() {
                            *a = parse_quote!(crate::core_::formatter::vx_unsize(#a));
                        }
                    }
                }
                None
            }
            Expr::Path(p) if p.path.to_token_stream().to_string().replace(' ', "") == "usize::from_str" => Some(parse_quote!(crate::vxnom::usize_from_str)),
            Expr::Path(p) => {
                let l = p.path.segments.last().unwrap().ident.to_string();
                if p.path.segments.len() > 1 && l.starts_with(|c: char| c.is_lowercase()) {
                    self.calls.push(l);
                }
                None
            }
            Expr::Lit(l) => match &l.lit {
                Lit::Str(s) => {
                    let b = s.value().into_bytes();
                    let n = format_ident!("str_{}", b.iter().map(|b| format!("{b:02x}")).collect::<String>());
                    self.lits.insert(b);
                    Some(parse_quote!(crate::vx_lits::#n()))
                }
                Lit::ByteStr(b) => {
                    let v = b.value();
                    let n = format_ident!("bytes_{}", v.iter().map(|b| format!("{b:02x}")).collect::<String>());
                    self.blits.insert(v);
                    Some(parse_quote!(crate::vx_lits::#n()))
                }
                _ => None,
            },
            Expr::Match(m) => {
                if let Some(e2) = factor_writes(m) {
                    *e = e2;
                    return;
                }
                for a in &mut m.arms {
                    a.attrs.clear();
                    let mut lets = vec![];
                    strip_refs(self, &mut a.pat, &mut lets);
                    if !lets.is_empty() {
                        if let Some((_, g)) = &mut a.guard {
                            **g = parse_quote!({ #(#lets)* #g });
                        }
                        let b = &a.body;
                        *a.body = parse_quote!({ #(#lets)* #b });
                    }
                }
                None
            }
            Expr::If(i) => {
                if let Expr::Let(l) = &mut *i.cond {
                    let mut lets = vec![];
                    strip_refs(self, &mut l.pat, &mut lets);
                    for (n, s) in lets.into_iter().enumerate() {
                        i.then_branch.stmts.insert(n, s);
                    }
                }
                None
            }
            Expr::Reference(r) => {
                // &e[a..b]
                if let Expr::Index(ix) = &*r.expr {
                    if let Expr::Range(rg) = &*ix.index {
                        let b = &ix.expr;
                        match (&rg.start, &rg.end, &rg.limits) {
                            (Some(s), Some(t), syn::RangeLimits::HalfOpen(_)) => Some(parse_quote!(#b.vx_slice(#s, #t))),
                            (Some(s), None, _) => Some(parse_quote!(#b.vx_slice_from(#s))),
                            (None, Some(t), syn::RangeLimits::HalfOpen(_)) => Some(parse_quote!(#b.vx_slice_to(#t))),
                            _ => None,
                        }
                    } else {
                        None
                    }
                } else {
                    None
                }
            }
            Expr::Range(r) => match (&r.start, &r.end, &r.limits) {
                (Some(a), Some(b), syn::RangeLimits::HalfOpen(_)) => Some(parse_quote!(crate::shim::vx_range(#a, #b))),
                _ => None,
            },
            Expr::Binary(b) => match (&b.op, &*b.left, &*b.right) {
                (syn::BinOp::Sub(_), l @ Expr::Reference(_), r @ Expr::Reference(_)) => Some(parse_quote!(crate::shim_macros::collections::difference(#l, #r))),
                (syn::BinOp::Add(_), l, r) if r.to_token_stream().to_string().contains("vx_lits :: str_") => Some(parse_quote!(crate::shim_macros::vx_str_add(#l, #r))),
                _ => None,
            },
            Expr::While(w) => {
                let n = idx.unwrap();
                let cond = &mut *w.cond;
                let mut many = None;
                if let Expr::Call(c) = &*cond {
                    if c.func.to_token_stream().to_string() == "vx_comb_many" {
                        let a: Vec<String> = c.args.iter().map(|a| a.to_token_stream().to_string()).collect();
                        many = Some((a.join("|"), c.args[2].clone()));
                    }
                }
                if let Some((_, go)) = &many {
                    *cond = go.clone();
                }
                let mut lets = vec![];
                let mut itn = String::new();
                let mut patn = String::new();
                if let Expr::Let(l) = cond {
                    strip_refs(self, &mut l.pat, &mut lets);
                    if let Expr::MethodCall(m) = &*l.expr {
                        if m.method == "next" {
                            itn = m.receiver.to_token_stream().to_string();
                        }
                    }
                    patn = match &*l.pat {
                        Pat::TupleStruct(t) if !itn.is_empty() && t.path.is_ident("Some") && t.elems.len() == 1 => t.elems[0].to_token_stream().to_string(),
                        p => p.to_token_stream().to_string(),
                    };
                }
                self.loops[n] = match many {
                    Some((names, _)) => names,
                    None => format!("{itn}|{patn}").replace(',', ";"),
                };
                let (mk, mke, mkb) = markers(n);
                let label = &w.label;
                let stmts = close(&w.body.stmts);
                let cond = &w.cond;
                Some(Expr::Verbatim(quote!(#label while #cond #mk { #(#lets)* #mkb #(#stmts)* #mke })))
            }
            Expr::Loop(l) => {
                let n = idx.unwrap();
                let (mk, mke, mkb) = markers(n);
                let label = &l.label;
                let stmts = close(&l.body.stmts);
                Some(Expr::Verbatim(quote!(#label loop #mk { #mkb #(#stmts)* #mke })))
            }
            Expr::ForLoop(f) => {
                let n = idx.unwrap();
                let mut lets = vec![];
                strip_refs(self, &mut f.pat, &mut lets);
                let it = format_ident!("vx_it{}", n);
                let into = last_put(&f.body).map_or("vx_out".to_string(), |i| i.to_string());
                self.loops[n] = format!("{it}|{}||{into}", f.pat.to_token_stream()).replace(',', ";");
                let (mk, mke, mkb) = markers(n);
                let label = &f.label;
                let stmts = close(&f.body.stmts);
                let (pat, ex) = (&f.pat, &f.expr);
                Some(Expr::Verbatim(
                    quote!({ let mut #it = vx_iter(#ex); #label while let Some(#pat) = #it.next() #mk { #(#lets)* #mkb #(#stmts)* #mke } }),
                ))
            }
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
        let _ = is_const_true;
    }
}

/// the variable a loop's last step adds to
fn last_put(b: &syn::Block) -> Option<Ident> {
    match b.stmts.last()? {
        Stmt::Expr(Expr::MethodCall(m), _) if m.method == "push" || m.method == "insert" => match &*m.receiver {
            Expr::Path(p) => p.path.get_ident().cloned(),
            _ => None,
        },
        Stmt::Expr(Expr::Block(b), _) => last_put(&b.block),
        _ => None,
    }
}

fn markers(n: usize) -> (Ident, Ident, Ident) {
    (format_ident!("__vx_loop_{n}"), format_ident!("__vx_loop_{n}_end"), format_ident!("__vx_loop_{n}_begin"))
}

/// make sure the last statement ends so that a proof block can follow
fn close(stmts: &[Stmt]) -> Vec<TokenStream> {
    let n = stmts.len();
    stmts
        .iter()
        .enumerate()
        .map(|(i, s)| match s {
            Stmt::Expr(e, None) if i + 1 == n => quote!(#e;),
            s => s.to_token_stream(),
        })
        .collect()
}

pub fn replace_marker(ts: TokenStream, name: &str, with: &TokenStream) -> TokenStream {
    let mut o = TokenStream::new();
    for t in ts {
        match t {
            TokenTree::Ident(ref i) if i == name => o.extend(with.clone()),
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), replace_marker(g.stream(), name, with));
                n.set_span(g.span());
                o.extend([TokenTree::Group(n)]);
            }
            t => o.extend([t]),
        }
    }
    o
}

/// `self` -> `self_`, `Self` -> `Self_` (bodies of default trait methods)
pub struct RenameSelf(pub bool);
impl VisitMut for RenameSelf {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if i == "self" {
            *i = Ident::new("self_", i.span());
        } else if self.0 && i == "Self" {
            *i = Ident::new("Self_", i.span());
        }
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        fn go(ts: TokenStream, ty: bool) -> TokenStream {
            ts.into_iter()
                .map(|t| match t {
                    TokenTree::Ident(i) if i == "self" => TokenTree::Ident(Ident::new("self_", i.span())),
                    TokenTree::Ident(i) if ty && i == "Self" => TokenTree::Ident(Ident::new("Self_", i.span())),
                    TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), go(g.stream(), ty))),
                    t => t,
                })
                .collect()
        }
        m.tokens = go(std::mem::take(&mut m.tokens), self.0);
    }
    fn visit_receiver_mut(&mut self, _: &mut syn::Receiver) {}
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if crate::emit::is_self(p) {
            return;
        }
        visit_mut::visit_pat_mut(self, p);
    }
}

#[derive(Default)]
pub struct Scan {
    pub loops: usize,
    pub calls: Vec<String>,
}
impl<'ast> Visit<'ast> for Scan {
    fn visit_expr(&mut self, e: &'ast Expr) {
        match e {
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => self.loops += 1,
            Expr::Verbatim(t) => {
                if t.to_string().contains("__vx_loop_") {
                    self.loops += 1;
                }
            }
            Expr::MethodCall(m) => self.calls.push(m.method.to_string()),
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    self.calls.push(p.path.segments.last().unwrap().ident.to_string());
                }
            }
            _ => {}
        }
        syn::visit::visit_expr(self, e);
    }
}

#[allow(dead_code)]
fn unused(_: Type) {}
