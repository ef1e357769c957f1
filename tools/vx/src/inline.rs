//! Calls to the crate's own helper functions that carry no contract are
//! replaced by the helper's body, where that is plain substitution: a
//! function extracted from a contracted one is verified as part of it.
use std::collections::{BTreeMap, BTreeSet};

use quote::{format_ident, ToTokens};
use syn::{parse_quote, visit::Visit, visit_mut::VisitMut, Block, Expr, FnArg, Pat, ReturnType, Signature, Stmt, Type};

#[derive(Clone)]
pub struct Helper {
    pub key: String,
    pub module: String,
    pub owner: String, // type it belongs to, empty for a free function
    pub own_type: Option<Type>, // that type, where it can be written without parameters
    pub sig: Signature,
    pub block: Block,
}
pub type Helpers = BTreeMap<String, Vec<Helper>>; // by name

pub struct Inliner<'a> {
    pub helpers: &'a Helpers,
    pub used: BTreeSet<String>,
    pub module: String,
    pub owner: String,
    pub self_ref: bool, // the function's own receiver is a reference
    pub ret: String,
    pub depth: usize,
    pub n: usize,
}

#[derive(Default)]
struct Exits {
    returns: bool,
    tries: bool,
    bare_self: bool,
    other: bool, // awaits, macros that hide control flow
    ok_return: bool,
}
impl<'ast> Visit<'ast> for Exits {
    fn visit_expr_return(&mut self, r: &'ast syn::ExprReturn) {
        self.returns = true;
        let err = matches!(r.expr.as_deref(), Some(Expr::Call(c)) if c.func.to_token_stream().to_string() == "Err");
        self.ok_return |= !err;
        syn::visit::visit_expr_return(self, r);
    }
    fn visit_expr_try(&mut self, t: &'ast syn::ExprTry) {
        self.tries = true;
        syn::visit::visit_expr_try(self, t);
    }
    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
        // exits inside leave the closure only; uses of self still count
        let mut e = Exits::default();
        syn::visit::visit_expr_closure(&mut e, c);
        self.bare_self |= e.bare_self;
    }
    fn visit_expr_field(&mut self, f: &'ast syn::ExprField) {
        if !is_self(&f.base) {
            syn::visit::visit_expr_field(self, f);
        }
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        if !is_self(&m.receiver) {
            self.visit_expr(&m.receiver);
        }
        for a in &m.args {
            self.visit_expr(a);
        }
    }
    fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
        self.bare_self |= p.path.is_ident("self");
    }
    fn visit_expr_await(&mut self, _: &'ast syn::ExprAwait) {
        self.other = true;
    }
    fn visit_item(&mut self, _: &'ast syn::Item) {
        self.other = true;
    }
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        let t = m.tokens.to_string();
        self.tries |= t.contains('?');
        self.bare_self |= t.split(|c: char| !c.is_alphanumeric() && c != '_' && c != '.').any(|w| w == "self");
    }
}
fn is_self(e: &Expr) -> bool {
    matches!(e, Expr::Path(p) if p.path.is_ident("self"))
}

#[derive(PartialEq, Clone, Copy)]
enum Ctx {
    Tail,
    Try,
    Plain,
}

impl Inliner<'_> {
    fn find(&self, name: &str, owner: Option<&str>) -> Option<&Helper> {
        let mut it = self.helpers.get(name)?.iter().filter(|h| {
            h.module == self.module
                && match owner {
                    Some(o) => h.owner == o,
                    None => h.owner.is_empty(),
                }
        });
        let h = it.next()?;
        if it.next().is_some() {
            return None;
        }
        Some(h)
    }

    /// the helper a call goes to, and its arguments without the receiver
    fn target(&self, e: &Expr) -> Option<(Helper, Option<Expr>, Vec<Expr>)> {
        match e {
            Expr::MethodCall(m) if !is_self(&m.receiver) => {
                let mut it = self.helpers.get(&m.method.to_string())?.iter().filter(|h| h.module == self.module && !h.owner.is_empty());
                let h = it.next()?.clone();
                let Some(FnArg::Receiver(_)) = h.sig.inputs.first() else { return None };
                if it.next().is_some() || h.own_type.is_none() {
                    return None;
                }
                Some((h, Some((*m.receiver).clone()), m.args.iter().cloned().collect()))
            }
            Expr::MethodCall(m) if is_self(&m.receiver) => {
                let h = self.find(&m.method.to_string(), Some(&self.owner))?;
                let Some(FnArg::Receiver(r)) = h.sig.inputs.first() else { return None };
                if r.colon_token.is_some() || (r.reference.is_none()) {
                    return None;
                }
                Some((h.clone(), None, m.args.iter().cloned().collect()))
            }
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                if p.qself.is_some() || p.path.segments.iter().any(|s| !s.arguments.is_none()) {
                    return None;
                }
                let h = match segs.as_slice() {
                    [f] => self.find(f, None)?,
                    [t, f] if t == "Self" || *t == self.owner => self.find(f, Some(&self.owner))?,
                    [t, f] if t == "self" => self.find(f, None)?,
                    _ => return None,
                };
                let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                if let Some(FnArg::Receiver(r)) = h.sig.inputs.first() {
                    if r.reference.is_none() || args.is_empty() || !is_self(&args[0]) {
                        return None;
                    }
                    args.remove(0);
                }
                Some((h.clone(), None, args))
            }
            _ => None,
        }
    }

    /// `f` as a value, where f is `fn f(x) { P(x) }`: P
    fn function_value(&mut self, e: &Expr) -> Option<Expr> {
        let Expr::Path(p) = e else { return None };
        let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        let h = match segs.as_slice() {
            [f] => self.find(f, None)?,
            [t, f] if t == "Self" || *t == self.owner => self.find(f, Some(&self.owner))?,
            _ => return None,
        };
        let [FnArg::Typed(a)] = h.sig.inputs.iter().collect::<Vec<_>>()[..] else { return None };
        let Pat::Ident(i) = &*a.pat else { return None };
        let [Stmt::Expr(Expr::Call(c), None)] = h.block.stmts.as_slice() else { return None };
        let [Expr::Path(x)] = c.args.iter().collect::<Vec<_>>()[..] else { return None };
        if !x.path.is_ident(&i.ident) || !matches!(&*c.func, Expr::Call(_)) || c.func.to_token_stream().to_string().split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| i.ident == w) {
            return None;
        }
        let (key, f) = (h.key.clone(), (*c.func).clone());
        self.used.insert(key);
        Some(f)
    }

    fn expand(&mut self, e: &Expr, ctx: Ctx) -> Option<Expr> {
        if self.depth >= 4 {
            return None;
        }
        let (mut h, recv, args) = self.target(e)?;
        let mut x = Exits::default();
        x.visit_block(&h.block);
        if x.returns && (ctx == Ctx::Plain || (ctx == Ctx::Try && x.ok_return) || ctx == Ctx::Tail) && !x.other {
            if let Some(v) = structured(&h.block.stmts) {
                h.block.stmts = v;
                x = Exits::default();
                x.visit_block(&h.block);
            }
        }
        if x.other || (recv.is_none() && x.bare_self && !self.self_ref) {
            return None;
        }
        let ret: Type = match &h.sig.output {
            ReturnType::Default => parse_quote!(()),
            ReturnType::Type(_, t) => (**t).clone(),
        };
        let text = crate::emit::ty_key(&ret);
        let ok = match ctx {
            Ctx::Tail => (!x.returns && !x.tries) || text == self.ret,
            Ctx::Try => !x.ok_return,
            Ctx::Plain => !x.returns && !x.tries,
        };
        if !ok {
            return None;
        }
        let generics: Vec<String> = h.sig.generics.params.iter().filter_map(|p| match p {
            syn::GenericParam::Type(t) => Some(t.ident.to_string()),
            syn::GenericParam::Const(c) => Some(c.ident.to_string()),
            syn::GenericParam::Lifetime(l) => Some(l.lifetime.ident.to_string()),
        }).collect();
        let plain = |t: &Type| {
            let s = t.to_token_stream().to_string();
            !s.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == "impl" || generics.iter().any(|g| g == w))
        };
        let params: Vec<&syn::PatType> = h.sig.inputs.iter().filter_map(|a| match a {
            FnArg::Typed(t) => Some(t),
            _ => None,
        }).collect();
        if params.len() != args.len() {
            return None;
        }
        let mut lets: Vec<Stmt> = vec![];
        let mut binds: Vec<Stmt> = vec![];
        for (p, a) in params.iter().zip(args) {
            self.n += 1;
            let t = format_ident!("vx_a{}", self.n);
            let (pat, ty) = (&p.pat, &p.ty);
            if plain(ty) {
                lets.push(parse_quote!(let #t: #ty = #a;));
            } else {
                lets.push(parse_quote!(let #t = #a;));
            }
            if let Pat::Ident(i) = &**pat {
                let (m, id) = (i.mutability, &i.ident);
                binds.push(parse_quote!(let #m #id = #t;));
            } else {
                binds.push(parse_quote!(let #pat = #t;));
            }
        }
        let mut body = h.block.clone();
        if let (Some(recv), Some(ty), Some(FnArg::Receiver(r))) = (recv, &h.own_type, h.sig.inputs.first()) {
            self.n += 1;
            let t = format_ident!("vx_s{}", self.n);
            let (m, rm) = (r.mutability, r.reference.is_some());
            lets.insert(0, match (rm, m) {
                (true, Some(_)) => parse_quote!(let #t: &mut #ty = &mut #recv;),
                (true, None) => parse_quote!(let #t: &#ty = &#recv;),
                (false, _) => parse_quote!(let #m #t: #ty = #recv;),
            });
            Rename(t).visit_block_mut(&mut body);
        }
        // in the caller's place
        let inner = if ctx == Ctx::Tail && text == self.ret { text.clone() } else { "?".to_string() };
        let (ret_save, d) = (std::mem::replace(&mut self.ret, inner), self.depth);
        self.depth += 1;
        self.block(&mut body, ctx == Ctx::Tail && text == ret_save);
        self.depth = d;
        self.ret = ret_save;
        self.used.insert(h.key.clone());
        let stmts = &body.stmts;
        if ctx == Ctx::Tail {
            return Some(parse_quote!({ #(#lets)* #(#binds)* #(#stmts)* }));
        }
        self.n += 1;
        let r = format_ident!("vx_r{}", self.n);
        Some(if plain(&ret) {
            parse_quote!({ #(#lets)* #(#binds)* let #r: #ret = { #(#stmts)* }; #r })
        } else {
            parse_quote!({ #(#lets)* #(#binds)* let #r = { #(#stmts)* }; #r })
        })
    }

    pub fn block(&mut self, b: &mut Block, tail: bool) {
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter_mut().enumerate() {
            match s {
                Stmt::Expr(e, None) if i + 1 == n && tail => self.tail(e),
                s => self.visit_stmt_mut(s),
            }
        }
    }

    fn tail(&mut self, e: &mut Expr) {
        match e {
            Expr::Block(b) => self.block(&mut b.block, true),
            Expr::If(i) => {
                self.visit_expr_mut(&mut i.cond);
                self.block(&mut i.then_branch, true);
                if let Some((_, e)) = &mut i.else_branch {
                    self.tail(e);
                }
            }
            Expr::Match(m) => {
                self.visit_expr_mut(&mut m.expr);
                for a in &mut m.arms {
                    if let Some((_, g)) = &mut a.guard {
                        self.visit_expr_mut(g);
                    }
                    self.tail(&mut a.body);
                }
            }
            Expr::Return(r) => {
                if let Some(e) = &mut r.expr {
                    self.tail(e);
                }
            }
            Expr::MethodCall(_) | Expr::Call(_) => match self.expand(e, Ctx::Tail) {
                Some(x) => *e = x,
                None => self.visit_expr_mut(e),
            },
            e => self.visit_expr_mut(e),
        }
    }
}

impl VisitMut for Inliner<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Try(t) => {
                if let Some(x) = self.expand(&t.expr, Ctx::Try) {
                    *t.expr = x;
                    return;
                }
            }
            Expr::MethodCall(_) | Expr::Call(_) => {
                if let Some(x) = self.expand(e, Ctx::Plain) {
                    *e = x;
                    return;
                }
                if let Expr::Call(c) = e {
                    for a in c.args.iter_mut() {
                        if let Some(x) = self.function_value(a) {
                            *a = x;
                        }
                    }
                }
            }
            Expr::Tuple(t) => {
                for a in t.elems.iter_mut() {
                    if let Some(x) = self.function_value(a) {
                        *a = x;
                    }
                }
            }
            Expr::Return(r) if self.ret != "?" => {
                if let Some(e) = &mut r.expr {
                    self.tail(e);
                }
                return;
            }
            Expr::Closure(c) => {
                // an exit leaves the closure there
                let ret = std::mem::replace(&mut self.ret, "?".to_string());
                self.visit_expr_mut(&mut c.body);
                self.ret = ret;
                return;
            }
            _ => {}
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
    fn visit_item_mut(&mut self, _: &mut syn::Item) {}
}


fn has_return(t: &Stmt) -> bool {
    let mut x = Exits::default();
    x.visit_stmt(t);
    x.returns
}
fn as_stmts(e: &Expr) -> Vec<Stmt> {
    match e {
        Expr::Block(b) if b.label.is_none() && b.attrs.is_empty() => b.block.stmts.clone(),
        e => vec![Stmt::Expr(e.clone(), None)],
    }
}
fn as_expr(v: Vec<Stmt>) -> Expr {
    parse_quote!({ #(#v)* })
}
/// never reaches its end
fn leaves(v: &[Stmt]) -> bool {
    match v.last() {
        Some(Stmt::Expr(Expr::Return(_), _)) => true,
        Some(Stmt::Expr(Expr::If(i), _)) => leaves(&i.then_branch.stmts) && i.else_branch.as_ref().is_some_and(|(_, e)| leaves(&as_stmts(e))),
        Some(Stmt::Expr(Expr::Match(m), _)) => m.arms.iter().all(|a| leaves(&as_stmts(&a.body))),
        Some(Stmt::Expr(Expr::Block(b), _)) => leaves(&b.block.stmts),
        Some(Stmt::Expr(Expr::Macro(m), _)) => m.mac.path.is_ident("panic") || m.mac.path.is_ident("unreachable"),
        Some(Stmt::Macro(m)) => m.mac.path.is_ident("panic") || m.mac.path.is_ident("unreachable"),
        _ => false,
    }
}
fn names(t: &impl ToTokens) -> std::collections::BTreeSet<String> {
    t.to_token_stream().to_string().split(|c: char| !c.is_alphanumeric() && c != '_').map(|s| s.to_string()).collect()
}

/// the same block without `return`: what follows an `if` that may leave goes
/// into the branch that does not; None where that takes more than moving it
fn structured(v: &[Stmt]) -> Option<Vec<Stmt>> {
    let Some(k) = v.iter().position(has_return) else { return Some(v.to_vec()) };
    let (before, s, rest) = (&v[..k], &v[k], &v[k + 1..]);
    let mut out = before.to_vec();
    // a branch, with the rest behind it if it gets there
    let mut moved = rest.is_empty();
    let mut branch = |b: Vec<Stmt>, tail: bool| -> Option<Vec<Stmt>> {
        if leaves(&b) || (tail && rest.is_empty()) {
            return structured(&b);
        }
        if moved {
            return if rest.is_empty() { structured(&b) } else { None };
        }
        moved = true;
        let mut b = b;
        if let Some(Stmt::Expr(e, semi @ None)) = b.last_mut() {
            if !matches!(e, Expr::Block(_) | Expr::If(_) | Expr::Match(_)) {
                *semi = Some(Default::default());
            }
        }
        // names bound in the branch must not hide those of the rest
        let bound: Vec<Stmt> = b.iter().filter(|s| matches!(s, Stmt::Local(_))).cloned().collect();
        let used: std::collections::BTreeSet<String> = rest.iter().flat_map(|s| names(s)).collect();
        for l in bound {
            if let Stmt::Local(l) = l {
                if names(&l.pat).iter().any(|n| n != "mut" && n != "ref" && used.contains(n)) {
                    return None;
                }
            }
        }
        b.extend(rest.iter().cloned());
        structured(&b)
    };
    match s {
        Stmt::Expr(Expr::Return(r), _) => {
            if let Some(e) = &r.expr {
                out.push(Stmt::Expr((**e).clone(), None));
            }
            if out.iter().any(has_return) {
                return None;
            }
        }
        Stmt::Expr(Expr::If(i), semi) => {
            if has_return(&Stmt::Expr((*i.cond).clone(), None)) {
                return None;
            }
            let tail = semi.is_none();
            let mut n = i.clone();
            n.then_branch.stmts = branch(i.then_branch.stmts.clone(), tail)?;
            let e = match &i.else_branch {
                Some((_, e)) => as_stmts(e),
                None => vec![],
            };
            // a binding of `if let` must not hide a name of the rest
            if let Expr::Let(l) = &*i.cond {
                let used: std::collections::BTreeSet<String> = rest.iter().flat_map(|s| names(s)).collect();
                if !leaves(&i.then_branch.stmts) && pat_names(&l.pat).iter().any(|n| used.contains(n)) {
                    return None;
                }
            }
            let e = as_expr(branch(e, tail)?);
            n.else_branch = Some((Default::default(), Box::new(e)));
            out.push(Stmt::Expr(Expr::If(n), None));
        }
        Stmt::Expr(Expr::Match(m), semi) => {
            if has_return(&Stmt::Expr((*m.expr).clone(), None)) {
                return None;
            }
            let mut n = m.clone();
            let used: std::collections::BTreeSet<String> = rest.iter().flat_map(|s| names(s)).collect();
            for a in &mut n.arms {
                let b = as_stmts(&a.body);
                if !leaves(&b) && !rest.is_empty() && pat_names(&a.pat).iter().any(|n| used.contains(n)) {
                    return None;
                }
                a.body = Box::new(as_expr(branch(b, semi.is_none())?));
            }
            out.push(Stmt::Expr(Expr::Match(n), None));
        }
        // let p = match e { P => x, Q => return y };
        Stmt::Local(l) => {
            let i = l.init.as_ref()?;
            let p = &l.pat;
            if let Some((_, d)) = &i.diverge {
                if has_return(&Stmt::Expr((*i.expr).clone(), None)) || !leaves(&as_stmts(d)) {
                    return None;
                }
                let (e, a, b) = (&i.expr, as_expr(structured(rest)?), as_expr(structured(&as_stmts(d))?));
                out.push(Stmt::Expr(parse_quote!(match #e { #p => #a, _ => #b }), None));
                return Some(out);
            }
            let Expr::Match(m) = &*i.expr else { return None };
            if has_return(&Stmt::Expr((*m.expr).clone(), None)) {
                return None;
            }
            let mut n = m.clone();
            let used: std::collections::BTreeSet<String> = rest.iter().flat_map(|s| names(s)).collect();
            for a in &mut n.arms {
                let b = as_stmts(&a.body);
                if leaves(&b) {
                    a.body = Box::new(as_expr(structured(&b)?));
                } else {
                    let own = pat_names(p);
                    if pat_names(&a.pat).iter().any(|n| used.contains(n) && !own.contains(n)) || has_return(&Stmt::Expr((*a.body).clone(), None)) {
                        return None;
                    }
                    if moved {
                        return None;
                    }
                    moved = true;
                    let (x, r) = (&a.body, structured(rest)?);
                    let x: Expr = parse_quote!({ let #p = #x; #(#r)* });
                    a.body = Box::new(x);
                }
            }
            out.push(Stmt::Expr(Expr::Match(n), None));
        }
        _ => return None,
    }
    Some(out)
}
fn pat_names(p: &Pat) -> std::collections::BTreeSet<String> {
    struct N(std::collections::BTreeSet<String>);
    impl<'ast> Visit<'ast> for N {
        fn visit_pat_ident(&mut self, i: &'ast syn::PatIdent) {
            self.0.insert(i.ident.to_string());
            syn::visit::visit_pat_ident(self, i);
        }
    }
    let mut n = N(Default::default());
    n.visit_pat(p);
    n.0
}

/// `self` of a helper, in the caller's place
struct Rename(syn::Ident);
impl VisitMut for Rename {
    fn visit_ident_mut(&mut self, i: &mut syn::Ident) {
        if i == "self" {
            *i = self.0.clone();
        }
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        fn go(t: proc_macro2::TokenStream, n: &syn::Ident) -> proc_macro2::TokenStream {
            t.into_iter()
                .map(|t| match t {
                    proc_macro2::TokenTree::Ident(i) if i == "self" => n.clone().into(),
                    proc_macro2::TokenTree::Group(g) => proc_macro2::Group::new(g.delimiter(), go(g.stream(), n)).into(),
                    t => t,
                })
                .collect()
        }
        m.tokens = go(m.tokens.clone(), &self.0);
    }
}
