use std::{collections::BTreeMap, collections::BTreeSet, fs, path::Path};

use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use syn::{
    parse_quote, spanned::Spanned, visit_mut::VisitMut, Attribute, Fields, FnArg, ImplItem, Item,
    Pat, ReturnType, Signature, TraitItem, Type, UseTree, Visibility,
};

use crate::{
    comb,
    contracts::Contracts,
    inline::{Helper, Helpers, Inliner},
    norm,
    norm::Norm,
    Unit,
};

pub struct Emitter<'a> {
    /// names the spec files declare
    pub known: BTreeSet<String>,
    units: &'a [Unit],
    c: &'a mut Contracts,
    texts: Vec<String>,
    report: Vec<String>,
    pub lits: BTreeSet<Vec<u8>>,
    pub blits: BTreeSet<Vec<u8>>,
    /// trait name -> default methods (signature) lifted out of it
    defaults: BTreeMap<String, Vec<Signature>>,
    file: String,
    imports: BTreeMap<String, BTreeMap<String, Vec<String>>>,
    /// function key -> its body after the compiler expanded its macros
    expanded: BTreeMap<String, syn::Block>,
    /// the unit's functions without a contract, and those that were inlined
    helpers: Helpers,
    consts: norm::Consts,
    inlined: BTreeSet<String>,
    inlined_into: BTreeSet<String>,
    pass: usize,
}

pub fn ty_key(t: &impl ToTokens) -> String {
    let mut s = String::new();
    for w in t.to_token_stream().to_string().split_whitespace() {
        s.push_str(w);
    }
    s
}

pub fn impl_key(i: &syn::ItemImpl, mp: &str) -> String {
    let tykey = ty_key(&i.self_ty);
    match &i.trait_ {
        Some((_, p, _)) => format!("{mp}::<{} for {tykey}>", ty_key(p)),
        None => format!("{mp}::{}", strip_generics(&tykey)),
    }
}

const STD_MACROS: &[&str] = &[
    "write", "writeln", "format", "format_args", "matches", "unreachable", "panic", "todo", "unimplemented",
    "assert", "assert_eq", "assert_ne", "debug_assert", "debug_assert_eq", "debug_assert_ne", "vec", "concat", "stringify",
];
struct OwnMacros(bool);
impl<'ast> syn::visit::Visit<'ast> for OwnMacros {
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        let n = m.path.segments.last().unwrap().ident.to_string();
        self.0 |= !STD_MACROS.contains(&n.as_str());
    }
}

/// `?x TEXT`: TEXT, where the body has an x
fn optional(t: &str, words: &BTreeSet<String>) -> String {
    let keep = |l: &str| match l.trim_start().strip_prefix('?').and_then(|l| l.split_once(' ')) {
        Some((x, r)) => if words.contains(x) { Some(r.to_string()) } else { None },
        None => Some(l.to_string()),
    };
    t.lines().filter_map(keep).collect::<Vec<_>>().join("\n") + "\n"
}

pub fn cfg_on(attrs: &[Attribute]) -> bool {
    for a in attrs {
        if a.path().is_ident("cfg") {
            if let syn::Meta::List(l) = &a.meta {
                if let Ok(m) = l.parse_args::<syn::Meta>() {
                    if !cfg_eval(&m) {
                        return false;
                    }
                }
            }
        }
    }
    true
}

fn cfg_eval(m: &syn::Meta) -> bool {
    use syn::{punctuated::Punctuated, Meta, Token};
    match m {
        Meta::NameValue(nv) => nv.path.is_ident("feature"), // all features are on
        Meta::Path(_) => false, // test, doc, docsrs, stylish_proc_macro_expand, kani
        Meta::List(l) => {
            let v: Vec<Meta> = l
                .parse_args_with(Punctuated::<Meta, Token![,]>::parse_terminated)
                .map(|p| p.into_iter().collect())
                .unwrap_or_default();
            if l.path.is_ident("all") {
                v.iter().all(cfg_eval)
            } else if l.path.is_ident("any") {
                v.iter().any(cfg_eval)
            } else if l.path.is_ident("not") {
                !v.iter().all(cfg_eval)
            } else {
                false
            }
        }
    }
}

fn derives(attrs: &[Attribute]) -> BTreeSet<String> {
    let mut r = BTreeSet::new();
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                r.insert(m.path.segments.last().unwrap().ident.to_string());
                Ok(())
            });
        }
    }
    r
}

const MACRO_NAMES: &[&str] = &["format_args", "write", "writeln", "format_args_nl", "with_builtin", "quote", "parse_quote", "parse_macro_input", "Token"];

impl<'a> Emitter<'a> {
    pub fn new(units: &'a [Unit], c: &'a mut Contracts) -> Self {
        Self {
            known: Default::default(),
            units,
            c,
            texts: vec![],
            report: vec![],
            lits: BTreeSet::new(),
            blits: BTreeSet::new(),
            defaults: BTreeMap::new(),
            file: String::new(),
            imports: BTreeMap::new(),
            expanded: BTreeMap::new(),
            helpers: Helpers::new(),
            consts: Default::default(),
            inlined: BTreeSet::new(),
            inlined_into: BTreeSet::new(),
            pass: 0,
        }
    }

    pub fn load_expanded(&mut self, module: &str, text: &str) -> Result<(), String> {
        fn go(items: Vec<Item>, mp: &str, out: &mut BTreeMap<String, syn::Block>) {
            for i in items {
                match i {
                    Item::Mod(m) => {
                        if let Some((_, items)) = m.content {
                            go(items, &format!("{mp}::{}", m.ident), out);
                        }
                    }
                    Item::Fn(f) => {
                        out.insert(format!("{mp}::{}", f.sig.ident), *f.block);
                    }
                    Item::Impl(i) => {
                        let key = impl_key(&i, mp);
                        for it in i.items {
                            if let ImplItem::Fn(f) = it {
                                out.insert(format!("{key}::{}", f.sig.ident), f.block);
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        let f = syn::parse_file(text).map_err(|e| format!("expanded code: {e}"))?;
        go(f.items, module, &mut self.expanded);
        Ok(())
    }

    /// the body with calls to helpers replaced by what the helpers do
    fn inline(&mut self, key: &str, mp: &str, owner: &str, own_type: Option<syn::Type>, sig: &Signature, mut block: syn::Block, is_trait: bool) -> syn::Block {
        if self.pass == 0 {
            if !is_trait && !self.c.has("fn", key) && !self.c.has("trusted", key) && !self.c.has("drop", key) {
                self.helpers.entry(sig.ident.to_string()).or_default().push(Helper {
                    key: key.into(),
                    module: mp.into(),
                    owner: owner.into(),
                    own_type,
                    sig: sig.clone(),
                    block: block.clone(),
                });
            }
            return block;
        }
        let self_ref = matches!(sig.inputs.first(), Some(FnArg::Receiver(r)) if r.reference.is_some());
        let ret = match &sig.output {
            ReturnType::Default => "()".to_string(),
            ReturnType::Type(_, t) => ty_key(t),
        };
        let helpers = std::mem::take(&mut self.helpers);
        let mut i = Inliner { helpers: &helpers, used: BTreeSet::new(), module: mp.into(), owner: owner.into(), self_ref, ret, depth: 0, n: 0 };
        i.block(&mut block, true);
        let used = std::mem::take(&mut i.used);
        self.helpers = helpers;
        for k in &used {
            self.rep(&["note", key, "inlined", k]);
        }
        if !used.is_empty() {
            self.inlined_into.insert(key.into());
        }
        self.inlined.extend(used);
        block
    }

    /// a body that uses the crate's own macros is taken as the compiler
    /// expands it; all other bodies as they are written
    fn body(&mut self, key: &str, block: syn::Block) -> syn::Block {
        let mut s = OwnMacros(false);
        syn::visit::Visit::visit_block(&mut s, &block);
        if s.0 {
            if let Some(b) = self.expanded.get(key).cloned() {
                self.rep(&["note", key, "macros expanded by the compiler"]);
                return b;
            }
        }
        block
    }

    fn splice(&mut self, text: String) -> TokenStream {
        let n = self.texts.len();
        self.texts.push(text);
        let n = proc_macro2::Literal::usize_unsuffixed(n);
        quote!(__vx_splice!(#n))
    }

    fn rep(&mut self, fields: &[&str]) {
        self.report.push(fields.join("\t"));
    }

    pub fn report(&mut self) -> String {
        let all: Vec<_> = self.c.map.keys().cloned().collect();
        for k in all {
            if !self.c.used.contains(&k) {
                self.rep(&["unused", &k.0, &k.1]);
            }
        }
        self.report.join("\n") + "\n"
    }

    pub fn literals(&self) -> String {
        let mut o = String::from("verus! { pub mod vx_lits { use vstd::prelude::*; use vstd::string::*; use vstd::utf8::*; use crate::sp::*;\n");
        for l in &self.lits {
            let s = std::str::from_utf8(l).unwrap();
            let name = lit_name(l);
            let src = format!("{s:?}");
            let chars: Vec<String> = s.chars().map(|c| format!("{c:?}")).collect();
            let bytes: Vec<String> = l.iter().map(|b| format!("{b}u8")).collect();
            if s.is_ascii() {
                o.push_str(&format!(
                    "pub proof fn {name}() ensures vx_b({src}) =~= seq![{}] {{ reveal_strlit({src}); assert({src}@ =~= seq![{}]); is_ascii_chars_encode_utf8({src}@); assert(vx_b({src}) =~= seq![{}]); }}\n",
                    bytes.join(","), chars.join(","), bytes.join(",")
                ).replace("seq![]", "Seq::empty()"));
            } else {
                o.push_str(&format!("pub proof fn {name}() {{ }}\n"));
            }
            let ens = if s.is_ascii() {
                let each: String = if chars.len() <= 8 { chars.iter().enumerate().map(|(i, c)| format!(", r@[{i}] == {c}")).collect() } else { String::new() };
                format!("ensures r@ =~= seq![{}], vx_b(r) =~= seq![{}], r@.len() == {}{each}", chars.join(","), bytes.join(","), chars.len()).replace("seq![]", "Seq::empty()")
            } else {
                String::new()
            };
            o.push_str(&format!("pub fn str_{}() -> (r: &'static str) {ens} {{ proof {{ reveal_strlit({src}); {name}(); }} {src} }}\n", &name[4..]));
        }
        for l in &self.blits {
            let hex: String = l.iter().map(|b| format!("{b:02x}")).collect();
            let bytes = l.iter().map(|b| format!("{b}u8")).collect::<Vec<_>>().join(",");
            o.push_str(&format!(
                "pub fn bytes_{hex}() -> (r: &'static [u8; {}]) ensures r@ =~= {} {{ &[{bytes}] }}\n",
                l.len(),
                if l.is_empty() { "Seq::<u8>::empty()".into() } else { format!("seq![{bytes}]") },
            ));
        }
        o.push_str("} }\n");
        o
    }

    pub fn unit(&mut self, repo: &Path, u: &Unit) -> Result<String, String> {
        let p = repo.join(&u.dir).join("lib.rs");
        // first pass: learn the default methods of all traits of the unit and
        // its helper functions; second: which helpers are inlined
        let (nt, nr) = (self.texts.len(), self.report.len());
        self.helpers.clear();
        for pass in 0..2 {
            self.pass = pass;
            self.file(repo, &p, &u.module, u)?;
            self.texts.truncate(nt);
            self.report.truncate(nr);
        }
        self.pass = 2;
        let ts = self.file(repo, &p, &u.module, u)?;
        let m = format_ident!("{}", u.module);
        let ts = quote!(verus! { pub mod #m { #ts } });
        Ok(crate::print::print(ts, &self.texts))
    }

    fn file(&mut self, repo: &Path, p: &Path, modpath: &str, u: &Unit) -> Result<TokenStream, String> {
        let t = fs::read_to_string(p).map_err(|e| format!("{}: {e}", p.display()))?;
        let mut f = syn::parse_file(&t).map_err(|e| format!("{}: {e}", p.display()))?;
        norm::CfgStrip.visit_file_mut(&mut f);
        self.consts.collect = self.pass == 0;
        self.consts.visit_file_mut(&mut f);
        let save = std::mem::replace(&mut self.file, p.strip_prefix(repo).unwrap_or(p).display().to_string());
        let r = self.items(repo, p, f.items, modpath, u);
        self.file = save;
        r
    }

    fn items(&mut self, repo: &Path, file: &Path, items: Vec<Item>, modpath: &str, u: &Unit) -> Result<TokenStream, String> {
        let mut o = quote!(use crate::shim::prelude::*; use crate::vxn::*; use vstd::prelude::*;);
        // default trait methods first, impls need them
        for it in &items {
            if let Item::Trait(t) = it {
                let mut v = vec![];
                for ti in &t.items {
                    if let TraitItem::Fn(f) = ti {
                        if f.default.is_some() {
                            v.push(f.sig.clone());
                        }
                    }
                }
                self.defaults.insert(format!("{modpath}::{}", t.ident), v);
            }
        }
        let mut imp = BTreeMap::new();
        for it in &items {
            if let Item::Use(i) = it {
                let mut v = vec![];
                flatten(&i.tree, vec![], &mut v);
                for (path, alias) in v {
                    let a = alias.unwrap_or_else(|| path.last().unwrap().clone());
                    imp.insert(a, path);
                }
            }
        }
        self.imports.insert(modpath.to_string(), imp);
        for it in items {
            if !u.only.is_empty() && modpath == u.module && !matches!(&it, Item::Mod(m) if u.only.contains(&m.ident.to_string())) {
                continue;
            }
            o.extend(self.item(repo, file, it, modpath, u)?);
        }
        if let Some(t) = self.c.get("module", modpath) {
            o.extend(self.splice(t));
        }
        Ok(o)
    }

    fn item(&mut self, repo: &Path, file: &Path, item: Item, mp: &str, u: &Unit) -> Result<TokenStream, String> {
        let attrs: &[Attribute] = match &item {
            Item::Use(i) => &i.attrs,
            Item::Mod(i) => &i.attrs,
            Item::Struct(i) => &i.attrs,
            Item::Enum(i) => &i.attrs,
            Item::Trait(i) => &i.attrs,
            Item::Impl(i) => &i.attrs,
            Item::Fn(i) => &i.attrs,
            Item::Const(i) => &i.attrs,
            Item::Static(i) => &i.attrs,
            Item::Type(i) => &i.attrs,
            Item::Macro(i) => &i.attrs,
            _ => &[],
        };
        if !cfg_on(attrs) {
            return Ok(quote!());
        }
        let mut nm = Norm::new(self.units, u);
        Ok(match item {
            Item::Use(i) => self.use_item(i, u),
            Item::Mod(m) => {
                let name = m.ident.to_string();
                let sub = format!("{mp}::{name}");
                if u.skip.contains(&name) || self.c.get("drop", &sub).is_some() {
                    self.rep(&["dropped", &sub, "module"]);
                    return Ok(quote!());
                }
                let id = &m.ident;
                let inner = match m.content {
                    Some((_, items)) => self.items(repo, file, items, &sub, u)?,
                    None => {
                        let d = file.parent().unwrap();
                        let stem = file.file_stem().unwrap().to_string_lossy().to_string();
                        let base = if stem == "lib" || stem == "mod" { d.to_path_buf() } else { d.join(stem) };
                        let p1 = base.join(format!("{name}.rs"));
                        let p = if p1.exists() { p1 } else { base.join(&name).join("mod.rs") };
                        self.file(repo, &p, &sub, u)?
                    }
                };
                quote!(pub mod #id { #inner })
            }
            Item::Struct(mut s) => {
                let key = format!("{mp}::{}", s.ident);
                if self.c.get("drop", &key).is_some() {
                    self.rep(&["dropped", &key, "type"]);
                    return Ok(quote!());
                }
                let d = derives(&s.attrs);
                s.attrs.clear();
                s.vis = Visibility::Public(Default::default());
                nm.generics(&mut s.generics);
                let text = s.fields.to_token_stream().to_string();
                let opaque = text.contains("dyn Fn");
                let private = self.c.get("private", &key).is_some();
                for f in s.fields.iter_mut() {
                    f.attrs.clear();
                    f.vis = if private { Visibility::Inherited } else { Visibility::Public(Default::default()) };
                    nm.visit_type_mut(&mut f.ty);
                }
                let id = &s.ident;
                let g = &s.generics;
                if opaque {
                    self.rep(&["opaque", &key, "holds a closure object"]);
                    return Ok(quote!(#[verifier::external_body] pub struct #id #g { f: core::marker::PhantomData<&'a ()> }));
                }
                let mut o = keep_derives(&d);
                o.extend(s.to_token_stream());
                let (ig, tg, wc) = s.generics.split_for_impl();
                if d.contains("PartialEq") && s.generics.params.is_empty() {
                    o.extend(eq_spec(id));
                }
                if d.contains("Default") {
                    let vals = s.fields.members().zip(s.fields.iter()).map(|(m, f)| {
                        let t = &f.ty;
                        quote!(#m: <#t as Default>::default())
                    });
                    let sig: Signature = parse_quote!(fn default() -> Self);
                    let k = format!("{mp}::<Default for {}>::default", ty_key(&quote!(#id)));
                    if self.c.has("fn", &k) {
                        let body = quote!({ #id { #(#vals),* } });
                        let f = self.emit_fn(&k, sig, Some(body), 0, true, false, &[], (0, 0), "derive");
                        o.extend(quote!(impl #ig Default for #id #tg #wc { #f }));
                    }
                }
                o
            }
            Item::Enum(mut s) => {
                let key = format!("{mp}::{}", s.ident);
                if self.c.get("drop", &key).is_some() {
                    return Ok(quote!());
                }
                let d = derives(&s.attrs);
                s.attrs.clear();
                s.vis = Visibility::Public(Default::default());
                nm.generics(&mut s.generics);
                let mut def = None;
                for v in s.variants.iter_mut() {
                    if v.attrs.iter().any(|a| a.path().is_ident("default")) {
                        def = Some(v.ident.clone());
                    }
                    v.attrs.clear();
                    for f in v.fields.iter_mut() {
                        f.attrs.clear();
                        nm.visit_type_mut(&mut f.ty);
                    }
                }
                let id = &s.ident;
                let mut o = keep_derives(&d);
                o.extend(s.to_token_stream());
                if d.contains("PartialEq") && s.generics.params.is_empty() {
                    o.extend(eq_spec(id));
                }
                if let (true, Some(v)) = (d.contains("Default"), def) {
                    let sig: Signature = parse_quote!(fn default() -> Self);
                    let k = format!("{mp}::<Default for {id}>::default");
                    let f = self.emit_fn(&k, sig, Some(quote!({ #id::#v })), 0, true, false, &[], (0, 0), "derive");
                    o.extend(quote!(impl Default for #id { #f }));
                }
                o
            }
            Item::Trait(mut t) => {
                let key = format!("{mp}::{}", t.ident);
                if self.c.get("drop", &key).is_some() {
                    self.rep(&["dropped", &key, "trait"]);
                    return Ok(quote!());
                }
                t.attrs.clear();
                nm.generics(&mut t.generics);
                let id = &t.ident;
                let (ig, tg, wc) = t.generics.split_for_impl();
                let _ = &ig;
                let sup = if t.supertraits.is_empty() {
                    quote!()
                } else {
                    let mut s = t.supertraits.clone();
                    for b in s.iter_mut() {
                        nm.visit_type_param_bound_mut(b);
                    }
                    quote!(: #s)
                };
                let mut inner = quote!();
                let mut lifted = quote!();
                if let Some(x) = self.c.get("trait", &key) {
                    inner.extend(self.splice(x));
                }
                for ti in t.items.clone() {
                    match ti {
                        TraitItem::Fn(f) => {
                            if !cfg_on(&f.attrs) {
                                continue;
                            }
                            let k = format!("{key}::{}", f.sig.ident);
                            let mut sig = f.sig.clone();
                            nm.visit_signature_mut(&mut sig);
                            let pos = lines(&f.span());
                            let dflt = f.default.is_some();
                            inner.extend(self.emit_decl(&k, sig, dflt));
                            if let Some(b) = f.default {
                                lifted.extend(self.lift(&k, id, &t.generics, f.sig, b, u, pos));
                            }
                        }
                        other => inner.extend(other.to_token_stream()),
                    }
                }
                let gp = &t.generics.params;
                let gp = if gp.is_empty() { quote!() } else { quote!(<#gp>) };
                let _ = tg;
                quote!(pub trait #id #gp #sup #wc { #inner } #lifted)
            }
            Item::Impl(i) => self.impl_item(i, mp, u)?,
            Item::Fn(f) => {
                let k = format!("{mp}::{}", f.sig.ident);
                let pos = lines(&f.span());
                let b = self.body(&k, *f.block);
                let b = self.inline(&k, mp, "", None, &f.sig, b, false);
                self.func(&k, f.sig, b, false, true, u, pos)
            }
            Item::Const(mut c) => {
                c.attrs.clear();
                c.vis = Visibility::Public(Default::default());
                nm.visit_item_const_mut(&mut c);
                c.to_token_stream()
            }
            Item::Static(s) => {
                self.rep(&["dropped", &format!("{mp}::{}", s.ident), "static"]);
                quote!()
            }
            Item::Type(mut t) => {
                t.attrs.clear();
                t.vis = Visibility::Public(Default::default());
                nm.visit_item_type_mut(&mut t);
                t.to_token_stream()
            }
            Item::Macro(m) => {
                let n = m.ident.map(|i| i.to_string()).unwrap_or_default();
                self.rep(&["dropped", &format!("{mp}::{n}!"), "macro"]);
                quote!()
            }
            Item::ExternCrate(_) => quote!(),
            _ => {
                self.rep(&["dropped", mp, "other item"]);
                quote!()
            }
        })
    }

    fn impl_item(&mut self, i: syn::ItemImpl, mp: &str, u: &Unit) -> Result<TokenStream, String> {
        let mut nm = Norm::new(self.units, u);
        let key = impl_key(&i, mp);
        if let Some((_, p, _)) = &i.trait_ {
            let last = p.segments.last().unwrap().ident.to_string();
            if (last == "Debug" && !self.c.has("detrait", &key)) || self.c.get("drop", &key).is_some() {
                self.rep(&["dropped", &key, "impl"]);
                return Ok(quote!());
            }
        }
        let owner = strip_generics(&ty_key(&i.self_ty));
        let detrait = self.c.get("detrait", &key).is_some();
        let is_trait = i.trait_.is_some() && !detrait;
        let mut gen = i.generics.clone();
        nm.generics(&mut gen);
        let mut self_ty = (*i.self_ty).clone();
        nm.visit_type_mut(&mut self_ty);
        let mut inner = quote!();
        if let Some(x) = self.c.get("impl", &key) {
            inner.extend(self.splice(x));
        }
        let mut also = quote!();
        for it in i.items {
            match it {
                ImplItem::Fn(f) => {
                    if !cfg_on(&f.attrs) {
                        continue;
                    }
                    let k = format!("{key}::{}", f.sig.ident);
                    let pos = lines(&f.span());
                    let mut sig = f.sig;
                    let block = self.body(&k, f.block);
                    let block = {
                        let own = if i.generics.type_params().next().is_none() { syn::parse_str(&owner).ok() } else { None };
                        self.inline(&k, mp, &owner, own, &sig, block, i.trait_.is_some())
                    };
                    // a copy under a stronger contract than the trait gives
                    let ka = format!("{k} (also)");
                    if self.c.has("fn", &ka) {
                        let mut sig = sig.clone();
                        sig.ident = format_ident!("vx_also_{}", sig.ident);
                        also.extend(self.func(&ka, sig, block.clone(), false, true, u, pos));
                    }
                    if detrait {
                        let t = i.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string()).unwrap_or_default();
                        sig.ident = format_ident!("vx_detrait_{}_{}", t, sig.ident);
                    }
                    inner.extend(self.func(&k, sig, block, is_trait, !is_trait, u, pos));
                }
                other => inner.extend(other.to_token_stream()),
            }
        }
        let (ig, _, wc) = gen.split_for_impl();
        Ok(match &i.trait_ {
            Some((_, p, _)) if is_trait => {
                let mut p = p.clone();
                match self.c.get("retrait", &key) {
                    Some(t) => p = syn::parse_str(t.trim()).map_err(|e| format!("retrait {key}: {e}"))?,
                    None => nm.visit_path_mut(&mut p),
                }
                let also = if also.is_empty() { also } else { quote!(impl #ig #self_ty #wc { #also }) };
                quote!(impl #ig #p for #self_ty #wc { #inner } #also)
            }
            _ => quote!(impl #ig #self_ty #wc { #inner }),
        })
    }

    /// a function with a body
    fn nom_names(&self, key: &str) -> BTreeMap<String, String> {
        // the innermost module with imports that the key lies in
        let m = self.imports.keys().filter(|m| key.starts_with(&format!("{m}::"))).max_by_key(|m| m.len());
        let mut o = BTreeMap::new();
        for (a, p) in m.map(|m| &self.imports[m]).into_iter().flatten() {
            if p[0] == "nom" {
                o.insert(a.clone(), p.join("::"));
            }
        }
        o
    }

    fn func(&mut self, key: &str, mut sig: Signature, mut block: syn::Block, in_trait: bool, vis: bool, u: &Unit, pos: (usize, usize)) -> TokenStream {
        let mut nm = Norm::new(self.units, u);
        nm.nom = self.nom_names(key);
        nm.visit_signature_mut(&mut sig);
        let mut arg_lets = norm::arg_patterns(&mut sig);
        if let Some(FnArg::Receiver(r)) = sig.inputs.first_mut() {
            if r.reference.is_none() && r.mutability.is_some() {
                // `mut self`
                r.mutability = None;
                norm::RenameSelf(false).visit_block_mut(&mut block);
                arg_lets.insert(0, parse_quote!(let mut self_ = self;));
            }
        }
        nm.visit_block_mut(&mut block);
        for (n, s) in arg_lets.into_iter().enumerate() {
            block.stmts.insert(n, s);
        }
        // nested functions become contract-bearing functions of their own
        let mut nested = vec![];
        for s in &mut block.stmts {
            if let syn::Stmt::Item(Item::Fn(f)) = s {
                let k = format!("{key}::{}", f.sig.ident);
                let p = lines(&f.span());
                nested.push((k, f.clone(), p));
            }
        }
        let mut ni = 0;
        let stmts: Vec<TokenStream> = std::mem::take(&mut block.stmts)
            .into_iter()
            .map(|s| match s {
                syn::Stmt::Item(Item::Fn(_)) => {
                    let (k, f, p) = nested[ni].clone();
                    ni += 1;
                    self.emit_norm_fn(&k, f.sig, *f.block, false, false, p)
                }
                s => s.to_token_stream(),
            })
            .collect();
        let block: TokenStream = quote!({ #(#stmts)* });
        self.finish_fn(key, sig, block, nm, in_trait, vis, pos)
    }

    fn emit_norm_fn(&mut self, key: &str, sig: Signature, block: syn::Block, in_trait: bool, vis: bool, pos: (usize, usize)) -> TokenStream {
        let mut scan = norm::Scan::default();
        syn::visit::Visit::visit_block(&mut scan, &block);
        let loops = scan.loops;
        let b = block.to_token_stream();
        self.emit_fn(key, sig, Some(b), loops, in_trait, vis, &scan.calls, pos, "")
    }

    fn finish_fn(&mut self, key: &str, sig: Signature, block: TokenStream, nm: Norm, in_trait: bool, vis: bool, pos: (usize, usize)) -> TokenStream {
        self.blits.extend(nm.blits.iter().cloned());
        for l in &nm.lits {
            self.lits.insert(l.clone());
        }
        if !nm.problems.is_empty() {
            for p in &nm.problems {
                self.rep(&["note", key, p]);
            }
        }
        self.emit_fn(key, sig, Some(block), nm.loops.len(), in_trait, vis, &nm.calls, pos, &nm.loops.join(","))
    }

    /// gives the parameters the names the contract uses; returns the bindings
    /// of the names the code uses
    fn name_params(&mut self, key: &str, sig: &mut Signature) -> TokenStream {
        let names: Vec<String> = match self.c.get("params", key.strip_suffix(" (default body)").unwrap_or(key)) {
            Some(t) => t.replace(',', " ").split_whitespace().map(|s| s.to_string()).collect(),
            None => vec![],
        };
        let fname = sig.ident.to_string();
        let mut n = 0;
        let mut lets = quote!();
        for a in sig.inputs.iter_mut() {
            let FnArg::Typed(t) = a else { continue };
            if is_self(&t.pat) {
                continue;
            }
            let Pat::Ident(p) = &mut *t.pat else { continue };
            if p.ident == "self_" {
                continue;
            }
            let want = match names.get(n) {
                Some(w) => w.clone(),
                None if p.ident == fname => format!("{fname}_"),
                None => p.ident.to_string(),
            };
            n += 1;
            if p.ident == want {
                continue;
            }
            let (real, m) = (p.ident.clone(), p.mutability.take());
            p.ident = format_ident!("{}", want);
            let want = &p.ident;
            lets.extend(quote!(let #m #real = #want;));
        }
        lets
    }

    fn emit_decl(&mut self, key: &str, sig: Signature, dflt: bool) -> TokenStream {
        let mut sig = self_first(sig);
        self.name_params(key, &mut sig);
        for a in sig.inputs.iter_mut() {
            if let FnArg::Typed(t) = a {
                if let Pat::Ident(p) = &mut *t.pat {
                    p.mutability = None;
                }
            }
        }
        let sig = named_ret(&sig);
        let c = self.c.get("fn", key);
        let c = self.splice(c.unwrap_or_default());
        if dflt {
            // stands for the default body, which is verified as a function of
            // its own, generic in Self, against this same contract
            quote!(#[verifier::external_body] #sig #c { unimplemented!() })
        } else {
            quote!(#sig #c ;)
        }
    }

    fn lift(&mut self, key: &str, tr: &syn::Ident, tg: &syn::Generics, mut sig: Signature, mut block: syn::Block, u: &Unit, pos: (usize, usize)) -> TokenStream {
        norm::RenameSelf(true).visit_signature_mut(&mut sig);
        norm::RenameSelf(true).visit_block_mut(&mut block);
        // receiver -> ordinary argument
        for a in sig.inputs.iter_mut() {
            if let FnArg::Receiver(r) = a {
                if r.colon_token.is_some() {
                    let mut ty = (*r.ty).clone();
                    norm::RenameSelf(true).visit_type_mut(&mut ty);
                    *a = if r.mutability.is_some() { parse_quote!(mut self_: #ty) } else { parse_quote!(self_: #ty) };
                    continue;
                }
                let ty: Type = match &r.reference {
                    Some((_, lt)) => {
                        let m = r.mutability;
                        parse_quote!(& #lt #m Self_)
                    }
                    None => parse_quote!(Self_),
                };
                *a = parse_quote!(self_: #ty);
            } else if let FnArg::Typed(t) = a {
                if is_self(&t.pat) {
                    let m = matches!(&*t.pat, Pat::Ident(p) if p.mutability.is_some());
                    let ty = &t.ty;
                    *a = if m { parse_quote!(mut self_: #ty) } else { parse_quote!(self_: #ty) };
                }
            }
        }
        let name = format_ident!("{}__{}", tr, sig.ident);
        sig.ident = name;
        let bound: syn::TypeParamBound = parse_quote!(#tr);
        let sized = sig.generics.where_clause.as_ref().is_some_and(|w| ty_key(w).contains("Self_:Sized"));
        if sized {
            sig.generics.params.push(parse_quote!(Self_: #bound));
        } else {
            sig.generics.params.push(parse_quote!(Self_: #bound + ?Sized));
        }
        let _ = tg;
        if let Some(w) = &mut sig.generics.where_clause {
            w.predicates = w
                .predicates
                .iter()
                .filter(|p| !ty_key(p).starts_with("Self"))
                .cloned()
                .collect();
        }
        let c = self.c.map.get(&("fn".to_string(), crate::contracts::squash(key))).cloned();
        let k2 = format!("{key} (default body)");
        if let Some(c) = c {
            let t = word_replace(&word_replace(&c, "self", "self_"), "Self", "Self_");
            self.c.map.entry(("fn".into(), crate::contracts::squash(&k2))).or_insert(t);
            for i in 0..self.c.loops_for(key) {
                for kind in ["loop", "loopend", "loopbegin"] {
                    if let Some(t) = self.c.get(kind, &format!("{key} {i}")) {
                        let t = word_replace(&word_replace(&t, "self", "self_"), "Self", "Self_");
                        self.c.map.entry((kind.into(), crate::contracts::squash(&format!("{k2} {i}")))).or_insert(t);
                    }
                }
            }
            for kind in ["pre", "trusted", "attr"] {
                if let Some(t) = self.c.get(kind, key) {
                    let t = word_replace(&word_replace(&t, "self", "self_"), "Self", "Self_");
                    self.c.map.entry((kind.into(), crate::contracts::squash(&k2))).or_insert(t);
                }
            }
        }
        self.func(&k2, sig, block, false, true, u, pos)
    }

    #[allow(clippy::too_many_arguments)]
    fn emit_fn(&mut self, key: &str, sig: Signature, body: Option<TokenStream>, loops: usize, in_trait: bool, vis: bool, calls: &[String], pos: (usize, usize), loopinfo: &str) -> TokenStream {
        let (pos, pose) = pos;
        if self.c.get("drop", key).is_some() || self.c.fallback.contains(&format!("-{key}")) {
            self.rep(&["dropped", key, "fn"]);
            return quote!();
        }
        let mut sig = self_first(sig);
        let renames = self.name_params(key, &mut sig);
        if let Some(t) = self.c.get("returns", key) {
            match syn::parse_str::<Type>(t.trim()) {
                Ok(t) => sig.output = parse_quote!(-> #t),
                Err(_) => self.rep(&["note", key, "bad returns section"]),
            }
        }
        let sig = named_ret(&sig);
        let contract = self.c.get("fn", key);
        let want_loops = self.c.loops_for(key);
        let mut status = match (&contract, in_trait) {
            (Some(_), _) => "contract",
            (None, true) => "inherits",
            (None, false) => "none",
        }
        .to_string();
        let trusted = self.c.get("trusted", key).is_some();
        let inlined = contract.is_none() && self.inlined.contains(key);
        let lossy = loops != want_loops && (contract.is_some() || in_trait);
        let fallback = self.c.fallback.contains(key) || (lossy && !trusted);
        if inlined {
            status = "inlined".into();
        } else if trusted {
            status = "trusted".into();
        } else if lossy {
            status = format!("lost:loops {loops} annotated {want_loops}");
        } else if fallback {
            status = "fallback".into();
        }
        let file = self.file.clone();
        self.rep(&["fn", key, &format!("{file}:{pos}-{pose}"), &status, &calls.join(","), loopinfo]);
        let begin = self.splice(format!("// @fn-begin {key}"));
        let end = self.splice(format!("// @fn-end {key}"));
        let ctext = contract.unwrap_or_default();
        let c = self.splice(ctext);
        let v = if vis { quote!(pub) } else { quote!() };
        let mut attrs = match self.c.get("attr", key) {
            Some(t) => self.splice(t),
            None => quote!(),
        };
        if loops > 0 && self.inlined_into.contains(key) {
            attrs = quote!(#attrs #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]);
        }
        if trusted || fallback || inlined {
            return quote!(#begin #attrs #[verifier::external_body] #v #sig #c { unimplemented!() } #end);
        }
        let mut body = body.unwrap();
        // loop splices
        let words: BTreeSet<String> = body.to_string().split(|c: char| !c.is_alphanumeric() && c != '_').map(|w| w.to_string()).collect();
        for i in 0..loops {
            let name = format!("__vx_loop_{i}");
            let t = self.c.get("loop", &format!("{key} {i}")).unwrap_or_default();
            let (it, pat) = loopinfo
                .split(',')
                .nth(i)
                .and_then(|s| s.split_once('|'))
                .unwrap_or(("", ""));
            let (pat, more) = if pat.matches('|').count() == 2 && it.starts_with("vx_") { pat.split_once('|').unwrap() } else { (pat, "") };
            let (go, out) = more.split_once('|').unwrap_or(("", ""));
            let t = t.replace("$it", it).replace("$pat", pat).replace("$go", go).replace("$out", out);
            let t = optional(&t, &words);
            let sp = self.splice(t);
            let t = self.c.get("loopend", &format!("{key} {i}")).unwrap_or_default();
            let t = t.replace("$it", it).replace("$pat", pat).replace("$go", go).replace("$out", out);
            let t = optional(&t, &words);
            let spe = self.splice(t);
            let t = self.c.get("loopbegin", &format!("{key} {i}")).unwrap_or_default();
            let t = t.replace("$it", it).replace("$pat", pat).replace("$go", go).replace("$out", out);
            let t = optional(&t, &words);
            let spb = self.splice(t);
            body = norm::replace_marker(body, &format!("{name}_begin"), &spb);
            body = norm::replace_marker(body, &name, &sp);
            body = norm::replace_marker(body, &format!("{name}_end"), &spe);
        }
        // hints at the combinator applications
        for i in 0..200 {
            let (name, t) = (format!("__vx_comb_{i}"), self.c.get("comb", &format!("{key} {i}")));
            let t = t.unwrap_or_default().replace("$i", &format!("vx_ci{i}")).replace("$r", &format!("vx_cr{i}"));
            let sp = self.splice(t);
            let (b, hit) = comb_hint(body, &name, &sp);
            body = b;
            if !hit {
                break;
            }
        }
        // where the contract permits a panic
        if let Some(t) = self.c.get("abort", key) {
            let c = self.splice(t);
            body = abort_calls(body, &quote!((Ghost(#c))));
        }
        if !renames.is_empty() {
            body = quote!({ #renames #body });
        }
        if let Some(p) = self.c.get("pre", key) {
            let p = self.splice(p);
            body = quote!({ #p #body });
        }
        quote!(#begin #attrs #v #sig #c #body #end)
    }

    fn use_item(&mut self, i: syn::ItemUse, u: &Unit) -> TokenStream {
        let mut v = vec![];
        flatten(&i.tree, vec![], &mut v);
        let mut o = quote!();
        let vis = if matches!(i.vis, Visibility::Inherited) { quote!() } else { quote!(pub) };
        for (mut path, alias) in v {
            // nom's combinators are replaced where they are applied
            // and what nom has beyond them is found missing where it is used
            if path[0] == "nom" && !["anychar", "digit1", "IResult", "Err"].contains(&path.last().unwrap().as_str()) {
                continue;
            }
            if let Some(l) = path.last() {
                if MACRO_NAMES.contains(&l.as_str()) {
                    continue;
                }
            }
            if !norm::rename_segments(&mut path, self.units, u) {
                continue;
            }
            if path.iter().any(|s| u.skip.contains(s)) {
                continue;
            }
            if (path.starts_with(&["crate".into(), "vxq".into()]) || path.starts_with(&["crate".into(), "vxsyn".into()])) && !self.known.contains(path.last().unwrap()) {
                continue;
            }
            let glob = path.last().map(|s| s == "*").unwrap_or(false);
            let txt = path.join("::");
            let ts: TokenStream = match txt.parse() {
                Ok(t) => t,
                Err(_) => continue,
            };
            let a = match alias {
                Some(a) if !glob => {
                    let a = format_ident!("{}", a);
                    quote!(as #a)
                }
                _ => quote!(),
            };
            o.extend(quote!(#vis use #ts #a;));
        }
        o
    }
}

/// __vx_comb_N!(); => hint
fn comb_hint(ts: TokenStream, name: &str, with: &TokenStream) -> (TokenStream, bool) {
    let mut hit = false;
    let mut o: Vec<proc_macro2::TokenTree> = vec![];
    let mut it = ts.into_iter();
    while let Some(t) = it.next() {
        match t {
            proc_macro2::TokenTree::Ident(ref i) if i == name => {
                hit = true;
                it.by_ref().take(3).for_each(drop);
                o.extend(with.clone());
            }
            proc_macro2::TokenTree::Group(g) => {
                let (s, h) = comb_hint(g.stream(), name, with);
                hit |= h;
                let mut n = proc_macro2::Group::new(g.delimiter(), s);
                n.set_span(g.span());
                o.push(n.into());
            }
            t => o.push(t),
        }
    }
    (o.into_iter().collect(), hit)
}

/// vx_never() => vx_abort(Ghost(cond)), and the same for unwrap and assert
fn abort_calls(ts: TokenStream, arg: &TokenStream) -> TokenStream {
    let mut o: Vec<proc_macro2::TokenTree> = vec![];
    let mut it = ts.into_iter().peekable();
    let Some(proc_macro2::TokenTree::Group(cond)) = arg.clone().into_iter().next() else { unreachable!() };
    let cond = cond.stream();
    while let Some(t) = it.next() {
        match t {
            proc_macro2::TokenTree::Ident(i) if (i == "vx_never" || i == "vx_assert" || i == "unwrap") && matches!(it.peek(), Some(proc_macro2::TokenTree::Group(_))) => {
                let Some(proc_macro2::TokenTree::Group(g)) = it.next() else { unreachable!() };
                let inner = abort_calls(g.stream(), arg);
                if i == "vx_never" {
                    o.extend(quote!(vx_abort #arg));
                } else if i == "vx_assert" {
                    o.extend(quote!(vx_assert_or (#inner, #cond)));
                } else {
                    o.extend(quote!(vx_unwrap_or_abort #arg));
                }
            }
            proc_macro2::TokenTree::Group(g) => {
                let mut n = proc_macro2::Group::new(g.delimiter(), abort_calls(g.stream(), arg));
                n.set_span(g.span());
                o.push(n.into());
            }
            t => o.push(t),
        }
    }
    o.into_iter().collect()
}

/// names as the defining module imports them
struct Imports<'a>(&'a BTreeMap<String, Vec<String>>);
impl VisitMut for Imports<'_> {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        syn::visit_mut::visit_path_mut(self, p);
        if let Some(full) = self.0.get(&p.segments[0].ident.to_string()) {
            if let Ok(mut q) = syn::parse_str::<syn::Path>(&full.join("::")) {
                q.segments.last_mut().unwrap().arguments = p.segments[0].arguments.clone();
                q.segments.extend(p.segments.iter().skip(1).cloned());
                *p = q;
            }
        }
    }
}

fn nm_for(tk: &str, units: &[Unit], f: impl FnOnce(&mut Norm)) {
    let m = tk.split("::").next().unwrap();
    let u = units.iter().find(|u| u.module == m).unwrap();
    let mut n = Norm::new(units, u);
    f(&mut n);
}

fn flatten(t: &UseTree, pre: Vec<String>, out: &mut Vec<(Vec<String>, Option<String>)>) {
    match t {
        UseTree::Path(p) => {
            let mut pre = pre;
            pre.push(p.ident.to_string());
            flatten(&p.tree, pre, out);
        }
        UseTree::Name(n) => {
            let mut pre = pre;
            if n.ident != "self" {
                pre.push(n.ident.to_string());
            }
            out.push((pre, None));
        }
        UseTree::Rename(r) => {
            let mut pre = pre;
            if r.ident != "self" {
                pre.push(r.ident.to_string());
            }
            out.push((pre, Some(r.rename.to_string())));
        }
        UseTree::Glob(_) => {
            let mut pre = pre;
            pre.push("*".into());
            out.push((pre, None));
        }
        UseTree::Group(g) => {
            for t in &g.items {
                flatten(t, pre.clone(), out);
            }
        }
    }
}

fn keep_derives(d: &BTreeSet<String>) -> TokenStream {
    let mut v = vec![];
    if d.contains("Copy") {
        v.push(quote!(Copy));
        v.push(quote!(Clone));
    }
    if d.contains("PartialEq") {
        v.push(quote!(PartialEq));
    }
    if d.contains("Eq") {
        v.push(quote!(Eq));
    }
    if v.is_empty() {
        quote!()
    } else {
        quote!(#[derive(#(#v),*)])
    }
}

fn eq_spec(id: &syn::Ident) -> TokenStream {
    quote!(impl vstd::std_specs::cmp::PartialEqSpecImpl for #id {
        open spec fn obeys_eq_spec() -> bool { true }
        open spec fn eq_spec(&self, o: &#id) -> bool { *self == *o }
    })
}

pub fn lit_name(l: &[u8]) -> String {
    let mut s = String::from("lit_");
    for b in l {
        s.push_str(&format!("{b:02x}"));
    }
    s
}

fn lines(s: &proc_macro2::Span) -> (usize, usize) {
    (s.start().line, s.end().line)
}

pub fn is_self(p: &Pat) -> bool {
    matches!(p, Pat::Ident(i) if i.ident == "self")
}

/// `mut self: &mut Self` / `self: &Self` in declarations -> plain receiver
fn self_first(mut sig: Signature) -> Signature {
    if let Some(FnArg::Receiver(r)) = sig.inputs.first_mut() {
        if r.colon_token.is_some() {
            if let Type::Reference(t) = &*r.ty {
                if let Type::Path(p) = &*t.elem {
                    if p.path.is_ident("Self") {
                        let m = t.mutability;
                        let lt = &t.lifetime;
                        *r = parse_quote!(& #lt #m self);
                    }
                }
            }
        }
    }
    sig
}

fn named_ret(sig: &Signature) -> TokenStream {
    let mut s = sig.clone();
    let out = std::mem::replace(&mut s.output, ReturnType::Default);
    let wc = s.generics.where_clause.take();
    match out {
        ReturnType::Default => quote!(#s #wc),
        ReturnType::Type(_, t) => quote!(#s -> (r: #t) #wc),
    }
}

fn strip_generics(s: &str) -> String {
    s.split('<').next().unwrap().to_string()
}

pub fn word_replace(s: &str, from: &str, to: &str) -> String {
    let mut o = String::new();
    let mut w = String::new();
    let flush = |w: &mut String, o: &mut String| {
        if w == from {
            o.push_str(to);
        } else {
            o.push_str(w);
        }
        w.clear();
    };
    for c in s.chars() {
        if c.is_alphanumeric() || c == '_' {
            w.push(c);
        } else {
            flush(&mut w, &mut o);
            o.push(c);
        }
    }
    flush(&mut w, &mut o);
    o
}

#[allow(dead_code)]
fn unused(_: Fields) {}
