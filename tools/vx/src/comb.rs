//! nom's parser combinators, applied: `comb(args..)(input)` becomes the
//! first-order code that nom 7's definition of `comb` runs (functions given to
//! a combinator are called where it calls them). What is not known stays as it
//! is and is then outside the verifier's reach.
use proc_macro2::Ident;
use quote::{format_ident, quote};
use std::collections::BTreeMap;
use syn::visit::Visit;
use syn::{parse_quote, Expr, Lit, Path};

pub struct Comb<'a> {
    /// name in scope -> full path, for the names imported from nom
    pub imports: &'a BTreeMap<String, String>,
    pub n: usize,
}

pub fn kind(full: &str) -> Option<&'static str> {
    let f = full.strip_prefix("nom::")?;
    const KNOWN: &[&str] = &[
        "branch::alt",
        "bytes::complete::tag", "bytes::complete::take_while", "bytes::complete::take_while1", "bytes::complete::take_till", "bytes::complete::take_till1",
        "character::complete::char", "character::complete::none_of", "character::complete::one_of", "character::complete::satisfy",
        "combinator::all_consuming", "combinator::cut", "combinator::map", "combinator::map_res", "combinator::map_opt", "combinator::opt", "combinator::recognize",
        "combinator::value", "combinator::not", "combinator::peek", "combinator::verify", "combinator::success",
        "multi::many0", "multi::many1", "multi::separated_list0", "multi::separated_list1",
        "sequence::delimited", "sequence::pair", "sequence::preceded", "sequence::terminated", "sequence::tuple", "sequence::separated_pair",
    ];
    KNOWN.iter().find(|k| **k == f).map(|k| k.rsplit("::").next().unwrap())
}

struct Escapes(bool);
impl<'a> Visit<'a> for Escapes {
    fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'a syn::ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
}

impl Comb<'_> {
    fn full(&self, p: &Path) -> Option<String> {
        let v: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        if v[0] == "nom" {
            return Some(v.join("::"));
        }
        let head = self.imports.get(&v[0])?;
        Some(std::iter::once(head.clone()).chain(v.into_iter().skip(1)).collect::<Vec<_>>().join("::"))
    }
    fn comb<'e>(&self, e: &'e Expr) -> Option<(&'static str, Vec<&'e Expr>)> {
        if let Expr::Paren(p) = e {
            return self.comb(&p.expr);
        }
        let Expr::Call(c) = e else { return None };
        let Expr::Path(p) = &*c.func else { return None };
        let k = kind(&self.full(&p.path)?)?;
        Some((k, c.args.iter().collect()))
    }
    pub fn is_parser(&self, e: &Expr) -> bool {
        self.comb(e).is_some()
    }
    fn id(&mut self, s: &str) -> Ident {
        self.n += 1;
        format_ident!("vx_{}{}", s, self.n)
    }
    /// `comb(args..)(input)`
    pub fn applied(&mut self, e: &Expr, k: usize) -> Option<Expr> {
        let Expr::Call(c) = e else { return None };
        if c.args.len() != 1 {
            return None;
        }
        self.comb(&c.func)?;
        let (i, r) = (format_ident!("vx_ci{}", k), format_ident!("vx_cr{}", k));
        let body = self.run(&c.func, &i)?;
        let a = &c.args[0];
        let m = format_ident!("__vx_comb_{}", k);
        Some(parse_quote!({ let #i: &str = #a; let #r = #body; #m!(); #r }))
    }
    /// f(o)
    fn apply(&mut self, f: &Expr, o: &Ident) -> Option<Expr> {
        match f {
            Expr::Closure(c) if c.inputs.len() == 1 => {
                let mut x = Escapes(false);
                x.visit_expr(&c.body);
                if x.0 {
                    return None;
                }
                let pat = match &c.inputs[0] {
                    syn::Pat::Type(t) => (*t.pat).clone(),
                    p => p.clone(),
                };
                let b = &c.body;
                Some(parse_quote!({ let #pat = #o; #b }))
            }
            Expr::Path(_) => Some(parse_quote!(#f(#o))),
            _ => None,
        }
    }
    fn seq(&mut self, ps: &[&Expr], i: &Ident, pick: impl Fn(&[Ident]) -> Expr) -> Option<Expr> {
        // innermost last
        let mut ins = vec![i.clone()];
        let mut outs = vec![];
        let mut steps = vec![];
        for p in ps {
            let cur = ins.last().unwrap().clone();
            steps.push(self.run(p, &cur)?);
            ins.push(self.id("i"));
            outs.push(self.id("o"));
        }
        let rest = ins.last().unwrap().clone();
        let v = pick(&outs);
        let mut e: Expr = parse_quote!(Ok((#rest, #v)));
        for (k, s) in steps.into_iter().enumerate().rev() {
            let (r, o) = (&ins[k + 1], &outs[k]);
            let x = self.id("e");
            e = parse_quote!(match #s { Ok((#r, #o)) => #e, Err(#x) => Err(#x) });
        }
        Some(e)
    }
    /// what the parser `p` does on the input `i`
    fn run(&mut self, p: &Expr, i: &Ident) -> Option<Expr> {
        let Some((k, a)) = self.comb(p) else {
            return match p {
                Expr::Paren(p) => self.run(&p.expr, i),
                Expr::Closure(_) => self.apply(p, i),
                _ => Some(parse_quote!(#p(#i))),
            };
        };
        let er = quote!(crate::vxnom::Err::Error);
        let fail = quote!(Err(crate::vxnom::Err::Error(crate::vxnom::error())));
        let (r, o, x) = (self.id("i"), self.id("o"), self.id("e"));
        match (k, a.as_slice()) {
            ("alt", [Expr::Tuple(t)]) => {
                let n = t.elems.len();
                let mut e: Option<Expr> = None;
                for (k, p) in t.elems.iter().enumerate().rev() {
                    let s = self.run(p, i)?;
                    let x = self.id("r");
                    e = Some(match e {
                        None if k + 1 == n => s,
                        Some(e) => parse_quote!(match #s { Err(#er(_)) => #e, #x => #x }),
                        None => return None,
                    });
                }
                e
            }
            ("tag", [l]) => Some(parse_quote!(crate::vxnom::tag(#l, #i))),
            ("char", [c]) => {
                Some(parse_quote!(match crate::vxnom::character::complete::anychar(#i) { Ok((#r, #o)) => if #o == #c { Ok((#r, #o)) } else { #fail }, Err(#x) => Err(#x) }))
            }
            ("satisfy", [f]) => {
                let b = self.apply(f, &o)?;
                Some(parse_quote!(match crate::vxnom::character::complete::anychar(#i) { Ok((#r, #o)) => if #b { Ok((#r, #o)) } else { #fail }, Err(#x) => Err(#x) }))
            }
            ("none_of" | "one_of", [Expr::Lit(syn::ExprLit { lit: Lit::Str(s), .. })]) => {
                let cs: Vec<char> = s.value().chars().collect();
                let b: Expr = if k == "none_of" { parse_quote!(true #(&& #o != #cs)*) } else { parse_quote!(false #(|| #o == #cs)*) };
                Some(parse_quote!(match crate::vxnom::character::complete::anychar(#i) { Ok((#r, #o)) => if #b { Ok((#r, #o)) } else { #fail }, Err(#x) => Err(#x) }))
            }
            ("value", [v, p]) => {
                let s = self.run(p, i)?;
                Some(parse_quote!(match #s { Ok((#r, _)) => Ok((#r, #v)), Err(#x) => Err(#x) }))
            }
            ("map", [p, f]) => {
                let (s, b) = (self.run(p, i)?, self.apply(f, &o)?);
                Some(parse_quote!(match #s { Ok((#r, #o)) => Ok((#r, #b)), Err(#x) => Err(#x) }))
            }
            ("map_res", [p, f]) => {
                let (s, b, v) = (self.run(p, i)?, self.apply(f, &o)?, self.id("o"));
                Some(parse_quote!(match #s { Ok((#r, #o)) => match #b { Ok(#v) => Ok((#r, #v)), Err(_) => #fail }, Err(#x) => Err(#x) }))
            }
            ("map_opt", [p, f]) => {
                let (s, b, v) = (self.run(p, i)?, self.apply(f, &o)?, self.id("o"));
                Some(parse_quote!(match #s { Ok((#r, #o)) => match #b { Some(#v) => Ok((#r, #v)), None => #fail }, Err(#x) => Err(#x) }))
            }
            ("verify", [p, f]) => {
                let y = self.id("o");
                let (s, b) = (self.run(p, i)?, self.apply(f, &y)?);
                Some(parse_quote!(match #s { Ok((#r, #o)) => { let #y = &#o; if #b { Ok((#r, #o)) } else { #fail } }, Err(#x) => Err(#x) }))
            }
            ("opt", [p]) => {
                let s = self.run(p, i)?;
                Some(parse_quote!(match #s { Ok((#r, #o)) => Ok((#r, Some(#o))), Err(#er(_)) => Ok((#i, None)), Err(#x) => Err(#x) }))
            }
            ("cut", [p]) => {
                let s = self.run(p, i)?;
                let y = self.id("r");
                Some(parse_quote!(match #s { Err(#er(#x)) => Err(crate::vxnom::Err::Failure(#x)), #y => #y }))
            }
            ("recognize", [p]) => {
                let s = self.run(p, i)?;
                Some(parse_quote!(match #s { Ok((#r, _)) => Ok((#r, crate::vxnom::consumed(#i, #r))), Err(#x) => Err(#x) }))
            }
            ("all_consuming", [p]) => {
                let s = self.run(p, i)?;
                Some(parse_quote!(match #s { Ok((#r, #o)) => if crate::vxnom::left(#r) == 0 { Ok((#r, #o)) } else { #fail }, Err(#x) => Err(#x) }))
            }
            ("peek", [p]) => {
                let s = self.run(p, i)?;
                Some(parse_quote!(match #s { Ok((_, #o)) => Ok((#i, #o)), Err(#x) => Err(#x) }))
            }
            ("not", [p]) => {
                let s = self.run(p, i)?;
                Some(parse_quote!(match #s { Ok(_) => #fail, Err(#er(_)) => Ok((#i, ())), Err(#x) => Err(#x) }))
            }
            ("success", [v]) => Some(parse_quote!(Ok((#i, #v)))),
            ("pair", [a, b]) => self.seq(&[a, b], i, |o| { let (x, y) = (&o[0], &o[1]); parse_quote!((#x, #y)) }),
            ("tuple", [Expr::Tuple(t)]) => {
                let v: Vec<&Expr> = t.elems.iter().collect();
                self.seq(&v, i, |o| parse_quote!((#(#o,)*)))
            }
            ("preceded", [a, b]) => self.seq(&[a, b], i, |o| { let x = &o[1]; parse_quote!(#x) }),
            ("terminated", [a, b]) => self.seq(&[a, b], i, |o| { let x = &o[0]; parse_quote!(#x) }),
            ("delimited", [a, b, c]) => self.seq(&[a, b, c], i, |o| { let x = &o[1]; parse_quote!(#x) }),
            ("separated_pair", [a, b, c]) => self.seq(&[a, b, c], i, |o| { let (x, y) = (&o[0], &o[2]); parse_quote!((#x, #y)) }),
            ("many0", [p]) => self.repeat(i, None, None, p, true),
            ("many1", [p]) => self.repeat(i, Some(p), None, p, false),
            ("separated_list0", [s, p]) => self.repeat(i, Some(p), Some(s), p, true),
            ("separated_list1", [s, p]) => self.repeat(i, Some(p), Some(s), p, false),
            ("take_while" | "take_till" | "take_while1" | "take_till1", [f]) => {
                let neg = k.starts_with("take_till");
                let b = self.apply(f, &o)?;
                let b: Expr = if neg { parse_quote!(!#b) } else { b };
                let (cur, f1) = (self.id("i"), self.id("f"));
                let _ = &f1;
                let end: Expr = if k.ends_with('1') {
                    parse_quote!(if crate::vxnom::left(#cur) == crate::vxnom::left(#i) { #fail } else { Ok((#cur, crate::vxnom::consumed(#i, #cur))) })
                } else {
                    parse_quote!(Ok((#cur, crate::vxnom::consumed(#i, #cur))))
                };
                let y = self.id("m");
                Some(parse_quote!({
                    let mut #cur: &str = #i;
                    let mut #y: bool = true;
                    while vx_comb_many(#cur, (), #y, ()) {
                        match crate::vxnom::character::complete::anychar(#cur) {
                            Ok((#r, #o)) => if #b { #cur = #r; } else { #y = false; },
                            Err(_) => { #y = false; }
                        }
                    }
                    #end
                }))
            }
            _ => None,
        }
    }
    /// many0/many1/separated_list0/separated_list1. The loop's condition names
    /// the rest and the results for the loop's contract.
    fn repeat(&mut self, i: &Ident, first: Option<&Expr>, sep: Option<&Expr>, p: &Expr, zero: bool) -> Option<Expr> {
        let er = quote!(crate::vxnom::Err::Error);
        let fail = quote!(crate::vxnom::Err::Error(crate::vxnom::error()));
        let (cur, acc, go, out) = (self.id("i"), self.id("v"), self.id("m"), self.id("e"));
        let (r, o, x) = (self.id("i"), self.id("o"), self.id("e"));
        // one round
        let step = self.run(p, if sep.is_some() { &r } else { &cur })?;
        let (r2, x2) = (self.id("i"), self.id("e"));
        let round: Expr = match sep {
            None => parse_quote!(match #step {
                Ok((#r, #o)) => if crate::vxnom::left(#r) == crate::vxnom::left(#cur) { #out = Some(#fail); #go = false; } else { #acc.push(#o); #cur = #r; },
                Err(#er(_)) => { #go = false; }
                Err(#x) => { #out = Some(#x); #go = false; }
            }),
            Some(s) => {
                let s = self.run(s, &cur)?;
                parse_quote!(match #s {
                    Ok((#r, _)) => if crate::vxnom::left(#r) == crate::vxnom::left(#cur) { #out = Some(#fail); #go = false; } else {
                        match #step {
                            Ok((#r2, #o)) => { #acc.push(#o); #cur = #r2; }
                            Err(#er(_)) => { #go = false; }
                            Err(#x2) => { #out = Some(#x2); #go = false; }
                        }
                    },
                    Err(#er(_)) => { #go = false; }
                    Err(#x) => { #out = Some(#x); #go = false; }
                })
            }
        };
        let rest: Expr = parse_quote!({
            while vx_comb_many(#cur, #acc, #go, #out) { #round }
            match #out { None => Ok((#cur, #acc)), Some(#x) => Err(#x) }
        });
        let all: Expr = match first {
            None => parse_quote!({
                let mut #cur: &str = #i; let mut #acc = Vec::new(); let mut #go: bool = true; let mut #out = None;
                #rest
            }),
            Some(f) => {
                let s = self.run(f, i)?;
                let (r0, o0, x0) = (self.id("i"), self.id("o"), self.id("e"));
                let none: Vec<syn::Arm> = if zero { vec![parse_quote!(Err(#er(_)) => Ok((#i, Vec::new())),)] } else { vec![] };
                parse_quote!(match #s {
                    Ok((#r0, #o0)) => {
                        let mut #cur: &str = #r0; let mut #acc = Vec::new(); let mut #go: bool = true; let mut #out = None;
                        #acc.push(#o0);
                        #rest
                    }
                    #(#none)*
                    Err(#x0) => Err(#x0)
                })
            }
        };
        Some(all)
    }
}
