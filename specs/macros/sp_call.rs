// What a call of the macros is: the crate, the format string, the arguments.
// syn's stream, tokens and expressions are trusted; ArgsInput::parse is proved.
verus! {
pub mod vxsyn {
    use vstd::prelude::*;
    use crate::vxq::*;

    #[verifier::external_body]
    pub struct Error { x: u8 }
    impl Error {
        #[verifier::external_body]
        pub fn to_compile_error(&self) -> (r: TokenStream) { unimplemented!() }
    }
    pub type Result<T, E = Error> = core::result::Result<T, E>;

    /// syn::parse::ParseBuffer: the tokens not read yet
    #[verifier::external_body]
    pub struct ParseBuffer { x: u8 }
    impl ParseBuffer {
        pub uninterp spec fn view(&self) -> Seq<Tok>;
        #[verifier::external_body]
        pub fn vx_new(t: TokenStream) -> (r: ParseBuffer)
            ensures r@ == t@,
        { unimplemented!() }
        #[verifier::external_body]
        pub fn is_empty(&self) -> (r: bool)
            ensures r == (self@.len() == 0),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn peek<T: Token>(&self, t: T) -> (r: bool)
            ensures r == begins(self@, T::tok()),
        { unimplemented!() }
        pub fn parse<T: Parse>(&mut self) -> (r: Result<T>)
            ensures match r { Ok(v) => T::reads(old(self)@) == Some((v.vw(), final(self)@)), Err(_) => T::reads(old(self)@) is None },
        { T::parse(self) }
    }
    pub open spec fn begins(s: Seq<Tok>, t: Seq<Tok>) -> bool { t.is_prefix_of(s) }

    pub trait Parse: Sized {
        type V;
        spec fn vw(&self) -> Self::V;
        /// what is read from s, and the rest; None: an error
        spec fn reads(s: Seq<Tok>) -> Option<(Self::V, Seq<Tok>)>;
        fn parse(input: &mut ParseBuffer) -> (r: Result<Self>)
            ensures match r { Ok(v) => Self::reads(old(input)@) == Some((v.vw(), final(input)@)), Err(_) => Self::reads(old(input)@) is None };
    }
    /// syn::parse_macro_input!: all of the input, or tokens that report the error
    pub fn macro_input<T: Parse>(t: TokenStream) -> (r: Result<T, TokenStream>)
        ensures match r { Ok(a) => read_all::<T>(t@) == Some(a.vw()), Err(_) => read_all::<T>(t@) is None },
    {
        let mut s = ParseBuffer::vx_new(t);
        match T::parse(&mut s) {
            Ok(v) => if s.is_empty() { Ok(v) } else { Err(unexpected().to_compile_error()) },
            Err(e) => Err(e.to_compile_error()),
        }
    }
    #[verifier::external_body]
    fn unexpected() -> (r: Error) { unimplemented!() }
    pub open spec fn read_all<T: Parse>(t: Seq<Tok>) -> Option<T::V> {
        match T::reads(t) { Some((v, r)) => if r.len() == 0 { Some(v) } else { None }, None => None }
    }

    pub trait Token: Sized {
        spec fn tok() -> Seq<Tok>;
    }
    /// one token
    pub open spec fn after(s: Seq<Tok>, t: Seq<Tok>) -> Option<((), Seq<Tok>)> {
        if begins(s, t) { Some(((), s.skip(t.len() as int))) } else { None }
    }
    pub struct Crate;
    impl Token for Crate { open spec fn tok() -> Seq<Tok> { vxq![crate] } }
    pub struct Eq;
    impl Token for Eq { open spec fn tok() -> Seq<Tok> { vxq![=] } }
    pub struct Comma;
    impl Token for Comma { open spec fn tok() -> Seq<Tok> { vxq![,] } }
    impl Parse for Crate {
        type V = ();
        open spec fn vw(&self) -> () { () }
        open spec fn reads(s: Seq<Tok>) -> Option<((), Seq<Tok>)> { after(s, vxq![crate]) }
        #[verifier::external_body]
        fn parse(input: &mut ParseBuffer) -> (r: Result<Self>) { unimplemented!() }
    }
    impl Parse for Eq {
        type V = ();
        open spec fn vw(&self) -> () { () }
        open spec fn reads(s: Seq<Tok>) -> Option<((), Seq<Tok>)> { after(s, vxq![=]) }
        #[verifier::external_body]
        fn parse(input: &mut ParseBuffer) -> (r: Result<Self>) { unimplemented!() }
    }
    impl Parse for Comma {
        type V = ();
        open spec fn vw(&self) -> () { () }
        open spec fn reads(s: Seq<Tok>) -> Option<((), Seq<Tok>)> { after(s, vxq![,]) }
        #[verifier::external_body]
        fn parse(input: &mut ParseBuffer) -> (r: Result<Self>) { unimplemented!() }
    }
    /// what syn reads of a path, a string literal, an expression: never nothing
    pub uninterp spec fn read_path(s: Seq<Tok>) -> Option<(Seq<Tok>, Seq<Tok>)>;
    pub uninterp spec fn read_lit(s: Seq<Tok>) -> Option<(Seq<char>, Seq<Tok>)>;
    pub uninterp spec fn read_expr(s: Seq<Tok>) -> Option<(SExpr, Seq<Tok>)>;
    /// `name = value` is the assignment to a name, any other expression is itself
    pub enum SExpr { Named(Seq<char>, Seq<Tok>), Plain(Seq<Tok>) }
    pub open spec fn v_expr(e: Expr) -> SExpr {
        match name_in(e) { Some((n, v)) => SExpr::Named(n, v), None => SExpr::Plain(e.toks()) }
    }
    pub open spec fn name_in(e: Expr) -> Option<(Seq<char>, Seq<Tok>)> {
        match e {
            Expr::Assign(a) => match *a.left {
                Expr::Path(p) => if p.path.segments@.len() == 1 && p.path.segments@[0].arguments is None { Some((p.path.segments@[0].ident@, a.right.toks())) } else { None },
                _ => None,
            },
            _ => None,
        }
    }
    impl Parse for Path {
        type V = Seq<Tok>;
        open spec fn vw(&self) -> Seq<Tok> { self.toks() }
        open spec fn reads(s: Seq<Tok>) -> Option<(Seq<Tok>, Seq<Tok>)> { read_path(s) }
        #[verifier::external_body]
        fn parse(input: &mut ParseBuffer) -> (r: Result<Self>) { unimplemented!() }
    }
    impl Parse for LitStr {
        type V = Seq<char>;
        open spec fn vw(&self) -> Seq<char> { self@ }
        open spec fn reads(s: Seq<Tok>) -> Option<(Seq<char>, Seq<Tok>)> { read_lit(s) }
        #[verifier::external_body]
        fn parse(input: &mut ParseBuffer) -> (r: Result<Self>) { unimplemented!() }
    }
    impl Parse for Expr {
        type V = SExpr;
        open spec fn vw(&self) -> SExpr { v_expr(*self) }
        open spec fn reads(s: Seq<Tok>) -> Option<(SExpr, Seq<Tok>)> { read_expr(s) }
        #[verifier::external_body]
        fn parse(input: &mut ParseBuffer) -> (r: Result<Self>) { unimplemented!() }
    }
    /// a part that is read is a front part
    pub broadcast axiom fn axiom_shrinks(s: Seq<Tok>)
        ensures match #[trigger] read_expr(s) { Some((_, r)) => r.len() < s.len(), None => true };
}

pub mod sp_call {
    use vstd::prelude::*;
    use crate::vxq::*;
    use crate::vxsyn::*;
    use crate::sp_emit::*;

    pub open spec fn so_far(krate: Option<Path>, format: LitStr, pos: Seq<Expr>, named: Seq<(Ident, Expr)>) -> Call {
        Call {
            krate: match krate { Some(p) => Some(p.toks()), None => None },
            fmt: format@,
            pos: all_toks(pos),
            names: named.map_values(|x: (Ident, Expr)| x.0@),
            named: all_toks(named.map_values(|x: (Ident, Expr)| x.1)),
        }
    }
    pub broadcast proof fn lemma_none(k: Option<Path>, f: LitStr)
        ensures #[trigger] so_far(k, f, Seq::empty(), Seq::empty()) == (Call { pos: Seq::empty(), names: Seq::empty(), named: Seq::empty(), ..so_far(k, f, Seq::empty(), Seq::empty()) }),
    {
        let c = so_far(k, f, Seq::empty(), Seq::empty());
        assert(c.pos =~= Seq::empty() && c.names =~= Seq::empty() && c.named =~= Seq::empty());
    }
    pub broadcast proof fn lemma_one_more(k: Option<Path>, f: LitStr, p: Seq<Expr>, n: Seq<(Ident, Expr)>, e: Expr)
        ensures #[trigger] so_far(k, f, p.push(e), n) == (Call { pos: so_far(k, f, p, n).pos.push(e.toks()), ..so_far(k, f, p, n) }),
    { assert(all_toks(p.push(e)) =~= all_toks(p).push(e.toks())); }
    pub broadcast proof fn lemma_one_named(k: Option<Path>, f: LitStr, p: Seq<Expr>, n: Seq<(Ident, Expr)>, e: (Ident, Expr))
        ensures #[trigger] so_far(k, f, p, n.push(e)) == (Call { names: so_far(k, f, p, n).names.push(e.0@), named: so_far(k, f, p, n).named.push(e.1.toks()), ..so_far(k, f, p, n) }),
    {
        let m = n.push(e);
        assert(m.map_values(|x: (Ident, Expr)| x.0@) =~= n.map_values(|x: (Ident, Expr)| x.0@).push(e.0@));
        assert(all_toks(m.map_values(|x: (Ident, Expr)| x.1)) =~= all_toks(n.map_values(|x: (Ident, Expr)| x.1)).push(e.1.toks()));
    }
    pub broadcast group group_call { lemma_none, lemma_one_more, lemma_one_named, axiom_shrinks }

    /// [crate = PATH ,] LITERAL {, EXPR} [,]
    pub open spec fn p_call(s: Seq<Tok>) -> Option<(Call, Seq<Tok>)> {
        match p_crate(s) {
            None => None,
            Some((k, s1)) => match read_lit(s1) {
                None => None,
                Some((f, s2)) => p_args(s2, Call { krate: k, fmt: f, pos: Seq::empty(), names: Seq::empty(), named: Seq::empty() }),
            }
        }
    }
    pub open spec fn p_crate(s: Seq<Tok>) -> Option<(Option<Seq<Tok>>, Seq<Tok>)> {
        if !begins(s, vxq![crate]) { Some((None, s)) } else {
            let s1 = s.skip(vxq![crate].len() as int);
            if !begins(s1, vxq![=]) { None } else {
                match read_path(s1.skip(vxq![=].len() as int)) {
                    None => None,
                    Some((p, s2)) => if begins(s2, vxq![,]) { Some((Some(p), s2.skip(vxq![,].len() as int))) } else { None },
                }
            }
        }
    }
    /// positional ones, then named ones; a comma may end them
    pub open spec fn p_args(s: Seq<Tok>, c: Call) -> Option<(Call, Seq<Tok>)>
        decreases s.len(),
    {
        if !begins(s, vxq![,]) { Some((c, s)) } else {
            let s1 = s.skip(vxq![,].len() as int);
            if s1.len() == 0 { Some((c, s1)) } else {
                match read_expr(s1) {
                    None => None,
                    Some((e, s2)) => if s2.len() >= s.len() { None } else {
                        match e {
                            SExpr::Named(n, v) => p_args(s2, Call { names: c.names.push(n), named: c.named.push(v), ..c }),
                            SExpr::Plain(v) => if c.names.len() > 0 { None } else { p_args(s2, Call { pos: c.pos.push(v), ..c }) },
                        }
                    }
                }
            }
        }
    }
    /// the call that the tokens given to the macro spell, if they spell one
    pub open spec fn read_call(t: Seq<Tok>) -> Option<Call> {
        match p_call(t) { Some((c, r)) => if r.len() == 0 { Some(c) } else { None }, None => None }
    }
}
}
