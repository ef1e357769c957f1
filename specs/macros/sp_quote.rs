// Trusted contracts for what macros/src/{lib,to_tokens}.rs take from
// proc_macro2, quote and syn: token streams are sequences of tokens, quote!
// concatenates, and the syntax the macro passes through is opaque.
verus! {
pub mod vxq {
    use vstd::prelude::*;
    use crate::shim::*;
    use crate::macros_::format::FormatTrait;

    /// a token, or a piece of syntax passed through
    pub enum Tok { Word(u64), Index(nat), Usize(nat), Bool(bool), Str(Seq<char>), Var(Seq<char>) }

    #[verifier::external_body]
    pub struct TokenStream { x: u8 }
    impl TokenStream {
        pub uninterp spec fn view(&self) -> Seq<Tok>;
        #[verifier::external_body]
        pub fn new() -> (r: TokenStream)
            ensures r@ == Seq::<Tok>::empty(),
        { unimplemented!() }
        /// Extend<TokenStream>, given a stream
        #[verifier::external_body]
        pub fn extend(&mut self, t: TokenStream)
            ensures final(self)@ == old(self)@ + t@,
        { unimplemented!() }
        pub fn into_token_stream(self) -> (r: TokenStream)
            ensures r == self,
        { self }
        pub fn into(self) -> (r: TokenStream)
            ensures r == self,
        { self }
    }
    #[verifier::external_body]
    pub fn cat(a: TokenStream, b: TokenStream) -> (r: TokenStream)
        ensures r@ == a@ + b@,
    { unimplemented!() }

    pub broadcast proof fn lemma_after(a: Seq<Tok>, b: Seq<Tok>)
        ensures #[trigger] (a + b).skip(a.len() as int) == b,
    { assert((a + b).skip(a.len() as int) =~= b); }
    pub broadcast proof fn lemma_nothing(a: Seq<Tok>)
        ensures #[trigger] (Seq::<Tok>::empty() + a) == a,
    { assert((Seq::<Tok>::empty() + a) =~= a); }
    pub broadcast proof fn lemma_assoc(a: Seq<Tok>, b: Seq<Tok>, c: Seq<Tok>)
        ensures #[trigger] (a + (b + c)) == (a + b) + c,
    { assert((a + (b + c)) =~= (a + b) + c); }
    pub broadcast group group_toks { lemma_after, lemma_nothing, lemma_assoc }

    /// quote::ToTokens; `emits` says which tokens, `ok` that there are some
    pub trait ToTokens {
        spec fn ok(&self) -> bool;
        spec fn emits(&self, t: Seq<Tok>) -> bool;
        fn to_tokens(&self, tokens: &mut TokenStream)
            requires self.ok(),
            ensures
                final(tokens)@ == old(tokens)@ + final(tokens)@.skip(old(tokens)@.len() as int),
                self.emits(final(tokens)@.skip(old(tokens)@.len() as int));
        /// `#x` in quote!
        fn vx_toks(&self) -> (r: TokenStream)
            requires self.ok(),
            ensures self.emits(r@),
        {
            broadcast use group_toks;
            let mut t = TokenStream::new();
            self.to_tokens(&mut t);
            t
        }
    }
    /// syntax that always gives the same tokens
    pub trait Fixed {
        spec fn toks(&self) -> Seq<Tok>;
    }
    /// `#( a #x b )*` in quote!
    pub open spec fn reps(a: Seq<Tok>, s: Seq<Seq<Tok>>, b: Seq<Tok>) -> Seq<Tok>
        decreases s.len(),
    {
        if s.len() == 0 { Seq::empty() } else { reps(a, s.drop_last(), b) + (a + s.last() + b) }
    }
    pub open spec fn all_toks<T: Fixed>(s: Seq<T>) -> Seq<Seq<Tok>> { s.map_values(|x: T| x.toks()) }
    pub trait VxRep {
        spec fn each(&self) -> Seq<Seq<Tok>>;
        fn vx_rep(&self, a: TokenStream, b: TokenStream) -> (r: TokenStream)
            ensures r@ == reps(a@, self.each(), b@);
    }
    impl<T: Fixed> VxRep for Vec<T> {
        open spec fn each(&self) -> Seq<Seq<Tok>> { all_toks(self@) }
        #[verifier::external_body]
        fn vx_rep(&self, a: TokenStream, b: TokenStream) -> (r: TokenStream) { unimplemented!() }
    }
    impl<T: Fixed> VxRep for VxIter<T> {
        open spec fn each(&self) -> Seq<Seq<Tok>> { all_toks(self@) }
        #[verifier::external_body]
        fn vx_rep(&self, a: TokenStream, b: TokenStream) -> (r: TokenStream) { unimplemented!() }
    }

    impl Fixed for TokenStream { open spec fn toks(&self) -> Seq<Tok> { self@ } }
    impl ToTokens for TokenStream {
        open spec fn ok(&self) -> bool { true }
        open spec fn emits(&self, t: Seq<Tok>) -> bool { t == self@ }
        #[verifier::external_body]
        fn to_tokens(&self, tokens: &mut TokenStream) { unimplemented!() }
    }
    impl ToTokens for bool {
        open spec fn ok(&self) -> bool { true }
        open spec fn emits(&self, t: Seq<Tok>) -> bool { t == seq![Tok::Bool(*self)] }
        #[verifier::external_body]
        fn to_tokens(&self, tokens: &mut TokenStream) { unimplemented!() }
    }
    impl ToTokens for usize {
        open spec fn ok(&self) -> bool { true }
        open spec fn emits(&self, t: Seq<Tok>) -> bool { t == seq![Tok::Usize(*self as nat)] }
        #[verifier::external_body]
        fn to_tokens(&self, tokens: &mut TokenStream) { unimplemented!() }
    }
    pub enum PathArguments { None, AngleBracketed(Opaque), Parenthesized(Opaque) }
    #[verifier::external_body]
    pub struct Opaque { x: u8 }
    pub struct PathSegment { pub ident: Ident, pub arguments: PathArguments }
    impl PathSegment {
        /// of a Pair
        pub fn into_value(self) -> (r: PathSegment)
            ensures r == self,
        { self }
    }
    /// syn::Punctuated is a list here
    pub struct Path { pub leading_colon: Option<Opaque>, pub segments: Vec<PathSegment> }
    impl Fixed for Path { uninterp spec fn toks(&self) -> Seq<Tok>; }
    impl ToTokens for Path {
        open spec fn ok(&self) -> bool { true }
        open spec fn emits(&self, t: Seq<Tok>) -> bool { t == self.toks() }
        #[verifier::external_body]
        fn to_tokens(&self, tokens: &mut TokenStream) { unimplemented!() }
    }
    /// syn::parse_quote! to a path
    #[verifier::external_body]
    pub fn parse_path(t: TokenStream) -> (r: Path)
        ensures r.toks() == t@,
    { unimplemented!() }
    pub struct ExprAssign { pub attrs: Vec<Attribute>, pub left: Box<Expr>, pub right: Box<Expr> }
    /// the other variants are one
    pub enum Expr { Assign(ExprAssign), Path(ExprPath), Verbatim(Opaque) }
    impl Fixed for Expr { uninterp spec fn toks(&self) -> Seq<Tok>; }
    #[verifier::external_body]
    #[derive(Clone, Copy)]
    pub struct Span { x: u8 }
    impl Span {
        #[verifier::external_body]
        pub fn call_site() -> (r: Span) { unimplemented!() }
        #[verifier::external_body]
        pub fn resolved_at(&self, o: Span) -> (r: Span) { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct Ident { x: u8 }
    /// the identifiers that do not name variables (and have no raw form)
    pub open spec fn no_variable(s: Seq<char>) -> bool {
        s == seq!['s', 'u', 'p', 'e', 'r'] || s == seq!['c', 'r', 'a', 't', 'e'] || s == seq!['S', 'e', 'l', 'f'] || s == seq!['_']
    }
    pub open spec fn is_self(s: Seq<char>) -> bool { s == seq!['s', 'e', 'l', 'f'] }
    pub uninterp spec fn is_word(s: Seq<char>) -> bool;
    pub uninterp spec fn word(s: Seq<char>) -> Seq<Tok>;
    impl Ident {
        /// the name that the identifier stands for, without r#
        pub uninterp spec fn view(&self) -> Seq<char>;
        pub uninterp spec fn raw(&self) -> bool;
        /// as an expression: a variable unless it is a keyword
        pub open spec fn as_path(&self) -> Seq<Tok> { if self.raw() || is_self(self@) || !is_word(self@) { seq![Tok::Var(self@)] } else { word(self@) } }
        #[verifier::external_body]
        pub fn vx_new_raw(s: &str, span: Span) -> (r: Option<Ident>)
            ensures
                r is Some <==> !no_variable(s@) && !is_self(s@),
                r is Some ==> (r->0)@ == s@ && (r->0).raw(),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn new(s: &str, span: Span) -> (r: Ident)
            ensures r@ == s@, !r.raw(),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn unraw(&self) -> (r: Ident)
            ensures r@ == self@, !r.raw(),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn to_string(&self) -> (r: String)
            ensures r@ == if self.raw() { seq!['r', '#'] + self@ } else { self@ },
        { unimplemented!() }
        #[verifier::external_body]
        pub fn into(self) -> (r: Path)
            ensures r.toks() == self.as_path(),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn clone(&self) -> (r: Ident)
            ensures r@ == self@, r.raw() == self.raw(),
        { unimplemented!() }
    }
    pub mod ext { pub trait IdentExt {} }
    #[verifier::external_body]
    pub struct Attribute { x: u8 }
    #[verifier::external_body]
    pub struct QSelf { x: u8 }
    pub struct ExprPath { pub attrs: Vec<Attribute>, pub qself: Option<QSelf>, pub path: Path }
    pub uninterp spec fn qualified(p: ExprPath) -> Seq<Tok>;
    impl Fixed for ExprPath {
        open spec fn toks(&self) -> Seq<Tok> { if self.attrs@.len() == 0 && self.qself is None { self.path.toks() } else { qualified(*self) } }
    }
    #[verifier::external_body]
    pub struct Index { x: u8 }
    impl Index {
        pub uninterp spec fn view(&self) -> nat;
        #[verifier::external_body]
        pub fn from(i: usize) -> (r: Index)
            ensures r@ == i,
        { unimplemented!() }
    }
    impl ToTokens for Index {
        open spec fn ok(&self) -> bool { true }
        open spec fn emits(&self, t: Seq<Tok>) -> bool { t == seq![Tok::Index(self@)] }
        #[verifier::external_body]
        fn to_tokens(&self, tokens: &mut TokenStream) { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct LitStr { x: u8 }
    impl LitStr {
        pub uninterp spec fn view(&self) -> Seq<char>;
        #[verifier::external_body]
        pub fn new(s: &str, span: Span) -> (r: LitStr)
            ensures r@ == s@,
        { unimplemented!() }
        #[verifier::external_body]
        pub fn value(&self) -> (r: String)
            ensures r@ == self@,
        { unimplemented!() }
        #[verifier::external_body]
        pub fn span(&self) -> (r: Span) { unimplemented!() }
    }
    impl ToTokens for LitStr {
        open spec fn ok(&self) -> bool { true }
        open spec fn emits(&self, t: Seq<Tok>) -> bool { t == seq![Tok::Str(self@)] }
        #[verifier::external_body]
        fn to_tokens(&self, tokens: &mut TokenStream) { unimplemented!() }
    }
}
}
