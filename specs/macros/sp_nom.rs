// What nom 7's primitive parsers, str and unicode-ident do (assumed); the
// combinators are replaced where they are applied (tools/vx/src/comb.rs).
verus! {
pub mod vxnom {
    use vstd::prelude::*;

    #[verifier::external_body]
    pub struct Error { e: () }
    pub enum Err<E> { Incomplete(usize), Error(E), Failure(E) }
    pub type IResult<I, O> = Result<(I, O), Err<Error>>;

    /// r is what is left of s
    pub open spec fn sfx(s: Seq<char>, r: Seq<char>) -> bool { r.len() <= s.len() && r == s.skip(s.len() - r.len()) }
    pub open spec fn is_no<T>(r: Result<T, Err<Error>>) -> bool { r is Err && r->Err_0 is Error }
    pub open spec fn is_fail<T>(r: Result<T, Err<Error>>) -> bool { r is Err && r->Err_0 is Failure }

    #[verifier::external_body]
    pub fn error() -> (r: Error) { unimplemented!() }
    /// input_len
    #[verifier::external_body]
    pub fn left(i: &str) -> (r: usize)
        ensures (r == 0) == (i@.len() == 0), vlen(i@) == r
    { unimplemented!() }
    /// the length of a string in bytes
    pub open spec fn clen(c: char) -> nat { let n = c as u32; if n < 0x80 { 1 } else if n < 0x800 { 2 } else if n < 0x10000 { 3 } else { 4 } }
    pub open spec fn vlen(s: Seq<char>) -> nat
        decreases s.len()
    { if s.len() == 0 { 0 } else { clen(s[0]) + vlen(s.skip(1)) } }
    /// it grows with each character
    pub proof fn vlen_skip(s: Seq<char>, k: int)
        requires 0 <= k <= s.len(),
        ensures k > 0 ==> vlen(s.skip(k)) < vlen(s), k == 0 ==> s.skip(k) == s
        decreases k
    { if k == 0 { assert(s.skip(0) =~= s); } else { vlen_skip(s.skip(1), k - 1); assert(s.skip(1).skip(k - 1) =~= s.skip(k)); } }
    /// recognize: what lies between two positions
    #[verifier::external_body]
    pub fn consumed<'a>(i: &'a str, r: &'a str) -> (o: &'a str)
        requires sfx(i@, r@)
        ensures o@ == i@.take(i@.len() - r@.len())
    { unimplemented!() }
    /// t is what s starts with, character by character
    pub open spec fn pre(t: Seq<char>, s: Seq<char>) -> bool {
        &&& t.len() <= s.len()
        &&& t.len() > 0 ==> t[0] == s[0]
        &&& t.len() > 1 ==> t[1] == s[1]
        &&& t.len() > 2 ==> t[2] == s[2]
        &&& t.len() > 3 ==> t[3] == s[3]
        &&& t.len() > 4 ==> t[4] == s[4]
        &&& t.len() > 5 ==> t[5] == s[5]
        &&& t.len() > 6 ==> t[6] == s[6]
        &&& t.len() > 7 ==> t.is_prefix_of(s)
    }
    #[verifier::external_body]
    pub fn tag<'a>(t: &str, i: &'a str) -> (r: IResult<&'a str, &'a str>)
        ensures pre(t@, i@) ==> r is Ok && (r->Ok_0).0@ == i@.skip(t@.len() as int) && (r->Ok_0).1@ == t@,
            !pre(t@, i@) ==> is_no(r)
    { unimplemented!() }

    pub open spec fn digit(c: char) -> bool { '0' <= c && c <= '9' }
    pub open spec fn is_digit() -> spec_fn(char) -> bool { |c: char| digit(c) }
    pub open spec fn is_xc() -> spec_fn(char) -> bool { |c: char| unicode_ident::xc(c) }
    pub open spec fn is_plain() -> spec_fn(char) -> bool { |c: char| c != '{' && c != '}' }
    /// how many leading characters satisfy f
    pub open spec fn run(s: Seq<char>, f: spec_fn(char) -> bool) -> nat
        decreases s.len()
    { if s.len() > 0 && f(s[0]) { 1 + run(s.skip(1), f) } else { 0 } }
    /// the number a row of digits spells
    pub open spec fn num(s: Seq<char>) -> nat
        decreases s.len()
    { if s.len() == 0 { 0 } else { num(s.drop_last()) * 10 + (s.last() as nat - '0' as nat) as nat } }

    /// usize::from_str on a row of digits
    #[verifier::external_body]
    pub fn usize_from_str(s: &str) -> (r: Result<usize, ()>)
        requires s@.len() > 0, forall|k: int| 0 <= k < s@.len() ==> digit(#[trigger] s@[k])
        ensures num(s@) <= usize::MAX ==> r == Ok::<usize, ()>(num(s@) as usize), num(s@) > usize::MAX ==> r is Err
    { unimplemented!() }

    pub mod character {
        pub mod complete {
            use vstd::prelude::*;
            use super::super::*;
            #[verifier::external_body]
            pub fn anychar<'a>(i: &'a str) -> (r: IResult<&'a str, char>)
                ensures i@.len() > 0 ==> r is Ok && (r->Ok_0).0@ == i@.skip(1) && (r->Ok_0).1 == i@[0], i@.len() == 0 ==> is_no(r)
            { unimplemented!() }
            #[verifier::external_body]
            pub fn digit1<'a>(i: &'a str) -> (r: IResult<&'a str, &'a str>)
                ensures ({ let k = run(i@, is_digit()); &&& k > 0 ==> r is Ok && (r->Ok_0).0@ == i@.skip(k as int) && (r->Ok_0).1@ == i@.take(k as int) &&& k == 0 ==> is_no(r) })
            { unimplemented!() }
        }
    }
    pub mod unicode_ident {
        use vstd::prelude::*;
        pub uninterp spec fn xs(c: char) -> bool;
        pub uninterp spec fn xc(c: char) -> bool;
        /// the XID tables on ASCII
        pub open spec fn letter(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') }
        #[verifier::external_body]
        pub broadcast proof fn ascii(c: char)
            ensures (c as u32) < 128 ==> #[trigger] xs(c) == letter(c)
        {}
        #[verifier::external_body]
        pub broadcast proof fn ascii_c(c: char)
            ensures (c as u32) < 128 ==> #[trigger] xc(c) == (letter(c) || ('0' <= c && c <= '9') || c == '_')
        {}
        #[verifier::external_body]
        pub fn is_xid_start(c: char) -> (r: bool) ensures r == xs(c) { unimplemented!() }
        #[verifier::external_body]
        pub fn is_xid_continue(c: char) -> (r: bool) ensures r == xc(c) { unimplemented!() }
    }
}
}

verus! {
pub mod vxn {
    pub use crate::sp::*;
    use vstd::prelude::*;
    pub trait VxOptionDefault<T> { fn vx_unwrap_or_default(self) -> (r: T); }
    impl<T: Default> VxOptionDefault<T> for Option<T> {
        fn vx_unwrap_or_default(self) -> (r: T)
            ensures self is Some ==> r == self->0, self is None ==> call_ensures(T::default, (), r)
        { match self { Some(x) => x, None => T::default() } }
    }
}
}
