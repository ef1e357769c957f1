// Trusted contracts for what lies outside /repo (std, core, askama_escape).
// Everything `external_body` / `assume_specification` here is an assumption
// and is counted as such in the evidence of every check.
use vstd::prelude::*;
verus! {
pub mod shim {
    use vstd::prelude::*;
    use vstd::string::*;
    use vstd::utf8::*;

    pub mod prelude {
        pub use super::{vx_iter, VxIntoIter, VxIter, VxIterRef, VxFlatten, VxCopied, VxSlice, VxEncode, VxUnwrapOrAbort, VxOptRef, VxOptOpt};
        pub use vstd::std_specs::cmp::PartialEqSpec;
        pub use vstd::slice::*;
        pub use vstd::string::*;
    }

    /// panic!, unreachable!, todo!: must be shown unreachable
    #[verifier::external_body]
    pub fn vx_never() -> (r: !)
        requires false,
    { unimplemented!() }

    /// a panic the contract permits (the macro rejects the invocation)
    #[verifier::external_body]
    pub fn vx_abort(Ghost(allowed): Ghost<bool>) -> (r: !)
        requires allowed,
    { unimplemented!() }

    /// assert!, debug_assert!: the condition is an obligation
    pub fn vx_assert(b: bool)
        requires b,
    { }

    /// unwrap and assert! where the contract permits the panic
    pub trait VxUnwrapOrAbort: Sized {
        type T;
        spec fn good(&self) -> bool;
        spec fn val(&self) -> Self::T;
        fn vx_unwrap_or_abort(self, Ghost(allowed): Ghost<bool>) -> (r: Self::T)
            requires self.good() || allowed,
            ensures self.good(), r == self.val();
    }
    impl<T> VxUnwrapOrAbort for Option<T> {
        type T = T;
        open spec fn good(&self) -> bool { self is Some }
        open spec fn val(&self) -> T { self->0 }
        #[verifier::external_body]
        fn vx_unwrap_or_abort(self, Ghost(allowed): Ghost<bool>) -> (r: T) { unimplemented!() }
    }
    impl<T, E> VxUnwrapOrAbort for Result<T, E> {
        type T = T;
        open spec fn good(&self) -> bool { self is Ok }
        open spec fn val(&self) -> T { self->Ok_0 }
        #[verifier::external_body]
        fn vx_unwrap_or_abort(self, Ghost(allowed): Ghost<bool>) -> (r: T) { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn vx_assert_or(b: bool, Ghost(allowed): Ghost<bool>)
        requires b || allowed,
        ensures b,
    { unimplemented!() }

    /// An iterator over a finite sequence; the view is what is still to come.
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct VxIter<T> { v: std::collections::VecDeque<T> }

    impl<T> VxIter<T> {
        pub uninterp spec fn view(&self) -> Seq<T>;

        #[verifier::external_body]
        pub fn next(&mut self) -> (r: Option<T>)
            ensures
                old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
                old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1),
        { unimplemented!() }

        #[verifier::external_body]
        pub fn peek(&mut self) -> (r: Option<&T>)
            ensures
                final(self)@ == old(self)@,
                old(self)@.len() == 0 ==> r is None,
                old(self)@.len() > 0 ==> r == Some(&old(self)@[0]),
        { unimplemented!() }

        pub fn vx_peekable(self) -> (r: VxIter<T>)
            ensures r@ == self@,
        { self }
    }

    pub trait VxIntoIter: Sized {
        type Item;
        spec fn vx_seq(self) -> Seq<Self::Item>;
        fn vx_into_iter(self) -> (r: VxIter<Self::Item>)
            ensures r@ == self.vx_seq();
    }

    impl<'a, T> VxIntoIter for &'a [T] {
        type Item = &'a T;
        open spec fn vx_seq(self) -> Seq<&'a T> { refs(self@) }
        #[verifier::external_body]
        fn vx_into_iter(self) -> (r: VxIter<&'a T>) { unimplemented!() }
    }
    impl<'a, T> VxIntoIter for &'a Vec<T> {
        type Item = &'a T;
        open spec fn vx_seq(self) -> Seq<&'a T> { refs(self@) }
        #[verifier::external_body]
        fn vx_into_iter(self) -> (r: VxIter<&'a T>) { unimplemented!() }
    }
    impl<T> VxIntoIter for Vec<T> {
        type Item = T;
        open spec fn vx_seq(self) -> Seq<T> { self@ }
        #[verifier::external_body]
        fn vx_into_iter(self) -> (r: VxIter<T>) { unimplemented!() }
    }
    impl<T, const N: usize> VxIntoIter for [T; N] {
        type Item = T;
        open spec fn vx_seq(self) -> Seq<T> { self@ }
        #[verifier::external_body]
        fn vx_into_iter(self) -> (r: VxIter<T>) { unimplemented!() }
    }
    impl<T> VxIntoIter for VxIter<T> {
        type Item = T;
        open spec fn vx_seq(self) -> Seq<T> { self@ }
        fn vx_into_iter(self) -> (r: VxIter<T>) { self }
    }

    pub fn vx_iter<I: VxIntoIter>(i: I) -> (r: VxIter<I::Item>)
        ensures r@ == i.vx_seq(),
    { i.vx_into_iter() }

    pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> {
        Seq::new(s.len(), |i: int| &s[i])
    }

    /// `.iter()`
    pub trait VxIterRef {
        type Item;
        spec fn vx_items(&self) -> Seq<Self::Item>;
        fn vx_iter<'a>(&'a self) -> (r: VxIter<&'a Self::Item>)
            ensures r@ == refs(self.vx_items());
    }
    impl<T> VxIterRef for [T] {
        type Item = T;
        open spec fn vx_items(&self) -> Seq<T> { self@ }
        #[verifier::external_body]
        fn vx_iter<'a>(&'a self) -> (r: VxIter<&'a T>) { unimplemented!() }
    }
    impl<T> VxIterRef for Vec<T> {
        type Item = T;
        open spec fn vx_items(&self) -> Seq<T> { self@ }
        #[verifier::external_body]
        fn vx_iter<'a>(&'a self) -> (r: VxIter<&'a T>) { unimplemented!() }
    }
    impl<T, const N: usize> VxIterRef for [T; N] {
        type Item = T;
        open spec fn vx_items(&self) -> Seq<T> { self@ }
        #[verifier::external_body]
        fn vx_iter<'a>(&'a self) -> (r: VxIter<&'a T>) { unimplemented!() }
    }

    /// `.flatten()` and `.filter_map(|&s| s)`: the contents of the Somes
    pub trait VxFlatten: Sized {
        type Out;
        spec fn vx_flat(self) -> Seq<Self::Out>;
        fn vx_flatten(self) -> (r: VxIter<Self::Out>)
            ensures r@ == self.vx_flat();
    }
    pub open spec fn somes<T>(s: Seq<Option<T>>) -> Seq<T>
        decreases s.len(),
    {
        if s.len() == 0 { Seq::empty() }
        else { (match s[0] { Some(x) => seq![x], None => Seq::empty() }) + somes(s.skip(1)) }
    }
    pub open spec fn derefs<T>(s: Seq<&T>) -> Seq<T> { Seq::new(s.len(), |i: int| *s[i]) }

    impl<'a, T: Copy> VxFlatten for VxIter<&'a Option<T>> {
        type Out = T;
        open spec fn vx_flat(self) -> Seq<T> { somes(derefs(self@)) }
        #[verifier::external_body]
        fn vx_flatten(self) -> (r: VxIter<T>) { unimplemented!() }
    }
    impl<T> VxFlatten for VxIter<Option<T>> {
        type Out = T;
        open spec fn vx_flat(self) -> Seq<T> { somes(self@) }
        #[verifier::external_body]
        fn vx_flatten(self) -> (r: VxIter<T>) { unimplemented!() }
    }

    pub trait VxCopied: Sized {
        type Out;
        spec fn vx_own(self) -> Seq<Self::Out>;
        fn vx_copied(self) -> (r: VxIter<Self::Out>)
            ensures r@ == self.vx_own();
        fn vx_cloned(self) -> (r: VxIter<Self::Out>)
            ensures r@ == self.vx_own();
    }
    impl<'a, T: Copy> VxCopied for VxIter<&'a T> {
        type Out = T;
        open spec fn vx_own(self) -> Seq<T> { derefs(self@) }
        #[verifier::external_body]
        fn vx_copied(self) -> (r: VxIter<T>) { unimplemented!() }
        #[verifier::external_body]
        fn vx_cloned(self) -> (r: VxIter<T>) { unimplemented!() }
    }

    pub open spec fn range_seq(a: usize, b: usize) -> Seq<usize> { Seq::new(if a <= b { (b - a) as nat } else { 0 }, |i: int| (a + i) as usize) }
    #[verifier::external_body]
    pub fn vx_range(a: usize, b: usize) -> (r: VxIter<usize>)
        ensures r@ == range_seq(a, b),
    { unimplemented!() }
    impl<T> VxIter<T> {
        #[verifier::external_body]
        pub fn vx_enumerate(self) -> (r: VxIter<(usize, T)>)
            ensures r@ == Seq::new(self@.len(), |i: int| (i as usize, self@[i])), self@.len() <= usize::MAX,
        { unimplemented!() }
    }
    impl<A, B> VxIter<(A, B)> {
        #[verifier::external_body]
        pub fn vx_unzip(self) -> (r: (Vec<A>, Vec<B>))
            ensures r.0@ == self@.map_values(|x: (A, B)| x.0), r.1@ == self@.map_values(|x: (A, B)| x.1),
        { unimplemented!() }
    }
    /// the same of an Option
    pub trait VxOptRef<T>: Sized {
        fn vx_copied(self) -> (r: Option<T>)
            where T: Copy
            ensures r == self.vx_deref();
        spec fn vx_deref(self) -> Option<T>;
    }
    impl<'a, T> VxOptRef<T> for Option<&'a T> {
        open spec fn vx_deref(self) -> Option<T> { match self { Some(x) => Some(*x), None => None } }
        fn vx_copied(self) -> (r: Option<T>)
            where T: Copy
        { match self { Some(x) => Some(*x), None => None } }
    }

    /// Option::flatten
    pub trait VxOptOpt<T>: Sized {
        spec fn vx_flat(self) -> Option<T>;
        fn vx_flatten(self) -> (r: Option<T>)
            ensures r == self.vx_flat();
    }
    impl<T> VxOptOpt<T> for Option<Option<T>> {
        open spec fn vx_flat(self) -> Option<T> { match self { Some(x) => x, None => None } }
        fn vx_flatten(self) -> (r: Option<T>) { match self { Some(x) => x, None => None } }
    }

    /// `&x[a..b]`, `&x[a..]`, `&x[..b]`; in range and on character boundaries
    pub trait VxSlice {
        type Elem;
        spec fn vx_els(&self) -> Seq<Self::Elem>;
        spec fn vx_out(o: &Self::Out) -> Seq<Self::Elem>;
        spec fn vx_cut(&self, i: int) -> bool;
        type Out: ?Sized;
        fn vx_slice(&self, a: usize, b: usize) -> (r: &Self::Out)
            requires a <= b, b <= self.vx_els().len(), self.vx_cut(a as int), self.vx_cut(b as int),
            ensures Self::vx_out(r) == self.vx_els().subrange(a as int, b as int);
        fn vx_slice_from(&self, a: usize) -> (r: &Self::Out)
            requires a <= self.vx_els().len(), self.vx_cut(a as int),
            ensures Self::vx_out(r) == self.vx_els().skip(a as int);
        fn vx_slice_to(&self, b: usize) -> (r: &Self::Out)
            requires b <= self.vx_els().len(), self.vx_cut(b as int),
            ensures Self::vx_out(r) == self.vx_els().take(b as int);
    }
    impl<T> VxSlice for [T] {
        type Elem = T;
        type Out = [T];
        open spec fn vx_els(&self) -> Seq<T> { self@ }
        open spec fn vx_out(o: &[T]) -> Seq<T> { o@ }
        open spec fn vx_cut(&self, i: int) -> bool { true }
        #[verifier::external_body]
        fn vx_slice(&self, a: usize, b: usize) -> (r: &[T]) { unimplemented!() }
        #[verifier::external_body]
        fn vx_slice_from(&self, a: usize) -> (r: &[T]) { unimplemented!() }
        #[verifier::external_body]
        fn vx_slice_to(&self, b: usize) -> (r: &[T]) { unimplemented!() }
    }
    impl VxSlice for str {
        type Elem = u8;
        type Out = str;
        open spec fn vx_els(&self) -> Seq<u8> { encode_utf8(self@) }
        open spec fn vx_out(o: &str) -> Seq<u8> { crate::sp::vx_b(o) }
        open spec fn vx_cut(&self, i: int) -> bool { crate::sp::char_cut(self@, i) }
        #[verifier::external_body]
        fn vx_slice(&self, a: usize, b: usize) -> (r: &str) { unimplemented!() }
        #[verifier::external_body]
        fn vx_slice_from(&self, a: usize) -> (r: &str) { unimplemented!() }
        #[verifier::external_body]
        fn vx_slice_to(&self, b: usize) -> (r: &str) { unimplemented!() }
    }
    impl VxSlice for std::string::String {
        type Elem = u8;
        type Out = str;
        open spec fn vx_els(&self) -> Seq<u8> { encode_utf8(self@) }
        open spec fn vx_out(o: &str) -> Seq<u8> { crate::sp::vx_b(o) }
        open spec fn vx_cut(&self, i: int) -> bool { crate::sp::char_cut(self@, i) }
        #[verifier::external_body]
        fn vx_slice(&self, a: usize, b: usize) -> (r: &str) { unimplemented!() }
        #[verifier::external_body]
        fn vx_slice_from(&self, a: usize) -> (r: &str) { unimplemented!() }
        #[verifier::external_body]
        fn vx_slice_to(&self, b: usize) -> (r: &str) { unimplemented!() }
    }

    pub trait VxEncode: Sized {
        spec fn vx_enc(self) -> Seq<u8>;
        fn vx_encode_utf8<'a>(self, buf: &'a mut [u8; 4]) -> (r: &'a str)
            ensures crate::sp::vx_b(r) == self.vx_enc();
    }
    impl VxEncode for char {
        open spec fn vx_enc(self) -> Seq<u8> { vstd::utf8::encode_utf8(seq![self]) }
        #[verifier::external_body]
        fn vx_encode_utf8<'a>(self, buf: &'a mut [u8; 4]) -> (r: &'a str) { unimplemented!() }
    }

    // ---- core::fmt ------------------------------------------------------
    pub mod fmt {
        use super::VxEncode;
        use vstd::prelude::*;
        use vstd::string::*;
        use vstd::utf8::*;
        use crate::sp::*;
        /// core::fmt::Error
        #[derive(Copy, Clone, PartialEq, Eq)]
        pub struct Error;
        #[verifier::external]
        impl core::fmt::Debug for Error {
            fn fmt(&self, _f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) }
        }
        pub type Result = core::result::Result<(), Error>;
        /// core::fmt::Formatter
        #[verifier::external_body]
        pub struct Formatter<'a> { f: core::marker::PhantomData<&'a mut ()> }

        /// A text sink: the bytes it took so far, whether it ever failed.
        /// It takes the whole piece, or a prefix of it and reports an error.
        pub trait Write {
            spec fn out(&self) -> Seq<u8>;
            spec fn failed(&self) -> bool;
            /// writing to sinks of this type never fails
            spec fn infallible() -> bool;
            fn write_str(&mut self, s: &str) -> (r: Result)
                ensures
                    r is Ok ==> (*final(self)).out() == (*old(self)).out() + vx_b(s)
                        && (*final(self)).failed() == (*old(self)).failed(),
                    r is Err ==> took_part((*old(self)).out(), vx_b(s), (*final(self)).out())
                        && (*final(self)).failed() && !Self::infallible();
            fn write_char(&mut self, c: char) -> (r: Result)
                ensures
                    r is Ok ==> (*final(self)).out() == (*old(self)).out() + c.vx_enc()
                        && (*final(self)).failed() == (*old(self)).failed(),
                    r is Err ==> took_part((*old(self)).out(), c.vx_enc(), (*final(self)).out())
                        && (*final(self)).failed() && !Self::infallible(),
            { let mut b = [0; 4]; self.write_str(c.vx_encode_utf8(&mut b)) }
        }
        impl Write for std::string::String {
            open spec fn out(&self) -> Seq<u8> { encode_utf8(self@) }
            open spec fn failed(&self) -> bool { false }
            open spec fn infallible() -> bool { true }
            #[verifier::external_body]
            fn write_str(&mut self, s: &str) -> (r: Result) { unimplemented!() }
        }
        /// What `{}` prints for a value: core::fmt::Display of text-like values.
        pub trait VxDisplay {
            spec fn shown(&self) -> Seq<u8>;
        }
        impl VxDisplay for str {
            open spec fn shown(&self) -> Seq<u8> { vx_b(self) }
        }
        impl VxDisplay for std::string::String {
            open spec fn shown(&self) -> Seq<u8> { encode_utf8(self@) }
        }
        impl<T: VxDisplay + ?Sized> VxDisplay for &T {
            open spec fn shown(&self) -> Seq<u8> { (**self).shown() }
        }
        /// `write!(w, "{}", a)`: everything shown is written, or a prefix and an error
        #[verifier::external_body]
        pub fn vx_write_arg<W: Write, A: VxDisplay + ?Sized>(w: &mut W, a: &A) -> (r: Result)
            ensures
                r is Ok ==> (*final(w)).out() == (*old(w)).out() + a.shown()
                    && (*final(w)).failed() == (*old(w)).failed(),
                r is Err ==> took_part((*old(w)).out(), a.shown(), (*final(w)).out())
                    && (*final(w)).failed() && !W::infallible(),
        { unimplemented!() }
        pub fn vx_write_lit<W: Write>(w: &mut W, s: &str) -> (r: Result)
            ensures
                r is Ok ==> (*final(w)).out() == (*old(w)).out() + vx_b(s)
                    && (*final(w)).failed() == (*old(w)).failed(),
                r is Err ==> took_part((*old(w)).out(), vx_b(s), (*final(w)).out())
                    && (*final(w)).failed() && !W::infallible(),
        { w.write_str(s) }
    }

    // ---- askama_escape ---------------------------------------------------
    pub mod askama_escape {
        use vstd::prelude::*;
        use crate::sp::*;
        use crate::shim::fmt::VxDisplay;
        pub struct Html;
        /// what one byte becomes
        pub open spec fn esc1(b: u8) -> Seq<u8> {
            if b == 60 { seq![38u8, 108u8, 116u8, 59u8] } // < is &lt;
            else if b == 62 { seq![38u8, 103u8, 116u8, 59u8] } // > is &gt;
            else if b == 38 { seq![38u8, 97u8, 109u8, 112u8, 59u8] } // & is &amp;
            else if b == 34 { seq![38u8, 113u8, 117u8, 111u8, 116u8, 59u8] } // double quote is &quot;
            else if b == 39 { seq![38u8, 35u8, 120u8, 50u8, 55u8, 59u8] } // single quote is &#x27;
            else { seq![b] }
        }
        pub open spec fn esc(s: Seq<u8>) -> Seq<u8>
            decreases s.len(),
        {
            if s.len() == 0 { Seq::empty() } else { esc1(s[0]) + esc(s.skip(1)) }
        }
        #[verifier::external_body]
        pub struct Escaped<'a> { s: &'a str }
        impl VxDisplay for Escaped<'_> {
            uninterp spec fn shown(&self) -> Seq<u8>;
        }
        #[verifier::external_body]
        pub fn escape<'a>(s: &'a str, h: Html) -> (r: Escaped<'a>)
            ensures r.shown() == esc(vx_b(s)),
        { unimplemented!() }
    }

    // ---- std::io --------------------------------------------------------
    pub mod io {
        use vstd::prelude::*;
        use crate::sp::*;

        /// the kinds the code distinguishes; everything else is Uncategorized
        #[derive(Copy, Clone, PartialEq, Eq)]
        pub enum ErrorKind { Interrupted, WriteZero, Other, Uncategorized }
        impl vstd::std_specs::cmp::PartialEqSpecImpl for ErrorKind {
            open spec fn obeys_eq_spec() -> bool { true }
            open spec fn eq_spec(&self, o: &ErrorKind) -> bool { *self == *o }
        }
        #[verifier::external_body]
        pub struct Error { e: u8 }
        #[verifier::external]
        impl core::fmt::Debug for Error {
            fn fmt(&self, _f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) }
        }
        pub uninterp spec fn kind(e: Error) -> ErrorKind;
        pub uninterp spec fn message(e: Error) -> Seq<char>;
        impl Error {
            #[verifier::external_body]
            pub fn new(kind: ErrorKind, msg: &str) -> (r: Error)
                ensures self::kind(r) == kind, message(r) == msg@,
            { unimplemented!() }
            #[verifier::external_body]
            pub fn kind(&self) -> (r: ErrorKind)
                ensures r == self::kind(*self),
            { unimplemented!() }
        }
        pub type Result<T> = core::result::Result<T, Error>;

        /// An IO sink: bytes taken, errors reported, flushes asked for.
        pub trait Write {
            spec fn out(&self) -> Seq<u8>;
            spec fn errs(&self) -> Seq<Error>;
            spec fn flushes(&self) -> nat;
            fn write(&mut self, buf: &[u8]) -> (r: Result<usize>)
                ensures
                    (*final(self)).flushes() == (*old(self)).flushes(),
                    match r {
                        Ok(n) => n <= buf@.len()
                            && (*final(self)).out() == (*old(self)).out() + buf@.take(n as int)
                            && (*final(self)).errs() == (*old(self)).errs(),
                        Err(e) => (*final(self)).out() == (*old(self)).out()
                            && (*final(self)).errs() == (*old(self)).errs().push(e),
                    };
            fn write_all(&mut self, buf: &[u8]) -> (r: Result<()>)
                ensures
                    (*final(self)).flushes() == (*old(self)).flushes(),
                    match r {
                        Ok(_) => (*final(self)).out() == (*old(self)).out() + buf@
                            && only_intr((*old(self)).errs(), (*final(self)).errs()),
                        Err(e) => took_part((*old(self)).out(), buf@, (*final(self)).out())
                            && kind(e) != ErrorKind::Interrupted
                            && origin((*old(self)).errs(), (*final(self)).errs(), e),
                    };
            fn flush(&mut self) -> (r: Result<()>)
                ensures
                    (*final(self)).flushes() == (*old(self)).flushes() + 1,
                    (*final(self)).out() == (*old(self)).out(),
                    match r {
                        Ok(_) => (*final(self)).errs() == (*old(self)).errs(),
                        Err(e) => (*final(self)).errs() == (*old(self)).errs().push(e),
                    };
        }
    }
}

/// std contracts that vstd does not have
pub assume_specification<T> [ Option::<T>::or ](a: Option<T>, b: Option<T>) -> (r: Option<T>)
    ensures r == if a is Some { a } else { b };
pub assume_specification<T, U> [ Option::<T>::and ](a: Option<T>, b: Option<U>) -> (r: Option<U>)
    ensures r == if a is Some { b } else { None };
pub assume_specification<T> [ Option::<T>::xor ](a: Option<T>, b: Option<T>) -> (r: Option<T>)
    ensures r == if a is Some && b is None { a } else if a is None && b is Some { b } else { None };
pub assume_specification<T, U> [ Option::<T>::zip ](a: Option<T>, b: Option<U>) -> (r: Option<(T, U)>)
    ensures r == if a is Some && b is Some { Some((a->0, b->0)) } else { None };
pub assume_specification<T> [ Option::<T>::replace ](a: &mut Option<T>, b: T) -> (r: Option<T>)
    ensures r == *old(a), *final(a) == Some(b);
pub assume_specification<T, E, U> [ Result::<T, E>::and ](a: Result<T, E>, b: Result<U, E>) -> (r: Result<U, E>)
    ensures a is Ok ==> r == b, a is Err ==> r == Result::<U, E>::Err(a->Err_0);
pub assume_specification<T, E, F> [ Result::<T, E>::or ](a: Result<T, E>, b: Result<T, F>) -> (r: Result<T, F>)
    ensures a is Err ==> r == b, a is Ok ==> r == Result::<T, F>::Ok(a->Ok_0);
pub assume_specification<T> [ core::mem::replace ](a: &mut T, b: T) -> (r: T)
    ensures r == *old(a), *final(a) == b;
pub assume_specification<T: Default> [ core::mem::take ](a: &mut T) -> (r: T)
    ensures r == *old(a), T::default.ensures((), *final(a));

pub assume_specification[ std::string::String::len ](s: &std::string::String) -> (r: usize)
    ensures r == vstd::utf8::encode_utf8(s@).len();
}
