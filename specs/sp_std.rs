// The bridge to core::fmt: what a standard trait prints is decided by
// core::fmt (trusted); where it goes and under which options is the code's.
verus! {
pub mod sp_std {
    use crate::shim::VxEncode;
    use vstd::prelude::*;
    use crate::sp::*;
    use crate::sp_core::*;
    use crate::style::Style;
    use crate::core_::arguments::StdFmt;
    use crate::core_::formatter::{Align, DebugHex, FormatterArgs, Sign};

    /// one standard format spec: `[[fill]align][sign]['#']['0'][width]['.' precision][x|X][?]`
    #[derive(Copy, Clone)]
    pub struct VxOpts {
        pub debug: bool,
        pub fill: char,
        pub align: u8,           // 0 none, 1 `<`, 2 `^`, 3 `>`
        pub sign: u8,            // 0 none, 1 `+`, 2 `-`
        pub alternate: bool,
        pub zero: bool,
        pub width: Option<usize>,
        pub precision: Option<usize>,
        pub hex: u8,             // 0 none, 1 `x`, 2 `X`
    }
    pub fn vx_count(n: &usize) -> (r: usize) ensures r == *n { *n }

    pub open spec fn deref_count(n: Option<&usize>) -> Option<usize> {
        match n { Some(n) => Some(*n), None => None }
    }
    /// the standard spec that a formatter's options stand for
    pub open spec fn std_opts(a: FormatterArgs<'_>, debug: bool) -> VxOpts {
        VxOpts {
            debug: debug,
            fill: ' ',
            align: match a.align { None => 0, Some(Align::Left) => 1, Some(Align::Center) => 2, Some(Align::Right) => 3 },
            sign: match a.sign { None => 0, Some(Sign::Plus) => 1, Some(Sign::Minus) => 2 },
            alternate: a.alternate,
            zero: a.zero,
            width: deref_count(a.width),
            precision: deref_count(a.precision),
            hex: if !debug { 0 } else { match a.debug_hex { None => 0, Some(DebugHex::Lower) => 1, Some(DebugHex::Upper) => 2 } },
        }
    }
    /// core::fmt takes counts up to u16::MAX
    pub open spec fn counts_ok(o: VxOpts) -> bool {
        (o.width matches Some(n) ==> n <= 65535) && (o.precision matches Some(n) ==> n <= 65535)
    }
    /// calling the closure with a standard formatter
    pub uninterp spec fn std_call(v: StdFmt<'_>, before: crate::shim::fmt::Formatter<'_>, r: crate::shim::fmt::Result, after: crate::shim::fmt::Formatter<'_>) -> bool;
    /// the pieces core::fmt hands to its sink for this value and spec, and
    /// whether the value's own formatting succeeds
    pub uninterp spec fn std_pieces(v: StdFmt<'_>, o: VxOpts) -> Seq<Seq<u8>>;
    pub uninterp spec fn std_fine(v: StdFmt<'_>, o: VxOpts) -> bool;
    pub open spec fn in_style(ps: Seq<Seq<u8>>, style: Style) -> Seq<Chunk> {
        Seq::new(ps.len(), |i: int| (ps[i], style))
    }

    /// core::fmt::Write as seen by core::fmt::write
    pub trait VxStdSink {
        #[verifier::prophetic]
        spec fn g(&self) -> G;
        /// the style its text is in, and the options it keeps
        spec fn sty(&self) -> Style;
        spec fn keep(&self) -> VxOpts;
        /// both, when the sink is given back
        #[verifier::prophetic]
        spec fn last(&self) -> (Style, VxOpts);
        fn write_str(&mut self, s: &str) -> (r: crate::shim::fmt::Result)
            ensures
                wr((*old(self)).g(), r, (*final(self)).g(),
                   ((*old(self)).g().nx)((*old(self)).g().st, (vx_b(s), (*old(self)).sty()))),
                (*final(self)).sty() == (*old(self)).sty(), (*final(self)).keep() == (*old(self)).keep(), (*final(self)).last() == (*old(self)).last();
        fn write_char(&mut self, c: char) -> (r: crate::shim::fmt::Result)
            ensures
                wr((*old(self)).g(), r, (*final(self)).g(),
                   ((*old(self)).g().nx)((*old(self)).g().st, (c.vx_enc(), (*old(self)).sty()))),
                (*final(self)).sty() == (*old(self)).sty(), (*final(self)).keep() == (*old(self)).keep(), (*final(self)).last() == (*old(self)).last(),
        { let mut b = [0; 4]; self.write_str(c.vx_encode_utf8(&mut b)) }
    }
    /// core::fmt::write with one argument: hands the pieces to the sink in
    /// order until one is refused
    #[verifier::external_body]
    pub fn vx_write_std<W: VxStdSink>(w: &mut W, o: VxOpts, v: &StdFmt<'_>) -> (r: crate::shim::fmt::Result)
        requires counts_ok(o),
        ensures
            wf((*old(w)).g(), r, (*final(w)).g(),
               fold((*old(w)).g().nx, (*old(w)).g().st, in_style(std_pieces(*v, o), (*old(w)).sty())), std_fine(*v, o)),
            (*final(w)).sty() == (*old(w)).sty(), (*final(w)).keep() == (*old(w)).keep(), (*final(w)).last() == (*old(w)).last(),
    { unimplemented!() }
}
}
