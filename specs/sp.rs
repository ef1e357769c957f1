// Specification vocabulary: pure functions the contracts are written in.
verus! {
pub mod sp {
    use vstd::prelude::*;
    use vstd::string::*;
    use crate::style::*;

    pub open spec fn vx_b(s: &str) -> Seq<u8> { s.spec_bytes() }
    /// i is a byte offset between two characters of the text c
    pub open spec fn char_cut(c: Seq<char>, i: int) -> bool {
        exists|k: int| 0 <= k <= c.len() && i == (#[trigger] vstd::utf8::encode_utf8(c.take(k))).len()
    }
    /// b is a with some prefix of s appended
    pub open spec fn took_part(a: Seq<u8>, s: Seq<u8>, b: Seq<u8>) -> bool {
        a.is_prefix_of(b) && b.is_prefix_of(a + s)
    }
    pub proof fn lemma_took()
        ensures
            forall|a: Seq<u8>, s: Seq<u8>, b: Seq<u8>, f: Seq<u8>|
                #[trigger] took_part(a, s, b) && (a + s).is_prefix_of(f) ==> #[trigger] b.is_prefix_of(f),
            forall|z: Seq<u8>, a: Seq<u8>, s: Seq<u8>, b: Seq<u8>|
                #[trigger] took_part(a, s, b) && z.is_prefix_of(a) ==> #[trigger] z.is_prefix_of(b),
    { }
    /// a text has no bytes exactly when it has no characters
    pub proof fn lemma_no_bytes(s: &str)
        ensures vx_b(s).len() == 0 <==> s@.len() == 0,
    {
        reveal_with_fuel(vstd::utf8::encode_utf8, 2);
    }
    /// all errors reported since are interruptions
    pub open spec fn only_intr(a: Seq<crate::shim::io::Error>, b: Seq<crate::shim::io::Error>) -> bool {
        a.is_prefix_of(b) && forall|i: int| a.len() <= i < b.len() ==> crate::shim::io::kind(#[trigger] b[i]) == crate::shim::io::ErrorKind::Interrupted
    }
    /// e is the last thing the sink reported, after interruptions only, or the
    /// sink reported nothing but stopped accepting bytes
    pub open spec fn origin(a: Seq<crate::shim::io::Error>, b: Seq<crate::shim::io::Error>, e: crate::shim::io::Error) -> bool {
        (b.len() > 0 && b.last() == e && only_intr(a, b.drop_last()))
        || (only_intr(a, b) && crate::shim::io::kind(e) == crate::shim::io::ErrorKind::WriteZero)
    }

    pub type IoErrs = Seq<crate::shim::io::Error>;
    pub proof fn lemma_origin()
        ensures
            forall|a: IoErrs, b: IoErrs, c: IoErrs| #[trigger] only_intr(a, b) && #[trigger] only_intr(b, c) ==> only_intr(a, c),
            forall|a: IoErrs, b: IoErrs, c: IoErrs, e: crate::shim::io::Error|
                #[trigger] only_intr(a, b) && #[trigger] origin(b, c, e) ==> origin(a, c, e),
            forall|a: IoErrs, b: IoErrs, e: crate::shim::io::Error|
                #[trigger] origin(a, b, e) && crate::shim::io::kind(e) == crate::shim::io::ErrorKind::Interrupted ==> only_intr(a, b),
    {
        assert forall|a: IoErrs, b: IoErrs, e: crate::shim::io::Error|
            #[trigger] origin(a, b, e) && crate::shim::io::kind(e) == crate::shim::io::ErrorKind::Interrupted implies only_intr(a, b) by {
            let p = b.drop_last();
            assert(a.is_prefix_of(b));
            assert forall|i: int| a.len() <= i < b.len() implies crate::shim::io::kind(#[trigger] b[i]) == crate::shim::io::ErrorKind::Interrupted by {
                if i < p.len() { assert(b[i] == p[i]); }
            }
        }
        assert forall|a: IoErrs, b: IoErrs, c: IoErrs| #[trigger] only_intr(a, b) && #[trigger] only_intr(b, c) implies only_intr(a, c) by {
            assert(a.is_prefix_of(c));
            assert forall|i: int| a.len() <= i < c.len() implies crate::shim::io::kind(#[trigger] c[i]) == crate::shim::io::ErrorKind::Interrupted by {
                if i < b.len() { assert(c[i] == b[i]); }
            }
        }
    }

    // ---- styles -------------------------------------------------------
    pub open spec fn default_style() -> Style {
        Style { foreground: Color::Default, background: Color::Default, intensity: Intensity::Normal }
    }
    pub open spec fn changed<T>(from: T, to: T) -> Option<T> { if from == to { None } else { Some(to) } }
    pub open spec fn sp_diff(from: Style, to: Style) -> StyleDiff {
        StyleDiff {
            foreground: changed(from.foreground, to.foreground),
            background: changed(from.background, to.background),
            intensity: changed(from.intensity, to.intensity),
        }
    }
    pub open spec fn or<T>(o: Option<T>, d: T) -> T { match o { Some(x) => x, None => d } }
    pub open spec fn patched(d: StyleDiff, s: Style) -> Style {
        Style {
            foreground: or(d.foreground, s.foreground),
            background: or(d.background, s.background),
            intensity: or(d.intensity, s.intensity),
        }
    }
    /// apply members first to last
    pub open spec fn fold_restyle<T: Restyle>(s: Seq<T>, style: Style) -> Style
        decreases s.len(),
    {
        if s.len() == 0 { style } else { fold_restyle(s.skip(1), s[0].restyled(style)) }
    }
    pub open spec fn fold_restyle_refs<T: Restyle>(s: Seq<&T>, style: Style) -> Style
        decreases s.len(),
    {
        if s.len() == 0 { style } else { fold_restyle_refs(s.skip(1), s[0].restyled(style)) }
    }
    pub broadcast proof fn lemma_fold_refs<T: Restyle>(s: Seq<T>, style: Style)
        ensures #[trigger] fold_restyle_refs(crate::shim::refs(s), style) == fold_restyle(s, style),
        decreases s.len(),
    {
        if s.len() > 0 {
            lemma_fold_refs(s.skip(1), s[0].restyled(style));
            assert(crate::shim::refs(s).skip(1) =~= crate::shim::refs(s.skip(1)));
        }
    }

    // ---- C01: the algebra over the contracts ---------------------------
    pub proof fn c01_diff_then_apply(from: Style, to: Style)
        ensures patched(sp_diff(from, to), from) == to,
    { }
    pub proof fn c01_diff_minimal(from: Style, to: Style)
        ensures
            sp_diff(from, to).foreground is Some <==> from.foreground != to.foreground,
            sp_diff(from, to).background is Some <==> from.background != to.background,
            sp_diff(from, to).intensity is Some <==> from.intensity != to.intensity,
            sp_diff(from, from) == (StyleDiff { foreground: None, background: None, intensity: None }),
    { }
    pub proof fn c01_sequential<T: Restyle, U: Restyle, V: Restyle>(a: T, b: U, c: V, s: Style)
        ensures
            (a, b).restyled(s) == b.restyled(a.restyled(s)),
            (a, b, c).restyled(s) == c.restyled(b.restyled(a.restyled(s))),
            Some(a).restyled(s) == a.restyled(s),
            None::<T>.restyled(s) == s,
            ().restyled(s) == s,
            (&a).restyled(s) == a.restyled(s),
    { }
    pub proof fn c01_last_wins(x: Color, y: Color, s: Style)
        ensures
            (Foreground(x), Foreground(y)).restyled(s) == Foreground(y).restyled(s),
            (Background(x), Background(y)).restyled(s) == Background(y).restyled(s),
            (Foreground(x), Background(y)).restyled(s) == (Style { foreground: x, background: y, intensity: s.intensity }),
    { }
}
}
