// What macros/src/format.rs computes: every parser as a function of the text.
verus! {
pub mod sp_fmt {
    use vstd::prelude::*;
    use crate::vxnom::*;
    use crate::vxnom::unicode_ident::{xs, xc};
    use crate::style::{Color, Intensity, StyleDiff};
    use crate::macros_::format::{Align, Sign, DebugHex, FormatTrait, FormatArgRef, Count, FormatterArgs, FormatSpec, FormatArg, Piece, Format, Attribute};

    // ---- what a placeholder says ------------------------------------------
    pub enum SRef { Pos(nat), Named(Seq<char>) }
    pub enum SCount { Param(SRef), Int(nat) }
    pub struct SSpec {
        pub align: Option<Align>, pub sign: Option<Sign>, pub alternate: bool, pub zero: bool,
        pub width: Option<SCount>, pub precision: Option<SCount>, pub debug_hex: Option<DebugHex>,
        pub style: StyleDiff, pub tr: FormatTrait,
    }
    pub struct SArg { pub arg: Option<SRef>, pub spec: SSpec }
    pub enum SPiece { Lit(Seq<char>), Arg(SArg) }

    pub open spec fn v_ref(r: FormatArgRef<'_>) -> SRef { match r { FormatArgRef::Positional(n) => SRef::Pos(n as nat), FormatArgRef::Named(s) => SRef::Named(s@) } }
    pub open spec fn v_count(c: Count<'_>) -> SCount { match c { Count::Parameter(r) => SCount::Param(v_ref(r)), Count::Integer(n) => SCount::Int(n as nat) } }
    pub open spec fn v_ocount(c: Option<Count<'_>>) -> Option<SCount> { match c { Some(c) => Some(v_count(c)), None => None } }
    pub open spec fn v_spec(f: FormatSpec<'_>) -> SSpec {
        let a = f.formatter_args;
        SSpec { align: a.align, sign: a.sign, alternate: a.alternate, zero: a.zero, width: v_ocount(a.width), precision: v_ocount(a.precision), debug_hex: a.debug_hex, style: f.style, tr: f.format_trait }
    }
    pub open spec fn v_arg(f: FormatArg<'_>) -> SArg { SArg { arg: match f.arg { Some(r) => Some(v_ref(r)), None => None }, spec: v_spec(f.format_spec) } }
    pub open spec fn v_piece(p: Piece<'_>) -> SPiece { match p { Piece::Lit(s) => SPiece::Lit(s@), Piece::Arg(a) => SPiece::Arg(v_arg(a)) } }
    pub open spec fn v_pieces(p: Seq<Piece<'_>>) -> Seq<SPiece> { p.map_values(|p: Piece<'_>| v_piece(p)) }
    pub open spec fn v_format(f: Format<'_>) -> Seq<SPiece> { v_pieces(f.pieces@) }

    // ---- what the proofs of the parsers use -------------------------------
    pub proof fn lemma_skips()
        ensures
            forall|s: Seq<char>, a: int| 0 <= a <= s.len() ==> sfx(s, #[trigger] s.skip(a)),
            forall|s: Seq<char>| #[trigger] sfx(s, s),
            forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] sfx(a, b) && #[trigger] sfx(b, c) ==> sfx(a, c),
    {
        assert forall|s: Seq<char>, a: int| 0 <= a <= s.len() implies sfx(s, #[trigger] s.skip(a)) by { }
        assert forall|s: Seq<char>| #[trigger] sfx(s, s) by { assert(s.skip(0) =~= s); }
        assert forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] sfx(a, b) && #[trigger] sfx(b, c) implies sfx(a, c) by {
            assert(b.skip(b.len() - c.len()) =~= a.skip(a.len() - c.len()));
        }
    }
    pub proof fn lemma_run(s: Seq<char>, f: spec_fn(char) -> bool)
        ensures run(s, f) <= s.len(), forall|k: int| 0 <= k < run(s, f) ==> f(#[trigger] s[k]), run(s, f) < s.len() ==> !f(s[run(s, f) as int])
        decreases s.len()
    {
        if s.len() > 0 && f(s[0]) {
            lemma_run(s.skip(1), f);
            assert forall|k: int| 0 <= k < run(s, f) implies f(#[trigger] s[k]) by { if k > 0 { assert(s[k] == s.skip(1)[k - 1]); } }
        }
    }
    pub proof fn lemma_step(s: Seq<char>, r: Seq<char>)
        requires sfx(s, r)
        ensures r.len() > 0 ==> sfx(s, r.skip(1))
    { if r.len() > 0 { assert(r.skip(1) =~= s.skip(s.len() - r.len() + 1)); } }
    /// no progress means the same length
    pub proof fn lemma_progress(s: Seq<char>)
        ensures forall|r: Seq<char>| #[trigger] sfx(s, r) ==> (vlen(r) == vlen(s) <==> r.len() == s.len())
    {
        assert forall|r: Seq<char>| #[trigger] sfx(s, r) implies (vlen(r) == vlen(s) <==> r.len() == s.len()) by { vlen_skip(s, s.len() - r.len()); }
    }
    // ---- parsers -----------------------------------------------------------
    /// a value and what is left; no match; an error that ends the parse; a panic
    pub enum PR<T> { Ok(Seq<char>, T), No, Fail, Abort }
    /// the exec result r says what p says
    pub open spec fn agrees<T, V>(r: IResult<&str, T>, v: spec_fn(T) -> V, p: PR<V>) -> bool {
        match p {
            PR::Ok(rest, x) => r is Ok && (r->Ok_0).0@ == rest && v((r->Ok_0).1) == x,
            PR::No => is_no(r),
            PR::Fail => is_fail(r),
            PR::Abort => false,
        }
    }
    pub open spec fn at(s: Seq<char>, c: char) -> bool { s.len() > 0 && s[0] == c }
    pub open spec fn at2(s: Seq<char>, a: char, b: char) -> bool { s.len() > 1 && s[0] == a && s[1] == b }
    pub open spec fn word1<T>(s: Seq<char>, a: char, v: T, other: PR<T>) -> PR<T> { if at(s, a) { PR::Ok(s.skip(1), v) } else { other } }
    pub open spec fn word2<T>(s: Seq<char>, a: char, b: char, v: T, other: PR<T>) -> PR<T> { if at2(s, a, b) { PR::Ok(s.skip(2), v) } else { other } }
    pub open spec fn word3<T>(s: Seq<char>, a: char, b: char, c: char, v: T, other: PR<T>) -> PR<T> { if s.len() > 2 && s[0] == a && s[1] == b && s[2] == c { PR::Ok(s.skip(3), v) } else { other } }
    pub open spec fn word4<T>(s: Seq<char>, a: char, b: char, c: char, d: char, v: T, other: PR<T>) -> PR<T> { if s.len() > 3 && s[0] == a && s[1] == b && s[2] == c && s[3] == d { PR::Ok(s.skip(4), v) } else { other } }
    pub open spec fn word5<T>(s: Seq<char>, a: char, b: char, c: char, d: char, e: char, v: T, other: PR<T>) -> PR<T> { if s.len() > 4 && s[0] == a && s[1] == b && s[2] == c && s[3] == d && s[4] == e { PR::Ok(s.skip(5), v) } else { other } }
    pub open spec fn word6<T>(s: Seq<char>, a: char, b: char, c: char, d: char, e: char, f: char, v: T, other: PR<T>) -> PR<T> { if s.len() > 5 && s[0] == a && s[1] == b && s[2] == c && s[3] == d && s[4] == e && s[5] == f { PR::Ok(s.skip(6), v) } else { other } }
    pub open spec fn word7<T>(s: Seq<char>, a: char, b: char, c: char, d: char, e: char, f: char, g: char, v: T, other: PR<T>) -> PR<T> { if s.len() > 6 && s[0] == a && s[1] == b && s[2] == c && s[3] == d && s[4] == e && s[5] == f && s[6] == g { PR::Ok(s.skip(7), v) } else { other } }

    pub open spec fn p_color(s: Seq<char>) -> PR<Color> {
        word5(s, 'b', 'l', 'a', 'c', 'k', Color::Black,
        word3(s, 'r', 'e', 'd', Color::Red,
        word5(s, 'g', 'r', 'e', 'e', 'n', Color::Green,
        word6(s, 'y', 'e', 'l', 'l', 'o', 'w', Color::Yellow,
        word4(s, 'b', 'l', 'u', 'e', Color::Blue,
        word7(s, 'm', 'a', 'g', 'e', 'n', 't', 'a', Color::Magenta,
        word4(s, 'c', 'y', 'a', 'n', Color::Cyan,
        word5(s, 'w', 'h', 'i', 't', 'e', Color::White,
        word7(s, 'd', 'e', 'f', 'a', 'u', 'l', 't', Color::Default, PR::No)))))))))
    }
    pub open spec fn p_intensity(s: Seq<char>) -> PR<Intensity> {
        word6(s, 'n', 'o', 'r', 'm', 'a', 'l', Intensity::Normal,
        word4(s, 'b', 'o', 'l', 'd', Intensity::Bold,
        word5(s, 'f', 'a', 'i', 'n', 't', Intensity::Faint, PR::No)))
    }
    pub open spec fn p_eqcolor(s: Seq<char>, f: spec_fn(Color) -> Attribute) -> PR<Attribute> {
        if at(s, '=') { match p_color(s.skip(1)) { PR::Ok(r, c) => PR::Ok(r, f(c)), _ => PR::Fail } } else { PR::Fail }
    }
    pub open spec fn p_attr(s: Seq<char>) -> PR<Attribute> {
        if at2(s, 'f', 'g') { p_eqcolor(s.skip(2), |c| Attribute::Foreground(c)) }
        else if at2(s, 'b', 'g') { p_eqcolor(s.skip(2), |c| Attribute::Background(c)) }
        else { match p_intensity(s) { PR::Ok(r, i) => PR::Ok(r, Attribute::Intensity(i)), _ => PR::No } }
    }
    /// the rest of an attribute list, after an attribute
    pub open spec fn p_more(s: Seq<char>) -> PR<Seq<Attribute>>
        decreases s.len()
    {
        if at(s, ',') {
            match p_attr(s.skip(1)) {
                PR::Ok(r, a) => if r.len() < s.len() { match p_more(r) { PR::Ok(r2, v) => PR::Ok(r2, seq![a] + v), x => x } } else { PR::No },
                PR::No => PR::Ok(s, Seq::empty()),
                PR::Fail => PR::Fail,
                PR::Abort => PR::Abort,
            }
        } else { PR::Ok(s, Seq::empty()) }
    }
    pub open spec fn p_attrs(s: Seq<char>) -> PR<Seq<Attribute>> {
        match p_attr(s) {
            PR::Ok(r, a) => match p_more(r) { PR::Ok(r2, v) => PR::Ok(if at(r2, ',') { r2.skip(1) } else { r2 }, seq![a] + v), x => x },
            PR::No => PR::Ok(s, Seq::empty()),
            PR::Fail => PR::Fail,
            PR::Abort => PR::Abort,
        }
    }
    pub open spec fn no_style() -> StyleDiff { StyleDiff { foreground: None, background: None, intensity: None } }
    pub open spec fn set(d: StyleDiff, a: Attribute) -> StyleDiff {
        match a {
            Attribute::Foreground(c) => StyleDiff { foreground: Some(c), ..d },
            Attribute::Background(c) => StyleDiff { background: Some(c), ..d },
            Attribute::Intensity(i) => StyleDiff { intensity: Some(i), ..d },
        }
    }
    /// each attribute sets its field, in order
    pub open spec fn set_all(d: StyleDiff, v: Seq<Attribute>) -> StyleDiff
        decreases v.len()
    { if v.len() == 0 { d } else { set_all(set(d, v[0]), v.skip(1)) } }
    pub open spec fn says(v: Seq<Attribute>) -> StyleDiff { set_all(no_style(), v) }
    pub open spec fn p_style(s: Seq<char>) -> PR<StyleDiff> {
        match p_attrs(s) { PR::Ok(r, v) => PR::Ok(r, says(v)), PR::No => PR::No, PR::Fail => PR::Fail, PR::Abort => PR::Abort }
    }
    pub open spec fn p_align(s: Seq<char>) -> PR<Align> {
        if at(s, '<') { PR::Ok(s.skip(1), Align::Left) } else if at(s, '^') { PR::Ok(s.skip(1), Align::Center) } else if at(s, '>') { PR::Ok(s.skip(1), Align::Right) } else { PR::No }
    }
    pub open spec fn p_sign(s: Seq<char>) -> PR<Sign> {
        if at(s, '+') { PR::Ok(s.skip(1), Sign::Plus) } else if at(s, '-') { PR::Ok(s.skip(1), Sign::Minus) } else { PR::No }
    }
    pub open spec fn digits(s: Seq<char>) -> nat { run(s, is_digit()) }
    pub open spec fn p_num(s: Seq<char>) -> PR<nat> {
        let k = digits(s);
        if k > 0 && num(s.take(k as int)) <= usize::MAX { PR::Ok(s.skip(k as int), num(s.take(k as int))) } else { PR::No }
    }
    pub open spec fn conts(s: Seq<char>) -> nat { run(s, is_xc()) }
    pub open spec fn p_ident(s: Seq<char>) -> PR<Seq<char>> {
        if s.len() > 0 && (xs(s[0]) || s[0] == '_') { let k = 1 + conts(s.skip(1)); PR::Ok(s.skip(k as int), s.take(k as int)) } else { PR::No }
    }
    pub open spec fn p_ref(s: Seq<char>) -> PR<SRef> {
        match p_num(s) {
            PR::Ok(r, n) => PR::Ok(r, SRef::Pos(n)),
            _ => match p_ident(s) { PR::Ok(r, n) => PR::Ok(r, SRef::Named(n)), _ => PR::No },
        }
    }
    pub open spec fn p_count(s: Seq<char>) -> PR<SCount> {
        match p_ref(s) {
            PR::Ok(r, a) if at(r, '$') => PR::Ok(r.skip(1), SCount::Param(a)),
            _ => match p_num(s) { PR::Ok(r, n) => PR::Ok(r, SCount::Int(n)), _ => PR::No },
        }
    }
    /// an optional part
    pub open spec fn opt<T>(s: Seq<char>, p: PR<T>) -> (Seq<char>, Option<T>) { match p { PR::Ok(r, v) => (r, Some(v)), _ => (s, None) } }
    pub open spec fn flag(s: Seq<char>, c: char) -> (Seq<char>, bool) { if at(s, c) { (s.skip(1), true) } else { (s, false) } }
    pub open spec fn p_prec(s: Seq<char>) -> PR<SCount> { if at(s, '.') { p_count(s.skip(1)) } else { PR::No } }
    /// `(..)`
    pub open spec fn p_styled(s: Seq<char>) -> PR<StyleDiff> {
        if at(s, '(') { match p_style(s.skip(1)) { PR::Ok(r, d) if at(r, ')') => PR::Ok(r.skip(1), d), _ => PR::Fail } } else { PR::Ok(s, no_style()) }
    }
    pub open spec fn p_trait(s: Seq<char>) -> PR<(Option<DebugHex>, FormatTrait)> {
        word1(s, '?', (None, FormatTrait::Debug),
        word2(s, 'x', '?', (Some(DebugHex::Lower), FormatTrait::Debug),
        word2(s, 'X', '?', (Some(DebugHex::Upper), FormatTrait::Debug),
        word1(s, 'o', (None, FormatTrait::Octal),
        word1(s, 'x', (None, FormatTrait::LowerHex),
        word1(s, 'X', (None, FormatTrait::UpperHex),
        word1(s, 'p', (None, FormatTrait::Pointer),
        word1(s, 'b', (None, FormatTrait::Binary),
        word1(s, 'e', (None, FormatTrait::LowerExp),
        word1(s, 'E', (None, FormatTrait::UpperExp),
        word1(s, 's', (None, FormatTrait::Stylish), PR::No)))))))))))
    }
    /// the rest, the alignment; None: a fill other than a space
    pub open spec fn p_fill(s: Seq<char>) -> Option<(Seq<char>, Option<Align>)> {
        if s.len() > 1 && p_align(s.skip(1)) is Ok {
            if s[0] == ' ' { Some((p_align(s.skip(1))->Ok_0, Some(p_align(s.skip(1))->Ok_1))) } else { None }
        } else { Some(opt(s, p_align(s))) }
    }
    pub open spec fn p_spec(s: Seq<char>) -> PR<SSpec> {
        match p_fill(s) {
            None => PR::Abort,
            Some((s1, align)) => {
                let (s2, sign) = opt(s1, p_sign(s1));
                let (s3, alternate) = flag(s2, '#');
                let (s4, zero) = flag(s3, '0');
                let (s5, width) = opt(s4, p_count(s4));
                let (s6, precision) = opt(s5, p_prec(s5));
                match p_styled(s6) {
                    PR::Ok(s7, style) => {
                        let (s8, t) = opt(s7, p_trait(s7));
                        PR::Ok(s8, SSpec { align, sign, alternate, zero, width, precision, style,
                            debug_hex: match t { Some((h, _)) => h, None => None }, tr: match t { Some((_, t)) => t, None => FormatTrait::Display } })
                    },
                    _ => PR::Fail,
                }
            },
        }
    }
    pub open spec fn no_spec() -> SSpec {
        SSpec { align: None, sign: None, alternate: false, zero: false, width: None, precision: None, debug_hex: None, style: no_style(), tr: FormatTrait::Display }
    }
    pub open spec fn p_arg(s: Seq<char>) -> PR<SArg> {
        let (s1, arg) = opt(s, p_ref(s));
        if at(s1, ':') {
            match p_spec(s1.skip(1)) { PR::Ok(r, spec) => PR::Ok(r, SArg { arg, spec }), PR::No => PR::Ok(s1, SArg { arg, spec: no_spec() }), PR::Fail => PR::Fail, PR::Abort => PR::Abort }
        } else { PR::Ok(s1, SArg { arg, spec: no_spec() }) }
    }
    pub open spec fn p_lit(s: Seq<char>) -> PR<SPiece> {
        let k = run(s, is_plain());
        if k > 0 { PR::Ok(s.skip(k as int), SPiece::Lit(s.take(k as int))) }
        else if at2(s, '{', '{') { PR::Ok(s.skip(2), SPiece::Lit(seq!['{'])) }
        else if at2(s, '}', '}') { PR::Ok(s.skip(2), SPiece::Lit(seq!['}'])) }
        else { PR::No }
    }
    pub open spec fn p_hole(s: Seq<char>) -> PR<SPiece> {
        if at(s, '{') {
            match p_arg(s.skip(1)) {
                PR::Ok(r, a) => if at(r, '}') { PR::Ok(r.skip(1), SPiece::Arg(a)) } else { PR::No },
                PR::Abort => PR::Abort,
                _ => PR::Fail,
            }
        } else { PR::No }
    }
    pub open spec fn p_piece(s: Seq<char>) -> PR<SPiece> { match p_lit(s) { PR::No => p_hole(s), x => x } }
    pub open spec fn p_pieces(s: Seq<char>) -> PR<Seq<SPiece>>
        decreases s.len()
    {
        match p_piece(s) {
            PR::Ok(r, p) => if r.len() < s.len() { match p_pieces(r) { PR::Ok(r2, v) => PR::Ok(r2, seq![p] + v), x => x } } else { PR::No },
            PR::No => PR::Ok(s, Seq::empty()),
            PR::Fail => PR::Fail,
            PR::Abort => PR::Abort,
        }
    }
    pub open spec fn p_format(s: Seq<char>) -> PR<Seq<SPiece>> {
        match p_pieces(s) { PR::Ok(r, v) => if r.len() == 0 { PR::Ok(r, v) } else { PR::No }, x => x }
    }
    pub proof fn lemma_total()
        ensures
            forall|s: Seq<char>| #[trigger] p_count(s) is Ok || p_count(s) is No,
            forall|s: Seq<char>| #[trigger] p_sign(s) is Ok || p_sign(s) is No,
            forall|s: Seq<char>| #[trigger] p_align(s) is Ok || p_align(s) is No,
    {}
    pub open spec fn front<T>(v: Seq<T>, p: PR<Seq<T>>) -> PR<Seq<T>> { match p { PR::Ok(r, w) => PR::Ok(r, v + w), x => x } }
    pub proof fn lemma_attr(s: Seq<char>)
        ensures p_attr(s) is Ok ==> sfx(s, p_attr(s)->Ok_0) && p_attr(s)->Ok_0.len() < s.len(), !(p_attr(s) is Abort)
    { lemma_skips(); }
    /// one more attribute
    pub proof fn lemma_more(s: Seq<char>, v: Seq<Attribute>)
        ensures
            !at(s, ',') ==> front(v, p_more(s)) == PR::Ok(s, v),
            at(s, ',') ==> match p_attr(s.skip(1)) {
                PR::Ok(r, a) => front(v, p_more(s)) == front(v.push(a), p_more(r)),
                PR::No => front(v, p_more(s)) == PR::Ok(s, v),
                _ => p_more(s) is Fail,
            },
    {
        assert(v + Seq::<Attribute>::empty() =~= v);
        if at(s, ',') {
            lemma_attr(s.skip(1));
            match p_attr(s.skip(1)) {
                PR::Ok(r, a) => { match p_more(r) { PR::Ok(r2, w) => { assert(v + (seq![a] + w) =~= v.push(a) + w); }, _ => {} } },
                _ => {},
            }
        }
    }
    pub proof fn lemma_pieces(s: Seq<char>, v: Seq<SPiece>)
        ensures match p_piece(s) {
            PR::Ok(r, p) => if r.len() < s.len() { front(v, p_pieces(s)) == front(v.push(p), p_pieces(r)) } else { p_pieces(s) is No },
            PR::No => front(v, p_pieces(s)) == PR::Ok(s, v),
            PR::Fail => p_pieces(s) is Fail,
            PR::Abort => p_pieces(s) is Abort,
        }
    {
        assert(v + Seq::<SPiece>::empty() =~= v);
        match p_piece(s) {
            PR::Ok(r, p) => if r.len() < s.len() { match p_pieces(r) { PR::Ok(r2, w) => { assert(v + (seq![p] + w) =~= v.push(p) + w); }, _ => {} } },
            _ => {},
        }
    }
    pub proof fn lemma_views(v: Seq<Piece<'_>>)
        ensures forall|p: Piece<'_>| #[trigger] v_pieces(v.push(p)) == v_pieces(v).push(v_piece(p)), v.len() == 0 ==> v_pieces(v) == Seq::<SPiece>::empty()
    {
        assert forall|p: Piece<'_>| #[trigger] v_pieces(v.push(p)) == v_pieces(v).push(v_piece(p)) by { assert(v_pieces(v.push(p)) =~= v_pieces(v).push(v_piece(p))); }
        if v.len() == 0 { assert(v_pieces(v) =~= Seq::<SPiece>::empty()); }
    }
}
}
