//# module macros_::format
use crate::vxnom::*;
use crate::sp_fmt::*;
use crate::vxn::*;
use crate::vxnom::unicode_ident::{xs, xc};
//# fn macros_::format::identifier
ensures agrees(r, |x: &str| x@, p_ident(input@)), r is Ok ==> sfx(input@, (r->Ok_0).0@)
//# params macros_::format::identifier
input
//# pre macros_::format::identifier
let ghost s0 = input@; let ghost t0 = input@.skip(1);
proof { lemma_skips(); if s0.len() > 0 { lemma_run(t0, is_xc()); } }
//# loop macros_::format::identifier 0
    invariant s0.len() > 0, t0 == s0.skip(1), $out is None, sfx(t0, $it@), conts(t0) == t0.len() - $it@.len() + conts($it@), !$go ==> conts($it@) == 0
    decreases $it@.len() + if $go { 1nat } else { 0nat }
//# loopbegin macros_::format::identifier 0
proof { lemma_skips(); lemma_step(t0, $it@); lemma_progress($it@); lemma_run($it@, is_xc()); }
//# trait macros_::format::Parse
spec fn parsed(s: Seq<char>, r: IResult<&'a str, Self>) -> bool;
//# fn macros_::format::Parse::parse
ensures Self::parsed(input@, r), r is Ok ==> sfx(input@, (r->Ok_0).0@)
//# fn macros_::format::Piece::parse_lit
ensures agrees(r, |x: Piece<'a>| v_piece(x), p_lit(input@)), r is Ok ==> sfx(input@, (r->Ok_0).0@)
//# fn macros_::format::Piece::parse_arg
ensures agrees(r, |x: Piece<'a>| v_piece(x), p_hole(input@)), r is Ok ==> sfx(input@, (r->Ok_0).0@)
//# fn macros_::format::<Default for FormatTrait>::default
ensures r == FormatTrait::Display
//# fn macros_::format::<Default for FormatterArgs>::default
ensures v_spec(FormatSpec { formatter_args: r, style: no_style(), format_trait: FormatTrait::Display }) == no_spec()
//# fn macros_::format::<Default for FormatSpec>::default
ensures v_spec(r) == no_spec()
//# impl macros_::format::<Parse<'a> for Color>
open spec fn parsed(s: Seq<char>, r: IResult<&'a str, Self>) -> bool { agrees(r, |x: Color| x, p_color(s)) }
//# params macros_::format::<Parse<'a> for Color>::parse
input
//# pre macros_::format::<Parse<'a> for Color>::parse
proof { lemma_skips(); }
//# impl macros_::format::<Parse<'a> for Intensity>
open spec fn parsed(s: Seq<char>, r: IResult<&'a str, Self>) -> bool { agrees(r, |x: Intensity| x, p_intensity(s)) }
//# params macros_::format::<Parse<'a> for Intensity>::parse
input
//# pre macros_::format::<Parse<'a> for Intensity>::parse
proof { lemma_skips(); }
//# impl macros_::format::<Parse<'a> for Attribute>
open spec fn parsed(s: Seq<char>, r: IResult<&'a str, Self>) -> bool { agrees(r, |x: Attribute| x, p_attr(s)) }
//# params macros_::format::<Parse<'a> for Attribute>::parse
input
//# pre macros_::format::<Parse<'a> for Attribute>::parse
proof { lemma_skips(); }
//# impl macros_::format::<Parse<'a> for StyleDiff>
open spec fn parsed(s: Seq<char>, r: IResult<&'a str, Self>) -> bool { agrees(r, |x: StyleDiff| x, p_style(s)) }
//# params macros_::format::<Parse<'a> for StyleDiff>::parse
input
//# impl macros_::format::<Parse<'a> for Align>
open spec fn parsed(s: Seq<char>, r: IResult<&'a str, Self>) -> bool { agrees(r, |x: Align| x, p_align(s)) }
//# params macros_::format::<Parse<'a> for Align>::parse
input
//# pre macros_::format::<Parse<'a> for Align>::parse
proof { lemma_skips(); }
//# impl macros_::format::<Parse<'a> for Sign>
open spec fn parsed(s: Seq<char>, r: IResult<&'a str, Self>) -> bool { agrees(r, |x: Sign| x, p_sign(s)) }
//# params macros_::format::<Parse<'a> for Sign>::parse
input
//# pre macros_::format::<Parse<'a> for Sign>::parse
proof { lemma_skips(); }
//# impl macros_::format::<Parse<'a> for Count<'a>>
open spec fn parsed(s: Seq<char>, r: IResult<&'a str, Self>) -> bool { agrees(r, |x: Count<'a>| v_count(x), p_count(s)) }
//# params macros_::format::<Parse<'a> for Count<'a>>::parse
input
//# pre macros_::format::<Parse<'a> for Count<'a>>::parse
proof { lemma_skips(); lemma_run(input@, is_digit()); }
//# impl macros_::format::<Parse<'a> for FormatSpec<'a>>
open spec fn parsed(s: Seq<char>, r: IResult<&'a str, Self>) -> bool { agrees(r, |x: FormatSpec<'a>| v_spec(x), p_spec(s)) }
//# params macros_::format::<Parse<'a> for FormatSpec<'a>>::parse
input
//# impl macros_::format::<Parse<'a> for FormatArgRef<'a>>
open spec fn parsed(s: Seq<char>, r: IResult<&'a str, Self>) -> bool { agrees(r, |x: FormatArgRef<'a>| v_ref(x), p_ref(s)) }
//# params macros_::format::<Parse<'a> for FormatArgRef<'a>>::parse
input
//# pre macros_::format::<Parse<'a> for FormatArgRef<'a>>::parse
proof { lemma_skips(); lemma_run(input@, is_digit()); }
//# impl macros_::format::<Parse<'a> for FormatArg<'a>>
open spec fn parsed(s: Seq<char>, r: IResult<&'a str, Self>) -> bool { agrees(r, |x: FormatArg<'a>| v_arg(x), p_arg(s)) }
//# params macros_::format::<Parse<'a> for FormatArg<'a>>::parse
input
//# pre macros_::format::<Parse<'a> for FormatArg<'a>>::parse
proof { lemma_skips(); }
//# impl macros_::format::<Parse<'a> for Piece<'a>>
open spec fn parsed(s: Seq<char>, r: IResult<&'a str, Self>) -> bool { agrees(r, |x: Piece<'a>| v_piece(x), p_piece(s)) }
//# params macros_::format::<Parse<'a> for Piece<'a>>::parse
input
//# pre macros_::format::<Parse<'a> for Piece<'a>>::parse
proof { lemma_skips(); }
//# impl macros_::format::<Parse<'a> for Format<'a>>
open spec fn parsed(s: Seq<char>, r: IResult<&'a str, Self>) -> bool { agrees(r, |x: Format<'a>| v_format(x), p_format(s)) }
//# params macros_::format::<Parse<'a> for Format<'a>>::parse
input
//# pre macros_::format::<Parse<'a> for FormatSpec<'a>>::parse
hide(sfx); hide(p_count); hide(p_style); hide(p_trait); hide(p_prec); hide(p_styled); hide(flag); hide(opt); hide(p_align); hide(p_sign); hide(p_fill); hide(p_ref); hide(p_num); hide(p_ident); hide(run);
let ghost s0 = input@;
proof { lemma_skips(); lemma_total(); }
//# abort macros_::format::<Parse<'a> for FormatSpec<'a>>::parse
p_spec(s0) is Abort
//# params macros_::format::Piece::parse_lit
input
//# pre macros_::format::Piece::parse_lit
let ghost s0 = input@; let ghost t0 = input@.skip(1);
proof { lemma_skips(); lemma_run(s0, is_plain()); if s0.len() > 0 { lemma_run(t0, is_plain()); } }
//# loop macros_::format::Piece::parse_lit 0
    invariant s0.len() > 0, t0 == s0.skip(1), $out is None, sfx(t0, $it@), run(t0, is_plain()) == t0.len() - $it@.len() + run($it@, is_plain()), !$go ==> run($it@, is_plain()) == 0
    decreases $it@.len() + if $go { 1nat } else { 0nat }
//# loopbegin macros_::format::Piece::parse_lit 0
proof { lemma_skips(); lemma_step(t0, $it@); lemma_progress($it@); lemma_run($it@, is_plain()); }
//# params macros_::format::Piece::parse_arg
input
//# pre macros_::format::Piece::parse_arg
proof { lemma_skips(); }
//# attr macros_::format::<Parse<'a> for FormatSpec<'a>>::parse
#[verifier::spinoff_prover] #[verifier::rlimit(40)]
//# pre macros_::format::<Parse<'a> for Format<'a>>::parse
let ghost s0 = input@;
proof { lemma_skips(); lemma_views(Seq::empty()); lemma_pieces(s0, Seq::empty()); match p_pieces(s0) { PR::Ok(_, w) => { assert(Seq::<SPiece>::empty() + w =~= w); }, _ => {} } }
//# loop macros_::format::<Parse<'a> for Format<'a>>::parse 0
    invariant
        sfx(s0, $it@),
        $go ==> $out is None && front(v_pieces($pat@), p_pieces($it@)) == p_pieces(s0),
        !$go && $out is None ==> p_pieces(s0) == PR::Ok($it@, v_pieces($pat@)),
        $out is Some ==> ($out->0 is Error && p_pieces(s0) is No) || ($out->0 is Failure && p_pieces(s0) is Fail),
    decreases $it@.len() + if $go { 1nat } else { 0nat }
//# loopbegin macros_::format::<Parse<'a> for Format<'a>>::parse 0
proof { lemma_skips(); lemma_progress($it@); lemma_pieces($it@, v_pieces($pat@)); lemma_views($pat@); }
//# attr macros_::format::<Parse<'a> for StyleDiff>::parse
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//# pre macros_::format::<Parse<'a> for StyleDiff>::parse
let ghost s0 = input@;
let ghost first = p_attr(s0)->Ok_1;
let ghost r0 = p_attr(s0)->Ok_0;
let ghost want = says(p_attrs(s0)->Ok_1);
proof { lemma_skips(); lemma_attr(s0); }
//# loop macros_::format::<Parse<'a> for StyleDiff>::parse 0
    invariant
        sfx(s0, $it@),
        $go ==> $out is None && front($pat@, p_more($it@)) == front(seq![first], p_more(r0)),
        !$go && $out is None ==> front(seq![first], p_more(r0)) == PR::Ok($it@, $pat@),
        $out is Some ==> $out->0 is Failure && p_more(r0) is Fail,
    decreases $it@.len() + if $go { 1nat } else { 0nat }
//# loopbegin macros_::format::<Parse<'a> for StyleDiff>::parse 0
proof { lemma_skips(); lemma_progress($it@); lemma_more($it@, $pat@); lemma_attr($it@.skip(1)); }
//# loop macros_::format::<Parse<'a> for StyleDiff>::parse 1
    invariant set_all(diff, $it@) == want,
    ensures $it@.len() == 0,
    decreases $it@.len(),
//# comb macros_::format::<Parse<'a> for FormatSpec<'a>>::parse 0
assert($r is Ok && p_fill($i@) == match ($r->Ok_0).1 { Some((f, a)) => if f == ' ' { Some((($r->Ok_0).0@, Some(a))) } else { None }, None => Some((($r->Ok_0).0@, None)) }) by { reveal(p_fill); reveal(p_align); reveal(opt); }
//# comb macros_::format::<Parse<'a> for FormatSpec<'a>>::parse 1
assert($r is Ok && opt($i@, p_sign($i@)) == (($r->Ok_0).0@, ($r->Ok_0).1)) by { reveal(opt); reveal(p_sign); }
//# comb macros_::format::<Parse<'a> for FormatSpec<'a>>::parse 2
assert($r is Ok && flag($i@, '#') == (($r->Ok_0).0@, ($r->Ok_0).1 is Some) && (($r->Ok_0).1 is Some ==> ($r->Ok_0).1->0)) by { reveal(flag); }
//# comb macros_::format::<Parse<'a> for FormatSpec<'a>>::parse 3
assert($r is Ok && flag($i@, '0') == (($r->Ok_0).0@, ($r->Ok_0).1 is Some) && (($r->Ok_0).1 is Some ==> ($r->Ok_0).1->0)) by { reveal(flag); }
//# comb macros_::format::<Parse<'a> for FormatSpec<'a>>::parse 4
assert($r is Ok && opt($i@, p_count($i@)) == (($r->Ok_0).0@, v_ocount(($r->Ok_0).1))) by { reveal(opt); }
//# comb macros_::format::<Parse<'a> for FormatSpec<'a>>::parse 5
assert($r is Ok && opt($i@, p_prec($i@)) == (($r->Ok_0).0@, v_ocount(($r->Ok_0).1))) by { reveal(opt); reveal(p_prec); }
//# comb macros_::format::<Parse<'a> for FormatSpec<'a>>::parse 6
assert(match $r { Ok((rest, d)) => p_styled($i@) == PR::Ok(rest@, match d { Some(d) => d, None => no_style() }), Err(e) => e is Failure && p_styled($i@) is Fail }) by { reveal(p_styled); }
//# comb macros_::format::<Parse<'a> for FormatSpec<'a>>::parse 7
assert($r is Ok && opt($i@, p_trait($i@)) == (($r->Ok_0).0@, ($r->Ok_0).1)) by { reveal(opt); reveal(p_trait); }
