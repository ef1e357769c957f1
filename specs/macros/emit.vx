//# module macros_::to_tokens
use crate::vxq::*;
use crate::sp_fmt::*;
use crate::sp_emit::*;
use crate::sp_gram::nameable;
//# module macros_
use crate::vxq::*;
use crate::shim_macros::*;
use crate::sp_fmt::*;
use crate::sp_emit::*;
use crate::sp_nl::*;
use crate::sp_call::*;
//# fn macros_::to_tokens::Scoped::new
ensures r == (Scoped { export, inner })
//# fn macros_::to_tokens::Scoped::scope
ensures r == (Scoped { export: self.export, inner })
//# fn macros_::to_tokens::Scoped::as_ref
ensures r == self.inner
//# fn macros_::to_tokens::quote_opt
requires *opt.inner is Some ==> (Scoped { export: opt.export, inner: &opt.inner->0 }).ok()
ensures match *opt.inner {
    Some(v) => exists|t: Seq<Tok>| #[trigger] (Scoped { export: opt.export, inner: &v }).emits(t) && r@ == opt_toks(opt.export.toks(), Some(t)),
    None => r@ == opt_toks(opt.export.toks(), None),
}
//# impl macros_::to_tokens::<ToTokens for Scoped<'a,Color>>
open spec fn ok(&self) -> bool { nameable(*self.inner) }
open spec fn emits(&self, t: Seq<Tok>) -> bool { t == color_toks(self.export.toks(), *self.inner) }
//# pre macros_::to_tokens::<ToTokens for Scoped<'a,Color>>::to_tokens
broadcast use group_toks;
//# impl macros_::to_tokens::<ToTokens for Scoped<'a,Intensity>>
open spec fn ok(&self) -> bool { true }
open spec fn emits(&self, t: Seq<Tok>) -> bool { t == intensity_toks(self.export.toks(), *self.inner) }
//# pre macros_::to_tokens::<ToTokens for Scoped<'a,Intensity>>::to_tokens
broadcast use group_toks;
//# impl macros_::to_tokens::<ToTokens for Scoped<'a,Foreground>>
open spec fn ok(&self) -> bool { nameable(self.inner.0) }
open spec fn emits(&self, t: Seq<Tok>) -> bool { { let c = color_toks(self.export.toks(), self.inner.0); let e = self.export.toks(); t == vxq![$e::Foreground($c)] } }
//# pre macros_::to_tokens::<ToTokens for Scoped<'a,Foreground>>::to_tokens
broadcast use group_toks;
//# impl macros_::to_tokens::<ToTokens for Scoped<'a,StyleDiff>>
open spec fn ok(&self) -> bool { diff_ok(*self.inner) }
open spec fn emits(&self, t: Seq<Tok>) -> bool { diff_toks(self.export.toks(), *self.inner, t) }
//# pre macros_::to_tokens::<ToTokens for Scoped<'a,StyleDiff>>::to_tokens
broadcast use lemma_after, lemma_nothing;
proof { lemma_block(self.export.toks(), *self.inner); }
//# impl macros_::to_tokens::<ToTokens for Scoped<'a,Align>>
open spec fn ok(&self) -> bool { true }
open spec fn emits(&self, t: Seq<Tok>) -> bool { t == align_toks(self.export.toks(), *self.inner) }
//# pre macros_::to_tokens::<ToTokens for Scoped<'a,Align>>::to_tokens
broadcast use group_toks;
//# impl macros_::to_tokens::<ToTokens for Scoped<'a,Sign>>
open spec fn ok(&self) -> bool { true }
open spec fn emits(&self, t: Seq<Tok>) -> bool { t == sign_toks(self.export.toks(), *self.inner) }
//# pre macros_::to_tokens::<ToTokens for Scoped<'a,Sign>>::to_tokens
broadcast use group_toks;
//# impl macros_::to_tokens::<ToTokens for Scoped<'a,Count<'b>>>
open spec fn ok(&self) -> bool { int_count(Some(v_count(*self.inner))) }
open spec fn emits(&self, t: Seq<Tok>) -> bool { t == count_toks(v_count(*self.inner)) }
//# pre macros_::to_tokens::<ToTokens for Scoped<'a,Count<'b>>>::to_tokens
broadcast use group_toks;
//# impl macros_::to_tokens::<ToTokens for Scoped<'a,DebugHex>>
open spec fn ok(&self) -> bool { true }
open spec fn emits(&self, t: Seq<Tok>) -> bool { t == hex_toks(self.export.toks(), *self.inner) }
//# pre macros_::to_tokens::<ToTokens for Scoped<'a,DebugHex>>::to_tokens
broadcast use group_toks;
//# impl macros_::to_tokens::<ToTokens for Scoped<'a,FormatterArgs<'b>>>
open spec fn ok(&self) -> bool { int_count(v_ocount(self.inner.width)) && int_count(v_ocount(self.inner.precision)) }
open spec fn emits(&self, t: Seq<Tok>) -> bool { t == args_toks(self.export.toks(), v_args(*self.inner)) }
//# pre macros_::to_tokens::<ToTokens for Scoped<'a,FormatterArgs<'b>>>::to_tokens
hide(opt_toks); hide(align_toks); hide(sign_toks); hide(hex_toks); hide(count_toks);
broadcast use group_toks;
//# impl macros_::to_tokens::<ToTokens for Scoped<'a,(FormatTrait,TokenStream)>>
open spec fn ok(&self) -> bool { true }
open spec fn emits(&self, t: Seq<Tok>) -> bool { t == value_toks(self.export.toks(), self.inner.0, self.inner.1@) }
//# pre macros_::to_tokens::<ToTokens for Scoped<'a,(FormatTrait,TokenStream)>>::to_tokens
broadcast use group_toks;
//# impl macros_::to_tokens::<ToTokens for FormatTrait>
open spec fn ok(&self) -> bool { !(*self is Stylish) }
open spec fn emits(&self, t: Seq<Tok>) -> bool { t == trait_toks(*self) }
//# pre macros_::to_tokens::<ToTokens for FormatTrait>::to_tokens
broadcast use group_toks;
//# fn macros_::format_args
requires expandable(read_call(input@))
ensures match read_call(input@) { Some(c) => accepts(c) && program(c, r@), None => true }
//# abort macros_::format_args
read_call(input@) is Some && !accepts(read_call(input@)->0)
//# fn macros_::format_args_nl
requires expandable(with_nl(read_call(input@)))
ensures match with_nl(read_call(input@)) { Some(c) => accepts(c) && program(c, r@), None => true }
//# abort macros_::format_args_nl
read_call(input@) is Some && !accepts(with_nl(read_call(input@))->0)
//# pre macros_::format_args_nl
broadcast use group_toks, lemma_push_nl;
//# attr macros_::format_args_impl
#[verifier::loop_isolation(false)]
#[verifier::rlimit(40)]
//# fn macros_::capture
ensures !no_variable(name@), r@ == name@, r.as_path() == seq![Tok::Var(name@)]
//# abort macros_::capture
no_variable(name@)
//# returns macros_::format_args_impl
TokenStream
//# fn macros_::format_args_impl
requires v_call(vx_a0).krate is Some, p_format(v_call(vx_a0).fmt) is Ok ==> int_counts(p_format(v_call(vx_a0).fmt)->Ok_1)
ensures accepts(v_call(vx_a0)), program(v_call(vx_a0), r@)
//# abort macros_::format_args_impl
!accepts(c0)
//# pre macros_::format_args_impl
hide(p_format); hide(statement); hide(pos_used); hide(named_used); hide(pieces_ok); hide(int_counts); hide(args_toks); hide(value_toks); hide(used); hide(used_upto); hide(captured); hide(nexts); hide(diff_toks); hide(reps); hide(vars_toks);
let ghost c0 = v_call(vx_a0);
let ghost ps = p_format(c0.fmt)->Ok_1;
let ghost e0 = { let k = c0.krate->0; vxq![$k::𓀄] };
proof { lemma_pieces_ok(c0.fmt); lemma_names(c0.names); lemma_used(c0, ps); lemma_format_rest(c0.fmt); lemma_end(c0, ps); }
//# loop macros_::format_args_impl 0
    invariant
        $it@.len() <= c0.names.len(), c0.names.len() <= usize::MAX,
        forall|j: int| 0 <= j < $it@.len() ==> (#[trigger] $it@[j]).0 == c0.names.len() - $it@.len() + j && $it@[j].1@ == c0.names[c0.names.len() - $it@.len() + j],
        $out@.dom() == c0.names.take(c0.names.len() - $it@.len()).to_set(),
        forall|x: Seq<char>| #[trigger] $out@.dom().contains(x) ==> $out@[x] < c0.names.len() - $it@.len() && crate::sp_emit::named_at(c0.names, x, $out@[x] as int),
    decreases $it@.len()
//# loopbegin macros_::format_args_impl 0
proof { let k = c0.names.len() - $it@.len() - 1; lemma_name_step(c0.names, k); assert(crate::sp_emit::named_at(c0.names, c0.names[k], k)); }
//# loop macros_::format_args_impl 1
    invariant
        $it@.len() <= ps.len(),
        forall|j: int| 0 <= j < $it@.len() ==> v_piece(#[trigger] $it@[j]) == ps[ps.len() - $it@.len() + j],
        $out@.len() == ps.len() - $it@.len(),
        forall|j: int| 0 <= j < $out@.len() ==> crate::sp_emit::statement(e0, c0, ps, j, #[trigger] all_toks($out@)[j]),
        forall|j: int| 0 <= j < $out@.len() && #[trigger] ps[j] is Arg ==> crate::sp_emit::there(c0, crate::sp_emit::target(c0, ps, j)) && crate::sp_emit::may_capture(c0, ps[j]),
        $out@.len() == ps.len() ==> crate::sp_emit::statements(e0, c0, ps, all_toks($out@)),
        crate::sp_emit::nexts(ps.take($out@.len() as int)) + next_arg_iter@.len() == c0.pos.len(),
        forall|i: int| 0 <= i < next_arg_iter@.len() ==> #[trigger] next_arg_iter@[i] == crate::sp_emit::nexts(ps.take($out@.len() as int)) + i,
        forall|i: usize| #![trigger used_positional_args@.contains(i)] #![trigger crate::sp_emit::used_upto(c0, ps, $out@.len() as int, Target::Pos(i as nat))] used_positional_args@.contains(i) <==> crate::sp_emit::used_upto(c0, ps, $out@.len() as int, Target::Pos(i as nat)),
        forall|x: Seq<char>| #![trigger used_named_args@.contains(x)] #![trigger crate::sp_emit::used_upto(c0, ps, $out@.len() as int, Target::Named(crate::sp_emit::name_of(c0, x)))] used_named_args@.contains(x) <==> crate::sp_emit::is_named(c0, x) && crate::sp_emit::used_upto(c0, ps, $out@.len() as int, Target::Named(crate::sp_emit::name_of(c0, x))),
        all_toks(implicit_named_args_values@) == crate::sp_emit::vars_toks(crate::sp_emit::captured(c0, ps.take($out@.len() as int))),
    decreases $it@.len()
//# loopbegin macros_::format_args_impl 1
let ghost k0 = $out@.len() as int;
let ghost o0 = all_toks($out@);
let ghost i0 = all_toks(implicit_named_args_values@);
proof { lemma_piece_step(c0, ps, k0); lemma_statement(e0, c0, ps, k0); assert(v_piece($pat) == ps[k0]); }
//# loopend macros_::format_args_impl 1
proof {
    assert(all_toks($out@) =~= o0.push(all_toks($out@).last()));
    let im = all_toks(implicit_named_args_values@);
    assert(if im.len() > i0.len() { im =~= i0.push(im.last()) } else { im =~= i0 });
    if ps[k0] is Arg { lemma_args(e0, ($pat)->Arg_0.format_spec.formatter_args, ps[k0]->Arg_0.spec); }
    assert(ps[k0] is Lit ==> crate::sp_emit::statement(e0, c0, ps, k0, all_toks($out@).last()));
    assert(ps[k0] is Arg ==> crate::sp_emit::statement(e0, c0, ps, k0, all_toks($out@).last()));
}
//# impl macros_::<syn::parse::Parse for ArgsInput>
type V = Call;
open spec fn vw(&self) -> Call { v_call(*self) }
open spec fn reads(s: Seq<Tok>) -> Option<(Call, Seq<Tok>)> { p_call(s) }
//# attr macros_::<syn::parse::Parse for ArgsInput>::parse
#[verifier::loop_isolation(false)]
//# abort macros_::<syn::parse::Parse for ArgsInput>::parse
p_call(s0) is None
//# pre macros_::<syn::parse::Parse for ArgsInput>::parse
broadcast use group_call;
let ghost s0 = input@;
//# loop macros_::<syn::parse::Parse for ArgsInput>::parse 0
    invariant
        p_call(s0) == p_args(input@, so_far(krate, format, positional_args@, named_args@)),
        ?onto_named onto_named <==> named_args@.len() > 0,
    decreases input@.len()
