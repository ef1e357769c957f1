// What the macros emit for a placeholder, and which program that is.
verus! {
pub mod sp_emit {
    use vstd::prelude::*;
    use crate::vxq::*;
    use crate::sp_fmt::*;
    use crate::sp_gram::*;
    use crate::vxnom::*;
    use crate::style::{Color, Intensity, StyleDiff};
    use crate::macros_::format::{Align, Sign, DebugHex, FormatTrait, Attribute, Count, FormatterArgs, FormatSpec};
    use crate::macros_::ArgsInput;
    use crate::shim_macros::{occurs, VxText};

    // ---- values: what expression says them ---------------------------------
    // e: the path of the exports of stylish-core
    pub open spec fn color_toks(e: Seq<Tok>, c: Color) -> Seq<Tok> {
        match c {
            Color::Black => vxq![$e::Color::Black], Color::Red => vxq![$e::Color::Red], Color::Green => vxq![$e::Color::Green],
            Color::Yellow => vxq![$e::Color::Yellow], Color::Blue => vxq![$e::Color::Blue], Color::Magenta => vxq![$e::Color::Magenta],
            Color::Cyan => vxq![$e::Color::Cyan], Color::White => vxq![$e::Color::White], Color::Default => vxq![$e::Color::Default],
            _ => Seq::empty(),
        }
    }
    pub open spec fn intensity_toks(e: Seq<Tok>, i: Intensity) -> Seq<Tok> {
        match i { Intensity::Normal => vxq![$e::Intensity::Normal], Intensity::Bold => vxq![$e::Intensity::Bold], Intensity::Faint => vxq![$e::Intensity::Faint] }
    }
    pub open spec fn align_toks(e: Seq<Tok>, a: Align) -> Seq<Tok> {
        match a { Align::Left => vxq![$e::Align::Left], Align::Center => vxq![$e::Align::Center], Align::Right => vxq![$e::Align::Right] }
    }
    pub open spec fn sign_toks(e: Seq<Tok>, a: Sign) -> Seq<Tok> { match a { Sign::Plus => vxq![$e::Sign::Plus], Sign::Minus => vxq![$e::Sign::Minus] } }
    pub open spec fn hex_toks(e: Seq<Tok>, a: DebugHex) -> Seq<Tok> { match a { DebugHex::Lower => vxq![$e::DebugHex::Lower], DebugHex::Upper => vxq![$e::DebugHex::Upper] } }
    pub open spec fn count_toks(c: SCount) -> Seq<Tok> { match c { SCount::Int(n) => { let k = seq![Tok::Usize(n)]; vxq![&$k] }, _ => Seq::empty() } }
    pub open spec fn opt_toks(e: Seq<Tok>, t: Option<Seq<Tok>>) -> Seq<Tok> {
        match t { Some(t) => vxq![$e::Option::Some($t)], None => vxq![$e::Option::None] }
    }
    pub open spec fn int_count(c: Option<SCount>) -> bool { match c { Some(SCount::Param(_)) => false, _ => true } }

    /// one assignment to a field of the style difference
    pub open spec fn assign_toks(e: Seq<Tok>, a: Attribute) -> Seq<Tok> {
        match a {
            Attribute::Foreground(c) => { let c = color_toks(e, c); vxq![diff.foreground = Some($c);] },
            Attribute::Background(c) => { let c = color_toks(e, c); vxq![diff.background = Some($c);] },
            Attribute::Intensity(i) => { let i = intensity_toks(e, i); vxq![diff.intensity = Some($i);] },
        }
    }
    pub open spec fn assigns_toks(e: Seq<Tok>, v: Seq<Attribute>) -> Seq<Tok>
        decreases v.len(),
    { if v.len() == 0 { Seq::empty() } else { assigns_toks(e, v.drop_last()) + assign_toks(e, v.last()) } }
    /// a block that starts from the empty difference, assigns v in order, and
    /// evaluates to the result
    pub open spec fn block_toks(e: Seq<Tok>, v: Seq<Attribute>) -> Seq<Tok> {
        let start = vxq![let mut diff = $e::StyleDiff::default();];
        let all = (start + assigns_toks(e, v)) + vxq![diff];
        vxq![{ $all }]
    }
    /// the tokens are such a block, for attributes that together say d
    pub open spec fn diff_toks(e: Seq<Tok>, d: StyleDiff, t: Seq<Tok>) -> bool { exists|v: Seq<Attribute>| t == #[trigger] block_toks(e, v) && d == says(v) }
    pub open spec fn diff_ok(d: StyleDiff) -> bool { (d.foreground is Some ==> nameable(d.foreground->0)) && (d.background is Some ==> nameable(d.background->0)) }

    pub open spec fn start_toks(e: Seq<Tok>, v: Seq<Attribute>) -> Seq<Tok> { vxq![let mut diff = $e::StyleDiff::default();] + assigns_toks(e, v) }
    pub proof fn lemma_set_push(d: StyleDiff, v: Seq<Attribute>, a: Attribute)
        ensures set_all(d, v.push(a)) == set(set_all(d, v), a),
        decreases v.len(),
    {
        if v.len() == 0 {
            reveal_with_fuel(set_all, 2); assert(v.push(a).skip(1) =~= v);
        } else {
            assert(v.push(a).skip(1) =~= v.skip(1).push(a));
            lemma_set_push(set(d, v[0]), v.skip(1), a);
        }
    }
    /// assigning one more attribute
    pub proof fn lemma_block(e: Seq<Tok>, d: StyleDiff)
        ensures
            start_toks(e, Seq::empty()) == vxq![let mut diff = $e::StyleDiff::default();],
            says(Seq::empty()) == no_style(),
            forall|v: Seq<Attribute>, a: Attribute| #[trigger] (start_toks(e, v) + assign_toks(e, a)) == start_toks(e, v.push(a)) && says(v.push(a)) == set(says(v), a),
            forall|v: Seq<Attribute>| #![trigger start_toks(e, v)] block_toks(e, v) == { let all = start_toks(e, v) + vxq![diff]; vxq![{ $all }] },
            // the assignments d may need
            ({ let c = color_toks(e, d.foreground->0); assign_toks(e, Attribute::Foreground(d.foreground->0)) == vxq![diff.foreground = Some($c);] }),
            ({ let c = color_toks(e, d.background->0); assign_toks(e, Attribute::Background(d.background->0)) == vxq![diff.background = Some($c);] }),
            ({ let i = intensity_toks(e, d.intensity->0); assign_toks(e, Attribute::Intensity(d.intensity->0)) == vxq![diff.intensity = Some($i);] }),
    {
        let none = Seq::<Attribute>::empty();
        assert(start_toks(e, none) =~= vxq![let mut diff = $e::StyleDiff::default();]);
        assert forall|v: Seq<Attribute>, a: Attribute| #[trigger] (start_toks(e, v) + assign_toks(e, a)) == start_toks(e, v.push(a)) && says(v.push(a)) == set(says(v), a) by {
            lemma_set_push(no_style(), v, a);
            assert(v.push(a).drop_last() =~= v);
            assert(start_toks(e, v) + assign_toks(e, a) =~= start_toks(e, v.push(a)));
        }
    }

    pub open spec fn trait_toks(t: FormatTrait) -> Seq<Tok> {
        match t {
            FormatTrait::Display => vxq![Display], FormatTrait::Debug => vxq![Debug], FormatTrait::Octal => vxq![Octal],
            FormatTrait::LowerHex => vxq![LowerHex], FormatTrait::UpperHex => vxq![UpperHex], FormatTrait::Pointer => vxq![Pointer],
            FormatTrait::Binary => vxq![Binary], FormatTrait::LowerExp => vxq![LowerExp], FormatTrait::UpperExp => vxq![UpperExp],
            FormatTrait::Stylish => Seq::empty(),
        }
    }
    pub open spec fn v_args(a: FormatterArgs<'_>) -> SSpec { v_spec(FormatSpec { formatter_args: a, style: no_style(), format_trait: FormatTrait::Display }) }
    /// the parameters of a placeholder
    pub open spec fn args_toks(e: Seq<Tok>, p: SSpec) -> Seq<Tok> {
        let align = opt_toks(e, match p.align { Some(x) => Some(align_toks(e, x)), None => None });
        let sign = opt_toks(e, match p.sign { Some(x) => Some(sign_toks(e, x)), None => None });
        let alternate = seq![Tok::Bool(p.alternate)];
        let zero = seq![Tok::Bool(p.zero)];
        let width = opt_toks(e, match p.width { Some(x) => Some(count_toks(x)), None => None });
        let precision = opt_toks(e, match p.precision { Some(x) => Some(count_toks(x)), None => None });
        let debug_hex = opt_toks(e, match p.debug_hex { Some(x) => Some(hex_toks(e, x)), None => None });
        vxq![
            &$e::FormatterArgs {
                align: $align,
                sign: $sign,
                alternate: $alternate,
                zero: $zero,
                width: $width,
                precision: $precision,
                debug_hex: $debug_hex,
            }
        ]
    }
    /// the argument, as the value whose stylish Display is called
    pub open spec fn value_toks(e: Seq<Tok>, tr: FormatTrait, arg: Seq<Tok>) -> Seq<Tok> {
        let t = trait_toks(tr);
        let inner = vxq![
            $e::StdFmt {
                f: &match $arg {
                    __stylish_arg => {
                        #[inline]
                        move |__stylish_formatter: &mut $e::fmt::Formatter<'_>| -> $e::fmt::Result {
                            $e::fmt::$t::fmt(__stylish_arg, __stylish_formatter)
                        }
                    }
                }
            }
        ];
        match tr {
            FormatTrait::Stylish => arg,
            FormatTrait::Debug => vxq![$e::StdFmtDebug($inner)],
            _ => vxq![$e::StdFmtOther($inner)],
        }
    }

    // ---- the call -----------------------------------------------------------
    pub struct Call {
        pub krate: Option<Seq<Tok>>,
        pub fmt: Seq<char>,
        pub pos: Seq<Seq<Tok>>,
        pub names: Seq<Seq<char>>,
        pub named: Seq<Seq<Tok>>,
    }
    pub enum Target { Pos(nat), Named(nat), Captured(nat) }

    pub open spec fn is_next(p: SPiece) -> bool { p is Arg && p->Arg_0.arg is None }
    /// how many of the pieces refer to the next argument
    pub open spec fn nexts(v: Seq<SPiece>) -> nat
        decreases v.len(),
    { if v.len() == 0 { 0 } else { nexts(v.drop_last()) + if is_next(v.last()) { 1nat } else { 0 } } }
    pub open spec fn named_at(names: Seq<Seq<char>>, x: Seq<char>, i: int) -> bool { 0 <= i < names.len() && names[i] == x }
    pub open spec fn index_of_name(names: Seq<Seq<char>>, x: Seq<char>) -> nat { (choose|i: int| #[trigger] named_at(names, x, i)) as nat }
    pub open spec fn is_named(c: Call, x: Seq<char>) -> bool { exists|i: int| #[trigger] named_at(c.names, x, i) }
    pub open spec fn name_of(c: Call, x: Seq<char>) -> nat { index_of_name(c.names, x) }
    /// the variables of the surrounding scope that the pieces refer to
    pub open spec fn captured(c: Call, v: Seq<SPiece>) -> Seq<Seq<char>>
        decreases v.len(),
    {
        if v.len() == 0 { Seq::empty() } else {
            let s = captured(c, v.drop_last());
            match v.last() {
                SPiece::Arg(SArg { arg: Some(SRef::Named(x)), .. }) => if is_named(c, x) { s } else { s.push(x) },
                _ => s,
            }
        }
    }
    /// what the k-th piece refers to
    pub open spec fn target(c: Call, v: Seq<SPiece>, k: int) -> Target {
        match v[k]->Arg_0.arg {
            None => Target::Pos(nexts(v.take(k))),
            Some(SRef::Pos(n)) => Target::Pos(n),
            Some(SRef::Named(x)) => if is_named(c, x) { Target::Named(name_of(c, x)) } else { Target::Captured(captured(c, v.take(k)).len()) },
        }
    }
    pub open spec fn there(c: Call, t: Target) -> bool { match t { Target::Pos(n) => n < c.pos.len(), _ => true } }
    pub open spec fn refers(c: Call, v: Seq<SPiece>, k: int, t: Target) -> bool { 0 <= k < v.len() && v[k] is Arg && target(c, v, k) == t }
    pub open spec fn used(c: Call, v: Seq<SPiece>, t: Target) -> bool { exists|k: int| #[trigger] refers(c, v, k, t) }
    /// the argument lists fit the pieces
    pub open spec fn all_there(c: Call, v: Seq<SPiece>) -> bool { forall|k: int| 0 <= k < v.len() && #[trigger] v[k] is Arg ==> there(c, target(c, v, k)) && may_capture(c, v[k]) }
    /// a name that no argument has can be that of a variable
    pub open spec fn may_capture(c: Call, p: SPiece) -> bool {
        match p { SPiece::Arg(SArg { arg: Some(SRef::Named(x)), .. }) => is_named(c, x) || !no_variable(x), _ => true }
    }
    pub open spec fn pos_used(c: Call, v: Seq<SPiece>) -> bool { forall|i: nat| i < c.pos.len() ==> #[trigger] used(c, v, Target::Pos(i)) }
    pub open spec fn named_used(c: Call, v: Seq<SPiece>) -> bool { forall|i: nat| i < c.names.len() ==> #[trigger] used(c, v, Target::Named(i)) }
    pub open spec fn fits(c: Call, v: Seq<SPiece>) -> bool { c.names.no_duplicates() && all_there(c, v) && pos_used(c, v) && named_used(c, v) }
    pub open spec fn accepts(c: Call) -> bool { p_format(c.fmt) is Ok && fits(c, p_format(c.fmt)->Ok_1) }
    /// no count is taken from an argument
    pub open spec fn int_counts(v: Seq<SPiece>) -> bool {
        forall|k: int| 0 <= k < v.len() && #[trigger] v[k] is Arg ==> int_count(v[k]->Arg_0.spec.width) && int_count(v[k]->Arg_0.spec.precision)
    }

    // ---- the program --------------------------------------------------------
    pub open spec fn target_toks(t: Target) -> Seq<Tok> {
        match t {
            Target::Pos(n) => { let i = seq![Tok::Index(n)]; vxq![__stylish_positional_args.$i] },
            Target::Named(n) => { let i = seq![Tok::Index(n)]; vxq![__stylish_named_args.$i] },
            Target::Captured(n) => { let i = seq![Tok::Index(n)]; vxq![__stylish_implicit_named_args.$i] },
        }
    }
    /// t renders the k-th piece
    pub open spec fn statement(e: Seq<Tok>, c: Call, v: Seq<SPiece>, k: int, t: Seq<Tok>) -> bool {
        match v[k] {
            SPiece::Lit(s) => { let lit = seq![Tok::Str(s)]; t == vxq![$e::Formatter::write_str(__stylish_formatter, $lit)?] },
            SPiece::Arg(a) => {
                let arg = value_toks(e, a.spec.tr, target_toks(target(c, v, k)));
                let args = args_toks(e, a.spec);
                exists|style: Seq<Tok>| #[trigger] diff_toks(e, a.spec.style, style) && t == vxq![
                    $e::Display::fmt(
                        &$arg,
                        &mut $e::Formatter::with_args(
                            __stylish_formatter,
                            $args,
                            $style
                        ),
                    )?
                ]
            },
        }
    }
    /// argument expressions: each parenthesised, so that `&` refers to all of it
    pub open spec fn exprs_toks(s: Seq<Seq<Tok>>) -> Seq<Tok> { let r = reps(vxq![& __open], s, vxq![__close ,]); vxq![($r)] }
    pub open spec fn refs_toks(s: Seq<Seq<Tok>>) -> Seq<Tok> { let r = reps(vxq![&], s, vxq![,]); vxq![($r)] }
    pub open spec fn vars_toks(s: Seq<Seq<char>>) -> Seq<Seq<Tok>> { s.map_values(|x: Seq<char>| seq![Tok::Var(x)]) }
    /// every argument expression once, then the statements
    pub open spec fn program_toks(e: Seq<Tok>, c: Call, v: Seq<SPiece>, ss: Seq<Seq<Tok>>) -> Seq<Tok> {
        let pos = exprs_toks(c.pos);
        let named = exprs_toks(c.named);
        let caps = refs_toks(vars_toks(captured(c, v)));
        let body = reps(Seq::empty(), ss, vxq![;]);
        vxq![
            $e::Arguments {
                f: &match ($pos, $named, $caps) {
                    (__stylish_positional_args, __stylish_named_args, __stylish_implicit_named_args) => {
                        #[inline]
                        move |__stylish_formatter: &mut $e::Formatter| -> $e::fmt::Result {
                            $body
                            $e::fmt::Result::Ok(())
                        }
                    }
                }
            }
        ]
    }
    pub open spec fn statements(e: Seq<Tok>, c: Call, v: Seq<SPiece>, ss: Seq<Seq<Tok>>) -> bool {
        ss.len() == v.len() && forall|k: int| 0 <= k < v.len() ==> #[trigger] statement(e, c, v, k, ss[k])
    }
    pub open spec fn program(c: Call, t: Seq<Tok>) -> bool {
        let e = { let k = c.krate->0; vxq![$k::𓀄] };
        let v = p_format(c.fmt)->Ok_1;
        exists|ss: Seq<Seq<Tok>>| #[trigger] statements(e, c, v, ss) && t == program_toks(e, c, v, ss)
    }

    // ---- proofs -------------------------------------------------------------
    pub open spec fn v_call(a: ArgsInput) -> Call {
        Call {
            krate: match a.krate { Some(p) => Some(p.toks()), None => None },
            fmt: a.format@,
            pos: all_toks(a.positional_args@),
            names: a.named_args@.map_values(|x: (Ident, Expr)| x.0@),
            named: all_toks(a.named_args@.map_values(|x: (Ident, Expr)| x.1)),
        }
    }
    pub open spec fn piece_ok(p: SPiece) -> bool {
        match p { SPiece::Lit(s) => { let b = seq!['{', '{']; forall|i: int| !(#[trigger] occurs(s, b, i)) }, SPiece::Arg(a) => diff_ok(a.spec.style) }
    }
    pub open spec fn pieces_ok(v: Seq<SPiece>) -> bool { forall|k: int| 0 <= k < v.len() ==> piece_ok(#[trigger] v[k]) }
    pub proof fn lemma_diff_ok(d: StyleDiff, v: Seq<Attribute>)
        requires diff_ok(d), all_sayable(v),
        ensures diff_ok(set_all(d, v)),
        decreases v.len(),
    {
        if v.len() > 0 {
            assert(sayable(v[0]));
            assert forall|k: int| 0 <= k < v.skip(1).len() implies sayable(#[trigger] v.skip(1)[k]) by { assert(sayable(v[k + 1])); }
            lemma_diff_ok(set(d, v[0]), v.skip(1));
        }
    }
    pub proof fn lemma_arg_ok(t: Seq<char>, a: SArg)
        requires g_arg(t, a),
        ensures diff_ok(a.spec.style),
    {
        if a.spec != no_spec() {
            let (r, q) = choose|r: Seq<char>, q: Seq<char>| g_oref(r, a.arg) && #[trigger] g_spec(q, a.spec) && t == #[trigger] (r + seq![':']) + q;
            let x = choose|x: SpecText| parts(q, a.spec, x);
            if !(x.style.len() == 0 && a.spec.style == no_style()) {
                let (v, l) = choose|v: Seq<Attribute>, l: Seq<char>| #[trigger] g_list(l, v) && x.style == seq!['('] + l + seq![')'] && a.spec.style == says(v);
                lemma_diff_ok(no_style(), v);
            }
        }
    }
    pub proof fn lemma_pieces_ok(s: Seq<char>)
        ensures p_pieces(s) is Ok ==> pieces_ok(p_pieces(s)->Ok_1),
        decreases s.len(),
    {
        hide(p_arg); hide(g_arg);
        if p_pieces(s) is Ok && p_piece(s) is Ok {
            let (r, p) = (p_piece(s)->Ok_0, p_piece(s)->Ok_1);
            lemma_pieces_ok(r);
            let k = run(s, is_plain());
            if p is Lit {
                let b = seq!['{', '{'];
                assert forall|i: int| !(#[trigger] occurs(p->Lit_0, b, i)) by {
                    if occurs(p->Lit_0, b, i) {
                        lemma_run(s, is_plain());
                        assert(p->Lit_0.subrange(i, i + 2)[0] == '{');
                    }
                }
            } else {
                s_arg(s.skip(1));
                lemma_arg_ok(crate::sp_gram::used(s.skip(1), p_arg(s.skip(1))->Ok_0), p->Arg_0);
            }
        }
    }
    pub proof fn lemma_names(names: Seq<Seq<char>>)
        ensures
            names.no_duplicates() <==> names.to_set().len() == names.len(),
            names.take(names.len() as int) == names,
            names.take(0).to_set() == Set::<Seq<char>>::empty(),
            forall|x: Seq<char>| #[trigger] names.to_set().contains(x) <==> names.contains(x),
    {
        assert(names.take(names.len() as int) =~= names);
        assert(names.take(0) =~= Seq::<Seq<char>>::empty());
        assert(names.take(0).to_set() =~= Set::<Seq<char>>::empty());
        if names.no_duplicates() { names.unique_seq_to_set(); }
        if names.to_set().len() == names.len() { names.lemma_no_dup_set_cardinality(); }
    }
    pub proof fn lemma_name_step(names: Seq<Seq<char>>, k: int)
        requires 0 <= k < names.len(),
        ensures names.take(k + 1).to_set() == names.take(k).to_set().insert(names[k]),
    {
        let (a, b) = (names.take(k + 1), names.take(k));
        assert(a =~= b.push(names[k]));
        assert forall|x: Seq<char>| a.to_set().contains(x) == b.to_set().insert(names[k]).contains(x) by {
            if b.contains(x) { let i = b.index_of(x); assert(a[i] == x); }
            if x == names[k] { assert(a[k] == x); }
            if a.contains(x) { let i = a.index_of(x); assert(i == k || b[i] == x); }
        }
        assert(a.to_set() =~= b.to_set().insert(names[k]));
    }
    pub open spec fn used_upto(c: Call, v: Seq<SPiece>, k: int, t: Target) -> bool { exists|j: int| #[trigger] refers(c, v, j, t) && j < k }
    pub proof fn lemma_used(c: Call, v: Seq<SPiece>)
        ensures
            forall|t: Target| #[trigger] used_upto(c, v, v.len() as int, t) == used(c, v, t),
            forall|t: Target| !#[trigger] used_upto(c, v, 0, t),
            forall|x: Seq<char>, i: int| #[trigger] named_at(c.names, x, i) ==> is_named(c, x),
            c.names.no_duplicates() ==> (forall|x: Seq<char>, i: int| #[trigger] named_at(c.names, x, i) ==> name_of(c, x) == i),
            nexts(v.take(0)) == 0, captured(c, v.take(0)).len() == 0, v.take(v.len() as int) == v,
            vars_toks(Seq::empty()) == Seq::<Seq<Tok>>::empty(),
    {
        assert forall|t: Target| #[trigger] used_upto(c, v, v.len() as int, t) == used(c, v, t) by {
            if used(c, v, t) { let j = choose|j: int| #[trigger] refers(c, v, j, t); assert(refers(c, v, j, t) && j < v.len()); }
        }
        assert(v.take(v.len() as int) =~= v);
        assert(v.take(0) =~= Seq::<SPiece>::empty());
        assert(vars_toks(Seq::empty()) =~= Seq::<Seq<Tok>>::empty());
    }
    /// one more piece
    pub proof fn lemma_piece_step(c: Call, v: Seq<SPiece>, k: int)
        requires 0 <= k < v.len(),
        ensures
            forall|t: Target| #[trigger] used_upto(c, v, k + 1, t) == (used_upto(c, v, k, t) || (v[k] is Arg && target(c, v, k) == t)),
            nexts(v.take(k + 1)) == nexts(v.take(k)) + if is_next(v[k]) { 1nat } else { 0 },
            captured(c, v.take(k + 1)) == (match v[k] {
                SPiece::Arg(SArg { arg: Some(SRef::Named(x)), .. }) => if is_named(c, x) { captured(c, v.take(k)) } else { captured(c, v.take(k)).push(x) },
                _ => captured(c, v.take(k)),
            }),
            vars_toks(captured(c, v.take(k + 1))) == (match v[k] {
                SPiece::Arg(SArg { arg: Some(SRef::Named(x)), .. }) => if is_named(c, x) { vars_toks(captured(c, v.take(k))) } else { vars_toks(captured(c, v.take(k))).push(seq![Tok::Var(x)]) },
                _ => vars_toks(captured(c, v.take(k))),
            }),
            vars_toks(captured(c, v.take(k))).len() == captured(c, v.take(k)).len(),
            piece_ok(v[k]) || !pieces_ok(v),
            v[k] is Arg && int_counts(v) ==> int_count(v[k]->Arg_0.spec.width) && int_count(v[k]->Arg_0.spec.precision),
            v[k] is Arg && !there(c, target(c, v, k)) ==> !all_there(c, v),
            v[k] is Arg && !may_capture(c, v[k]) ==> !all_there(c, v),
    {
        assert forall|t: Target| #[trigger] used_upto(c, v, k + 1, t) == (used_upto(c, v, k, t) || (v[k] is Arg && target(c, v, k) == t)) by {
            if used_upto(c, v, k, t) { let j = choose|j: int| #[trigger] refers(c, v, j, t) && j < k; assert(refers(c, v, j, t) && j < k + 1); }
            if v[k] is Arg && target(c, v, k) == t { assert(refers(c, v, k, t)); }
            if used_upto(c, v, k + 1, t) { let j = choose|j: int| #[trigger] refers(c, v, j, t) && j < k + 1; assert(j == k || refers(c, v, j, t) && j < k); }
        }
        assert(v.take(k + 1).drop_last() =~= v.take(k));
        assert forall|s: Seq<Seq<char>>, x: Seq<char>| vars_toks(#[trigger] s.push(x)) == vars_toks(s).push(seq![Tok::Var(x)]) by {
            assert(vars_toks(s.push(x)) =~= vars_toks(s).push(seq![Tok::Var(x)]));
        }
    }
    pub proof fn lemma_format_rest(s: Seq<char>)
        ensures p_format(s) is Ok ==> p_format(s)->Ok_0 == Seq::<char>::empty() && p_format(s)->Ok_1 == p_pieces(s)->Ok_1 && p_pieces(s) is Ok,
    { if p_format(s) is Ok { assert(p_format(s)->Ok_0 =~= Seq::<char>::empty()); } }
    /// what makes t render the k-th piece
    pub proof fn lemma_statement(e: Seq<Tok>, c: Call, v: Seq<SPiece>, k: int)
        ensures
            v[k] is Lit ==> ({ let lit = seq![Tok::Str(v[k]->Lit_0)]; statement(e, c, v, k, vxq![$e::Formatter::write_str(__stylish_formatter, $lit)?]) }),
            v[k] is Arg ==> ({
                let a = v[k]->Arg_0;
                let arg = value_toks(e, a.spec.tr, target_toks(target(c, v, k)));
                let args = args_toks(e, a.spec);
                forall|style: Seq<Tok>| #[trigger] diff_toks(e, a.spec.style, style) ==> statement(e, c, v, k, vxq![
                    $e::Display::fmt(
                        &$arg,
                        &mut $e::Formatter::with_args(
                            __stylish_formatter,
                            $args,
                            $style
                        ),
                    )?
                ])
            }),
    { }
    pub proof fn lemma_args(e: Seq<Tok>, a: FormatterArgs<'_>, p: SSpec)
        requires v_spec(FormatSpec { formatter_args: a, style: p.style, format_trait: p.tr }) == p,
        ensures args_toks(e, v_args(a)) == args_toks(e, p),
    { }
    pub proof fn lemma_end(c: Call, v: Seq<SPiece>)
        ensures
            c.pos.len() <= usize::MAX ==> (pos_used(c, v) <==> (forall|i: usize| i < c.pos.len() ==> #[trigger] used_upto(c, v, v.len() as int, Target::Pos(i as nat)))),
            c.names.no_duplicates() ==> (named_used(c, v) <==> (forall|x: Seq<char>| is_named(c, x) ==> #[trigger] used_upto(c, v, v.len() as int, Target::Named(name_of(c, x))))),
            forall|k: usize, n: usize| #[trigger] crate::shim_macros::collections::has_key(crate::shim_macros::range_seq(0, n), k) <==> k < n,
            captured(c, v.take(0)) == Seq::<Seq<char>>::empty(),
            all_toks(Seq::<ExprPath>::empty()) == Seq::<Seq<Tok>>::empty(),
            all_toks(Seq::<TokenStream>::empty()) == Seq::<Seq<Tok>>::empty(),
    {
        lemma_used(c, v);
        assert(captured(c, v.take(0)) =~= Seq::<Seq<char>>::empty());
        assert(all_toks(Seq::<ExprPath>::empty()) =~= Seq::<Seq<Tok>>::empty());
        assert(all_toks(Seq::<TokenStream>::empty()) =~= Seq::<Seq<Tok>>::empty());
        assert forall|k: usize, n: usize| k < n implies #[trigger] crate::shim_macros::collections::has_key(crate::shim_macros::range_seq(0, n), k) by {
            let s = crate::shim_macros::range_seq(0, n);
            assert(s[k as int] == k);
        }
        if c.pos.len() <= usize::MAX && forall|i: usize| i < c.pos.len() ==> #[trigger] used_upto(c, v, v.len() as int, Target::Pos(i as nat)) {
            assert forall|i: nat| i < c.pos.len() implies #[trigger] used(c, v, Target::Pos(i)) by { assert(used_upto(c, v, v.len() as int, Target::Pos((i as usize) as nat))); }
        }
        if c.names.no_duplicates() && named_used(c, v) {
            assert forall|x: Seq<char>| is_named(c, x) implies #[trigger] used_upto(c, v, v.len() as int, Target::Named(name_of(c, x))) by {
                let i = choose|i: int| #[trigger] named_at(c.names, x, i);
                assert(used(c, v, Target::Named(i as nat)));
            }
        }
        if c.names.no_duplicates() && (forall|x: Seq<char>| is_named(c, x) ==> #[trigger] used_upto(c, v, v.len() as int, Target::Named(name_of(c, x)))) {
            assert forall|i: nat| i < c.names.len() implies #[trigger] used(c, v, Target::Named(i)) by {
                assert(named_at(c.names, c.names[i as int], i as int));
                assert(used_upto(c, v, v.len() as int, Target::Named(name_of(c, c.names[i as int]))));
            }
        }
    }
}
}
