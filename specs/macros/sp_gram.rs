// C13: the documented grammar of format strings, written as what the text of
// each part is (no parsing order), and the theorem that the parsers accept
// exactly the strings it describes, with the meaning it gives them.
verus! {
pub mod sp_gram {
    use vstd::prelude::*;
    use crate::vxnom::*;
    use crate::vxnom::unicode_ident::{xs, xc, ascii, ascii_c, letter};
    use crate::style::{Color, Intensity, StyleDiff};
    use crate::macros_::format::{Align, Sign, DebugHex, FormatTrait, Attribute};
    use crate::sp_fmt::*;

    // ---- the grammar -------------------------------------------------------
    /// an integer: a row of digits whose value fits a usize
    pub open spec fn g_num(t: Seq<char>, n: nat) -> bool { t.len() > 0 && (forall|k: int| 0 <= k < t.len() ==> digit(#[trigger] t[k])) && num(t) == n && n <= usize::MAX }
    /// an identifier
    pub open spec fn g_name(t: Seq<char>) -> bool { t.len() > 0 && (xs(t[0]) || t[0] == '_') && (forall|k: int| 1 <= k < t.len() ==> xc(#[trigger] t[k])) }
    pub open spec fn g_ref(t: Seq<char>, r: SRef) -> bool { match r { SRef::Pos(n) => g_num(t, n), SRef::Named(x) => g_name(t) && t == x } }
    pub open spec fn g_oref(t: Seq<char>, r: Option<SRef>) -> bool { match r { Some(r) => g_ref(t, r), None => t.len() == 0 } }
    pub open spec fn g_count(t: Seq<char>, c: SCount) -> bool {
        match c { SCount::Int(n) => g_num(t, n), SCount::Param(r) => t.len() > 0 && t.last() == '$' && g_ref(t.drop_last(), r) }
    }
    pub open spec fn g_ocount(t: Seq<char>, c: Option<SCount>) -> bool { match c { Some(c) => g_count(t, c), None => t.len() == 0 } }
    pub open spec fn g_prec(t: Seq<char>, c: Option<SCount>) -> bool { match c { Some(c) => t.len() > 0 && t[0] == '.' && g_count(t.skip(1), c), None => t.len() == 0 } }
    pub open spec fn color_text(c: Color) -> Seq<char> {
        match c {
            Color::Black => seq!['b','l','a','c','k'], Color::Red => seq!['r','e','d'], Color::Green => seq!['g','r','e','e','n'], Color::Yellow => seq!['y','e','l','l','o','w'],
            Color::Blue => seq!['b','l','u','e'], Color::Magenta => seq!['m','a','g','e','n','t','a'], Color::Cyan => seq!['c','y','a','n'], Color::White => seq!['w','h','i','t','e'],
            Color::Default => seq!['d','e','f','a','u','l','t'],
            _ => Seq::empty(),
        }
    }
    /// the bright colours have no name in format strings
    pub open spec fn nameable(c: Color) -> bool { color_text(c).len() > 0 }
    pub open spec fn sayable(a: Attribute) -> bool { match a { Attribute::Foreground(c) => nameable(c), Attribute::Background(c) => nameable(c), Attribute::Intensity(_) => true } }
    pub open spec fn all_sayable(v: Seq<Attribute>) -> bool { forall|k: int| 0 <= k < v.len() ==> sayable(#[trigger] v[k]) }
    pub open spec fn intensity_text(i: Intensity) -> Seq<char> {
        match i { Intensity::Normal => seq!['n','o','r','m','a','l'], Intensity::Bold => seq!['b','o','l','d'], Intensity::Faint => seq!['f','a','i','n','t'] }
    }
    pub open spec fn attr_text(a: Attribute) -> Seq<char> {
        match a { Attribute::Foreground(c) => seq!['f','g','='] + color_text(c), Attribute::Background(c) => seq!['b','g','='] + color_text(c), Attribute::Intensity(i) => intensity_text(i) }
    }
    /// attributes separated by commas
    pub open spec fn list_text(v: Seq<Attribute>) -> Seq<char>
        decreases v.len()
    { if v.len() == 0 { Seq::empty() } else { attr_text(v[0]) + more_text(v.skip(1)) } }
    pub open spec fn more_text(v: Seq<Attribute>) -> Seq<char>
        decreases v.len()
    { if v.len() == 0 { Seq::empty() } else { seq![','] + attr_text(v[0]) + more_text(v.skip(1)) } }
    /// possibly empty, possibly ending in a comma
    pub open spec fn g_list(t: Seq<char>, v: Seq<Attribute>) -> bool { all_sayable(v) && (t == list_text(v) || (v.len() > 0 && t == list_text(v) + seq![','])) }
    pub open spec fn g_style(t: Seq<char>, d: StyleDiff) -> bool {
        (t.len() == 0 && d == no_style()) || (exists|v: Seq<Attribute>, l: Seq<char>| #[trigger] g_list(l, v) && t == seq!['('] + l + seq![')'] && d == says(v))
    }
    pub open spec fn is_align(c: char) -> bool { c == '<' || c == '^' || c == '>' }
    pub open spec fn align_char(a: Align) -> char { match a { Align::Left => '<', Align::Center => '^', Align::Right => '>' } }
    /// the only fill supported is the space
    pub open spec fn g_align(t: Seq<char>, a: Option<Align>) -> bool { match a { None => t.len() == 0, Some(a) => t == seq![align_char(a)] || t == seq![' ', align_char(a)] } }
    pub open spec fn sign_text(a: Option<Sign>) -> Seq<char> { match a { None => Seq::empty(), Some(Sign::Plus) => seq!['+'], Some(Sign::Minus) => seq!['-'] } }
    pub open spec fn flag_text(b: bool, c: char) -> Seq<char> { if b { seq![c] } else { Seq::empty() } }
    pub open spec fn g_trait(t: Seq<char>, h: Option<DebugHex>, tr: FormatTrait) -> bool {
        match (h, tr) {
            (None, FormatTrait::Display) => t.len() == 0,
            (None, FormatTrait::Debug) => t == seq!['?'],
            (Some(DebugHex::Lower), FormatTrait::Debug) => t == seq!['x', '?'],
            (Some(DebugHex::Upper), FormatTrait::Debug) => t == seq!['X', '?'],
            (None, FormatTrait::Octal) => t == seq!['o'],
            (None, FormatTrait::LowerHex) => t == seq!['x'],
            (None, FormatTrait::UpperHex) => t == seq!['X'],
            (None, FormatTrait::Pointer) => t == seq!['p'],
            (None, FormatTrait::Binary) => t == seq!['b'],
            (None, FormatTrait::LowerExp) => t == seq!['e'],
            (None, FormatTrait::UpperExp) => t == seq!['E'],
            (None, FormatTrait::Stylish) => t == seq!['s'],
            _ => false,
        }
    }
    pub struct SpecText { pub align: Seq<char>, pub width: Seq<char>, pub prec: Seq<char>, pub style: Seq<char>, pub tr: Seq<char> }
    pub open spec fn parts(t: Seq<char>, p: SSpec, x: SpecText) -> bool {
        &&& t == x.align + (sign_text(p.sign) + (flag_text(p.alternate, '#') + (flag_text(p.zero, '0') + (x.width + (x.prec + (x.style + x.tr))))))
        &&& g_align(x.align, p.align) && g_ocount(x.width, p.width) && g_prec(x.prec, p.precision) && g_style(x.style, p.style) && g_trait(x.tr, p.debug_hex, p.tr)
        // a zero in front of the width is the flag
        &&& !p.zero ==> !at(x.width, '0')
    }
    pub open spec fn g_spec(t: Seq<char>, p: SSpec) -> bool { exists|x: SpecText| parts(t, p, x) }
    /// what stands between the braces: [argument][: spec]
    pub open spec fn g_arg(t: Seq<char>, a: SArg) -> bool {
        (g_oref(t, a.arg) && a.spec == no_spec()) || (exists|r: Seq<char>, q: Seq<char>| g_oref(r, a.arg) && #[trigger] g_spec(q, a.spec) && t == #[trigger] (r + seq![':']) + q)
    }
    /// one thing to render: a character, or a placeholder
    pub enum Ev { Ch(char), Arg(SArg) }
    /// `{t}` at the start of s. Where `}` of an empty spec is followed by an
    /// alignment it is read as a fill (as in std), which is not supported.
    pub open spec fn hole(s: Seq<char>, t: Seq<char>, a: SArg) -> bool {
        &&& t.len() + 2 <= s.len() && s[0] == '{' && s.subrange(1, 1 + t.len() as int) == t && s[1 + t.len() as int] == '}' && g_arg(t, a)
        &&& !(t.len() > 0 && t.last() == ':' && s.len() > t.len() + 2 && is_align(s[t.len() as int + 2]))
    }
    /// s is a format string that says m
    pub open spec fn denotes(s: Seq<char>, m: Seq<Ev>) -> bool
        decreases s.len()
    {
        if s.len() == 0 { m.len() == 0 }
        else if s[0] != '{' && s[0] != '}' { m.len() > 0 && m[0] == Ev::Ch(s[0]) && denotes(s.skip(1), m.skip(1)) }
        else if at2(s, '{', '{') { m.len() > 0 && m[0] == Ev::Ch('{') && denotes(s.skip(2), m.skip(1)) }
        else if at2(s, '}', '}') { m.len() > 0 && m[0] == Ev::Ch('}') && denotes(s.skip(2), m.skip(1)) }
        else { exists|t: Seq<char>, a: SArg| #[trigger] hole(s, t, a) && m.len() > 0 && m[0] == Ev::Arg(a) && denotes(s.skip(t.len() as int + 2), m.skip(1)) }
    }
    /// what the pieces say
    pub open spec fn meaning(v: Seq<SPiece>) -> Seq<Ev>
        decreases v.len()
    {
        if v.len() == 0 { Seq::empty() } else {
            (match v[0] { SPiece::Lit(x) => x.map_values(|c: char| Ev::Ch(c)), SPiece::Arg(a) => seq![Ev::Arg(a)] }) + meaning(v.skip(1))
        }
    }

    // ---- runs --------------------------------------------------------------
    /// a run ends where the text of the part ends
    pub proof fn run_is(t: Seq<char>, w: Seq<char>, f: spec_fn(char) -> bool)
        requires forall|k: int| 0 <= k < t.len() ==> f(#[trigger] t[k]), w.len() == 0 || !f(w[0])
        ensures run(t + w, f) == t.len()
        decreases t.len()
    {
        let s = t + w;
        if t.len() > 0 {
            assert(s.skip(1) =~= t.skip(1) + w);
            assert(f(t[0]));
            assert forall|k: int| 0 <= k < t.skip(1).len() implies f(#[trigger] t.skip(1)[k]) by { assert(t.skip(1)[k] == t[k + 1]); }
            run_is(t.skip(1), w, f);
        } else { assert(s =~= w); }
    }
    pub proof fn cat(t: Seq<char>, w: Seq<char>)
        ensures (t + w).take(t.len() as int) == t, (t + w).skip(t.len() as int) == w, (t + w).len() == t.len() + w.len(),
            t.len() > 0 ==> (t + w)[0] == t[0], t.len() == 0 ==> t + w == w,
    { assert((t + w).take(t.len() as int) =~= t); assert((t + w).skip(t.len() as int) =~= w); if t.len() == 0 { assert(t + w =~= w); } }
    pub proof fn split(s: Seq<char>, k: int)
        requires 0 <= k <= s.len()
        ensures s == s.take(k) + s.skip(k)
    { assert(s =~= s.take(k) + s.skip(k)); }

    // ---- a spelled part is parsed ------------------------------------------
    pub open spec fn first_not(w: Seq<char>, f: spec_fn(char) -> bool) -> bool { w.len() == 0 || !f(w[0]) }
    pub proof fn c_num(t: Seq<char>, w: Seq<char>, n: nat)
        requires g_num(t, n), first_not(w, is_digit())
        ensures p_num(t + w) == PR::Ok(w, n)
    { run_is(t, w, is_digit()); cat(t, w); }
    pub proof fn c_ref(t: Seq<char>, w: Seq<char>, r: SRef)
        requires g_ref(t, r), first_not(w, is_digit()), first_not(w, is_xc())
        ensures p_ref(t + w) == PR::Ok(w, r)
    {
        broadcast use ascii, ascii_c;
        cat(t, w);
        match r {
            SRef::Pos(n) => { c_num(t, w, n); }
            SRef::Named(x) => {
                let s = t + w;
                assert(!digit(s[0]));
                assert(digits(s) == 0);
                assert(s.skip(1) =~= t.skip(1) + w);
                assert forall|k: int| 0 <= k < t.skip(1).len() implies is_xc()(#[trigger] t.skip(1)[k]) by { assert(t.skip(1)[k] == t[k + 1]); }
                run_is(t.skip(1), w, is_xc());
            }
        }
    }
    /// what may follow a number or a name, and what may not be taken for one
    pub open spec fn ends(w: Seq<char>) -> bool { first_not(w, is_digit()) && first_not(w, is_xc()) && !at(w, '$') }
    /// no reference in front of a `$` starts here, nor a number
    pub open spec fn no_count(w: Seq<char>) -> bool { first_not(w, is_digit()) && (match p_ident(w) { PR::Ok(r, _) => !at(r, '$'), _ => true }) }
    pub proof fn c_count(t: Seq<char>, w: Seq<char>, c: Option<SCount>)
        requires g_ocount(t, c), c is Some && c->0 is Int ==> first_not(w, is_digit()) && !at(w, '$'), c is None ==> no_count(w)
        ensures opt(t + w, p_count(t + w)) == (w, c)
    {
        broadcast use ascii, ascii_c;
        cat(t, w);
        match c {
            None => { assert(digits(w) == 0); }
            Some(SCount::Int(n)) => { c_num(t, w, n); }
            Some(SCount::Param(r)) => {
                let (u, d) = (t.drop_last(), seq!['$'] + w);
                assert(t + w =~= u + d);
                c_ref(u, d, r);
                assert(d.skip(1) =~= w);
            }
        }
    }
    pub proof fn c_prec(t: Seq<char>, w: Seq<char>, c: Option<SCount>)
        requires g_prec(t, c), first_not(w, is_digit()), !at(w, '$'), !at(w, '.')
        ensures opt(t + w, p_prec(t + w)) == (w, c)
    {
        cat(t, w);
        if c is Some {
            assert((t + w).skip(1) =~= t.skip(1) + w);
            c_count(t.skip(1), w, c);
        }
    }
    pub proof fn c_color(c: Color, w: Seq<char>)
        requires nameable(c)
        ensures p_color(color_text(c) + w) == PR::Ok(w, c)
    { cat(color_text(c), w); let s = color_text(c) + w; assert(forall|k: int| 0 <= k < color_text(c).len() ==> s[k] == color_text(c)[k]); }
    pub proof fn c_intensity(c: Intensity, w: Seq<char>)
        ensures p_intensity(intensity_text(c) + w) == PR::Ok(w, c)
    { cat(intensity_text(c), w); let s = intensity_text(c) + w; assert(forall|k: int| 0 <= k < intensity_text(c).len() ==> s[k] == intensity_text(c)[k]); }
    pub proof fn c_attr(a: Attribute, w: Seq<char>)
        requires sayable(a)
        ensures p_attr(attr_text(a) + w) == PR::Ok(w, a)
    {
        hide(p_color);
        let s = attr_text(a) + w;
        match a {
            Attribute::Foreground(c) => { assert(s.skip(2).skip(1) =~= color_text(c) + w); c_color(c, w); assert(s[0] == 'f' && s[1] == 'g' && s[2] == '='); }
            Attribute::Background(c) => { assert(s.skip(2).skip(1) =~= color_text(c) + w); c_color(c, w); assert(s[0] == 'b' && s[1] == 'g' && s[2] == '='); }
            Attribute::Intensity(i) => { c_intensity(i, w); let x = intensity_text(i); assert(s[0] == x[0] && s[1] == x[1]); }
        }
    }
    pub proof fn c_more(v: Seq<Attribute>, w: Seq<char>)
        requires all_sayable(v), !at(w, ',') || p_attr(w.skip(1)) is No
        ensures p_more(more_text(v) + w) == PR::Ok(w, v)
        decreases v.len()
    {
        hide(p_attr);
        let s = more_text(v) + w;
        if v.len() == 0 { assert(s =~= w); assert(v =~= Seq::empty()); } else {
            let u = more_text(v.skip(1)) + w;
            assert(s.skip(1) =~= attr_text(v[0]) + u);
            assert(forall|k: int| 0 <= k < v.skip(1).len() ==> v.skip(1)[k] == v[k + 1]);
            c_attr(v[0], u);
            c_more(v.skip(1), w);
            assert(seq![v[0]] + v.skip(1) =~= v);
        }
    }
    pub proof fn c_style(t: Seq<char>, w: Seq<char>, d: StyleDiff)
        requires g_style(t, d), !at(w, '(')
        ensures p_styled(t + w) == PR::Ok(w, d)
    {
        hide(p_attr); hide(attr_text); hide(p_more); hide(says);
        if t.len() == 0 { cat(t, w); assert forall|v: Seq<Attribute>, l: Seq<char>| #[trigger] g_list(l, v) implies t != seq!['('] + l + seq![')'] by { assert((seq!['('] + l + seq![')']).len() > 0); } } else {
            let (v, l) = choose|v: Seq<Attribute>, l: Seq<char>| #[trigger] g_list(l, v) && t == seq!['('] + l + seq![')'] && d == says(v);
            let s = t + w;
            let e = seq![')'] + w;
            assert(s.skip(1) =~= l + e);
            assert(e.skip(1) =~= w);
            assert(p_attr(e) is No) by { reveal(p_attr); }
            if v.len() == 0 {
                assert(l + e =~= e); assert(v =~= Seq::empty());
            } else {
                let c = if l == list_text(v) { Seq::<char>::empty() } else { seq![','] };
                let x = c + e;
                assert(l + e =~= attr_text(v[0]) + (more_text(v.skip(1)) + x));
                if c.len() > 0 { assert(x.skip(1) =~= e); } else { assert(x =~= e); }
                assert(forall|k: int| 0 <= k < v.skip(1).len() ==> v.skip(1)[k] == v[k + 1]);
                c_attr(v[0], more_text(v.skip(1)) + x);
                c_more(v.skip(1), x);
                assert(seq![v[0]] + v.skip(1) =~= v);
            }
        }
    }
    pub proof fn c_sign(a: Option<Sign>, w: Seq<char>)
        requires !at(w, '+'), !at(w, '-')
        ensures opt(sign_text(a) + w, p_sign(sign_text(a) + w)) == (w, a)
    { cat(sign_text(a), w); }
    pub proof fn c_flag(b: bool, c: char, w: Seq<char>)
        requires !b ==> !at(w, c)
        ensures flag(flag_text(b, c) + w, c) == (w, b)
    { cat(flag_text(b, c), w); }
    pub proof fn c_align(t: Seq<char>, w: Seq<char>, a: Option<Align>)
        requires g_align(t, a), w.len() > 0, !is_align(w[0]), a is None ==> w.len() < 2 || !is_align(w[1])
        ensures p_fill(t + w) == Some((w, a))
    {
        cat(t, w);
        let s = t + w;
        if a is Some {
            if t.len() == 2 { assert(s.skip(1).skip(1) =~= w); assert(s.skip(1)[0] == s[1]); assert(s[1] == t[1]); }
            else { assert(s.skip(1) =~= w); }
        } else if w.len() > 1 { assert(w.skip(1)[0] == w[1]); }
    }
    pub proof fn c_trait(t: Seq<char>, w: Seq<char>, h: Option<DebugHex>, tr: FormatTrait)
        requires g_trait(t, h, tr), at(w, '}')
        ensures ({ let (r, x) = opt(t + w, p_trait(t + w)); r == w && h == (match x { Some((h, _)) => h, None => None }) && tr == (match x { Some((_, t)) => t, None => FormatTrait::Display }) })
    { cat(t, w); let s = t + w; if t.len() > 0 { assert(s[0] == t[0]); if t.len() > 1 { assert(s[1] == t[1]); } else { assert(s[1] == w[0]); } } }
    /// letters that name a trait are not a width
    pub proof fn c_no_count(t: Seq<char>, w: Seq<char>, h: Option<DebugHex>, tr: FormatTrait)
        requires g_trait(t, h, tr), at(w, '}')
        ensures no_count(t + w), first_not(t + w, is_digit()), !at(t + w, '$'), !at(t + w, '('), !at(t + w, '.'), !at(t + w, '+'), !at(t + w, '-'), !at(t + w, '#'), (t + w).len() > 0,
            !is_align((t + w)[0]), t.len() > 0 ==> !is_align((t + w)[1]),
    {
        broadcast use ascii, ascii_c;
        cat(t, w);
        let s = t + w;
        if t.len() > 0 && letter(t[0]) {
            assert(t.take(1) =~= seq![t[0]]);
            let u = s.skip(1);
            assert(u[0] == s[1]);
            assert(s[1] == if t.len() > 1 { t[1] } else { w[0] });
            assert(!xc(u[0]));
            assert(conts(u) == 0);
            assert(s.skip(1) == u);
        } else { assert(!xs(s[0])); }
    }
    /// no alignment character and no colon in it
    pub open spec fn clean(t: Seq<char>) -> bool { forall|k: int| 0 <= k < t.len() ==> !is_align(#[trigger] t[k]) && t[k] != ':' }
    pub proof fn clean_cat(a: Seq<char>, b: Seq<char>)
        requires clean(a), clean(b)
        ensures clean(a + b)
    { }
    pub proof fn clean_ref(t: Seq<char>, r: SRef)
        requires g_ref(t, r)
        ensures clean(t), t.len() > 0, digit(t[0]) || xs(t[0]) || t[0] == '_'
    { broadcast use ascii, ascii_c; }
    pub proof fn clean_count(t: Seq<char>, c: SCount)
        requires g_count(t, c)
        ensures clean(t), t.len() > 0, digit(t[0]) || xs(t[0]) || t[0] == '_'
    {
        match c {
            SCount::Int(n) => { clean_ref(t, SRef::Pos(n)); }
            SCount::Param(r) => { let u = t.drop_last(); clean_ref(u, r); assert(u[0] == t[0]); assert(forall|k: int| 0 <= k < u.len() ==> t[k] == u[k]); }
        }
    }
    pub proof fn clean_ocount(t: Seq<char>, c: Option<SCount>)
        requires g_ocount(t, c)
        ensures clean(t), t.len() > 0 ==> (t[0] != '#' && t[0] != '+' && t[0] != '-' && t[0] != '$' && t[0] != '(' && t[0] != '.' && !is_align(t[0]))
    { broadcast use ascii, ascii_c; if c is Some { clean_count(t, c->0); } }
    pub proof fn clean_prec(t: Seq<char>, c: Option<SCount>)
        requires g_prec(t, c)
        ensures clean(t)
    { if c is Some { let u = t.skip(1); clean_count(u, c->0); assert(forall|k: int| 1 <= k < t.len() ==> t[k] == u[k - 1]); } }
    pub proof fn clean_attr(a: Attribute)
        ensures clean(attr_text(a))
    { }
    pub proof fn clean_more(v: Seq<Attribute>)
        ensures clean(more_text(v))
        decreases v.len()
    { if v.len() > 0 { clean_attr(v[0]); clean_more(v.skip(1)); clean_cat(seq![','] + attr_text(v[0]), more_text(v.skip(1))); } }
    pub proof fn clean_style(t: Seq<char>, d: StyleDiff)
        requires g_style(t, d)
        ensures clean(t), t.len() > 0 ==> t[0] == '('
    {
        hide(attr_text);
        if t.len() > 0 {
            let (v, l) = choose|v: Seq<Attribute>, l: Seq<char>| #[trigger] g_list(l, v) && t == seq!['('] + l + seq![')'] && d == says(v);
            if v.len() > 0 { clean_attr(v[0]); clean_more(v.skip(1)); clean_cat(attr_text(v[0]), more_text(v.skip(1))); }
            assert(clean(list_text(v)));
            assert(clean(l));
        }
    }
    /// a precision or a style starts here
    pub proof fn lead(w: Seq<char>)
        requires at(w, '.') || at(w, '(')
        ensures no_count(w), first_not(w, is_digit()), !at(w, '$'), !at(w, '#'), !at(w, '+'), !at(w, '-'), !at(w, '0')
    { broadcast use ascii, ascii_c; }
    pub open spec fn tail_text(x: SpecText) -> Seq<char> { x.width + (x.prec + (x.style + x.tr)) }
    pub open spec fn flags_text(p: SSpec) -> Seq<char> { sign_text(p.sign) + (flag_text(p.alternate, '#') + flag_text(p.zero, '0')) }
    /// from the width on
    pub proof fn c_tail(w: Seq<char>, p: SSpec, x: SpecText, w7: Seq<char>, w6: Seq<char>, w5: Seq<char>, w4: Seq<char>)
        requires
            g_ocount(x.width, p.width), g_prec(x.prec, p.precision), g_style(x.style, p.style), g_trait(x.tr, p.debug_hex, p.tr), at(w, '}'),
            w7 == x.tr + w, w6 == x.style + w7, w5 == x.prec + w6, w4 == x.width + w5, !p.zero ==> !at(x.width, '0'),
        ensures
            opt(w4, p_count(w4)) == (w5, p.width), opt(w5, p_prec(w5)) == (w6, p.precision), p_styled(w6) == PR::Ok(w7, p.style),
            ({ let (r, x) = opt(w7, p_trait(w7)); r == w && p.debug_hex == (match x { Some((h, _)) => h, None => None }) && p.tr == (match x { Some((_, t)) => t, None => FormatTrait::Display }) }),
            !p.zero ==> !at(w4, '0'), !at(w4, '#'), !at(w4, '+'), !at(w4, '-'), clean(tail_text(x)), w4 == tail_text(x) + w,
    {
        hide(p_count); hide(p_prec); hide(p_styled); hide(p_trait); hide(opt); hide(g_style); hide(g_count); hide(g_ocount); hide(g_trait); hide(no_count); hide(g_prec); hide(first_not);
        c_no_count(x.tr, w, p.debug_hex, p.tr);
        c_trait(x.tr, w, p.debug_hex, p.tr);
        assert(clean(x.tr)) by { reveal(g_trait); }
        clean_style(x.style, p.style);
        c_style(x.style, w7, p.style);
        cat(x.style, w7);
        if x.style.len() > 0 { lead(w6); }
        clean_prec(x.prec, p.precision);
        assert(x.prec.len() > 0 ==> x.prec[0] == '.') by { reveal(g_prec); }
        assert(!at(w6, '.'));
        c_prec(x.prec, w6, p.precision);
        cat(x.prec, w6);
        if x.prec.len() > 0 { lead(w5); }
        clean_ocount(x.width, p.width);
        c_count(x.width, w5, p.width);
        cat(x.width, w5);
        assert(!at(w5, '0')) by { reveal(first_not); }
        clean_cat(x.style, x.tr);
        clean_cat(x.prec, x.style + x.tr);
        clean_cat(x.width, x.prec + (x.style + x.tr));
        assert(w4 =~= tail_text(x) + w);
    }
    /// the flags in front of it
    pub proof fn c_flags(p: SSpec, w4: Seq<char>, w3: Seq<char>, w2: Seq<char>, w1: Seq<char>)
        requires !p.zero ==> !at(w4, '0'), !at(w4, '#'), !at(w4, '+'), !at(w4, '-'), w3 == flag_text(p.zero, '0') + w4, w2 == flag_text(p.alternate, '#') + w3, w1 == sign_text(p.sign) + w2
        ensures opt(w1, p_sign(w1)) == (w2, p.sign), flag(w2, '#') == (w3, p.alternate), flag(w3, '0') == (w4, p.zero), clean(flags_text(p)), w1 == flags_text(p) + w4
    {
        hide(p_sign); hide(flag); hide(opt);
        c_flag(p.zero, '0', w4);
        cat(flag_text(p.zero, '0'), w4);
        c_flag(p.alternate, '#', w3);
        cat(flag_text(p.alternate, '#'), w3);
        c_sign(p.sign, w2);
        assert(w1 =~= flags_text(p) + w4);
    }
    /// what follows the alignment is not taken for one
    pub proof fn c_lead(body: Seq<char>, w: Seq<char>, w1: Seq<char>)
        requires clean(body), w1 == body + w, at(w, '}')
        ensures w1.len() > 0, !is_align(w1[0]), body.len() > 0 || w.len() < 2 || !is_align(w[1]) ==> w1.len() < 2 || !is_align(w1[1])
    { if body.len() > 0 { assert(w1[0] == body[0]); if body.len() > 1 { assert(w1[1] == body[1]); } else { assert(w1[1] == w[0]); } } else { assert(w1 =~= w); } }
    pub proof fn c_spec(t: Seq<char>, w: Seq<char>, p: SSpec, x: SpecText)
        requires parts(t, p, x), at(w, '}'), t.len() == 0 ==> w.len() < 2 || !is_align(w[1])
        ensures p_spec(t + w) == PR::Ok(w, p)
    {
        hide(p_count); hide(p_prec); hide(p_styled); hide(p_trait); hide(p_fill); hide(p_sign); hide(flag); hide(opt); hide(g_style); hide(g_count); hide(g_ocount); hide(g_trait); hide(g_align); hide(g_prec); hide(first_not); hide(sign_text); hide(flag_text); hide(clean); hide(is_align);
        let w7 = x.tr + w;
        let w6 = x.style + w7;
        let w5 = x.prec + w6;
        let w4 = x.width + w5;
        let w3 = flag_text(p.zero, '0') + w4;
        let w2 = flag_text(p.alternate, '#') + w3;
        let w1 = sign_text(p.sign) + w2;
        let tail = tail_text(x);
        let body = flags_text(p) + tail;
        c_tail(w, p, x, w7, w6, w5, w4);
        c_flags(p, w4, w3, w2, w1);
        assert(t =~= x.align + body);
        assert(body + w =~= w1);
        assert(t + w =~= x.align + w1);
        clean_cat(flags_text(p), tail);
        c_lead(body, w, w1);
        assert(p.align is None ==> x.align.len() == 0) by { reveal(g_align); }
        c_align(x.align, w1, p.align);
    }
    pub proof fn c_arg(t: Seq<char>, w: Seq<char>, a: SArg)
        requires g_arg(t, a), at(w, '}'), !(t.len() > 0 && t.last() == ':' && w.len() > 1 && is_align(w[1]))
        ensures p_arg(t + w) == PR::Ok(w, a)
    {
        hide(p_spec); hide(g_spec); hide(p_ref);
        broadcast use ascii, ascii_c;
        if g_oref(t, a.arg) && a.spec == no_spec() { c_oref(t, w, a.arg); } else {
            let (r, q) = choose|r: Seq<char>, q: Seq<char>| g_oref(r, a.arg) && #[trigger] g_spec(q, a.spec) && t == #[trigger] (r + seq![':'] + q);
            let u = seq![':'] + (q + w);
            assert(t + w =~= r + u);
            c_oref(r, u, a.arg);
            assert(u.skip(1) =~= q + w);
            if q.len() == 0 { assert(t.last() == ':'); }
            assert(g_spec(q, a.spec));
            let x = c_parts(q, a.spec);
            c_spec(q, w, a.spec, x);
        }
    }
    pub proof fn c_parts(q: Seq<char>, p: SSpec) -> (x: SpecText)
        requires g_spec(q, p)
        ensures parts(q, p, x)
    { choose|x: SpecText| parts(q, p, x) }
    pub proof fn c_oref(t: Seq<char>, w: Seq<char>, r: Option<SRef>)
        requires g_oref(t, r), at(w, '}') || at(w, ':')
        ensures opt(t + w, p_ref(t + w)) == (w, r)
    {
        broadcast use ascii, ascii_c;
        if r is Some { c_ref(t, w, r->0); } else { cat(t, w); }
    }

    // ---- what is parsed is spelled so ---------------------------------------
    /// the text between s and what is left of it
    pub open spec fn used(s: Seq<char>, r: Seq<char>) -> Seq<char> { s.take(s.len() - r.len()) }
    pub proof fn chain(a: Seq<char>, b: Seq<char>, c: Seq<char>)
        requires sfx(a, b), sfx(b, c)
        ensures sfx(a, c), used(a, c) == used(a, b) + used(b, c), a == used(a, b) + b, used(a, c).len() == a.len() - c.len()
    {
        lemma_skips();
        assert(used(a, c) =~= used(a, b) + used(b, c));
        assert(a =~= used(a, b) + b);
    }
    pub proof fn s_skip(s: Seq<char>, k: int)
        requires 0 <= k <= s.len()
        ensures sfx(s, s.skip(k)), used(s, s.skip(k)) == s.take(k)
    { lemma_skips(); }
    pub proof fn s_num(s: Seq<char>)
        ensures p_num(s) is Ok ==> sfx(s, p_num(s)->Ok_0) && g_num(used(s, p_num(s)->Ok_0), p_num(s)->Ok_1)
    { lemma_run(s, is_digit()); s_skip(s, digits(s) as int); }
    pub proof fn s_ident(s: Seq<char>)
        ensures p_ident(s) is Ok ==> sfx(s, p_ident(s)->Ok_0) && g_name(used(s, p_ident(s)->Ok_0)) && used(s, p_ident(s)->Ok_0) == p_ident(s)->Ok_1
    {
        if p_ident(s) is Ok {
            lemma_run(s.skip(1), is_xc());
            let k = 1 + conts(s.skip(1));
            s_skip(s, k as int);
            let t = s.take(k as int);
            assert forall|j: int| 1 <= j < t.len() implies xc(#[trigger] t[j]) by { assert(is_xc()(s.skip(1)[j - 1])); }
        }
    }
    pub proof fn s_ref(s: Seq<char>)
        ensures p_ref(s) is Ok ==> sfx(s, p_ref(s)->Ok_0) && g_ref(used(s, p_ref(s)->Ok_0), p_ref(s)->Ok_1)
    { hide(p_num); hide(p_ident); hide(g_num); hide(g_name); s_num(s); s_ident(s); }
    pub proof fn s_oref(s: Seq<char>)
        ensures ({ let (r, x) = opt(s, p_ref(s)); sfx(s, r) && g_oref(used(s, r), x) })
    { hide(p_ref); hide(g_ref); lemma_skips(); s_ref(s); }
    pub proof fn s_count(s: Seq<char>)
        ensures p_count(s) is Ok ==> sfx(s, p_count(s)->Ok_0) && g_count(used(s, p_count(s)->Ok_0), p_count(s)->Ok_1)
    {
        hide(p_num); hide(p_ref); hide(g_num); hide(g_ref);
        s_num(s);
        s_ref(s);
        if p_ref(s) is Ok {
            let r = p_ref(s)->Ok_0;
            if at(r, '$') {
                s_skip(r, 1);
                chain(s, r, r.skip(1));
                let t = used(s, r.skip(1));
                assert(t.drop_last() =~= used(s, r));
                assert(t.last() == '$');
            }
        }
    }
    pub proof fn s_ocount(s: Seq<char>)
        ensures ({ let (r, x) = opt(s, p_count(s)); sfx(s, r) && g_ocount(used(s, r), x) })
    { hide(p_count); hide(g_count); lemma_skips(); s_count(s); }
    pub proof fn s_prec(s: Seq<char>)
        ensures ({ let (r, x) = opt(s, p_prec(s)); sfx(s, r) && g_prec(used(s, r), x) })
    {
        hide(p_count); hide(g_count);
        lemma_skips();
        if at(s, '.') {
            s_count(s.skip(1));
            if p_count(s.skip(1)) is Ok { let r = p_count(s.skip(1))->Ok_0; s_skip(s, 1); chain(s, s.skip(1), r); assert(used(s, r).skip(1) =~= used(s.skip(1), r)); assert(used(s, r)[0] == s[0]); }
        }
    }
    pub proof fn s_color(s: Seq<char>)
        ensures p_color(s) is Ok ==> sfx(s, p_color(s)->Ok_0) && used(s, p_color(s)->Ok_0) == color_text(p_color(s)->Ok_1) && nameable(p_color(s)->Ok_1)
    {
        if p_color(s) is Ok {
            let (r, c) = (p_color(s)->Ok_0, p_color(s)->Ok_1);
            let k = color_text(c).len() as int;
            s_skip(s, k);
            assert(r == s.skip(k));
            assert(s.take(k) =~= color_text(c));
        }
    }
    pub proof fn s_intensity(s: Seq<char>)
        ensures p_intensity(s) is Ok ==> sfx(s, p_intensity(s)->Ok_0) && used(s, p_intensity(s)->Ok_0) == intensity_text(p_intensity(s)->Ok_1)
    {
        if p_intensity(s) is Ok {
            let (r, c) = (p_intensity(s)->Ok_0, p_intensity(s)->Ok_1);
            let k = intensity_text(c).len() as int;
            s_skip(s, k);
            assert(r == s.skip(k));
            assert(s.take(k) =~= intensity_text(c));
        }
    }
    pub proof fn s_attr(s: Seq<char>)
        ensures p_attr(s) is Ok ==> sfx(s, p_attr(s)->Ok_0) && used(s, p_attr(s)->Ok_0) == attr_text(p_attr(s)->Ok_1) && sayable(p_attr(s)->Ok_1)
    {
        hide(p_color); hide(color_text); hide(p_intensity); hide(intensity_text); hide(nameable);
        if p_attr(s) is Ok {
            let r = p_attr(s)->Ok_0;
            if at2(s, 'f', 'g') || at2(s, 'b', 'g') {
                let u = s.skip(2);
                assert(u[0] == s[2]);
                assert(u.skip(1) =~= s.skip(3));
                s_skip(s, 3);
                s_color(s.skip(3));
                chain(s, s.skip(3), r);
                assert(s.take(3) =~= seq![s[0], 'g', '=']);
            } else { s_intensity(s); }
        }
    }
    pub proof fn s_more(s: Seq<char>)
        ensures p_more(s) is Ok ==> sfx(s, p_more(s)->Ok_0) && used(s, p_more(s)->Ok_0) == more_text(p_more(s)->Ok_1) && all_sayable(p_more(s)->Ok_1)
        decreases s.len()
    {
        hide(p_attr); hide(attr_text); hide(sayable);
        lemma_skips();
        if p_more(s) is Ok && at(s, ',') && p_attr(s.skip(1)) is Ok {
            let (r, a) = (p_attr(s.skip(1))->Ok_0, p_attr(s.skip(1))->Ok_1);
            s_attr(s.skip(1));
            s_more(r);
            let (r2, v) = (p_more(r)->Ok_0, p_more(r)->Ok_1);
            s_skip(s, 1);
            chain(s, s.skip(1), r);
            chain(s, r, r2);
            assert(s.take(1) =~= seq![',']);
            assert((seq![a] + v).skip(1) =~= v);
            assert forall|k: int| 0 <= k < (seq![a] + v).len() implies sayable(#[trigger] (seq![a] + v)[k]) by { if k > 0 { assert((seq![a] + v)[k] == v[k - 1]); } }
        }
    }
    pub proof fn s_attrs(s: Seq<char>)
        ensures p_attrs(s) is Ok ==> sfx(s, p_attrs(s)->Ok_0) && g_list(used(s, p_attrs(s)->Ok_0), p_attrs(s)->Ok_1)
    {
        hide(p_attr); hide(attr_text); hide(sayable); hide(p_more); hide(more_text);
        lemma_skips();
        if p_attrs(s) is Ok {
            if p_attr(s) is Ok {
                let (r, a) = (p_attr(s)->Ok_0, p_attr(s)->Ok_1);
                s_attr(s);
                s_more(r);
                let (r2, v) = (p_more(r)->Ok_0, p_more(r)->Ok_1);
                let all = seq![a] + v;
                chain(s, r, r2);
                assert(all.skip(1) =~= v);
                assert(used(s, r2) == list_text(all));
                assert forall|k: int| 0 <= k < all.len() implies sayable(#[trigger] all[k]) by { if k > 0 { assert(all[k] == v[k - 1]); } }
                if at(r2, ',') { s_skip(r2, 1); chain(s, r2, r2.skip(1)); assert(r2.take(1) =~= seq![',']); }
            } else { assert(used(s, s) =~= Seq::empty()); }
        }
    }
    pub proof fn s_styled(s: Seq<char>)
        ensures p_styled(s) is Ok ==> sfx(s, p_styled(s)->Ok_0) && g_style(used(s, p_styled(s)->Ok_0), p_styled(s)->Ok_1)
    {
        hide(p_attrs); hide(g_list); hide(says);
        lemma_skips();
        if p_styled(s) is Ok && at(s, '(') {
            let u = s.skip(1);
            s_attrs(u);
            let (r, v) = (p_attrs(u)->Ok_0, p_attrs(u)->Ok_1);
            let l = used(u, r);
            s_skip(s, 1);
            chain(s, u, r);
            s_skip(r, 1);
            chain(s, r, r.skip(1));
            assert(s.take(1) =~= seq!['(']);
            assert(r.take(1) =~= seq![')']);
            assert(g_list(l, v));
            assert(used(s, r.skip(1)) == seq!['('] + l + seq![')']);
        }
    }
    pub proof fn s_fill(s: Seq<char>)
        ensures p_fill(s) is Some ==> sfx(s, (p_fill(s)->0).0) && g_align(used(s, (p_fill(s)->0).0), (p_fill(s)->0).1)
    {
        lemma_skips();
        if p_fill(s) is Some {
            if s.len() > 1 && p_align(s.skip(1)) is Ok {
                let a = p_align(s.skip(1))->Ok_1;
                s_skip(s, 2);
                assert(s.skip(1).skip(1) =~= s.skip(2));
                assert(s.skip(1)[0] == s[1]);
                assert(s.take(2) =~= seq![' ', align_char(a)]);
            } else if p_align(s) is Ok { s_skip(s, 1); assert(s.take(1) =~= seq![s[0]]); }
        }
    }
    pub proof fn s_sign(s: Seq<char>)
        ensures ({ let (r, x) = opt(s, p_sign(s)); sfx(s, r) && used(s, r) == sign_text(x) })
    { lemma_skips(); if p_sign(s) is Ok { s_skip(s, 1); assert(s.take(1) =~= seq![s[0]]); } else { assert(used(s, s) =~= Seq::empty()); } }
    pub proof fn s_flag(s: Seq<char>, c: char)
        ensures ({ let (r, x) = flag(s, c); sfx(s, r) && used(s, r) == flag_text(x, c) })
    { lemma_skips(); if at(s, c) { s_skip(s, 1); assert(s.take(1) =~= seq![s[0]]); } else { assert(used(s, s) =~= Seq::empty()); } }
    pub proof fn s_trait(s: Seq<char>)
        ensures ({ let (r, x) = opt(s, p_trait(s)); sfx(s, r) && g_trait(used(s, r), match x { Some((h, _)) => h, None => None }, match x { Some((_, t)) => t, None => FormatTrait::Display }) })
    {
        lemma_skips();
        if s.len() > 0 {
            s_skip(s, 1);
            assert(s.take(1) =~= seq![s[0]]);
            if s.len() > 1 { s_skip(s, 2); assert(s.take(2) =~= seq![s[0], s[1]]); }
        }
    }
    pub proof fn s_spec(s: Seq<char>)
        ensures p_spec(s) is Ok ==> sfx(s, p_spec(s)->Ok_0) && g_spec(used(s, p_spec(s)->Ok_0), p_spec(s)->Ok_1)
    {
        hide(p_count); hide(p_prec); hide(p_styled); hide(p_trait); hide(p_fill); hide(p_sign); hide(flag); hide(opt); hide(g_style); hide(g_ocount); hide(g_trait); hide(g_align); hide(g_prec); hide(sign_text); hide(flag_text);
        if p_spec(s) is Ok {
            s_fill(s);
            let (s1, align) = p_fill(s)->0;
            s_sign(s1);
            let (s2, sign) = opt(s1, p_sign(s1));
            s_flag(s2, '#');
            let (s3, alternate) = flag(s2, '#');
            s_flag(s3, '0');
            let (s4, zero) = flag(s3, '0');
            s_ocount(s4);
            let (s5, width) = opt(s4, p_count(s4));
            s_prec(s5);
            let (s6, precision) = opt(s5, p_prec(s5));
            s_styled(s6);
            let s7 = p_styled(s6)->Ok_0;
            s_trait(s7);
            let (s8, t) = opt(s7, p_trait(s7));
            let p = p_spec(s)->Ok_1;
            let x = SpecText { align: used(s, s1), width: used(s4, s5), prec: used(s5, s6), style: used(s6, s7), tr: used(s7, s8) };
            chain(s6, s7, s8); chain(s5, s6, s8); chain(s4, s5, s8); chain(s3, s4, s8); chain(s2, s3, s8); chain(s1, s2, s8); chain(s, s1, s8);
            assert(!p.zero ==> !at(x.width, '0')) by { reveal(flag); if x.width.len() > 0 { assert(x.width[0] == s4[0]); } }
            assert(parts(used(s, s8), p, x));
        }
    }
    /// the spec after a colon
    pub proof fn s_colon(s: Seq<char>, s1: Seq<char>, a: SArg)
        requires sfx(s, s1), at(s1, ':'), g_oref(used(s, s1), a.arg), p_spec(s1.skip(1)) is Ok, p_spec(s1.skip(1))->Ok_1 == a.spec
        ensures ({
            let r = p_spec(s1.skip(1))->Ok_0;
            let t = used(s, r);
            sfx(s, r) && g_arg(t, a) && (at(r, '}') ==> !(t.len() > 0 && t.last() == ':' && r.len() > 1 && is_align(r[1])))
        })
    {
        hide(p_spec); hide(g_spec); hide(g_oref);
        let u = s1.skip(1);
        let r = p_spec(u)->Ok_0;
        let t = used(s, r);
        s_spec(u);
        s_skip(s1, 1);
        chain(s, s1, u);
        chain(s, u, r);
        let q = used(u, r);
        assert(s1.take(1) =~= seq![':']);
        assert(t == used(s, s1) + seq![':'] + q);
        assert(g_spec(q, a.spec));
        if q.len() == 0 {
            assert(u =~= r);
            if at(r, '}') && r.len() > 1 && is_align(r[1]) { assert(p_spec(u) is Abort) by { reveal(p_spec); assert(u.skip(1)[0] == r[1]); } }
        } else {
            s_last(q, a.spec);
            assert(t.last() == q.last());
        }
    }
    pub proof fn s_arg(s: Seq<char>)
        ensures p_arg(s) is Ok ==> ({
            let (r, a) = (p_arg(s)->Ok_0, p_arg(s)->Ok_1);
            let t = used(s, r);
            sfx(s, r) && g_arg(t, a) && (at(r, '}') ==> !(t.len() > 0 && t.last() == ':' && r.len() > 1 && is_align(r[1])))
        })
    {
        hide(p_ref); hide(p_spec); hide(g_spec); hide(g_oref); hide(is_align);
        s_oref(s);
        let (s1, arg) = opt(s, p_ref(s));
        if p_arg(s) is Ok {
            let a = p_arg(s)->Ok_1;
            if at(s1, ':') { s_never(s1.skip(1)); s_colon(s, s1, a); } else {
                reveal(g_oref);
                let t = used(s, s1);
                if t.len() > 0 { s_noncolon(t, arg->0); }
            }
        }
    }
    pub proof fn s_noncolon(t: Seq<char>, r: SRef)
        requires g_ref(t, r)
        ensures t.len() > 0, t.last() != ':'
    { clean_ref(t, r); assert(t[t.len() - 1] != ':'); }
    pub proof fn s_never(s: Seq<char>)
        ensures !(p_spec(s) is No)
    { }
    /// no spec ends in a colon
    pub proof fn s_last(q: Seq<char>, p: SSpec)
        requires g_spec(q, p), q.len() > 0
        ensures q.last() != ':'
    {
        hide(g_ocount); hide(g_prec); hide(g_style); hide(g_trait); hide(list_text); hide(g_align);
        let x = c_parts(q, p);
        clean_ocount(x.width, p.width);
        clean_prec(x.prec, p.precision);
        clean_style(x.style, p.style);
        assert(clean(x.tr)) by { reveal(g_trait); }
        assert(x.align.len() > 0 ==> x.align.last() != ':') by { reveal(g_align); }
        s_last2(q, p, x);
    }
    pub proof fn clean_flags(p: SSpec)
        ensures clean(flags_text(p))
    { }
    pub proof fn s_last2(q: Seq<char>, p: SSpec, x: SpecText)
        requires q.len() > 0, q == x.align + (sign_text(p.sign) + (flag_text(p.alternate, '#') + (flag_text(p.zero, '0') + tail_text(x)))),
            clean(x.width), clean(x.prec), clean(x.style), clean(x.tr), x.align.len() > 0 ==> x.align.last() != ':',
        ensures q.last() != ':'
    {
        hide(sign_text); hide(flag_text); hide(is_align);
        clean_flags(p);
        clean_cat(x.style, x.tr);
        clean_cat(x.prec, x.style + x.tr);
        clean_cat(x.width, x.prec + (x.style + x.tr));
        let body = flags_text(p) + tail_text(x);
        clean_cat(flags_text(p), tail_text(x));
        assert(q =~= x.align + body);
        if body.len() > 0 { assert(q.last() == body.last()); assert(body[body.len() - 1] != ':'); } else { assert(q =~= x.align); }
    }

    // ---- the theorem ---------------------------------------------------------
    pub open spec fn chars(t: Seq<char>) -> Seq<Ev> { t.map_values(|c: char| Ev::Ch(c)) }
    /// plain text says itself
    pub proof fn t_plain(s: Seq<char>, k: nat, m: Seq<Ev>)
        requires k <= s.len(), forall|j: int| 0 <= j < k ==> is_plain()(#[trigger] s[j])
        ensures denotes(s, m) <==> (m.len() >= k && m.take(k as int) == chars(s.take(k as int)) && denotes(s.skip(k as int), m.skip(k as int)))
        decreases k
    {
        if k == 0 { assert(s.skip(0) =~= s); assert(m.skip(0) =~= m); assert(m.take(0) =~= chars(s.take(0))); } else {
            assert(is_plain()(s[0]));
            if m.len() > 0 {
                let (s1, m1) = (s.skip(1), m.skip(1));
                assert forall|j: int| 0 <= j < k - 1 implies is_plain()(#[trigger] s1[j]) by { assert(is_plain()(s[j + 1])); }
                t_plain(s1, (k - 1) as nat, m1);
                assert(s1.skip(k - 1) =~= s.skip(k as int));
                if m.len() >= k { assert(m1.skip(k - 1) =~= m.skip(k as int)); }
                let c = chars(s.take(k as int));
                if m.len() >= k {
                    if m.take(k as int) == c {
                        assert(m[0] == m.take(k as int)[0]);
                        assert(m[0] == Ev::Ch(s[0]));
                        assert forall|j: int| 0 <= j < k - 1 implies m1[j] == chars(s1.take(k - 1))[j] by { assert(m.take(k as int)[j + 1] == c[j + 1]); }
                        assert(m1.take(k - 1) =~= chars(s1.take(k - 1)));
                    }
                    if m[0] == Ev::Ch(s[0]) && m1.take(k - 1) == chars(s1.take(k - 1)) {
                        assert forall|j: int| 0 <= j < k implies m.take(k as int)[j] == c[j] by { if j > 0 { assert(m1.take(k - 1)[j - 1] == chars(s1.take(k - 1))[j - 1]); } }
                        assert(m.take(k as int) =~= c);
                    }
                }
            }
        }
    }
    pub proof fn t_sound(s: Seq<char>)
        ensures p_format(s) is Ok ==> denotes(s, meaning(p_format(s)->Ok_1))
        decreases s.len()
    {
        hide(p_arg); hide(g_arg);
        lemma_skips();
        if p_format(s) is Ok {
            let v = p_format(s)->Ok_1;
            let m = meaning(v);
            if p_piece(s) is Ok {
                let (r, p) = (p_piece(s)->Ok_0, p_piece(s)->Ok_1);
                t_sound(r);
                let v2 = p_pieces(r)->Ok_1;
                assert(v.skip(1) =~= v2);
                let m2 = meaning(v2);
                let k = run(s, is_plain());
                lemma_run(s, is_plain());
                if k > 0 {
                    assert(m.take(k as int) =~= chars(s.take(k as int)));
                    assert(m.skip(k as int) =~= m2);
                    t_plain(s, k, m);
                } else if p_lit(s) is Ok {
                    assert(m.skip(1) =~= m2);
                    assert(m[0] == Ev::Ch(s[0]));
                } else {
                    assert(m.skip(1) =~= m2);
                    let u = s.skip(1);
                    s_arg(u);
                    let (q, a) = (p_arg(u)->Ok_0, p_arg(u)->Ok_1);
                    let t = used(u, q);
                    let n = t.len() as int;
                    assert(s.subrange(1, 1 + n) =~= t);
                    assert(q == u.skip(n));
                    assert(s[1 + n] == q[0]);
                    if s.len() > n + 2 { assert(s[n + 2] == q[1]); }
                    assert(hole(s, t, a));
                    assert(q.skip(1) =~= s.skip(n + 2));
                    assert(m[0] == Ev::Arg(a));
                }
            }
        }
    }
    pub proof fn t_complete(s: Seq<char>, m: Seq<Ev>)
        requires denotes(s, m)
        ensures p_format(s) is Ok, meaning(p_format(s)->Ok_1) == m
        decreases s.len()
    {
        hide(p_arg); hide(g_arg);
        let k = run(s, is_plain());
        lemma_run(s, is_plain());
        if s.len() == 0 { assert(meaning(Seq::<SPiece>::empty()) =~= m); } else if k > 0 {
            t_plain(s, k, m);
            let (r, m2) = (s.skip(k as int), m.skip(k as int));
            t_complete(r, m2);
            let v2 = p_pieces(r)->Ok_1;
            let v = seq![SPiece::Lit(s.take(k as int))] + v2;
            assert(v.skip(1) =~= v2);
            assert(meaning(v) =~= m) by { assert(meaning(v) == chars(s.take(k as int)) + m2); assert(m =~= m.take(k as int) + m2); }
        } else if at2(s, '{', '{') || at2(s, '}', '}') {
            let (r, m2) = (s.skip(2), m.skip(1));
            t_complete(r, m2);
            let v2 = p_pieces(r)->Ok_1;
            let x = SPiece::Lit(seq![s[0]]);
            let v = seq![x] + v2;
            assert(v.skip(1) =~= v2);
            assert(seq![s[0]].map_values(|c: char| Ev::Ch(c)) =~= seq![m[0]]);
            assert(meaning(v) =~= m);
        } else {
            let (t, a) = choose|t: Seq<char>, a: SArg| #[trigger] hole(s, t, a) && m.len() > 0 && m[0] == Ev::Arg(a) && denotes(s.skip(t.len() as int + 2), m.skip(1));
            let n = t.len() as int;
            let w = s.skip(1 + n);
            assert(s.skip(1) =~= t + w);
            c_arg(t, w, a);
            let (r, m2) = (s.skip(n + 2), m.skip(1));
            assert(w.skip(1) =~= r);
            t_complete(r, m2);
            let v2 = p_pieces(r)->Ok_1;
            let v = seq![SPiece::Arg(a)] + v2;
            assert(v.skip(1) =~= v2);
            assert(meaning(v) =~= m);
        }
    }
    /// C13: a string is accepted exactly when the grammar describes it, and the
    /// pieces say what it says, which is one thing.
    pub proof fn theorem_c13(s: Seq<char>)
        ensures
            p_format(s) is Ok <==> (exists|m: Seq<Ev>| denotes(s, m)),
            p_format(s) is Ok ==> denotes(s, meaning(p_format(s)->Ok_1)) && (forall|m: Seq<Ev>| denotes(s, m) ==> m == meaning(p_format(s)->Ok_1)),
    {
        t_sound(s);
        assert forall|m: Seq<Ev>| denotes(s, m) implies p_format(s) is Ok && m == meaning(p_format(s)->Ok_1) by { t_complete(s, m); }
    }
}
}
