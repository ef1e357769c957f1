// C15: a list of attributes restyles as its attributes do, one after the other.
verus! {
pub mod sp_c15 {
    use vstd::prelude::*;
    use crate::sp_fmt::*;
    use crate::sp_gram::*;
    use crate::sp_emit::*;
    use crate::vxq::*;
    use crate::style::*;
    use crate::macros_::format::Attribute;

    /// restyling in code by what the attribute names
    pub open spec fn restyled_by(a: Attribute, style: Style) -> Style {
        match a {
            Attribute::Foreground(c) => Foreground(c).restyled(style),
            Attribute::Background(c) => Background(c).restyled(style),
            Attribute::Intensity(i) => i.restyled(style),
        }
    }
    pub open spec fn in_order(v: Seq<Attribute>, style: Style) -> Style
        decreases v.len(),
    { if v.len() == 0 { style } else { in_order(v.skip(1), restyled_by(v[0], style)) } }

    pub proof fn lemma_set(d: StyleDiff, a: Attribute, style: Style)
        ensures set(d, a).restyled(style) == restyled_by(a, d.restyled(style)),
    { }
    pub proof fn lemma_set_all(d: StyleDiff, v: Seq<Attribute>, style: Style)
        ensures set_all(d, v).restyled(style) == in_order(v, d.restyled(style)),
        decreases v.len(),
    { if v.len() > 0 { lemma_set(d, v[0], style); lemma_set_all(set(d, v[0]), v.skip(1), style); } }
    /// whatever the surrounding style, the value of the emitted block restyles
    /// it as the listed attributes do in order
    pub proof fn theorem_c15(e: Seq<Tok>, v: Seq<Attribute>, t: Seq<Tok>, style: Style)
        requires diff_toks(e, says(v), t),
        ensures
            says(v).restyled(style) == in_order(v, style),
            exists|w: Seq<Attribute>| t == #[trigger] block_toks(e, w) && in_order(w, style) == in_order(v, style),
    {
        lemma_set_all(no_style(), v, style);
        let w = choose|w: Seq<Attribute>| t == #[trigger] block_toks(e, w) && says(v) == says(w);
        lemma_set_all(no_style(), w, style);
        assert(t == block_toks(e, w) && in_order(w, style) == in_order(v, style));
    }
    /// and in terms of the fields: the last attribute for a field counts, also
    /// when it names the default; without one the surrounding style's is kept
    pub open spec fn last_fg(v: Seq<Attribute>, c: Color) -> Color
        decreases v.len(),
    { if v.len() == 0 { c } else { match v.last() { Attribute::Foreground(x) => x, _ => last_fg(v.drop_last(), c) } } }
    pub open spec fn last_bg(v: Seq<Attribute>, c: Color) -> Color
        decreases v.len(),
    { if v.len() == 0 { c } else { match v.last() { Attribute::Background(x) => x, _ => last_bg(v.drop_last(), c) } } }
    pub open spec fn last_int(v: Seq<Attribute>, c: Intensity) -> Intensity
        decreases v.len(),
    { if v.len() == 0 { c } else { match v.last() { Attribute::Intensity(x) => x, _ => last_int(v.drop_last(), c) } } }
    pub proof fn lemma_last(v: Seq<Attribute>, style: Style)
        ensures says(v).restyled(style) == (Style { foreground: last_fg(v, style.foreground), background: last_bg(v, style.background), intensity: last_int(v, style.intensity) }),
        decreases v.len(),
    {
        if v.len() > 0 {
            lemma_last(v.drop_last(), style);
            lemma_set_push(no_style(), v.drop_last(), v.last());
            assert(v.drop_last().push(v.last()) =~= v);
            lemma_set(says(v.drop_last()), v.last(), style);
        }
    }
}
}
