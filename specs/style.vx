//# trait style::Restyle
    spec fn restyled(&self, style: Style) -> Style;
//# fn style::Restyle::apply
    ensures r == self.restyled(style),
//# fn style::<Default for Color>::default
    ensures r == Color::Default,
//# fn style::<Default for Intensity>::default
    ensures r == Intensity::Normal,
//# fn style::<Default for Style>::default
    ensures r == default_style(),
//# fn style::<Default for StyleDiff>::default
    ensures r == (StyleDiff { foreground: None, background: None, intensity: None }),
//# fn style::<Default for Foreground>::default
    ensures r == Foreground(Color::Default),
//# fn style::<Default for Background>::default
    ensures r == Background(Color::Default),
//# fn style::Style::with
    ensures r == adj.restyled(self),
//# fn style::Style::diff_from
    ensures r == sp_diff(original, self),
//# fn style::Style::diff_from::diff
    ensures
        T::obeys_eq_spec() ==> (r is None <==> original.eq_spec(&new)),
        r is Some ==> r == Some(new),
//# impl style::<Restyle for &T>
    open spec fn restyled(&self, style: Style) -> Style { (**self).restyled(style) }
//# impl style::<Restyle for alloc::boxed::Box<T>>
    open spec fn restyled(&self, style: Style) -> Style { (**self).restyled(style) }
//# impl style::<Restyle for [T]>
    open spec fn restyled(&self, style: Style) -> Style { fold_restyle(self@, style) }
//# pre style::<Restyle for [T]>::apply
    broadcast use crate::sp::lemma_fold_refs;
    let ghost style0 = style;
//# loop style::<Restyle for [T]>::apply 0
    invariant fold_restyle_refs($it@, style) == fold_restyle(self@, style0),
    ensures style == fold_restyle(self@, style0),
    decreases $it@.len(),
//# impl style::<Restyle for Option<T>>
    open spec fn restyled(&self, style: Style) -> Style { match *self { Some(t) => t.restyled(style), None => style } }
//# impl style::<Restyle for StyleDiff>
    open spec fn restyled(&self, style: Style) -> Style { patched(*self, style) }
//# impl style::<Restyle for Style>
    open spec fn restyled(&self, style: Style) -> Style { *self }
//# impl style::<Restyle for Foreground>
    open spec fn restyled(&self, style: Style) -> Style { Style { foreground: self.0, ..style } }
//# impl style::<Restyle for Background>
    open spec fn restyled(&self, style: Style) -> Style { Style { background: self.0, ..style } }
//# impl style::<Restyle for Intensity>
    open spec fn restyled(&self, style: Style) -> Style { Style { intensity: *self, ..style } }
//# impl style::<Restyle for ()>
    open spec fn restyled(&self, style: Style) -> Style { style }
//# impl style::<Restyle for (T,U)>
    open spec fn restyled(&self, style: Style) -> Style { self.1.restyled(self.0.restyled(style)) }
//# impl style::<Restyle for (T,U,V)>
    open spec fn restyled(&self, style: Style) -> Style { self.2.restyled(self.1.restyled(self.0.restyled(style))) }
