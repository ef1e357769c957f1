//# module html::html
    use crate::sp_html::*;
    use crate::sp_ansi::{tail, semi, bytes_of, opt_bytes, lemma_rest};
    use crate::shim::askama_escape::esc;
//# module html::util
    use crate::sp_html::*;
//# module html::format
    use crate::sp_html::*;
//# params html::util::foreground
color
//# fn html::util::foreground
    ensures vx_b(r) == fg_css(color),
//# params html::util::background
color
//# fn html::util::background
    ensures vx_b(r) == bg_css(color),
//# params html::util::intensity
to
//# fn html::util::intensity
    ensures vx_b(r) == in_css(to),
//# params html::html::Html::new
inner
//# fn html::html::Html::new
    ensures r.inner == inner, r.current == default_style(),
//# fn html::html::Html::finish
    ensures match r {
        Ok(t) => t.out() == self.inner.out() + closing(self.current) && t.failed() == self.inner.failed(),
        Err(_) => !T::infallible(),
    },
//# params html::html::Html::write_fmt
args
//# fn html::html::Html::write_fmt
    requires args_ok(args),
    ensures wf((*old(self)).g(), r, (*final(self)).g(),
        fold((*old(self)).g().nx, (*old(self)).g().st, args_render(args, default_style())), args_fine(args)),
//# impl html::html::<Write for Html<T>>
    #[verifier::prophetic]
    open spec fn g(&self) -> G {
        G {
            st: St { out: self.inner.out(), cur: self.current, log: Seq::empty() },
            nx: html_nx(), base: default_style(),
            fault: if self.inner.failed() { Fault::Text } else { Fault::Fine },
            errs: Seq::empty(), inv: true, fin: Fin::Owned,
        }
    }
//# params html::html::<Write for Html<T>>::write_str
s style
//# pre html::html::<Write for Html<T>>::write_str
let ghost g0 = (*self).g();
let ghost full = g0.st.out + tags(g0.st.cur, style) + esc(vx_b(s));
proof { lemma_no_bytes(s); lemma_html_code(style); lemma_took(); lemma_html_pieces(g0.st.out, g0.st.cur, style, esc(vx_b(s)));
    assert(g0.st.out + Seq::<u8>::empty() =~= g0.st.out);
}
//# loop html::html::<Write for Html<T>>::write_str 0
    invariant
        self.current == g0.st.cur, self.inner.failed() == (g0.fault == Fault::Text),
        *final(self) == *final(old(self)), g0 == (*old(self)).g(),
        full == g0.st.out + tags(g0.st.cur, style) + esc(vx_b(s)), vx_b(s).len() > 0,
        self.inner.out() + tail(bytes_of($it@)) + gt() + esc(vx_b(s)) =~= full,
        g0.st.out.is_prefix_of(self.inner.out()), (self.inner.out() + gt()).is_prefix_of(full) || $it@.len() > 0,
    ensures $it@.len() == 0, (self.inner.out() + gt()).is_prefix_of(full),
    decreases $it@.len(),
//# loopbegin html::html::<Write for Html<T>>::write_str 0
proof { lemma_html_code(style); lemma_took(); lemma_rest(self.inner.out(), vx_b($pat), bytes_of($it@), gt(), esc(vx_b(s))); }
//# params html::format::format
args
//# fn html::format::format
    requires args_fine(args), args_ok(args),
    ensures vstd::utf8::encode_utf8(r@) == html_doc(args_render(args, default_style())),
//# pre html::format::format
proof { lemma_html_mono(); }
//# module html::to_string
    use crate::sp_html::*;
//# trait html::to_string::ToHtmlString
    spec fn pieces(&self) -> Seq<Chunk>;
    spec fn fine_(&self) -> bool;
    spec fn ok_(&self) -> bool;
//# fn html::to_string::ToHtmlString::to_html_string
    requires self.fine_(), self.ok_(),
    ensures vstd::utf8::encode_utf8(r@) == html_doc(self.pieces()),
//# impl html::to_string::<ToHtmlString for T>
    open spec fn pieces(&self) -> Seq<Chunk> { self.render(default_style()) }
    open spec fn fine_(&self) -> bool { self.fine() }
    open spec fn ok_(&self) -> bool { self.ok() }
