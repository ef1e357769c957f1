//# module ansi::ansi
    use crate::sp_ansi::*;
//# module ansi::io
    use crate::sp_ansi::*;
//# module ansi::util
    use crate::sp_ansi::*;
//# module ansi::format
    use crate::sp_ansi::*;
//# fn ansi::util::foreground
    ensures vx_b(r) == fg_code(color),
//# fn ansi::util::background
    ensures vx_b(r) == bg_code(color),
//# params ansi::util::intensity
from to
//# fn ansi::util::intensity
    ensures from != to ==> vx_b(r) == in_code(from, to),
//# fn ansi::ansi::Ansi::new
    ensures r.inner == inner, r.current == default_style(),
//# fn ansi::ansi::Ansi::finish
    ensures match r {
        Ok(t) => t.out() == self.inner.out() + sgr_end(self.current) && t.failed() == self.inner.failed(),
        Err(_) => !T::infallible(),
    },
//# fn ansi::ansi::Ansi::write_fmt
    requires args_ok(args),
    ensures wf((*old(self)).g(), r, (*final(self)).g(),
        fold((*old(self)).g().nx, (*old(self)).g().st, args_render(args, default_style())), args_fine(args)),
//# impl ansi::ansi::<Write for Ansi<T>>
    #[verifier::prophetic]
    open spec fn g(&self) -> G {
        G {
            st: St { out: self.inner.out(), cur: self.current, log: Seq::empty() },
            nx: ansi_nx(), base: default_style(),
            fault: if self.inner.failed() { Fault::Text } else { Fault::Fine },
            errs: Seq::empty(), inv: true, fin: Fin::Owned,
        }
    }
//# fn ansi::io::Ansi::new
    ensures r.inner == inner, r.current == default_style(),
//# fn ansi::io::Ansi::write_fmt
    requires args_ok(args),
    ensures io_fmt((*old(self)).g(), args_render(args, default_style()), args_fine(args), r, (*final(self)).g()),
//# fn ansi::io::Ansi::finish
    ensures match r {
        Ok(t) => t.out() == self.inner.out() + sgr_end(self.current) && only_intr(self.inner.errs(), t.errs()) && t.flushes() == self.inner.flushes(),
        Err(e) => kind(e) != ErrorKind::Interrupted,
    },
//# impl ansi::io::<Write for Ansi<T>>
    #[verifier::prophetic]
    open spec fn g(&self) -> GI {
        GI {
            st: St { out: self.inner.out(), cur: self.current, log: Seq::empty() },
            nx: ansi_io_nx(), errs: self.inner.errs(), flushes: self.inner.flushes(),
            inv: true, fin: Fin::Owned,
        }
    }
    proof fn law(&self) { lemma_ansi_mono(); }
//# fn ansi::format::format
    requires args_fine(args), args_ok(args),
    ensures vstd::utf8::encode_utf8(r@) == ansi_doc(args_render(args, default_style())),
//# module ansi::to_string
    use crate::sp_ansi::*;
//# trait ansi::to_string::ToAnsiString
    spec fn pieces(&self) -> Seq<Chunk>;
    spec fn fine_(&self) -> bool;
    spec fn ok_(&self) -> bool;
//# fn ansi::to_string::ToAnsiString::to_ansi_string
    requires self.fine_(), self.ok_(),
    ensures vstd::utf8::encode_utf8(r@) == ansi_doc(self.pieces()),
//# impl ansi::to_string::<ToAnsiString for T>
    open spec fn pieces(&self) -> Seq<Chunk> { self.render(default_style()) }
    open spec fn fine_(&self) -> bool { self.fine() }
    open spec fn ok_(&self) -> bool { self.ok() }
//# pre ansi::format::format
proof { lemma_ansi_mono(); }
//# pre ansi::ansi::<Write for Ansi<T>>::write_str
let ghost g0 = (*self).g();
let ghost full = g0.st.out + sgr(g0.st.cur, style) + vx_b(s);
proof { lemma_no_bytes(s); lemma_code(g0.st.cur, style); lemma_took(); lemma_pieces(g0.st.out, g0.st.cur, style, vx_b(s)); }
//# loop ansi::ansi::<Write for Ansi<T>>::write_str 0
    invariant
        self.current == g0.st.cur, self.inner.failed() == (g0.fault == Fault::Text),
        *final(self) == *final(old(self)), g0 == (*old(self)).g(),
        full == g0.st.out + sgr(g0.st.cur, style) + vx_b(s), vx_b(s).len() > 0,
        self.inner.out() + tail(bytes_of($it@)) + end() + vx_b(s) =~= full,
        g0.st.out.is_prefix_of(self.inner.out()), (self.inner.out() + end()).is_prefix_of(full) || $it@.len() > 0,
    ensures $it@.len() == 0,
    decreases $it@.len(),
//# pre ansi::io::<Write for Ansi<T>>::write
let ghost g0 = (*self).g();
let ghost full = g0.st.out + sgr(g0.st.cur, style) + Seq::empty();
proof { assert(full =~= g0.st.out + sgr(g0.st.cur, style)); assert(g0.st.out + Seq::<u8>::empty() =~= g0.st.out); assert(buf@.take(0) =~= Seq::empty()); lemma_origin(); lemma_code(g0.st.cur, style); lemma_took(); lemma_pieces(g0.st.out, g0.st.cur, style, Seq::empty()); }
//# loop ansi::io::<Write for Ansi<T>>::write 0
    invariant
        self.current == g0.st.cur, only_intr(g0.errs, self.inner.errs()), self.inner.flushes() == g0.flushes,
        *final(self) == *final(old(self)), g0 == (*old(self)).g(),
        full == g0.st.out + sgr(g0.st.cur, style) + Seq::empty(),
        self.inner.out() + tail(bytes_of($it@)) + end() + Seq::empty() =~= full,
        g0.st.out.is_prefix_of(self.inner.out()), (self.inner.out() + end()).is_prefix_of(full) || $it@.len() > 0,
    ensures $it@.len() == 0, (self.inner.out() + end()).is_prefix_of(full),
        self.inner.out() + end() =~= full,
    decreases $it@.len(),
//# loopbegin ansi::io::<Write for Ansi<T>>::write 0
proof { lemma_code(g0.st.cur, style); lemma_took(); lemma_origin(); lemma_rest(self.inner.out(), vx_b($pat), bytes_of($it@), end(), Seq::empty()); }
//# loopbegin ansi::ansi::<Write for Ansi<T>>::write_str 0
proof { lemma_code(g0.st.cur, style); lemma_took(); lemma_rest(self.inner.out(), vx_b($pat), bytes_of($it@), end(), vx_b(s));
    assert(full =~= self.inner.out() + (semi() + vx_b($pat) + tail(bytes_of($it@))) + end() + vx_b(s));
}
//# params ansi::io::<Write for Ansi<T>>::write
buf style
//# params ansi::ansi::<Write for Ansi<T>>::write_str
s style
