//# module plain::plain
    use crate::sp_plain::*;
//# module plain::io
    use crate::sp_plain::*;
//# module plain::format
    use crate::sp_plain::*;
//# module plain::to_string
    use crate::sp_plain::*;
//# params plain::plain::Plain::new
inner
//# fn plain::plain::Plain::new
    ensures r.inner == inner,
//# fn plain::plain::Plain::into_inner
    ensures r == self.inner,
//# params plain::plain::Plain::write_fmt
args
//# fn plain::plain::Plain::write_fmt
    requires args_ok(args),
    ensures wf((*old(self)).g(), r, (*final(self)).g(),
        fold((*old(self)).g().nx, (*old(self)).g().st, args_render(args, default_style())), args_fine(args)),
//# impl plain::plain::<Write for Plain<T>>
    #[verifier::prophetic]
    open spec fn g(&self) -> G {
        G {
            st: St { out: self.inner.out(), cur: default_style(), log: Seq::empty() },
            nx: plain_nx(), base: default_style(),
            fault: if self.inner.failed() { Fault::Text } else { Fault::Fine },
            errs: Seq::empty(), inv: true, fin: Fin::Owned,
        }
    }
//# params plain::io::Plain::new
inner
//# fn plain::io::Plain::new
    ensures r.inner == inner,
//# fn plain::io::Plain::into_inner
    ensures r == self.inner,
//# params plain::io::Plain::write_fmt
args
//# fn plain::io::Plain::write_fmt
    requires args_ok(args),
    ensures io_fmt((*old(self)).g(), args_render(args, default_style()), args_fine(args), r, (*final(self)).g()),
//# impl plain::io::<Write for Plain<T>>
    #[verifier::prophetic]
    open spec fn g(&self) -> GI {
        GI {
            st: St { out: self.inner.out(), cur: default_style(), log: Seq::empty() },
            nx: plain_nx(), errs: self.inner.errs(), flushes: self.inner.flushes(),
            inv: true, fin: Fin::Owned,
        }
    }
    proof fn law(&self) { lemma_plain(); }
//# params plain::io::<Write for Plain<T>>::write
buf style
//# params plain::io::<Write for Plain<T>>::write_all
buf style
//# pre plain::io::<Write for Plain<T>>::write
proof { lemma_plain(); lemma_origin(); }
//# pre plain::io::<Write for Plain<T>>::write_all
proof { lemma_plain(); lemma_origin(); }
//# pre plain::plain::<Write for Plain<T>>::write_str
proof { lemma_plain(); }
//# params plain::format::format
args
//# fn plain::format::format
    requires args_fine(args), args_ok(args),
    ensures vstd::utf8::encode_utf8(r@) == plain_doc(args_render(args, default_style())),
//# pre plain::format::format
proof { lemma_plain(); }
//# trait plain::to_string::ToPlainString
    spec fn pieces(&self) -> Seq<Chunk>;
    spec fn fine_(&self) -> bool;
    spec fn ok_(&self) -> bool;
//# fn plain::to_string::ToPlainString::to_plain_string
    requires self.fine_(), self.ok_(),
    ensures vstd::utf8::encode_utf8(r@) == plain_doc(self.pieces()),
//# impl plain::to_string::<ToPlainString for T>
    open spec fn pieces(&self) -> Seq<Chunk> { self.render(default_style()) }
    open spec fn fine_(&self) -> bool { self.fine() }
    open spec fn ok_(&self) -> bool { self.ok() }
