// What the plain writers send.
verus! {
pub mod sp_plain {
    use vstd::prelude::*;
    use crate::sp::*;
    use crate::sp_core::*;
    use crate::sp_ansi::start;
    use crate::style::*;

    pub open spec fn plain_nx() -> Nx {
        |st: St, c: Chunk| St { out: st.out + c.0, ..st }
    }
    pub open spec fn plain_doc(cs: Seq<Chunk>) -> Seq<u8> { fold(plain_nx(), start(), cs).out }
    pub proof fn lemma_plain()
        ensures monotone(plain_nx()), joins(plain_nx()),
    {
        reveal(joins);
        assert forall|st: St, c: Chunk| part(st, #[trigger] plain_nx()(st, c)) by { }
        assert forall|st: St, a: Seq<u8>, b: Seq<u8>, y: Style|
            #[trigger] plain_nx()(plain_nx()(st, (a, y)), (b, y)) == plain_nx()(st, (a + b, y)) by {
            assert(st.out + a + b =~= st.out + (a + b));
        }
        assert forall|st: St, y: Style| #[trigger] plain_nx()(st, (Seq::empty(), y)) == st by {
            assert(st.out + Seq::<u8>::empty() =~= st.out);
        }
    }
}
}
