// What the ANSI writers send, and what a terminal makes of it.
verus! {
pub mod sp_ansi {
    use vstd::prelude::*;
    use vstd::string::*;
    use vstd::utf8::*;
    use crate::sp::*;
    use crate::sp_core::*;
    use crate::style::*;
    use crate::shim::somes;

    pub open spec fn fg_code(c: Color) -> Seq<u8> {
        match c {
            Color::Black => seq![51u8, 48u8], Color::Red => seq![51u8, 49u8],
            Color::Green => seq![51u8, 50u8], Color::Yellow => seq![51u8, 51u8],
            Color::Blue => seq![51u8, 52u8], Color::Magenta => seq![51u8, 53u8],
            Color::Cyan => seq![51u8, 54u8], Color::White => seq![51u8, 55u8],
            Color::Default => seq![51u8, 57u8],
            Color::BrightBlack => seq![57u8, 48u8], Color::BrightRed => seq![57u8, 49u8],
            Color::BrightGreen => seq![57u8, 50u8], Color::BrightYellow => seq![57u8, 51u8],
            Color::BrightBlue => seq![57u8, 52u8], Color::BrightMagenta => seq![57u8, 53u8],
            Color::BrightCyan => seq![57u8, 54u8], Color::BrightWhite => seq![57u8, 55u8],
        }
    }
    pub open spec fn bg_code(c: Color) -> Seq<u8> {
        match c {
            Color::Black => seq![52u8, 48u8], Color::Red => seq![52u8, 49u8],
            Color::Green => seq![52u8, 50u8], Color::Yellow => seq![52u8, 51u8],
            Color::Blue => seq![52u8, 52u8], Color::Magenta => seq![52u8, 53u8],
            Color::Cyan => seq![52u8, 54u8], Color::White => seq![52u8, 55u8],
            Color::Default => seq![52u8, 57u8],
            Color::BrightBlack => seq![49u8, 48u8, 48u8], Color::BrightRed => seq![49u8, 48u8, 49u8],
            Color::BrightGreen => seq![49u8, 48u8, 50u8], Color::BrightYellow => seq![49u8, 48u8, 51u8],
            Color::BrightBlue => seq![49u8, 48u8, 52u8], Color::BrightMagenta => seq![49u8, 48u8, 53u8],
            Color::BrightCyan => seq![49u8, 48u8, 54u8], Color::BrightWhite => seq![49u8, 48u8, 55u8],
        }
    }
    /// from one intensity to another: bold and faint are independent switches,
    /// 22 turns both off
    pub open spec fn in_code(from: Intensity, to: Intensity) -> Seq<u8> {
        match (from, to) {
            (Intensity::Bold, Intensity::Faint) => seq![50u8, 50u8, 59u8, 50u8],
            (Intensity::Faint, Intensity::Bold) => seq![50u8, 50u8, 59u8, 49u8],
            (_, Intensity::Bold) => seq![49u8],
            (_, Intensity::Faint) => seq![50u8],
            (_, Intensity::Normal) => seq![50u8, 50u8],
        }
    }
    pub open spec fn reset() -> Seq<u8> { seq![27u8, 91u8, 48u8, 109u8] }
    pub open spec fn lead() -> Seq<u8> { seq![27u8, 91u8] }
    pub open spec fn semi() -> Seq<u8> { seq![59u8] }
    pub open spec fn end() -> Seq<u8> { seq![109u8] }

    pub open spec fn seg3(a: Style, b: Style) -> Seq<Option<Seq<u8>>> {
        seq![
            if a.foreground == b.foreground { None } else { Some(fg_code(b.foreground)) },
            if a.background == b.background { None } else { Some(bg_code(b.background)) },
            if a.intensity == b.intensity { None } else { Some(in_code(a.intensity, b.intensity)) },
        ]
    }
    pub open spec fn segs(a: Style, b: Style) -> Seq<Seq<u8>> { somes(seg3(a, b)) }
    /// `;x` for each x
    pub open spec fn tail(s: Seq<Seq<u8>>) -> Seq<u8>
        decreases s.len(),
    {
        if s.len() == 0 { Seq::empty() } else { semi() + s[0] + tail(s.skip(1)) }
    }
    pub open spec fn control(s: Seq<Seq<u8>>) -> Seq<u8> { lead() + s[0] + tail(s.skip(1)) + end() }
    /// the control sequence that takes the stream from style a to style b
    pub open spec fn sgr(a: Style, b: Style) -> Seq<u8> {
        if a == b { Seq::empty() }
        else if b == default_style() { reset() }
        else { control(segs(a, b)) }
    }
    pub open spec fn sgr_end(a: Style) -> Seq<u8> {
        if a == default_style() { Seq::empty() } else { reset() }
    }
    /// one write to the ANSI IO writer
    pub open spec fn ansi_io_nx() -> Nx {
        |st: St, c: Chunk| St { out: st.out + sgr(st.cur, c.1) + c.0, cur: c.1, ..st }
    }
    /// one write to the ANSI text writer
    pub open spec fn ansi_nx() -> Nx {
        |st: St, c: Chunk| if c.0.len() == 0 { st } else { St { out: st.out + sgr(st.cur, c.1) + c.0, cur: c.1, ..st } }
    }
    pub open spec fn start() -> St { St { out: Seq::empty(), cur: default_style(), log: Seq::empty() } }
    /// everything sent for a sequence of writes and a finish
    pub open spec fn ansi_doc(cs: Seq<Chunk>) -> Seq<u8> {
        let s = fold(ansi_nx(), start(), cs);
        s.out + sgr_end(s.cur)
    }
    pub open spec fn bytes_of(s: Seq<&str>) -> Seq<Seq<u8>> { Seq::new(s.len(), |i: int| vx_b(s[i])) }
    pub open spec fn opt_bytes(o: Option<&str>) -> Option<Seq<u8>> { match o { Some(s) => Some(vx_b(s)), None => None } }

    /// the segments found by the code are the ones of the specification
    pub proof fn lemma_segs(o: Seq<Option<&str>>, a: Style, b: Style)
        requires o.len() == 3, seg3(a, b) == Seq::new(3, |i: int| opt_bytes(o[i])),
        ensures
            bytes_of(somes(o)) == segs(a, b),
            segs(a, b).len() == 0 <==> a == b,
            somes(o).len() == segs(a, b).len(),
    {
        let p = seg3(a, b);
        assert(p[0] == opt_bytes(o[0]) && p[1] == opt_bytes(o[1]) && p[2] == opt_bytes(o[2]));
        reveal_with_fuel(somes, 4);
        assert(o.skip(1).skip(1).skip(1).len() == 0);
        assert(p.skip(1).skip(1).skip(1).len() == 0);
        assert(bytes_of(somes(o)) =~= segs(a, b));
    }
    /// what the writers' code needs to know, whichever segments it finds
    pub proof fn lemma_code(a: Style, b: Style)
        ensures
            forall|o: Seq<Option<&str>>| #![trigger somes(o)]
                o.len() == 3 && opt_bytes(o[0]) == seg3(a, b)[0] && opt_bytes(o[1]) == seg3(a, b)[1] && opt_bytes(o[2]) == seg3(a, b)[2]
                ==> bytes_of(somes(o)) == segs(a, b) && somes(o).len() == segs(a, b).len() && (somes(o).len() == 0 <==> a == b),
            forall|s: Seq<&str>| #[trigger] bytes_of(s.skip(1)) == bytes_of(s).skip(1) || s.len() == 0,
            tail(Seq::empty()) == Seq::<u8>::empty(),
            forall|s: Seq<&str>| #![trigger bytes_of(s)] s.len() == 0 ==> bytes_of(s) == Seq::<Seq<u8>>::empty(),
    {
        assert forall|o: Seq<Option<&str>>| #![trigger somes(o)]
            o.len() == 3 && opt_bytes(o[0]) == seg3(a, b)[0] && opt_bytes(o[1]) == seg3(a, b)[1] && opt_bytes(o[2]) == seg3(a, b)[2]
            implies bytes_of(somes(o)) == segs(a, b) && somes(o).len() == segs(a, b).len() && (somes(o).len() == 0 <==> a == b) by {
            assert(seg3(a, b) =~= Seq::new(3, |i: int| opt_bytes(o[i])));
            lemma_segs(o, a, b);
        }
        assert forall|s: Seq<&str>| #[trigger] bytes_of(s.skip(1)) == bytes_of(s).skip(1) || s.len() == 0 by {
            if s.len() > 0 { assert(bytes_of(s.skip(1)) =~= bytes_of(s).skip(1)); }
        }
        assert forall|s: Seq<&str>| #![trigger bytes_of(s)] s.len() == 0 implies bytes_of(s) == Seq::<Seq<u8>>::empty() by {
            assert(bytes_of(s) =~= Seq::<Seq<u8>>::empty());
        }
    }
    /// where the pieces of a control sequence lie
    pub proof fn lemma_pieces(out: Seq<u8>, a: Style, b: Style, s: Seq<u8>)
        ensures
            ({
                let full = out + sgr(a, b) + s;
                &&& out.is_prefix_of(full) && (out + s).len() <= full.len()
                &&& a != b && b == default_style() ==> (out + reset()).is_prefix_of(full)
                &&& a != b && b != default_style() ==> (out + lead()).is_prefix_of(full)
                    && (out + lead() + segs(a, b)[0]).is_prefix_of(full)
            }),
    {
        let full = out + sgr(a, b) + s;
        assert(full =~= out + (sgr(a, b) + s));
        if a != b && b != default_style() {
            let t = tail(segs(a, b).skip(1)) + end() + s;
            assert(full =~= out + lead() + (segs(a, b)[0] + t));
            assert(full =~= out + lead() + segs(a, b)[0] + t);
        }
    }
    /// where the rest of a control sequence or tag, ended by e, lies
    pub proof fn lemma_rest(out: Seq<u8>, x: Seq<u8>, t: Seq<Seq<u8>>, e: Seq<u8>, s: Seq<u8>)
        ensures
            ({
                let full = out + (semi() + x + tail(t)) + e + s;
                &&& out.is_prefix_of(full)
                &&& (out + semi()).is_prefix_of(full)
                &&& (out + semi() + x).is_prefix_of(full)
                &&& out + semi() + x + tail(t) + e + s == full
            }),
            (out + e).is_prefix_of(out + tail(Seq::empty()) + e + s),
    {
        let full = out + (semi() + x + tail(t)) + e + s;
        assert(full =~= out + semi() + x + (tail(t) + e + s));
        assert(full =~= out + semi() + (x + (tail(t) + e + s)));
        assert(full =~= out + (semi() + (x + (tail(t) + e + s))));
        assert(full =~= out + semi() + x + tail(t) + e + s);
    }
    pub proof fn lemma_ansi_mono()
        ensures monotone(ansi_nx()), monotone(ansi_io_nx()),
            joins(ansi_io_nx()),
            skip_empty(ansi_io_nx()) == ansi_nx(),
            log_free(ansi_nx()),
    {
        assert forall|st: St, c: Chunk| part(st, #[trigger] ansi_io_nx()(st, c)) by {
            assert(st.out + sgr(st.cur, c.1) + c.0 =~= st.out + (sgr(st.cur, c.1) + c.0));
        }
        assert forall|st: St, c: Chunk| part(st, #[trigger] ansi_nx()(st, c)) by {
            assert(st.out + sgr(st.cur, c.1) + c.0 =~= st.out + (sgr(st.cur, c.1) + c.0));
        }
        reveal(joins);
        assert forall|st: St, a: Seq<u8>, b: Seq<u8>, y: Style|
            #[trigger] ansi_io_nx()(ansi_io_nx()(st, (a, y)), (b, y)) == ansi_io_nx()(st, (a + b, y)) by {
            assert(st.out + sgr(st.cur, y) + a + sgr(y, y) + b =~= st.out + sgr(st.cur, y) + (a + b));
        }
        assert(skip_empty(ansi_io_nx()) =~= ansi_nx());
    }
    pub open spec fn log_free(nx: Nx) -> bool {
        forall|st: St, c: Chunk| (#[trigger] nx(st, c)).log == st.log
    }
}
}
