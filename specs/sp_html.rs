// What the HTML writer sends. Tables are ASCII; the text is in the comments.
verus! {
pub mod sp_html {
    use vstd::prelude::*;
    use vstd::string::*;
    use vstd::utf8::*;
    use crate::sp::*;
    use crate::sp_core::*;
    use crate::sp_ansi::{tail, semi, bytes_of, opt_bytes, log_free, start};
    use crate::style::*;
    use crate::shim::somes;
    use crate::shim::askama_escape::esc;

    pub open spec fn fg_css(c: Color) -> Seq<u8> {
        match c {
            Color::Black => seq![99u8, 111u8, 108u8, 111u8, 114u8, 58u8, 98u8, 108u8, 97u8, 99u8, 107u8], // color:black
            Color::Red => seq![99u8, 111u8, 108u8, 111u8, 114u8, 58u8, 114u8, 101u8, 100u8], // color:red
            Color::Green => seq![99u8, 111u8, 108u8, 111u8, 114u8, 58u8, 103u8, 114u8, 101u8, 101u8, 110u8], // color:green
            Color::Yellow => seq![99u8, 111u8, 108u8, 111u8, 114u8, 58u8, 121u8, 101u8, 108u8, 108u8, 111u8, 119u8], // color:yellow
            Color::Blue => seq![99u8, 111u8, 108u8, 111u8, 114u8, 58u8, 98u8, 108u8, 117u8, 101u8], // color:blue
            Color::Magenta => seq![99u8, 111u8, 108u8, 111u8, 114u8, 58u8, 109u8, 97u8, 103u8, 101u8, 110u8, 116u8, 97u8], // color:magenta
            Color::Cyan => seq![99u8, 111u8, 108u8, 111u8, 114u8, 58u8, 99u8, 121u8, 97u8, 110u8], // color:cyan
            Color::White => seq![99u8, 111u8, 108u8, 111u8, 114u8, 58u8, 119u8, 104u8, 105u8, 116u8, 101u8], // color:white
            Color::Default => seq![99u8, 111u8, 108u8, 111u8, 114u8, 58u8, 105u8, 110u8, 104u8, 101u8, 114u8, 105u8, 116u8], // color:inherit
            Color::BrightBlack => seq![99u8, 111u8, 108u8, 111u8, 114u8, 58u8, 103u8, 114u8, 97u8, 121u8], // color:gray
            Color::BrightRed => seq![99u8, 111u8, 108u8, 111u8, 114u8, 58u8, 35u8, 97u8, 102u8, 48u8, 48u8, 48u8, 48u8], // color:#af0000
            Color::BrightGreen => seq![99u8, 111u8, 108u8, 111u8, 114u8, 58u8, 35u8, 48u8, 48u8, 102u8, 102u8, 48u8, 48u8], // color:#00ff00
            Color::BrightYellow => seq![99u8, 111u8, 108u8, 111u8, 114u8, 58u8, 35u8, 102u8, 102u8, 102u8, 102u8, 48u8, 48u8], // color:#ffff00
            Color::BrightBlue => seq![99u8, 111u8, 108u8, 111u8, 114u8, 58u8, 35u8, 48u8, 48u8, 48u8, 48u8, 102u8, 102u8], // color:#0000ff
            Color::BrightMagenta => seq![99u8, 111u8, 108u8, 111u8, 114u8, 58u8, 35u8, 102u8, 102u8, 48u8, 48u8, 102u8, 102u8], // color:#ff00ff
            Color::BrightCyan => seq![99u8, 111u8, 108u8, 111u8, 114u8, 58u8, 35u8, 48u8, 48u8, 102u8, 102u8, 102u8, 102u8], // color:#00ffff
            Color::BrightWhite => seq![99u8, 111u8, 108u8, 111u8, 114u8, 58u8, 35u8, 102u8, 102u8, 102u8, 102u8, 102u8, 102u8], // color:#ffffff
        }
    }
    pub open spec fn bg_css(c: Color) -> Seq<u8> {
        match c {
            Color::Black => seq![98u8, 97u8, 99u8, 107u8, 103u8, 114u8, 111u8, 117u8, 110u8, 100u8, 45u8, 99u8, 111u8, 108u8, 111u8, 114u8, 58u8, 98u8, 108u8, 97u8, 99u8, 107u8], // background-color:black
            Color::Red => seq![98u8, 97u8, 99u8, 107u8, 103u8, 114u8, 111u8, 117u8, 110u8, 100u8, 45u8, 99u8, 111u8, 108u8, 111u8, 114u8, 58u8, 114u8, 101u8, 100u8], // background-color:red
            Color::Green => seq![98u8, 97u8, 99u8, 107u8, 103u8, 114u8, 111u8, 117u8, 110u8, 100u8, 45u8, 99u8, 111u8, 108u8, 111u8, 114u8, 58u8, 103u8, 114u8, 101u8, 101u8, 110u8], // background-color:green
            Color::Yellow => seq![98u8, 97u8, 99u8, 107u8, 103u8, 114u8, 111u8, 117u8, 110u8, 100u8, 45u8, 99u8, 111u8, 108u8, 111u8, 114u8, 58u8, 121u8, 101u8, 108u8, 108u8, 111u8, 119u8], // background-color:yellow
            Color::Blue => seq![98u8, 97u8, 99u8, 107u8, 103u8, 114u8, 111u8, 117u8, 110u8, 100u8, 45u8, 99u8, 111u8, 108u8, 111u8, 114u8, 58u8, 98u8, 108u8, 117u8, 101u8], // background-color:blue
            Color::Magenta => seq![98u8, 97u8, 99u8, 107u8, 103u8, 114u8, 111u8, 117u8, 110u8, 100u8, 45u8, 99u8, 111u8, 108u8, 111u8, 114u8, 58u8, 109u8, 97u8, 103u8, 101u8, 110u8, 116u8, 97u8], // background-color:magenta
            Color::Cyan => seq![98u8, 97u8, 99u8, 107u8, 103u8, 114u8, 111u8, 117u8, 110u8, 100u8, 45u8, 99u8, 111u8, 108u8, 111u8, 114u8, 58u8, 99u8, 121u8, 97u8, 110u8], // background-color:cyan
            Color::White => seq![98u8, 97u8, 99u8, 107u8, 103u8, 114u8, 111u8, 117u8, 110u8, 100u8, 45u8, 99u8, 111u8, 108u8, 111u8, 114u8, 58u8, 119u8, 104u8, 105u8, 116u8, 101u8], // background-color:white
            Color::Default => seq![98u8, 97u8, 99u8, 107u8, 103u8, 114u8, 111u8, 117u8, 110u8, 100u8, 45u8, 99u8, 111u8, 108u8, 111u8, 114u8, 58u8, 105u8, 110u8, 104u8, 101u8, 114u8, 105u8, 116u8], // background-color:inherit
            Color::BrightBlack => seq![98u8, 97u8, 99u8, 107u8, 103u8, 114u8, 111u8, 117u8, 110u8, 100u8, 45u8, 99u8, 111u8, 108u8, 111u8, 114u8, 58u8, 103u8, 114u8, 97u8, 121u8], // background-color:gray
            Color::BrightRed => seq![98u8, 97u8, 99u8, 107u8, 103u8, 114u8, 111u8, 117u8, 110u8, 100u8, 45u8, 99u8, 111u8, 108u8, 111u8, 114u8, 58u8, 35u8, 97u8, 102u8, 48u8, 48u8, 48u8, 48u8], // background-color:#af0000
            Color::BrightGreen => seq![98u8, 97u8, 99u8, 107u8, 103u8, 114u8, 111u8, 117u8, 110u8, 100u8, 45u8, 99u8, 111u8, 108u8, 111u8, 114u8, 58u8, 35u8, 48u8, 48u8, 102u8, 102u8, 48u8, 48u8], // background-color:#00ff00
            Color::BrightYellow => seq![98u8, 97u8, 99u8, 107u8, 103u8, 114u8, 111u8, 117u8, 110u8, 100u8, 45u8, 99u8, 111u8, 108u8, 111u8, 114u8, 58u8, 35u8, 102u8, 102u8, 102u8, 102u8, 48u8, 48u8], // background-color:#ffff00
            Color::BrightBlue => seq![98u8, 97u8, 99u8, 107u8, 103u8, 114u8, 111u8, 117u8, 110u8, 100u8, 45u8, 99u8, 111u8, 108u8, 111u8, 114u8, 58u8, 35u8, 48u8, 48u8, 48u8, 48u8, 102u8, 102u8], // background-color:#0000ff
            Color::BrightMagenta => seq![98u8, 97u8, 99u8, 107u8, 103u8, 114u8, 111u8, 117u8, 110u8, 100u8, 45u8, 99u8, 111u8, 108u8, 111u8, 114u8, 58u8, 35u8, 102u8, 102u8, 48u8, 48u8, 102u8, 102u8], // background-color:#ff00ff
            Color::BrightCyan => seq![98u8, 97u8, 99u8, 107u8, 103u8, 114u8, 111u8, 117u8, 110u8, 100u8, 45u8, 99u8, 111u8, 108u8, 111u8, 114u8, 58u8, 35u8, 48u8, 48u8, 102u8, 102u8, 102u8, 102u8], // background-color:#00ffff
            Color::BrightWhite => seq![98u8, 97u8, 99u8, 107u8, 103u8, 114u8, 111u8, 117u8, 110u8, 100u8, 45u8, 99u8, 111u8, 108u8, 111u8, 114u8, 58u8, 35u8, 102u8, 102u8, 102u8, 102u8, 102u8, 102u8], // background-color:#ffffff
        }
    }
    pub open spec fn in_css(i: Intensity) -> Seq<u8> {
        match i {
            Intensity::Bold => seq![102u8, 111u8, 110u8, 116u8, 45u8, 119u8, 101u8, 105u8, 103u8, 104u8, 116u8, 58u8, 98u8, 111u8, 108u8, 100u8, 101u8, 114u8], // font-weight:bolder
            Intensity::Faint => seq![102u8, 111u8, 110u8, 116u8, 45u8, 119u8, 101u8, 105u8, 103u8, 104u8, 116u8, 58u8, 108u8, 105u8, 103u8, 104u8, 116u8, 101u8, 114u8], // font-weight:lighter
            Intensity::Normal => seq![102u8, 111u8, 110u8, 116u8, 45u8, 119u8, 101u8, 105u8, 103u8, 104u8, 116u8, 58u8, 105u8, 110u8, 104u8, 101u8, 114u8, 105u8, 116u8], // font-weight:inherit
        }
    }
    /// <span style=
    pub open spec fn open_tag() -> Seq<u8> { seq![60u8, 115u8, 112u8, 97u8, 110u8, 32u8, 115u8, 116u8, 121u8, 108u8, 101u8, 61u8] }
    /// >
    pub open spec fn gt() -> Seq<u8> { seq![62u8] }
    /// </span>
    pub open spec fn close_tag() -> Seq<u8> { seq![60u8, 47u8, 115u8, 112u8, 97u8, 110u8, 62u8] }

    pub open spec fn decl3(b: Style) -> Seq<Option<Seq<u8>>> {
        seq![
            if b.foreground == Color::Default { None } else { Some(fg_css(b.foreground)) },
            if b.background == Color::Default { None } else { Some(bg_css(b.background)) },
            if b.intensity == Intensity::Normal { None } else { Some(in_css(b.intensity)) },
        ]
    }
    /// the declarations for the non-default attributes
    pub open spec fn decls(b: Style) -> Seq<Seq<u8>> { somes(decl3(b)) }
    pub open spec fn opening(b: Style) -> Seq<u8> { open_tag() + decls(b)[0] + tail(decls(b).skip(1)) + gt() }
    pub open spec fn closing(a: Style) -> Seq<u8> { if a == default_style() { Seq::empty() } else { close_tag() } }
    /// the tags between text in style a and text in style b
    pub open spec fn tags(a: Style, b: Style) -> Seq<u8> {
        if a == b { Seq::empty() }
        else if b == default_style() { closing(a) }
        else { closing(a) + opening(b) }
    }
    pub open spec fn html_nx() -> Nx {
        |st: St, c: Chunk| if c.0.len() == 0 { st } else { St { out: st.out + tags(st.cur, c.1) + esc(c.0), cur: c.1, ..st } }
    }
    /// everything sent for a sequence of writes and a finish
    pub open spec fn html_doc(cs: Seq<Chunk>) -> Seq<u8> {
        let s = fold(html_nx(), start(), cs);
        s.out + closing(s.cur)
    }
    pub proof fn lemma_html_mono()
        ensures monotone(html_nx()), log_free(html_nx()),
    {
        assert forall|st: St, c: Chunk| part(st, #[trigger] html_nx()(st, c)) by {
            assert(st.out + tags(st.cur, c.1) + esc(c.0) =~= st.out + (tags(st.cur, c.1) + esc(c.0)));
        }
    }
    /// the declarations found by the code are the ones of the specification
    pub proof fn lemma_decls(o: Seq<Option<&str>>, b: Style)
        requires o.len() == 3, decl3(b) == Seq::new(3, |i: int| opt_bytes(o[i])),
        ensures
            bytes_of(somes(o)) == decls(b),
            decls(b).len() == 0 <==> b == default_style(),
            somes(o).len() == decls(b).len(),
    {
        let p = decl3(b);
        assert(p[0] == opt_bytes(o[0]) && p[1] == opt_bytes(o[1]) && p[2] == opt_bytes(o[2]));
        reveal_with_fuel(somes, 4);
        assert(o.skip(1).skip(1).skip(1).len() == 0);
        assert(p.skip(1).skip(1).skip(1).len() == 0);
        assert(bytes_of(somes(o)) =~= decls(b));
    }
    pub proof fn lemma_html_code(b: Style)
        ensures
            forall|o: Seq<Option<&str>>| #![trigger somes(o)]
                o.len() == 3 && opt_bytes(o[0]) == decl3(b)[0] && opt_bytes(o[1]) == decl3(b)[1] && opt_bytes(o[2]) == decl3(b)[2]
                ==> bytes_of(somes(o)) == decls(b) && somes(o).len() == decls(b).len() && (somes(o).len() == 0 <==> b == default_style()),
            forall|s: Seq<&str>| #[trigger] bytes_of(s.skip(1)) == bytes_of(s).skip(1) || s.len() == 0,
            tail(Seq::empty()) == Seq::<u8>::empty(),
            forall|s: Seq<&str>| #![trigger bytes_of(s)] s.len() == 0 ==> bytes_of(s) == Seq::<Seq<u8>>::empty(),
    {
        assert forall|o: Seq<Option<&str>>| #![trigger somes(o)]
            o.len() == 3 && opt_bytes(o[0]) == decl3(b)[0] && opt_bytes(o[1]) == decl3(b)[1] && opt_bytes(o[2]) == decl3(b)[2]
            implies bytes_of(somes(o)) == decls(b) && somes(o).len() == decls(b).len() && (somes(o).len() == 0 <==> b == default_style()) by {
            assert(decl3(b) =~= Seq::new(3, |i: int| opt_bytes(o[i])));
            lemma_decls(o, b);
        }
        crate::sp_ansi::lemma_code(b, b);
    }
    pub proof fn lemma_html_pieces(out: Seq<u8>, a: Style, b: Style, s: Seq<u8>)
        ensures
            ({
                let full = out + tags(a, b) + s;
                let mid = out + closing(a);
                &&& out.is_prefix_of(full)
                &&& a != b ==> mid.is_prefix_of(full)
                &&& a == default_style() ==> mid == out
                &&& a != b && b != default_style() ==> (mid + open_tag()).is_prefix_of(full)
                    && (mid + open_tag() + decls(b)[0]).is_prefix_of(full)
                    && full == mid + open_tag() + decls(b)[0] + tail(decls(b).skip(1)) + gt() + s
            }),
    {
        let full = out + tags(a, b) + s;
        let mid = out + closing(a);
        assert(full =~= out + (tags(a, b) + s));
        if a == default_style() { assert(mid =~= out); }
        if a != b && b == default_style() { assert(full =~= mid + s); }
        if a != b && b != default_style() {
            assert(full =~= mid + (opening(b) + s));
            let t = tail(decls(b).skip(1)) + gt() + s;
            assert(full =~= mid + open_tag() + (decls(b)[0] + t));
            assert(full =~= mid + open_tag() + decls(b)[0] + t);
            assert(full =~= mid + open_tag() + decls(b)[0] + tail(decls(b).skip(1)) + gt() + s);
        }
    }
}
}
