// C05, C06: the bytes of the HTML writer, read as HTML.
verus! {
pub mod sp_reader {
    use vstd::prelude::*;
    use crate::sp::*;
    use crate::sp_core::*;
    use crate::sp_ansi::{start, tail, semi};
    use crate::sp_html::*;
    use crate::style::*;
    use crate::shim::somes;
    use crate::shim::askama_escape::{esc, esc1};

    pub enum Mode { Text, Tag(Seq<u8>), Ref(Seq<u8>), Bad }
    /// a reader of HTML made of text, character references and span tags
    pub struct Page {
        pub mode: Mode,
        pub open: Option<Seq<u8>>,                    // style attribute of the open span
        pub text: Seq<(u8, Option<Seq<u8>>)>,         // text read, with the span it is in
        pub opened: nat,
        pub closed: nat,
    }
    pub open spec fn blank() -> Page { Page { mode: Mode::Text, open: None, text: Seq::empty(), opened: 0, closed: 0 } }
    /// a complete tag: an opening span (only when none is open) or a closing one (only when one is)
    pub open spec fn tag(p: Page, t: Seq<u8>) -> Page {
        if t == seq![47u8, 115u8, 112u8, 97u8, 110u8] { // /span
            if p.open is Some { Page { mode: Mode::Text, open: None, closed: p.closed + 1, ..p } } else { Page { mode: Mode::Bad, ..p } }
        } else if t.len() > 11 && t.take(11) == seq![115u8, 112u8, 97u8, 110u8, 32u8, 115u8, 116u8, 121u8, 108u8, 101u8, 61u8] { // span style=
            if p.open is None { Page { mode: Mode::Text, open: Some(t.skip(11)), opened: p.opened + 1, ..p } } else { Page { mode: Mode::Bad, ..p } }
        } else { Page { mode: Mode::Bad, ..p } }
    }
    pub open spec fn reference(r: Seq<u8>) -> Option<u8> {
        if r == seq![108u8, 116u8] { Some(60u8) }                                // lt
        else if r == seq![103u8, 116u8] { Some(62u8) }                           // gt
        else if r == seq![97u8, 109u8, 112u8] { Some(38u8) }                     // amp
        else if r == seq![113u8, 117u8, 111u8, 116u8] { Some(34u8) }             // quot
        else if r == seq![35u8, 120u8, 50u8, 55u8] { Some(39u8) }                // #x27
        else { None }
    }
    pub open spec fn special(b: u8) -> bool { b == 60 || b == 62 || b == 34 || b == 39 }
    pub open spec fn step(p: Page, b: u8) -> Page {
        match p.mode {
            Mode::Text =>
                if b == 60 { Page { mode: Mode::Tag(Seq::empty()), ..p } }
                else if b == 38 { Page { mode: Mode::Ref(Seq::empty()), ..p } }
                else if special(b) { Page { mode: Mode::Bad, ..p } }
                else { Page { text: p.text.push((b, p.open)), ..p } },
            Mode::Tag(t) => if b == 62 { tag(p, t) } else if b == 60 { Page { mode: Mode::Bad, ..p } } else { Page { mode: Mode::Tag(t.push(b)), ..p } },
            Mode::Ref(r) =>
                if b == 59 {
                    match reference(r) {
                        Some(c) => Page { mode: Mode::Text, text: p.text.push((c, p.open)), ..p },
                        None => Page { mode: Mode::Bad, ..p },
                    }
                } else { Page { mode: Mode::Ref(r.push(b)), ..p } },
            Mode::Bad => p,
        }
    }
    pub open spec fn read(p: Page, s: Seq<u8>) -> Page
        decreases s.len(),
    {
        if s.len() == 0 { p } else { read(step(p, s[0]), s.skip(1)) }
    }
    pub proof fn lemma_read_cat(p: Page, a: Seq<u8>, b: Seq<u8>)
        ensures read(p, a + b) == read(read(p, a), b),
        decreases a.len(),
    {
        if a.len() == 0 { assert(a + b =~= b); }
        else {
            assert((a + b).skip(1) =~= a.skip(1) + b);
            lemma_read_cat(step(p, a[0]), a.skip(1), b);
        }
    }
    pub proof fn lemma_read1(p: Page, a: u8)
        ensures read(p, seq![a]) == step(p, a),
    {
        reveal_with_fuel(read, 2);
        assert(seq![a].skip(1) =~= Seq::<u8>::empty());
    }
    /// inside a character reference
    pub proof fn lemma_read_ref(p: Page, r: Seq<u8>, s: Seq<u8>)
        requires p.mode == Mode::Ref(r), forall|i: int| 0 <= i < s.len() ==> s[i] != 59,
        ensures read(p, s) == (Page { mode: Mode::Ref(r + s), ..p }),
        decreases s.len(),
    {
        if s.len() == 0 { assert(r + s =~= r); }
        else {
            assert forall|i: int| 0 <= i < s.skip(1).len() implies s.skip(1)[i] != 59 by { assert(s[i + 1] != 59); }
            lemma_read_ref(step(p, s[0]), r.push(s[0]), s.skip(1));
            assert(r.push(s[0]) + s.skip(1) =~= r + s);
        }
    }
    pub open spec fn no_angle(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] != 60 && s[i] != 62 }
    /// inside a tag
    pub proof fn lemma_read_tag(p: Page, t: Seq<u8>, s: Seq<u8>)
        requires p.mode == Mode::Tag(t), no_angle(s),
        ensures read(p, s) == (Page { mode: Mode::Tag(t + s), ..p }),
        decreases s.len(),
    {
        if s.len() == 0 { assert(t + s =~= t); }
        else {
            assert forall|i: int| 0 <= i < s.skip(1).len() implies s.skip(1)[i] != 60 && s.skip(1)[i] != 62 by { assert(s[i + 1] != 60); }
            lemma_read_tag(step(p, s[0]), t.push(s[0]), s.skip(1));
            assert(t.push(s[0]) + s.skip(1) =~= t + s);
        }
    }
    pub proof fn lemma_ref(p: Page, n: Seq<u8>, c: u8)
        requires p.mode == Mode::Text, reference(n) == Some(c), forall|i: int| 0 <= i < n.len() ==> n[i] != 59,
        ensures read(p, seq![38u8] + n + seq![59u8]) == (Page { text: p.text.push((c, p.open)), ..p }),
    {
        lemma_read_cat(p, seq![38u8] + n, seq![59u8]);
        lemma_read_cat(p, seq![38u8], n);
        lemma_read1(p, 38);
        lemma_read_ref(step(p, 38), Seq::empty(), n);
        assert(Seq::<u8>::empty() + n =~= n);
        lemma_read1(read(step(p, 38), n), 59);
    }
    pub proof fn lemma_read_esc1(p: Page, b: u8)
        requires p.mode == Mode::Text,
        ensures read(p, esc1(b)) == (Page { text: p.text.push((b, p.open)), ..p }),
    {
        if b == 60 { lemma_ref(p, seq![108u8, 116u8], b); assert(esc1(b) =~= seq![38u8] + seq![108u8, 116u8] + seq![59u8]); }
        else if b == 62 { assert(seq![103u8, 116u8][0] == 103u8); lemma_ref(p, seq![103u8, 116u8], b); assert(esc1(b) =~= seq![38u8] + seq![103u8, 116u8] + seq![59u8]); }
        else if b == 38 { assert(seq![97u8, 109u8, 112u8].len() == 3); lemma_ref(p, seq![97u8, 109u8, 112u8], b); assert(esc1(b) =~= seq![38u8] + seq![97u8, 109u8, 112u8] + seq![59u8]); }
        else if b == 34 { assert(seq![113u8, 117u8, 111u8, 116u8].len() == 4); lemma_ref(p, seq![113u8, 117u8, 111u8, 116u8], b); assert(esc1(b) =~= seq![38u8] + seq![113u8, 117u8, 111u8, 116u8] + seq![59u8]); }
        else if b == 39 { assert(seq![35u8, 120u8, 50u8, 55u8].len() == 4 && seq![35u8, 120u8, 50u8, 55u8][0] == 35u8); assert(seq![113u8, 117u8, 111u8, 116u8][0] == 113u8);
            lemma_ref(p, seq![35u8, 120u8, 50u8, 55u8], b); assert(esc1(b) =~= seq![38u8] + seq![35u8, 120u8, 50u8, 55u8] + seq![59u8]); }
        else { lemma_read1(p, b); }
    }
    pub open spec fn within(s: Seq<u8>, o: Option<Seq<u8>>) -> Seq<(u8, Option<Seq<u8>>)> { Seq::new(s.len(), |i: int| (s[i], o)) }
    /// escaped text is read as the text, and touches no markup
    pub proof fn lemma_read_esc(p: Page, s: Seq<u8>)
        requires p.mode == Mode::Text,
        ensures read(p, esc(s)) == (Page { text: p.text + within(s, p.open), ..p }),
        decreases s.len(),
    {
        if s.len() == 0 { assert(p.text + within(s, p.open) =~= p.text); }
        else {
            lemma_read_cat(p, esc1(s[0]), esc(s.skip(1)));
            lemma_read_esc1(p, s[0]);
            let p1 = Page { text: p.text.push((s[0], p.open)), ..p };
            lemma_read_esc(p1, s.skip(1));
            assert(p1.text + within(s.skip(1), p.open) =~= p.text + within(s, p.open));
        }
    }
    /// C05: none of the special characters of the text is left as it was
    pub proof fn lemma_esc_clean(s: Seq<u8>)
        ensures
            forall|i: int| 0 <= i < esc(s).len() ==> !special(#[trigger] esc(s)[i]),
            s.len() > 0 ==> esc(s).len() > 0,
        decreases s.len(),
    {
        if s.len() > 0 {
            lemma_esc_clean(s.skip(1));
            assert forall|i: int| 0 <= i < esc(s).len() implies !special(#[trigger] esc(s)[i]) by {
                if i >= esc1(s[0]).len() { assert(esc(s)[i] == esc(s.skip(1))[i - esc1(s[0]).len()]); }
            }
        }
    }

    // ---- the style attribute ------------------------------------------
    pub open spec fn attr(b: Style) -> Seq<u8> { decls(b)[0] + tail(decls(b).skip(1)) }
    pub open spec fn declared(s: Style) -> Option<Seq<u8>> { if s == default_style() { None } else { Some(attr(s)) } }
    pub open spec fn clean(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] != 60 && s[i] != 62 && s[i] != 59 }

    pub proof fn lemma_css_clean(b: Style)
        ensures clean(fg_css(b.foreground)), clean(bg_css(b.background)), clean(in_css(b.intensity)),
            fg_css(b.foreground).len() > 0, bg_css(b.background).len() > 0, in_css(b.intensity).len() > 0,
    {
        lemma_fg_clean(b.foreground);
        lemma_bg_clean(b.background);
    }
    pub proof fn lemma_fg_clean(c: Color) ensures clean(fg_css(c)) { }
    pub proof fn lemma_bg_clean(c: Color) ensures clean(bg_css(c)) { }

    /// the declarations written out
    pub proof fn lemma_attr(b: Style)
        requires b != default_style(),
        ensures
            ({
                let df = b.foreground != Color::Default;
                let db = b.background != Color::Default;
                let di = b.intensity != Intensity::Normal;
                attr(b) == (if df { fg_css(b.foreground) } else { Seq::empty() })
                    + (if db { (if df { semi() } else { Seq::empty() }) + bg_css(b.background) } else { Seq::empty() })
                    + (if di { (if df || db { semi() } else { Seq::empty() }) + in_css(b.intensity) } else { Seq::empty() })
            }),
            opening(b) == open_tag() + attr(b) + gt(),
            no_angle(attr(b)), attr(b).len() > 0,
    {
        let p = decl3(b);
        reveal_with_fuel(somes, 4);
        reveal_with_fuel(tail, 4);
        assert(p.skip(1).skip(1).skip(1).len() == 0);
        let s = decls(b);
        let df = b.foreground != Color::Default;
        let db = b.background != Color::Default;
        let di = b.intensity != Intensity::Normal;
        let f = fg_css(b.foreground);
        let g = bg_css(b.background);
        let i = in_css(b.intensity);
        lemma_css_clean(b);
        let want = (if df { f } else { Seq::empty() })
            + (if db { (if df { semi() } else { Seq::empty() }) + g } else { Seq::empty() })
            + (if di { (if df || db { semi() } else { Seq::empty() }) + i } else { Seq::empty() });
        if df && db && di { assert(s =~= seq![f, g, i]); assert(s.skip(1) =~= seq![g, i]); assert(s.skip(1).skip(1) =~= seq![i]); assert(s.skip(1).skip(1).skip(1) =~= Seq::empty()); assert(attr(b) =~= want); }
        else if df && db { assert(s =~= seq![f, g]); assert(s.skip(1) =~= seq![g]); assert(s.skip(1).skip(1) =~= Seq::empty()); assert(attr(b) =~= want); }
        else if df && di { assert(s =~= seq![f, i]); assert(s.skip(1) =~= seq![i]); assert(s.skip(1).skip(1) =~= Seq::empty()); assert(attr(b) =~= want); }
        else if db && di { assert(s =~= seq![g, i]); assert(s.skip(1) =~= seq![i]); assert(s.skip(1).skip(1) =~= Seq::empty()); assert(attr(b) =~= want); }
        else if df { assert(s =~= seq![f]); assert(s.skip(1) =~= Seq::empty()); assert(attr(b) =~= want); }
        else if db { assert(s =~= seq![g]); assert(s.skip(1) =~= Seq::empty()); assert(attr(b) =~= want); }
        else { assert(s =~= seq![i]); assert(s.skip(1) =~= Seq::empty()); assert(attr(b) =~= want); }
        assert(opening(b) =~= open_tag() + attr(b) + gt());
        assert forall|k: int| 0 <= k < attr(b).len() implies attr(b)[k] != 60 && attr(b)[k] != 62 by {
            assert(attr(b)[k] == want[k]);
        }
    }
    /// reading an opening tag when no span is open
    pub proof fn lemma_read_opening(p: Page, b: Style)
        requires p.mode == Mode::Text, p.open is None, b != default_style(),
        ensures read(p, opening(b)) == (Page { open: Some(attr(b)), opened: p.opened + 1, ..p }),
    {
        lemma_attr(b);
        let name = seq![115u8, 112u8, 97u8, 110u8, 32u8, 115u8, 116u8, 121u8, 108u8, 101u8, 61u8];
        let body = name + attr(b);
        assert(opening(b) =~= seq![60u8] + body + seq![62u8]);
        lemma_read_cat(p, seq![60u8] + body, seq![62u8]);
        lemma_read_cat(p, seq![60u8], body);
        lemma_read1(p, 60);
        assert(no_angle(body)) by {
            assert forall|i: int| 0 <= i < body.len() implies body[i] != 60 && body[i] != 62 by {
                if i >= 11 { assert(body[i] == attr(b)[i - 11]); } else { assert(body[i] == name[i]); }
            }
        }
        lemma_read_tag(step(p, 60), Seq::empty(), body);
        assert(Seq::<u8>::empty() + body =~= body);
        assert(body.take(11) =~= name);
        assert(body.skip(11) =~= attr(b));
        assert(body != seq![47u8, 115u8, 112u8, 97u8, 110u8]) by { assert(body.len() > 11); }
        lemma_read1(read(step(p, 60), body), 62);
    }
    pub proof fn lemma_read_closing(p: Page)
        requires p.mode == Mode::Text, p.open is Some,
        ensures read(p, close_tag()) == (Page { open: None, closed: p.closed + 1, ..p }),
    {
        let body = seq![47u8, 115u8, 112u8, 97u8, 110u8];
        assert(close_tag() =~= seq![60u8] + body + seq![62u8]);
        lemma_read_cat(p, seq![60u8] + body, seq![62u8]);
        lemma_read_cat(p, seq![60u8], body);
        lemma_read1(p, 60);
        lemma_read_tag(step(p, 60), Seq::empty(), body);
        assert(Seq::<u8>::empty() + body =~= body);
        lemma_read1(read(step(p, 60), body), 62);
    }
    pub open spec fn in_place(p: Page, cur: Style) -> bool {
        p.mode == Mode::Text && p.open == declared(cur) && p.opened == p.closed + (if cur == default_style() { 0nat } else { 1nat })
    }
    pub proof fn lemma_read_tags(p: Page, a: Style, b: Style)
        requires in_place(p, a),
        ensures in_place(read(p, tags(a, b)), b), read(p, tags(a, b)).text == p.text,
            a == b ==> read(p, tags(a, b)) == p,
    {
        if a == b { }
        else if b == default_style() { lemma_read_closing(p); }
        else {
            lemma_read_cat(p, closing(a), opening(b));
            if a != default_style() { lemma_read_closing(p); }
            let q = read(p, closing(a));
            lemma_read_opening(q, b);
        }
    }
    pub open spec fn marked(s: Seq<(u8, Style)>) -> Seq<(u8, Option<Seq<u8>>)> { Seq::new(s.len(), |i: int| (s[i].0, declared(s[i].1))) }

    pub proof fn lemma_html_write(st: St, c: Chunk)
        requires in_place(read(blank(), st.out), st.cur),
        ensures
            ({
                let st2 = html_nx()(st, c);
                let q = read(blank(), st2.out);
                &&& in_place(q, st2.cur)
                &&& q.text == read(blank(), st.out).text + marked(styled(c))
                // no span is opened or closed between texts of the same style
                &&& st.cur == c.1 ==> q.opened == read(blank(), st.out).opened && q.closed == read(blank(), st.out).closed
            }),
    {
        let p = read(blank(), st.out);
        if c.0.len() == 0 {
            assert(p.text + marked(styled(c)) =~= p.text);
        } else {
            let k = tags(st.cur, c.1);
            lemma_read_cat(blank(), st.out + k, esc(c.0));
            lemma_read_cat(blank(), st.out, k);
            lemma_read_tags(p, st.cur, c.1);
            lemma_read_esc(read(p, k), c.0);
            assert(within(c.0, declared(c.1)) =~= marked(styled(c)));
        }
    }
    pub proof fn lemma_html_writes(st: St, cs: Seq<Chunk>)
        requires in_place(read(blank(), st.out), st.cur),
        ensures
            ({
                let st2 = fold(html_nx(), st, cs);
                let q = read(blank(), st2.out);
                &&& in_place(q, st2.cur)
                &&& q.text == read(blank(), st.out).text + marked(styled_all(cs))
            }),
        decreases cs.len(),
    {
        let p = read(blank(), st.out);
        if cs.len() == 0 { assert(p.text + marked(styled_all(cs)) =~= p.text); }
        else {
            lemma_html_write(st, cs[0]);
            lemma_html_writes(html_nx()(st, cs[0]), cs.skip(1));
            assert(p.text + marked(styled(cs[0])) + marked(styled_all(cs.skip(1))) =~= p.text + marked(styled_all(cs)));
        }
    }
    /// C05 and C06: the document reads as the text, every byte inside exactly
    /// the span its style declares; all tags are the writer's, they alternate
    /// (a nested or stray tag makes the reader Bad), and every span is closed
    pub proof fn c05_c06_document(cs: Seq<Chunk>)
        ensures
            ({
                let q = read(blank(), html_doc(cs));
                &&& q.mode == Mode::Text
                &&& q.text == marked(styled_all(cs))
                &&& q.open is None && q.opened == q.closed
            }),
    {
        lemma_html_writes(start(), cs);
        let s = fold(html_nx(), start(), cs);
        let q = read(blank(), s.out);
        assert(q.text =~= marked(styled_all(cs)));
        lemma_read_cat(blank(), s.out, closing(s.cur));
        if s.cur != default_style() { lemma_read_closing(q); }
    }

    // ---- what a style attribute declares ---------------------------------
    /// color:
    pub open spec fn fg_name() -> Seq<u8> { seq![99u8, 111u8, 108u8, 111u8, 114u8, 58u8] }
    /// background-color:
    pub open spec fn bg_name() -> Seq<u8> { seq![98u8, 97u8, 99u8, 107u8, 103u8, 114u8, 111u8, 117u8, 110u8, 100u8, 45u8, 99u8, 111u8, 108u8, 111u8, 114u8, 58u8] }
    /// font-weight:
    pub open spec fn in_name() -> Seq<u8> { seq![102u8, 111u8, 110u8, 116u8, 45u8, 119u8, 101u8, 105u8, 103u8, 104u8, 116u8, 58u8] }
    /// the colour a CSS value of the tables stands for
    pub open spec fn color_of(v: Seq<u8>) -> Color {
        if v.len() == 3 { Color::Red }
        else if v.len() == 4 { if v[0] == 98 { Color::Blue } else if v[0] == 99 { Color::Cyan } else { Color::BrightBlack } }
        else if v.len() == 5 { if v[0] == 98 { Color::Black } else if v[0] == 103 { Color::Green } else { Color::White } }
        else if v.len() == 6 { Color::Yellow }
        else if v[0] == 109 { Color::Magenta }
        else if v[0] == 105 { Color::Default }
        else if v[1] == 97 { Color::BrightRed }
        else if v[1] == 48 { if v[3] == 48 { Color::BrightBlue } else if v[5] == 48 { Color::BrightGreen } else { Color::BrightCyan } }
        else { if v[3] == 48 { Color::BrightMagenta } else if v[5] == 48 { Color::BrightYellow } else { Color::BrightWhite } }
    }
    pub open spec fn weight_of(v: Seq<u8>) -> Intensity {
        if v[0] == 98 { Intensity::Bold } else if v[0] == 108 { Intensity::Faint } else { Intensity::Normal }
    }
    pub proof fn lemma_fg_value(c: Color)
        ensures fg_css(c).take(6) == fg_name(), color_of(fg_css(c).skip(6)) == c, clean(fg_css(c)), fg_css(c).len() > 6,
    { assert(fg_css(c).take(6) =~= fg_name()); }
    pub proof fn lemma_bg_value(c: Color)
        ensures bg_css(c).take(17) == bg_name(), color_of(bg_css(c).skip(17)) == c, clean(bg_css(c)), bg_css(c).len() > 17,
            bg_css(c).take(6) != fg_name(),
    { assert(bg_css(c).take(17) =~= bg_name()); assert(bg_css(c).take(6)[0] == 98); assert(fg_name()[0] == 99); }
    pub proof fn lemma_in_value(c: Intensity)
        ensures in_css(c).take(12) == in_name(), weight_of(in_css(c).skip(12)) == c, clean(in_css(c)), in_css(c).len() > 12,
            in_css(c).take(6) != fg_name(), in_css(c).len() > 17 ==> in_css(c).take(17) != bg_name(),
    {
        assert(in_css(c).take(12) =~= in_name());
        assert(in_css(c).take(6)[0] == 102); assert(fg_name()[0] == 99); assert(bg_name()[0] == 98);
        if in_css(c).len() > 17 { assert(in_css(c).take(17)[0] == 102); }
    }
    /// split at the first `;`
    pub open spec fn head(s: Seq<u8>) -> Seq<u8>
        decreases s.len(),
    {
        if s.len() == 0 || s[0] == 59 { Seq::empty() } else { seq![s[0]] + head(s.skip(1)) }
    }
    pub proof fn lemma_head(d: Seq<u8>, r: Seq<u8>)
        requires clean(d), r.len() == 0 || r[0] == 59,
        ensures head(d + r) == d,
        decreases d.len(),
    {
        if d.len() == 0 { assert(d + r =~= r); assert(head(d + r) =~= d); }
        else {
            assert((d + r).skip(1) =~= d.skip(1) + r);
            assert forall|i: int| 0 <= i < d.skip(1).len() implies d.skip(1)[i] != 60 && d.skip(1)[i] != 62 && d.skip(1)[i] != 59 by { assert(d[i + 1] != 60); }
            lemma_head(d.skip(1), r);
            assert(seq![d[0]] + d.skip(1) =~= d);
        }
    }
    pub proof fn lemma_head_len(s: Seq<u8>)
        ensures head(s).len() <= s.len(),
        decreases s.len(),
    {
        if s.len() > 0 && s[0] != 59 { lemma_head_len(s.skip(1)); }
    }
    /// one declaration
    pub open spec fn declare(d: Seq<u8>, acc: Style) -> Style {
        if d.len() > 6 && d.take(6) == fg_name() { Style { foreground: color_of(d.skip(6)), ..acc } }
        else if d.len() > 17 && d.take(17) == bg_name() { Style { background: color_of(d.skip(17)), ..acc } }
        else { Style { intensity: weight_of(d.skip(12)), ..acc } }
    }
    /// declarations separated by `;`
    pub open spec fn css_style(s: Seq<u8>, acc: Style) -> Style
        decreases s.len(),
    {
        if s.len() == 0 { acc }
        else {
            let d = head(s);
            let acc2 = declare(d, acc);
            if d.len() >= s.len() { acc2 } else { css_style(s.skip(d.len() as int + 1), acc2) }
        }
    }
    pub proof fn lemma_css_last(d: Seq<u8>, acc: Style)
        requires clean(d), d.len() > 0,
        ensures css_style(d, acc) == declare(d, acc),
    {
        lemma_head(d, Seq::empty());
        assert(d + Seq::<u8>::empty() =~= d);
    }
    pub proof fn lemma_css_more(d: Seq<u8>, r: Seq<u8>, acc: Style)
        requires clean(d), d.len() > 0,
        ensures css_style(d + (semi() + r), acc) == css_style(r, declare(d, acc)),
    {
        let s = d + (semi() + r);
        lemma_head(d, semi() + r);
        assert(s.skip(d.len() as int + 1) =~= r);
    }
    /// C06: the style attribute declares exactly the style
    pub proof fn c06_attribute_declares_the_style(b: Style)
        requires b != default_style(),
        ensures css_style(attr(b), default_style()) == b,
    {
        lemma_attr(b);
        let df = b.foreground != Color::Default;
        let db = b.background != Color::Default;
        let di = b.intensity != Intensity::Normal;
        let f = fg_css(b.foreground);
        let g = bg_css(b.background);
        let i = in_css(b.intensity);
        lemma_fg_value(b.foreground); lemma_bg_value(b.background); lemma_in_value(b.intensity);
        let s0 = default_style();
        let s1 = if df { declare(f, s0) } else { s0 };
        let s2 = if db { declare(g, s1) } else { s1 };
        if df && db && di { assert(attr(b) =~= f + (semi() + (g + (semi() + i)))); lemma_css_more(f, g + (semi() + i), s0); lemma_css_more(g, i, s1); lemma_css_last(i, s2); }
        else if df && db { assert(attr(b) =~= f + (semi() + g)); lemma_css_more(f, g, s0); lemma_css_last(g, s1); }
        else if df && di { assert(attr(b) =~= f + (semi() + i)); lemma_css_more(f, i, s0); lemma_css_last(i, s1); }
        else if db && di { assert(attr(b) =~= g + (semi() + i)); lemma_css_more(g, i, s0); lemma_css_last(i, s2); }
        else if df { assert(attr(b) =~= f); lemma_css_last(f, s0); }
        else if db { assert(attr(b) =~= g); lemma_css_last(g, s0); }
        else { assert(attr(b) =~= i); lemma_css_last(i, s0); }
    }
    /// C06: different styles have different attributes
    pub proof fn c06_distinct(a: Style, b: Style)
        requires declared(a) == declared(b),
        ensures a == b,
    {
        if a != default_style() && b != default_style() { c06_attribute_declares_the_style(a); c06_attribute_declares_the_style(b); }
    }
}
}
