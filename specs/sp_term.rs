// C02, C03, C04: the bytes of the ANSI writers, read by a terminal.
verus! {
pub mod sp_term {
    use vstd::prelude::*;
    use crate::sp::*;
    use crate::sp_core::*;
    use crate::sp_ansi::*;
    use crate::style::*;
    use crate::shim::somes;

    /// how the terminal shows a character: bold and faint are independent
    pub struct Look { pub fg: Color, pub bg: Color, pub bold: bool, pub faint: bool }
    pub enum Mode { Ground, Esc, Csi(nat), Lost }
    pub struct Term {
        pub mode: Mode,
        pub look: Look,
        pub shown: Seq<(u8, Look)>,
        pub controls: nat,                       // control sequences seen
        pub named: (bool, bool, bool, bool),     // attributes they named: fg, bg, intensity, all
    }
    pub open spec fn plain_look() -> Look { Look { fg: Color::Default, bg: Color::Default, bold: false, faint: false } }
    pub open spec fn look_of(s: Style) -> Look {
        Look { fg: s.foreground, bg: s.background, bold: s.intensity == Intensity::Bold, faint: s.intensity == Intensity::Faint }
    }
    pub open spec fn dark(n: nat) -> Color {
        if n == 0 { Color::Black } else if n == 1 { Color::Red } else if n == 2 { Color::Green } else if n == 3 { Color::Yellow }
        else if n == 4 { Color::Blue } else if n == 5 { Color::Magenta } else if n == 6 { Color::Cyan } else { Color::White }
    }
    pub open spec fn bright(n: nat) -> Color {
        if n == 0 { Color::BrightBlack } else if n == 1 { Color::BrightRed } else if n == 2 { Color::BrightGreen } else if n == 3 { Color::BrightYellow }
        else if n == 4 { Color::BrightBlue } else if n == 5 { Color::BrightMagenta } else if n == 6 { Color::BrightCyan } else { Color::BrightWhite }
    }
    /// select graphic rendition, one parameter
    pub open spec fn rendition(t: Term, n: nat) -> Term {
        let l = t.look;
        let k = t.named;
        if n == 0 { Term { look: plain_look(), named: (k.0, k.1, k.2, true), ..t } }
        else if n == 1 { Term { look: Look { bold: true, ..l }, named: (k.0, k.1, true, k.3), ..t } }
        else if n == 2 { Term { look: Look { faint: true, ..l }, named: (k.0, k.1, true, k.3), ..t } }
        else if n == 22 { Term { look: Look { bold: false, faint: false, ..l }, named: (k.0, k.1, true, k.3), ..t } }
        else if 30 <= n <= 37 { Term { look: Look { fg: dark((n - 30) as nat), ..l }, named: (true, k.1, k.2, k.3), ..t } }
        else if n == 39 { Term { look: Look { fg: Color::Default, ..l }, named: (true, k.1, k.2, k.3), ..t } }
        else if 90 <= n <= 97 { Term { look: Look { fg: bright((n - 90) as nat), ..l }, named: (true, k.1, k.2, k.3), ..t } }
        else if 40 <= n <= 47 { Term { look: Look { bg: dark((n - 40) as nat), ..l }, named: (k.0, true, k.2, k.3), ..t } }
        else if n == 49 { Term { look: Look { bg: Color::Default, ..l }, named: (k.0, true, k.2, k.3), ..t } }
        else if 100 <= n <= 107 { Term { look: Look { bg: bright((n - 100) as nat), ..l }, named: (k.0, true, k.2, k.3), ..t } }
        else { Term { mode: Mode::Lost, ..t } }
    }
    pub open spec fn step(t: Term, b: u8) -> Term {
        match t.mode {
            Mode::Ground => if b == 27 { Term { mode: Mode::Esc, ..t } } else { Term { shown: t.shown.push((b, t.look)), ..t } },
            Mode::Esc => if b == 91 { Term { mode: Mode::Csi(0), ..t } } else { Term { mode: Mode::Lost, ..t } },
            Mode::Csi(n) =>
                if 48 <= b <= 57 { Term { mode: Mode::Csi((n * 10 + (b - 48)) as nat), ..t } }
                else if b == 59 { rendition(Term { mode: Mode::Csi(0), ..t }, n) }
                else if b == 109 { rendition(Term { mode: Mode::Ground, controls: t.controls + 1, ..t }, n) }
                else { Term { mode: Mode::Lost, ..t } },
            Mode::Lost => t,
        }
    }
    pub open spec fn run(t: Term, s: Seq<u8>) -> Term
        decreases s.len(),
    {
        if s.len() == 0 { t } else { run(step(t, s[0]), s.skip(1)) }
    }
    pub proof fn lemma_run_cat(t: Term, a: Seq<u8>, b: Seq<u8>)
        ensures run(t, a + b) == run(run(t, a), b),
        decreases a.len(),
    {
        if a.len() == 0 { assert(a + b =~= b); }
        else {
            assert((a + b).skip(1) =~= a.skip(1) + b);
            lemma_run_cat(step(t, a[0]), a.skip(1), b);
        }
    }
    pub proof fn lemma_run2(t: Term, a: u8, b: u8)
        ensures run(t, seq![a, b]) == step(step(t, a), b),
    {
        reveal_with_fuel(run, 3);
        assert(seq![a, b].skip(1) =~= seq![b]);
        assert(seq![b].skip(1) =~= Seq::<u8>::empty());
    }
    pub proof fn lemma_run1(t: Term, a: u8)
        ensures run(t, seq![a]) == step(t, a),
    {
        reveal_with_fuel(run, 2);
        assert(seq![a].skip(1) =~= Seq::<u8>::empty());
    }
    pub proof fn lemma_run3(t: Term, a: u8, b: u8, c: u8)
        ensures run(t, seq![a, b, c]) == step(step(step(t, a), b), c),
    {
        lemma_run2(step(t, a), b, c);
        assert(seq![a, b, c].skip(1) =~= seq![b, c]);
    }
    pub proof fn lemma_run4(t: Term, a: u8, b: u8, c: u8, d: u8)
        ensures run(t, seq![a, b, c, d]) == step(step(step(step(t, a), b), c), d),
    {
        lemma_run3(step(t, a), b, c, d);
        assert(seq![a, b, c, d].skip(1) =~= seq![b, c, d]);
    }
    /// printable text (anything without ESC) is shown as it is
    pub open spec fn printable(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] != 27 }
    pub open spec fn painted(s: Seq<u8>, l: Look) -> Seq<(u8, Look)> { Seq::new(s.len(), |i: int| (s[i], l)) }
    pub proof fn lemma_run_text(t: Term, s: Seq<u8>)
        requires t.mode == Mode::Ground, printable(s),
        ensures run(t, s) == (Term { shown: t.shown + painted(s, t.look), ..t }),
        decreases s.len(),
    {
        if s.len() == 0 { assert(t.shown + painted(s, t.look) =~= t.shown); }
        else {
            let t1 = step(t, s[0]);
            assert forall|i: int| 0 <= i < s.skip(1).len() implies s.skip(1)[i] != 27 by { assert(s[i + 1] != 27); }
            lemma_run_text(t1, s.skip(1));
            assert(t1.shown + painted(s.skip(1), t.look) =~= t.shown + painted(s, t.look));
        }
    }
    pub open spec fn closed(t: Term, sep: u8) -> Term {
        if sep == 59 { Term { mode: Mode::Csi(0), ..t } } else { Term { mode: Mode::Ground, controls: t.controls + 1, ..t } }
    }
    pub open spec fn is_sep(b: u8) -> bool { b == 59 || b == 109 }
    pub proof fn lemma_fg(t: Term, c: Color, sep: u8)
        requires t.mode == Mode::Csi(0), is_sep(sep),
        ensures run(t, fg_code(c) + seq![sep]) == closed(Term { look: Look { fg: c, ..t.look }, named: (true, t.named.1, t.named.2, t.named.3), ..t }, sep),
    {
        let f = fg_code(c);
        lemma_run_cat(t, f, seq![sep]);
        lemma_run2(t, f[0], f[1]);
        assert(f =~= seq![f[0], f[1]]);
        lemma_run1(run(t, f), sep);
    }
    pub proof fn lemma_bg(t: Term, c: Color, sep: u8)
        requires t.mode == Mode::Csi(0), is_sep(sep),
        ensures run(t, bg_code(c) + seq![sep]) == closed(Term { look: Look { bg: c, ..t.look }, named: (t.named.0, true, t.named.2, t.named.3), ..t }, sep),
    {
        let f = bg_code(c);
        lemma_run_cat(t, f, seq![sep]);
        if f.len() == 2 { lemma_run2(t, f[0], f[1]); assert(f =~= seq![f[0], f[1]]); }
        else { lemma_run3(t, f[0], f[1], f[2]); assert(f =~= seq![f[0], f[1], f[2]]); }
        lemma_run1(run(t, f), sep);
    }
    pub open spec fn with_in(l: Look, i: Intensity) -> Look { Look { bold: i == Intensity::Bold, faint: i == Intensity::Faint, ..l } }
    pub proof fn lemma_in(t: Term, a: Intensity, b: Intensity, sep: u8)
        requires t.mode == Mode::Csi(0), is_sep(sep), a != b, t.look == with_in(t.look, a),
        ensures run(t, in_code(a, b) + seq![sep]) == closed(Term { look: with_in(t.look, b), named: (t.named.0, t.named.1, true, t.named.3), ..t }, sep),
    {
        let f = in_code(a, b);
        lemma_run_cat(t, f, seq![sep]);
        if f.len() == 1 { lemma_run1(t, f[0]); assert(f =~= seq![f[0]]); }
        else if f.len() == 2 { lemma_run2(t, f[0], f[1]); assert(f =~= seq![f[0], f[1]]); }
        else { lemma_run4(t, f[0], f[1], f[2], f[3]); assert(f =~= seq![f[0], f[1], f[2], f[3]]); }
        lemma_run1(run(t, f), sep);
    }
    /// the pieces of a control sequence, each ended by `;` or, the last, by `m`
    pub proof fn lemma_control(a: Style, b: Style)
        requires a != b,
        ensures
            ({
                let df = a.foreground != b.foreground;
                let db = a.background != b.background;
                let di = a.intensity != b.intensity;
                let f = fg_code(b.foreground);
                let g = bg_code(b.background);
                let i = in_code(a.intensity, b.intensity);
                control(segs(a, b)) == lead()
                    + (if df { f + seq![if db || di { 59u8 } else { 109u8 }] } else { Seq::empty() })
                    + (if db { g + seq![if di { 59u8 } else { 109u8 }] } else { Seq::empty() })
                    + (if di { i + seq![109u8] } else { Seq::empty() })
            }),
    {
        let p = seg3(a, b);
        reveal_with_fuel(somes, 4);
        reveal_with_fuel(tail, 4);
        assert(p.skip(1).skip(1).skip(1).len() == 0);
        let s = segs(a, b);
        let df = a.foreground != b.foreground;
        let db = a.background != b.background;
        let di = a.intensity != b.intensity;
        let f = fg_code(b.foreground);
        let g = bg_code(b.background);
        let i = in_code(a.intensity, b.intensity);
        let want = lead()
            + (if df { f + seq![if db || di { 59u8 } else { 109u8 }] } else { Seq::empty() })
            + (if db { g + seq![if di { 59u8 } else { 109u8 }] } else { Seq::empty() })
            + (if di { i + seq![109u8] } else { Seq::empty() });
        if df && db && di { assert(s =~= seq![f, g, i]); assert(s.skip(1) =~= seq![g, i]); assert(s.skip(1).skip(1) =~= seq![i]); assert(s.skip(1).skip(1).skip(1) =~= Seq::empty());
            assert(control(s) =~= want); }
        else if df && db { assert(s =~= seq![f, g]); assert(s.skip(1) =~= seq![g]); assert(s.skip(1).skip(1) =~= Seq::empty()); assert(control(s) =~= want); }
        else if df && di { assert(s =~= seq![f, i]); assert(s.skip(1) =~= seq![i]); assert(s.skip(1).skip(1) =~= Seq::empty()); assert(control(s) =~= want); }
        else if db && di { assert(s =~= seq![g, i]); assert(s.skip(1) =~= seq![i]); assert(s.skip(1).skip(1) =~= Seq::empty()); assert(control(s) =~= want); }
        else if df { assert(s =~= seq![f]); assert(s.skip(1) =~= Seq::empty()); assert(control(s) =~= want); }
        else if db { assert(s =~= seq![g]); assert(s.skip(1) =~= Seq::empty()); assert(control(s) =~= want); }
        else { assert(s =~= seq![i]); assert(s.skip(1) =~= Seq::empty()); assert(control(s) =~= want); }
    }
    /// reading the control sequence from a to b
    pub proof fn lemma_sgr(t: Term, a: Style, b: Style)
        requires t.mode == Mode::Ground, t.look == look_of(a), t.named == (false, false, false, false),
        ensures
            ({
                let u = run(t, sgr(a, b));
                &&& u.mode == Mode::Ground && u.look == look_of(b) && u.shown == t.shown
                // C03: none if nothing changes, else exactly one, naming only
                // what changes or resetting everything
                &&& a == b ==> u == t
                &&& a != b ==> u.controls == t.controls + 1
                &&& u.named == (if a != b && b == default_style() { (false, false, false, true) }
                        else { (a.foreground != b.foreground, a.background != b.background, a.intensity != b.intensity, false) })
            }),
    {
        if a == b { }
        else if b == default_style() {
            lemma_run4(t, 27, 91, 48, 109);
            assert(reset() =~= seq![27u8, 91u8, 48u8, 109u8]);
        } else {
            lemma_control(a, b);
            let df = a.foreground != b.foreground;
            let db = a.background != b.background;
            let di = a.intensity != b.intensity;
            let x = if df { fg_code(b.foreground) + seq![if db || di { 59u8 } else { 109u8 }] } else { Seq::empty() };
            let y = if db { bg_code(b.background) + seq![if di { 59u8 } else { 109u8 }] } else { Seq::empty() };
            let z = if di { in_code(a.intensity, b.intensity) + seq![109u8] } else { Seq::empty() };
            lemma_run_cat(t, lead() + x + y, z);
            lemma_run_cat(t, lead() + x, y);
            lemma_run_cat(t, lead(), x);
            lemma_run2(t, 27, 91);
            let t1 = run(t, lead());
            if df { lemma_fg(t1, b.foreground, if db || di { 59u8 } else { 109u8 }); }
            let t2 = run(t1, x);
            if db { lemma_bg(t2, b.background, if di { 59u8 } else { 109u8 }); }
            let t3 = run(t2, y);
            if di { lemma_in(t3, a.intensity, b.intensity, 109); }
        }
    }
    pub open spec fn forget(t: Term) -> Term { Term { controls: 0, named: (false, false, false, false), ..t } }
    /// what is on screen does not depend on the bookkeeping
    pub proof fn lemma_forget(t: Term, s: Seq<u8>)
        ensures forget(run(forget(t), s)) == forget(run(t, s)),
        decreases s.len(),
    {
        if s.len() > 0 {
            lemma_forget(step(t, s[0]), s.skip(1));
            lemma_forget(step(forget(t), s[0]), s.skip(1));
            assert(forget(step(forget(t), s[0])) == forget(step(t, s[0])));
        }
    }
    pub open spec fn fresh() -> Term {
        Term { mode: Mode::Ground, look: plain_look(), shown: Seq::empty(), controls: 0, named: (false, false, false, false) }
    }
    pub open spec fn looks(s: Seq<(u8, Style)>) -> Seq<(u8, Look)> { Seq::new(s.len(), |i: int| (s[i].0, look_of(s[i].1))) }
    pub open spec fn all_printable(cs: Seq<Chunk>) -> bool { forall|i: int| 0 <= i < cs.len() ==> printable(#[trigger] cs[i].0) }

    /// one write, seen on the terminal
    pub proof fn lemma_write(st: St, c: Chunk)
        requires
            printable(c.0),
            run(fresh(), st.out).mode == Mode::Ground, run(fresh(), st.out).look == look_of(st.cur),
        ensures
            ({
                let st2 = ansi_nx()(st, c);
                let u = run(fresh(), st.out);
                let v = run(fresh(), st2.out);
                &&& v.mode == Mode::Ground && v.look == look_of(st2.cur)
                &&& v.shown == u.shown + looks(styled(c))
            }),
    {
        if c.0.len() == 0 {
            assert(run(fresh(), st.out).shown + looks(styled(c)) =~= run(fresh(), st.out).shown);
        } else {
            let u = run(fresh(), st.out);
            let k = sgr(st.cur, c.1);
            lemma_run_cat(fresh(), st.out + k, c.0);
            lemma_run_cat(fresh(), st.out, k);
            lemma_forget(u, k);
            lemma_sgr(forget(u), st.cur, c.1);
            lemma_run_text(run(u, k), c.0);
            assert(painted(c.0, look_of(c.1)) =~= looks(styled(c)));
        }
    }
    pub proof fn lemma_writes(st: St, cs: Seq<Chunk>)
        requires
            all_printable(cs),
            run(fresh(), st.out).mode == Mode::Ground, run(fresh(), st.out).look == look_of(st.cur),
        ensures
            ({
                let st2 = fold(ansi_nx(), st, cs);
                let v = run(fresh(), st2.out);
                &&& v.mode == Mode::Ground && v.look == look_of(st2.cur)
                &&& v.shown == run(fresh(), st.out).shown + looks(styled_all(cs))
            }),
        decreases cs.len(),
    {
        if cs.len() == 0 {
            assert(run(fresh(), st.out).shown + looks(styled_all(cs)) =~= run(fresh(), st.out).shown);
        } else {
            assert(printable(cs[0].0));
            lemma_write(st, cs[0]);
            assert forall|i: int| 0 <= i < cs.skip(1).len() implies printable(#[trigger] cs.skip(1)[i].0) by { assert(printable(cs[i + 1].0)); }
            lemma_writes(ansi_nx()(st, cs[0]), cs.skip(1));
            assert(run(fresh(), st.out).shown + looks(styled(cs[0])) + looks(styled_all(cs.skip(1))) =~= run(fresh(), st.out).shown + looks(styled_all(cs)));
        }
    }
    /// C02
    pub proof fn c02_terminal_shows_the_text(cs: Seq<Chunk>)
        requires all_printable(cs),
        ensures
            run(fresh(), ansi_doc(cs)).shown == looks(styled_all(cs)),
            run(fresh(), ansi_doc(cs)).mode == Mode::Ground,
            run(fresh(), ansi_doc(cs)).look == plain_look(),
    {
        lemma_writes(start(), cs);
        let s = fold(ansi_nx(), start(), cs);
        let t = run(fresh(), s.out);
        assert(t.shown =~= looks(styled_all(cs)));
        lemma_run_cat(fresh(), s.out, sgr_end(s.cur));
        if s.cur != default_style() { lemma_forget(t, reset()); lemma_sgr(forget(t), s.cur, default_style()); }
    }
    /// C03: control sequences appear only where a non-empty text changes the
    /// style, directly before it; the text follows unchanged
    pub proof fn c03_controls_only_for_changes(st: St, c: Chunk)
        ensures
            c.0.len() == 0 ==> ansi_nx()(st, c) == st,
            c.0.len() > 0 ==> ansi_nx()(st, c).out == st.out + sgr(st.cur, c.1) + c.0 && ansi_nx()(st, c).cur == c.1,
            ansi_io_nx()(st, c).out == st.out + sgr(st.cur, c.1) + c.0 && ansi_io_nx()(st, c).cur == c.1,
            st.cur == c.1 ==> sgr(st.cur, c.1).len() == 0,
            ({
                let u = run(Term { look: look_of(st.cur), ..fresh() }, sgr(st.cur, c.1));
                &&& u.shown.len() == 0 && u.mode == Mode::Ground
                &&& u.controls == (if st.cur == c.1 { 0nat } else { 1nat })
                &&& u.named.3 ==> c.1 == default_style() && sgr(st.cur, c.1) == reset()
                &&& u.named.0 ==> st.cur.foreground != c.1.foreground
                &&& u.named.1 ==> st.cur.background != c.1.background
                &&& u.named.2 ==> st.cur.intensity != c.1.intensity
            }),
            sgr_end(st.cur) == (if st.cur == default_style() { Seq::<u8>::empty() } else { reset() }),
    {
        lemma_sgr(Term { look: look_of(st.cur), ..fresh() }, st.cur, c.1);
    }
    /// C04: formatting to the IO writer has the effect of the text writer's writes
    pub proof fn c04_io_is_text(st: St, cs: Seq<Chunk>)
        ensures fold(skip_empty(ansi_io_nx()), st, cs) == fold(ansi_nx(), st, cs),
    {
        lemma_ansi_mono();
    }
}
}
