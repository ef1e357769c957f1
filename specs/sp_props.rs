// C07, C08, C09, C16: lemmas over the contracts, and verified clients of them.
verus! {
pub mod sp_props {
    use vstd::prelude::*;
    use vstd::utf8::*;
    use crate::sp::*;
    use crate::sp_core::*;
    use crate::sp_ansi::*;
    use crate::sp_html::*;
    use crate::sp_plain::*;
    use crate::style::*;
    use crate::vxn::*;
    use crate::shim::askama_escape::{esc, esc1};

    pub open spec fn text_of(cs: Seq<Chunk>) -> Seq<u8>
        decreases cs.len(),
    {
        if cs.len() == 0 { Seq::empty() } else { cs[0].0 + text_of(cs.skip(1)) }
    }
    /// C07
    pub proof fn c07_plain_is_the_text(st: St, cs: Seq<Chunk>)
        ensures
            fold(plain_nx(), st, cs) == (St { out: st.out + text_of(cs), ..st }),
            fold(skip_empty(plain_nx()), st, cs) == fold(plain_nx(), st, cs),
            plain_doc(cs) == fold(plain_nx(), start(), cs).out,
            st == start() ==> plain_doc(cs) == text_of(cs),
        decreases cs.len(),
    {
        lemma_plain();
        assert(skip_empty(plain_nx()) =~= plain_nx()) by {
            assert forall|s: St, c: Chunk| #[trigger] skip_empty(plain_nx())(s, c) == plain_nx()(s, c) by {
                if c.0.len() == 0 { assert(c.0 =~= Seq::empty()); assert(s.out + c.0 =~= s.out); }
            }
        }
        if cs.len() > 0 {
            let st1 = plain_nx()(st, cs[0]);
            c07_plain_is_the_text(st1, cs.skip(1));
            assert(st.out + text_of(cs) =~= st1.out + text_of(cs.skip(1)));
        } else { assert(st.out + text_of(cs) =~= st.out); }
        if st == start() { assert(start().out + text_of(cs) =~= text_of(cs)); }
    }

    // ---- C08 -------------------------------------------------------------
    pub proof fn lemma_styled_all_push(a: Seq<Chunk>, c: Chunk)
        ensures styled_all(a.push(c)) == styled_all(a) + styled(c),
        decreases a.len(),
    {
        if a.len() == 0 {
            assert(a.push(c).skip(1) =~= a);
            assert(styled_all(a.push(c)) =~= styled(c));
            assert(styled_all(a) + styled(c) =~= styled(c));
        } else {
            assert(a.push(c).skip(1) =~= a.skip(1).push(c));
            lemma_styled_all_push(a.skip(1), c);
            assert(styled_all(a.push(c)) =~= styled_all(a) + styled(c));
        }
    }
    pub proof fn lemma_style_at(runs: Seq<(usize, Style)>, k: int, i: int)
        requires
            0 <= k < runs.len(), runs[k].0 <= i,
            forall|a: int, b: int| 0 <= a < b < runs.len() ==> (#[trigger] runs[a]).0 <= (#[trigger] runs[b]).0,
            k + 1 < runs.len() ==> i < runs[k + 1].0,
        ensures style_at(runs, i) == runs[k].1,
        decreases runs.len(),
    {
        if k + 1 < runs.len() {
            assert(runs[k + 1].0 <= runs.last().0) by { if k + 1 < runs.len() - 1 { assert(runs[k + 1].0 <= runs[runs.len() - 1].0); } }
            let r = runs.drop_last();
            assert forall|a: int, b: int| 0 <= a < b < r.len() implies (#[trigger] r[a]).0 <= (#[trigger] r[b]).0 by { assert(runs[a].0 <= runs[b].0); }
            lemma_style_at(r, k, i);
        }
    }
    pub proof fn lemma_replay_to(c: Seq<char>, runs: Seq<(usize, Style)>, k: int)
        requires runs_ok(c, runs), 0 <= k <= runs.len(),
        ensures
            ({
                let b = encode_utf8(c);
                let e = if k == 0 { 0 } else { run_end(b, runs, k - 1) };
                0 <= e <= b.len() && styled_all(run_chunks(b, runs).take(k)) == run_log(b, runs).take(e)
            }),
        decreases k,
    {
        let b = encode_utf8(c);
        let cs = run_chunks(b, runs);
        if k == 0 {
            assert(cs.take(0) =~= Seq::empty());
            assert(run_log(b, runs).take(0) =~= styled_all(cs.take(0)));
        } else {
            lemma_replay_to(c, runs, k - 1);
            assert(cs.take(k) =~= cs.take(k - 1).push(cs[k - 1]));
            lemma_styled_all_push(cs.take(k - 1), cs[k - 1]);
            let s = runs[k - 1].0 as int;
            let e = run_end(b, runs, k - 1);
            if k < runs.len() { assert(runs[k - 1].0 <= runs[k].0); }
            assert(s <= e <= b.len());
            assert(s == (if k == 1 { 0 } else { run_end(b, runs, k - 2) }));
            assert(styled(cs[k - 1]) =~= run_log(b, runs).subrange(s, e)) by {
                assert forall|j: int| 0 <= j < e - s implies styled(cs[k - 1])[j] == run_log(b, runs).subrange(s, e)[j] by {
                    lemma_style_at(runs, k - 1, s + j);
                }
            }
            assert(run_log(b, runs).take(s) + run_log(b, runs).subrange(s, e) =~= run_log(b, runs).take(e));
        }
    }
    /// C08: displaying a styled string writes the styled bytes it recorded
    pub proof fn c08_replay(c: Seq<char>, runs: Seq<(usize, Style)>)
        requires runs_ok(c, runs),
        ensures styled_all(run_chunks(encode_utf8(c), runs)) == run_log(encode_utf8(c), runs),
    {
        let b = encode_utf8(c);
        let cs = run_chunks(b, runs);
        lemma_replay_to(c, runs, runs.len() as int);
        assert(cs.take(runs.len() as int) =~= cs);
        if runs.len() > 0 { assert(run_end(b, runs, runs.len() - 1) == b.len()); }
        assert(run_log(b, runs).take(b.len() as int) =~= run_log(b, runs));
        if runs.len() == 0 { assert(b.len() == 0); assert(run_log(b, runs) =~= Seq::empty()); }
    }

    // ---- C16 -------------------------------------------------------------
    pub open spec fn by_byte(s: Seq<(u8, Style)>) -> Seq<Chunk> { Seq::new(s.len(), |i: int| (seq![s[i].0], s[i].1)) }
    pub open spec fn idle(nx: Nx) -> bool { forall|st: St, y: Style| #[trigger] nx(st, (Seq::empty(), y)) == st }
    pub proof fn lemma_one_chunk(nx: Nx, st: St, c: Chunk)
        requires idle(nx), joins(nx),
        ensures fold(nx, st, by_byte(styled(c))) == nx(st, c),
        decreases c.0.len(),
    {
        if c.0.len() == 0 { assert(c.0 =~= Seq::empty()); assert(nx(st, (Seq::empty(), c.1)) == st); }
        else {
            let s = by_byte(styled(c));
            let h = (seq![c.0[0]], c.1);
            let t = (c.0.skip(1), c.1);
            assert(s[0] == h);
            assert(s.skip(1) =~= by_byte(styled(t)));
            lemma_one_chunk(nx, nx(st, h), t);
            reveal(joins);
            assert(nx(nx(st, (h.0, c.1)), (t.0, c.1)) == nx(st, (h.0 + t.0, c.1)));
            assert(h.0 + t.0 =~= c.0);
        }
    }
    pub proof fn lemma_by_byte(nx: Nx, st: St, cs: Seq<Chunk>)
        requires idle(nx), joins(nx),
        ensures fold(nx, st, cs) == fold(nx, st, by_byte(styled_all(cs))),
        decreases cs.len(),
    {
        if cs.len() > 0 {
            lemma_one_chunk(nx, st, cs[0]);
            lemma_by_byte(nx, nx(st, cs[0]), cs.skip(1));
            assert(by_byte(styled_all(cs)) =~= by_byte(styled(cs[0])) + by_byte(styled_all(cs.skip(1))));
            lemma_fold_cat(nx, st, by_byte(styled(cs[0])), by_byte(styled_all(cs.skip(1))));
        } else { assert(by_byte(styled_all(cs)) =~= Seq::empty()); }
    }
    pub proof fn lemma_esc_cat(a: Seq<u8>, b: Seq<u8>)
        ensures esc(a + b) == esc(a) + esc(b),
        decreases a.len(),
    {
        if a.len() == 0 { assert(a + b =~= b); assert(esc(a) + esc(b) =~= esc(b)); }
        else {
            assert((a + b).skip(1) =~= a.skip(1) + b);
            lemma_esc_cat(a.skip(1), b);
            assert(esc1(a[0]) + (esc(a.skip(1)) + esc(b)) =~= esc1(a[0]) + esc(a.skip(1)) + esc(b));
        }
    }
    pub proof fn lemma_writers_join()
        ensures idle(ansi_nx()), joins(ansi_nx()), idle(html_nx()), joins(html_nx()), idle(plain_nx()), joins(plain_nx()),
    {
        lemma_plain();
        assert forall|st: St, y: Style| #[trigger] plain_nx()(st, (Seq::empty(), y)) == st by { assert(st.out + Seq::<u8>::empty() =~= st.out); }
        assert forall|st: St, a: Seq<u8>, b: Seq<u8>, y: Style| #[trigger] ansi_nx()(ansi_nx()(st, (a, y)), (b, y)) == ansi_nx()(st, (a + b, y)) by {
            if a.len() == 0 { assert(a + b =~= b); }
            else if b.len() == 0 { assert(a + b =~= a); }
            else { assert(st.out + sgr(st.cur, y) + a + sgr(y, y) + b =~= st.out + sgr(st.cur, y) + (a + b)); }
        }
        assert forall|st: St, a: Seq<u8>, b: Seq<u8>, y: Style| #[trigger] html_nx()(html_nx()(st, (a, y)), (b, y)) == html_nx()(st, (a + b, y)) by {
            if a.len() == 0 { assert(a + b =~= b); }
            else if b.len() == 0 { assert(a + b =~= a); }
            else { lemma_esc_cat(a, b); assert(st.out + tags(st.cur, y) + esc(a) + tags(y, y) + esc(b) =~= st.out + tags(st.cur, y) + (esc(a) + esc(b))); }
        }
        reveal(joins);
    }
    /// C16: the output depends only on the styled text, not on how it was cut
    /// into writes; so replaying a styled string gives the direct output
    pub proof fn c16_same_text_same_output(a: Seq<Chunk>, b: Seq<Chunk>, st: St)
        requires styled_all(a) == styled_all(b),
        ensures
            fold(ansi_nx(), st, a) == fold(ansi_nx(), st, b), ansi_doc(a) == ansi_doc(b),
            fold(html_nx(), st, a) == fold(html_nx(), st, b), html_doc(a) == html_doc(b),
            fold(plain_nx(), st, a) == fold(plain_nx(), st, b), plain_doc(a) == plain_doc(b),
    {
        lemma_writers_join();
        lemma_by_byte(ansi_nx(), st, a); lemma_by_byte(ansi_nx(), st, b);
        lemma_by_byte(html_nx(), st, a); lemma_by_byte(html_nx(), st, b);
        lemma_by_byte(plain_nx(), st, a); lemma_by_byte(plain_nx(), st, b);
        lemma_by_byte(ansi_nx(), start(), a); lemma_by_byte(ansi_nx(), start(), b);
        lemma_by_byte(html_nx(), start(), a); lemma_by_byte(html_nx(), start(), b);
        lemma_by_byte(plain_nx(), start(), a); lemma_by_byte(plain_nx(), start(), b);
    }
    /// C16: the IO writers deliver the bytes of the text writers
    pub proof fn c16_io_is_text(st: St, cs: Seq<Chunk>)
        ensures
            fold(skip_empty(ansi_io_nx()), st, cs) == fold(ansi_nx(), st, cs),
            fold(skip_empty(plain_nx()), st, cs) == fold(plain_nx(), st, cs),
    {
        lemma_ansi_mono();
        c07_plain_is_the_text(st, cs);
    }

    // ---- clients: code verified against the contracts only ---------------
    /// C16: writer and finish against the one-step function
    pub fn client_ansi(args: Arguments<'_>) -> (r: std::string::String)
        requires args_fine(args), args_ok(args),
        ensures encode_utf8(r@) == ansi_doc(args_render(args, default_style())),
    {
        proof { lemma_ansi_mono(); }
        let mut w = crate::stylish::ansi(std::string::String::new());
        match w.write_fmt(args) { Ok(()) => {} Err(_) => { assert(false); } }
        match w.finish() { Ok(t) => t, Err(_) => { assert(false); std::string::String::new() } }
    }
    pub fn client_html(args: Arguments<'_>) -> (r: std::string::String)
        requires args_fine(args), args_ok(args),
        ensures encode_utf8(r@) == html_doc(args_render(args, default_style())),
    {
        proof { lemma_html_mono(); }
        let mut w = crate::stylish::html(std::string::String::new());
        match w.write_fmt(args) { Ok(()) => {} Err(_) => { assert(false); } }
        match w.finish() { Ok(t) => t, Err(_) => { assert(false); std::string::String::new() } }
    }
    /// C16: through a styled string
    pub fn client_replay(args: Arguments<'_>) -> (r: std::string::String)
        requires args_fine(args), args_ok(args),
        ensures encode_utf8(r@) == ansi_doc(args_render(args, default_style())),
    {
        let s = crate::core_::format::format(args);
        proof {
            lemma_ansi_mono();
            c08_replay(s.string@, s.styles@);
            c16_same_text_same_output(s.render(default_style()), args_render(args, default_style()), start());
        }
        use crate::ansi::to_string::ToAnsiString;
        s.to_ansi_string()
    }
    /// C12: a failing sink ends the output with an error
    pub fn client_failing<T: crate::shim::fmt::Write>(w: &mut crate::ansi::Ansi<T>, args: Arguments<'_>) -> (r: crate::shim::fmt::Result)
        requires args_ok(args), args_fine(args), !old(w).inner.failed(),
        ensures
            final(w).inner.failed() ==> r is Err,
            r is Ok ==> final(w).inner.out() == fold(ansi_nx(), (*old(w)).g().st, args_render(args, default_style())).out,
            r is Err ==> final(w).inner.out().is_prefix_of(fold(ansi_nx(), (*old(w)).g().st, args_render(args, default_style())).out),
    {
        proof { lemma_ansi_mono(); }
        w.write_fmt(args)
    }
    /// C09: derived formatters add up, and the parent is left as it was
    pub fn client_scoped<T: Restyle, U: Restyle>(f: &mut Formatter<'_>, t: T, u: U, s: &str) -> (r: crate::shim::fmt::Result)
        requires (*old(f)).g().inv, monotone((*old(f)).g().nx),
        ensures
            final(f).style == old(f).style, final(f).format == old(f).format,
            r is Ok ==> (*final(f)).g().st == ((*old(f)).g().nx)(
                ((*old(f)).g().nx)((*old(f)).g().st, (vx_b(s), u.restyled(t.restyled(old(f).style)))),
                (vx_b(s), old(f).style)),
    {
        let mut a = f.with(t);
        let mut b = a.with(u);
        let x = b.write_str(s);
        match x {
            Ok(()) => f.write_str(s),
            Err(e) => Err(e),
        }
    }
}
}
