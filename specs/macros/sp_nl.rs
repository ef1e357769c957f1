// format_args_nl: the program of the same call with a newline at the end.
verus! {
pub mod sp_nl {
    use vstd::prelude::*;
    use crate::vxq::*;
    use crate::vxnom::*;
    use crate::sp_fmt::*;
    use crate::sp_gram::*;
    use crate::sp_emit::*;
    use crate::sp_emit::used;

    use crate::sp_call::read_call;
    /// stylish-core's macros name the crate; counts taken from arguments are refused
    pub open spec fn expandable(c: Option<Call>) -> bool {
        match c { Some(c) => c.krate is Some && (p_format(c.fmt) is Ok ==> int_counts(p_format(c.fmt)->Ok_1)), None => true }
    }
    pub open spec fn nl() -> Seq<char> { seq!['\n'] }
    pub broadcast proof fn lemma_push_nl(s: Seq<char>)
        ensures #[trigger] s.push('\n') == s + nl(),
    { assert(s.push('\n') =~= s + nl()); }
    pub open spec fn nl_call(c: Call) -> Call { Call { fmt: c.fmt + nl(), ..c } }
    pub open spec fn with_nl(c: Option<Call>) -> Option<Call> { match c { Some(c) => Some(nl_call(c)), None => None } }
    /// w is v, and then a newline: in the last literal, or as one more
    pub open spec fn then_nl(v: Seq<SPiece>, w: Seq<SPiece>) -> bool {
        ||| w == v.push(SPiece::Lit(nl()))
        ||| v.len() > 0 && v.last() is Lit && w == v.drop_last().push(SPiece::Lit(v.last()->Lit_0 + nl()))
    }

    pub proof fn lemma_run_nl(s: Seq<char>)
        ensures run(s + nl(), is_plain()) == run(s, is_plain()) + if run(s, is_plain()) == s.len() { 1nat } else { 0 },
        decreases s.len(),
    {
        let n = nl();
        if s.len() == 0 {
            assert(s + n =~= n);
            assert(n.skip(1).len() == 0);
            reveal_with_fuel(run, 3);
        } else {
            assert((s + n).skip(1) =~= s.skip(1) + n);
            if is_plain()(s[0]) { lemma_run_nl(s.skip(1)); }
        }
    }
    /// a placeholder does not see the newline
    pub proof fn lemma_hole_nl(s: Seq<char>)
        ensures
            p_hole(s) is Ok ==> p_hole(s + nl()) == PR::Ok(p_hole(s)->Ok_0 + nl(), p_hole(s)->Ok_1),
            p_hole(s + nl()) is Ok ==> p_hole(s) is Ok,
            p_hole(s) is Ok ==> p_hole(s)->Ok_0.len() < s.len() && sfx(s, p_hole(s)->Ok_0),
    {
        hide(p_arg); hide(g_arg); hide(is_align);
        let n = nl();
        let u = s + n;
        lemma_skips();
        if p_hole(s) is Ok {
            let (r, a) = (p_arg(s.skip(1))->Ok_0, p_arg(s.skip(1))->Ok_1);
            s_arg(s.skip(1));
            let t = crate::sp_gram::used(s.skip(1), r);
            let w = r + n;
            assert(s.skip(1) =~= t + r);
            assert(u.skip(1) =~= t + w);
            if w.len() > 1 && r.len() == 1 { assert(w[1] == '\n'); reveal(is_align); }
            if r.len() > 1 { assert(w[1] == r[1]); }
            c_arg(t, w, a);
            assert(w.skip(1) =~= r.skip(1) + n);
        }
        if p_hole(u) is Ok {
            let (w, a) = (p_arg(u.skip(1))->Ok_0, p_arg(u.skip(1))->Ok_1);
            s_arg(u.skip(1));
            let t = crate::sp_gram::used(u.skip(1), w);
            if w.len() == 1 { assert(w[0] == u.last()); assert(false); }
            let r = w.drop_last();
            if s.len() == 0 { assert(u[0] == '\n'); assert(false); }
            assert(u.skip(1) =~= t + w);
            assert(u.skip(1) =~= s.skip(1) + n);
            assert(s.skip(1) =~= t + r) by {
                assert(s.skip(1) =~= u.skip(1).drop_last());
                assert((t + w).drop_last() =~= t + r);
            }
            if r.len() > 1 { assert(w[1] == r[1]); }
            c_arg(t, r, a);
        }
    }
    pub proof fn lemma_piece_nl(s: Seq<char>)
        ensures
            p_piece(s) is Ok ==> ({
                let (r, p) = (p_piece(s)->Ok_0, p_piece(s)->Ok_1);
                &&& r.len() < s.len()
                &&& p_piece(s + nl()) == PR::Ok(r + nl(), p) || (r.len() == 0 && p is Lit && p_piece(s + nl()) == PR::Ok(r, SPiece::Lit(p->Lit_0 + nl())))
            }),
            p_piece(s + nl()) is Ok ==> p_piece(s) is Ok || s.len() == 0,
    {
        hide(p_hole);
        let n = nl();
        let u = s + n;
        let k = run(s, is_plain());
        lemma_run(s, is_plain());
        lemma_run_nl(s);
        lemma_hole_nl(s);
        if k == s.len() {
            assert(u.skip(k as int + 1) =~= s.skip(k as int));
            assert(u.take(k as int + 1) =~= s.take(k as int) + n);
        } else {
            assert(u.skip(k as int) =~= s.skip(k as int) + n);
            assert(u.take(k as int) =~= s.take(k as int));
            assert(u[0] == s[0]);
            if s.len() > 1 { assert(u[1] == s[1]); assert(u.skip(2) =~= s.skip(2) + n); }
        }
    }
    pub proof fn lemma_pieces_nl(s: Seq<char>)
        ensures
            p_format(s + nl()) is Ok <==> p_format(s) is Ok,
            p_format(s) is Ok ==> then_nl(p_format(s)->Ok_1, p_format(s + nl())->Ok_1),
        decreases s.len(),
    {
        hide(p_piece);
        let n = nl();
        let u = s + n;
        lemma_piece_nl(s);
        if s.len() == 0 {
            assert(u =~= n);
            let e = Seq::<char>::empty();
            assert(p_piece(n) == PR::Ok(e, SPiece::Lit(n)) && p_piece(s) is No && p_piece(e) is No) by {
                reveal(p_piece);
                reveal_with_fuel(run, 3);
                assert(n.skip(1) =~= e); assert(n.take(1) =~= n); assert(s =~= e);
            }
            reveal_with_fuel(p_pieces, 3);
            assert(p_pieces(n) == PR::Ok(e, seq![SPiece::Lit(n)] + Seq::<SPiece>::empty()));
            assert(seq![SPiece::Lit(n)] + Seq::<SPiece>::empty() =~= Seq::<SPiece>::empty().push(SPiece::Lit(n)));
        } else if p_piece(s) is Ok {
            let (r, p) = (p_piece(s)->Ok_0, p_piece(s)->Ok_1);
            lemma_pieces_nl(r);
            if p_piece(u) == PR::Ok(r + n, p) {
                assert((r + n).len() < u.len());
                if p_format(r) is Ok {
                    let (v, w) = (p_format(r)->Ok_1, p_format(r + n)->Ok_1);
                    let (v1, w1) = (seq![p] + v, seq![p] + w);
                    assert(p_pieces(s) == PR::Ok(p_format(r)->Ok_0, v1));
                    if w == v.push(SPiece::Lit(n)) { assert(w1 =~= v1.push(SPiece::Lit(n))); } else {
                        assert(v1.last() == v.last());
                        assert(w1 =~= v1.drop_last().push(SPiece::Lit(v.last()->Lit_0 + n)));
                    }
                }
            } else {
                assert(p_piece(r) is No) by { reveal(p_piece); }
                let e = Seq::<SPiece>::empty();
                let q = SPiece::Lit(p->Lit_0 + n);
                assert(p_pieces(r) == PR::Ok(r, e));
                assert(p_pieces(s) == PR::Ok(r, seq![p] + e));
                assert(p_pieces(u) == PR::Ok(r, seq![q] + e));
                assert(seq![q] + e =~= (seq![p] + e).drop_last().push(q));
                assert((seq![p] + e).last() == p);
            }
        }
    }
    // ---- what the pieces refer to is the same ------------------------------
    pub proof fn lemma_same_upto(c: Call, v: Seq<SPiece>, w: Seq<SPiece>, k: int)
        requires 0 <= k <= v.len() <= w.len(), forall|j: int| 0 <= j < v.len() ==> #[trigger] w[j] == v[j] || (w[j] is Lit && v[j] is Lit),
        ensures
            nexts(w.take(k)) == nexts(v.take(k)),
            captured(nl_call(c), w.take(k)) == captured(c, v.take(k)),
        decreases k,
    {
        if k > 0 {
            lemma_same_upto(c, v, w, k - 1);
            assert(w.take(k).drop_last() =~= w.take(k - 1));
            assert(v.take(k).drop_last() =~= v.take(k - 1));
            assert(w[k - 1] == v[k - 1] || (w[k - 1] is Lit && v[k - 1] is Lit));
            assert(w.take(k).last() == w[k - 1] && v.take(k).last() == v[k - 1]);
            same_names(c);
        }
    }
    pub proof fn same_names(c: Call)
        ensures
            forall|x: Seq<char>| #[trigger] is_named(nl_call(c), x) == is_named(c, x),
            forall|x: Seq<char>| #[trigger] name_of(nl_call(c), x) == name_of(c, x),
    {
        let d = nl_call(c);
        assert(d.names == c.names);
        assert forall|x: Seq<char>| #[trigger] is_named(d, x) == is_named(c, x) by {
            if is_named(d, x) { let i = choose|i: int| #[trigger] named_at(d.names, x, i); assert(named_at(c.names, x, i)); }
            if is_named(c, x) { let i = choose|i: int| #[trigger] named_at(c.names, x, i); assert(named_at(d.names, x, i)); }
        }
    }
    pub open spec fn same_args(v: Seq<SPiece>, w: Seq<SPiece>) -> bool {
        &&& v.len() <= w.len()
        &&& forall|j: int| 0 <= j < v.len() ==> #[trigger] w[j] == v[j] || (w[j] is Lit && v[j] is Lit)
        &&& forall|j: int| v.len() <= j < w.len() ==> #[trigger] w[j] is Lit
    }
    pub proof fn lemma_same_refers(c: Call, v: Seq<SPiece>, w: Seq<SPiece>)
        requires same_args(v, w),
        ensures
            forall|k: int| 0 <= k < v.len() && #[trigger] v[k] is Arg ==> target(nl_call(c), w, k) == target(c, v, k),
            forall|k: int, t: Target| #[trigger] refers(nl_call(c), w, k, t) == refers(c, v, k, t),
            forall|t: Target| #[trigger] used(nl_call(c), w, t) == used(c, v, t),
            fits(nl_call(c), w) == fits(c, v),
            captured(nl_call(c), w) == captured(c, v),
    {
        let d = nl_call(c);
        same_names(c);
        assert forall|k: int| 0 <= k < v.len() && #[trigger] v[k] is Arg implies target(d, w, k) == target(c, v, k) && w[k] == v[k] by {
            assert(w[k] == v[k] || (w[k] is Lit && v[k] is Lit));
            lemma_same_upto(c, v, w, k);
        }
        assert forall|k: int, t: Target| #[trigger] refers(d, w, k, t) == refers(c, v, k, t) by {
            if 0 <= k < v.len() { assert(w[k] == v[k] || (w[k] is Lit && v[k] is Lit)); if v[k] is Arg { assert(target(d, w, k) == target(c, v, k)); } }
            else if 0 <= k < w.len() { assert(w[k] is Lit); }
        }
        assert forall|t: Target| #[trigger] used(d, w, t) == used(c, v, t) by {
            if used(d, w, t) { let k = choose|k: int| refers(d, w, k, t); assert(refers(c, v, k, t)); }
            if used(c, v, t) { let k = choose|k: int| refers(c, v, k, t); assert(refers(d, w, k, t)); }
        }
        assert(all_there(d, w) == all_there(c, v)) by {
            if all_there(c, v) {
                assert forall|k: int| 0 <= k < w.len() && #[trigger] w[k] is Arg implies there(d, target(d, w, k)) by {
                    if k < v.len() { assert(w[k] == v[k] || (w[k] is Lit && v[k] is Lit)); assert(v[k] is Arg); }
                }
            }
            if all_there(d, w) {
                assert forall|k: int| 0 <= k < v.len() && #[trigger] v[k] is Arg implies there(c, target(c, v, k)) by { assert(w[k] == v[k] || (w[k] is Lit && v[k] is Lit)); assert(w[k] is Arg); }
            }
        }
        assert(pos_used(d, w) == pos_used(c, v)) by {
            if pos_used(d, w) { assert forall|i: nat| i < c.pos.len() implies #[trigger] used(c, v, Target::Pos(i)) by { assert(used(d, w, Target::Pos(i))); } }
            if pos_used(c, v) { assert forall|i: nat| i < c.pos.len() implies #[trigger] used(d, w, Target::Pos(i)) by { assert(used(c, v, Target::Pos(i))); } }
        }
        assert(named_used(d, w) == named_used(c, v)) by {
            if named_used(d, w) { assert forall|i: nat| i < c.names.len() implies #[trigger] used(c, v, Target::Named(i)) by { assert(used(d, w, Target::Named(i))); } }
            if named_used(c, v) { assert forall|i: nat| i < c.names.len() implies #[trigger] used(d, w, Target::Named(i)) by { assert(used(c, v, Target::Named(i))); } }
        }
        lemma_same_upto(c, v, w, v.len() as int);
        assert(v.take(v.len() as int) =~= v);
        if v.len() < w.len() { lemma_lits(d, w, v.len() as int); } else { assert(w.take(v.len() as int) =~= w); }
    }
    pub proof fn lemma_lits(c: Call, w: Seq<SPiece>, k: int)
        requires 0 <= k <= w.len(), forall|j: int| k <= j < w.len() ==> #[trigger] w[j] is Lit,
        ensures captured(c, w) == captured(c, w.take(k)),
        decreases w.len(),
    {
        if k < w.len() {
            let u = w.drop_last();
            assert(w[w.len() - 1] is Lit);
            assert forall|j: int| k <= j < u.len() implies #[trigger] u[j] is Lit by { assert(w[j] is Lit); }
            lemma_lits(c, u, k);
            assert(u.take(k) =~= w.take(k));
        } else { assert(w.take(k) =~= w); }
    }
    /// C16: format_args_nl accepts the calls format_args accepts, and its
    /// program renders the same pieces of the same arguments, and a newline.
    pub proof fn theorem_nl(c: Call)
        ensures
            accepts(nl_call(c)) == accepts(c),
            accepts(c) ==> ({
                let (v, w, d) = (p_format(c.fmt)->Ok_1, p_format(nl_call(c).fmt)->Ok_1, nl_call(c));
                &&& then_nl(v, w)
                &&& captured(d, w) == captured(c, v)
                &&& forall|k: int, e: Seq<Tok>, t: Seq<Tok>| 0 <= k < v.len() && v[k] == w[k] ==> #[trigger] statement(e, d, w, k, t) == statement(e, c, v, k, t)
            }),
    {
        hide(p_format);
        lemma_pieces_nl(c.fmt);
        if p_format(c.fmt) is Ok {
            let (v, w, d) = (p_format(c.fmt)->Ok_1, p_format(nl_call(c).fmt)->Ok_1, nl_call(c));
            assert(same_args(v, w));
            lemma_same_refers(c, v, w);
        }
    }
}
}
