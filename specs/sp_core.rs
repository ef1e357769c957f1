verus! {
/// names available to contracts in every extracted module
pub mod vxn {
    pub use crate::sp::*;
    pub use crate::sp_core::*;
    pub use crate::core_::{Arguments, Style, Display, Formatter};
    pub use crate::core_::write::Write;
    pub use crate::core_::arguments::{args_render, args_fine, args_ok};
    pub use crate::shim::io::{kind, ErrorKind};
    pub use crate::core_::to_string::vx_args_s;
}
pub mod sp_core {
    use vstd::prelude::*;
    use vstd::string::*;
    use vstd::utf8::*;
    use crate::sp::*;
    use crate::style::*;
    use crate::shim::io::{kind, Error, ErrorKind};

    /// a piece of text and the style it is written in
    pub type Chunk = (Seq<u8>, Style);

    /// what can be observed about a styled writer
    pub struct St {
        pub out: Seq<u8>,              // bytes sent to the sink below
        pub cur: Style,                // style the stream is in (ANSI, HTML)
        pub log: Seq<(u8, Style)>,     // styled bytes recorded (styled string)
    }
    pub type Nx = spec_fn(St, Chunk) -> St;

    /// why output stopped
    pub enum Fault { Fine, Text, Io(Error) }
    pub type Errs = Seq<Error>;

    /// ghost view of a text writer
    pub struct G {
        pub st: St,
        pub nx: Nx,          // what one write does to the state
        pub base: Style,     // style that formatted arguments start from
        pub fault: Fault,    // what the sink below reported
        pub errs: Errs,      // errors reported by an IO sink below, if any
        pub inv: bool,       // representation invariant
        pub fin: Fin,        // borrowed parts: their state when given back
    }
    /// ghost view of a styled IO writer
    pub struct GI {
        pub st: St,
        pub nx: Nx,
        pub errs: Errs,      // errors the stream reported
        pub flushes: nat,    // flushes passed on
        pub inv: bool,
        pub fin: Fin,
    }
    pub enum Fin {
        Owned,
        Ref(Box<G>, Style, Box<Fin>),
        RefIo(Box<GI>, Box<Fin>),
        Trap(Nx, nat, Box<Fin>),
    }

    pub open spec fn part(a: St, b: St) -> bool {
        a.out.is_prefix_of(b.out) && a.log.is_prefix_of(b.log)
    }
    pub open spec fn monotone(nx: Nx) -> bool {
        forall|st: St, c: Chunk| part(st, #[trigger] nx(st, c))
    }
    /// the effect of a sequence of writes
    pub open spec fn fold(nx: Nx, st: St, cs: Seq<Chunk>) -> St
        decreases cs.len(),
    {
        if cs.len() == 0 { st } else { fold(nx, nx(st, cs[0]), cs.skip(1)) }
    }
    pub proof fn lemma_fold_mono(nx: Nx, st: St, cs: Seq<Chunk>)
        requires monotone(nx),
        ensures part(st, fold(nx, st, cs)),
        decreases cs.len(),
    {
        if cs.len() > 0 {
            lemma_fold_mono(nx, nx(st, cs[0]), cs.skip(1));
            assert(part(st, nx(st, cs[0])));
        }
    }
    pub proof fn lemma_fold_cat(nx: Nx, st: St, a: Seq<Chunk>, b: Seq<Chunk>)
        ensures fold(nx, st, a + b) == fold(nx, fold(nx, st, a), b),
        decreases a.len(),
    {
        if a.len() > 0 {
            lemma_fold_cat(nx, nx(st, a[0]), a.skip(1), b);
            assert((a + b).skip(1) =~= a.skip(1) + b);
        } else {
            assert(a + b =~= b);
        }
    }

    /// one more piece of a sequence of writes
    pub proof fn lemma_fold_at(nx: Nx, st: St, cs: Seq<Chunk>, k: int)
        requires 0 <= k < cs.len(),
        ensures
            fold(nx, st, cs.take(k + 1)) == nx(fold(nx, st, cs.take(k)), cs[k]),
            monotone(nx) ==> part(st, fold(nx, st, cs.take(k))) && part(fold(nx, st, cs.take(k + 1)), fold(nx, st, cs)),
            forall|z: St| monotone(nx) && #[trigger] part(fold(nx, st, cs.take(k)), z) ==> part(st, z),
            forall|z: St| monotone(nx) && #[trigger] part(z, fold(nx, st, cs.take(k + 1))) ==> part(z, fold(nx, st, cs)),
    {
        assert(cs.take(k + 1) =~= cs.take(k) + seq![cs[k]]);
        lemma_fold_cat(nx, st, cs.take(k), seq![cs[k]]);
        let st1 = fold(nx, st, cs.take(k));
        assert(fold(nx, nx(st1, cs[k]), seq![cs[k]].skip(1)) == nx(st1, cs[k]));
        assert(cs =~= cs.take(k + 1) + cs.skip(k + 1));
        lemma_fold_cat(nx, st, cs.take(k + 1), cs.skip(k + 1));
        if monotone(nx) {
            lemma_fold_mono(nx, st, cs.take(k));
            lemma_fold_mono(nx, fold(nx, st, cs.take(k + 1)), cs.skip(k + 1));
        }
    }
    pub open spec fn same(a: G, b: G) -> bool {
        b.nx == a.nx && b.base == a.base && b.fin == a.fin
    }
    pub open spec fn faulted(a: G, b: G) -> bool {
        b.fault != Fault::Fine && (b.fault matches Fault::Io(e) ==> origin(a.errs, b.errs, e))
    }
    /// one write: all of it, or an error that comes from the sink, and a part of it
    pub open spec fn wr<E>(a: G, r: Result<(), E>, b: G, goal: St) -> bool {
        a.inv && monotone(a.nx) ==> b.inv && same(a, b) && match r {
            Ok(_) => b.st == goal && b.fault == a.fault && only_intr(a.errs, b.errs),
            Err(_) => part(a.st, b.st) && part(b.st, goal) && faulted(a, b),
        }
    }
    /// formatting: all of it, or an error and a part of it
    pub open spec fn wf<E>(a: G, r: Result<(), E>, b: G, goal: St, fine: bool) -> bool {
        a.inv && monotone(a.nx) ==> b.inv && same(a, b) && match r {
            Ok(_) => b.st == goal && b.fault == a.fault && only_intr(a.errs, b.errs),
            Err(_) => part(a.st, b.st) && part(b.st, goal)
                && (faulted(a, b) || (!fine && b.fault == a.fault && only_intr(a.errs, b.errs))),
        }
    }

    // ---- styled IO writers -----------------------------------------------
    pub open spec fn same_io(a: GI, b: GI) -> bool {
        b.nx == a.nx && b.fin == a.fin
    }
    /// one attempt at writing: a count of accepted bytes, or an error and no text
    pub open spec fn io_wr(a: GI, buf: Seq<u8>, style: Style, r: Result<usize, Error>, b: GI) -> bool {
        (r matches Ok(n) ==> n <= buf.len()) && (a.inv ==> b.inv && same_io(a, b) && b.flushes == a.flushes && match r {
            Ok(n) => b.st == (a.nx)(a.st, (buf.take(n as int), style)) && only_intr(a.errs, b.errs),
            Err(e) => {
                let sw = (a.nx)(a.st, (Seq::empty(), style));
                &&& part(a.st, b.st) && part(b.st, sw)
                &&& kind(e) == ErrorKind::Interrupted ==> b.st == sw
                &&& origin(a.errs, b.errs, e)
            },
        })
    }
    /// nothing is sent for an empty buffer
    pub open spec fn skip_empty(nx: Nx) -> Nx {
        |st: St, c: Chunk| if c.0.len() == 0 { st } else { nx(st, c) }
    }
    pub open spec fn io_all(a: GI, buf: Seq<u8>, style: Style, r: Result<(), Error>, b: GI) -> bool {
        let goal = skip_empty(a.nx)(a.st, (buf, style));
        a.inv ==> b.inv && same_io(a, b) && b.flushes == a.flushes && match r {
            Ok(_) => b.st == goal && only_intr(a.errs, b.errs),
            Err(e) => part(a.st, b.st) && part(b.st, goal) && kind(e) != ErrorKind::Interrupted && origin(a.errs, b.errs, e),
        }
    }
    pub open spec fn io_fmt(a: GI, cs: Seq<Chunk>, fine: bool, r: Result<(), Error>, b: GI) -> bool {
        let goal = fold(skip_empty(a.nx), a.st, cs);
        a.inv ==> b.inv && same_io(a, b) && b.flushes == a.flushes && match r {
            Ok(_) => b.st == goal && only_intr(a.errs, b.errs),
            Err(e) => part(a.st, b.st) && part(b.st, goal)
                && (origin(a.errs, b.errs, e) || (!fine && only_intr(a.errs, b.errs) && kind(e) == ErrorKind::Other)),
        }
    }
    pub open spec fn io_flush(a: GI, r: Result<(), Error>, b: GI) -> bool {
        a.inv ==> b.inv && same_io(a, b) && b.st == a.st && b.flushes == a.flushes + 1 && match r {
            Ok(_) => b.errs == a.errs,
            Err(e) => b.errs == a.errs.push(e),
        }
    }
    pub proof fn lemma_skip_mono(nx: Nx)
        requires monotone(nx),
        ensures monotone(skip_empty(nx)),
    {
        assert forall|st: St, c: Chunk| part(st, #[trigger] skip_empty(nx)(st, c)) by { assert(part(st, nx(st, c))); }
    }
    /// writing a text in two pieces is the same as writing it at once
    #[verifier::opaque]
    pub open spec fn joins(nx: Nx) -> bool {
        forall|st: St, a: Seq<u8>, b: Seq<u8>, y: Style| #[trigger] nx(nx(st, (a, y)), (b, y)) == nx(st, (a + b, y))
    }

    /// where a loop writing buf0 stands: k bytes are written, st is the state
    pub open spec fn io_at(nx: Nx, st0: St, buf0: Seq<u8>, y: Style, k: int, st: St) -> bool {
        0 <= k <= buf0.len() && ((k == 0 && st == st0) || st == nx(st0, (buf0.take(k), y)))
    }
    pub proof fn lemma_io_nx(nx: Nx, st0: St, buf0: Seq<u8>, y: Style, k: int, st: St, x: Seq<u8>)
        requires joins(nx), io_at(nx, st0, buf0, y, k, st),
        ensures nx(st, (x, y)) == nx(st0, (buf0.take(k) + x, y)),
    {
        reveal(joins);
        if k == 0 && st == st0 {
            assert(buf0.take(0) + x =~= x);
        } else {
            assert(nx(nx(st0, (buf0.take(k), y)), (x, y)) == nx(st0, (buf0.take(k) + x, y)));
        }
    }
    pub proof fn lemma_io_part(nx: Nx, st0: St, buf0: Seq<u8>, y: Style, j: int)
        requires monotone(nx), joins(nx), 0 <= j <= buf0.len(),
        ensures part(nx(st0, (buf0.take(j), y)), nx(st0, (buf0, y))),
    {
        reveal(joins);
        let s1 = nx(st0, (buf0.take(j), y));
        assert(buf0.take(j) + buf0.skip(j) =~= buf0);
        assert(nx(s1, (buf0.skip(j), y)) == nx(st0, (buf0.take(j) + buf0.skip(j), y)));
        assert(part(s1, nx(s1, (buf0.skip(j), y))));
    }
    pub proof fn lemma_io_n(nx: Nx, st0: St, buf0: Seq<u8>, y: Style, k: int, st: St, n: int)
        requires monotone(nx), joins(nx), io_at(nx, st0, buf0, y, k, st), 0 <= n <= buf0.len() - k,
        ensures
            io_at(nx, st0, buf0, y, k + n, nx(st, (buf0.skip(k).take(n), y))),
            part(nx(st, (buf0.skip(k).take(n), y)), nx(st0, (buf0, y))),
    {
        lemma_io_nx(nx, st0, buf0, y, k, st, buf0.skip(k).take(n));
        assert(buf0.take(k) + buf0.skip(k).take(n) =~= buf0.take(k + n));
        lemma_io_part(nx, st0, buf0, y, k + n);
    }
    pub proof fn lemma_part_trans()
        ensures forall|a: St, b: St, c: St| #[trigger] part(a, b) && #[trigger] part(b, c) ==> part(a, c),
    { }
    pub proof fn lemma_io_at(nx: Nx, st0: St, buf0: Seq<u8>, y: Style, k: int, st: St)
        requires monotone(nx), joins(nx), io_at(nx, st0, buf0, y, k, st),
        ensures io_step(nx, st0, buf0, y, k, st),
    {
        let e = Seq::<u8>::empty();
        let sw = nx(st, (e, y));
        let goal = nx(st0, (buf0, y));
        assert forall|n: int| 0 <= n <= buf0.len() - k implies io_at(nx, st0, buf0, y, k + n, #[trigger] nx(st, (buf0.skip(k).take(n), y)))
            && part(nx(st, (buf0.skip(k).take(n), y)), goal) by {
            lemma_io_n(nx, st0, buf0, y, k, st, n);
        }
        assert(buf0.skip(k).take(0) =~= e);
        lemma_io_n(nx, st0, buf0, y, k, st, 0);
        assert(part(sw, goal) && io_at(nx, st0, buf0, y, k, sw));
        assert(part(st, sw));
        assert(part(st0, st)) by { if k != 0 || st != st0 { assert(part(st0, nx(st0, (buf0.take(k), y)))); } }
        lemma_part_trans();
        if k == buf0.len() && k > 0 { assert(buf0.take(k) =~= buf0); }
        assert forall|n: int| #![trigger buf0.skip(k).skip(n)] 0 <= n <= buf0.len() - k implies buf0.skip(k).skip(n) =~= buf0.skip(k + n) by { }
    }
    pub open spec fn io_step(nx: Nx, st0: St, buf0: Seq<u8>, y: Style, k: int, st: St) -> bool {
        &&& part(st0, st)
        &&& forall|n: int| 0 <= n <= buf0.len() - k ==> io_at(nx, st0, buf0, y, k + n, #[trigger] nx(st, (buf0.skip(k).take(n), y)))
            && part(nx(st, (buf0.skip(k).take(n), y)), nx(st0, (buf0, y)))
        &&& forall|z: St| #[trigger] part(z, nx(st, (Seq::<u8>::empty(), y))) ==> part(z, nx(st0, (buf0, y)))
        &&& part(nx(st, (Seq::<u8>::empty(), y)), nx(st0, (buf0, y)))
        &&& io_at(nx, st0, buf0, y, k, nx(st, (Seq::<u8>::empty(), y)))
        &&& part(st, nx(st0, (buf0, y)))
        &&& forall|n: int| #![trigger buf0.skip(k).skip(n)] 0 <= n <= buf0.len() - k ==> buf0.skip(k).skip(n) =~= buf0.skip(k + n)
    }
    pub proof fn lemma_io_step(nx: Nx, st0: St, buf0: Seq<u8>, y: Style, k: int, st: St)
        ensures monotone(nx) && joins(nx) && io_at(nx, st0, buf0, y, k, st) ==> io_step(nx, st0, buf0, y, k, st),
    {
        if monotone(nx) && joins(nx) && io_at(nx, st0, buf0, y, k, st) { lemma_io_at(nx, st0, buf0, y, k, st); }
    }

    // ---- styled strings --------------------------------------------------
    /// styled bytes of a chunk
    pub open spec fn styled(c: Chunk) -> Seq<(u8, Style)> {
        Seq::new(c.0.len(), |i: int| (c.0[i], c.1))
    }
    pub open spec fn styled_all(cs: Seq<Chunk>) -> Seq<(u8, Style)>
        decreases cs.len(),
    {
        if cs.len() == 0 { Seq::empty() } else { styled(cs[0]) + styled_all(cs.skip(1)) }
    }
    pub open spec fn log_nx() -> Nx {
        |st: St, c: Chunk| St { log: st.log + styled(c), ..st }
    }
    pub proof fn lemma_log_mono()
        ensures monotone(log_nx()),
    { }
    pub proof fn lemma_log_fold(st: St, cs: Seq<Chunk>)
        ensures fold(log_nx(), st, cs) == (St { log: st.log + styled_all(cs), ..st }),
        decreases cs.len(),
    {
        if cs.len() > 0 {
            let st1 = log_nx()(st, cs[0]);
            lemma_log_fold(st1, cs.skip(1));
            assert(st.log + styled_all(cs) =~= st1.log + styled_all(cs.skip(1)));
        } else {
            assert(st.log + styled_all(cs) =~= st.log);
        }
    }
    /// style of byte i given the run table
    pub open spec fn style_at(runs: Seq<(usize, Style)>, i: int) -> Style
        decreases runs.len(),
    {
        if runs.len() == 0 { default_style() }
        else if runs.last().0 <= i { runs.last().1 }
        else { style_at(runs.drop_last(), i) }
    }
    pub open spec fn run_log(b: Seq<u8>, runs: Seq<(usize, Style)>) -> Seq<(u8, Style)> {
        Seq::new(b.len(), |i: int| (b[i], style_at(runs, i)))
    }
    pub open spec fn runs_ok(c: Seq<char>, runs: Seq<(usize, Style)>) -> bool {
        let b = encode_utf8(c);
        &&& b.len() > 0 ==> runs.len() > 0 
        &&& runs.len() > 0 ==> runs[0].0 == 0
        &&& forall|i: int| 0 <= i < runs.len() ==> (#[trigger] runs[i]).0 <= b.len() && char_cut(c, runs[i].0 as int)
        &&& forall|i: int, j: int| 0 <= i < j < runs.len() ==> (#[trigger] runs[i]).0 <= (#[trigger] runs[j]).0
    }
    pub proof fn lemma_cut_grow(c: Seq<char>, d: Seq<char>, i: int)
        requires char_cut(c, i),
        ensures char_cut(c + d, i),
    {
        let k = choose|k: int| 0 <= k <= c.len() && i == (#[trigger] encode_utf8(c.take(k))).len();
        assert((c + d).take(k) =~= c.take(k));
    }
    pub proof fn lemma_cut_end(c: Seq<char>)
        ensures char_cut(c, encode_utf8(c).len() as int), char_cut(c, 0),
    {
        assert(c.take(c.len() as int) =~= c);
        assert(encode_utf8(c.take(c.len() as int)).len() == encode_utf8(c).len());
        assert(encode_utf8(c.take(0)).len() == 0);
    }
    pub proof fn lemma_style_below(runs: Seq<(usize, Style)>, n: usize, y: Style, i: int)
        requires i < n,
        ensures style_at(runs.push((n, y)), i) == style_at(runs, i),
    {
        assert(runs.push((n, y)).drop_last() =~= runs);
    }
    /// appending text keeps the run table and the styled bytes right, whether
    /// the last run goes on or a new one starts at the end of the text
    pub proof fn lemma_runs_append(c: Seq<char>, runs: Seq<(usize, Style)>, d: Seq<char>, y: Style, runs2: Seq<(usize, Style)>)
        requires
            runs_ok(c, runs),
            (runs.len() > 0 && runs.last().1 == y && runs2 == runs)
                || (encode_utf8(c).len() <= usize::MAX && runs2 == runs.push((encode_utf8(c).len() as usize, y))),
        ensures
            runs_ok(c + d, runs2),
            encode_utf8(c + d) == encode_utf8(c) + encode_utf8(d),
            run_log(encode_utf8(c + d), runs2) == run_log(encode_utf8(c), runs) + styled((encode_utf8(d), y)),
    {
        let b = encode_utf8(c);
        encode_utf8_concat(c, d);
        lemma_cut_end(c);
        assert forall|i: int| 0 <= i < runs2.len() implies (#[trigger] runs2[i]).0 <= encode_utf8(c + d).len() && char_cut(c + d, runs2[i].0 as int) by {
            if i < runs.len() { assert(runs[i] == runs2[i]); }
            assert(char_cut(c, runs2[i].0 as int));
            lemma_cut_grow(c, d, runs2[i].0 as int);
        }
        if runs2 != runs {
            assert forall|i: int| 0 <= i < b.len() implies style_at(runs2, i) == style_at(runs, i) by {
                lemma_style_below(runs, runs2.last().0, y, i);
            }
        }
        assert(runs2.last().0 <= b.len() && runs2.last().1 == y);
        assert(run_log(encode_utf8(c + d), runs2) =~= run_log(b, runs) + styled((encode_utf8(d), y)));
    }
    pub open spec fn run_end(b: Seq<u8>, runs: Seq<(usize, Style)>, i: int) -> int {
        if i + 1 < runs.len() { runs[i + 1].0 as int } else { b.len() as int }
    }
    pub open spec fn run_chunks(b: Seq<u8>, runs: Seq<(usize, Style)>) -> Seq<Chunk> {
        Seq::new(runs.len(), |i: int| (b.subrange(runs[i].0 as int, run_end(b, runs, i)), runs[i].1))
    }
}
}
