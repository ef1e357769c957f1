//# module core_::formatter
    /// coercion of a writer to a writer object: same ghost view before and after
    #[verifier::external_body]
    pub fn vx_unsize<'a, W: Write>(w: &'a mut W) -> (r: &'a mut (dyn Write + 'a))
        ensures (*r).g() == (*old(w)).g(), (*final(r)).g() == (*final(w)).g(),
    { unimplemented!() }
    pub open spec fn fmt_default<'a>() -> FormatterArgs<'a> {
        FormatterArgs { align: None, sign: None, alternate: false, zero: false, width: None, precision: None, debug_hex: None }
    }
//# fn core_::formatter::<Default for FormatterArgs>::default
    ensures r == fmt_default(),
//# detrait core_::arguments::<core::fmt::Display for StdFmt<'_>>
//# detrait core_::arguments::<core::fmt::Debug for StdFmt<'_>>
//# detrait core_::arguments::<Display for StdFmtOther<'_>>
//# detrait core_::arguments::<Display for StdFmtDebug<'_>>
//# fn core_::arguments::<core::fmt::Display for StdFmt<'_>>::fmt
    ensures crate::sp_std::std_call(*self, *old(f), r, *final(f)),
//# fn core_::arguments::<core::fmt::Debug for StdFmt<'_>>::fmt
    ensures crate::sp_std::std_call(*self, *old(f), r, *final(f)),
//# fn core_::arguments::<Display for StdFmtOther<'_>>::fmt
    requires crate::sp_std::counts_ok(crate::sp_std::std_opts(old(f).format, false)),
    ensures
        wf((*old(f)).g(), r, (*final(f)).g(),
           fold((*old(f)).g().nx, (*old(f)).g().st,
                crate::sp_std::in_style(crate::sp_std::std_pieces(self.0, crate::sp_std::std_opts(old(f).format, false)), old(f).style)),
           crate::sp_std::std_fine(self.0, crate::sp_std::std_opts(old(f).format, false))),
        final(f).style == old(f).style,
        crate::sp_std::std_opts(final(f).format, true) == crate::sp_std::std_opts(old(f).format, true),
//# fn core_::arguments::<Display for StdFmtDebug<'_>>::fmt
    requires crate::sp_std::counts_ok(crate::sp_std::std_opts(old(f).format, true)),
    ensures
        wf((*old(f)).g(), r, (*final(f)).g(),
           fold((*old(f)).g().nx, (*old(f)).g().st,
                crate::sp_std::in_style(crate::sp_std::std_pieces(self.0, crate::sp_std::std_opts(old(f).format, true)), old(f).style)),
           crate::sp_std::std_fine(self.0, crate::sp_std::std_opts(old(f).format, true))),
        final(f).style == old(f).style,
        crate::sp_std::std_opts(final(f).format, true) == crate::sp_std::std_opts(old(f).format, true),
//# retrait core_::std_compat::<core::fmt::Write for StdProxy<'a, 'b>>
crate::sp_std::VxStdSink
//# impl core_::std_compat::<core::fmt::Write for StdProxy<'a, 'b>>
    #[verifier::prophetic]
    open spec fn g(&self) -> G {
        G { fin: Fin::Ref(Box::new((*final(self.0)).g()), self.0.style, Box::new((*self.0).g().fin)), ..(*self.0).g() }
    }
    open spec fn sty(&self) -> Style { self.0.style }
    open spec fn keep(&self) -> crate::sp_std::VxOpts { crate::sp_std::std_opts(self.0.format, true) }
    #[verifier::prophetic]
    open spec fn last(&self) -> (Style, crate::sp_std::VxOpts) { ((*final(self.0)).style, crate::sp_std::std_opts((*final(self.0)).format, true)) }
//# module core_::arguments
    impl<'a> StdFmt<'a> {
        #[verifier::external_body]
        pub fn vx_call_f(&self, f: &mut crate::shim::fmt::Formatter<'_>) -> (r: Result)
            ensures crate::sp_std::std_call(*self, *old(f), r, *final(f)),
        { unimplemented!() }
    }
    impl<'a> Arguments<'a> {
        /// what a compiled format string's closure does
        #[verifier::external_body]
        pub fn vx_call_f(&self, f: &mut Formatter<'_>) -> (r: Result)
            requires args_ok(*self),
            ensures
                wf((*old(f)).g(), r, (*final(f)).g(),
                   fold((*old(f)).g().nx, (*old(f)).g().st, args_render(*self, old(f).style)), args_fine(*self)),
                final(f).format == old(f).format,
        { unimplemented!() }
    }
    pub uninterp spec fn args_render(a: Arguments<'_>, style: Style) -> Seq<Chunk>;
    pub uninterp spec fn args_fine(a: Arguments<'_>) -> bool;
    pub uninterp spec fn args_ok(a: Arguments<'_>) -> bool;
//# impl core_::arguments::<Display for Arguments<'_>>
    open spec fn render(&self, style: Style) -> Seq<Chunk> { args_render(*self, style) }
    open spec fn fine(&self) -> bool { args_fine(*self) }
    open spec fn ok(&self) -> bool { args_ok(*self) }
//# trait core_::display::Display
    /// the pieces this value writes when displayed in a style
    spec fn render(&self, style: Style) -> Seq<Chunk>;
    /// formatting this value does not fail by itself
    spec fn fine(&self) -> bool;
    /// the value is well formed, so that displaying it cannot panic
    spec fn ok(&self) -> bool;
//# fn core_::display::Display::fmt
    requires self.ok(),
    ensures
        wf((*old(f)).g(), r, (*final(f)).g(),
           fold((*old(f)).g().nx, (*old(f)).g().st, self.render(old(f).style)), self.fine()),
        final(f).format == old(f).format,
//# impl core_::display::<Display for &T>
    open spec fn render(&self, style: Style) -> Seq<Chunk> { (**self).render(style) }
    open spec fn fine(&self) -> bool { (**self).fine() }
    open spec fn ok(&self) -> bool { (**self).ok() }
//# trait core_::write::Write
    #[verifier::prophetic]
    spec fn g(&self) -> G;
//# fn core_::write::Write::write_str
    ensures wr((*old(self)).g(), r, (*final(self)).g(), ((*old(self)).g().nx)((*old(self)).g().st, (vx_b(s), style))),
//# fn core_::write::Write::write_char
    ensures wr((*old(self)).g(), r, (*final(self)).g(), ((*old(self)).g().nx)((*old(self)).g().st, (c.vx_enc(), style))),
//# fn core_::write::Write::write_fmt
    requires args_ok(args),
    ensures (*old(self)).g().base == default_style() ==> wf((*old(self)).g(), r, (*final(self)).g(),
        fold((*old(self)).g().nx, (*old(self)).g().st, args_render(args, default_style())), args_fine(args)),
//# impl core_::write::<Write for &mut W>
    #[verifier::prophetic]
    open spec fn g(&self) -> G {
        G { fin: Fin::Ref(Box::new((*final(*self)).g()), (**self).g().base, Box::new((**self).g().fin)), ..(**self).g() }
    }
//# fn core_::formatter::Formatter::new
    ensures
        r.style == default_style(),
        r.format == fmt_default(),
        (*r.write).g() == (*old(write)).g(), (*final(r.write)).g() == (*final(write)).g(),
//# fn core_::formatter::Formatter::with
    ensures
        r.style == restyle.restyled(old(self).style),
        r.format == old(self).format,
        (*r.write).g() == (*old(self).write).g(), (*final(r.write)).g() == (*final(self).write).g(),
        final(self).style == old(self).style, final(self).format == old(self).format,
        (*final(final(self).write)).g() == (*final(old(self).write)).g(),
//# fn core_::formatter::Formatter::with_args
    ensures
        r.style == restyle.restyled(old(self).style),
        r.format == *format,
        (*r.write).g() == (*old(self).write).g(), (*final(r.write)).g() == (*final(self).write).g(),
        final(self).style == old(self).style, final(self).format == old(self).format,
        (*final(final(self).write)).g() == (*final(old(self).write)).g(),
//# fn core_::formatter::Formatter::write_str
    ensures
        wr((*old(self)).g(), r, (*final(self)).g(),
           ((*old(self)).g().nx)((*old(self)).g().st, (vx_b(s), old(self).style))),
        final(self).format == old(self).format, final(self).style == old(self).style,
//# fn core_::formatter::Formatter::write_fmt
    requires args_ok(args),
    ensures
        wf((*old(self)).g(), r, (*final(self)).g(),
           fold((*old(self)).g().nx, (*old(self)).g().st, args_render(args, old(self).style)), args_fine(args)),
        final(self).format == old(self).format,
//# impl core_::formatter::<Write for Formatter<'a>>
    #[verifier::prophetic]
    open spec fn g(&self) -> G {
        G { base: self.style, fin: Fin::Ref(Box::new((*final(self.write)).g()), (*self.write).g().base, Box::new((*self.write).g().fin)), ..(*self.write).g() }
    }
//# fn core_::formatter::<Write for Formatter<'a>>::write_str (also)
    ensures
        final(self).style == old(self).style, final(self).format == old(self).format,
//# fn core_::formatter::<Write for Formatter<'a>>::write_fmt (also)
    requires args_ok(args),
    ensures
        wf((*old(self)).g(), r, (*final(self)).g(),
           fold((*old(self)).g().nx, (*old(self)).g().st, args_render(args, old(self).style)), args_fine(args)),
        final(self).format == old(self).format,
//# detrait core_::formatter::<core::fmt::Write for Formatter<'a>>
//# fn core_::formatter::<core::fmt::Write for Formatter<'a>>::write_str
    ensures
        wr((*old(self)).g(), r, (*final(self)).g(),
           ((*old(self)).g().nx)((*old(self)).g().st, (vx_b(s), old(self).style))),
        final(self).format == old(self).format,
//# impl core_::string::<Write for String>
    #[verifier::prophetic]
    open spec fn g(&self) -> G {
        G {
            st: St { out: Seq::empty(), cur: default_style(), log: run_log(vstd::utf8::encode_utf8(self.string@), self.styles@) },
            nx: log_nx(), base: default_style(), fault: Fault::Fine, errs: Seq::empty(),
            inv: runs_ok(self.string@, self.styles@), fin: Fin::Owned,
        }
    }
//# fn core_::string::String::new
    ensures r.string@ == Seq::<char>::empty(), r.styles@ == Seq::<(usize, Style)>::empty(),
//# fn core_::string::<Default for String>::default
    ensures r.string@ == Seq::<char>::empty(), r.styles@ == Seq::<(usize, Style)>::empty(),
//# impl core_::string::<Display for String>
    open spec fn render(&self, style: Style) -> Seq<Chunk> { run_chunks(vstd::utf8::encode_utf8(self.string@), self.styles@) }
    open spec fn fine(&self) -> bool { true }
    open spec fn ok(&self) -> bool { runs_ok(self.string@, self.styles@) }
//# fn core_::format::format
    requires args_fine(args), args_ok(args),
    ensures
        r.g().inv,
        r.g().st.log == styled_all(args_render(args, default_style())),
//# module core_::to_string
    /// the arguments `format_args!("{:s}", value)` stands for
    #[verifier::external_body]
    pub fn vx_args_s<'a, T: Display + ?Sized>(t: &'a T) -> (r: crate::core_::Arguments<'a>)
        ensures
            forall|s: Style| #[trigger] args_render(r, s) == t.render(s),
            args_fine(r) == t.fine(), args_ok(r) == t.ok(),
    { unimplemented!() }
//# trait core_::to_string::ToStylishString
    /// what is displayed, and that displaying does not fail by itself
    spec fn pieces(&self) -> Seq<Chunk>;
    spec fn fine_(&self) -> bool;
    spec fn ok_(&self) -> bool;
//# fn core_::to_string::ToStylishString::to_stylish_string
    requires self.fine_(), self.ok_(),
    ensures
        r.g().inv,
        r.g().st.log == styled_all(self.pieces()),
//# impl core_::to_string::<ToStylishString for T>
    open spec fn pieces(&self) -> Seq<Chunk> { self.render(default_style()) }
    open spec fn fine_(&self) -> bool { self.fine() }
    open spec fn ok_(&self) -> bool { self.ok() }
//# trait core_::io::Write
    #[verifier::prophetic]
    spec fn g(&self) -> GI;
    proof fn law(&self)
        ensures monotone(self.g().nx), joins(self.g().nx);
//# fn core_::io::Write::write
    ensures io_wr((*old(self)).g(), buf@, style, r, (*final(self)).g()),
//# fn core_::io::Write::flush
    ensures io_flush((*old(self)).g(), r, (*final(self)).g()),
//# fn core_::io::Write::write_all
    ensures io_all((*old(self)).g(), buf@, style, r, (*final(self)).g()),
//# fn core_::io::Write::write_fmt
    requires args_ok(args),
    ensures io_fmt((*old(self)).g(), args_render(args, default_style()), args_fine(args), r, (*final(self)).g()),
//# fn core_::io::Write::by_ref
    ensures *r == *old(self), *final(r) == *final(self),
//# impl core_::io::<Write for &mut W>
    #[verifier::prophetic]
    open spec fn g(&self) -> GI {
        GI { fin: Fin::RefIo(Box::new((*final(*self)).g()), Box::new((**self).g().fin)), ..(**self).g() }
    }
    proof fn law(&self) { (**self).law(); }
//# fn core_::io::ErrorTrap::new
    ensures r.inner == inner, r.error is None,
//# fn core_::io::ErrorTrap::error
    ensures
        final(self).inner == old(self).inner,
        match old(self).error {
            Some(e) => r == e,
            None => kind(r) == ErrorKind::Other,
        },
//# impl core_::io::<crate::Write for ErrorTrap<W>>
    #[verifier::prophetic]
    open spec fn g(&self) -> G {
        G {
            st: self.inner.g().st, nx: skip_empty(self.inner.g().nx), base: default_style(),
            fault: match self.error { None => Fault::Fine, Some(e) => Fault::Io(e) },
            errs: self.inner.g().errs, inv: self.inner.g().inv,
            fin: Fin::Trap(self.inner.g().nx, self.inner.g().flushes, Box::new(self.inner.g().fin)),
        }
    }
//# pre core_::io::Write::write_fmt
proof { self.law(); lemma_skip_mono(self.g().nx); }
//# pre core_::format::format
proof { lemma_log_mono(); lemma_log_fold(St { out: Seq::empty(), cur: default_style(), log: Seq::empty() }, args_render(args, default_style())); }
//# pre core_::string::<Write for String>::write_str
proof {
    let ghost n = vstd::utf8::encode_utf8(self.string@).len();
    if runs_ok(self.string@, self.styles@) {
        if n <= usize::MAX {
            lemma_runs_append(self.string@, self.styles@, s@, style, self.styles@.push((n as usize, style)));
        }
        if self.styles@.len() > 0 && self.styles@.last().1 == style {
            lemma_runs_append(self.string@, self.styles@, s@, style, self.styles@);
        }
    }
}
//# attr core_::io::Write::write_all
#[verifier::exec_allows_no_decreases_clause]
#[verifier::loop_isolation(false)]
//# pre core_::io::Write::write_all
let ghost buf0 = buf@;
let ghost g0 = (*self).g();
proof { self.law(); assert(buf0.skip(0) =~= buf0); }
//# loop core_::io::Write::write_all 0
    invariant
        buf@ == buf0.skip(buf0.len() - buf@.len()), buf@.len() <= buf0.len(),
        buf0.len() == 0 ==> g0.inv ==> (*self).g().st == g0.st,
        monotone(g0.nx), joins(g0.nx), g0 == (*old(self)).g(),
        g0.inv ==> {
            let g = (*self).g();
            &&& g.inv && same_io(g0, g) && g.flushes == g0.flushes && only_intr(g0.errs, g.errs)
            &&& io_at(g0.nx, g0.st, buf0, style, buf0.len() - buf@.len(), g.st)
        },
//# loopbegin core_::io::Write::write_all 0
proof { lemma_origin(); lemma_io_step(g0.nx, g0.st, buf0, style, buf0.len() - buf@.len(), (*self).g().st); }
//# pre core_::string::<Display for String>::fmt
let ghost g0 = (*f).g();
let ghost y0 = f.style;
let ghost fmt0 = f.format;
let ghost cs = run_chunks(vstd::utf8::encode_utf8(self.string@), self.styles@);
proof { assert(cs.take(cs.len() as int) =~= cs); }
//# loop core_::string::<Display for String>::fmt 0
    invariant
        runs_ok(self.string@, self.styles@),
        cs == run_chunks(vstd::utf8::encode_utf8(self.string@), self.styles@),
        $it@.len() <= self.styles@.len(), cs.len() == self.styles@.len(), cs.take(cs.len() as int) == cs,
        $it@ == crate::shim::refs(self.styles@).skip(self.styles@.len() - $it@.len()),
        f.style == y0, f.format == fmt0, *final(f) == *final(old(f)), g0 == (*old(f)).g(), y0 == old(f).style, fmt0 == old(f).format,
        g0.inv && monotone(g0.nx) ==> {
            let g = (*f).g();
            &&& g.inv && same(g0, g) && g.fault == g0.fault && only_intr(g0.errs, g.errs)
            &&& g.st == fold(g0.nx, g0.st, cs.take(self.styles@.len() - $it@.len()))
        },
    ensures $it@.len() == 0,
        g0.inv && monotone(g0.nx) ==> (*f).g().st == fold(g0.nx, g0.st, cs),
    decreases $it@.len(),
//# loopbegin core_::string::<Display for String>::fmt 0
proof { 
    lemma_origin();
    lemma_fold_at(g0.nx, g0.st, cs, self.styles@.len() - $it@.len() - 1);
    lemma_cut_end(self.string@);
}
//# pre core_::arguments::<Display for Arguments<'_>>::fmt
proof { assert(self.ok() == args_ok(*self)); assert(self.fine() == args_fine(*self)); assert(self.render(f.style) == args_render(*self, f.style)); }
//# attr core_::arguments::<Display for StdFmtDebug<'_>>::fmt
#[verifier::rlimit(150)]
//# attr core_::arguments::<Display for StdFmtOther<'_>>::fmt
#[verifier::rlimit(60)]
