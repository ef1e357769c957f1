use crate::model::*;
use crate::{Rng, Run};

use std::io::Write as _;
use stylish::{Color, Foreground, Background, Intensity, Restyle, Style, ToAnsiString, ToHtmlString, ToPlainString, ToStylishString};

type R = Result<(), String>;
macro_rules! ensure { ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)) } } }

// ---- sinks ----------------------------------------------------------------
/// text sink that refuses its `at`-th call (once, or from then on)
pub struct Refuse { pub got: String, pub calls: usize, pub at: usize, pub once: bool, pub refused: usize, pub after: usize }
impl Refuse { pub fn new(at: usize, once: bool) -> Refuse { Refuse { got: String::new(), calls: 0, at, once, refused: 0, after: 0 } } }
impl std::fmt::Write for Refuse {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let k = self.calls;
        self.calls += 1;
        if k == self.at || (k > self.at && !self.once) { self.refused += 1; return Err(std::fmt::Error) }
        if k > self.at { self.after += 1 }
        self.got.push_str(s);
        Ok(())
    }
}
/// styled sink that records, and refuses its `at`-th call
pub struct Rec { pub got: Vec<Chunk>, pub calls: usize, pub at: usize, pub once: bool, pub after: usize }
impl Rec { pub fn new() -> Rec { Rec::refuse(usize::MAX, false) } pub fn refuse(at: usize, once: bool) -> Rec { Rec { got: vec![], calls: 0, at, once, after: 0 } } }
impl stylish::Write for Rec {
    fn write_str(&mut self, s: &str, style: Style) -> stylish::Result {
        let k = self.calls;
        self.calls += 1;
        if k == self.at || (k > self.at && !self.once) { return Err(stylish::Error) }
        if k > self.at { self.after += 1 }
        self.got.push((s.to_string(), style));
        Ok(())
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ans { Take(usize), All, Int, Zero, Err(std::io::ErrorKind) }
fn refusal(k: std::io::ErrorKind) -> std::io::Error { std::io::Error::new(k, "refused") }
#[derive(Clone, Debug)]
pub struct Sched { pub ans: Vec<Ans>, pub k: usize, pub got: Vec<u8>, pub styles: Vec<Style>, pub failed: Option<Ans>, pub log: Vec<(char, Vec<u8>)> }
impl Sched {
    pub fn new(ans: &[Ans]) -> Sched { Sched { ans: ans.to_vec(), k: 0, got: vec![], styles: vec![], failed: None, log: vec![] } }
    fn answer(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.log.push(('w', b.to_vec()));
        let a = self.ans.get(self.k).copied().unwrap_or(Ans::All);
        self.k += 1;
        match a {
            Ans::All => { self.got.extend(b); Ok(b.len()) }
            Ans::Take(n) => { let n = n.min(b.len()); self.got.extend(&b[..n]); Ok(n) }
            Ans::Int => Err(refusal(std::io::ErrorKind::Interrupted)),
            Ans::Zero => { if !b.is_empty() { self.failed = self.failed.or(Some(a)) } Ok(0) }
            Ans::Err(k) => { self.failed = self.failed.or(Some(a)); Err(refusal(k)) }
        }
    }
}
impl std::io::Write for Sched {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.answer(b) }
    fn flush(&mut self) -> std::io::Result<()> { self.log.push(('f', vec![])); if self.ans.get(self.k) == Some(&Ans::Err(std::io::ErrorKind::Other)) { return Err(refusal(std::io::ErrorKind::Other)) } Ok(()) }
}
/// the same schedule as a styled IO writer with the trait's own defaults
pub struct Styled(pub Sched);
impl stylish::io::Write for Styled {
    fn write(&mut self, b: &[u8], style: Style) -> std::io::Result<usize> {
        let n = self.0.answer(b)?;
        for _ in 0..n { self.0.styles.push(style) }
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { std::io::Write::flush(&mut self.0) }
}
const KINDS: [std::io::ErrorKind; 3] = [std::io::ErrorKind::Other, std::io::ErrorKind::BrokenPipe, std::io::ErrorKind::WouldBlock];
pub fn answers() -> Vec<Ans> { let mut v = vec![Ans::All, Ans::Take(1), Ans::Take(2), Ans::Take(3), Ans::Int, Ans::Zero]; v.extend(KINDS.map(Ans::Err)); v }
fn rand_sched(r: &mut Rng, fail: bool) -> Vec<Ans> {
    let n = r.below(14);
    (0..n).map(|_| match r.below(12) { 0..=2 => Ans::All, 3..=7 => Ans::Take(1 + r.below(6)), 8 | 9 => Ans::Int, 10 if fail => Ans::Zero, 11 if fail => Ans::Err(*r.pick(&KINDS)), _ => Ans::Take(1) }).collect()
}

// ---- shared enumerations --------------------------------------------------
/// every case of the write-history families: (name, complete?, history)
pub fn histories(run: &mut Run, mut g: impl FnMut(&[Chunk]) -> R) {
    let mut turn = 0usize;
    let again = run.prop != "C16";
    // each history with write_str, and again in another of the ways to write
    let mut f = |h: &[Chunk]| -> R {
        MODE.with(|m| m.set(0));
        g(h)?;
        if !again { return Ok(()) }
        turn += 1;
        let k = 1 + turn % (MODES.len() - 1);
        MODE.with(|m| m.set(k));
        let r = g(h).map_err(|e| format!("written {}: {}", MODES[k], e));
        MODE.with(|m| m.set(0));
        r
    };
    let all = styles();
    {
        let mut s = run.suite("style-pairs", true);
        for a in &all { for b in &all { let h = [("a".to_string(), *a), ("b".to_string(), *b)]; s.case(|| format!("{:?}", h), || f(&h)); } }
    }
    {
        let mut s = run.suite("texts", true);
        let ds = few();
        let base: Vec<String> = ALPHA.iter().map(|c| c.to_string()).chain(["", "ab"].map(String::from)).chain(special().into_iter().map(String::from)).collect();
        for x in &base { for y in &base { for (i, j) in [(0, 0), (0, 1), (1, 1), (1, 0), (1, 5), (5, 6)] {
            let h = [(x.clone(), ds[i]), (y.clone(), ds[j]), (format!("{}{}", x, y), ds[i])];
            s.case(|| format!("{:?}", h), || f(&h));
        } } }
    }
    {
        let mut s = run.suite("short-histories", true);
        let ds = &few()[..6];
        let ts = ["", "x", "é<"];
        let n = ts.len() * ds.len();
        for k in 0..n * n * n {
            let g = |k: usize| (ts[k % 3].to_string(), ds[k / 3 % 6]);
            let h = [g(k % n), g(k / n % n), g(k / n / n)];
            s.case(|| format!("{:?}", h), || f(&h));
        }
    }
    {
        let mut s = run.suite("lengths", true);
        let ds = few();
        let mut ns: Vec<usize> = (0..=130).collect();
        for p in [255, 511, 1023, 4095, 8191, 16383, 65535] { ns.extend([p, p + 1, p + 2]) }
        for n in ns { for c in ["a", "é", "&", "<'"] {
            let t = c.repeat(n);
            let h = [("x".to_string(), ds[1]), (t.clone(), ds[1]), (t.clone(), ds[5]), (t, ds[0])];
            s.case(|| format!("{:?}.repeat({}) in {:?}", c, n, [ds[1], ds[5], ds[0]]), || f(&h));
        } }
        for n in [1usize, 2, 7, 31, 100, 255, 256, 257, 600, 3000] {
            let h: Vec<Chunk> = (0..n).map(|k| (["p", "", "é", "<"][k % 4].to_string(), all[(k * 131 + k / 4) % all.len()])).collect();
            s.case(|| format!("history of {} writes over all styles", n), || f(&h));
        }
    }
    let seed = run.seed;
    let mut s = run.suite("random-histories", false);
    let mut r = Rng(seed);
    while s.left() {
        for _ in 0..200 { let h = chunks(&mut r); s.case(|| format!("{:?}", h), || f(&h)); }
        if s.n() >= 40_000 && !s.deep() { break }
    }
}
pub fn programs(run: &mut Run, fail: bool, quick: u64, mut f: impl FnMut(&[Op], &mut Rng) -> R) {
    let seed = run.seed;
    let mut s = run.suite("random-programs", false);
    let mut r = Rng(seed ^ 0x55);
    while s.left() {
        for k in 0..100 { let o = ops(&mut r, 1 + k % 3, fail); let mut r2 = Rng(r.next()); s.case(|| format!("{:?}", o), || f(&o, &mut r2)); }
        if s.n() >= quick && !s.deep() { break }
    }
}
fn no_esc(h: &[Chunk]) -> bool { h.iter().all(|(s, _)| !s.contains('\u{1b}')) }

pub fn run(prop: &str, run: &mut Run) {
    match prop {
        "C01" => c01(run), "C02" => c02(run), "C03" => c03(run), "C04" => c04(run), "C05" => c05(run), "C06" => c06(run), "C07" => c07(run),
        "C08" => c08(run), "C09" => c09(run), "C10" => c10(run), "C11" => c11(run), "C12" => c12(run), "C16" => c16(run),
        _ => { eprintln!("no suites for {}", prop); std::process::exit(2) }
    }
}

// ---- C01 ------------------------------------------------------------------
fn same(got: Style, want: Style, what: &str) -> R { ensure!(got.foreground == want.foreground && got.background == want.background && got.intensity == want.intensity && got == want, "{}: got {:?}, want {:?}", what, got, want); Ok(()) }
fn c01(run: &mut Run) {
    let all = styles();
    {
        let mut s = run.suite("diff-pairs", true);
        for a in &all { for b in &all {
            s.case(|| format!("diff of {:?} from {:?}", b, a), || {
                let d = b.diff_from(*a);
                let w = |c: bool| if c { "is" } else { "is not" };
                ensure!(d.foreground == if a.foreground != b.foreground { Some(b.foreground) } else { None }, "foreground of the diff is {:?}, the foreground {} the same", d.foreground, w(a.foreground == b.foreground));
                ensure!(d.background == if a.background != b.background { Some(b.background) } else { None }, "background of the diff is {:?}, the background {} the same", d.background, w(a.background == b.background));
                ensure!(d.intensity == if a.intensity != b.intensity { Some(b.intensity) } else { None }, "intensity of the diff is {:?}, the intensity {} the same", d.intensity, w(a.intensity == b.intensity));
                same(a.with(d), *b, "original restyled with the diff")
            });
        } }
    }
    {
        let mut s = run.suite("single-restyles", true);
        ensure_default(&mut s);
        for a in &all {
            let a = *a;
            let mut rs: Vec<Re> = COLORS.iter().flat_map(|c| [Re::Fg(*c), Re::Bg(*c)]).collect();
            rs.extend(INTS.map(Re::In));
            rs.extend([Re::Unit, Re::Opt(None), Re::Slice(vec![])]);
            for r in &rs { s.case(|| format!("{:?} applied to {:?}", r, a), || { same(r.apply(a), r.model(a), "apply")?; same(a.with(r.clone()), r.model(a), "with")?; same(a.with(r), r.model(a), "with reference")?; same(a.with(Some(r)), r.model(a), "with Some")?; same(a.with(Box::new(r.clone())), r.model(a), "with box")?; same(a.with(None::<Foreground>), a, "with None") }) }
        }
        for a in few() { for b in &all { let r = Re::St(*b); s.case(|| format!("{:?} applied to {:?}", r, a), || same(a.with(*b), *b, "whole style")) } }
        for a in &all {
            let a = *a;
            s.case(|| format!("types applied to {:?}", a), || {
                same(a.with((Foreground(Color::Red), Background(Color::Blue))), style(Color::Red, Color::Blue, a.intensity), "pair")?;
                same(a.with((Foreground(Color::Red), Foreground(Color::Green))), style(Color::Green, a.background, a.intensity), "pair, same attribute")?;
                same(a.with((Foreground(Color::Red), (), Intensity::Bold)), style(Color::Red, a.background, Intensity::Bold), "triple")?;
                same(a.with((Intensity::Faint, Foreground(Color::Cyan), Intensity::Bold)), style(Color::Cyan, a.background, Intensity::Bold), "triple, last wins")?;
                same(a.with(&[Foreground(Color::Red), Foreground(Color::Blue)][..]), style(Color::Blue, a.background, a.intensity), "slice")?;
                same(a.with(&Background(Color::Red)), style(a.foreground, Color::Red, a.intensity), "reference")?;
                let d: Box<dyn Restyle> = Box::new(Background(Color::Yellow));
                same(a.with(d), style(a.foreground, Color::Yellow, a.intensity), "boxed trait object")
            });
        }
    }
    {
        let mut s = run.suite("diffs-applied", true);
        let oc: Vec<Option<Color>> = std::iter::once(None).chain(COLORS.iter().copied().map(Some)).collect();
        let oi: Vec<Option<Intensity>> = std::iter::once(None).chain(INTS.iter().copied().map(Some)).collect();
        for a in few() { for f in &oc { for b in &oc { for i in &oi {
            let d = diff(*f, *b, *i);
            s.case(|| format!("{:?} applied to {:?}", d, a), || same(a.with(d), style(f.unwrap_or(a.foreground), b.unwrap_or(a.background), i.unwrap_or(a.intensity)), "diff applied"));
        } } } }
    }
    {
        let mut s = run.suite("pairs-of-restyles", true);
        let fs = few();
        let rs: Vec<Re> = vec![Re::Fg(Color::Red), Re::Fg(Color::Default), Re::Bg(Color::Red), Re::Bg(Color::BrightCyan), Re::In(Intensity::Bold), Re::In(Intensity::Normal), Re::Unit, Re::Opt(None), Re::St(fs[5]), Re::St(fs[0]), Re::Df(diff(Some(Color::Blue), None, Some(Intensity::Faint)))];
        for a in &fs { for x in &rs { for y in &rs { for z in &rs {
            let w = [Re::Two(Box::new(x.clone()), Box::new(y.clone())), Re::Three(Box::new(x.clone()), Box::new(y.clone()), Box::new(z.clone())), Re::Slice(vec![x.clone(), y.clone(), z.clone()])];
            for r in &w { s.case(|| format!("{:?} applied to {:?}", r, a), || same(r.apply(*a), r.model(*a), "apply")) }
        } } } }
    }
    let seed = run.seed;
    let mut s = run.suite("random-restyles", false);
    let mut r = Rng(seed);
    while s.left() {
        for _ in 0..500 { let re = Re::random(&mut r, 4); let a = any_style(&mut r); s.case(|| format!("{:?} applied to {:?}", re, a), || same(a.with(&re), re.model(a), "apply")); }
        if s.n() > 100_000 && !s.deep() { break }
    }
}
fn ensure_default(s: &mut crate::Suite) {
    s.case(|| "the default style".into(), || { same(Style::default(), plain_style(), "default")?; ensure!(stylish::StyleDiff::default() == diff(None, None, None), "default diff names something"); Ok(()) })
}

// ---- ANSI -----------------------------------------------------------------
thread_local! { static MODE: std::cell::Cell<usize> = const { std::cell::Cell::new(0) } }
const MODES: [&str; 8] = ["with write_str", "character by character with write_char", "its first character with write_char, the rest with write_str",
    "with write_str through a reference", "with write_str through a trait object", "as formatted arguments", "with write_char through references to a trait object", "each time through a new clone of the writer"];
/// one piece of text, written in one of the ways a writer offers
fn put(w: &mut impl stylish::Write, s: &str, t: Style, mode: usize) -> std::fmt::Result {
    use stylish::Write;
    fn by<X: Write + ?Sized>(mut w: &mut X, s: &str, t: Style) -> std::fmt::Result { <&mut X as Write>::write_str(&mut w, s, t) }
    fn by_char<X: Write + ?Sized>(mut w: &mut X, c: char, t: Style) -> std::fmt::Result { <&mut X as Write>::write_char(&mut w, c, t) }
    if s.is_empty() && matches!(mode, 1 | 2 | 6) { return w.write_str(s, t) }
    match mode {
        0 | 7 => w.write_str(s, t),
        1 => s.chars().try_for_each(|c| w.write_char(c, t)),
        2 => { let mut c = s.chars(); w.write_char(c.next().unwrap(), t)?; if c.as_str().is_empty() { Ok(()) } else { w.write_str(c.as_str(), t) } }
        3 => by(w, s, t),
        4 => { let d: &mut dyn Write = w; d.write_str(s, t) }
        5 => w.write_fmt(stylish::format_args!("{:s}", Prog(&[Op::Explicit(s.to_string(), t)]))),
        _ => { let d: &mut dyn Write = w; s.chars().try_for_each(|c| by_char(d, c, t)) }
    }
}
fn mode() -> usize { MODE.with(|m| m.get()) }
fn renew<W: Clone>(w: &mut W) { if mode() == 7 { let c = w.clone(); *w = c } }
fn write_all_chunks(w: &mut (impl stylish::Write + Clone), h: &[Chunk]) -> std::fmt::Result { let m = mode(); for (s, t) in h { renew(w); put(w, s, *t, m)? } renew(w); Ok(()) }
fn ansi_raw(h: &[Chunk], finish: bool) -> Result<String, String> {
    let sink = Text::default();
    let mut w = stylish::ansi(sink.clone());
    write_all_chunks(&mut w, h).map_err(|_| "write failed")?;
    if finish { w.finish().map_err(|_| "finish failed")?; } else { std::mem::drop(w) }
    let o = sink.0.borrow().clone();
    Ok(o)
}
fn on_terminal(out: &str, want: &[(char, Style)], finished: bool) -> R {
    let (v, t) = terminal(out).map_err(|e| format!("{}; output {:?}", e, out))?;
    let got: String = v.iter().map(|(c, _)| *c).collect();
    let text: String = want.iter().map(|(c, _)| *c).collect();
    ensure!(got == text, "the terminal shows the text {:?}, written was {:?}; output {:?}", got, text, out);
    for (k, ((c, a), (_, b))) in v.iter().zip(want).enumerate() { ensure!(*a == shown(*b), "character {} ({:?}) is shown as {:?}, written in {:?}; output {:?}", k, c, a, b, out) }
    if finished { ensure!(t == term0(), "after finish the terminal is in {:?}; output {:?}", t, out) }
    Ok(())
}
fn c02(run: &mut Run) {
    histories(run, |h| { debug_assert!(no_esc(h)); on_terminal(&ansi_raw(h, false)?, &flat(h), false)?; on_terminal(&ansi_raw(h, true)?, &flat(h), true) });
    programs(run, false, 12_000, |o, _| {
        let want = flat_ops(o, plain_style()).unwrap();
        let mut w = stylish::ansi(String::new());
        w.write_fmt(stylish::format_args!("{:s}", Prog(o))).map_err(|_| "write failed")?;
        on_terminal(&w.finish().map_err(|_| "finish failed")?, &want, true)?;
        on_terminal(&Prog(o).to_ansi_string(), &want, true)
    });
}
fn kinds(ps: &[u32]) -> Result<[bool; 3], String> {
    let mut k = [false; 3];
    for p in ps { match p { 30..=39 | 90..=97 => k[0] = true, 40..=49 | 100..=107 => k[1] = true, 1 | 2 | 22 => k[2] = true, _ => return Err(format!("parameter {} names no attribute", p)) } }
    Ok(k)
}
/// the control sequence between two texts: none, one reset, or one naming only changes
fn economy(ctl: &[u8], cur: Style, new: Style, out: &str) -> R {
    if cur == new { ensure!(ctl.is_empty(), "style unchanged, but {:?} emitted; output {:?}", String::from_utf8_lossy(ctl), out); return Ok(()) }
    ensure!(!ctl.is_empty(), "style changes from {:?} to {:?}, but no control sequence; output {:?}", cur, new, out);
    let (ps, n) = control(ctl)?;
    ensure!(n == ctl.len(), "more than one control sequence for one change: {:?}", String::from_utf8_lossy(ctl));
    if new == plain_style() { ensure!(ps == [0], "change to the default style is not a single full reset: {:?}; output {:?}", ps, out); return Ok(()) }
    let k = kinds(&ps).map_err(|e| format!("{}; output {:?}", e, out))?;
    let d = [cur.foreground != new.foreground, cur.background != new.background, cur.intensity != new.intensity];
    for i in 0..3 { ensure!(!k[i] || d[i], "change from {:?} to {:?} names an attribute that does not change: {:?}", cur, new, ps) }
    Ok(())
}
#[derive(Clone, Default)]
struct Text(std::rc::Rc<std::cell::RefCell<String>>);
impl std::fmt::Write for Text { fn write_str(&mut self, s: &str) -> std::fmt::Result { self.0.borrow_mut().push_str(s); Ok(()) } }
#[derive(Clone, Default)]
struct Shared(std::rc::Rc<std::cell::RefCell<Vec<u8>>>);
impl std::fmt::Write for Shared { fn write_str(&mut self, s: &str) -> std::fmt::Result { self.0.borrow_mut().extend(s.bytes()); Ok(()) } }
impl std::io::Write for Shared { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0.borrow_mut().extend(b); Ok(b.len()) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
fn put_io(w: &mut impl stylish::io::Write, s: &str, t: Style, mode: usize) -> std::io::Result<()> {
    use stylish::io::Write;
    fn by<X: Write + ?Sized>(mut w: &mut X, s: &str, t: Style) -> std::io::Result<()> { <&mut X as Write>::write_all(&mut w, s.as_bytes(), t) }
    match mode {
        1 | 6 => { let mut b = s.as_bytes(); while !b.is_empty() { let n = w.write(b, t)?; b = &b[n..] } Ok(()) }
        3 => by(w, s, t),
        4 => { let d: &mut dyn Write = w; d.write_all(s.as_bytes(), t) }
        5 => w.write_fmt(stylish::format_args!("{:s}", Prog(&[Op::Explicit(s.to_string(), t)]))),
        2 => w.by_ref().write_all(s.as_bytes(), t),
        _ => w.write_all(s.as_bytes(), t),
    }
}
fn ansi_steps(h: &[Chunk], io: bool) -> R {
    let md = mode();
    let split: Vec<Chunk>;
    let h = if !io && matches!(md, 1 | 6) { split = h.iter().flat_map(|(s, t)| if s.is_empty() { vec![(String::new(), *t)] } else { s.chars().map(|c| (c.to_string(), *t)).collect() }).collect(); &split[..] } else { h };
    let md = if md == 2 { 0 } else { md };
    let sink = Shared::default();
    let mut t = stylish::ansi(sink.clone());
    let mut i = stylish::io::ansi(sink.clone());
    let mut cur = plain_style();
    for (s, st) in h {
        if io && s.is_empty() { continue }
        renew(&mut t); renew(&mut i);
        let a = sink.0.borrow().len();
        if io {
            stylish::io::Write::flush(&mut i).map_err(|e| e.to_string())?;
            ensure!(sink.0.borrow().len() == a, "flushing emits {:?}", String::from_utf8_lossy(&sink.0.borrow()[a..]));
        }
        if io { put_io(&mut i, s, *st, md).map_err(|e| e.to_string())? } else { put(&mut t, s, *st, md).map_err(|e| e.to_string())? }
        let o = sink.0.borrow()[a..].to_vec();
        let os = String::from_utf8_lossy(&o).into_owned();
        if s.is_empty() { ensure!(o.is_empty(), "empty text emits {:?}", os); continue }
        ensure!(o.ends_with(s.as_bytes()), "output {:?} does not end with the text {:?}", os, s);
        economy(&o[..o.len() - s.len()], cur, *st, &os)?;
        cur = *st;
    }
    renew(&mut t); renew(&mut i);
    let a = sink.0.borrow().len();
    if io { i.finish().map_err(|e| e.to_string())?; } else { t.finish().map_err(|e| e.to_string())?; }
    let o = sink.0.borrow()[a..].to_vec();
    if cur == plain_style() { ensure!(o.is_empty(), "finish in the default style emits {:?}", String::from_utf8_lossy(&o)) } else { economy(&o, cur, plain_style(), "(finish)")? }
    Ok(())
}
fn c03(run: &mut Run) {
    histories(run, |h| { ansi_steps(h, false)?; ansi_steps(h, true) });
    let all = styles();
    let mut s = run.suite("escapes-in-text", true);
    for a in &few() { for b in &all { let h = [("\u{1b}[0m".to_string(), *a), ("\u{1b}".to_string(), *b), ("m".to_string(), *b)]; s.case(|| format!("{:?}", h), || { ansi_steps(&h, false)?; ansi_steps(&h, true) }) } }
}
fn starts(a: &[u8], b: &[u8]) -> bool { a.len() <= b.len() && a == &b[..a.len()] }
fn lossy(b: &[u8]) -> String { String::from_utf8_lossy(b).into_owned() }
/// formatted output of `h` through the IO writer over `ans`
fn ansi_io_fmt(h: &[Chunk], ans: &[Ans], split: bool) -> R {
    let h2: Vec<Chunk> = h.iter().filter(|c| !c.0.is_empty()).cloned().collect();
    let want = ansi_raw(&h2, true)?;
    let body = ansi_raw(&h2, false)?;
    let o: Vec<Op> = h.iter().map(|(s, t)| Op::Explicit(s.clone(), *t)).collect();
    let mut sink = Sched::new(ans);
    let mut w = stylish::io::ansi(&mut sink);
    let r = if split { o.iter().try_for_each(|o| w.write_fmt(stylish::format_args!("{:s}", Prog(std::slice::from_ref(o))))) } else { w.write_fmt(stylish::format_args!("{:s}", Prog(&o))) };
    let ok = r.is_ok();
    let fin = if ok { w.finish().is_ok() } else { false };
    let g = lossy(&sink.got);
    ensure!(starts(&sink.got, want.as_bytes()), "stream got {:?}, not a prefix of {:?}", g, want);
    if ok { ensure!(sink.got.len() >= body.len(), "success, but the stream got only {:?} of {:?}", g, body) }
    if fin { ensure!(sink.got == want.as_bytes(), "finished, but the stream got {:?}, want {:?}", g, want); ensure!(sink.failed.is_none(), "finished without an error although the stream answered {:?}", sink.failed) }
    else { ensure!(sink.failed.is_some(), "failed with {:?} although the stream answered no error", r) }
    Ok(())
}
fn ansi_io_single(h: &[Chunk], ans: &[Ans]) -> R {
    let sink = Shared2(std::rc::Rc::new(std::cell::RefCell::new(Sched::new(ans))));
    let mut w = stylish::io::ansi(sink.clone());
    let mut want: Vec<(char, Style)> = vec![];
    for (s, t) in h {
        if s.is_empty() { continue }
        let (a, nc) = { let b = sink.0.borrow(); (b.got.len(), b.log.len()) };
        let r = stylish::io::Write::write(&mut w, s.as_bytes(), *t);
        let b = sink.0.borrow();
        let d = &b.got[a..];
        let ctl = if d.first() == Some(&0x1b) { d.iter().position(|&c| c == b'm').map(|p| p + 1).unwrap_or(d.len()) } else { 0 };
        match r {
            Ok(n) => { ensure!(n == d.len() - ctl && n <= s.len() && &d[ctl..] == &s.as_bytes()[..n], "write of {:?} reports {} but the stream accepted {:?}", s, n, lossy(d)); want.extend(s.bytes().take(n).map(|c| (c as char, *t))) }
            Err(e) => {
                ensure!(d.len() == ctl, "write of {:?} fails ({}) but the stream accepted {:?}", s, e, lossy(d));
                ensure!(b.log.len() > nc, "write of {:?} fails without asking the stream", s);
                if e.kind() != std::io::ErrorKind::Interrupted { return Ok(()) }
            }
        }
    }
    let fin = w.finish().is_ok();
    let b = sink.0.borrow();
    if fin || b.failed.is_none() { on_terminal(&lossy(&b.got), &want, fin)? }
    Ok(())
}
#[derive(Clone)]
struct Shared2(std::rc::Rc<std::cell::RefCell<Sched>>);
impl std::io::Write for Shared2 { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0.borrow_mut().write(b) } fn flush(&mut self) -> std::io::Result<()> { std::io::Write::flush(&mut *self.0.borrow_mut()) } }
fn c04(run: &mut Run) {
    let ds = few();
    {
        let mut s = run.suite("schedules-of-5", true);
        let an = answers();
        let hs: Vec<Vec<Chunk>> = vec![
            vec![("ab".into(), ds[1]), ("c".into(), ds[5])], vec![("abc".into(), ds[0]), ("de".into(), ds[3]), ("f".into(), ds[0])],
            vec![("a".into(), ds[5]), ("".into(), ds[2]), ("bc".into(), ds[6])], vec![("é世".into(), ds[4]), ("x".into(), ds[4])]];
        let n = an.len();
        for (hi, h) in hs.iter().enumerate() { for k in 0..n.pow(if hi < 2 { 5 } else { 4 }) {
            let mut q = k;
            let ans: Vec<Ans> = (0..5).map(|_| { let a = an[q % n]; q /= n; a }).collect();
            s.case(|| format!("{:?} over a stream answering {:?}", h, ans), || { ansi_io_fmt(h, &ans, false)?; ansi_io_fmt(h, &ans, true)?; if hi < 3 { ansi_io_single(h, &ans)? } Ok(()) });
        } }
    }
    {
        // one disturbance at every position of the stream, for every kind of change
        let mut s = run.suite("one-disturbance-anywhere", true);
        for a in &ds { for b in &ds { for c in &ds { for d in [Ans::Int, Ans::Zero, Ans::Err(KINDS[0]), Ans::Take(1), Ans::Take(2)] { for at in 0..7 {
            let h = [("ab".to_string(), *a), ("cd".to_string(), *b), ("e".to_string(), *c)];
            let mut ans = vec![Ans::All; at]; ans.push(d);
            s.case(|| format!("{:?} over a stream answering {:?}", h, ans), || { ansi_io_fmt(&h, &ans, false)?; ansi_io_single(&h, &ans) });
        } } } } }
    }
    {
        let mut s = run.suite("all-styles", true);
        for a in &styles() { for b in &ds { for ans in [vec![Ans::Take(1); 40], vec![Ans::Int, Ans::Take(2), Ans::Int, Ans::Take(3), Ans::Int, Ans::Take(1), Ans::Int], vec![]] {
            let h = [("ab".to_string(), *a), ("cd".to_string(), *b), ("e".to_string(), *a)];
            s.case(|| format!("{:?} over a stream answering {:?}", h, ans), || { ansi_io_fmt(&h, &ans, false)?; ansi_io_single(&h, &ans) });
        } } }
    }
    let seed = run.seed;
    {
        let mut s = run.suite("empty-writes", true);
        for a in &ds { for b in &ds { for ans in [Ans::All, Ans::Zero, Ans::Int, Ans::Err(KINDS[0])] {
            s.case(|| format!("empty single write in {:?} after {:?}, stream answers {:?}", b, a, ans), || {
                let mut o = Sched::new(&[]);
                let mut w = stylish::io::ansi(&mut o);
                stylish::io::Write::write_all(&mut w, b"x", *a).map_err(|e| e.to_string())?;
                let n = stylish::io::Write::write(&mut w, b"", *b).map_err(|e| e.to_string())?;
                ensure!(n == 0, "reports {} bytes of an empty text", n);
                stylish::io::Write::write_all(&mut w, b"y", *b).map_err(|e| e.to_string())?;
                w.finish().map_err(|e| e.to_string())?;
                on_terminal(&lossy(&o.got), &[('x', *a), ('y', *b)], true)
            });
        } } }
    }
    let mut s = run.suite("random", false);
    let mut r = Rng(seed);
    while s.left() {
        for _ in 0..100 {
            let mut h = chunks(&mut r); let ans = rand_sched(&mut r, true);
            for c in h.iter_mut() { c.0.truncate(0); for _ in 0..r.below(9) { c.0.push(*r.pick(&['a', 'b', 'c', 'é', ' '])) } }
            let ascii: Vec<Chunk> = h.iter().map(|(s, t)| (s.replace('é', "e"), *t)).collect();
            s.case(|| format!("{:?} over a stream answering {:?}", h, ans), || { ansi_io_fmt(&h, &ans, false)?; ansi_io_fmt(&h, &ans, true)?; ansi_io_single(&ascii, &ans) });
        }
        if s.n() >= 30_000 && !s.deep() { break }
    }
}

// ---- HTML -----------------------------------------------------------------
fn html_raw(h: &[Chunk]) -> Result<String, String> {
    let mut w = if mode() == 7 { Default::default() } else { stylish::html(String::new()) };
    write_all_chunks(&mut w, h).map_err(|_| "write failed")?;
    w.finish().map_err(|_| "finish failed".into())
}
fn html_text(out: &str, want: &[(char, Style)]) -> R {
    let v = html(out).map_err(|e| format!("{}; output {:?}", e, out))?;
    let got: String = v.iter().filter_map(|x| if let Html::Char(c) = x { Some(*c) } else { None }).collect();
    let text: String = want.iter().map(|x| x.0).collect();
    ensure!(got == text, "a reader sees the text {:?}, written was {:?}; output {:?}", got, text, out);
    Ok(())
}
fn c05(run: &mut Run) {
    histories(run, |h| html_text(&html_raw(h)?, &flat(h)));
    programs(run, false, 12_000, |o, _| { let want = flat_ops(o, plain_style()).unwrap(); html_text(&Prog(o).to_html_string(), &want)?; html_text(&stylish::html::format!("{:s}", Prog(o)), &want) });
    let mut s = run.suite("characters", true);
    for c in (0..0x3000u32).chain((0x3000..0x110000).step_by(257)) { if let Some(c) = char::from_u32(c) {
        let h = [(c.to_string(), plain_style()), (format!("{}{}a{}", c, c, c), few()[1])];
        s.case(|| format!("{:?}", h), || html_text(&html_raw(&h)?, &flat(&h)));
    } }
}
type Decl = Vec<(String, String)>;
fn declared(st: Style) -> Result<Decl, String> {
    let o = html_raw(&[("x".into(), st)])?;
    match &html(&o)?[..] { [Html::Char('x')] => Ok(vec![]), [Html::Open(d), Html::Char('x'), Html::Close] => Ok(d.clone()), v => Err(format!("one text in {:?} reads as {:?}", st, v)) }
}
struct Table(Vec<(Style, (String, String))>);
fn table() -> Result<Table, String> {
    let (d, n) = (Color::Default, Intensity::Normal);
    let mut t: Vec<(Style, (String, String))> = vec![];
    let mut one = |st: Style, key: &str| -> R {
        let v = declared(st)?;
        ensure!(v.len() == 1 && v[0].0 == key, "{:?} is declared as {:?}, expected one declaration of {}", st, v, key);
        if let Some((o, _)) = t.iter().find(|x| x.1 == v[0]) { return Err(format!("{:?} and {:?} are both declared as {:?}", o, st, v[0])) }
        t.push((st, v[0].clone())); Ok(())
    };
    for c in &COLORS[1..] { one(style(*c, d, n), "color")?; one(style(d, *c, n), "background-color")? }
    for i in &INTS[1..] { one(style(d, d, *i), "font-weight")? }
    Ok(Table(t))
}
impl Table {
    fn of(&self, s: Style) -> Decl {
        let (d, n) = (Color::Default, Intensity::Normal);
        let mut v: Decl = [style(s.foreground, d, n), style(d, s.background, n), style(d, d, s.intensity)].iter().filter_map(|p| self.0.iter().find(|x| x.0 == *p).map(|x| x.1.clone())).collect();
        v.sort(); v
    }
}
fn spans(out: &str, want: &[(char, Style)], t: &Table) -> R {
    let v = html(out).map_err(|e| format!("{}; output {:?}", e, out))?;
    let mut open: Option<Decl> = None;
    let mut k = 0;
    let mut fresh_close: Option<Decl> = None; // the span closed since the last text
    let mut last: Option<Style> = None;
    for x in &v {
        match x {
            Html::Open(d) => { ensure!(open.is_none(), "a span opens inside another; output {:?}", out); let mut d = d.clone(); let n = d.len(); d.sort(); d.dedup(); ensure!(d.len() == n, "repeated declaration; output {:?}", out); open = Some(d) }
            Html::Close => { ensure!(open.is_some(), "a span closes that is not open; output {:?}", out); fresh_close = open.take() }
            Html::Char(c) => {
                ensure!(k < want.len() && want[k].0 == *c, "character {} is {:?}; output {:?}", k, c, out);
                let w = t.of(want[k].1);
                let o = open.clone().unwrap_or_default();
                ensure!(o == w && (open.is_some() == (want[k].1 != plain_style())), "character {} ({:?}), written in {:?}, is declared as {:?}, expected {:?}; output {:?}", k, c, want[k].1, o, w, out);
                if last == Some(want[k].1) { ensure!(fresh_close.is_none(), "a span is closed and reopened between texts of one style; output {:?}", out) }
                last = Some(want[k].1); fresh_close = None; k += 1;
            }
        }
    }
    ensure!(k == want.len(), "text missing; output {:?}", out);
    ensure!(open.is_none(), "a span stays open; output {:?}", out);
    Ok(())
}
fn c06(run: &mut Run) {
    let mut t = None;
    { let mut s = run.suite("declarations", true); s.case(|| "every single-attribute style".into(), || { t = Some(table()?); Ok(()) });
      if let Some(t) = &t { for st in styles() { s.case(|| format!("{:?}", st), || { let mut d = declared(st)?; d.sort(); ensure!(d == t.of(st), "{:?} is declared as {:?}, expected {:?}", st, d, t.of(st)); Ok(()) }) } } }
    let t = match t { Some(t) => t, None => return };
    histories(run, |h| spans(&html_raw(h)?, &flat(h), &t));
    programs(run, false, 12_000, |o, _| spans(&Prog(o).to_html_string(), &flat_ops(o, plain_style()).unwrap(), &t));
}

// ---- plain ----------------------------------------------------------------
fn c07(run: &mut Run) {
    histories(run, |h| {
        let want: String = h.iter().map(|c| &c.0[..]).collect();
        let mut w = if mode() == 7 { Default::default() } else { stylish::plain(String::new()) };
        write_all_chunks(&mut w, h).map_err(|_| "write failed")?;
        let got = w.into_inner();
        ensure!(got == want, "got {:?}, want {:?}", got, want);
        let mut s = Sched::new(&[]);
        let mut w = stylish::io::plain(&mut s);
        for (x, t) in h { put_io(&mut w, x, *t, mode()).map_err(|e| e.to_string())? }
        ensure!(s.got == want.as_bytes(), "IO got {:?}, want {:?}", lossy(&s.got), want);
        Ok(())
    });
    let an = answers();
    {
        let mut s = run.suite("io-pass-through", true);
        for st in few() { for a in &an { for b in &an { for t in ["", "a", "abc", "abcdef"] {
            let ans = [*a, *b];
            s.case(|| format!("{:?} in {:?} over a stream answering {:?}", t, st, ans), || {
                let (mut x, mut y) = (Sched::new(&ans), Sched::new(&ans));
                let (r1, r2, f1) = { let mut w = stylish::io::plain(&mut x); (stylish::io::Write::write(&mut w, t.as_bytes(), st), stylish::io::Write::write(&mut w, t.as_bytes(), st), stylish::io::Write::flush(&mut w)) };
                let e = (y.write(t.as_bytes()), y.write(t.as_bytes()), y.flush());
                let sh = |r: &std::io::Result<usize>| r.as_ref().map(|n| *n).map_err(|e| e.kind());
                ensure!(sh(&r1) == sh(&e.0) && sh(&r2) == sh(&e.1) && f1.is_ok() == e.2.is_ok() && x.log == y.log && x.got == y.got, "writes answer {:?} {:?} {:?}, the stream itself {:?}; calls {:?} vs {:?}", r1, r2, f1, e, x.log, y.log);
                let (mut x, mut y) = (Sched::new(&ans), Sched::new(&ans));
                let r = { let mut w = stylish::io::plain(&mut x); stylish::io::Write::write_all(&mut w, t.as_bytes(), st) };
                let e = y.write_all(t.as_bytes());
                ensure!(r.as_ref().map_err(|e| e.kind()) == e.as_ref().map_err(|e| e.kind()) && x.got == y.got, "write_all answers {:?} having sent {:?}, the stream itself {:?} {:?}", r, lossy(&x.got), e, lossy(&y.got));
                Ok(())
            });
        } } } }
        s.case(|| "flush alone".into(), || { let mut x = Sched::new(&[]); { let mut w = stylish::io::plain(&mut x); stylish::io::Write::flush(&mut w).map_err(|e| e.to_string())? } ensure!(x.log == [('f', vec![])], "flush is not passed on: {:?}", x.log); Ok(()) });
        s.case(|| "flush fails".into(), || { let mut x = Sched::new(&[Ans::Err(std::io::ErrorKind::Other)]); let mut w = stylish::io::plain(&mut x); ensure!(stylish::io::Write::flush(&mut w).is_err(), "a failed flush is reported as success"); Ok(()) });
    }
    programs(run, false, 12_000, |o, r| {
        let want: String = flat_ops(o, plain_style()).unwrap().iter().map(|c| c.0).collect();
        let g = Prog(o).to_plain_string();
        ensure!(g == want, "got {:?}, want {:?}", g, want);
        let ans = rand_sched(r, true);
        let mut x = Sched::new(&ans);
        let mut w = stylish::io::plain(&mut x);
        let ok = w.write_fmt(stylish::format_args!("{:s}", Prog(o))).is_ok();
        ensure!(starts(&x.got, want.as_bytes()) && ok == x.failed.is_none() && (!ok || x.got.len() == want.len()), "over {:?}: ok={}, got {:?}, want {:?}", ans, ok, lossy(&x.got), want);
        Ok(())
    });
}

// ---- C08 ------------------------------------------------------------------
fn replay(s: &stylish::String, want: &[(char, Style)], around: Style) -> R {
    let mut w = Rec::new();
    stylish::Write::write_fmt(&mut w, stylish::format_args!("{:s}", By(s, around))).map_err(|_| "replay failed")?;
    let got = flat(&w.got);
    ensure!(got == want, "replayed {:?}, written {:?}", w.got, want);
    Ok(())
}
struct By<'a>(&'a stylish::String, Style);
impl stylish::Display for By<'_> { fn fmt(&self, f: &mut stylish::Formatter<'_>) -> stylish::Result { stylish::Display::fmt(self.0, &mut f.with(self.1)) } }
fn c08(run: &mut Run) {
    let ds = few();
    let mut k = 0usize;
    histories(run, |h| {
        let mut s = stylish::String::new();
        write_all_chunks(&mut s, h).map_err(|_| "write failed")?;
        k += 1;
        let want = flat(h);
        replay(&s, &want, ds[k % ds.len()])?;
        let mut d = stylish::String::default();
        for (t, st) in h { for c in t.chars() { stylish::Write::write_char(&mut d, c, *st).map_err(|_| "write_char failed")? } }
        replay(&d.clone(), &want, ds[(k + 3) % ds.len()])
    });
    programs(run, true, 12_000, |o, r| {
        let mut want = vec![];
        let ok = expect(o, plain_style(), &mut want);
        let want = flat(&want);
        let mut s = stylish::String::new();
        let res = stylish::Write::write_fmt(&mut s, stylish::format_args!("{:s}", Prog(o)));
        ensure!(res.is_ok() == ok, "write answers {:?}", res);
        replay(&s, &want, any_style(r))?;
        let (at, once) = (r.below(6), r.below(2) == 0);
        let mut w = Rec::refuse(at, once);
        let res = stylish::Write::write_fmt(&mut w, stylish::format_args!("{:s}", s));
        let got = flat(&w.got);
        ensure!(res.is_err() == (w.calls > at), "destination refuses call {} of {}, display answers {:?}", at, w.calls, res);
        ensure!(got.len() <= want.len() && got[..] == want[..got.len()] && (res.is_err() || got.len() == want.len()), "destination got {:?}", w.got);
        if ok { let t = Prog(o).to_stylish_string(); replay(&t, &want, any_style(r))?; let u = s.to_stylish_string(); replay(&u, &want, any_style(r))? }
        Ok(())
    });
}

// ---- C09 ------------------------------------------------------------------
fn c09(run: &mut Run) {
    {
        let mut s = run.suite("scopes", true);
        let all = styles();
        for a in &few() { for b in &all {
            let o = [Op::Text("p".into()), Op::With(Re::St(*a), vec![Op::Text("q".into()), Op::With(Re::St(*b), vec![Op::Text("r".into()), Op::Args(vec![Op::Text("n".into()), Op::With(Re::Fg(Color::Red), vec![Op::Char('w')])])]), Op::Text("s".into()), Op::Explicit("x".into(), *b), Op::Text("y".into())]), Op::Text("t".into())];
            s.case(|| format!("{:?}", o), || scoped(&o));
        } }
    }
    programs(run, true, 40_000, |o, r| {
        scoped(o)?;
        let st = any_style(r);
        let w = [Op::With(Re::St(st), o.to_vec()), Op::Text("end".into())];
        scoped(&w)
    });
    {
        let mut s = run.suite("parameters-of-outer-arguments", true);
        for a in 0..6 { for b in 0..7 { for k in 0..9 {
            let inner = vec![Op::Flags(k), Op::Text("t".into())];
            let o = [Op::Attr(a, if b == 6 { inner } else { vec![Op::Flags((k + 1) % 9), Op::Attr(b, inner), Op::With(Re::In(Intensity::Bold), vec![Op::Flags(k)])] }), Op::Flags(k)];
            s.case(|| format!("{:?}", o), || scoped(&o));
        } } }
    }
    let mut s = run.suite("format-parameters", true);
    for st in few() { for k in 0..6 {
        s.case(|| format!("parameters {} kept by a formatter derived with {:?}", k, st), || {
            let seen = Params(st, std::cell::RefCell::new(Ok(())));
            let r = match k { 0 => stylish::plain::format!("{:s}", seen), 1 => stylish::plain::format!("{:>5s}", seen), 2 => stylish::plain::format!("{:<+#05.2s}", seen), 3 => stylish::plain::format!("{:^-7(fg=red)s}", seen), 4 => stylish::plain::format!("{:#.0(bold)s}", seen), _ => stylish::plain::format!("{:012(bg=blue,faint)s}", seen) };
            ensure!(r == "ok", "wrote {:?}", r);
            seen.1.into_inner()
        });
        #[cfg(feature = "hidden")]
        hidden::inherit(&mut s, st, k);
    } }
}
/// what a derived formatter's parameters look like, by its debug output
struct Params(Style, std::cell::RefCell<R>);
impl stylish::Display for Params {
    fn fmt(&self, f: &mut stylish::Formatter<'_>) -> stylish::Result {
        let a = format!("{:?}", f);
        let mut w = None;
        for st in few().into_iter().chain((0..4).map(|k| attr(k).model(plain_style()))).chain([style(Color::Default, Color::Blue, Intensity::Faint)]) { if a.contains(&format!("{:?}", st)) { w = Some(st) } }
        let b = { let g = f.with(self.0); let b = format!("{:?}", g); b };
        let c = format!("{:?}", f);
        if a != c { *self.1.borrow_mut() = Err(format!("the parent changed from {} to {}", a, c)) }
        if let Some(w) = w { let e = a.replace(&format!("{:?}", w), &format!("{:?}", self.0)); if e != b { *self.1.borrow_mut() = Err(format!("derived formatter is {}, expected {}", b, e)) } }
        f.write_str("ok")
    }
}
fn scoped(o: &[Op]) -> R {
    let mut want = vec![];
    let ok = expect(o, plain_style(), &mut want);
    let mut w = Rec::new();
    let r = stylish::Write::write_fmt(&mut w, stylish::format_args!("{:s}", Prog(o)));
    ensure!(r.is_ok() == ok, "answers {:?}, expected {}", r, if ok { "success" } else { "failure" });
    let (g, e) = (flat(&w.got), flat(&want));
    ensure!(g == e, "the writer got {:?}, expected {:?}", w.got, want);
    Ok(())
}

// ---- C10 (text and style only; the flags are the macro families' and Kani's) -
fn c10(run: &mut Run) {
    let seed = run.seed;
    let mut s = run.suite("std-output-in-the-current-style", false);
    let mut r = Rng(seed);
    while s.left() {
        for _ in 0..200 {
            let (t, st, k) = (text(&mut r), any_style(&mut r), r.below(2));
            let o = [Op::With(Re::St(st), vec![Op::Std(t.clone()), Op::StdIn(k, t.clone()), Op::Core(t.clone())]), Op::Std(t)];
            s.case(|| format!("{:?}", o), || scoped(&o));
        }
        if s.n() >= 20_000 && !s.deep() { break }
    }
    drop(s);
    let mut s = run.suite("std-output-however-it-is-written", false);
    while s.left() {
        for _ in 0..200 {
            let (t, st, k) = (text(&mut r), any_style(&mut r), r.below(36));
            let o = [Op::With(Re::St(st), vec![Op::StdBy(k, t.clone()), Op::Text(t.clone())]), Op::StdBy(k, t)];
            s.case(|| format!("{:?}", o), || scoped(&o));
        }
        if s.n() >= 40_000 && !s.deep() { break }
    }
}

// ---- C11 ------------------------------------------------------------------
fn c11(run: &mut Run) {
    let an = answers();
    let n = an.len();
    let st = few()[5];
    {
        let mut s = run.suite("write-all-schedules-of-5", true);
        for len in 0..6usize { for k in 0..n.pow(if len < 5 { 4 } else { 5 }) {
            let mut q = k;
            let ans: Vec<Ans> = (0..5).map(|_| { let a = an[q % n]; q /= n; a }).collect();
            let buf = &b"abcdef"[..len];
            s.case(|| format!("write_all of {:?} over {:?}", lossy(buf), ans), || { all_of(buf, &ans, st, false)?; all_of(buf, &ans, st, true)?; real_all(buf, &ans, st) });
        } }
    }
    {
        let mut s = run.suite("long-buffers", true);
        for len in [100usize, 255, 256, 4096, 8192, 65536, 70001] { for a in [vec![], vec![Ans::Take(1); 5], vec![Ans::Take(len / 2), Ans::Int, Ans::Take(1)], vec![Ans::Int; 300], vec![Ans::Take(len - 1), Ans::Zero], vec![Ans::Take(len - 1), Ans::Int, Ans::Err(KINDS[1])]] {
            let b: Vec<u8> = (0..len).map(|k| (k % 251) as u8).collect();
            s.case(|| format!("write_all of {} bytes over {:?}", len, &a[..a.len().min(8)]), || all_of(&b, &a, st, false));
        } }
    }
    {
        let mut s = run.suite("formatted-schedules-of-4", true);
        let hs: Vec<Vec<Op>> = vec![vec![Op::Text("ab".into()), Op::Explicit("cd".into(), few()[1])], vec![Op::Text("ab".into()), Op::Fail], vec![Op::Fail], vec![Op::Text("".into()), Op::Std("é".into()), Op::Text("z".into())], vec![Op::Text("abc".into()), Op::Core("q".into()), Op::Fail, Op::Text("no".into())], vec![]];
        for h in &hs { for k in 0..n.pow(4) {
            let mut q = k;
            let ans: Vec<Ans> = (0..4).map(|_| { let a = an[q % n]; q /= n; a }).collect();
            s.case(|| format!("{:?} over {:?}", h, ans), || { formatted(h, &ans)?; real_formatted(h, &ans) });
        } }
    }
    programs(run, true, 15_000, |o, r| { let a = rand_sched(r, true); formatted(o, &a).and_then(|_| real_formatted(o, &a)).map_err(|e| format!("over {:?}: {}", a, e)) });
}
fn err_is(e: &std::io::Error, failed: Option<Ans>, generic_ok: bool) -> R {
    match failed {
        Some(Ans::Err(k)) => ensure!(e.kind() == k && e.to_string() == "refused", "error {:?} is not the stream's {:?}", e, k),
        Some(Ans::Zero) => ensure!(e.kind() == std::io::ErrorKind::WriteZero, "error {:?} is not a write-zero error", e),
        _ => ensure!(generic_ok && e.to_string() != "refused" && e.kind() != std::io::ErrorKind::Interrupted, "error {:?} although no write failed", e),
    }
    Ok(())
}
fn all_of(buf: &[u8], ans: &[Ans], st: Style, by_ref: bool) -> R {
    let mut w = Styled(Sched::new(ans));
    let r = if by_ref { let mut m = &mut w; stylish::io::Write::write_all(&mut m, buf, st) } else { stylish::io::Write::write_all(&mut w, buf, st) };
    let g = &w.0.got;
    ensure!(starts(g, buf), "stream got {:?} of {:?}", lossy(g), lossy(buf));
    ensure!(w.0.styles.iter().all(|s| *s == st), "styles {:?}", w.0.styles);
    match &r {
        Ok(()) => ensure!(g == buf && w.0.failed.is_none(), "success, but the stream got {:?} of {:?} and answered {:?}", lossy(g), lossy(buf), w.0.failed),
        Err(e) => { err_is(e, w.0.failed, false)?; let last = ans.get(w.0.k - 1); ensure!(matches!(last, Some(Ans::Err(_)) | Some(Ans::Zero)), "the stream was asked again after failing") }
    }
    Ok(())
}
fn formatted(o: &[Op], ans: &[Ans]) -> R {
    let mut want = vec![];
    let ok = expect(o, plain_style(), &mut want);
    let bytes: Vec<(u8, Style)> = want.iter().flat_map(|(s, t)| s.bytes().map(move |b| (b, *t))).collect();
    let mut w = Styled(Sched::new(ans));
    let r = stylish::io::Write::write_fmt(&mut w, stylish::format_args!("{:s}", Prog(o)));
    let got: Vec<(u8, Style)> = w.0.got.iter().copied().zip(w.0.styles.iter().copied()).collect();
    ensure!(got.len() <= bytes.len() && got[..] == bytes[..got.len()], "the stream got {:?}, expected {:?}", lossy(&w.0.got), want);
    match &r {
        Ok(()) => ensure!(ok && got.len() == bytes.len() && w.0.failed.is_none(), "success, but the stream got {:?} of {:?}, answered {:?}, formatting {}", lossy(&w.0.got), want, w.0.failed, if ok { "succeeded" } else { "failed" }),
        Err(e) => { err_is(e, w.0.failed, !ok)?; if w.0.failed.is_some() { ensure!(matches!(ans.get(w.0.k - 1), Some(Ans::Err(_)) | Some(Ans::Zero)), "the stream was asked again after failing") } }
    }
    Ok(())
}

/// the same through the IO writers of the crates
fn real_io(what: &str, full: &[u8], ans: &[Ans], ok: bool, s: &Sched, r: &std::io::Result<()>) -> R {
    ensure!(starts(&s.got, full), "{}: stream got {:?} of {:?}", what, lossy(&s.got), lossy(full));
    match r {
        Ok(()) => ensure!(ok && s.got == full && s.failed.is_none(), "{}: success, but the stream got {:?} of {:?} and answered {:?}", what, lossy(&s.got), lossy(full), s.failed),
        Err(e) => { err_is(e, s.failed, !ok).map_err(|m| format!("{}: {}", what, m))?; if s.failed.is_some() { ensure!(matches!(ans.get(s.k - 1), Some(Ans::Err(_)) | Some(Ans::Zero)), "{}: the stream was asked again after failing", what) } }
    }
    Ok(())
}
fn through(ansi: bool, how: usize, s: &mut Sched, f: &mut dyn FnMut(&mut dyn stylish::io::Write) -> std::io::Result<()>) -> std::io::Result<()> {
    struct D<'a, W: ?Sized>(&'a mut W);
    impl<W: stylish::io::Write + ?Sized> stylish::io::Write for D<'_, W> {
        fn write(&mut self, b: &[u8], st: Style) -> std::io::Result<usize> { self.0.write(b, st) }
        fn flush(&mut self) -> std::io::Result<()> { self.0.flush() }
    }
    fn go<W: stylish::io::Write>(w: &mut W, how: usize, f: &mut dyn FnMut(&mut dyn stylish::io::Write) -> std::io::Result<()>) -> std::io::Result<()> {
        match how { 0 => f(w), 1 => { let mut m = w; f(&mut m) } _ => f(&mut D(w)) }
    }
    if ansi { go(&mut stylish::io::ansi(s), how, f) } else { go(&mut stylish::io::plain(s), how, f) }
}
fn real_all(buf: &[u8], ans: &[Ans], st: Style) -> R {
    for ansi in [false, true] { for how in 0..3 {
        let mut full = Sched::new(&[]); let _ = through(ansi, how, &mut full, &mut |w| w.write_all(buf, st));
        let mut s = Sched::new(ans); let r = through(ansi, how, &mut s, &mut |w| w.write_all(buf, st));
        real_io(if ansi { "ANSI" } else { "plain" }, &full.got, ans, true, &s, &r)?;
    } }
    Ok(())
}
fn real_formatted(o: &[Op], ans: &[Ans]) -> R {
    let mut want = vec![];
    let ok = expect(o, plain_style(), &mut want);
    for ansi in [false, true] { for how in 0..3 {
        let mut full = Sched::new(&[]); let r0 = through(ansi, how, &mut full, &mut |w| w.write_fmt(stylish::format_args!("{:s}", Prog(o))));
        ensure!(r0.is_ok() == ok, "over a stream that accepts everything: {:?}", r0);
        let mut s = Sched::new(ans); let r = through(ansi, how, &mut s, &mut |w| w.write_fmt(stylish::format_args!("{:s}", Prog(o))));
        real_io(if ansi { "ANSI" } else { "plain" }, &full.got, ans, ok, &s, &r)?;
    } }
    Ok(())
}

// ---- C12 ------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind { Ansi, Html, Plain }
enum W<'a> { A(stylish::Ansi<&'a mut Refuse>), H(stylish::Html<&'a mut Refuse>), P(stylish::Plain<&'a mut Refuse>) }
impl<'a> W<'a> {
    fn new(k: Kind, s: &'a mut Refuse) -> W<'a> { match k { Kind::Ansi => W::A(stylish::ansi(s)), Kind::Html => W::H(stylish::html(s)), Kind::Plain => W::P(stylish::plain(s)) } }
    fn w(&mut self) -> &mut dyn stylish::Write { match self { W::A(w) => w, W::H(w) => w, W::P(w) => w } }
    fn finish(self) -> std::fmt::Result { match self { W::A(w) => w.finish().map(|_| ()), W::H(w) => w.finish().map(|_| ()), W::P(w) => { w.into_inner(); Ok(()) } } }
}
/// runs `h` (one call per chunk, or one formatting call), stops at the first error
fn refused(k: Kind, h: &[Chunk], at: usize, once: bool, one: bool, how: usize) -> (Refuse, Option<usize>, Option<bool>) {
    let mut s = Refuse::new(at, once);
    let mut failed = None;
    let mut w = W::new(k, &mut s);
    if one {
        let o: Vec<Op> = h.iter().map(|(s, t)| Op::Explicit(s.clone(), *t)).collect();
        if w.w().write_fmt(stylish::format_args!("{:s}", Prog(&o))).is_err() { failed = Some(0) }
    } else { for (i, (x, t)) in h.iter().enumerate() { let r = match &mut w { W::A(w) => put(w, x, *t, how), W::H(w) => put(w, x, *t, how), W::P(w) => put(w, x, *t, how) }; if r.is_err() { failed = Some(i); break } } }
    let fin = if failed.is_none() { Some(w.finish().is_ok()) } else { std::mem::drop(w); None };
    (s, failed, fin)
}
thread_local! { static TURN: std::cell::Cell<usize> = const { std::cell::Cell::new(0) } }
fn c12_case(k: Kind, h: &[Chunk], most: usize) -> R {
    let other = TURN.with(|t| { t.set(t.get() + 1); 1 + t.get() % (MODES.len() - 1) });
    for (one, how) in [(false, 0), (true, 0), (false, other)] {
        let (full, failed, fin) = refused(k, h, usize::MAX, false, one, how);
        ensure!(failed.is_none() && fin == Some(true), "{:?}: fails over a sink that accepts everything", k);
        for at in 0..full.calls.min(most) { for once in [true, false] {
            let (s, failed, fin) = refused(k, h, at, once, one, how);
            let m = format!("{:?}, {}, sink refuses its call {} {}", k, if one { "one formatting" } else { MODES[how] }, at, if once { "once" } else { "from then on" });
            ensure!(s.refused > 0, "{}: the sink was asked only {} times, {} times when it accepts", m, s.calls, full.calls);
            ensure!(failed.is_some() || fin == Some(false), "{}: every call reports success; sink got {:?}", m, s.got);
            ensure!(s.after == 0 && s.calls == at + 1, "{}: {} more writes reach the sink after the refusal; sink got {:?}", m, s.calls - at - 1, s.got);
            ensure!(full.got.starts_with(&s.got), "{}: sink got {:?}, not a prefix of {:?}", m, s.got, full.got);
        } }
    }
    Ok(())
}
fn c12(run: &mut Run) {
    let ds = few();
    {
        let mut s = run.suite("every-refusal-of-short-histories", true);
        let ts = ["", "x", "é<&"];
        for k in [Kind::Ansi, Kind::Html, Kind::Plain] { for a in &ds { for b in &ds { for c in &ds { for t in 0..27 {
            let h = [(ts[t % 3].to_string(), *a), (ts[t / 3 % 3].to_string(), *b), (ts[t / 9].to_string(), *c)];
            s.case(|| format!("{:?} {:?}", k, h), || c12_case(k, &h, 60));
        } } } } }
    }
    {
        let mut s = run.suite("every-refusal-of-style-pairs", true);
        for k in [Kind::Ansi, Kind::Html] { for a in &ds { for b in &styles() { let h = [("a".to_string(), *a), ("b&".to_string(), *b)]; s.case(|| format!("{:?} {:?}", k, h), || c12_case(k, &h, 60)); } } }
    }
    {
        let mut s = run.suite("long-texts", true);
        for k in [Kind::Ansi, Kind::Html, Kind::Plain] { for n in [300usize, 1025, 4097] { let h = [("<a>&".repeat(n), ds[5]), ("é".repeat(n), ds[6])]; s.case(|| format!("{:?} {} characters", k, 4 * n), || c12_case(k, &h, 24)); } }
    }
    programs(run, true, 12_000, |o, r| {
        // through formatter, nested arguments and std formatting
        let mut want = vec![];
        let ok = expect(o, plain_style(), &mut want);
        let (at, once) = (r.below(12), r.below(2) == 0);
        let mut w = Rec::refuse(at, once);
        let res = stylish::Write::write_fmt(&mut w, stylish::format_args!("{:s}", Prog(o)));
        ensure!(res.is_err() == (w.calls > at || !ok), "styled sink refuses call {} of {}: answers {:?}", at, w.calls, res);
        ensure!(w.calls <= at + 1, "styled sink refuses call {}, and is asked {} times", at, w.calls);
        let (g, e) = (flat(&w.got), flat(&want));
        ensure!(g.len() <= e.len() && g[..] == e[..g.len()] && (res.is_err() || g.len() == e.len()), "sink got {:?}", w.got);
        let k = *r.pick(&[Kind::Ansi, Kind::Html, Kind::Plain]);
        c12_case(k, &want, 12)
    });
}

// ---- C16 ------------------------------------------------------------------
struct Line<'a>(&'a [Op], Style, usize);
impl stylish::Display for Line<'_> {
    fn fmt(&self, f: &mut stylish::Formatter<'_>) -> stylish::Result {
        let mut g = f.with(self.1);
        match self.2 { 0 => stylish::writeln!(g, "{:s}", Prog(self.0))?, 1 => { stylish::write!(g, "{:s}", Prog(self.0))?; stylish::writeln!(g)? } 2 => stylish::writeln!(g, "a{{{:(fg=red,bold)s}}}", Prog(self.0))?, _ => stylish::writeln!(&mut g, "{:s}{}", Prog(self.0), "")? }
        g.write_str("next")
    }
}
fn c16(run: &mut Run) {
    macro_rules! agree { ($a:expr, $($n:literal: $b:expr),* $(,)?) => {{ let a = $a; $( let b = $b; ensure!(b == a, "{} gives {:?}, the format macro {:?}", $n, b, a); )* }} }
    fn ways(o: &[Op]) -> R {
        let p = Prog(o);
        let wr = |e: std::fmt::Error| e.to_string();
        agree!(stylish::ansi::format!("{:s}", p),
            "the to-string method": p.to_ansi_string(), "format with arguments": stylish::ansi::format(stylish::format_args!("{:s}", p)),
            "writer and finish": { let mut w = stylish::ansi(String::new()); w.write_fmt(stylish::format_args!("{:s}", p)).map_err(wr)?; w.finish().map_err(wr)? },
            "the write macro": { let mut w = stylish::ansi(String::new()); stylish::write!(w, "{:s}", p).map_err(wr)?; w.finish().map_err(wr)? },
            "the trait's write_fmt": { let mut w = stylish::ansi(String::new()); stylish::Write::write_fmt(&mut w, stylish::format_args!("{:s}", p)).map_err(wr)?; w.finish().map_err(wr)? },
            "an intermediate styled string": stylish::ansi::format!("{:s}", stylish::format!("{:s}", p)),
            "an intermediate styled string's method": p.to_stylish_string().to_ansi_string(),
            "arguments as an argument": stylish::format_args!("{:s}", p).to_ansi_string());
        agree!(stylish::html::format!("{:s}", p),
            "the to-string method": p.to_html_string(), "format with arguments": stylish::html::format(stylish::format_args!("{:s}", p)),
            "writer and finish": { let mut w = stylish::html(String::new()); w.write_fmt(stylish::format_args!("{:s}", p)).map_err(wr)?; w.finish().map_err(wr)? },
            "an intermediate styled string": stylish::html::format!("{:s}", stylish::format!("{:s}", p)),
            "an intermediate styled string's method": p.to_stylish_string().to_html_string());
        agree!(stylish::plain::format!("{:s}", p),
            "the to-string method": p.to_plain_string(), "format with arguments": stylish::plain::format(stylish::format_args!("{:s}", p)),
            "writer": { let mut w = stylish::plain(String::new()); w.write_fmt(stylish::format_args!("{:s}", p)).map_err(wr)?; w.into_inner() },
            "IO writer": { let mut w = stylish::io::plain(vec![]); w.write_fmt(stylish::format_args!("{:s}", p)).map_err(|e| e.to_string())?; String::from_utf8(w.into_inner()).unwrap() },
            "an intermediate styled string": stylish::plain::format!("{:s}", stylish::format!("{:s}", p)),
            "an intermediate styled string's method": p.to_stylish_string().to_plain_string());
        // the IO writers deliver the bytes of the text writers
        let mut w = stylish::io::ansi(vec![]);
        w.write_fmt(stylish::format_args!("{:s}", p)).map_err(|e| e.to_string())?;
        let b = w.finish().map_err(|e| e.to_string())?;
        let mut want = vec![];
        expect(o, plain_style(), &mut want);
        let full: Vec<Chunk> = want.into_iter().filter(|c| !c.0.is_empty()).collect();
        let a = ansi_raw(&full, true)?;
        ensure!(b == a.as_bytes(), "the ANSI IO writer gives {:?}, the text writer {:?}", lossy(&b), a);
        Ok(())
    }
    fn lines(o: &[Op], st: Style, k: usize) -> R {
        let mut w = Rec::new();
        stylish::Write::write_fmt(&mut w, stylish::format_args!("{:s}", Line(o, st, k))).map_err(|_| "failed")?;
        let o2 = match k { 2 => vec![Op::Text("a{".into()), Op::With(Re::Two(Box::new(Re::Fg(Color::Red)), Box::new(Re::In(Intensity::Bold))), o.to_vec()), Op::Text("}".into())], _ => o.to_vec() };
        let o2 = [Op::With(Re::St(st), o2.into_iter().chain([Op::Text("\nnext".into())]).collect())];
        let want = flat_ops(&o2, plain_style()).unwrap();
        ensure!(flat(&w.got) == want, "line form {} wrote {:?}, expected {:?}", k, w.got, want);
        Ok(())
    }
    histories(run, |h| { let o: Vec<Op> = h.iter().map(|(s, t)| Op::Explicit(s.clone(), *t)).collect(); ways(&o) });
    programs(run, false, 8_000, |o, r| { ways(o)?; lines(o, any_style(r), r.below(4)) });
    let mut s = run.suite("lines", true);
    for st in few() { for k in 0..4 { for t in ["", "x", "x\n", "{", "\r\n", "é"] { let o = [Op::Text(t.into())]; s.case(|| format!("{:?} {:?} {}", o, st, k), || lines(&o, st, k)); } } }
    s.case(|| "writeln to writers".into(), || {
        let mut w = stylish::plain(String::new()); stylish::writeln!(w, "a{}", 1).map_err(|e| e.to_string())?; stylish::writeln!(w).map_err(|e| e.to_string())?; stylish::writeln!(w, "{0}", 2,).map_err(|e| e.to_string())?;
        let g = w.into_inner(); ensure!(g == "a1\n\n2\n", "got {:?}", g);
        let mut w = stylish::io::plain(vec![]); stylish::writeln!(w, "a{x}", x = 1).map_err(|e| e.to_string())?; stylish::writeln!(w,).map_err(|e| e.to_string())?;
        let g = lossy(&w.into_inner()); ensure!(g == "a1\n\n", "got {:?}", g);
        Ok(())
    });
}

#[cfg(feature = "hidden")]
mod hidden {
    use super::*;
    use stylish_core::𓀄 as x;
    /// a formatter with parameters, derived with `st`, formats an argument with them
    pub fn inherit(s: &mut crate::Suite, st: Style, k: usize) {
        s.case(|| format!("hidden: parameters {} inherited under {:?}", k, st), || {
            let (w, p) = (7 + k, k % 3);
            let args = x::FormatterArgs { align: match k % 4 { 0 => None, 1 => Some(x::Align::Left), 2 => Some(x::Align::Center), _ => Some(x::Align::Right) }, sign: if k % 2 == 0 { Some(x::Sign::Plus) } else { None }, alternate: k % 3 == 0, zero: k == 5, width: Some(&w), precision: if k > 2 { Some(&p) } else { None }, debug_hex: None };
            let seen = std::cell::RefCell::new(String::new());
            let look = |f: &mut std::fmt::Formatter<'_>| -> std::fmt::Result { seen.borrow_mut().push_str(&format!("{:?} {:?} {} {} {:?} {:?};", f.align().map(|a| format!("{:?}", a)), f.sign_plus(), f.alternate(), f.sign_aware_zero_pad(), f.width(), f.precision())); f.write_str("v") };
            let body = |f: &mut stylish::Formatter<'_>| -> stylish::Result {
                let mut g = f.with_args(&args, ());
                stylish::Display::fmt(&x::StdFmtOther(x::StdFmt { f: &look }), &mut g)?;
                { let mut h = g.with(st); stylish::Display::fmt(&x::StdFmtOther(x::StdFmt { f: &look }), &mut h)?; let mut i = h.with((Foreground(Color::Red), ())); stylish::Display::fmt(&x::StdFmtOther(x::StdFmt { f: &look }), &mut i)? }
                stylish::Display::fmt(&x::StdFmtOther(x::StdFmt { f: &look }), &mut g)
            };
            let mut rec = Rec::new();
            stylish::Write::write_fmt(&mut rec, stylish::Arguments { f: &body }).map_err(|_| "failed")?;
            let seen = seen.into_inner();
            let v: Vec<&str> = seen.split_terminator(';').collect();
            ensure!(v.len() == 4 && v.iter().all(|x| *x == v[0]), "parameters seen: {:?}", v);
            ensure!(v[0].contains(&format!("Some({})", w)), "parameters seen: {:?}, given width {}", v, w);
            let want = [('v', plain_style()), ('v', st), ('v', style(Color::Red, st.background, st.intensity)), ('v', plain_style())];
            ensure!(flat(&rec.got) == want, "wrote {:?}", rec.got);
            Ok(())
        });
    }
}
