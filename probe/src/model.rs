//! Independent oracles: style algebra, a terminal, an HTML reader, programs
//! over the public formatting API with the text and styles they must produce.
use crate::Rng;
use stylish::{Background, Color, Foreground, Formatter, Intensity, Restyle, Style, StyleDiff};

pub const COLORS: [Color; 17] = [Color::Default, Color::Black, Color::Red, Color::Green, Color::Yellow, Color::Blue,
    Color::Magenta, Color::Cyan, Color::White, Color::BrightBlack, Color::BrightRed, Color::BrightGreen,
    Color::BrightYellow, Color::BrightBlue, Color::BrightMagenta, Color::BrightCyan, Color::BrightWhite];
pub const INTS: [Intensity; 3] = [Intensity::Normal, Intensity::Bold, Intensity::Faint];

pub fn style(f: Color, b: Color, i: Intensity) -> Style { let mut s = Style::default(); s.foreground = f; s.background = b; s.intensity = i; s }
pub fn plain_style() -> Style { style(Color::Default, Color::Default, Intensity::Normal) }
pub fn styles() -> Vec<Style> {
    let mut v = vec![];
    for f in COLORS { for b in COLORS { for i in INTS { v.push(style(f, b, i)) } } }
    v
}
pub fn diff(f: Option<Color>, b: Option<Color>, i: Option<Intensity>) -> StyleDiff { let mut d = StyleDiff::default(); d.foreground = f; d.background = b; d.intensity = i; d }
/// a handful of styles among which every kind of change happens
pub fn few() -> Vec<Style> {
    let (d, n) = (Color::Default, Intensity::Normal);
    vec![plain_style(), style(Color::Red, d, n), style(d, Color::Blue, n), style(d, d, Intensity::Bold), style(d, d, Intensity::Faint),
        style(Color::Red, Color::Blue, Intensity::Bold), style(Color::BrightRed, Color::Blue, Intensity::Faint), style(Color::Green, Color::BrightWhite, n)]
}
pub const ALPHA: [char; 22] = ['a', 'b', '<', '>', '&', '"', '\'', ' ', '\n', 'é', '世', '\u{10ffff}', '\u{0}', '\u{7f}', ';', '/', '=', '{', '}', '\r', '`', '#'];
/// texts that look like output; with control sequences where the property is not about terminals
pub static ESCAPES: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn special() -> Vec<&'static str> {
    let mut v = vec!["&lt;", "</span>", "<b>", "&#60;", "&amp", "&amp;", "<span style=color:red>", "{}", "%s", "\\n"];
    if ESCAPES.load(std::sync::atomic::Ordering::Relaxed) { v.extend(["\x1b[0m", "\x1b[1m", "\x1b[", "\x1b", "\x1b[0m\x1b[31m", "\x1b[39;49m", "0m"]) }
    v
}
pub fn text(r: &mut Rng) -> String {
    if r.below(16) == 0 { let v = special(); return (0..1 + r.below(3)).map(|_| *r.pick(&v)).collect() }
    let n = match r.below(12) { 0 => 0, 1 | 2 | 3 => 1, 10 => 20 + r.below(60), 11 => if r.below(8) == 0 { 200 + r.below(900) } else { 9 }, k => k };
    (0..n).map(|_| *r.pick(&ALPHA)).collect()
}
pub fn any_style(r: &mut Rng) -> Style {
    if r.below(3) == 0 { return *r.pick(&few()) }
    style(*r.pick(&COLORS), *r.pick(&COLORS), *r.pick(&INTS))
}

#[derive(Clone, Debug)]
pub enum Re { Fg(Color), Bg(Color), In(Intensity), St(Style), Df(StyleDiff), Unit, Opt(Option<Box<Re>>), Two(Box<Re>, Box<Re>), Three(Box<Re>, Box<Re>, Box<Re>), Slice(Vec<Re>), Ref(Box<Re>), Boxed(Box<Re>) }
impl Restyle for Re {
    fn apply(&self, s: Style) -> Style {
        match self {
            Re::Fg(c) => Foreground(*c).apply(s), Re::Bg(c) => Background(*c).apply(s), Re::In(i) => i.apply(s),
            Re::St(t) => t.apply(s), Re::Df(d) => d.apply(s), Re::Unit => ().apply(s),
            Re::Opt(None) => None::<Foreground>.apply(s), Re::Opt(Some(r)) => Some(&**r).apply(s),
            Re::Two(a, b) => (&**a, &**b).apply(s), Re::Three(a, b, c) => (&**a, &**b, &**c).apply(s),
            Re::Slice(v) => v[..].apply(s), Re::Ref(r) => (&&**r).apply(s), Re::Boxed(r) => Restyle::apply(r, s),
        }
    }
}
impl Re {
    pub fn model(&self, s: Style) -> Style {
        match self {
            Re::Fg(c) => style(*c, s.background, s.intensity), Re::Bg(c) => style(s.foreground, *c, s.intensity),
            Re::In(i) => style(s.foreground, s.background, *i), Re::St(t) => *t,
            Re::Df(d) => style(d.foreground.unwrap_or(s.foreground), d.background.unwrap_or(s.background), d.intensity.unwrap_or(s.intensity)),
            Re::Unit | Re::Opt(None) => s, Re::Opt(Some(r)) | Re::Ref(r) | Re::Boxed(r) => r.model(s),
            Re::Two(a, b) => b.model(a.model(s)), Re::Three(a, b, c) => c.model(b.model(a.model(s))),
            Re::Slice(v) => v.iter().fold(s, |s, r| r.model(s)),
        }
    }
    pub fn random(r: &mut Rng, depth: usize) -> Re {
        let k = r.below(if depth == 0 { 6 } else { 12 });
        let sub = |r: &mut Rng| Box::new(Re::random(r, depth.saturating_sub(1)));
        let oc = |r: &mut Rng| if r.below(2) == 0 { None } else { Some(*r.pick(&COLORS)) };
        match k {
            0 => Re::Fg(*r.pick(&COLORS)), 1 => Re::Bg(*r.pick(&COLORS)), 2 => Re::In(*r.pick(&INTS)), 3 => Re::St(any_style(r)),
            4 => { let (f, b) = (oc(r), oc(r)); let i = if r.below(2) == 0 { None } else { Some(*r.pick(&INTS)) }; Re::Df(diff(f, b, i)) }
            5 => Re::Unit, 6 => if r.below(3) == 0 { Re::Opt(None) } else { Re::Opt(Some(sub(r))) },
            7 => Re::Two(sub(r), sub(r)), 8 => Re::Three(sub(r), sub(r), sub(r)),
            9 => { let n = r.below(4); Re::Slice((0..n).map(|_| *sub(r)).collect()) } 10 => Re::Ref(sub(r)), _ => Re::Boxed(sub(r)),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    Text(String), Char(char), With(Re, Vec<Op>), Explicit(String, Style), ExplicitChar(char, Style), ExplicitArgs(Vec<Op>),
    Args(Vec<Op>), Attr(usize, Vec<Op>), Std(String), StdIn(usize, String), StdBy(usize, String), Core(String), Replay(Vec<Op>), By(Vec<Op>), Fail, Flags(usize),
}
pub struct Prog<'a>(pub &'a [Op]);
/// writes the format parameters it is given
pub struct Flags;
fn flags(f: &mut std::fmt::Formatter<'_>, n: &str) -> std::fmt::Result {
    let t = format!("{}{:?}{:?}{:?}{}{}{}{}", n, f.width(), f.precision(), f.align().map(|a| format!("{:?}", a)), f.sign_plus(), f.sign_minus(), f.alternate(), f.sign_aware_zero_pad());
    f.write_str(&t)
}
impl std::fmt::Display for Flags { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { flags(f, "d") } }
impl std::fmt::Debug for Flags { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { flags(f, "D") } }
macro_rules! flag_cases { ($($k:pat => $s:literal),*) => {
    fn put_flags(k: usize, f: &mut Formatter<'_>) -> stylish::Result { match k { $($k => stylish::write!(f, $s, Flags)),* } }
    fn want_flags(k: usize) -> String { match k { $($k => format!($s, Flags)),* } }
} }
flag_cases!(0 => "{}", 1 => "{:?}", 2 => "{:6}", 3 => "{:<.3}", 4 => "{:+#012.4?}", 5 => "{:0}", 6 => "{:^-7}", 7 => "{:.0?}", _ => "{:>#}");
pub type Chunk = (String, Style);

/// The styles of `Op::Attr(k, _)` as restyles.
pub fn attr(k: usize) -> Re {
    match k {
        0 | 4 => Re::Df(diff(Some(Color::Red), None, None)), 1 | 5 => Re::Df(diff(None, Some(Color::Default), Some(Intensity::Faint))),
        2 => Re::Df(diff(Some(Color::Default), Some(Color::Cyan), Some(Intensity::Normal))), _ => Re::Df(diff(None, None, Some(Intensity::Bold))),
    }
}
impl stylish::Display for Prog<'_> {
    fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
        for op in self.0 {
            match op {
                Op::Text(s) => f.write_str(s)?,
                Op::Char(c) => core::fmt::Write::write_char(f, *c)?,
                Op::With(r, ops) => { let mut g = f.with(r); stylish::Display::fmt(&Prog(ops), &mut g)? }
                Op::Explicit(s, st) => stylish::Write::write_str(f, s, *st)?,
                Op::ExplicitChar(c, st) => stylish::Write::write_char(f, *c, *st)?,
                Op::ExplicitArgs(ops) => stylish::Write::write_fmt(f, stylish::format_args!("{:s}", Prog(ops)))?,
                Op::Args(ops) => f.write_fmt(stylish::format_args!("{:s}", Prog(ops)))?,
                Op::Attr(0, ops) => stylish::write!(f, "{:(fg=red)s}", Prog(ops))?,
                Op::Attr(1, ops) => stylish::write!(f, "{:(bg=default,faint)s}", Prog(ops))?,
                Op::Attr(2, ops) => stylish::write!(f, "{:(normal,fg=default,bg=cyan)s}", Prog(ops))?,
                Op::Attr(4, ops) => stylish::write!(f, "{:>9.2(fg=red)s}", Prog(ops))?,
                Op::Attr(5, ops) => stylish::write!(f, "{:^+#06.1(bg=default,faint)s}", Prog(ops))?,
                Op::Attr(_, ops) => stylish::write!(f, "{:(bold)s}", Prog(ops))?,
                Op::Std(s) => stylish::write!(f, "[{}]", s)?,
                Op::StdIn(0, s) => stylish::write!(f, "{:(fg=red)}{}", s, s)?,
                Op::StdIn(_, s) => stylish::write!(f, "{:>3(bold)?}.", s)?,
                Op::StdBy(k, s) => match k / 6 {
                    0 => stylish::write!(f, "{}.", Odd(s, k % 6))?,
                    1 => stylish::write!(f, "{:#}.", Odd(s, k % 6))?,
                    2 => stylish::write!(f, "{:^+#9.2}.", Odd(s, k % 6))?,
                    3 => stylish::write!(f, "{:?}.", Odd(s, k % 6))?,
                    4 => stylish::write!(f, "{:#?}.", Odd(s, k % 6))?,
                    _ => stylish::write!(f, "{:<012.3x?}.", Odd(s, k % 6))?,
                },
                Op::Core(s) => core::fmt::Write::write_fmt(f, core::format_args!("{}-{}", s, 7))?,
                Op::Replay(ops) => { let s = stylish::format!("{:s}", Prog(ops)); stylish::Display::fmt(&s, f)? }
                Op::By(ops) => stylish::Display::fmt(&&&Prog(ops), f)?,
                Op::Fail => return Err(stylish::Error),
                Op::Flags(k) => put_flags(*k, f)?,
            }
        }
        Ok(())
    }
}
/// What the operations must produce in style `st`; false if one of them fails.
pub fn expect(ops: &[Op], st: Style, out: &mut Vec<Chunk>) -> bool {
    for op in ops {
        let ok = match op {
            Op::Text(s) => { out.push((s.clone(), st)); true }
            Op::Char(c) => { out.push((c.to_string(), st)); true }
            Op::With(r, ops) => expect(ops, r.model(st), out),
            Op::Explicit(s, t) => { out.push((s.clone(), *t)); true }
            Op::ExplicitChar(c, t) => { out.push((c.to_string(), *t)); true }
            Op::ExplicitArgs(ops) | Op::Args(ops) | Op::By(ops) => expect(ops, st, out),
            Op::Attr(k, ops) => expect(ops, attr(*k).model(st), out),
            Op::Std(s) => { out.push((format!("[{}]", s), st)); true }
            Op::StdIn(0, s) => { out.push((s.clone(), attr(0).model(st))); out.push((s.clone(), st)); true }
            Op::StdBy(k, s) => {
                let o = Odd(s, k % 6);
                out.push((match k / 6 {
                    0 => format!("{}.", o), 1 => format!("{:#}.", o), 2 => format!("{:^+#9.2}.", o),
                    3 => format!("{:?}.", o), 4 => format!("{:#?}.", o), _ => format!("{:<012.3x?}.", o),
                }, st));
                true
            }
            Op::StdIn(_, s) => { out.push((format!("{:>3?}", s), attr(3).model(st))); out.push((".".into(), st)); true }
            Op::Core(s) => { out.push((format!("{}-7", s), st)); true }
            Op::Replay(ops) => expect(ops, plain_style(), out),
            Op::Fail => false,
            Op::Flags(k) => { out.push((want_flags(*k), st)); true }
        };
        if !ok { return false }
    }
    true
}
pub fn ops(r: &mut Rng, depth: usize, fail: bool) -> Vec<Op> {
    let n = r.below(5);
    (0..n).map(|_| {
        let k = r.below(if depth == 0 { 10 } else { 16 });
        match if depth == 0 && k == 9 { 15 } else { k } {
            15 => Op::Flags(r.below(9)),
            0 | 1 => Op::Text(text(r)), 2 => Op::Char(*r.pick(&ALPHA)), 3 => Op::Explicit(text(r), any_style(r)),
            4 => Op::ExplicitChar(*r.pick(&ALPHA), any_style(r)), 5 => if r.below(3) == 0 { Op::StdBy(r.below(36), text(r)) } else { Op::Std(text(r)) }, 6 => Op::StdIn(r.below(2), text(r)), 7 => Op::Core(text(r)),
            8 => if fail && r.below(3) == 0 { Op::Fail } else { Op::Text(text(r)) },
            9 | 10 => { let re = Re::random(r, 2); Op::With(re, ops(r, depth - 1, fail)) } 11 => Op::Args(ops(r, depth - 1, fail)),
            12 => { let k = r.below(6); Op::Attr(k, ops(r, depth - 1, fail)) }
            13 => if r.below(2) == 0 { Op::Replay(ops(r, depth - 1, false)) } else { Op::By(ops(r, depth - 1, fail)) },
            _ => Op::ExplicitArgs(ops(r, depth - 1, fail)),
        }
    }).collect()
}
pub fn chunks(r: &mut Rng) -> Vec<Chunk> {
    let n = 1 + r.below(6);
    let mut st = any_style(r);
    (0..n).map(|_| { if r.below(3) > 0 { st = any_style(r) } (text(r), st) }).collect()
}
/// one entry per character: the shape in which written text is compared
pub fn flat(cs: &[Chunk]) -> Vec<(char, Style)> { cs.iter().flat_map(|(s, t)| s.chars().map(move |c| (c, *t))).collect() }
pub fn flat_ops(o: &[Op], st: Style) -> Option<Vec<(char, Style)>> { let mut v = vec![]; if expect(o, st, &mut v) { Some(flat(&v)) } else { None } }

// ---- the terminal ---------------------------------------------------------
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Term { pub fg: Color, pub bg: Color, pub bold: bool, pub faint: bool }
pub fn term0() -> Term { Term { fg: Color::Default, bg: Color::Default, bold: false, faint: false } }
pub fn shown(s: Style) -> Term { Term { fg: s.foreground, bg: s.background, bold: s.intensity == Intensity::Bold, faint: s.intensity == Intensity::Faint } }
const BASE: [Color; 8] = [Color::Black, Color::Red, Color::Green, Color::Yellow, Color::Blue, Color::Magenta, Color::Cyan, Color::White];
const BRIGHT: [Color; 8] = [Color::BrightBlack, Color::BrightRed, Color::BrightGreen, Color::BrightYellow, Color::BrightBlue, Color::BrightMagenta, Color::BrightCyan, Color::BrightWhite];
/// Reads one control sequence at the start of `s`: its parameters and length.
pub fn control(s: &[u8]) -> Result<(Vec<u32>, usize), String> {
    if s.len() < 2 || s[0] != 0x1b || s[1] != b'[' { return Err("an escape that opens no control sequence".into()) }
    let mut ps = vec![];
    let mut cur: Option<u32> = None;
    for (k, &b) in s.iter().enumerate().skip(2) {
        match b {
            b'0'..=b'9' => cur = Some(cur.unwrap_or(0).saturating_mul(10).saturating_add((b - b'0') as u32)),
            b';' => { ps.push(cur.unwrap_or(0)); cur = None }
            b'm' => { ps.push(cur.unwrap_or(0)); return Ok((ps, k + 1)) }
            _ => return Err(format!("control sequence with byte {:?}", b as char)),
        }
    }
    Err("unfinished control sequence".into())
}
pub fn sgr(t: Term, p: u32) -> Result<Term, String> {
    Ok(match p {
        0 => term0(), 1 => Term { bold: true, ..t }, 2 => Term { faint: true, ..t }, 22 => Term { bold: false, faint: false, ..t },
        30..=37 => Term { fg: BASE[p as usize - 30], ..t }, 39 => Term { fg: Color::Default, ..t }, 40..=47 => Term { bg: BASE[p as usize - 40], ..t },
        49 => Term { bg: Color::Default, ..t }, 90..=97 => Term { fg: BRIGHT[p as usize - 90], ..t }, 100..=107 => Term { bg: BRIGHT[p as usize - 100], ..t },
        _ => return Err(format!("unknown style parameter {}", p)),
    })
}
/// What a terminal in its default state shows for `out`, and its last state.
pub fn terminal(out: &str) -> Result<(Vec<(char, Term)>, Term), String> {
    let b = out.as_bytes();
    let (mut i, mut t, mut v) = (0, term0(), vec![]);
    while i < b.len() {
        if b[i] == 0x1b { let (ps, n) = control(&b[i..])?; for p in ps { t = sgr(t, p)? } i += n; continue }
        let c = out[i..].chars().next().unwrap();
        v.push((c, t)); i += c.len_utf8();
    }
    Ok((v, t))
}

// ---- the HTML reader ------------------------------------------------------
#[derive(Debug, PartialEq, Clone)]
pub enum Html { Open(Vec<(String, String)>), Close, Char(char) }
pub fn html(out: &str) -> Result<Vec<Html>, String> {
    let mut v = vec![];
    let mut s = out;
    while let Some(c) = s.chars().next() {
        match c {
            '<' => {
                let e = s.find('>').ok_or("a tag that is not closed")?;
                let t = &s[1..e];
                s = &s[e + 1..];
                if t == "/span" { v.push(Html::Close); continue }
                let a = t.strip_prefix("span style=").ok_or(format!("unknown tag <{}>", t))?;
                let a = a.strip_prefix('"').and_then(|a| a.strip_suffix('"')).unwrap_or(a);
                if a.is_empty() || a.contains(|c: char| " \t\n\"'`=<>&".contains(c)) { return Err(format!("malformed style attribute {:?}", a)) }
                let mut d = vec![];
                for p in a.split(';') {
                    let (k, x) = p.split_once(':').ok_or(format!("malformed declaration {:?}", p))?;
                    if k.is_empty() || x.is_empty() || x.contains(':') { return Err(format!("malformed declaration {:?}", p)) }
                    d.push((k.to_string(), x.to_string()));
                }
                v.push(Html::Open(d));
            }
            '>' | '"' | '\'' => return Err(format!("unescaped {:?} in the text", c)),
            '&' => {
                let e = s.find(';').ok_or("a character reference that does not end")?;
                let n = &s[1..e];
                let c = match n {
                    "lt" => '<', "gt" => '>', "amp" => '&', "quot" => '"', "apos" => '\'',
                    _ => {
                        let k = if let Some(h) = n.strip_prefix("#x").or(n.strip_prefix("#X")) { u32::from_str_radix(h, 16).ok() } else { n.strip_prefix('#').and_then(|d| d.parse().ok()) };
                        k.and_then(char::from_u32).ok_or(format!("unknown character reference &{};", n))?
                    }
                };
                v.push(Html::Char(c));
                s = &s[e + 1..];
            }
            c => { v.push(Html::Char(c)); s = &s[c.len_utf8()..] }
        }
    }
    Ok(v)
}

/// A std argument that reaches its formatter in each of the ways std offers.
pub struct Odd<'a>(pub &'a str, pub usize);
impl Odd<'_> {
    fn go(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        use core::fmt::Write;
        match self.1 {
            0 => self.0.chars().try_for_each(|c| f.write_char(c)),
            1 => { f.write_char('\n')?; f.write_str(self.0)?; f.write_char('\u{0}')?; f.write_char('\u{7f}')?; f.write_char('\u{ff}')?; f.write_char('\u{1f980}') }
            2 => { f.pad(self.0)?; f.write_fmt(format_args!("{:>4}{:?}", self.0, self.0))?; f.write_char('\t') }
            3 => { write!(f, "{}", self.0.len())?; f.pad_integral(self.0.len() % 2 == 0, "0x", "12") }
            4 => f.debug_struct("Odd").field("a", &self.0).field("b", &[1, 2]).finish(),
            _ => { let n = f.width().unwrap_or(1) + f.precision().unwrap_or(0) + f.alternate() as usize + f.sign_plus() as usize; for _ in 0..n { f.write_char(f.fill())?; f.write_str("")? } f.debug_list().entries(self.0.chars()).finish() }
        }
    }
}
impl core::fmt::Display for Odd<'_> { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { self.go(f) } }
impl core::fmt::Debug for Odd<'_> { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { self.go(f) } }
