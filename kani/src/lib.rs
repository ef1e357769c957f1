//! Kani harnesses for C10: the std-trait bridge of stylish-core, run as it is
//! (core::fmt included), for one combination of the enumerated flags per call
//! and every width, precision and surrounding style.
#![cfg(kani)]
#![allow(uncommon_codepoints)]
#![feature(formatting_options)]
use core::cell::Cell;
use core::fmt::Alignment;
use stylish_core::𓀄 as x;
use stylish_core::{Arguments, Display, Style, Write};
use stylish_style::{Background, Color, Foreground, Intensity};

struct Sink { calls: usize, ptr: *const u8, len: usize, style: Option<Style> }
impl Write for Sink {
    fn write_str(&mut self, s: &str, style: Style) -> core::fmt::Result {
        self.calls += 1;
        self.ptr = s.as_ptr();
        self.len = s.len();
        self.style = Some(style);
        Ok(())
    }
}
type Probe<'a> = dyn Fn(&mut core::fmt::Formatter<'_>) -> core::fmt::Result + 'a;
fn run_other(p: &Probe<'_>, f: &mut x::Formatter<'_>) -> core::fmt::Result { x::StdFmtOther(x::StdFmt { f: p }).fmt(f) }
fn run_debug(p: &Probe<'_>, f: &mut x::Formatter<'_>) -> core::fmt::Result { x::StdFmtDebug(x::StdFmt { f: p }).fmt(f) }
const TEXT: &str = "té";

fn combo(debug: bool, run: fn(&Probe<'_>, &mut x::Formatter<'_>) -> core::fmt::Result, a: u8, sg: u8, alternate: bool, zero: bool, hex: u8, hasw: bool, hasp: bool) {
    let width: usize = kani::any();
    let precision: usize = kani::any();
    kani::assume(width <= 0xffff && precision <= 0xffff);
    let (fg, bg, bold): (bool, bool, bool) = (kani::any(), kani::any(), kani::any());
    let want = Style::default().with((if fg { Some(Foreground(Color::Cyan)) } else { None }, if bg { Some(Background(Color::Red)) } else { None }, if bold { Some(Intensity::Bold) } else { None }));
    let diff = want.diff_from(Style::default());
    let args = x::FormatterArgs {
        align: match a { 0 => None, 1 => Some(x::Align::Left), 2 => Some(x::Align::Center), _ => Some(x::Align::Right) },
        sign: match sg { 0 => None, 1 => Some(x::Sign::Plus), _ => Some(x::Sign::Minus) },
        alternate,
        zero,
        width: if hasw { Some(&width) } else { None },
        precision: if hasp { Some(&precision) } else { None },
        debug_hex: match hex { 0 => None, 1 => Some(x::DebugHex::Lower), _ => Some(x::DebugHex::Upper) },
    };
    let calls = Cell::new(0u8);
    let probe = |f: &mut core::fmt::Formatter<'_>| -> core::fmt::Result {
        calls.set(calls.get() + 1);
        assert!(f.width() == if hasw { Some(width) } else { None }, "width");
        assert!(f.precision() == if hasp { Some(precision) } else { None }, "precision");
        assert!(f.alternate() == alternate, "alternate");
        assert!(f.sign_plus() == (sg == 1), "sign +");
        assert!(f.sign_minus() == (sg == 2), "sign -");
        assert!(f.sign_aware_zero_pad() == zero, "zero");
        assert!(f.fill() == ' ', "fill");
        match f.options().get_debug_as_hex() {
            None => assert!(!debug || hex == 0, "debug hex"),
            Some(core::fmt::DebugAsHex::Lower) => assert!(debug && hex == 1, "debug hex"),
            Some(core::fmt::DebugAsHex::Upper) => assert!(debug && hex == 2, "debug hex"),
        }
        match f.align() {
            None => assert!(a == 0, "align"),
            Some(Alignment::Left) => assert!(a == 1, "align"),
            Some(Alignment::Center) => assert!(a == 2, "align"),
            Some(Alignment::Right) => assert!(a == 3, "align"),
        }
        f.write_str(TEXT)
    };
    let mut s = Sink { calls: 0, ptr: core::ptr::null(), len: 0, style: None };
    let body = |fm: &mut x::Formatter<'_>| -> core::fmt::Result {
        let mut sub = x::Formatter::with_args(fm, &args, diff);
        run(&probe, &mut sub)
    };
    let r = s.write_fmt(Arguments { f: &body });
    assert!(r.is_ok(), "result");
    assert!(calls.get() == 1, "called once");
    assert!(s.calls == 1 && s.ptr == TEXT.as_ptr() && s.len == TEXT.len(), "output unchanged");
    assert!(s.style == Some(want), "current style");
}
fn any_below(n: u8) -> u8 { let v: u8 = kani::any(); kani::assume(v < n); v }
#[kani::proof]
#[kani::unwind(4)]
fn other() { combo(false, run_other, any_below(4), any_below(3), kani::any(), kani::any(), any_below(3), kani::any(), kani::any()); }
fn debug(align: u8) { combo(true, run_debug, align, any_below(3), kani::any(), kani::any(), any_below(3), kani::any(), kani::any()); }
#[kani::proof]
#[kani::unwind(4)]
fn debug_none() { debug(0) }
#[kani::proof]
#[kani::unwind(4)]
fn debug_left() { debug(1) }
#[kani::proof]
#[kani::unwind(4)]
fn debug_center() { debug(2) }
#[kani::proof]
#[kani::unwind(4)]
fn debug_right() { debug(3) }
