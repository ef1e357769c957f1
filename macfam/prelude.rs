#![allow(unused, uncommon_codepoints, non_snake_case)]
use std::cell::RefCell;
use std::fmt;
use stylish::{Background, Color, Foreground, Intensity, Restyle, Style, ToAnsiString, ToHtmlString, ToPlainString};
type R = Result<(), String>;
type Chunk = (String, Style);
pub struct Rec(Vec<(char, Style)>);
impl stylish::Write for Rec { fn write_str(&mut self, s: &str, st: Style) -> stylish::Result { self.0.extend(s.chars().map(|c| (c, st))); Ok(()) } }
struct By<'a, 'b>(&'a stylish::Arguments<'b>, Style);
impl stylish::Display for By<'_, '_> { fn fmt(&self, f: &mut stylish::Formatter<'_>) -> stylish::Result { stylish::Display::fmt(self.0, &mut f.with(self.1))?; f.write_str("!") } }
fn rec_in(st: Style, a: stylish::Arguments<'_>) -> Vec<(char, Style)> {
    let mut w = Rec(vec![]);
    let by = By(&a, st);
    stylish::Write::write_fmt(&mut w, stylish::Arguments { f: &|f| stylish::Display::fmt(&by, f) }).expect("formatting fails");
    assert_eq!(w.0.pop(), Some(('!', Style::default())), "the style does not end with the argument");
    w.0
}
fn rec(a: stylish::Arguments<'_>) -> Vec<(char, Style)> { rec_in(Style::default(), a) }
fn chk(got: Vec<(char, Style)>, want: Vec<Chunk>) -> R {
    let w: Vec<(char, Style)> = want.iter().flat_map(|(s, t)| s.chars().map(move |c| (c, *t))).collect();
    if got == w { return Ok(()) }
    let mut g: Vec<Chunk> = vec![];
    for (c, t) in got { match g.last_mut() { Some((s, u)) if *u == t => s.push(c), _ => g.push((c.to_string(), t)) } }
    Err(format!("gives {:?}, expected {:?}", g, want))
}
fn sty(f: Color, b: Color, i: Intensity) -> Style { let mut s = Style::default(); s.foreground = f; s.background = b; s.intensity = i; s }
fn d() -> Style { Style::default() }
fn with(s: Style, f: Option<Color>, b: Option<Color>, i: Option<Intensity>) -> Style { sty(f.unwrap_or(s.foreground), b.unwrap_or(s.background), i.unwrap_or(s.intensity)) }
fn around() -> [Style; 4] { [d(), sty(Color::Green, Color::BrightBlue, Intensity::Bold), sty(Color::BrightWhite, Color::Red, Intensity::Faint), sty(Color::Default, Color::Yellow, Intensity::Normal)] }
/// an argument that writes down what the standard traits are told
#[derive(Clone, Copy)]
pub struct Spy(pub u8);
fn dump(n: &str, k: u8, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    let a = match f.align() { None => "none", Some(fmt::Alignment::Left) => "left", Some(fmt::Alignment::Center) => "center", Some(fmt::Alignment::Right) => "right" };
    let s = format!("{}{}[{:?} {} {} {} {} {} {:?} {:?}]", n, k, f.fill(), a, f.sign_plus(), f.sign_minus(), f.alternate(), f.sign_aware_zero_pad(), f.width(), f.precision());
    f.write_str(&s)
}
macro_rules! spy { ($($t:ident)*) => { $( impl fmt::$t for Spy { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { dump(stringify!($t), self.0, f) } } )* } }
spy!(Display Octal LowerHex UpperHex Pointer Binary LowerExp UpperExp);
impl fmt::Debug for Spy { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { dump("Debug", self.0, f)?; fmt::Debug::fmt(&171u8, f)?; fmt::Debug::fmt(&Some("é"), f) } }
impl stylish::Display for Spy { fn fmt(&self, f: &mut stylish::Formatter<'_>) -> stylish::Result { f.write_str("stylish")?; f.write_str(&self.0.to_string()) } }
thread_local! { static LOG: RefCell<Vec<u8>> = RefCell::new(vec![]); }
fn ev(k: u8) -> Spy { LOG.with(|l| l.borrow_mut().push(k)); Spy(k) }
fn evs() -> Vec<u8> { let mut v = LOG.with(|l| std::mem::take(&mut *l.borrow_mut())); v.sort(); v }
fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } } o.push('"'); o }
fn drive(cases: &[(&str, fn() -> R)]) {
    std::panic::set_hook(Box::new(|_| {}));
    for (k, (d, f)) in cases.iter().enumerate() {
        let r = std::panic::catch_unwind(f).unwrap_or_else(|e| Err(format!("panicked: {}", e.downcast_ref::<String>().map(|s| &s[..]).or(e.downcast_ref::<&str>().copied()).unwrap_or("?"))));
        if let Err(e) = r { println!("WITNESS {{\"case\":{},\"input\":{},\"failure\":{}}}", k, js(d), js(&e)); std::process::exit(1) }
    }
    println!("DONE {}", cases.len());
}
