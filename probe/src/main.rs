//! Native oracles for the properties: they look for a concrete failing input
//! (the witness a failed obligation is replayed with) and stand in, bounded,
//! where the verifier has no contract. They use only the public API.
#![allow(uncommon_codepoints)]
mod model;
mod props;
use std::cell::RefCell;
use std::collections::HashSet;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { &xs[self.below(xs.len())] }
}

/// What a run is doing: which cases were executed, and how one case failed.
pub struct Run {
    pub prop: String,
    pub seed: u64,
    pub deadline: Instant,
    pub deep: bool,
    pub only: Option<(String, u64)>,
    pub evals: u64,
    pub suites: Vec<(String, u64, bool)>,
    pub seen: HashSet<u64>,
    pub samples: Vec<String>,
    cur: Arc<Mutex<(String, u64, String, Instant)>>,
}
pub struct Suite<'a> { run: &'a mut Run, name: &'static str, n: u64, exhaustive: bool }

thread_local! { static PANIC: RefCell<String> = RefCell::new(String::new()); }

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"'); o
}
fn clip(s: &str) -> String {
    if s.len() > 3000 { let mut k = 3000; while !s.is_char_boundary(k) { k -= 1 } format!("{}… ({} bytes)", &s[..k], s.len()) } else { s.to_string() }
}
fn witness(prop: &str, seed: u64, suite: &str, case: u64, what: &str, why: &str) -> ! {
    println!("WITNESS {{\"property\":{},\"suite\":{},\"case\":{},\"seed\":{},\"input\":{},\"failure\":{}}}",
        js(prop), js(suite), case, seed, js(&clip(what)), js(&clip(why)));
    std::process::exit(1)
}

impl Run {
    pub fn suite(&mut self, name: &'static str, exhaustive: bool) -> Suite<'_> { Suite { run: self, name, n: 0, exhaustive } }
    pub fn left(&self) -> bool { Instant::now() < self.deadline }
}
impl Suite<'_> {
    pub fn n(&self) -> u64 { self.n }
    pub fn deep(&self) -> bool { self.run.deep }
    pub fn left(&mut self) -> bool { if !self.run.left() { self.exhaustive = false; return false } true }
    /// Execute one case; `what` describes the input, `f` returns the failure.
    pub fn case(&mut self, what: impl Fn() -> String, f: impl FnOnce() -> Result<(), String>) {
        let n = self.n;
        self.n += 1;
        if let Some((s, k)) = &self.run.only { if s != self.name || *k != n { return } }
        self.run.evals += 1;
        {
            let mut c = self.run.cur.lock().unwrap();
            c.0.clear(); c.0.push_str(self.name); c.1 = n; c.3 = Instant::now();
            if n % 64 == 0 || self.run.only.is_some() { c.2 = what() } else { c.2.clear() }
        }
        if self.run.seen.len() < 2_000_000 {
            let mut h = DefaultHasher::new();
            (self.name, what()).hash(&mut h);
            if self.run.seen.insert(h.finish()) && n % 997 == 0 && self.run.samples.len() < 12 {
                let s = clip(&what());
                let s: String = s.chars().take(300).collect();
                self.run.samples.push(format!("{}#{}: {}", self.name, n, s));
            }
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        let why = match r {
            Ok(Ok(())) => return,
            Ok(Err(e)) => e,
            Err(_) => format!("panicked: {}", PANIC.with(|p| p.borrow().clone())),
        };
        witness(&self.run.prop, self.run.seed, self.name, n, &what(), &why)
    }
}
impl Drop for Suite<'_> {
    fn drop(&mut self) { let e = (self.name.to_string(), self.n, self.exhaustive); self.run.suites.push(e) }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let prop = a[1].clone();
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let budget: u64 = get("--budget").and_then(|s| s.parse().ok()).unwrap_or(20);
    let only = get("--suite").map(|s| (s, get("--case").unwrap().parse().unwrap()));
    std::panic::set_hook(Box::new(|i| PANIC.with(|p| *p.borrow_mut() = i.to_string())));
    let cur = Arc::new(Mutex::new((String::new(), 0u64, String::new(), Instant::now())));
    let (c2, p2) = (cur.clone(), prop.clone());
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let c = c2.lock().unwrap();
        if !c.0.is_empty() && c.3.elapsed() > Duration::from_secs(20) {
            witness(&p2, seed, &c.0, c.1, &c.2, "the call does not return (20 s)")
        }
    });
    // deep recursion or huge texts must not depend on the main thread's stack
    let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        let mut run = Run { prop: prop.clone(), seed, deadline: Instant::now() + Duration::from_secs(budget), deep: a.iter().any(|x| x == "--deep"), only,
            evals: 0, suites: vec![], seen: HashSet::new(), samples: vec![], cur };
        // texts that look like terminal escapes: not for the properties whose
        // oracle reads the escapes back out of the output
        if !["C02", "C03", "C04"].contains(&prop.as_str()) { model::ESCAPES.store(true, std::sync::atomic::Ordering::Relaxed) }
        props::run(&prop, &mut run);
        run.cur.lock().unwrap().0.clear();
        let s: Vec<String> = run.suites.iter().map(|(n, k, e)| format!("{{\"name\":{},\"cases\":{},\"complete\":{}}}", js(n), k, e)).collect();
        let m: Vec<String> = run.samples.iter().map(|s| js(s)).collect();
        println!("DONE {{\"property\":{},\"evaluations\":{},\"distinct\":{},\"suites\":[{}],\"samples\":[{}]}}",
            js(&prop), run.evals, run.seen.len(), s.join(","), m.join(","));
    }).unwrap();
    if h.join().is_err() { eprintln!("probe died"); std::process::exit(3) }
}
