//! vx: mechanical extraction of /repo's Rust sources into one Verus file.
//!
//! usage: vx --repo DIR --contracts FILE[,FILE..] --specs DIR --units FILE --out FILE
//!           [--external KEY]... [--expanded MODULE=FILE]...
//!
//! Walks the crates named in the units file starting from their lib.rs,
//! follows `mod x;`, applies the normalisations listed in DESIGN.md
//! ("What the extraction changes") and splices in contracts by key. It never
//! reads function bodies for anything but those local rewrites.
mod comb;
mod contracts;
mod emit;
mod inline;
mod norm;
mod print;
mod quote;

use std::{collections::BTreeMap, fs, path::Path, process::exit};

pub struct Unit {
    pub krate: String,  // name used in paths, e.g. stylish_core
    pub module: String, // module name in the generated file, e.g. core_
    pub dir: String,    // e.g. core/src
    pub skip: Vec<String>, // sub modules not extracted
    pub only: Vec<String>, // the only sub modules extracted (`only:NAME`)
}

fn die(msg: &str) -> ! {
    eprintln!("vx: {msg}");
    exit(2)
}

fn main() {
    let mut args = std::env::args().skip(1);
    let mut opt: BTreeMap<String, Vec<String>> = BTreeMap::new();
    while let Some(a) = args.next() {
        let v = args.next().unwrap_or_else(|| die("missing value"));
        opt.entry(a).or_default().push(v);
    }
    let one = |k: &str| -> String {
        opt.get(k)
            .and_then(|v| v.last().cloned())
            .unwrap_or_else(|| die(&format!("missing {k}")))
    };
    let repo = one("--repo");
    let mut contracts = contracts::Contracts::default();
    for f in one("--contracts").split(',') {
        contracts.load(Path::new(f)).unwrap_or_else(|e| die(&e));
    }
    for k in opt.get("--external").cloned().unwrap_or_default() {
        contracts.fallback.insert(k);
    }
    let mut units = vec![];
    let units_text = fs::read_to_string(one("--units")).unwrap_or_else(|e| die(&format!("units: {e}")));
    let mut spec_files = vec![];
    for line in units_text.lines() {
        let w: Vec<_> = line.split_whitespace().collect();
        match w.as_slice() {
            [] => {}
            [c, ..] if c.starts_with('#') => {}
            ["spec", f] => spec_files.push(f.to_string()),
            ["unit", krate, module, dir, skip @ ..] => units.push(Unit {
                krate: krate.to_string(),
                module: module.to_string(),
                dir: dir.to_string(),
                skip: skip.iter().filter(|s| !s.starts_with("only:")).map(|s| s.to_string()).collect(),
                only: skip.iter().filter_map(|s| s.strip_prefix("only:")).map(|s| s.to_string()).collect(),
            }),
            _ => die(&format!("units: bad line {line}")),
        }
    }
    let mut out = String::from(
        "// generated by vx from the working tree; do not edit\n#![allow(unused_imports, unused_mut, unused_variables, dead_code, unused_parens, unused_braces, non_snake_case, unused_must_use, unreachable_code, unreachable_patterns, non_camel_case_types)]\n",
    );
    let specs = one("--specs");
    for f in spec_files {
        let t = fs::read_to_string(Path::new(&specs).join(&f)).unwrap_or_else(|e| die(&format!("{f}: {e}")));
        let t = quote::spec_text(&t).unwrap_or_else(|e| die(&format!("{f}: {e}")));
        out.push_str(&format!("// @file {f}\n"));
        out.push_str(&t);
        out.push('\n');
    }
    let mut em = emit::Emitter::new(&units, &mut contracts);
    em.known = out.split_whitespace().collect::<Vec<_>>().windows(2).filter(|w| matches!(w[0], "struct" | "enum" | "trait" | "type" | "fn")).map(|w| w[1].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect()).collect();
    // --expanded MODULE=FILE: the compiler's own macro expansion of a crate
    for x in opt.get("--expanded").cloned().unwrap_or_default() {
        let (m, f) = x.split_once('=').unwrap_or_else(|| die("bad --expanded"));
        let t = fs::read_to_string(f).unwrap_or_else(|e| die(&format!("{f}: {e}")));
        em.load_expanded(m, &t).unwrap_or_else(|e| die(&format!("{f}: {e}")));
    }
    let mut body = String::new();
    for u in &units {
        match em.unit(Path::new(&repo), u) {
            Ok(t) => body.push_str(&t),
            Err(e) => die(&e),
        }
    }
    let report = em.report();
    out.push_str(&em.literals());
    out.push_str(&quote::lits_module());
    out.push_str(&body);
    out.push_str("\nfn main() {}\n");
    let o = one("--out");
    fs::write(&o, out).unwrap_or_else(|e| die(&format!("{o}: {e}")));
    fs::write(format!("{o}.report"), report).unwrap();
}
