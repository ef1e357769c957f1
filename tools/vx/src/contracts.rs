//! Contract files: sections introduced by `//# <kind> <key>`.
use std::{
    collections::{BTreeMap, BTreeSet},
    fs,
    path::Path,
};

#[derive(Default)]
pub struct Contracts {
    /// (kind, key) -> text. kinds: fn, loop (key has " N" appended), impl,
    /// trait, module, trusted, drop, detrait, pre, loopend
    pub map: BTreeMap<(String, String), String>,
    pub used: BTreeSet<(String, String)>,
    /// functions whose body is not given to the verifier in this run
    pub fallback: BTreeSet<String>,
}

impl Contracts {
    pub fn load(&mut self, p: &Path) -> Result<(), String> {
        let t = fs::read_to_string(p).map_err(|e| format!("{}: {e}", p.display()))?;
        let t = crate::quote::spec_text(&t).map_err(|e| format!("{}: {e}", p.display()))?;
        let mut cur: Option<(String, String)> = None;
        for line in t.lines() {
            if let Some(h) = line.strip_prefix("//# ") {
                let (kind, key) = h.trim().split_once(' ').ok_or(format!("bad header {line}"))?;
                let k = (kind.to_string(), squash(key));
                if self.map.contains_key(&k) {
                    return Err(format!("duplicate {kind} {key}"));
                }
                self.map.insert(k.clone(), String::new());
                cur = Some(k);
            } else if let Some(k) = &cur {
                let e = self.map.get_mut(k).unwrap();
                e.push_str(line);
                e.push('\n');
            } else if !line.trim().is_empty() && !line.trim_start().starts_with("//") {
                return Err(format!("text before first header: {line}"));
            }
        }
        Ok(())
    }
    pub fn get(&mut self, kind: &str, key: &str) -> Option<String> {
        let k = (kind.to_string(), squash(key));
        let r = self.map.get(&k).cloned();
        if r.is_some() {
            self.used.insert(k);
        }
        r
    }
    pub fn has(&self, kind: &str, key: &str) -> bool {
        self.map.contains_key(&(kind.to_string(), squash(key)))
    }
    pub fn loops_for(&self, key: &str) -> usize {
        (0..)
            .take_while(|i| self.has("loop", &format!("{key} {i}")))
            .count()
    }
}

/// keys are compared without white space
pub fn squash(key: &str) -> String {
    key.split_whitespace().collect()
}
