//! State of one worker: counters, distinct cases, samples, violations.
use std::collections::{BTreeMap, HashSet};

pub struct Cx {
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub counts: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub known: BTreeMap<String, String>,
    /// inputs of the current case, for the replay file
    pub detail: String,
    pub digests: Vec<(u64, u64)>,
    pub inconclusive: Vec<String>,
    pub thorough: bool,
    /// for interpreters and sanitizers
    pub small: bool,
    /// the next image is of more samples than a 32-bit float counts
    pub colossal: bool,
    pub seed: u64,
}
pub type R = Result<(), String>;

impl Cx {
    pub fn new(thorough: bool, seed: u64) -> Cx {
        Cx {
            evals: 0,
            distinct: HashSet::new(),
            counts: BTreeMap::new(),
            samples: vec![],
            known: BTreeMap::new(),
            detail: String::new(),
            digests: vec![],
            inconclusive: vec![],
            thorough,
            small: false,
            colossal: false,
            seed,
        }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        if let Some(c) = self.counts.get_mut(k) {
            *c += n;
        } else {
            self.counts.insert(k.to_string(), n);
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let c = self.counts.entry(k.to_string()).or_insert(0);
        *c = (*c).max(n);
    }
    /// one evaluated case; `key` identifies it, None when it is trivial
    pub fn eval(&mut self, key: Option<u64>) {
        self.evals += 1;
        if let Some(k) = key {
            if self.distinct.len() < 400_000 {
                self.distinct.insert(k);
            }
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let s = f();
            self.samples.push(s);
        }
    }
    pub fn known(&mut self, id: &str, what: impl FnOnce() -> String) {
        self.count(&format!("known_finding.{}", id), 1);
        if !self.known.contains_key(id) {
            let w = what();
            self.known.insert(id.to_string(), w);
        }
    }
    pub fn note_params(&mut self, p: &crate::model::P) {
        self.count(["encoder.turbo", "encoder.fast", "encoder.contextual"][p.encoder as usize], 1);
        self.count(["filter.linear", "filter.cubic"][p.filter as usize], 1);
        if p.quality == 1024 {
            self.count("quality.1024", 1);
        } else {
            self.count("quality.lossy", 1);
        }
        let (_, bx, by) = p.blocks(1);
        if bx * by > 1 {
            self.count("multiple_blocks", 1);
        }
        if p.planes() > 1 {
            self.count("multiple_planes", 1);
        }
        if p.w.min(p.h) == 1 {
            self.count("one_pixel_wide_or_high", 1);
        }
        if p.w * p.h * p.planes() > 128 * 128 {
            self.count("above_parallel_threshold", 1);
        }
        self.max("max.step", p.first_step() as u64);
        self.max("max.samples", p.samples() as u64);
        self.max("max.planes", p.planes() as u64);
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn hex(b: &[u8]) -> String {
    let n = b.len().min(4096);
    let mut s: String = b[..n].iter().map(|x| format!("{:02x}", x)).collect();
    if n < b.len() {
        s.push_str(&format!("... ({} bytes)", b.len()));
    }
    s
}

pub fn first_diff<T: PartialEq + std::fmt::Debug>(a: &[T], b: &[T]) -> String {
    if a.len() != b.len() {
        return format!("lengths {} and {}", a.len(), b.len());
    }
    match a.iter().zip(b).position(|(x, y)| x != y) {
        Some(i) => format!("first difference at {}: {:?} instead of {:?}", i, a[i], b[i]),
        None => "equal".into(),
    }
}
