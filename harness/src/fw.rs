use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::io::{Seek, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn chance(&mut self, pct: usize) -> bool {
        self.below(100) < pct
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
}

/// literals that the current tree has and the tree the checks were written for has not: only steers the search
#[derive(Default)]
pub struct Dict { pub strs: Vec<String>, pub ints: Vec<usize> }
pub static DICT: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
pub fn load_dict(text: &str) {
    let v: serde_json::Value = match serde_json::from_str(text) { Ok(v) => v, Err(_) => return };
    let strs = v["strs"].as_array().map_or(vec![], |a| a.iter().filter_map(|s| s.as_str().map(String::from)).collect());
    let ints = v["ints"].as_array().map_or(vec![], |a| a.iter().filter_map(|s| s.as_u64().map(|x| x as usize)).collect());
    let _ = DICT.set(Dict { strs, ints });
}
pub fn dict() -> &'static Dict { DICT.get_or_init(Dict::default) }
/// sizes worth trying: the given ones and those around new integer literals, up to `max`
pub fn sizes(base: &[usize], max: usize) -> Vec<usize> {
    let mut v = base.to_vec();
    for i in dict().ints.iter().flat_map(|i| [i.saturating_sub(1), *i, i.saturating_add(1), i.saturating_add(8)]) { if i <= max && !v.contains(&i) { v.push(i) } }
    v
}
/// texts that code might treat specially
pub static ODD: [&str; 20] = ["", " ", "\n", "0", "1", "7", "ε", "T", "_STOP", "_START", "<EOF>", "ERROR", "r0", "R1", "a b", "'x'", "/x/", "\r\n", "x0", "éé"];
/// numbers far from the usual ones
pub static FAR: [usize; 9] = [9, 63, 64, 127, 255, 256, 1000, 65536, usize::MAX];
impl Rng {
    pub fn odd(&mut self, pct: usize) -> Option<String> {
        if !self.chance(pct) { return None; }
        Some(match self.below(30) { 0 => "x".repeat(300), 1 => "é".repeat(70), _ => self.pick(&ODD).to_string() })
    }
    /// a text made of new literals, in pct of the calls; never anything on a tree without new literals
    pub fn dstr(&mut self, pct: usize) -> Option<String> {
        let d = dict();
        if d.strs.is_empty() || !self.chance(pct) { return None; }
        let s = self.pick(&d.strs).clone();
        let f = ["a", "Z", "0", " ", "é"];
        Some(match self.below(8) {
            0 => format!("{}{}", self.pick(&f), s),
            1 => format!("{}{}", s, self.pick(&f)),
            2 => format!("{}{}", s, s),
            3 => { let t = self.pick(&d.strs).clone(); format!("{}{}", s, t) }
            4 => { let cs: Vec<char> = s.chars().collect(); if cs.is_empty() { s } else { self.pick(&cs).to_string() } }
            5 => format!("{}{}{}", s, self.pick(&f), s),
            _ => s,
        })
    }
    pub fn dint(&mut self, pct: usize) -> Option<usize> {
        let d = dict();
        if d.ints.is_empty() || !self.chance(pct) { return None; }
        let i = *self.pick(&d.ints);
        Some(match self.below(5) { 0 => i.saturating_sub(1), 1 => i.saturating_add(1), 2 => i.saturating_mul(2), _ => i })
    }
}

pub struct Ctx {
    pub id: String,
    out: String,
    cur: std::fs::File,
    pub rng: Rng,
    pub thorough: bool,
    deadline: Instant,
    evals: u64,
    pub shard: (usize, usize),
    nontrivial: u64,
    seen: HashSet<u64>,
    samples: Vec<String>,
    pub rule: String,
    pub exhaustive_note: String,
}

pub fn js(s: &str) -> String {
    serde_json::Value::String(s.to_string()).to_string()
}

impl Ctx {
    pub fn new(id: &str, out: &str, cur: &str, seed: u64, thorough: bool, millis: u64) -> Self {
        Ctx {
            id: id.into(),
            out: out.into(),
            cur: std::fs::File::create(cur).unwrap(),
            rng: Rng(seed.wrapping_mul(0x1234567)),
            thorough,
            deadline: Instant::now() + Duration::from_millis(millis),
            evals: 0,
            shard: (0, 1),
            nontrivial: 0,
            seen: HashSet::new(),
            samples: vec![],
            rule: String::new(),
            exhaustive_note: String::new(),
        }
    }
    pub fn time_left(&self) -> bool {
        Instant::now() < self.deadline
    }
    /// run one case; `f` returns Ok(nontrivial) or Err(what differs)
    pub fn case(&mut self, desc: String, f: impl FnOnce() -> Result<bool, String>) {
        self.evals += 1;
        let _ = self.cur.rewind();
        let _ = self.cur.set_len(0);
        let _ = self.cur.write_all(desc.as_bytes());
        let r = catch_unwind(AssertUnwindSafe(f));
        let r = match r {
            Ok(r) => r,
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                Err(format!("panicked: {}", m))
            }
        };
        match r {
            Ok(nt) => {
                if nt {
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    desc.hash(&mut h);
                    if self.seen.insert(h.finish()) {
                        self.nontrivial += 1;
                        if self.samples.len() < 3 || (self.samples.len() < 6 && self.nontrivial % 997 == 0) {
                            self.samples.push(desc.chars().take(600).collect());
                        }
                    }
                }
            }
            Err(e) => self.fail(&desc, &e),
        }
    }
    pub fn fail(&self, desc: &str, e: &str) -> ! {
        let s = format!(
            "{{\"property\":{},\"failed\":true,\"evaluations\":{},\"distinct_nontrivial\":{},\"input\":{},\"difference\":{}}}\n",
            js(&self.id), self.evals, self.nontrivial, js(desc), js(e)
        );
        std::fs::write(&self.out, s).unwrap();
        std::process::exit(1)
    }
    pub fn finish(&self) -> ! {
        let s = format!(
            "{{\"property\":{},\"failed\":false,\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"enumerated\":{},\"samples\":[{}]}}\n",
            js(&self.id), self.evals, self.nontrivial, js(&self.rule), js(&self.exhaustive_note),
            self.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")
        );
        std::fs::write(&self.out, s).unwrap();
        std::process::exit(0)
    }
}

pub fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{}: got {:?}, specified {:?}", what, got, want)) }
}
