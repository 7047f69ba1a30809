//! Case generation: every case is a function of one 64-bit number; named draws are logged.
use std::collections::HashMap;

pub struct R<'a> {
    s: u64,
    pub dict: &'a [f64],
    pub ints: &'a [i64],
    pub named: Option<&'a HashMap<String, f64>>,
    pub log: Vec<(String, String)>,
    pub phase: u64,
}

pub fn splitmix(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl<'a> R<'a> {
    pub fn new(seed: u64, dict: &'a [f64], ints: &'a [i64], named: Option<&'a HashMap<String, f64>>) -> Self {
        R { s: splitmix(seed), dict, ints, named, log: vec![], phase: seed }
    }
    pub fn next(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9E37_79B9_7F4A_7C15);
        splitmix(self.s)
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n.max(1) as u64)) as usize
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.unit() < p
    }
    pub fn uni(&mut self, a: f64, b: f64) -> f64 {
        a + (b - a) * self.unit()
    }
    pub fn put(&mut self, name: &str, v: String) {
        self.log.push((name.to_string(), v));
    }
    fn named_val(&mut self, name: &str) -> Option<f64> {
        let m = self.named?;
        let v = *m.get(name)?;
        if self.chance(0.8) { Some(v) } else { None }
    }
    /// a real number from a mixture of scales, special values and numbers found in the source text
    pub fn raw(&mut self) -> f64 {
        match self.below(12) {
            0 => 0.0,
            1 => 1.0,
            2 => -1.0,
            3 | 4 => self.below(21) as f64 - 10.0,
            5 | 6 => self.uni(-1.0, 1.0),
            7 => {
                let e = self.uni(-6.0, 6.0);
                let s = if self.chance(0.5) { 1.0 } else { -1.0 };
                s * 10f64.powf(e)
            }
            8 => {
                if self.dict.is_empty() {
                    return 0.5;
                }
                let i = self.below(self.dict.len());
                let d = self.dict[i];
                match self.below(6) {
                    0 => d,
                    1 => -d,
                    2 => d * 1.001,
                    3 => d * 0.999,
                    4 => d + 1.0,
                    _ => d - 1.0,
                }
            }
            9 => self.uni(-10.0, 10.0),
            10 => self.uni(-1e-3, 1e-3),
            _ => self.uni(-1e3, 1e3),
        }
    }
    pub fn f(&mut self, name: &str) -> f64 {
        let v = match self.named_val(name) {
            Some(v) => v,
            None => self.raw(),
        };
        self.put(name, format!("{:?}", v));
        v
    }
    /// a positive number, log-uniform mixture
    pub fn pos(&mut self, name: &str, lo: f64, hi: f64) -> f64 {
        let mut v = match self.named_val(name) {
            Some(v) => v,
            None => match self.below(5) {
                0 => 1.0,
                1 => (1 + self.below(10)) as f64,
                2 => {
                    let i = self.below(self.dict.len().max(1));
                    self.dict.get(i).copied().unwrap_or(1.0).abs() * if self.chance(0.5) { 1.0 } else { 1.0 + 2e-3 * (self.unit() - 0.5) }
                }
                _ => {
                    let (a, b) = (lo.ln(), hi.ln());
                    self.uni(a, b).exp()
                }
            },
        };
        if !(v >= lo && v <= hi) {
            v = lo.max(1.0).min(hi);
        }
        self.put(name, format!("{:?}", v));
        v
    }
    pub fn fu(&mut self, name: &str, a: f64, b: f64) -> f64 {
        let v = match self.named_val(name) {
            Some(v) if v >= a && v <= b => v,
            _ => self.uni(a, b),
        };
        self.put(name, format!("{:?}", v));
        v
    }
    /// dimension: mostly small, sometimes large, sometimes near an integer of the source text
    pub fn dim(&mut self, name: &str, lo: usize, hi: usize) -> usize {
        let mut v = match self.named_val(name) {
            Some(v) => v as usize,
            None => match self.below(16) {
                0 => {
                    let top = hi.min(40);
                    lo + self.below(top - lo + 1)
                }
                1 | 2 if !self.ints.is_empty() => {
                    let i = self.below(self.ints.len());
                    let j = self.ints[i] + self.below(3) as i64 - 1;
                    if j < 0 { lo } else { j as usize }
                }
                _ => lo + self.below((hi - lo + 1).min(5)),
            },
        };
        if v < lo || v > hi {
            v = lo + self.below((hi - lo + 1).min(5));
        }
        self.put(name, v.to_string());
        v
    }
    pub fn vecf(&mut self, name: &str, n: usize, style: usize) -> Vec<f64> {
        let v: Vec<f64> = (0..n)
            .map(|_| match style {
                0 => self.uni(-1.0, 1.0),
                1 => self.below(7) as f64 - 3.0,
                2 => self.raw(),
                _ => {
                    if self.chance(0.5) { 0.0 } else { self.uni(-2.0, 2.0) }
                }
            })
            .collect();
        self.put(name, format!("{:?}", v));
        v
    }
    pub fn pick<'b, T: std::fmt::Debug>(&mut self, name: &str, xs: &'b [T]) -> &'b T {
        let i = self.below(xs.len());
        self.put(name, format!("{:?}", xs[i]));
        &xs[i]
    }
    pub fn flag(&mut self, name: &str, p: f64) -> bool {
        let b = self.chance(p);
        self.put(name, b.to_string());
        b
    }
}
