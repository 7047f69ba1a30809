//! Concrete search for a failing input of one property against the crate built from /repo.
//! usage: harness PROP SEED SECONDS DICT [MODEL]      harness PROP case N DICT [MODEL]
mod rng;
mod lin;
mod p_ell;
mod p_driver;
mod p_oracle;
mod p_num;
use rng::{splitmix, R};
use std::collections::{HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{atomic::{AtomicBool, Ordering}, Arc, Mutex};
use std::time::{Duration, Instant};

/// Ok(true): a non-trivial case passed; Ok(false): trivial or skipped; Err: the property failed.
pub type Case = fn(&mut R) -> Result<bool, String>;

/// is the defect with this name recorded in known-findings.txt (passed on by check.py)?
pub fn known(id: &str) -> bool { std::env::var("KNOWN").map_or(false, |k| k.split(',').any(|x| x == id)) }

fn cases(p: &str) -> Vec<(&'static str, Case)> {
    let mut v = vec![];
    v.extend(p_ell::cases(p));
    v.extend(p_driver::cases(p));
    v.extend(p_oracle::cases(p));
    v.extend(p_num::cases(p));
    v
}
fn esc(s: &str) -> String {
    s.chars().flat_map(|c| match c {
        '"' => vec!['\\', '"'],
        '\\' => vec!['\\', '\\'],
        '\n' => vec!['\\', 'n'],
        c if (c as u32) < 32 => vec![' '],
        c => vec![c],
    }).collect()
}
fn show(log: &[(String, String)]) -> String {
    let v: Vec<String> = log.iter().map(|(a, b)| format!("\"{}\"", esc(&format!("{}={}", a, b)))).collect();
    format!("[{}]", v.join(", "))
}
struct Stat { n: u64, distinct: HashSet<u64>, samples: Vec<String>, fail: Option<String> }

fn one(cs: &[(&'static str, Case)], id: u64, dict: &[f64], ints: &[i64], named: &HashMap<String, f64>) -> (Result<bool, String>, Vec<(String, String)>, &'static str) {
    let use_named = !named.is_empty() && id % 3 == 0;
    let mut r = R::new(id, dict, ints, if use_named { Some(named) } else { None });
    let (nm, f) = cs[(splitmix(id ^ 77) % cs.len() as u64) as usize];
    let res = catch_unwind(AssertUnwindSafe(|| f(&mut r)));
    let res = match res {
        Ok(x) => x,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Err(format!("panicked: {}", m))
        }
    };
    (res, r.log, nm)
}
fn hash(s: &[(String, String)]) -> u64 {
    let mut h = 1469598103934665603u64;
    for (a, b) in s { for c in a.bytes().chain(b.bytes()) { h = (h ^ c as u64).wrapping_mul(1099511628211); } }
    h
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = a[1].clone();
    let read = |i: usize| a.get(i).and_then(|f| std::fs::read_to_string(f).ok()).unwrap_or_default();
    let dict: Vec<f64> = read(4).split_whitespace().filter_map(|x| x.parse().ok()).filter(|x: &f64| x.is_finite()).collect();
    let ints: Vec<i64> = dict.iter().filter(|x| x.fract() == 0.0 && x.abs() < 60.0).map(|x| *x as i64).collect();
    let named: HashMap<String, f64> = read(5).lines().filter_map(|l| { let mut w = l.split_whitespace(); Some((w.next()?.to_string(), w.next()?.parse().ok()?)) }).collect();
    let cs = cases(&prop);
    if cs.is_empty() { println!("{{\"error\": \"no cases\"}}"); std::process::exit(2); }
    std::panic::set_hook(Box::new(|_| {}));
    if a[2] == "case" {
        let id: u64 = a[3].parse().unwrap();
        let (r, log, nm) = one(&cs, id, &dict, &ints, &named);
        println!("{{\"case\": {}, \"scenario\": \"{}\", \"result\": \"{}\", \"inputs\": {}}}", id, nm, esc(&format!("{:?}", r)), show(&log));
        std::process::exit(if r.is_err() { 1 } else { 0 });
    }
    let seed: u64 = a[2].parse().unwrap();
    let secs: f64 = a[3].parse().unwrap();
    let end = Instant::now() + Duration::from_secs_f64(secs);
    let stop = Arc::new(AtomicBool::new(false));
    let st = Arc::new(Mutex::new(Stat { n: 0, distinct: HashSet::new(), samples: vec![], fail: None }));
    let nt: u64 = std::env::var("HTHREADS").ok().and_then(|x| x.parse().ok()).unwrap_or(3);
    std::thread::scope(|sc| {
        for t in 0..nt {
            let (cs, dict, ints, named, stop, st) = (&cs, &dict, &ints, &named, stop.clone(), st.clone());
            sc.spawn(move || {
                let mut i = t;
                let mut n = 0;
                let mut hs = vec![];
                while Instant::now() < end && !stop.load(Ordering::Relaxed) {
                    let id = splitmix(seed.wrapping_mul(1_000_003).wrapping_add(i)) >> 1;
                    i += nt;
                    n += 1;
                    let (r, log, nm) = one(cs, id, dict, ints, named);
                    match r {
                        Ok(true) => {
                            if hs.len() < 400_000 { hs.push(hash(&log)); }
                            if n % 97 == 1 {
                                let mut s = st.lock().unwrap();
                                if s.samples.len() < 5 { s.samples.push(format!("{{\"scenario\": \"{}\", \"case\": {}, \"inputs\": {}}}", nm, id, show(&log))); }
                            }
                        }
                        Ok(false) => {}
                        Err(m) => {
                            stop.store(true, Ordering::Relaxed);
                            let mut s = st.lock().unwrap();
                            if s.fail.is_none() { s.fail = Some(format!("{{\"case\": {}, \"scenario\": \"{}\", \"what\": \"{}\", \"inputs\": {}}}", id, nm, esc(&m), show(&log))); }
                        }
                    }
                }
                let mut s = st.lock().unwrap();
                s.n += n;
                s.distinct.extend(hs);
            });
        }
    });
    let s = st.lock().unwrap();
    println!("{{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"samples\": [{}], \"failure\": {}}}", s.n, s.distinct.len(), s.samples.join(", "), s.fail.clone().unwrap_or("null".into()));
}
