//! Common machinery of the runtime monitors: deterministic case loop, RNG, statistics,
//! workload generators and the independent reference models (oracles).
pub mod gen;
pub mod oracle;
pub mod tdgen;
#[macro_use]
pub mod mac;
pub mod turns;

use std::collections::{BTreeMap, HashSet};
use std::io::{Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type W = u32;
pub const INF: u32 = u32::MAX / 2;
pub type R = Result<(), String>;

/// Deterministic RNG (splitmix64 seeded xoshiro-like); independent of the `rand` crate used by the engine.
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.u64();
        r.u64();
        r
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// uniform in [0, n)
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        (self.u64() % n as u64) as usize
    }
    /// uniform in [a, b]
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.u64() % (b - a + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.u64() % den < num
    }
    pub fn f64(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    pub fn perm(&mut self, n: usize) -> Vec<u32> {
        let mut v: Vec<u32> = (0..n as u32).collect();
        self.shuffle(&mut v);
        v
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
}

#[derive(Default)]
pub struct Stats {
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub evaluations: u64,
}

pub struct Case {
    pub idx: u64,
    pub thorough: bool,
    pub rng: Rng,
    pub stats: Stats,
    pub scratch: std::path::PathBuf,
}
impl Case {
    /// count an observed event
    pub fn ev(&mut self, name: &str) {
        self.evn(name, 1)
    }
    pub fn evn(&mut self, name: &str, n: u64) {
        match self.stats.counters.get_mut(name) {
            Some(c) => *c += n,
            None => {
                self.stats.counters.insert(name.to_string(), n);
            }
        }
    }
    /// one oracle verdict taken; `nontrivial` fingerprints are counted as distinct states
    pub fn verdict(&mut self, name: &str, nontrivial: Option<u64>) {
        self.stats.evaluations += 1;
        self.ev(name);
        if let Some(h) = nontrivial {
            if self.stats.distinct.len() < 2_000_000 {
                self.stats.distinct.insert(h);
            }
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.stats.samples.len() < 3 {
            let s = f();
            self.stats.samples.push(s.chars().take(600).collect());
        }
    }
    /// Size class grows with the case index; small sizes get visited most.
    pub fn size(&mut self, min: usize, max: usize) -> usize {
        let max = max.max(min);
        let cap = match self.rng.below(10) {
            0..=3 => min + (max - min) / 6,
            4..=7 => min + (max - min) / 2,
            _ => max,
        };
        self.rng.range(min as u64, cap.max(min) as u64) as usize
    }
}

pub fn hash64(parts: &[u64]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for &p in parts {
        h ^= p;
        h = h.wrapping_mul(0x1000_0000_01b3);
        h ^= h >> 29;
    }
    h
}
pub fn hash_str(s: &str) -> u64 {
    hash64(&s.bytes().map(u64::from).collect::<Vec<_>>())
}
pub fn hash_u32s(v: &[u32]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ v.len() as u64;
    for &p in v {
        h ^= u64::from(p);
        h = h.wrapping_mul(0x1000_0000_01b3);
        h ^= h >> 29;
    }
    h
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => { if !$c { return Err(format!($($arg)*)); } };
}

#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err(format!("{}: got {:?}, oracle says {:?}", format!($($arg)*), a, b)); }
    }};
}

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Case) -> R,
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// message of the panic caught last
pub fn last_panic() -> String {
    LAST_PANIC.lock().map(|l| l.clone()).unwrap_or_default()
}

pub fn main_loop(props: &[Prop]) {
    let mut a: BTreeMap<String, String> = BTreeMap::new();
    let mut it = std::env::args().skip(1);
    while let Some(k) = it.next() {
        let v = it.next().unwrap_or_default();
        a.insert(k.trim_start_matches('-').to_string(), v);
    }
    let get = |k: &str, d: &str| a.get(k).cloned().unwrap_or_else(|| d.to_string());
    let prop_id = get("prop", "");
    let seed: u64 = get("seed", "1").parse().unwrap();
    let worker: u64 = get("worker", "0").parse().unwrap();
    let workers: u64 = get("workers", "1").parse().unwrap();
    let max_cases: u64 = get("max-cases", "100").parse().unwrap();
    let start: u64 = get("start", "0").parse().unwrap();
    let time_ms: u64 = get("time-ms", "30000").parse().unwrap();
    let out = get("out", "/dev/stderr");
    let progress = get("progress", "");
    let tier = get("tier", "quick");
    let only: Option<u64> = a.get("case").map(|c| c.parse().unwrap());
    let scratch = std::path::PathBuf::from(get("scratch", "/tmp/vh_scratch"));
    let repeat: u64 = get("repeat", "1").parse().unwrap();

    let prop = props.iter().find(|p| p.id == prop_id).unwrap_or_else(|| {
        eprintln!("unknown property {}", prop_id);
        std::process::exit(3)
    });
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<panic>".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var("VH_BT").is_ok() {
            eprintln!("{}\n{}", msg, std::backtrace::Backtrace::force_capture());
        }
        if let Ok(mut l) = LAST_PANIC.lock() {
            if l.is_empty() {
                *l = format!("panic '{}' at {}", msg.chars().take(400).collect::<String>(), loc);
            }
        }
    }));

    let mut pf = if progress.is_empty() {
        None
    } else {
        Some(std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(&progress).unwrap())
    };
    let t0 = Instant::now();
    let mut total = Stats::default();
    let mut executed = 0u64;
    let mut violation: Option<(u64, String)> = None;
    let mut slowest = Duration::ZERO;
    let mut slowest_case = 0;
    let base = hash64(&[seed, hash_str(prop.id)]);

    let mut idx = match only {
        Some(c) => c,
        None => start + worker,
    };
    let mut reps = repeat;
    loop {
        if only.is_none() {
            if idx >= start + max_cases || t0.elapsed() > Duration::from_millis(time_ms) {
                break;
            }
        } else if reps == 0 {
            break;
        }
        reps = reps.saturating_sub(1);
        if let Some(f) = pf.as_mut() {
            let _ = f.seek(SeekFrom::Start(0));
            let _ = f.write_all(format!("{:020}\n", idx).as_bytes());
        }
        let mut case = Case {
            idx,
            thorough: tier == "thorough",
            rng: Rng::new(hash64(&[base, idx])),
            stats: Stats::default(),
            scratch: scratch.clone(),
        };
        if let Ok(mut l) = LAST_PANIC.lock() {
            l.clear();
        }
        let c0 = Instant::now();
        let res = catch_unwind(AssertUnwindSafe(|| (prop.run)(&mut case)));
        let el = c0.elapsed();
        if el > slowest {
            slowest = el;
            slowest_case = idx;
        }
        executed += 1;
        let s = case.stats;
        total.evaluations += s.evaluations;
        for (k, v) in s.counters {
            *total.counters.entry(k).or_insert(0) += v;
        }
        total.distinct.extend(s.distinct);
        if total.samples.len() < 3 {
            for x in s.samples {
                if total.samples.len() < 3 {
                    total.samples.push(format!("case {}: {}", idx, x));
                }
            }
        }
        let err = match res {
            Ok(Ok(())) => None,
            Ok(Err(e)) => Some(e),
            Err(_) => Some(LAST_PANIC.lock().map(|l| l.clone()).unwrap_or_else(|_| "panic".into())),
        };
        if let Some(e) = err {
            violation = Some((idx, e));
            break;
        }
        if only.is_none() {
            idx += workers;
        }
    }
    let mut o = String::new();
    o.push_str(&format!(
        "{{\"executed\":{},\"evaluations\":{},\"slowest_ms\":{},\"slowest_case\":{},\"wall_ms\":{},",
        executed,
        total.evaluations,
        slowest.as_millis(),
        slowest_case,
        t0.elapsed().as_millis()
    ));
    o.push_str("\"counters\":{");
    o.push_str(&total.counters.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect::<Vec<_>>().join(","));
    o.push_str("},\"samples\":[");
    o.push_str(&total.samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","));
    // fingerprints go to the parent so that distinctness is counted across workers
    o.push_str("],\"distinct\":[");
    o.push_str(&total.distinct.iter().take(200_000).map(|s| s.to_string()).collect::<Vec<_>>().join(","));
    o.push_str(&format!("],\"distinct_total\":{}", total.distinct.len()));
    if let Some((i, e)) = &violation {
        o.push_str(&format!(",\"violation\":{{\"case\":{},\"message\":{}}}", i, json_str(e)));
    }
    o.push('}');
    std::fs::write(&out, o).unwrap();
    std::process::exit(if violation.is_some() { 1 } else { 0 });
}
