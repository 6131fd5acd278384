//! Running cases in parallel, counting what was observed, and reporting to the driver (`check.py`).
use crate::rng::Rng;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub threads: usize,
    /// only run this case of this workload
    pub only: Option<(String, u64)>,
    pub cur_dir: Option<String>,
    pub start: Instant,
    pub total: Mutex<Tally>,
    pub scale: f64,
    /// run the cases which are `.0` modulo `.1`
    pub shard: (u64, u64),
}

#[derive(Default)]
pub struct Tally {
    pub evals: u64,
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub viols: Vec<Viol>,
    pub known: BTreeMap<String, String>,
}

#[derive(Clone)]
pub struct Viol {
    pub work: String,
    pub case: u64,
    pub what: String,
}

impl Tally {
    pub fn hit(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(v) = self.counters.get_mut(k) {
            *v += n
        } else {
            self.counters.insert(k.to_string(), n);
        }
    }
    /// A distinct, non-trivial observation
    pub fn saw(&mut self, x: &impl std::hash::Hash) {
        use std::hash::Hasher;
        if self.distinct.len() < 400_000 {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            x.hash(&mut h);
            self.distinct.insert(h.finish());
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            self.samples.push(f())
        }
    }
    fn merge(&mut self, o: Tally) {
        self.evals += o.evals;
        for (k, v) in o.counters {
            *self.counters.entry(k).or_insert(0) += v
        }
        self.distinct.extend(o.distinct);
        for s in o.samples {
            if self.samples.len() < 6 {
                self.samples.push(s)
            }
        }
        self.viols.extend(o.viols);
        self.known.extend(o.known);
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Runs `f`, turning a panic into its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let m = e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "?".into());
        format!("panicked: {}", m)
    })
}

impl Ctx {
    pub fn new(prop: &str) -> Ctx {
        let e = |k: &str| std::env::var(k).ok();
        if e("VERIF_PANICS").is_none() { std::panic::set_hook(Box::new(|_| {})) }
        let only = e("VERIF_CASE").and_then(|s| {
            let (a, b) = s.rsplit_once(':')?;
            Some((a.to_string(), b.parse().ok()?))
        });
        Ctx {
            prop: prop.to_string(),
            thorough: e("VERIF_TIER").as_deref() == Some("thorough"),
            seed: e("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1),
            threads: e("VERIF_THREADS").and_then(|s| s.parse().ok()).unwrap_or(8),
            only,
            cur_dir: e("VERIF_CUR").filter(|d| !d.is_empty()),
            start: Instant::now(),
            total: Mutex::new(Tally::default()),
            shard: e("VERIF_SHARDS")
                .and_then(|s| {
                    let (a, b) = s.split_once('/')?;
                    Some((a.parse().ok()?, b.parse().ok()?))
                })
                .unwrap_or((0, 1)),
            scale: e("VERIF_SCALE").and_then(|s| s.parse().ok()).unwrap_or(1.0),
        }
    }

    /// Runs up to `quick` (or `thorough`) cases of the workload `work`, stopping early after `secs` seconds.
    /// The PRNG of a case depends only on (seed, work, case number).
    pub fn par(
        &self,
        work: &str,
        quick: u64,
        thorough: u64,
        secs: (u64, u64),
        f: impl Fn(&mut Rng, u64, &mut Tally) + Sync,
    ) {
        let n = if self.thorough { thorough } else { quick };
        let n = (n as f64 * self.scale) as u64;
        let limit = Duration::from_secs(if self.thorough { secs.1 } else { secs.0 });
        let salt = work.bytes().fold(17u64, |a, b| a.wrapping_mul(1099511628211).wrapping_add(b as u64));
        if let Some((w, c)) = &self.only {
            if w != work {
                return;
            }
            let mut t = Tally::default();
            let mut r = Rng::case(self.seed, salt, *c);
            self.one(work, *c, &mut r, &mut t, &f);
            self.total.lock().unwrap().merge(t);
            return;
        }
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        std::thread::scope(|s| {
            for th in 0..self.threads {
                let (next, stop, f) = (&next, &stop, &f);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        let mut t = Tally::default();
                        let cur = self.cur_dir.as_ref().and_then(|d| std::fs::File::create(format!("{}/{}", d, th)).ok());
                        let mut bad = 0;
                        while !stop.load(Ordering::Relaxed) {
                            let b = next.fetch_add(16, Ordering::Relaxed);
                            if b >= n {
                                break;
                            }
                            for c in b..(b + 16).min(n) {
                                if let Some(f) = &cur {
                                    use std::os::unix::fs::FileExt;
                                    let s = format!("{}:{}\n{:20}\n", work, c, "");
                                    let _ = f.write_at(s.as_bytes(), 0);
                                }
                                if c % self.shard.1 != self.shard.0 {
                                    continue;
                                }
                                if t0.elapsed() > limit {
                                    break;
                                }
                                let mut r = Rng::case(self.seed, salt, c);
                                self.one(work, c, &mut r, &mut t, f);
                            }
                            if t.viols.len() > bad {
                                bad = t.viols.len();
                                if bad >= 3 {
                                    stop.store(true, Ordering::Relaxed)
                                }
                            }
                            if t0.elapsed() > limit {
                                t.hit("stopped_at_time_limit");
                                stop.store(true, Ordering::Relaxed)
                            }
                        }
                        if let Some(f) = &cur {
                            let _ = f.set_len(0);
                        }
                        self.total.lock().unwrap().merge(t);
                    })
                    .unwrap();
            }
        });
    }

    fn one(&self, work: &str, c: u64, r: &mut Rng, t: &mut Tally, f: &(impl Fn(&mut Rng, u64, &mut Tally) + Sync)) {
        let before = t.viols.len();
        let t0 = Instant::now();
        if let Err(e) = guard(|| f(r, c, t)) {
            // Panics of the code under test are caught where it is called: this is an error of the harness
            t.add("harness_panics", 1);
            t.sample(|| format!("harness panic in {}:{}: {}", work, c, e));
            eprintln!("harness panic in {}:{}: {}", work, c, e);
        }
        if t0.elapsed().as_secs() >= 5 && t.viols.len() == before {
            eprintln!("slow: {}:{} took {:?}", work, c, t0.elapsed());
            t.hit("cases_of_5_s_or_more")
        }
        for v in &mut t.viols[before..] {
            v.work = work.to_string();
            v.case = c;
        }
    }

    /// Prints the results for the driver. `min` are counters which must have reached a value for the run to
    /// mean anything.
    pub fn finish(self, rule: &str, min: &[(&str, u64)]) -> ! {
        let t = self.total.into_inner().unwrap();
        let mut inconclusive = Vec::new();
        if self.only.is_none() && t.viols.is_empty() {
            for (k, n) in min {
                let v = if *k == "evaluations" { t.evals } else { t.counters.get(*k).cloned().unwrap_or(0) };
                let n = (*n as f64 * self.scale.min(1.0) / self.shard.1 as f64) as u64 / if cfg!(miri) { 10 } else { 1 };
                if v < n {
                    inconclusive.push(format!("{}={} below {}", k, v, n))
                }
            }
        }
        if t.counters.get("harness_panics").is_some() {
            inconclusive.push("harness panicked".into())
        }
        let mut o = String::new();
        let _ = write!(
            o,
            "{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"counters\":{{{}}},\"inconclusive\":[{}],\"wall_s\":{:.2}}}",
            t.evals,
            t.distinct.len(),
            js(rule),
            t.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
            t.counters.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","),
            inconclusive.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
            self.start.elapsed().as_secs_f64()
        );
        let mut v = t.viols;
        v.sort_by_key(|v| v.what.len());
        for v in v.iter().take(5) {
            println!("@viol {{\"work\":{},\"case\":{},\"what\":{}}}", js(&v.work), v.case, js(&v.what));
        }
        for (k, d) in &t.known {
            println!("@known {{\"sig\":{},\"what\":{}}}", js(k), js(d));
        }
        println!("@evidence {}", o);
        std::process::exit(if v.is_empty() { 0 } else { 1 })
    }
}

impl Tally {
    pub fn violation(&mut self, what: String) {
        self.viols.push(Viol { work: String::new(), case: 0, what })
    }
}

/// Known findings are read from the committed file; `sig` identifies the failing input or call site.
pub fn is_known(prop: &str, sig: &str) -> bool {
    lazy_known().iter().any(|(p, s)| p == prop && s == sig)
}

fn lazy_known() -> &'static Vec<(String, String)> {
    static K: std::sync::OnceLock<Vec<(String, String)>> = std::sync::OnceLock::new();
    K.get_or_init(|| {
        let p = std::env::var("VERIF_KNOWN").unwrap_or_else(|_| "/verif/known_findings.txt".into());
        std::fs::read_to_string(p)
            .unwrap_or_default()
            .lines()
            .filter_map(|l| {
                let l = l.strip_prefix("known: property=")?;
                let (p, l) = l.split_once(' ')?;
                let l = l.strip_prefix("signature=")?;
                let s = l.split(' ').next()?;
                Some((p.to_string(), s.to_string()))
            })
            .collect()
    })
}
