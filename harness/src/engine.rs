//! A small property-based testing engine: recorded choice sequences, labels,
//! shrinking by editing the choices, deterministic work split over threads.

use std::{
    collections::{BTreeMap, HashSet},
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicU64, Ordering},
        Mutex,
    },
    time::Instant,
};

use serde::{de::DeserializeOwned, Serialize};

use crate::cli::Env;

// ------------------------------------------------------------------ generator

/// Source of choices. 0 is always the simplest choice.
pub struct G {
    state: [u64; 2],
    replay: Option<Vec<u64>>,
    pub rec: Vec<u64>,
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for &x in b {
        h ^= x as u64;
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    let mut s = h;
    splitmix(&mut s)
}

impl G {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        G { state: [splitmix(&mut s), splitmix(&mut s) | 1], replay: None, rec: vec![] }
    }

    pub fn replaying(choices: Vec<u64>) -> Self {
        G { state: [1, 1], replay: Some(choices), rec: vec![] }
    }

    fn next(&mut self) -> u64 {
        // xoroshiro128+
        let [s0, mut s1] = self.state;
        let r = s0.wrapping_add(s1);
        s1 ^= s0;
        self.state = [s0.rotate_left(24) ^ s1 ^ (s1 << 16), s1.rotate_left(37)];
        r >> 1
    }

    /// A number in `0..n`.
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let v = match &self.replay {
            Some(r) => r.get(self.rec.len()).copied().unwrap_or(0).min(n as u64 - 1),
            None => self.next() % n as u64,
        };
        self.rec.push(v);
        v as usize
    }

    /// A number in `lo..=hi`, simplest is `lo`.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }

    /// True with probability `num / den`; simplest is false.
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }

    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }

    /// Index chosen with the given weights; simplest is 0.
    pub fn weighted(&mut self, ws: &[usize]) -> usize {
        let total: usize = ws.iter().sum();
        let mut v = self.below(total);
        for (i, &w) in ws.iter().enumerate() {
            if v < w {
                return i;
            }
            v -= w;
        }
        unreachable!()
    }

    pub fn permutation(&mut self, n: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        for i in 0..n.saturating_sub(1) {
            let j = i + self.below(n - i);
            v.swap(i, j);
        }
        v
    }
}

// ------------------------------------------------------------------- outcomes

pub struct Report {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
}

pub enum Fail {
    /// The property is broken.
    Violation(String),
    /// The check itself could not decide (infrastructure).
    Broken(String),
}

pub type Outcome = Result<Report, Fail>;

#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err($crate::engine::Fail::Violation(format!($($t)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { $crate::fail!($($t)*) } };
}

pub struct Known {
    /// What is printed after KNOWN-FINDING: property=<id>
    pub what: String,
    pub case: serde_json::Value,
}

pub struct Prop<C> {
    pub id: &'static str,
    pub rule: &'static str,
    pub gen: fn(&mut G) -> Option<C>,
    pub run: fn(&C, &mut Env) -> Outcome,
    /// Hand-written cases that are always run first.
    pub fixed: fn() -> Vec<C>,
    pub quick: usize,
    pub thorough: usize,
}

pub struct Ctx {
    pub seed: u64,
    pub tier: String,
    pub bin: String,
    pub verif: String,
    pub cases: Option<usize>,
    pub knowns: Vec<Known>,
    pub time_cap: f64,
    pub threads: usize,
    pub dump: usize,
}

const CHUNK: usize = 25;

struct Acc {
    evals: u64,
    discarded: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<serde_json::Value>,
    runs: u64,
}

fn run_case<C>(p: &Prop<C>, c: &C, env: &mut Env) -> Outcome {
    match catch_unwind(AssertUnwindSafe(|| (p.run)(c, env))) {
        Ok(o) => o,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            Err(Fail::Broken(format!("harness panicked: {m}")))
        }
    }
}

fn violation_of(o: Outcome) -> Option<String> {
    match o {
        Err(Fail::Violation(m)) => Some(m),
        _ => None,
    }
}

fn shrink<C: Serialize>(p: &Prop<C>, choices: Vec<u64>, env: &mut Env) -> Vec<u64> {
    let start = Instant::now();
    let mut best = choices;
    let mut tries = 0usize;
    let mut attempt = |cand: Vec<u64>, best: &mut Vec<u64>, env: &mut Env| -> bool {
        if tries > 4000 || start.elapsed().as_secs() > 90 {
            return false;
        }
        tries += 1;
        let mut g = G::replaying(cand);
        let Some(c) = (p.gen)(&mut g) else { return false };
        // Compare what the generator really consumed.
        let used = g.rec;
        if (used.len(), &used) >= (best.len(), &*best) {
            return false;
        }
        if violation_of(run_case(p, &c, env)).is_some() {
            *best = used;
            true
        } else {
            false
        }
    };
    loop {
        let before = best.clone();
        // Delete blocks.
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                let mut cand = best.clone();
                cand.drain(i..(i + size).min(cand.len()));
                if !attempt(cand, &mut best, env) {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // Zero, halve, decrement.
        let mut i = 0;
        while i < best.len() {
            if best[i] != 0 {
                let v = best[i];
                for nv in [0, v / 2, v - 1] {
                    if i < best.len() && nv < best[i] {
                        let mut cand = best.clone();
                        cand[i] = nv;
                        attempt(cand, &mut best, env);
                    }
                }
                // Lower a count and drop one element at once.
                if i < best.len() && best[i] > 0 {
                    for w in 1..=12 {
                        if i + 1 + w > best.len() || best[i] == 0 {
                            break;
                        }
                        let mut cand = best.clone();
                        cand[i] -= 1;
                        cand.drain(i + 1..i + 1 + w);
                        if attempt(cand, &mut best, env) {
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before {
            return best;
        }
    }
}

/// Shrunk cases that failed before a defect of bulloak was repaired, and of
/// planted defects that took luck to find.
fn regressions<C: DeserializeOwned>(ctx: &Ctx, id: &str) -> Result<Vec<C>, String> {
    let Ok(d) = std::fs::read_dir(format!("{}/regress", ctx.verif)) else { return Ok(vec![]) };
    let mut files: Vec<_> = d.flatten().map(|e| e.path()).collect();
    files.sort();
    let mut v = vec![];
    for f in files {
        let name = f.file_name().unwrap_or_default().to_string_lossy().into_owned();
        if !name.starts_with(id) || !name.ends_with(".json") {
            continue;
        }
        let s = std::fs::read_to_string(&f).map_err(|e| format!("{name}: {e}"))?;
        let j: serde_json::Value = serde_json::from_str(&s).map_err(|e| format!("{name}: {e}"))?;
        v.push(serde_json::from_value(j["case"].clone()).map_err(|e| format!("{name}: {e}"))?);
    }
    Ok(v)
}

fn write_replay<C: Serialize>(ctx: &Ctx, id: &str, case: &C, msg: &str) -> String {
    let dir = format!("{}/replays", ctx.verif);
    let _ = std::fs::create_dir_all(&dir);
    let v = serde_json::json!({"property": id, "message": msg, "seed": ctx.seed, "case": case});
    let s = serde_json::to_string_pretty(&v).unwrap();
    let path = format!("{dir}/{id}-{:08x}.json", hash_bytes(s.as_bytes()) as u32);
    std::fs::write(&path, s).expect("write replay");
    path
}

pub fn replay<C: Serialize + DeserializeOwned>(p: &Prop<C>, ctx: &Ctx, v: serde_json::Value) -> i32 {
    let c: C = serde_json::from_value(v).expect("replay case has the wrong shape");
    let mut env = Env::new(ctx, 0);
    match run_case(p, &c, &mut env) {
        Ok(_) => {
            println!("replay: property {} holds on this case", p.id);
            0
        }
        Err(Fail::Violation(m)) => {
            println!("replay: VIOLATED\n{m}");
            1
        }
        Err(Fail::Broken(m)) => {
            println!("replay: check error: {m}");
            2
        }
    }
}

/// Runs a property; returns the exit status.
pub fn check<C: Serialize + DeserializeOwned + Send>(p: &Prop<C>, ctx: &Ctx) -> i32 {
    let start = Instant::now();
    crate::cli::start_watchdog();
    let target = ctx.cases.unwrap_or(if ctx.tier == "thorough" { p.thorough } else { p.quick });
    let chunks = target.div_ceil(CHUNK) as u64;

    let mut env0 = Env::new(ctx, 1000);
    // Known findings: confirm that they still fail, and say so.
    let mut known_lines = vec![];
    for k in &ctx.knowns {
        let c: C = serde_json::from_value(k.case.clone()).expect("known finding has the wrong shape");
        match run_case(p, &c, &mut env0) {
            Err(Fail::Violation(_)) => {
                let l = format!("KNOWN-FINDING: property={} {}", p.id, k.what);
                println!("{l}");
                known_lines.push(l);
            }
            Ok(_) => println!("note: the known finding no longer fails: {}", k.what),
            Err(Fail::Broken(m)) => {
                eprintln!("error: known finding could not be run: {m}");
                return 2;
            }
        }
    }

    let mut violations: Vec<(String, String)> = vec![];
    let mut fixed_n = 0u64;
    let mut fixed = (p.fixed)();
    match regressions(ctx, p.id) {
        Ok(v) => fixed.extend(v),
        Err(m) => {
            eprintln!("error: {m}");
            return 2;
        }
    }
    for c in fixed {
        fixed_n += 1;
        match run_case(p, &c, &mut env0) {
            Ok(_) => {}
            Err(Fail::Violation(m)) => {
                let path = write_replay(ctx, p.id, &c, &m);
                violations.push((m, path));
                break;
            }
            Err(Fail::Broken(m)) => {
                eprintln!("error: {} fixed case: {m}", p.id);
                return 2;
            }
        }
    }

    let next = AtomicU64::new(0);
    let failing = AtomicU64::new(u64::MAX);
    let found: Mutex<Vec<(u64, Vec<u64>, String)>> = Mutex::new(vec![]);
    let broken: Mutex<Option<String>> = Mutex::new(None);
    let total: Mutex<Acc> = Mutex::new(Acc {
        evals: fixed_n,
        discarded: 0,
        nontrivial: 0,
        distinct: HashSet::new(),
        labels: BTreeMap::new(),
        samples: vec![],
        runs: 0,
    });
    let capped = AtomicU64::new(0);

    if violations.is_empty() {
        std::thread::scope(|s| {
            for t in 0..ctx.threads {
                let (next, failing, found, broken, total, capped) =
                    (&next, &failing, &found, &broken, &total, &capped);
                s.spawn(move || {
                    let mut env = Env::new(ctx, t);
                    let mut acc = Acc {
                        evals: 0,
                        discarded: 0,
                        nontrivial: 0,
                        distinct: HashSet::new(),
                        labels: BTreeMap::new(),
                        samples: vec![],
                        runs: 0,
                    };
                    'outer: loop {
                        let k = next.fetch_add(1, Ordering::SeqCst);
                        if k >= chunks || k > failing.load(Ordering::SeqCst) {
                            break;
                        }
                        if start.elapsed().as_secs_f64() > ctx.time_cap {
                            capped.store(1, Ordering::SeqCst);
                            break;
                        }
                        if broken.lock().unwrap().is_some() {
                            break;
                        }
                        let seed = hash_bytes(format!("{}/{}/{k}", ctx.seed, p.id).as_bytes());
                        let mut s = seed;
                        for i in 0..CHUNK {
                            let mut g = G::new(splitmix(&mut s));
                            let Some(c) = (p.gen)(&mut g) else {
                                acc.discarded += 1;
                                continue;
                            };
                            acc.evals += 1;
                            match run_case(p, &c, &mut env) {
                                Ok(r) => {
                                    for l in r.labels {
                                        *acc.labels.entry(l).or_default() += 1;
                                    }
                                    if r.nontrivial {
                                        acc.nontrivial += 1;
                                        let js = serde_json::to_vec(&c).unwrap();
                                        acc.distinct.insert(hash_bytes(&js));
                                        if i == 7 && k < 6 {
                                            acc.samples.push(serde_json::to_value(&c).unwrap());
                                        }
                                    }
                                    if k * CHUNK as u64 + (i as u64) < ctx.dump as u64 {
                                        println!("{}", serde_json::to_string(&c).unwrap());
                                    }
                                }
                                Err(Fail::Violation(m)) => {
                                    failing.fetch_min(k, Ordering::SeqCst);
                                    found.lock().unwrap().push((k, g.rec, m));
                                    break 'outer;
                                }
                                Err(Fail::Broken(m)) => {
                                    *broken.lock().unwrap() = Some(m);
                                    let path = write_replay(ctx, p.id, &c, "check error");
                                    eprintln!("case saved in {path}");
                                    break 'outer;
                                }
                            }
                        }
                    }
                    acc.runs = env.runs;
                    let mut t = total.lock().unwrap();
                    t.evals += acc.evals;
                    t.discarded += acc.discarded;
                    t.nontrivial += acc.nontrivial;
                    t.runs += acc.runs;
                    t.distinct.extend(acc.distinct);
                    t.samples.extend(acc.samples);
                    for (l, n) in acc.labels {
                        *t.labels.entry(l).or_default() += n;
                    }
                });
            }
        });
    }

    let mut found = found.into_inner().unwrap();
    found.sort_by_key(|f| f.0);
    if let Some((_, choices, first_msg)) = found.into_iter().next() {
        // A violation must reproduce before it is believed.
        let mut g = G::replaying(choices.clone());
        let case = (p.gen)(&mut g).expect("recorded case");
        match run_case(p, &case, &mut env0) {
            Err(Fail::Violation(_)) => {
                let small = shrink(p, choices, &mut env0);
                let mut g = G::replaying(small);
                let case = (p.gen)(&mut g).expect("shrunk case");
                let msg = violation_of(run_case(p, &case, &mut env0)).unwrap_or(first_msg);
                let path = write_replay(ctx, p.id, &case, &msg);
                violations.push((msg, path));
            }
            // Behaviour that differs between two runs of the same command is
            // itself reported with the first message.
            Ok(_) => {
                let mut again = 0;
                let mut msg = first_msg.clone();
                for _ in 0..40 {
                    if let Err(Fail::Violation(m)) = run_case(p, &case, &mut env0) {
                        again += 1;
                        msg = m;
                    }
                }
                if again > 0 {
                    let path = write_replay(ctx, p.id, &case, &msg);
                    violations.push((format!("{msg}\n(intermittent: {again} of 40 runs)"), path));
                } else {
                    eprintln!("error: a failure did not reproduce: {first_msg}");
                    return 2;
                }
            }
            Err(Fail::Broken(m)) => {
                eprintln!("error: {m}");
                return 2;
            }
        }
    } else if let Some(m) = broken.into_inner().unwrap() {
        eprintln!("error: check {}: {m}", p.id);
        return 2;
    }

    let t = total.into_inner().unwrap();
    let viol: Vec<_> = violations
        .iter()
        .map(|(m, path)| serde_json::json!({"message": m, "replay": path}))
        .collect();
    let mut coverage = serde_json::json!({
        "violations_found": viol,
        "evaluations": t.evals,
        "distinct_nontrivial": t.distinct.len(),
        "rule": p.rule,
        "samples": t.samples,
        "nontrivial": t.nontrivial,
        "discarded_by_generator": t.discarded,
        "process_runs": t.runs + env0.runs,
        "labels": t.labels,
        "fixed_cases": fixed_n,
        "known_findings_confirmed": known_lines,
    });
    if capped.load(Ordering::SeqCst) == 1 {
        coverage["stopped_by_time_cap"] = true.into();
    }
    let ev = serde_json::json!({
        "property": p.id,
        "tier": ctx.tier,
        "seed": ctx.seed,
        "level": "exploration",
        "coverage": coverage,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": violations.len(),
    });
    let dir = format!("{}/evidence", ctx.verif);
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{dir}/{}.json", p.id), serde_json::to_string_pretty(&ev).unwrap())
        .expect("write evidence");

    if violations.is_empty() {
        println!(
            "ok property={} cases={} distinct_nontrivial={} runs={} wall={:.1}s",
            p.id,
            t.evals,
            t.distinct.len(),
            t.runs,
            start.elapsed().as_secs_f64()
        );
        0
    } else {
        for (m, path) in &violations {
            println!("{m}");
            println!("VIOLATION property={} replay={path}", p.id);
        }
        1
    }
}
