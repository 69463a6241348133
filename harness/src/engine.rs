//! A small property-based testing engine.
//!
//! Every random decision of a generator goes through [`Src::below`], which records it on a "choice tape".
//! A case is a pure function of its tape; a failing case is shrunk by shortening and lowering the tape and
//! is replayed from it. Case `i` of an arm is seeded by (VERIF_SEED, property, arm, i) only, so a run does not
//! depend on thread scheduling.
use std::{
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    hash::{Hash, Hasher},
    panic::{catch_unwind, AssertUnwindSafe},
    path::{Path, PathBuf},
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Mutex,
    },
    time::Instant,
};

pub struct Src {
    pub tape: Vec<u64>,
    pos: usize,
    rng: Option<u64>,
}

fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn fnv(data: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in data {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    h
}

struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 ^= *b as u64;
            self.0 = self.0.wrapping_mul(0x100_0000_01b3);
        }
    }
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Self {
            tape: Vec::new(),
            pos: 0,
            rng: Some(seed),
        }
    }
    /// Replays a tape; decisions beyond its end are 0 (the simplest ones).
    pub fn replay(tape: Vec<u64>) -> Self {
        Self {
            tape,
            pos: 0,
            rng: None,
        }
    }
    /// A tape prefix, with random decisions after it.
    pub fn prefixed(tape: Vec<u64>, seed: u64) -> Self {
        Self {
            tape,
            pos: 0,
            rng: Some(seed),
        }
    }
    /// 0..n, 0 being the simplest choice
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        if self.pos < self.tape.len() {
            let v = self.tape[self.pos] % n;
            self.tape[self.pos] = v;
            self.pos += 1;
            return v;
        }
        let v = match &mut self.rng {
            Some(state) => {
                // n is always tiny compared to 2^64: the modulo bias is irrelevant
                splitmix(state) % n
            }
            None => 0,
        };
        self.tape.push(v);
        self.pos += 1;
        v
    }
    /// lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as i64, hi as i64) as usize
    }
    /// True with probability num/den. Shrinks towards false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.chance(1, 2)
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.below(items.len() as u64) as usize]
    }
    pub fn weighted(&mut self, weights: &[u32]) -> usize {
        let total: u64 = weights.iter().map(|w| *w as u64).sum();
        let mut v = self.below(total);
        for (i, w) in weights.iter().enumerate() {
            if v < *w as u64 {
                return i;
            }
            v -= *w as u64;
        }
        unreachable!()
    }
    /// A mostly small number in lo..=hi (geometric-ish)
    pub fn small(&mut self, lo: usize, hi: usize) -> usize {
        let mut v = lo;
        while v < hi && self.chance(1, 2) {
            v += 1;
        }
        v
    }
    pub fn used(&self) -> usize {
        self.pos
    }
}

#[derive(Debug, Clone)]
pub struct Fail {
    /// Stable key of the failure: what is compared with the known-findings file
    pub sig: String,
    pub msg: String,
}

pub type CaseResult = Result<(), Fail>;

pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail {
        sig: sig.into(),
        msg: msg.into(),
    })
}

/// Like println!, but the other end may be gone
macro_rules! say {
    ($to:ident, $($arg:tt)*) => {{
        use std::io::Write;
        let text = format!($($arg)*);
        // Whole acts would be endless
        let end = text.char_indices().nth(20_000).map_or(text.len(), |x| x.0);
        let _ = writeln!(std::io::$to(), "{}", &text[..end]);
    }};
}

#[macro_export]
macro_rules! check {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !($cond) {
            return $crate::engine::fail($sig, format!($($arg)*));
        }
    };
}

#[macro_export]
macro_rules! check_eq {
    ($a:expr, $b:expr, $sig:expr, $($arg:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if *a != *b {
            return $crate::engine::fail($sig, format!("{}\n  got:      {:?}\n  expected: {:?}", format!($($arg)*), a, b));
        }
    }};
}

/// What a case tells the runner about itself
pub struct Case {
    pub src: Src,
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    key: Option<u64>,
    desc: Option<String>,
    want_desc: bool,
}

impl Case {
    fn new(src: Src, want_desc: bool) -> Self {
        Self {
            src,
            nontrivial: false,
            labels: Vec::new(),
            key: None,
            desc: None,
            want_desc,
        }
    }
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, cond: bool, l: &'static str) {
        if cond {
            self.label(l);
        }
    }
    pub fn nontrivial_if(&mut self, cond: bool) {
        self.nontrivial |= cond;
    }
    /// The input of the case, for counting distinct ones
    pub fn input(&mut self, k: impl Hash) {
        let mut h = Fnv(self.key.unwrap_or(0xcbf2_9ce4_8422_2325));
        k.hash(&mut h);
        self.key = Some(h.finish());
    }
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            let d = f();
            match &mut self.desc {
                Some(x) => {
                    x.push('\n');
                    x.push_str(&d);
                }
                None => self.desc = Some(d),
            }
        }
    }
    fn final_key(&self) -> u64 {
        self.key.unwrap_or_else(|| {
            let mut h = Fnv(0xcbf2_9ce4_8422_2325);
            self.src.tape[..self.src.used()].hash(&mut h);
            h.finish()
        })
    }
}

pub enum Kind {
    /// Random cases: (quick, thorough) counts
    Random(u64, u64),
    /// The first decision enumerates 0..n completely; repeated `reps` (quick, thorough) times with
    /// different random continuations
    Enum(u64, u64, u64),
}

pub struct Arm {
    pub name: &'static str,
    pub kind: Kind,
    pub f: fn(&mut Case) -> CaseResult,
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub arms: Vec<Arm>,
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

/// Run some code of the library; a panic becomes a failure.
pub fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (msg, loc) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            let file = loc
                .rsplit_once(':')
                .map(|(f, _)| f.to_string())
                .unwrap_or_default();
            let file = match file.find("/src/") {
                Some(i) if file.contains("view") || file.contains("/repo/") => {
                    file[i + 1..].to_string()
                }
                _ => file,
            };
            fail(
                format!("panic in {what} ({file}): {}", first_words(&msg)),
                format!("panic in {what} at {loc}: {msg}"),
            )
        }
    }
}

fn first_words(s: &str) -> String {
    s.chars()
        .filter(|c| !c.is_ascii_digit())
        .take(60)
        .collect()
}

fn run_case(arm: &Arm, src: Src, want_desc: bool) -> (CaseResult, Case) {
    let mut case = Case::new(src, want_desc);
    let r = no_panic("check", || (arm.f)(&mut case));
    let r = match r {
        Ok(r) => r,
        Err(f) => Err(f),
    };
    (r, case)
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    nontrivial_evals: u64,
    labels: BTreeMap<String, u64>,
    seen: HashSet<u64>,
    samples: Vec<String>,
    known: BTreeMap<String, u64>,
}

pub struct Known {
    pub sig: String,
    pub what: String,
}

pub struct Config {
    pub seed: u64,
    pub thorough: bool,
    pub scale: f64,
    pub known: Vec<Known>,
    pub replay_dir: PathBuf,
    pub evidence: PathBuf,
    pub progress: Option<PathBuf>,
    pub threads: usize,
    pub only_arm: Option<String>,
    pub shrink_secs: u64,
}

fn case_seed(seed: u64, prop: &str, arm: &str, idx: u64) -> u64 {
    let mut s = fnv(format!("{seed}/{prop}/{arm}").as_bytes()) ^ idx.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    splitmix(&mut s)
}

pub fn case_src(cfg: &Config, prop: &Prop, arm: &Arm, idx: u64) -> Src {
    let s = case_seed(cfg.seed, prop.id, arm.name, idx);
    match arm.kind {
        Kind::Random(..) => Src::random(s),
        Kind::Enum(n, _, _) => Src::prefixed(vec![idx % n], s),
    }
}

fn total(cfg: &Config, arm: &Arm) -> u64 {
    match arm.kind {
        Kind::Random(q, t) => {
            let n = if cfg.thorough { t } else { q };
            ((n as f64 * cfg.scale) as u64).max(1)
        }
        Kind::Enum(n, q, t) => n * if cfg.thorough { t } else { q },
    }
}

/// Seconds after which a single case is declared stuck
const CASE_LIMIT_S: u64 = 120;
/// Exit code when that happens: the supervisor then runs the cases in question alone
pub const STUCK: i32 = 3;

pub fn shrink(arm: &Arm, tape: Vec<u64>, known: &[Known], max_evals: u64, secs: u64) -> (Vec<u64>, Fail) {
    let start = Instant::now();
    let mut evals = 0u64;
    let failing = |t: &[u64]| -> Option<(Vec<u64>, Fail)> {
        let (r, case) = run_case(arm, Src::replay(t.to_vec()), false);
        match r {
            Err(f) if !known.iter().any(|k| k.sig == f.sig) => {
                let used = case.src.used().min(case.src.tape.len());
                Some((case.src.tape[..used].to_vec(), f))
            }
            _ => None,
        }
    };
    let (mut best, mut best_fail) = match failing(&tape) {
        Some(x) => x,
        None => {
            return (
                tape,
                Fail {
                    sig: "flaky".into(),
                    msg: "case did not fail again on replay".into(),
                },
            )
        }
    };
    let better = |a: &[u64], b: &[u64]| a.len() < b.len() || (a.len() == b.len() && a < b);
    macro_rules! attempt {
        ($cand:expr) => {{
            evals += 1;
            let cand: Vec<u64> = $cand;
            let mut ok = false;
            if better(&cand, &best) {
                if let Some((t, f)) = failing(&cand) {
                    // The consumed tape may differ from the candidate (remapped or unused choices)
                    if better(&t, &best) {
                        best = t;
                        best_fail = f;
                        ok = true;
                    }
                }
            }
            ok
        }};
    }
    let spent = |evals: u64| evals > max_evals || start.elapsed().as_secs() > secs;
    loop {
        let before = best.clone();
        // Delete chunks
        for size in [64usize, 32, 16, 8, 4, 3, 2, 1] {
            let mut i = 0;
            while i + size <= best.len() {
                if spent(evals) {
                    return (best, best_fail);
                }
                let mut cand = best.clone();
                cand.drain(i..i + size);
                if !attempt!(cand) {
                    i += size.div_ceil(2).max(1);
                }
            }
        }
        // Zero chunks
        for size in [16usize, 4, 1] {
            let mut i = 0;
            while i + size <= best.len() {
                if spent(evals) {
                    return (best, best_fail);
                }
                if best[i..i + size].iter().any(|v| *v != 0) {
                    let mut cand = best.clone();
                    cand[i..i + size].iter_mut().for_each(|v| *v = 0);
                    attempt!(cand);
                }
                i += size;
            }
        }
        // Lower values
        let mut i = 0;
        while i < best.len() {
            let mut lo = 0;
            while i < best.len() && lo < best[i] {
                if spent(evals) {
                    return (best, best_fail);
                }
                let mid = lo + (best[i] - lo) / 2;
                let mut cand = best.clone();
                cand[i] = mid;
                if !attempt!(cand) {
                    lo = mid + 1;
                }
            }
            // Lower a length-like value and delete what follows it
            for k in 1..=3usize {
                if i < best.len() && best[i] > 0 && i + k < best.len() {
                    let mut cand = best.clone();
                    cand[i] -= 1;
                    cand.drain(i + 1..i + 1 + k);
                    attempt!(cand);
                }
            }
            i += 1;
        }
        if best == before {
            return (best, best_fail);
        }
    }
}

fn progress_write(f: &Option<std::fs::File>, slot: usize, arm: u64, idx: u64) {
    if let Some(f) = f {
        use std::os::unix::fs::FileExt;
        let mut b = [0u8; 16];
        b[..8].copy_from_slice(&(arm + 1).to_le_bytes());
        b[8..].copy_from_slice(&idx.to_le_bytes());
        let _ = f.write_at(&b, (slot * 16) as u64);
    }
}

pub fn write_replay(cfg: &Config, prop: &Prop, arm: &Arm, tape: &[u64], f: &Fail) -> PathBuf {
    let (_, case) = run_case(arm, Src::replay(tape.to_vec()), true);
    let j = serde_json::json!({
        "property": prop.id,
        "arm": arm.name,
        "tape": tape,
        "signature": f.sig,
        "message": f.msg,
        "case": case.desc,
        "replay_with": format!("bash /verif/run.sh replay <this file>"),
    });
    save_replay(cfg, prop.id, arm.name, &j)
}

pub fn save_replay(cfg: &Config, prop: &str, arm: &str, j: &serde_json::Value) -> PathBuf {
    let _ = std::fs::create_dir_all(&cfg.replay_dir);
    let path = cfg.replay_dir.join(format!(
        "{prop}-{arm}-{:08x}.json",
        fnv(j.to_string().as_bytes()) as u32
    ));
    std::fs::write(&path, serde_json::to_string_pretty(j).unwrap()).expect("writing replay");
    path
}

pub fn read_known(path: &Path, prop: &str) -> Vec<Known> {
    let Ok(text) = std::fs::read_to_string(path) else {
        return Vec::new();
    };
    let j: serde_json::Value = serde_json::from_str(&text).expect("known findings file");
    j["findings"]
        .as_array()
        .map(|a| {
            a.iter()
                .filter(|e| e["property"] == prop && e["status"] == "known")
                .map(|e| Known {
                    sig: e["signature"].as_str().unwrap().to_string(),
                    what: e["what"].as_str().unwrap().to_string(),
                })
                .collect()
        })
        .unwrap_or_default()
}

/// Returns the exit code
pub fn run_prop(prop: &Prop, cfg: &Config) -> i32 {
    let start = Instant::now();
    let progress = cfg.progress.as_ref().map(|p| {
        std::fs::OpenOptions::new()
            .create(true)
            .truncate(false)
            .write(true)
            .open(p)
            .expect("progress file")
    });
    let mut all: Vec<(usize, u64, Stats)> = Vec::new();
    let mut violation: Option<(PathBuf, Fail)> = None;
    #[allow(clippy::declare_interior_mutable_const)]
    const ZERO: AtomicU64 = AtomicU64::new(0);
    static TICK: [AtomicU64; 64] = [ZERO; 64];
    let t0 = Instant::now();
    let done = AtomicBool::new(false);
    std::thread::scope(|scope| {
        let done = &done;
        scope.spawn(move || {
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(std::time::Duration::from_millis(200));
                let now = t0.elapsed().as_secs();
                for t in TICK.iter() {
                    let v = t.load(Ordering::Relaxed);
                    if v != 0 && now + 1 > v + CASE_LIMIT_S {
                        say!(stderr, "ERROR: a single case has been running for over {CASE_LIMIT_S} s");
                        std::process::exit(STUCK);
                    }
                }
            }
        });
        for (arm_i, arm) in prop.arms.iter().enumerate() {
            if let Some(a) = &cfg.only_arm {
                if a != arm.name {
                    continue;
                }
            }
            let arm_start = Instant::now();
            let n = total(cfg, arm);
            let next = AtomicU64::new(0);
            let stop_at = AtomicU64::new(u64::MAX);
            let merged: Mutex<Stats> = Mutex::new(Stats::default());
            let failures: Mutex<Vec<(u64, Vec<u64>, Fail)>> = Mutex::new(Vec::new());
            let (next, stop_at, merged, failures, progress) =
                (&next, &stop_at, &merged, &failures, &progress);
            std::thread::scope(|s| {
                for slot in 0..cfg.threads {
                    std::thread::Builder::new()
                        .stack_size(32 << 20)
                        .spawn_scoped(s, move || {
                            let mut st = Stats::default();
                            let chunk = (n / (cfg.threads as u64 * 16)).clamp(1, 256);
                            'outer: loop {
                                let from = next.fetch_add(chunk, Ordering::Relaxed);
                                if from >= n {
                                    break;
                                }
                                for idx in from..(from + chunk).min(n) {
                                    if idx > stop_at.load(Ordering::Relaxed) {
                                        break 'outer;
                                    }
                                    progress_write(progress, slot, arm_i as u64, idx);
                                    TICK[slot].store(t0.elapsed().as_secs() + 1, Ordering::Relaxed);
                                    // A few samples per arm, taken at fixed indices
                                    let sample = idx % (n / 3).max(1) == (n / 7).min(50);
                                    let (r, mut case) =
                                        run_case(arm, case_src(cfg, prop, arm, idx), sample);
                                    st.evaluations += 1;
                                    for l in &case.labels {
                                        *st.labels.entry(l.to_string()).or_default() += 1;
                                    }
                                    if case.nontrivial {
                                        st.nontrivial_evals += 1;
                                        st.seen.insert(case.final_key());
                                    }
                                    if sample && st.samples.len() < 4 {
                                        if let Some(d) = case.desc.take() {
                                            let d: String = d.chars().take(1500).collect();
                                            st.samples.push(format!("[{}#{idx}] {d}", arm.name));
                                        }
                                    }
                                    if let Err(f) = r {
                                        if cfg.known.iter().any(|k| k.sig == f.sig) {
                                            *st.known.entry(f.sig.clone()).or_default() += 1;
                                        } else {
                                            stop_at.fetch_min(idx, Ordering::Relaxed);
                                            failures.lock().unwrap().push((
                                                idx,
                                                case.src.tape.clone(),
                                                f,
                                            ));
                                            break 'outer;
                                        }
                                    }
                                }
                            }
                            TICK[slot].store(0, Ordering::Relaxed);
                            let mut m = merged.lock().unwrap();
                            m.evaluations += st.evaluations;
                            m.nontrivial_evals += st.nontrivial_evals;
                            for (k, v) in st.labels {
                                *m.labels.entry(k).or_default() += v;
                            }
                            m.seen.extend(st.seen);
                            m.samples.extend(st.samples);
                            for (k, v) in st.known {
                                *m.known.entry(k).or_default() += v;
                            }
                        })
                        .unwrap();
                }
            });
            let mut fs = std::mem::take(&mut *failures.lock().unwrap());
            fs.sort_by_key(|f| f.0);
            let mut stats = std::mem::take(&mut *merged.lock().unwrap());
            stats.samples.sort();
            say!(stderr,
                "{} {}: {} cases, {} distinct non-trivial, {:.1}s",
                prop.id,
                arm.name,
                stats.evaluations,
                stats.seen.len(),
                arm_start.elapsed().as_secs_f64()
            );
            all.push((arm_i, n, stats));
            if let Some((idx, tape, f)) = fs.into_iter().next() {
                say!(stderr, "FAILED {} {} case {idx}: {}\n{}", prop.id, arm.name, f.sig, f.msg);
                let handle = std::thread::Builder::new().stack_size(64 << 20);
                let (tape, f2) = handle
                    .spawn_scoped(scope, {
                        let tape = tape.clone();
                        move || shrink(arm, tape, &cfg.known, 6000, cfg.shrink_secs)
                    })
                    .unwrap()
                    .join()
                    .unwrap();
                let f = if f2.sig == "flaky" {
                    Fail {
                        sig: f.sig,
                        msg: format!("{} (did not reproduce on immediate replay)", f.msg),
                    }
                } else {
                    f2
                };
                say!(stderr, "SHRUNK to {} choices: {}\n{}", tape.len(), f.sig, f.msg);
                let path = write_replay(cfg, prop, arm, &tape, &f);
                violation = Some((path, f));
                break;
            }
        }
        done.store(true, Ordering::Relaxed);
    });

    let evaluations: u64 = all.iter().map(|a| a.2.evaluations).sum();
    let distinct: u64 = all.iter().map(|a| a.2.seen.len() as u64).sum();
    let mut arms_json = serde_json::Map::new();
    let mut samples = Vec::new();
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut all_enum = true;
    for (i, n, st) in &all {
        let arm = &prop.arms[*i];
        if !matches!(arm.kind, Kind::Enum(..)) {
            all_enum = false;
        }
        arms_json.insert(
            arm.name.to_string(),
            serde_json::json!({
                "planned": n,
                "evaluations": st.evaluations,
                "nontrivial_evaluations": st.nontrivial_evals,
                "distinct_nontrivial": st.seen.len(),
                "enumerated": matches!(arm.kind, Kind::Enum(..)),
                "labels": st.labels,
            }),
        );
        samples.extend(st.samples.iter().take(3).cloned());
        for (k, v) in &st.known {
            *known_hits.entry(k.clone()).or_default() += v;
        }
    }
    let ev = serde_json::json!({
        "property": prop.id,
        "tier": if cfg.thorough { "thorough" } else { "quick" },
        "seed": cfg.seed,
        "level": prop.level,
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": prop.rule,
            "samples": samples,
            "arms": arms_json,
            "known_finding_hits": known_hits,
            "exhaustive": all_enum,
        },
        "assumptions": prop.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": violation.is_some() as u32,
    });
    if let Some(d) = cfg.evidence.parent() {
        let _ = std::fs::create_dir_all(d);
    }
    std::fs::write(&cfg.evidence, serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    for k in &cfg.known {
        say!(stdout, "KNOWN-FINDING: property={} {}", prop.id, k.what);
    }
    if let Some((path, f)) = violation {
        say!(stdout, "{}: {}", f.sig, f.msg);
        say!(stdout, "VIOLATION property={} replay={}", prop.id, path.display());
        return 1;
    }
    say!(stdout,
        "OK property={} evaluations={evaluations} distinct_nontrivial={distinct} wall_s={:.1}",
        prop.id,
        start.elapsed().as_secs_f64()
    );
    0
}

pub fn replay_tape(prop: &Prop, arm_name: &str, tape: Vec<u64>) -> i32 {
    let Some(arm) = prop.arms.iter().find(|a| a.name == arm_name) else {
        say!(stderr, "no such arm: {arm_name}");
        return 2;
    };
    let (r, case) = run_case(arm, Src::replay(tape), true);
    say!(stdout, "case: {}", case.desc.unwrap_or_default());
    match r {
        Ok(()) => {
            say!(stdout, "the case passes");
            0
        }
        Err(f) => {
            say!(stdout, "{}: {}", f.sig, f.msg);
            1
        }
    }
}

/// Run exactly one case of an arm (used to find out which case killed the process)
pub fn run_one(prop: &Prop, cfg: &Config, arm_i: usize, idx: u64) -> i32 {
    let arm = &prop.arms[arm_i];
    let (r, _) = run_case(arm, case_src(cfg, prop, arm, idx), false);
    r.is_err() as i32
}
