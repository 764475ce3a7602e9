//! A small property-based testing engine: choice tapes, deterministic seeding, parallel
//! execution, shrinking, replay files, crash containment and evidence.

use std::{
    collections::{BTreeMap, HashSet},
    fmt::Write as _,
    hash::{Hash, Hasher},
    io::Write as _,
    panic::{catch_unwind, AssertUnwindSafe},
    path::{Path, PathBuf},
    process::{Command, Stdio},
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Mutex,
    },
    time::{Duration, Instant},
};

use serde_json::{json, Value};

pub type Outcome = Result<(), String>;

// ---------------------------------------------------------------------------------------------
// Choice source

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash64(x: impl Hash) -> u64 {
    // FNV-1a: stable between runs and platforms
    struct F(u64);
    impl Hasher for F {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, bytes: &[u8]) {
            for b in bytes {
                self.0 = (self.0 ^ u64::from(*b)).wrapping_mul(0x100_0000_01b3);
            }
        }
    }
    let mut f = F(0xcbf2_9ce4_8422_2325);
    x.hash(&mut f);
    mix(f.finish())
}

/// A pseudo random generator for choices which must not be shrunk one by one (call orders).
#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn chance(&mut self, percent: usize) -> bool {
        self.below(100) < percent
    }
}

enum Mode {
    Random(Rng),
    Replay,
}

/// The source of every choice of a generator. The choices made are recorded on a tape of small
/// integers; replaying the tape replays the case, and a smaller tape is a simpler case.
pub struct Src {
    mode: Mode,
    pub tape: Vec<u32>,
    pos: usize,
    pub size: usize,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src {
            mode: Mode::Random(Rng(seed)),
            tape: Vec::new(),
            pos: 0,
            size: 100,
        }
    }

    pub fn replay(tape: Vec<u32>) -> Self {
        Src {
            mode: Mode::Replay,
            tape,
            pos: 0,
            size: 100,
        }
    }

    pub fn used(&self) -> usize {
        self.pos
    }

    pub fn raw(&mut self) -> u32 {
        let v = match &mut self.mode {
            Mode::Random(rng) => {
                let v = rng.next() as u32;
                self.tape.push(v);
                v
            }
            Mode::Replay => self.tape.get(self.pos).copied().unwrap_or(0),
        };
        self.pos += 1;
        v
    }

    /// A number below `n`; 0 is the simplest.
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let n = n as u32;
        let v = self.raw() % n;
        if let Mode::Random(_) = self.mode {
            *self.tape.last_mut().unwrap() = v;
        }
        v as usize
    }

    /// True with the given probability; false is the simplest.
    pub fn chance(&mut self, percent: usize) -> bool {
        // drawn so that 0 on the tape is `false`
        self.below(100) >= 100 - percent.min(100)
    }

    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.below(items.len())]
    }

    /// Index chosen by weight; the first is the simplest.
    pub fn weighted(&mut self, weights: &[usize]) -> usize {
        let total: usize = weights.iter().sum();
        let mut v = self.below(total);
        for (i, w) in weights.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        weights.len() - 1
    }

    /// A length: mostly short, sometimes up to `max`.
    pub fn len(&mut self, max: usize) -> usize {
        if max == 0 {
            return 0;
        }
        match self.weighted(&[40, 30, 20, 10]) {
            0 => 0,
            1 => 1.min(max),
            2 => self.below(max.min(3) + 1),
            _ => self.below(max + 1),
        }
    }

    pub fn u64(&mut self) -> u64 {
        (u64::from(self.raw()) << 32) | u64::from(self.raw())
    }

    pub fn opt<T>(&mut self, percent: usize, f: impl FnOnce(&mut Src) -> T) -> Option<T> {
        if self.chance(percent) {
            Some(f(self))
        } else {
            None
        }
    }

    /// A length for lists of small things: like `len`, and once in a while much more.
    pub fn many(&mut self, max: usize) -> usize {
        if let Some(n) = crate::dict::length(self, 200) {
            return n;
        }
        match self.below(40) {
            39 => max + 1 + self.below(20),
            _ => self.len(max),
        }
    }

    /// A list of small things.
    pub fn list<T>(&mut self, max: usize, mut f: impl FnMut(&mut Src) -> T) -> Vec<T> {
        let n = self.many(max);
        (0..n).map(|_| f(self)).collect()
    }

    pub fn vec<T>(&mut self, max: usize, mut f: impl FnMut(&mut Src) -> T) -> Vec<T> {
        let n = self.len(max);
        (0..n).map(|_| f(self)).collect()
    }
}

// ---------------------------------------------------------------------------------------------
// Case context

#[derive(Default)]
pub struct Ctx {
    pub verbose: bool,
    pub text: String,
    nontrivial: bool,
    key: Option<u64>,
    labels: Vec<&'static str>,
    pub evals: u64,
    /// Seed, property, arm and index of the case, when it is one of a whole run.
    pub origin: Option<(u64, &'static str, &'static str, u64)>,
}

impl Ctx {
    /// Mark the case as non-trivial (by the rule stated by the check); `key` identifies the case
    /// for counting distinct ones.
    pub fn nontrivial(&mut self, key: impl Hash) {
        self.nontrivial = true;
        self.key = Some(hash64(key));
    }
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    /// Write part of the case out; only evaluated for samples and failures.
    pub fn show(&mut self, name: &str, f: impl FnOnce() -> String) {
        if self.verbose {
            let _ = writeln!(self.text, "{name}: {}", f());
        }
    }
}

pub type CaseFn = fn(&mut Src, &mut Ctx) -> Outcome;

pub struct Arm {
    pub name: &'static str,
    pub case: CaseFn,
    pub quick: u64,
    pub thorough: u64,
    /// Enumerated instead of sampled: case `i` gets the tape `[i]`.
    pub exhaustive: Option<u64>,
}

pub fn arm(name: &'static str, case: CaseFn, quick: u64, thorough: u64) -> Arm {
    Arm {
        name,
        case,
        quick,
        thorough,
        exhaustive: None,
    }
}

pub fn arm_all(name: &'static str, case: CaseFn, total: u64) -> Arm {
    Arm {
        name,
        case,
        quick: total,
        thorough: total,
        exhaustive: Some(total),
    }
}

pub struct Known {
    pub id: &'static str,
    pub what: &'static str,
    /// True when the defect still shows.
    pub still_fails: fn() -> bool,
}

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub arms: Vec<Arm>,
    pub known: Vec<Known>,
}

// ---------------------------------------------------------------------------------------------
// Running one case

fn run_case(case: CaseFn, src: &mut Src, ctx: &mut Ctx) -> Outcome {
    match catch_unwind(AssertUnwindSafe(|| case(src, ctx))) {
        Ok(r) => r,
        Err(e) => {
            let msg = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "panic".into());
            Err(format!("panicked: {msg}"))
        }
    }
}

fn case_seed(seed: u64, prop: &str, arm: &str, index: u64) -> u64 {
    hash64((seed, prop, arm, index))
}

fn make_src(arm: &Arm, seed: u64, prop: &str, index: u64) -> Src {
    if arm.exhaustive.is_some() {
        Src::replay(vec![index as u32])
    } else {
        case_src(seed, prop, arm.name, index)
    }
}

pub fn case_src(seed: u64, prop: &str, arm: &str, index: u64) -> Src {
    let mut s = Src::random(case_seed(seed, prop, arm, index));
    // sizes vary: a third of the cases are small
    s.size = match index % 3 {
        0 => 30,
        1 => 70,
        _ => 100,
    };
    s
}

/// Shrink a failing tape. Hash maps in the code under test make some failures flaky, so a
/// candidate gets a few tries.
fn shrink(case: CaseFn, tape: Vec<u32>, size: usize, budget: Duration) -> (Vec<u32>, u64) {
    let start = Instant::now();
    let mut evals = 0u64;
    let mut best = tape;
    let mut fails = |t: &[u32], evals: &mut u64| -> bool {
        for _ in 0..2 {
            *evals += 1;
            let mut s = Src::replay(t.to_vec());
            s.size = size;
            let mut c = Ctx::default();
            if run_case(case, &mut s, &mut c).is_err() {
                return true;
            }
        }
        false
    };
    let over = |evals: u64| start.elapsed() > budget || evals > 6000;
    // drop the unused tail
    while best.last() == Some(&0) {
        best.pop();
    }
    loop {
        let before = best.clone();
        let mut chunk = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() && !over(evals) {
                let end = (i + chunk).min(best.len());
                let mut t = best.clone();
                t.drain(i..end);
                if fails(&t, &mut evals) {
                    best = t;
                    continue;
                }
                if best[i..end].iter().any(|v| *v != 0) {
                    let mut t = best.clone();
                    t[i..end].iter_mut().for_each(|v| *v = 0);
                    if fails(&t, &mut evals) {
                        best = t;
                    }
                }
                i = end;
            }
            if chunk == 1 || over(evals) {
                break;
            }
            chunk = (chunk / 2).max(1);
        }
        let mut i = 0;
        while i < best.len() && !over(evals) {
            let mut lo = 0u32;
            while best[i] > lo && !over(evals) {
                let mid = lo + (best[i] - lo) / 2;
                let mut t = best.clone();
                t[i] = mid;
                if fails(&t, &mut evals) {
                    best = t;
                } else {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
        while best.last() == Some(&0) {
            best.pop();
        }
        if best == before || over(evals) {
            return (best, evals);
        }
    }
}

pub struct Failure {
    pub arm: &'static str,
    pub index: u64,
    pub message: String,
    pub tape: Vec<u32>,
    pub size: usize,
}

// ---------------------------------------------------------------------------------------------
// The parent process: runs the worker, turns its crashes into violations

pub struct Opts {
    pub seed: u64,
    pub thorough: bool,
    pub root: PathBuf,
    pub threads: usize,
}

fn replay_path(o: &Opts, id: &str) -> PathBuf {
    o.root.join("replays").join(format!("{id}.json"))
}

fn write_replay(o: &Opts, id: &str, f: &Failure, text: &str, known: &str) -> PathBuf {
    let p = replay_path(o, id);
    let _ = std::fs::create_dir_all(p.parent().unwrap());
    let v = json!({
        "property": id,
        "arm": f.arm,
        "seed": o.seed,
        "index": f.index,
        "size": f.size,
        "tape": f.tape,
        "message": f.message,
        "case": text.lines().collect::<Vec<_>>(),
        "note": known,
        "dictionary": crate::dict::to_json(&crate::dict::get().new),
        "replay": format!("/verif/check.sh replay {}", p.display()),
    });
    let _ = std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap());
    p
}

fn write_evidence(o: &Opts, id: &str, v: Value) {
    let p = o.root.join("evidence").join(format!("{id}.json"));
    let _ = std::fs::create_dir_all(p.parent().unwrap());
    let _ = std::fs::write(p, serde_json::to_string_pretty(&v).unwrap());
}

/// Wall-clock cap of one run of a check.
fn time_cap(thorough: bool) -> Duration {
    Duration::from_secs(if thorough { 3600 } else { 400 })
}

/// Factor of the number of cases of the quick tier.
const QUICK: f64 = 4.0;

const CASE_CAP: Duration = Duration::from_secs(60);

/// Entry of the parent: start the worker on all arms, watch it, report.
pub fn run_parent(check: &Check, o: &Opts) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let dir = std::env::temp_dir().join(format!("vharness-{}-{}", check.id, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let code = watch(check, o, &exe, &dir);
    let _ = std::fs::remove_dir_all(&dir);
    code
}

enum End {
    Code(i32),
    Signal(i32),
    Hang,
}

/// Processor time of a process so far.
fn cpu_seconds(pid: u32) -> f64 {
    let stat = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let fields: Vec<&str> = stat.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let ticks = |i: usize| fields.get(i).and_then(|f| f.parse::<f64>().ok()).unwrap_or(0.0);
    (ticks(11) + ticks(12)) / 100.0
}

fn spawn_worker(
    exe: &Path,
    check: &Check,
    o: &Opts,
    dir: &Path,
    single: Option<(&str, u64)>,
    cap: Duration,
) -> (End, Vec<(String, u64)>) {
    let mut cmd = Command::new(exe);
    cmd.arg("worker")
        .arg(check.id)
        .arg(if o.thorough { "thorough" } else { "quick" })
        .env("VERIF_SEED", o.seed.to_string())
        .env("VHARNESS_DIR", dir)
        .stdin(Stdio::null());
    if let Some((arm, index)) = single {
        cmd.arg(arm).arg(index.to_string());
    }
    for i in 0..o.threads {
        let _ = std::fs::remove_file(dir.join(format!("t{i}")));
    }
    let mut child = cmd.spawn().expect("cannot start the worker");
    let started = Instant::now();
    // (contents, since) per thread
    let mut last: Vec<(String, Instant)> = vec![(String::new(), Instant::now()); o.threads];
    let end = loop {
        if let Some(st) = child.try_wait().unwrap() {
            use std::os::unix::process::ExitStatusExt;
            break match (st.code(), st.signal()) {
                (Some(c), _) => End::Code(c),
                (None, s) => End::Signal(s.unwrap_or(0)),
            };
        }
        std::thread::sleep(Duration::from_millis(20));
        let mut hung = false;
        for (i, l) in last.iter_mut().enumerate() {
            let c = std::fs::read_to_string(dir.join(format!("t{i}"))).unwrap_or_default();
            if c != l.0 {
                *l = (c, Instant::now());
            } else if !c.is_empty() && l.1.elapsed() > cap {
                hung = true;
            }
        }
        if single.is_some() {
            // a case alone: only its processor time tells that it does not end
            let spent = cpu_seconds(child.id());
            if spent > cap.as_secs_f64() || started.elapsed() > 4 * cap {
                let _ = child.kill();
                let _ = child.wait();
                break if spent > cap.as_secs_f64() { End::Hang } else { End::Code(2) };
            }
        } else if hung || started.elapsed() > time_cap(o.thorough) + Duration::from_secs(100) {
            let _ = child.kill();
            let _ = child.wait();
            break End::Hang;
        }
    };
    let mut current = Vec::new();
    for i in 0..o.threads {
        let c = std::fs::read_to_string(dir.join(format!("t{i}"))).unwrap_or_default();
        if let Some((n, a)) = c.split_once(' ') {
            if let Ok(n) = n.parse() {
                current.push((a.trim().to_string(), n));
            }
        }
    }
    (end, current)
}

fn watch(check: &Check, o: &Opts, exe: &Path, dir: &Path) -> i32 {
    let (end, current) = spawn_worker(exe, check, o, dir, None, CASE_CAP);
    let what = match end {
        End::Code(c @ (0 | 1)) => return c,
        End::Code(c) => {
            eprintln!("{}: the worker ended with code {c}", check.id);
            return 2;
        }
        End::Signal(s) => format!("signal {s}"),
        End::Hang => "no answer".into(),
    };
    eprintln!("{}: the worker ended with {what}; looking for the case", check.id);
    for (arm, index) in current {
        let (end, _) = spawn_worker(
            exe,
            check,
            o,
            dir,
            Some((&arm, index)),
            Duration::from_secs(40),
        );
        let what = match end {
            // SIGKILL comes from outside (memory pressure), it proves nothing
            End::Signal(s) if s != 9 => format!("killed the process with signal {s}"),
            End::Hang => "did not finish within 40 s of processor time".to_string(),
            _ => continue,
        };
        let a = check.arms.iter().find(|a| a.name == arm).unwrap();
        let f = Failure {
            arm: a.name,
            index,
            message: what.clone(),
            tape: Vec::new(),
            size: 0,
        };
        let p = write_replay(
            o,
            check.id,
            &f,
            "",
            "the case kills the process: replay regenerates it from seed and index",
        );
        write_evidence(
            o,
            check.id,
            json!({
                "property": check.id,
                "tier": if o.thorough {"thorough"} else {"quick"},
                "seed": o.seed,
                "level": "exploration",
                "coverage": {
                    "evaluations": 1, "distinct_nontrivial": 1, "rule": check.rule,
                    "samples": [format!("arm {} case {} {}", arm, index, what)],
                },
                "assumptions": check.assumptions,
                "wall_s": 0.0,
                "violations": 1,
            }),
        );
        println!("{}: arm {arm} case {index}: {what}", check.id);
        println!("VIOLATION property={} replay={}", check.id, p.display());
        return 1;
    }
    eprintln!("{}: could not reproduce it", check.id);
    2
}

// ---------------------------------------------------------------------------------------------
// The worker process

struct Tally {
    evaluations: u64,
    nontrivial: u64,
    keys: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    per_arm: BTreeMap<&'static str, (u64, u64)>,
    extra_evals: u64,
}

/// Run a single case (used to attribute crashes).
pub fn run_single(check: &Check, o: &Opts, arm_name: &str, index: u64) -> i32 {
    let arm = check.arms.iter().find(|a| a.name == arm_name).unwrap();
    let mut src = make_src(arm, o.seed, check.id, index);
    let case = arm.case;
    let r = std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || {
            let mut ctx = Ctx::default();
            run_case(case, &mut src, &mut ctx)
        })
        .unwrap()
        .join();
    match r {
        Ok(Ok(())) => 0,
        Ok(Err(e)) => {
            println!("{e}");
            1
        }
        Err(_) => 3,
    }
}

const STACK: usize = 16 << 20;

pub fn run_worker(check: &Check, o: &Opts) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let start = Instant::now();
    let dir = std::env::var_os("VHARNESS_DIR").map(PathBuf::from);

    // Findings: those which the file lists are only mentioned, others are violations
    let listed = std::fs::read_to_string(o.root.join("known-findings.txt")).unwrap_or_default();
    let mut unlisted = None;
    for k in &check.known {
        let key = format!("known: property={} {} ", check.id, k.id);
        if (k.still_fails)() {
            if listed.lines().any(|l| l.starts_with(&key)) {
                println!("KNOWN-FINDING: property={} {}: {}", check.id, k.id, k.what);
            } else if unlisted.is_none() {
                unlisted = Some(Failure {
                    arm: k.id,
                    index: 0,
                    message: k.what.into(),
                    tape: vec![],
                    size: 1,
                });
            }
        }
    }

    // Interleave the arms, in blocks, so that a time cap cuts all of them alike.
    let scale = std::env::var("VHARNESS_SCALE")
        .ok()
        .and_then(|s| s.parse::<f64>().ok())
        .unwrap_or(1.0);
    let mut blocks: Vec<(f64, usize, u64, u64)> = Vec::new();
    for (ai, a) in check.arms.iter().enumerate() {
        let n = if a.exhaustive.is_some() {
            a.quick
        } else if o.thorough {
            (a.thorough as f64 * scale) as u64
        } else {
            (a.quick as f64 * QUICK * scale) as u64
        };
        let step = (n / 64).clamp(1, 256);
        let mut i = 0;
        while i < n {
            let e = (i + step).min(n);
            blocks.push((i as f64 / n as f64, ai, i, e));
            i = e;
        }
    }
    blocks.sort_by(|a, b| a.partial_cmp(b).unwrap());

    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let capped = AtomicBool::new(false);
    let failure: Mutex<Option<Failure>> = Mutex::new(None);
    let tally = Mutex::new(Tally {
        evaluations: 0,
        nontrivial: 0,
        keys: HashSet::new(),
        labels: BTreeMap::new(),
        per_arm: BTreeMap::new(),
        extra_evals: 0,
    });
    let cap = time_cap(o.thorough);

    std::thread::scope(|sc| {
        for t in 0..o.threads {
            let (blocks, next, stop, capped, failure, tally, dir) =
                (&blocks, &next, &stop, &capped, &failure, &tally, &dir);
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(sc, move || {
                    let mut prog = dir
                        .as_ref()
                        .map(|d| std::fs::File::create(d.join(format!("t{t}"))).unwrap());
                    let mut nontrivial = 0u64;
                    let mut keys = HashSet::new();
                    let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
                    let mut per_arm: BTreeMap<&'static str, (u64, u64)> = BTreeMap::new();
                    let mut evaluations = 0u64;
                    let mut extra = 0u64;
                    while !stop.load(Ordering::Relaxed) {
                        if start.elapsed() > cap {
                            capped.store(true, Ordering::Relaxed);
                            break;
                        }
                        let b = next.fetch_add(1, Ordering::Relaxed) as usize;
                        let Some(&(_, ai, from, to)) = blocks.get(b) else {
                            break;
                        };
                        let a = &check.arms[ai];
                        for index in from..to {
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                            if let Some(f) = &mut prog {
                                use std::io::Seek;
                                let _ = f.seek(std::io::SeekFrom::Start(0));
                                let _ = f.write_all(format!("{:012} {:<30}\n", index, a.name).as_bytes());
                            }
                            let mut src = make_src(a, o.seed, check.id, index);
                            let mut ctx = Ctx {
                                origin: Some((o.seed, check.id, a.name, index)),
                                ..Ctx::default()
                            };
                            let r = run_case(a.case, &mut src, &mut ctx);
                            evaluations += 1;
                            extra += ctx.evals;
                            let e = per_arm.entry(a.name).or_default();
                            e.0 += 1;
                            for l in ctx.labels {
                                *labels.entry(l).or_default() += 1;
                            }
                            if ctx.nontrivial {
                                nontrivial += 1;
                                e.1 += 1;
                                keys.insert(ctx.key.unwrap_or(0));
                            }
                            if let Err(message) = r {
                                stop.store(true, Ordering::Relaxed);
                                let mut f = failure.lock().unwrap();
                                let size = src.size;
                                let tape = src.tape;
                                if f.is_none() {
                                    *f = Some(Failure {
                                        arm: a.name,
                                        index,
                                        message,
                                        tape,
                                        size,
                                    });
                                }
                            }
                        }
                    }
                    if let Some(d) = dir {
                        // this thread is done: it cannot hang any more
                        drop(prog);
                        let _ = std::fs::remove_file(d.join(format!("t{t}")));
                    }
                    let mut g = tally.lock().unwrap();
                    g.evaluations += evaluations;
                    g.extra_evals += extra;
                    g.nontrivial += nontrivial;
                    g.keys.extend(keys);
                    for (k, v) in labels {
                        *g.labels.entry(k).or_default() += v;
                    }
                    for (k, v) in per_arm {
                        let e = g.per_arm.entry(k).or_default();
                        e.0 += v.0;
                        e.1 += v.1;
                    }
                })
                .unwrap();
        }
    });

    let tally = tally.into_inner().unwrap();
    let mut failure = failure.into_inner().unwrap();
    let mut samples = Vec::new();
    let mut code = 0;
    let id = check.id;

    // Samples, written out by running a few cases again
    for a in &check.arms {
        let (case, mut shown) = (a.case, 0);
        for index in 0..40u64 {
            if failure.is_some() || shown == 1 {
                break;
            }
            let mut src = make_src(a, o.seed, id, index);
            let name = a.name;
            let r = std::thread::Builder::new()
                .stack_size(STACK)
                .spawn(move || {
                    let mut ctx = Ctx {
                        verbose: true,
                        ..Ctx::default()
                    };
                    let _ = run_case(case, &mut src, &mut ctx);
                    (ctx.nontrivial, ctx.text)
                })
                .unwrap()
                .join();
            if let Ok((true, text)) = r {
                if text.len() < 6000 {
                    samples.push(json!({"arm": name, "index": index,
                        "case": text.lines().collect::<Vec<_>>()}));
                    shown += 1;
                }
            }
        }
    }

    let mut replay = None;
    if let (None, Some(f)) = (&failure, &unlisted) {
        println!("{id}: {}: {}", f.arm, f.message);
        replay = Some(write_replay(o, id, f, "", "a finding which known-findings.txt does not list"));
        code = 1;
    }
    if let Some(f) = &mut failure {
        let a = check.arms.iter().find(|a| a.name == f.arm).unwrap();
        let case = a.case;
        let (tape, size) = (f.tape.clone(), f.size);
        let exhaustive = a.exhaustive.is_some();
        let shrunk = std::thread::Builder::new()
            .stack_size(STACK)
            .spawn(move || {
                let (tape, evals) = if exhaustive {
                    (tape, 0)
                } else {
                    shrink(case, tape, size, Duration::from_secs(25))
                };
                let mut last = (String::new(), String::new());
                for _ in 0..20 {
                    let mut ctx = Ctx {
                        verbose: true,
                        ..Ctx::default()
                    };
                    let mut src = Src::replay(tape.clone());
                    src.size = size;
                    if let Err(m) = run_case(case, &mut src, &mut ctx) {
                        last = (m, ctx.text);
                        break;
                    }
                }
                (tape, evals, last)
            })
            .unwrap()
            .join();
        let mut text = String::new();
        if let Ok((tape, evals, (m, t))) = shrunk {
            if !m.is_empty() {
                f.tape = tape;
                f.message = m;
            }
            text = t;
            println!("{id}: shrunk with {evals} evaluations");
        }
        let p = write_replay(o, id, f, &text, "");
        println!("{id}: arm {} case {}: {}", f.arm, f.index, f.message);
        for l in text.lines().take(60) {
            println!("    {}", l.chars().take(2000).collect::<String>());
        }
        samples.push(json!({"arm": f.arm, "index": f.index, "failing": true,
            "message": f.message, "case": text.lines().collect::<Vec<_>>()}));
        replay = Some(p);
        code = 1;
    }

    let per_arm: BTreeMap<&str, Value> = tally
        .per_arm
        .iter()
        .map(|(k, v)| (*k, json!({"cases": v.0, "nontrivial": v.1})))
        .collect();
    let exhaustive_arms: Vec<&str> = check
        .arms
        .iter()
        .filter(|a| a.exhaustive.is_some())
        .map(|a| a.name)
        .collect();
    let known: Vec<&str> = check.known.iter().map(|k| k.id).collect();
    write_evidence(
        o,
        id,
        json!({
            "property": id,
            "tier": if o.thorough {"thorough"} else {"quick"},
            "seed": o.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": tally.evaluations,
                "nontrivial": tally.nontrivial,
                "distinct_nontrivial": tally.keys.len(),
                "rule": check.rule,
                "samples": samples,
                "arms": per_arm,
                "enumerated_arms": exhaustive_arms,
                "labels": tally.labels,
                "oracle_evaluations": tally.extra_evals,
                "time_capped": capped.load(Ordering::Relaxed),
                "known_findings_listed": known,
            },
            "assumptions": check.assumptions,
            "wall_s": start.elapsed().as_secs_f64(),
            "violations": u32::from(code == 1),
        }),
    );
    if let Some(p) = replay {
        println!("VIOLATION property={id} replay={}", p.display());
    } else {
        println!(
            "{id}: held on {} cases ({} distinct non-trivial) in {:.1} s",
            tally.evaluations,
            tally.keys.len(),
            start.elapsed().as_secs_f64()
        );
    }
    code
}

/// Replay a file written by a failing run: exit 1 when it still fails.
pub fn replay(checks: &[Check], file: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file"))
        .expect("replay file is not JSON");
    let check = checks
        .iter()
        .find(|c| Some(c.id) == v["property"].as_str())
        .expect("unknown property");
    if let Some(k) = check.known.iter().find(|k| Some(k.id) == v["arm"].as_str()) {
        let still = (k.still_fails)();
        if still {
            println!("{}\nVIOLATION property={} replay={file}", k.what, check.id);
        } else {
            println!("{}: the replayed case holds", check.id);
        }
        return i32::from(still);
    }
    let a = check
        .arms
        .iter()
        .find(|a| Some(a.name) == v["arm"].as_str())
        .expect("unknown arm");
    let tape: Vec<u32> = v["tape"]
        .as_array()
        .map(|t| t.iter().filter_map(|x| x.as_u64()).map(|x| x as u32).collect())
        .unwrap_or_default();
    let size = v["size"].as_u64().unwrap_or(0) as usize;
    let (seed, index) = (
        v["seed"].as_u64().unwrap_or(1),
        v["index"].as_u64().unwrap_or(0),
    );
    if v["dictionary"].is_object() {
        crate::dict::set_new(&v["dictionary"]);
    }
    let id = check.id;
    let case = a.case;
    let regenerate = size == 0;
    let mk = move |a: &Arm| {
        if regenerate {
            make_src(a, seed, id, index)
        } else {
            let mut s = Src::replay(tape.clone());
            s.size = size;
            s
        }
    };
    for _ in 0..20 {
        let mut src = mk(a);
        let r = std::thread::Builder::new()
            .stack_size(STACK)
            .spawn(move || {
                let mut ctx = Ctx {
                    verbose: true,
                    ..Ctx::default()
                };
                let r = run_case(case, &mut src, &mut ctx);
                (r, ctx.text)
            })
            .unwrap()
            .join()
            .unwrap();
        if let (Err(m), text) = r {
            println!("{m}\n{text}");
            println!("VIOLATION property={id} replay={file}");
            return 1;
        }
    }
    println!("{id}: the replayed case holds");
    0
}
