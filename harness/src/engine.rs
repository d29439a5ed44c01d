//! The generated-input search engine: choice sequences, case seeding, parallel workers, crash
//! attribution, shrinking, replay files and evidence.
//!
//! A generator draws bounded integers from a `Source`.  Every draw is recorded; a recorded
//! sequence replays the case exactly, and shrinking works on that sequence only (an exhausted
//! sequence yields zeros, and every generator treats zero as its simplest choice), so every
//! shrunk case is still something the generator can produce.

use std::any::Any;
use std::collections::HashSet;
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------------------------------------
// randomness

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93));
    r.next();
    r.next()
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x1000_0000_01b3);
    }
    mix(h, b.len() as u64)
}

enum Mode {
    Random(Rng),
    Replay(Vec<u64>, usize),
}

pub struct Source {
    mode: Mode,
    pub log: Vec<u64>,
    /// one list of the case is to be long: after how many others, and how long
    burst: Option<(usize, usize)>,
}

impl Source {
    pub fn random(seed: u64) -> Source {
        Source { mode: Mode::Random(Rng::new(seed)), log: Vec::new(), burst: None }
    }
    pub fn replay(choices: Vec<u64>) -> Source {
        Source { mode: Mode::Replay(choices, 0), log: Vec::new(), burst: None }
    }
    /// A number in 0..n.
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let v = match &mut self.mode {
            Mode::Random(r) => r.below(n),
            Mode::Replay(c, p) => {
                let v = c.get(*p).copied().unwrap_or(0);
                *p += 1;
                v.min(n - 1)
            }
        };
        self.log.push(v);
        v
    }
    pub fn u64(&mut self) -> u64 {
        let v = match &mut self.mode {
            Mode::Random(r) => r.next(),
            Mode::Replay(c, p) => {
                let v = c.get(*p).copied().unwrap_or(0);
                *p += 1;
                v
            }
        };
        self.log.push(v);
        v
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// lo..=hi, lo is the simplest
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.usize(hi - lo + 1)
    }
    /// true with probability num/den; false is the simplest
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.usize(xs.len());
        &xs[i]
    }
    /// small list length: mostly short, sometimes up to `max`
    pub fn len(&mut self, max: usize) -> usize {
        if max == 0 {
            return 0;
        }
        match self.burst {
            Some((0, n)) => {
                self.burst = None;
                return n;
            }
            Some((k, n)) => self.burst = Some((k - 1, n)),
            None => {}
        }
        match self.below(8) {
            0 | 1 => 0,
            2 | 3 => 1.min(max),
            4 | 5 => self.range(0, 2.min(max)),
            6 => self.range(0, 4.min(max)),
            _ => self.range(0, max),
        }
    }
    /// Sometimes lets one of the next lists be longer than its usual maximum (up to 250).
    pub fn start_burst(&mut self) {
        if self.chance(1, 24) {
            let n = match self.below(4) {
                0 => self.range(5, 20),
                1 | 2 => self.range(5, 70),
                _ => self.range(5, 250),
            };
            self.burst = Some((self.usize(60), n));
        }
    }
    pub fn end_burst(&mut self) {
        self.burst = None;
    }
    /// A number that the code under test names, or one next to it.
    pub fn known_int(&mut self) -> i64 {
        *self.pick(&crate::dict::get().ints)
    }
    pub fn known_float(&mut self) -> f64 {
        if self.bool() {
            self.known_int() as f64
        } else {
            let f = *self.pick(&crate::dict::get().floats);
            if self.bool() {
                -f
            } else {
                f
            }
        }
    }
    pub fn u8(&mut self) -> u8 {
        match self.below(4) {
            0 => self.below(4) as u8,
            1 => *self.pick(&[0, 1, 2, 3, 4, 5, 127, 128, 129, 254, 255]),
            _ => self.below(256) as u8,
        }
    }
    pub fn u16(&mut self) -> u16 {
        match self.below(5) {
            4 => self.known_int() as u16,
            0 => self.below(8) as u16,
            1 => *self.pick(&[
                0, 1, 2, 3, 4, 5, 127, 128, 129, 254, 255, 256, 257, 32766, 32767, 32768, 32769, 65533, 65534, 65535,
            ]),
            2 => self.below(512) as u16,
            _ => self.below(65536) as u16,
        }
    }
    pub fn i32(&mut self) -> i32 {
        match self.below(6) {
            5 => self.known_int() as i32,
            0 => self.below(20) as i32 - 8,
            1 => *self.pick(&[
                0, -1, 1, 5, 6, -2, 127, 128, 129, -127, -128, -129, 255, 256, 32767, 32768, 32769, -32767, -32768, -32769, 65535,
                65536, i32::MAX, i32::MAX - 1, i32::MIN, i32::MIN + 1,
            ]),
            2 => (self.below(65536) as i32) - 32768,
            _ => self.below(1 << 32) as u32 as i32,
        }
    }
    pub fn i64(&mut self) -> i64 {
        match self.below(5) {
            4 => self.known_int(),
            0 => self.below(8) as i64 - 3,
            1 => *self.pick(&[0, 1, 2, -1, i64::MAX, i64::MIN, i32::MAX as i64 + 1, i32::MIN as i64 - 1, 1 << 32, 0xFFFF_FFFF]),
            2 => self.i32() as i64,
            _ => self.u64() as i64,
        }
    }
    pub fn f32bits(&mut self) -> u32 {
        match self.below(5) {
            4 => (self.known_float() as f32).to_bits(),
            0 => *self.pick(&[0, 0x3F80_0000, 0x4000_0000, 0x4040_0000, 0xBF80_0000]),
            1 => *self.pick(&[
                0x8000_0000, 0x7FC0_0000, 0x7F80_0001, 0xFFC0_0000, 0x7F80_0000, 0xFF80_0000, 1, 0x8000_0001, 0x007F_FFFF,
                0x7FFF_FFFF, 0xFFFF_FFFF, 0xFF80_0001, 0x3F80_0001, 0x3F7F_FFFF, 0x4000_0001, 0x7F7F_FFFF,
            ]),
            _ => self.below(1 << 32) as u32,
        }
    }
    pub fn f64bits(&mut self) -> u64 {
        match self.below(5) {
            4 => self.known_float().to_bits(),
            0 => *self.pick(&[0, 0x3FF0_0000_0000_0000, 0x4000_0000_0000_0000, 0xBFF0_0000_0000_0000]),
            1 => *self.pick(&[
                0x8000_0000_0000_0000,
                0x7FF8_0000_0000_0000,
                0x7FF0_0000_0000_0001,
                0xFFF8_0000_0000_0000,
                0x7FF0_0000_0000_0000,
                0xFFF0_0000_0000_0000,
                1,
                0x8000_0000_0000_0001,
                0xFFFF_FFFF_FFFF_FFFF,
                0x7FFF_FFFF_FFFF_FFFF,
                0x3FF0_0000_0000_0001,
                0x000F_FFFF_FFFF_FFFF,
                0x7FEF_FFFF_FFFF_FFFF,
            ]),
            _ => self.u64(),
        }
    }
}

// ---------------------------------------------------------------------------------------------
// checks

/// What a passing case reports.
pub struct Pass {
    /// satisfied the check's stated non-triviality rule
    pub nontrivial: bool,
    /// identity of the generated case, for counting distinct ones
    pub digest: u64,
    /// human-readable description (only computed when `want_sample`)
    pub sample: Option<String>,
}

pub struct Ctx {
    pub want_sample: bool,
    pub thorough: bool,
    /// index of the case within the run (u64::MAX when shrinking or replaying an explicit sequence);
    /// generators must not depend on it
    pub notes: Vec<(&'static str, u64)>,
}

impl Ctx {
    pub fn count(&mut self, name: &'static str) {
        self.add(name, 1)
    }
    pub fn add(&mut self, name: &'static str, n: u64) {
        for e in self.notes.iter_mut() {
            if e.0 == name {
                e.1 += n;
                return;
            }
        }
        self.notes.push((name, n));
    }
}

pub type CaseResult = Result<Pass, String>;

pub struct Check {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub level: &'static str,
    pub run: fn(&mut Source, &mut Ctx) -> CaseResult,
    /// a case may take this long before it counts as a hang
    pub hang_s: u64,
}

pub fn pass(nontrivial: bool, digest: u64) -> CaseResult {
    Ok(Pass { nontrivial, digest, sample: None })
}

pub fn panic_text(e: Box<dyn Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = loc);
    }));
}

/// Runs code under test; a panic becomes Err(description).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let at = LAST_PANIC.with(|p| p.borrow().clone());
        format!("panic at {}: {}", at, panic_text(e))
    })
}

fn run_case(c: &Check, src: &mut Source, ctx: &mut Ctx) -> CaseResult {
    match guard(|| (c.run)(src, ctx)) {
        Ok(r) => r,
        Err(p) => Err(p),
    }
}

// ---------------------------------------------------------------------------------------------
// shrinking

/// `fails` returns the failure message when the candidate fails.
pub fn shrink(
    mut best: Vec<u64>,
    mut msg: String,
    budget: Duration,
    max_evals: u64,
    fails: &mut dyn FnMut(&[u64]) -> Option<(Vec<u64>, String)>,
) -> (Vec<u64>, String, u64) {
    let t0 = Instant::now();
    let mut evals = 0u64;
    let mut improved = true;
    while improved {
        improved = false;
        // delete chunks
        for &k in &[1024usize, 256, 64, 32, 16, 8, 5, 4, 3, 2, 1] {
            if k > best.len() {
                continue;
            }
            let mut i = best.len();
            while i >= k {
                if t0.elapsed() > budget || evals >= max_evals {
                    return (best, msg, evals);
                }
                let lo = i - k;
                let mut cand = best.clone();
                cand.drain(lo..i);
                evals += 1;
                if let Some((log, m)) = fails(&cand) {
                    if less(&log, &best) {
                        best = log;
                        msg = m;
                        improved = true;
                        i = lo.min(best.len());
                        continue;
                    }
                }
                i -= if k > 8 { k / 2 } else { 1 };
            }
        }
        // zero chunks
        for &k in &[32usize, 8, 2, 1] {
            let mut i = 0;
            while i + k <= best.len() {
                if t0.elapsed() > budget || evals >= max_evals {
                    return (best, msg, evals);
                }
                if best[i..i + k].iter().any(|&x| x != 0) {
                    let mut cand = best.clone();
                    cand[i..i + k].fill(0);
                    evals += 1;
                    if let Some((log, m)) = fails(&cand) {
                        if less(&log, &best) {
                            best = log;
                            msg = m;
                            improved = true;
                        }
                    }
                }
                i += k;
            }
        }
        // lower single values
        let mut i = 0;
        while i < best.len() {
            let mut lo = 0u64;
            let mut hi = best[i];
            while lo < hi {
                if t0.elapsed() > budget || evals >= max_evals {
                    return (best, msg, evals);
                }
                let mid = lo + (hi - lo) / 2;
                let mut cand = best.clone();
                if i >= cand.len() {
                    break;
                }
                cand[i] = mid;
                evals += 1;
                match fails(&cand) {
                    Some((log, m)) if less(&log, &best) => {
                        best = log;
                        msg = m;
                        improved = true;
                        hi = mid;
                        if i >= best.len() {
                            break;
                        }
                    }
                    _ => lo = mid + 1,
                }
            }
            i += 1;
        }
    }
    (best, msg, evals)
}

/// shortlex order
fn less(a: &[u64], b: &[u64]) -> bool {
    a.len() < b.len() || (a.len() == b.len() && a < b)
}

// ---------------------------------------------------------------------------------------------
// JSON output (no dependency)

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

// ---------------------------------------------------------------------------------------------
// driver

pub struct Config {
    pub tier: String,
    pub seed: u64,
    pub root: PathBuf,
}

impl Config {
    pub fn from_env() -> Config {
        let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
        let tier = if tier == "thorough" { "thorough".to_string() } else { "quick".to_string() };
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1);
        let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
        Config { tier, seed, root }
    }
}

fn case_seed(seed: u64, id: &str, idx: u64) -> u64 {
    mix(mix(seed, hash_bytes(id.as_bytes())), idx)
}

#[derive(Default)]
struct Shared {
    evals: AtomicU64,
    next: AtomicU64,
    stop: AtomicBool,
}

struct Merged {
    digests: HashSet<u64>,
    samples: Vec<String>,
    notes: Vec<(&'static str, u64)>,
    failure: Option<(u64, Vec<u64>, String)>,
}

const THREADS: usize = 8;
const STACK: usize = 8 << 20;

fn work_dir(cfg: &Config) -> PathBuf {
    let d = cfg.root.join("out");
    let _ = std::fs::create_dir_all(&d);
    d
}

/// The worker process: runs all cases with THREADS threads.  Result goes to `out` as a
/// line-based report that the parent reads.
pub fn worker(c: &'static Check, cfg: &Config, from: u64, out: &Path, status: &Path) -> i32 {
    use std::os::unix::fs::FileExt;
    install_panic_hook();
    let total = std::env::var("VERIF_CASES").ok().and_then(|s| s.parse().ok()).unwrap_or(if cfg.tier == "thorough" {
        c.thorough
    } else {
        c.quick
    });
    let shared = Shared::default();
    shared.next.store(from, Ordering::SeqCst);
    let merged = Mutex::new(Merged { digests: HashSet::new(), samples: vec![], notes: vec![], failure: None });
    let sf = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(status).expect("status file");
    for t in 0..THREADS as u64 {
        let _ = sf.write_all_at(&u64::MAX.to_le_bytes(), t * 16);
        let _ = sf.write_all_at(&0u64.to_le_bytes(), t * 16 + 8);
    }
    let thorough = cfg.tier == "thorough";
    std::thread::scope(|s| {
        for t in 0..THREADS {
            let (shared, merged, sf) = (&shared, &merged, &sf);
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(s, move || {
                    let mut digests = HashSet::new();
                    let mut samples = vec![];
                    let mut notes: Vec<(&'static str, u64)> = vec![];
                    let mut ticks = 0u64;
                    loop {
                        if shared.stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let i = shared.next.fetch_add(1, Ordering::SeqCst);
                        if i >= total {
                            break;
                        }
                        ticks += 1;
                        let mut st = [0u8; 16];
                        st[..8].copy_from_slice(&i.to_le_bytes());
                        st[8..].copy_from_slice(&ticks.to_le_bytes());
                        let _ = sf.write_all_at(&st, t as u64 * 16);
                        let mut src = Source::random(case_seed(cfg.seed, c.id, i));
                        let want_sample = i % (total / 24 + 1) == 0;
                        let mut ctx = Ctx { want_sample, thorough, notes: std::mem::take(&mut notes) };
                        let r = run_case(c, &mut src, &mut ctx);
                        notes = ctx.notes;
                        shared.evals.fetch_add(1, Ordering::Relaxed);
                        match r {
                            Ok(p) => {
                                if p.nontrivial {
                                    digests.insert(p.digest);
                                    if let Some(s) = p.sample {
                                        samples.push(s);
                                    }
                                }
                            }
                            Err(m) => {
                                shared.stop.store(true, Ordering::SeqCst);
                                let mut g = merged.lock().unwrap();
                                let better = match &g.failure {
                                    None => true,
                                    Some(f) => i < f.0,
                                };
                                if better {
                                    g.failure = Some((i, src.log.clone(), m));
                                }
                            }
                        }
                    }
                    let _ = sf.write_all_at(&u64::MAX.to_le_bytes(), t as u64 * 16);
                    let mut g = merged.lock().unwrap();
                    g.digests.extend(digests);
                    g.samples.extend(samples);
                    for (k, v) in notes {
                        if let Some(e) = g.notes.iter_mut().find(|e| e.0 == k) {
                            e.1 += v;
                        } else {
                            g.notes.push((k, v));
                        }
                    }
                })
                .expect("spawn");
        }
    });
    let m = merged.into_inner().unwrap();
    let mut rep = String::new();
    rep.push_str(&format!("evals {}\n", shared.evals.load(Ordering::SeqCst)));
    rep.push_str(&format!("distinct {}\n", m.digests.len()));
    for (k, v) in &m.notes {
        rep.push_str(&format!("note {} {}\n", k, v));
    }
    let mut samples = m.samples;
    samples.sort();
    samples.dedup();
    for s in samples.iter().take(12) {
        rep.push_str(&format!("sample {}\n", s.replace('\n', " ")));
    }
    if let Some((i, log, _)) = &m.failure {
        rep.push_str(&format!("fail {} {}\n", i, log.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")));
    }
    std::fs::write(out, rep).expect("report");
    if m.failure.is_some() {
        3
    } else {
        0
    }
}

/// Runs one explicit choice sequence in this process (exit code 0 pass, 3 fail); prints the message.
pub fn one(c: &'static Check, cfg: &Config, choices: Vec<u64>, out: Option<&Path>) -> i32 {
    install_panic_hook();
    let thorough = cfg.tier == "thorough";
    let (r, log) = std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || {
            let mut src = Source::replay(choices);
            let mut ctx = Ctx { want_sample: true, thorough, notes: vec![] };
            let r = run_case(c, &mut src, &mut ctx);
            (r, src.log)
        })
        .unwrap()
        .join()
        .unwrap();
    let log_s = log.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    match r {
        Ok(_) => 0,
        Err(m) => {
            match out {
                Some(p) => std::fs::write(p, format!("{}\n{}", log_s, m)).unwrap(),
                None => println!("{}", m),
            }
            3
        }
    }
}

enum ChildEnd {
    Exit(i32),
    Signal(i32),
    Hang,
}

fn wait_child(child: &mut std::process::Child, mut alive: impl FnMut() -> bool) -> ChildEnd {
    use std::os::unix::process::ExitStatusExt;
    loop {
        match child.try_wait() {
            Ok(Some(st)) => {
                return match st.code() {
                    Some(c) => ChildEnd::Exit(c),
                    None => ChildEnd::Signal(st.signal().unwrap_or(0)),
                }
            }
            Ok(None) => {}
            Err(_) => return ChildEnd::Exit(99),
        }
        if !alive() {
            let _ = child.kill();
            let _ = child.wait();
            return ChildEnd::Hang;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

/// Runs a choice sequence in a child process; Some((log,msg)) when it fails in any way.
fn try_in_child(c: &Check, cfg: &Config, choices: &[u64], hang_s: u64) -> Option<(Vec<u64>, String)> {
    let dir = work_dir(cfg);
    let pid = std::process::id();
    let inp = dir.join(format!("cand-{}-{}", c.id, pid));
    let outp = dir.join(format!("cand-{}-{}.out", c.id, pid));
    std::fs::write(&inp, choices.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")).ok()?;
    let _ = std::fs::remove_file(&outp);
    let mut child = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["one", c.id])
        .arg(&inp)
        .arg(&outp)
        .stderr(std::process::Stdio::null())
        .stdout(std::process::Stdio::null())
        .spawn()
        .ok()?;
    let t0 = Instant::now();
    let end = wait_child(&mut child, || t0.elapsed() < Duration::from_secs(hang_s));
    let res = match end {
        ChildEnd::Exit(3) => {
            let s = std::fs::read_to_string(&outp).unwrap_or_default();
            let (l, m) = s.split_once('\n').unwrap_or(("", ""));
            Some((parse_choices(l), m.to_string()))
        }
        ChildEnd::Exit(_) => None,
        ChildEnd::Signal(n) => Some((choices.to_vec(), format!("the process died from signal {} (abort or stack overflow)", n))),
        ChildEnd::Hang => Some((choices.to_vec(), format!("no result after {} s", hang_s))),
    };
    let _ = std::fs::remove_file(&inp);
    let _ = std::fs::remove_file(&outp);
    res
}

pub fn parse_choices(s: &str) -> Vec<u64> {
    s.trim().split(',').filter(|x| !x.is_empty()).filter_map(|x| x.trim().parse().ok()).collect()
}

pub fn run_check(c: &'static Check, cfg: &Config) -> i32 {
    let t0 = Instant::now();
    let dir = work_dir(cfg);
    let pid = std::process::id();
    let out = dir.join(format!("worker-{}-{}.report", c.id, pid));
    let status = dir.join(format!("worker-{}-{}.status", c.id, pid));
    let mut child = match std::process::Command::new(std::env::current_exe().unwrap())
        .args(["worker", c.id])
        .arg(&out)
        .arg(&status)
        .stderr(std::process::Stdio::null())
        .spawn()
    {
        Ok(c) => c,
        Err(e) => {
            eprintln!("cannot start worker: {}", e);
            return 2;
        }
    };
    let mut last: Vec<u8> = vec![];
    let mut since: Vec<Instant> = vec![Instant::now(); THREADS];
    let mut check_at = Instant::now();
    let status2 = status.clone();
    let end = wait_child(&mut child, || {
        if check_at.elapsed() < Duration::from_millis(500) {
            return true;
        }
        check_at = Instant::now();
        let mut cur = vec![];
        if let Ok(mut f) = std::fs::File::open(&status2) {
            let _ = f.read_to_end(&mut cur);
        }
        for t in 0..THREADS {
            let a = cur.get(t * 16..t * 16 + 16);
            let b = last.get(t * 16..t * 16 + 16);
            let idle = a.map_or(true, |a| a[..8] == [0xff; 8]);
            if a != b || idle {
                since[t] = Instant::now();
            }
        }
        last = cur;
        since.iter().all(|s| s.elapsed() < Duration::from_secs(c.hang_s))
    });
    let in_flight: Vec<u64> = {
        let mut cur = vec![];
        if let Ok(mut f) = std::fs::File::open(&status) {
            let _ = f.read_to_end(&mut cur);
        }
        cur.chunks(16).filter(|x| x.len() == 16).map(|x| u64::from_le_bytes(x[..8].try_into().unwrap())).filter(|&x| x != u64::MAX).collect()
    };
    let _ = std::fs::remove_file(&status);
    let rep = std::fs::read_to_string(&out).unwrap_or_default();
    let _ = std::fs::remove_file(&out);

    let mut evals = 0u64;
    let mut distinct = 0u64;
    let mut samples: Vec<String> = vec![];
    let mut notes: Vec<(String, u64)> = vec![];
    let mut failure: Option<(Vec<u64>, String)> = None;
    let mut crashed = false;
    match end {
        ChildEnd::Exit(0) | ChildEnd::Exit(3) => {
            for l in rep.lines() {
                let (k, v) = l.split_once(' ').unwrap_or((l, ""));
                match k {
                    "evals" => evals = v.parse().unwrap_or(0),
                    "distinct" => distinct = v.parse().unwrap_or(0),
                    "note" => {
                        if let Some((a, b)) = v.rsplit_once(' ') {
                            notes.push((a.to_string(), b.parse().unwrap_or(0)));
                        }
                    }
                    "sample" => samples.push(v.to_string()),
                    "fail" => {
                        let (_, l) = v.split_once(' ').unwrap_or((v, ""));
                        failure = Some((parse_choices(l), String::new()));
                    }
                    _ => {}
                }
            }
            if !rep.starts_with("evals") {
                eprintln!("worker gave no report");
                return 2;
            }
        }
        ChildEnd::Exit(n) => {
            eprintln!("worker exited with {}", n);
            return 2;
        }
        ChildEnd::Signal(_) | ChildEnd::Hang => {
            crashed = true;
            // find the case that does it, alone
            let hang = c.hang_s;
            for i in &in_flight {
                let logp = dir.join(format!("log-{}-{}", c.id, pid));
                let mut child = match std::process::Command::new(std::env::current_exe().unwrap())
                    .args(["case", c.id, &i.to_string()])
                    .arg(&logp)
                    .stderr(std::process::Stdio::null())
                    .stdout(std::process::Stdio::null())
                    .spawn()
                {
                    Ok(c) => c,
                    Err(_) => return 2,
                };
                let t = Instant::now();
                let e = wait_child(&mut child, || t.elapsed() < Duration::from_secs(hang));
                let log = parse_choices(&std::fs::read_to_string(&logp).unwrap_or_default());
                let _ = std::fs::remove_file(&logp);
                match e {
                    ChildEnd::Exit(0) => {}
                    ChildEnd::Exit(3) => failure = Some((log, String::new())),
                    ChildEnd::Exit(_) => {}
                    ChildEnd::Signal(n) => {
                        // exit by SIGKILL may be the machine running out of memory: not a verdict
                        if n != 9 {
                            failure = Some((log, format!("the process died from signal {} (abort or stack overflow)", n)))
                        }
                    }
                    ChildEnd::Hang => failure = Some((log, format!("no result after {} s", hang))),
                }
                if failure.is_some() {
                    break;
                }
            }
            if failure.is_none() {
                eprintln!("worker died but no single case reproduces it");
                return 2;
            }
        }
    }
    let code;
    let mut violations = 0;
    if let Some((choices, msg)) = failure {
        violations = 1;
        // Confirm and shrink in child processes (a candidate may crash).
        let hang = if msg.starts_with("no result") { c.hang_s } else { c.hang_s.min(20) };
        let (mut best, mut m) = (choices.clone(), msg.clone());
        if let Some((l, mm)) = try_in_child(c, cfg, &choices, hang) {
            best = l;
            m = mm;
        } else if !crashed {
            eprintln!("failure did not reproduce from its recorded choices; reporting the original");
        }
        let (budget, n) = if msg.starts_with("no result") { (40, 4) } else { (45, 4000) };
        let (b, m2, sh) = shrink(best, m, Duration::from_secs(budget), n, &mut |cand| try_in_child(c, cfg, cand, hang));
        let rp_dir = dir.join("replay");
        let _ = std::fs::create_dir_all(&rp_dir);
        let rp = rp_dir.join(format!("{}-{:016x}.json", c.id, hash_bytes(format!("{:?}", b).as_bytes())));
        let cs = b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
        let body = format!(
            "{{\"property\":{},\"seed\":{},\"tier\":{},\"choices\":\"{}\",\"message\":{},\"shrink_evaluations\":{},\"rerun\":{}}}\n",
            jstr(c.id),
            cfg.seed,
            jstr(&cfg.tier),
            cs,
            jstr(&m2),
            sh,
            jstr(&format!("/verif/run.sh replay {}", rp.display()))
        );
        if let Ok(mut f) = std::fs::File::create(&rp) {
            let _ = f.write_all(body.as_bytes());
        }
        println!("{}: {}", c.id, m2);
        println!("VIOLATION property={} replay={}", c.id, rp.display());
        code = 1;
    } else {
        code = 0;
    }
    let wall = t0.elapsed().as_secs_f64();
    let mut ev = String::from("{\n");
    ev.push_str(&format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n", jstr(c.id), jstr(&cfg.tier), cfg.seed, jstr(c.level)));
    let mut rule = c.rule.to_string();
    if !notes.is_empty() {
        notes.sort();
        rule.push_str("; measured: ");
        rule.push_str(&notes.iter().map(|(k, v)| format!("{}={}", k, v)).collect::<Vec<_>>().join(", "));
    }
    samples.truncate(8);
    let sm: Vec<String> = samples.iter().map(|s| jstr(&s.chars().take(600).collect::<String>())).collect();
    ev.push_str(&format!(
        " \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}]\n }},\n",
        evals,
        distinct,
        jstr(&rule),
        sm.join(", ")
    ));
    ev.push_str(&format!(" \"wall_s\": {:.2},\n \"violations\": {},\n", wall, violations));
    ev.push_str(&format!(" \"assumptions\": [{}]\n}}\n", c.assumptions.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", ")));
    let evd = cfg.root.join("evidence");
    let _ = std::fs::create_dir_all(&evd);
    if let Err(e) = std::fs::write(evd.join(format!("{}.json", c.id)), ev) {
        eprintln!("cannot write evidence: {}", e);
        return 2;
    }
    println!("{}: {} cases, {} distinct non-trivial, {:.1} s, {}", c.id, evals, distinct, wall, if code == 0 { "held" } else { "VIOLATED" });
    code
}

/// Runs random case `i` writing its choice log incrementally, so that a crash leaves the log.
pub fn case(c: &'static Check, cfg: &Config, i: u64, logp: &Path) -> i32 {
    install_panic_hook();
    let seed = case_seed(cfg.seed, c.id, i);
    let thorough = cfg.tier == "thorough";
    let lp = logp.to_path_buf();
    let r = std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || {
            let mut src = Source::random(seed);
            LOG_TO.with(|l| *l.borrow_mut() = Some(lp.clone()));
            let mut ctx = Ctx { want_sample: true, thorough, notes: vec![] };
            let r = run_case(c, &mut src, &mut ctx);
            (r.is_err(), src.log, lp)
        })
        .unwrap()
        .join()
        .unwrap();
    let s = r.1.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    std::fs::write(&r.2, s).unwrap();
    if r.0 {
        3
    } else {
        0
    }
}

thread_local! {
    static LOG_TO: std::cell::RefCell<Option<PathBuf>> = const { std::cell::RefCell::new(None) };
}

/// Checks call this once generation is finished and code under test is about to run, so that a
/// crash can be replayed from the recorded choices.
pub fn checkpoint(src: &Source) {
    LOG_TO.with(|l| {
        if let Some(p) = &*l.borrow() {
            let s = src.log.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
            let _ = std::fs::write(p, s);
        }
    })
}
