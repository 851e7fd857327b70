//! Generated-input search driver shared by all checks.
//!
//! A check is a [`Prop`]: a proptest strategy for cases and an oracle over one case. The driver
//! runs a fixed, seed-determined list of cases in single-threaded worker processes (the code under
//! test aborts the process when an `extern "C"` function panics), notices failures, crashes and
//! hangs, shrinks the case by re-running candidates in forked children, and writes the minimal case
//! as the replay file. It also writes the evidence file.

use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::io::{Read, Write};
use std::os::fd::{AsRawFd, FromRawFd};
use std::panic::AssertUnwindSafe;
use std::path::{Path, PathBuf};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub use proptest;
pub use serde;
pub use serde_json;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
    /// Picks a number by tier.
    pub fn pick<T>(self, quick: T, thorough: T) -> T {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
}

/// What one evaluation reports besides success or failure.
#[derive(Default)]
pub struct Ctx {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
}

impl Ctx {
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn label_if(&mut self, cond: bool, l: &'static str) {
        if cond {
            self.labels.push(l);
        }
    }
    pub fn nontrivial(&mut self, b: bool) {
        self.nontrivial |= b;
    }
}

pub trait Prop: 'static {
    type Case: Serialize + DeserializeOwned + Clone + Debug + 'static;
    const ID: &'static str;
    /// How cases are made and what makes one non-trivial.
    const RULE: &'static str;
    /// Assumptions of the oracle.
    const ASSUMPTIONS: &'static [&'static str] = &[];
    fn strategy(tier: Tier) -> BoxedStrategy<Self::Case>;
    /// Hand-written cases evaluated before the generated ones (regressions and corner shapes).
    fn fixed() -> Vec<Self::Case> {
        vec![]
    }
    fn cases(tier: Tier) -> u64;
    fn check(case: &Self::Case, ctx: &mut Ctx) -> Result<(), String>;
    /// Identifier of a listed known finding (known_findings.json) that this failure is, if any.
    fn known(_case: &Self::Case, _msg: &str) -> Option<String> {
        None
    }
    /// Seconds without progress on a single case after which it counts as hanging.
    fn hang_secs() -> u64 {
        150
    }
}

/// A double that survives JSON (finite as a number, otherwise its bits).
#[derive(Clone, Copy, Debug)]
pub struct Fl(pub f64);

impl Serialize for Fl {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if self.0.is_finite() {
            s.serialize_f64(self.0)
        } else {
            s.serialize_str(&format!("bits:{:016x}", self.0.to_bits()))
        }
    }
}

impl<'de> Deserialize<'de> for Fl {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let v = serde_json::Value::deserialize(d)?;
        if let Some(f) = v.as_f64() {
            return Ok(Fl(f));
        }
        let s = v
            .as_str()
            .and_then(|s| s.strip_prefix("bits:"))
            .ok_or_else(|| serde::de::Error::custom("bad double"))?;
        u64::from_str_radix(s, 16)
            .map(|b| Fl(f64::from_bits(b)))
            .map_err(serde::de::Error::custom)
    }
}

pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325_u64;
    for b in bytes {
        h ^= u64::from(*b);
        h = h.wrapping_mul(0x0000_0100_0000_01b3);
    }
    h ^ (h >> 29)
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

fn runner_for(id: &str, seed: u64, index: u64) -> TestRunner {
    let mut s = seed ^ fnv(id.as_bytes()) ^ index.wrapping_mul(0xd134_2543_de82_ef95);
    let mut bytes = [0_u8; 32];
    for c in bytes.chunks_mut(8) {
        c.copy_from_slice(&splitmix(&mut s).to_le_bytes());
    }
    let cfg = Config {
        failure_persistence: None,
        max_shrink_iters: u32::MAX,
        ..Config::default()
    };
    TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &bytes))
}

// ---------------------------------------------------------------- panics

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());
static PANIC_FD: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(-1);

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!(" at {}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let full = format!("{msg}{loc}");
        let fd = PANIC_FD.load(std::sync::atomic::Ordering::Relaxed);
        if fd >= 0 && !full.contains("panic in a function that cannot unwind") {
            let mut buf = full.clone().into_bytes();
            buf.truncate(500);
            buf.push(0);
            unsafe {
                libc::pwrite(fd, buf.as_ptr().cast(), buf.len(), 0);
            }
        }
        if fd < 0 {
            eprintln!("{full}");
        }
        if let Ok(mut g) = LAST_PANIC.lock() {
            *g = full;
        }
    }));
}

/// Runs `f`, turning a panic into `Err(message)`.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC
            .lock()
            .map(|g| g.clone())
            .unwrap_or_else(|_| "panic".into())),
    }
}

// ---------------------------------------------------------------- fork helper

#[derive(Debug, Clone)]
pub enum ForkEnd {
    /// The child finished and returned these bytes.
    Done(Vec<u8>),
    /// The child panicked (caught at its top), with the message.
    Panicked(String),
    /// The child was ended by a signal.
    Signal(i32, String),
    /// The child called exit by itself.
    Exited(i32),
    Timeout,
}

pub struct ForkOut {
    pub end: ForkEnd,
    pub stdout: Vec<u8>,
}

/// Runs `f` in a forked child with captured stdout; stderr is discarded.
pub fn in_fork(timeout: Duration, f: impl FnOnce() -> Vec<u8>) -> ForkOut {
    unsafe {
        let mut p = [0_i32; 2];
        let mut o = [0_i32; 2];
        assert_eq!(libc::pipe(p.as_mut_ptr()), 0);
        assert_eq!(libc::pipe(o.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::close(p[0]);
            libc::close(o[0]);
            libc::dup2(o[1], 1);
            let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            libc::dup2(null, 2);
            // Panic messages go to the pipe's side file so that aborts can be described.
            let code;
            match catch(f) {
                Ok(bytes) => {
                    write_all_fd(p[1], &[b'D']);
                    write_all_fd(p[1], &bytes);
                    code = 0;
                }
                Err(m) => {
                    write_all_fd(p[1], &[b'P']);
                    write_all_fd(p[1], m.as_bytes());
                    code = 0;
                }
            }
            // Flush Rust's stdout buffer: the code under test may write there.
            let _ = std::io::stdout().flush();
            libc::_exit(code);
        }
        libc::close(p[1]);
        libc::close(o[1]);
        let mut data = Vec::new();
        let mut out = Vec::new();
        let start = Instant::now();
        let mut open = [true, true];
        let fds = [p[0], o[0]];
        let mut timed_out = false;
        while open[0] || open[1] {
            let left = timeout.saturating_sub(start.elapsed());
            if left.is_zero() {
                timed_out = true;
                libc::kill(pid, libc::SIGKILL);
                break;
            }
            let mut pf: Vec<libc::pollfd> = (0..2)
                .map(|i| libc::pollfd {
                    fd: if open[i] { fds[i] } else { -1 },
                    events: libc::POLLIN,
                    revents: 0,
                })
                .collect();
            libc::poll(pf.as_mut_ptr(), 2, left.as_millis().min(1000) as i32 + 1);
            for i in 0..2 {
                if open[i] && pf[i].revents != 0 {
                    let mut buf = [0_u8; 65536];
                    let n = libc::read(fds[i], buf.as_mut_ptr().cast(), buf.len());
                    if n <= 0 {
                        open[i] = false;
                    } else if i == 0 {
                        data.extend_from_slice(&buf[..n as usize]);
                    } else {
                        out.extend_from_slice(&buf[..n as usize]);
                    }
                }
            }
        }
        libc::close(p[0]);
        libc::close(o[0]);
        let mut status = 0;
        libc::waitpid(pid, &mut status, 0);
        let end = if timed_out {
            ForkEnd::Timeout
        } else if libc::WIFSIGNALED(status) {
            ForkEnd::Signal(libc::WTERMSIG(status), String::new())
        } else {
            match data.first() {
                Some(b'D') => ForkEnd::Done(data[1..].to_vec()),
                Some(b'P') => {
                    ForkEnd::Panicked(String::from_utf8_lossy(&data[1..]).into_owned())
                }
                _ => ForkEnd::Exited(libc::WEXITSTATUS(status)),
            }
        };
        ForkOut { end, stdout: out }
    }
}

fn write_all_fd(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let n = unsafe { libc::write(fd, b.as_ptr().cast(), b.len()) };
        if n <= 0 {
            return;
        }
        b = &b[n as usize..];
    }
}

// ---------------------------------------------------------------- evaluation of one case

fn eval<P: Prop>(case: &P::Case) -> (Result<(), String>, Ctx) {
    let mut ctx = Ctx::default();
    let r = match catch(|| P::check(case, &mut ctx)) {
        Ok(r) => r,
        Err(m) => Err(format!("panicked: {m}")),
    };
    (r, ctx)
}

/// Evaluates a case in a child; `Some(message)` when it fails there.
fn eval_forked<P: Prop>(case: &P::Case, timeout: Duration, panic_file: &Path) -> Option<String> {
    let pf = std::fs::File::create(panic_file).ok();
    let out = in_fork(timeout, || {
        if let Some(f) = &pf {
            PANIC_FD.store(f.as_raw_fd(), std::sync::atomic::Ordering::Relaxed);
        }
        match eval::<P>(case).0 {
            Ok(()) => vec![],
            Err(m) => m.into_bytes(),
        }
    });
    match out.end {
        ForkEnd::Done(b) if b.is_empty() => None,
        ForkEnd::Done(b) => Some(String::from_utf8_lossy(&b).into_owned()),
        ForkEnd::Panicked(m) => Some(format!("panicked: {m}")),
        ForkEnd::Signal(s, _) => Some(describe_signal(s, panic_file)),
        ForkEnd::Exited(c) => Some(format!("process exited with status {c}")),
        ForkEnd::Timeout => Some("did not finish in time".into()),
    }
}

fn describe_signal(s: i32, panic_file: &Path) -> String {
    let m = std::fs::read(panic_file).unwrap_or_default();
    let m: Vec<u8> = m.into_iter().take_while(|b| *b != 0).collect();
    let m = String::from_utf8_lossy(&m).into_owned();
    format!(
        "process ended by signal {s}{}{}",
        if m.is_empty() { "" } else { ": " },
        m
    )
}

// ---------------------------------------------------------------- worker

#[derive(Serialize, Deserialize, Default)]
struct WorkerOut {
    evaluations: u64,
    labels: BTreeMap<String, u64>,
    samples: Vec<serde_json::Value>,
    failed: Option<(u64, String)>,
    known: BTreeMap<String, u64>,
    out_of_time: bool,
}

fn gen_case<P: Prop>(
    strat: &BoxedStrategy<P::Case>,
    seed: u64,
    index: u64,
) -> Box<dyn ValueTree<Value = P::Case>> {
    strat
        .new_tree(&mut runner_for(P::ID, seed, index))
        .unwrap_or_else(|e| panic!("strategy of {} failed: {e}", P::ID))
}

const FIXED_BASE: u64 = 1 << 60;

struct WorkerArgs {
    dir: PathBuf,
    worker: u64,
    workers: u64,
    cases: u64,
    seed: u64,
    tier: Tier,
    deadline: Duration,
}

fn index_list(worker: u64, workers: u64, fixed: u64, cases: u64) -> impl Iterator<Item = u64> {
    let f = (0..fixed)
        .filter(move |i| i % workers == worker)
        .map(|i| FIXED_BASE + i);
    let g = (0..cases).filter(move |i| i % workers == worker);
    f.chain(g)
}

fn worker_main<P: Prop>(a: &WorkerArgs) -> i32 {
    let start = Instant::now();
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        let lim = libc::rlimit {
            rlim_cur: 6 << 30,
            rlim_max: 6 << 30,
        };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let core = libc::rlimit {
            rlim_cur: 0,
            rlim_max: 0,
        };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(null, 1);
        libc::dup2(null, 2);
    }
    let st = std::fs::File::create(a.dir.join(format!("w{}.st", a.worker))).unwrap();
    let pf = std::fs::File::create(a.dir.join(format!("w{}.panic", a.worker))).unwrap();
    PANIC_FD.store(pf.as_raw_fd(), std::sync::atomic::Ordering::Relaxed);
    let fixed = P::fixed();
    let strat = P::strategy(a.tier);
    let mut out = WorkerOut::default();
    let mut hashes: HashSet<u64> = HashSet::new();
    for idx in index_list(a.worker, a.workers, fixed.len() as u64, a.cases) {
        if start.elapsed() > a.deadline {
            out.out_of_time = true;
            break;
        }
        unsafe {
            let b = (idx + 1).to_le_bytes();
            libc::pwrite(st.as_raw_fd(), b.as_ptr().cast(), 8, 0);
        }
        let case = if idx >= FIXED_BASE {
            fixed[(idx - FIXED_BASE) as usize].clone()
        } else {
            gen_case::<P>(&strat, a.seed, idx).current()
        };
        let (r, ctx) = eval::<P>(&case);
        out.evaluations += 1;
        for l in &ctx.labels {
            *out.labels.entry((*l).to_string()).or_default() += 1;
        }
        if ctx.nontrivial {
            let js = serde_json::to_vec(&case).unwrap();
            if hashes.insert(fnv(&js)) && out.samples.len() < 3 && js.len() < 1500 {
                out.samples.push(serde_json::from_slice(&js).unwrap());
            }
        }
        if let Err(m) = r {
            if let Some(k) = P::known(&case, &m) {
                *out.known.entry(k).or_default() += 1;
                continue;
            }
            out.failed = Some((idx, m));
            break;
        }
    }
    let mut hb = Vec::with_capacity(hashes.len() * 8);
    for h in &hashes {
        hb.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(a.dir.join(format!("w{}.hash", a.worker)), hb).unwrap();
    // (Renamed into place: the supervisor may end this process at any moment.)
    let tmp = a.dir.join(format!("w{}.tmp", a.worker));
    std::fs::write(&tmp, serde_json::to_vec(&out).unwrap()).unwrap();
    std::fs::rename(&tmp, a.dir.join(format!("w{}.json", a.worker))).unwrap();
    0
}

// ---------------------------------------------------------------- supervisor

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    seed: u64,
    tier: String,
    index: u64,
    /// "case": the case alone fails. "sequence": it fails after the earlier cases of its worker.
    mode: String,
    worker: u64,
    workers: u64,
    message: String,
    shrink_steps: u64,
    case: serde_json::Value,
    original: serde_json::Value,
}

/// The directory of the verification files.
pub fn root() -> PathBuf {
    std::env::var_os("VERIF_ROOT").map_or_else(|| PathBuf::from("/verif"), PathBuf::from)
}

enum Found {
    Fail { idx: u64, msg: String, worker: u64 },
    Crash { idx: u64, msg: String, worker: u64 },
    Hang { idx: u64, worker: u64 },
}

fn case_at<P: Prop>(tier: Tier, seed: u64, idx: u64) -> P::Case {
    if idx >= FIXED_BASE {
        P::fixed()[(idx - FIXED_BASE) as usize].clone()
    } else {
        gen_case::<P>(&P::strategy(tier), seed, idx).current()
    }
}

fn shrink<P: Prop>(
    tier: Tier,
    seed: u64,
    idx: u64,
    first_msg: String,
    timeout: Duration,
    pf: &Path,
) -> (P::Case, String, u64) {
    let mut best = case_at::<P>(tier, seed, idx);
    let mut msg = first_msg;
    let mut steps = 0;
    if idx >= FIXED_BASE {
        return (best, msg, 0);
    }
    let strat = P::strategy(tier);
    let mut tree = gen_case::<P>(&strat, seed, idx);
    let start = Instant::now();
    let budget = Duration::from_secs(tier.pick(60, 180));
    if !tree.simplify() {
        return (best, msg, 0);
    }
    while start.elapsed() < budget && steps < 4000 {
        steps += 1;
        let cand = tree.current();
        // A candidate that is a listed known finding is not evidence for this failure.
        let r = eval_forked::<P>(&cand, timeout, pf).filter(|m| P::known(&cand, m).is_none());
        if let Some(m) = r {
            best = cand;
            msg = m;
            if !tree.simplify() {
                break;
            }
        } else if !tree.complicate() {
            break;
        }
    }
    (best, msg, steps)
}

fn load_known(id: &str) -> Vec<serde_json::Value> {
    let p = root().join("known_findings.json");
    let Ok(b) = std::fs::read(p) else { return vec![] };
    let v: serde_json::Value = serde_json::from_slice(&b).expect("known_findings.json");
    v["findings"]
        .as_array()
        .cloned()
        .unwrap_or_default()
        .into_iter()
        .filter(|f| f["property"] == id && f["status"] == "known")
        .collect()
}

pub fn run_check<P: Prop>(tier: Tier, seed: u64) -> i32 {
    let start = Instant::now();
    let dir = std::env::temp_dir().join(format!("qverif-{}-{}", P::ID, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let code = supervise::<P>(tier, seed, &dir, start);
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn supervise<P: Prop>(tier: Tier, seed: u64, dir: &Path, start: Instant) -> i32 {
    let env_u64 = |k: &str| std::env::var(k).ok().and_then(|s| s.parse::<u64>().ok());
    let workers = env_u64("QVERIF_WORKERS").unwrap_or(8).max(1);
    let cases = env_u64("QVERIF_CASES").unwrap_or_else(|| P::cases(tier));
    let deadline = env_u64("QVERIF_BUDGET").unwrap_or(tier.pick(150, 780));
    let exe = std::env::current_exe().unwrap();
    let mut kids: Vec<Option<std::process::Child>> = (0..workers)
        .map(|w| {
            Some(
                std::process::Command::new(&exe)
                    .args([
                        "worker",
                        P::ID,
                        tier.name(),
                        &seed.to_string(),
                        &w.to_string(),
                        &workers.to_string(),
                        &cases.to_string(),
                        &deadline.to_string(),
                    ])
                    .arg(dir)
                    .stdin(std::process::Stdio::null())
                    .spawn()
                    .expect("spawn worker"),
            )
        })
        .collect();
    let mut found: Vec<Found> = vec![];
    let mut errors: Vec<String> = vec![];
    let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); workers as usize];
    let read_st = |w: u64| -> u64 {
        std::fs::read(dir.join(format!("w{w}.st")))
            .ok()
            .and_then(|b| b.try_into().ok())
            .map_or(0, u64::from_le_bytes)
    };
    while kids.iter().any(Option::is_some) {
        std::thread::sleep(Duration::from_millis(20));
        for w in 0..workers {
            let wi = w as usize;
            let Some(k) = kids[wi].as_mut() else { continue };
            match k.try_wait().expect("wait") {
                Some(s) => {
                    use std::os::unix::process::ExitStatusExt;
                    kids[wi] = None;
                    let st = read_st(w);
                    if let Some(sig) = s.signal() {
                        let msg = describe_signal(sig, &dir.join(format!("w{w}.panic")));
                        if sig == libc::SIGKILL || st == 0 {
                            errors.push(format!("worker {w} ended by signal {sig}"));
                        } else {
                            found.push(Found::Crash {
                                idx: st - 1,
                                msg,
                                worker: w,
                            });
                        }
                    } else if s.code() != Some(0) {
                        if st == 0 {
                            errors.push(format!("worker {w} exited with {:?}", s.code()));
                        } else {
                            found.push(Found::Crash {
                                idx: st - 1,
                                msg: format!("process exited with {:?}", s.code()),
                                worker: w,
                            });
                        }
                    } else {
                        let json = std::fs::read(dir.join(format!("w{w}.json"))).ok();
                        let Some(o) = json.and_then(|b| serde_json::from_slice::<WorkerOut>(&b).ok()) else {
                            // The code under test ended the process.
                            found.push(Found::Crash {
                                idx: st.max(1) - 1,
                                msg: "process exited with status 0 in the middle of a case".into(),
                                worker: w,
                            });
                            continue;
                        };
                        if let Some((idx, msg)) = o.failed {
                            found.push(Found::Fail {
                                idx,
                                msg,
                                worker: w,
                            });
                        }
                    }
                }
                None => {
                    let st = read_st(w);
                    if st != last[wi].0 {
                        last[wi] = (st, Instant::now());
                    } else if last[wi].1.elapsed() > Duration::from_secs(P::hang_secs()) {
                        let _ = k.kill();
                        let _ = k.wait();
                        kids[wi] = None;
                        if st == 0 {
                            errors.push(format!("worker {w} did not start"));
                        } else {
                            found.push(Found::Hang {
                                idx: st - 1,
                                worker: w,
                            });
                        }
                    }
                }
            }
        }
        // One failing worker is enough: stop the others.
        if !found.is_empty() {
            for k in kids.iter_mut().flatten() {
                let _ = k.kill();
                let _ = k.wait();
            }
            kids.iter_mut().for_each(|k| *k = None);
        }
    }

    // Merge what the workers covered.
    let mut total = WorkerOut::default();
    let mut hashes: HashSet<u64> = HashSet::new();
    for w in 0..workers {
        let json = std::fs::read(dir.join(format!("w{w}.json"))).ok();
        if let Some(o) = json.and_then(|b| serde_json::from_slice::<WorkerOut>(&b).ok()) {
            total.evaluations += o.evaluations;
            total.out_of_time |= o.out_of_time;
            for (k, v) in o.labels {
                *total.labels.entry(k).or_default() += v;
            }
            for (k, v) in o.known {
                *total.known.entry(k).or_default() += v;
            }
            total.samples.extend(o.samples);
        }
        if let Ok(b) = std::fs::read(dir.join(format!("w{w}.hash"))) {
            for c in b.chunks_exact(8) {
                hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    total.samples.truncate(5);

    let mut violation: Option<(PathBuf, String)> = None;
    let pf = dir.join("replay.panic");
    for f in found {
        let (idx, msg0, worker, timeout) = match f {
            Found::Fail { idx, msg, worker } | Found::Crash { idx, msg, worker } => {
                (idx, msg, worker, Duration::from_secs(60))
            }
            Found::Hang { idx, worker } => (
                idx,
                "did not finish in time".to_string(),
                worker,
                Duration::from_secs(90),
            ),
        };
        let case = case_at::<P>(tier, seed, idx);
        let alone = eval_forked::<P>(&case, timeout, &pf);
        if let Some(m) = &alone {
            if P::known(&case, m).is_some() {
                *total.known.entry(P::known(&case, m).unwrap()).or_default() += 1;
                errors.push(format!(
                    "a known finding ends the process at case {idx}; the rest of that worker's cases were not run"
                ));
                continue;
            }
        }
        let (mode, best, msg, steps) = match alone {
            Some(m) => {
                let hang = m.starts_with("did not finish");
                let t = if hang {
                    Duration::from_secs(20)
                } else {
                    Duration::from_secs(30)
                };
                let (b, m, s) = if hang {
                    (case.clone(), m, 0)
                } else {
                    shrink::<P>(tier, seed, idx, m, t, &pf)
                };
                ("case", b, m, s)
            }
            None => {
                // Depends on what ran before it in the process.
                let out = in_fork(Duration::from_secs(300), || {
                    match replay_sequence::<P>(tier, seed, worker, workers, cases, idx) {
                        Some(m) => m.into_bytes(),
                        None => vec![],
                    }
                });
                let confirmed = match out.end {
                    ForkEnd::Done(b) => !b.is_empty(),
                    ForkEnd::Timeout => false,
                    _ => true,
                };
                if !confirmed {
                    errors.push(format!("case {idx} failed once but not again: {msg0}"));
                    continue;
                }
                ("sequence", case.clone(), msg0, 0)
            }
        };
        let rdir = root().join("replays");
        let _ = std::fs::create_dir_all(&rdir);
        let path = rdir.join(format!("{}-{}-s{}-{}.json", P::ID, tier.name(), seed, idx));
        let r = Replay {
            property: P::ID.into(),
            seed,
            tier: tier.name().into(),
            index: idx,
            mode: mode.into(),
            worker,
            workers,
            message: msg.clone(),
            shrink_steps: steps,
            case: serde_json::to_value(&best).unwrap(),
            original: serde_json::to_value(&case).unwrap(),
        };
        std::fs::write(&path, serde_json::to_vec_pretty(&r).unwrap()).expect("write replay");
        violation = Some((path, msg));
        break;
    }

    for k in load_known(P::ID) {
        println!(
            "KNOWN-FINDING: property={} {}",
            P::ID,
            k["what"].as_str().unwrap_or("?")
        );
    }
    let ev = serde_json::json!({
        "property": P::ID,
        "tier": tier.name(),
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": total.evaluations,
            "distinct_nontrivial": hashes.len(),
            "rule": P::RULE,
            "samples": total.samples,
            "classes": total.labels,
            "fixed_cases": P::fixed().len(),
            "stopped_by_time_budget": total.out_of_time,
            "known_findings_met": total.known,
        },
        "assumptions": P::ASSUMPTIONS,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": i32::from(violation.is_some()),
    });
    let edir = root().join("evidence");
    let _ = std::fs::create_dir_all(&edir);
    std::fs::write(
        edir.join(format!("{}.json", P::ID)),
        serde_json::to_vec_pretty(&ev).unwrap(),
    )
    .expect("write evidence");

    if let Some((path, msg)) = violation {
        println!("{}: {}", P::ID, msg.chars().take(1500).collect::<String>());
        println!("VIOLATION property={} replay={}", P::ID, path.display());
        return 1;
    }
    if !errors.is_empty() {
        for e in errors {
            println!("ERROR {}: {e}", P::ID);
        }
        return 2;
    }
    if total.evaluations == 0 || hashes.is_empty() {
        println!("ERROR {}: nothing non-trivial was evaluated", P::ID);
        return 2;
    }
    println!(
        "OK property={} evaluations={} distinct_nontrivial={} wall={:.1}s{}",
        P::ID,
        total.evaluations,
        hashes.len(),
        start.elapsed().as_secs_f64(),
        if total.out_of_time { " (time budget reached)" } else { "" }
    );
    0
}

fn replay_sequence<P: Prop>(
    tier: Tier,
    seed: u64,
    worker: u64,
    workers: u64,
    cases: u64,
    idx: u64,
) -> Option<String> {
    let fixed = P::fixed();
    let strat = P::strategy(tier);
    for i in index_list(worker, workers, fixed.len() as u64, cases) {
        let case = if i >= FIXED_BASE {
            fixed[(i - FIXED_BASE) as usize].clone()
        } else {
            gen_case::<P>(&strat, seed, i).current()
        };
        let (r, _) = eval::<P>(&case);
        if i == idx {
            return r.err();
        }
    }
    None
}

fn run_replay<P: Prop>(r: &Replay) -> i32 {
    let dir = std::env::temp_dir().join(format!("qverif-replay-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let pf = dir.join("panic");
    let tier = if r.tier == "quick" {
        Tier::Quick
    } else {
        Tier::Thorough
    };
    let res = if r.mode == "sequence" {
        let out = in_fork(Duration::from_secs(600), || {
            replay_sequence::<P>(tier, r.seed, r.worker, r.workers, P::cases(tier), r.index)
                .map(String::into_bytes)
                .unwrap_or_default()
        });
        match out.end {
            ForkEnd::Done(b) if b.is_empty() => None,
            ForkEnd::Done(b) => Some(String::from_utf8_lossy(&b).into_owned()),
            e => Some(format!("{e:?}")),
        }
    } else {
        let case: P::Case = serde_json::from_value(r.case.clone()).expect("case of the replay");
        println!("{case:#?}");
        eval_forked::<P>(&case, Duration::from_secs(120), &pf)
    };
    let _ = std::fs::remove_dir_all(&dir);
    match res {
        Some(m) => {
            println!("REPRODUCED property={}: {m}", P::ID);
            1
        }
        None => {
            println!("not reproduced: property={} holds on this case", P::ID);
            0
        }
    }
}

/// One registered property, with its type erased.
pub struct Entry {
    pub id: &'static str,
    check: fn(Tier, u64) -> i32,
    worker: fn(&[String]) -> i32,
    replay: fn(&serde_json::Value) -> i32,
    gen: fn(Tier, u64, u64),
}

fn parse_tier(s: &str) -> Tier {
    if s == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}

pub fn entry<P: Prop>() -> Entry {
    Entry {
        id: P::ID,
        check: run_check::<P>,
        worker: |a| {
            let w = WorkerArgs {
                tier: parse_tier(&a[0]),
                seed: a[1].parse().unwrap(),
                worker: a[2].parse().unwrap(),
                workers: a[3].parse().unwrap(),
                cases: a[4].parse().unwrap(),
                deadline: Duration::from_secs(a[5].parse().unwrap()),
                dir: PathBuf::from(&a[6]),
            };
            worker_main::<P>(&w)
        },
        replay: |v| run_replay::<P>(&serde_json::from_value(v.clone()).expect("replay file")),
        gen: |t, s, n| {
            let strat = P::strategy(t);
            for i in 0..n {
                let c = gen_case::<P>(&strat, s, i).current();
                println!("{}", serde_json::to_string(&c).unwrap());
            }
        },
    }
}

/// Command line shared by the check binaries.
pub fn main_with(entries: &[Entry]) -> ! {
    std::process::exit(run(entries))
}

/// Performs what the command line asks for and gives the exit code.
pub fn run(entries: &[Entry]) -> i32 {
    install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let find = |id: &str| {
        entries.iter().find(|e| e.id == id).unwrap_or_else(|| {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        })
    };
    let seed = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1_u64);
    let code = match args.first().map(String::as_str) {
        Some("check") => {
            let tier = args
                .get(2)
                .cloned()
                .or_else(|| std::env::var("VERIF_TIER").ok())
                .unwrap_or_default();
            (find(&args[1]).check)(parse_tier(&tier), seed)
        }
        Some("worker") => (find(&args[1]).worker)(&args[2..]),
        Some("replay") => {
            let v: serde_json::Value =
                serde_json::from_slice(&std::fs::read(&args[1]).expect("replay file")).unwrap();
            (find(v["property"].as_str().unwrap()).replay)(&v)
        }
        Some("gen") => {
            (find(&args[1]).gen)(Tier::Quick, seed, args.get(2).map_or(3, |s| s.parse().unwrap()));
            0
        }
        Some("list") => {
            for e in entries {
                println!("{}", e.id);
            }
            0
        }
        _ => {
            eprintln!("usage: check ID [quick|thorough] | replay FILE | gen ID [N] | list");
            2
        }
    };
    let _ = std::io::stdout().flush();
    code
}

/// Reads everything from a file descriptor (used by checks that make their own pipes).
pub fn read_fd(fd: i32) -> Vec<u8> {
    let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
    let mut v = vec![];
    let _ = f.read_to_end(&mut v);
    v
}
