//! C22: the Python module does what the native runner does.

use crate::c20::*;
use crate::c21::{self, Change};
use crate::prog::*;
use runner::OUTPUT;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::io::Write;
use std::time::Duration;
use vdriver::proptest::prelude::*;
use vdriver::{catch, in_fork, Ctx, ForkEnd, Prop, Tier};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum How {
    Run,
    Bytes,
    Main,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Cb {
    None,
    List,
    Handler,
    Both,
    /// Raises once it has been given that many bytes.
    Stop(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Call {
    pub prog: u8,
    pub change: Change,
    pub how: How,
    pub form: u8,
    pub entry: u8,
    pub shots: Option<u32>,
    pub seed: Option<u64>,
    pub cb: Cb,
    /// Number of arguments given by position.
    pub pos: u8,
    /// Give arguments that are None rather than leaving them out.
    pub full: bool,
    /// Gives one argument a value of an unsuitable type or range.
    pub misuse: Option<u8>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub progs: Vec<Prog>,
    pub calls: Vec<Call>,
    /// Run the first call through a script that starts the command line, optionally ending in a failure.
    pub script: Option<Option<String>>,
}

/// Directory of the Python package, made of the repository's files and the module built from it.
fn package() -> std::path::PathBuf {
    let d = scratch().join("py");
    let p = d.join("qirrunner");
    if !p.join("_native.so").exists() {
        std::fs::create_dir_all(&p).expect("scratch directory");
        for f in std::fs::read_dir("/repo/pip/qirrunner").expect("package").flatten() {
            if f.path().extension().is_some_and(|x| x == "py") {
                std::fs::copy(f.path(), p.join(f.file_name())).expect("copy the package");
            }
        }
        std::fs::write(d.join("script.py"), include_str!("c22.py")).expect("write the script");
        let so = std::env::current_exe().unwrap().with_file_name("lib_native.so");
        std::os::unix::fs::symlink(so, p.join("_native.so")).expect("link the module");
    }
    d
}

struct Collect {
    got: Vec<u8>,
    stop: usize,
}
impl Write for Collect {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        self.got.extend_from_slice(buf);
        if self.got.len() >= self.stop {
            return Err(std::io::Error::other("enough"));
        }
        Ok(buf.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

#[derive(Serialize, Deserialize, Debug)]
struct Native {
    ok: bool,
    msg: String,
    text: Vec<u8>,
}

/// A call with everything that it needs.
struct Ready {
    call: Call,
    bytes: Vec<u8>,
    file: String,
    name: Option<String>,
    shots: Option<u32>,
    args: Vec<String>,
    /// Its arguments are those of a run.
    plain: bool,
}

fn ready(c: &Case, k: usize, ctx: &mut Ctx) -> Result<Ready, String> {
    let call = c.calls[k].clone();
    let prog = c.progs[call.prog as usize % c.progs.len()].clone();
    let change = match &call.change {
        Change::CutBitcode(_) | Change::FalseMagic(..) | Change::BrokenReader(_) => Change::None,
        x => x.clone(),
    };
    let make = |change: Change, ctx: &mut Ctx| c21::apply(&c21::Case { prog: prog.clone(), change, form: call.form, entry: call.entry, shots: call.shots.unwrap_or(1).min(3) as u8, seed: call.seed.unwrap_or(0) }, ctx);
    let mut a = make(change, ctx)?;
    if a.want.is_none() {
        a = make(Change::None, ctx)?;
    }
    let ext = if !a.ext.is_empty() || matches!(call.change, Change::Extension(_)) { a.ext.clone() } else { if a.text { "ll" } else { "bc" }.to_string() };
    let mut file = scratch().join(if ext.is_empty() { format!("p{k}") } else { format!("p{k}.{ext}") });
    std::fs::write(&file, &a.bytes).expect("write scratch file");
    match a.missing {
        0 => {}
        1 => file = scratch().join("missing.ll"),
        2 => file = scratch().join("missing.bc"),
        n => {
            file = scratch().join(if n == 3 { "folder.ll" } else { "folder.bc" });
            std::fs::create_dir_all(&file).expect("scratch folder");
        }
    }
    let file = file.to_str().unwrap().to_string();
    let shots = call.shots;
    let mut args = vec!["qir-runner".to_string(), if call.full { "--file" } else { "-f" }.to_string(), file.clone()];
    if let Some(s) = call.seed {
        args.extend(["-r".to_string(), s.to_string()]);
    }
    let own = a.args.clone().unwrap_or_default();
    if let (Some(s), false) = (shots, own.iter().any(|x| x == "-s" || x.starts_with("--shots"))) {
        args.push(format!("--shots={s}"));
    }
    if own.iter().any(|x| x == "-r") {
        args.retain(|x| *x != "-r" && Some(x) != call.seed.map(|s| s.to_string()).as_ref());
    }
    if let (Some(n), false) = (&a.name, own.iter().any(|x| x == "-e")) {
        args.push(format!("--entrypoint={n}"));
    }
    let plain = own.is_empty();
    args.extend(own);
    Ok(Ready { bytes: a.bytes, file, name: a.name, shots, args, call, plain })
}

impl Ready {
    fn misused(&self) -> bool {
        self.call.misuse.is_some()
    }
    /// The arguments for Python, by name.
    fn spec(&self) -> Value {
        let c = &self.call;
        let mut args: Vec<(&str, Value)> = vec![];
        let first = match c.how {
            How::Main => ("args", json!(self.args)),
            How::Run => ("path", json!(self.file)),
            How::Bytes => ("bytes", json!({"file": self.blob()})),
        };
        args.push(first);
        if c.how != How::Main {
            args.push(("entry_point", json!(self.name)));
            args.push(("shots", json!(self.shots)));
            args.push(("rng_seed", json!(c.seed)));
            args.push(("output_fn", if c.cb == Cb::None { Value::Null } else { json!("cb") }));
        }
        let n = args.len();
        let mut pos = c.pos as usize % (n + 1);
        if let Some(m) = c.misuse {
            let bad = json!({"object": 1});
            let int = |s: &str| json!({"int": s});
            match (c.how, m % 10) {
                (How::Main, k) => args[0].1 = [json!(5), json!([1, 2]), json!("-f"), bad][k as usize % 4].clone(),
                (_, 0) => args[0].1 = json!(17),
                (_, 1) => args[0].1 = bad,
                (_, 2) => args[1].1 = json!(3),
                (_, 3) => args[2].1 = int("-1"),
                (_, 4) => args[2].1 = int("4294967296"),
                (_, 5) => args[2].1 = json!("two"),
                (_, 6) => args[3].1 = int("-1"),
                (_, 7) => args[3].1 = int("18446744073709551616"),
                (_, 8) => args[3].1 = bad,
                (How::Run, _) => args[0].1 = json!({"file": self.blob()}),
                _ => args[0].1 = json!("some text"),
            }
        }
        if !c.full {
            // What has its default value is left out, and what follows is named.
            let used: Vec<bool> = args.iter().map(|a| !a.1.is_null()).collect();
            pos = pos.min(used.iter().position(|u| !u).unwrap_or(n));
            args.retain(|a| !a.1.is_null());
        }
        let (cb, stop) = match c.cb {
            Cb::None => ("none", 0),
            Cb::List => ("list", 0),
            Cb::Handler => ("handler", 0),
            Cb::Both => ("both", 0),
            Cb::Stop(n) => ("stop", n),
        };
        let name = match c.how {
            How::Main => "main",
            How::Run => "run",
            How::Bytes => "run_bytes",
        };
        json!({"fn": name, "args": args, "pos": pos, "cb": cb, "stop": stop})
    }
    fn blob(&self) -> String {
        let f = scratch().join(format!("blob-{}", vdriver::fnv(&self.bytes)));
        std::fs::write(&f, &self.bytes).expect("write scratch file");
        f.to_str().unwrap().to_string()
    }
    fn native(&self) -> Native {
        let c = &self.call;
        if self.misused() {
            return Native { ok: false, msg: String::new(), text: vec![] };
        }
        let name = self.name.as_deref();
        let shots = self.shots.unwrap_or(1);
        let std_out = c.cb == Cb::None || c.how == How::Main;
        if c.how != How::Main {
            OUTPUT.with(|o| o.borrow_mut().use_std_out(std_out));
        }
        let mut w = Collect { got: vec![], stop: if let Cb::Stop(n) = c.cb { n as usize } else { usize::MAX } };
        let r = match (c.how, std_out) {
            (How::Main, _) => runner::main(Some(self.args.clone())),
            (How::Run, true) => runner::run_file(&self.file, name, shots, c.seed, &mut std::io::stdout()),
            (How::Bytes, true) => runner::run_bytes(&self.bytes, name, shots, c.seed, &mut std::io::stdout()),
            (How::Run, false) => catch(|| runner::run_file(&self.file, name, shots, c.seed, &mut w)).unwrap_or_else(Err),
            (How::Bytes, false) => catch(|| runner::run_bytes(&self.bytes, name, shots, c.seed, &mut w)).unwrap_or_else(Err),
        };
        Native { ok: r.is_ok(), msg: r.err().unwrap_or_default(), text: w.got }
    }
}

fn show(b: &[u8]) -> String {
    String::from_utf8_lossy(b).chars().take(3000).collect()
}

/// Divides standard output at the marks between the calls.
fn pieces(mut b: &[u8], n: usize) -> Option<Vec<Vec<u8>>> {
    let mut v = vec![];
    for k in 0..n {
        let mark = format!("\0#{k}\n").into_bytes();
        let at = b.windows(mark.len()).position(|w| w == mark)?;
        v.push(b[..at].to_vec());
        b = &b[at + mark.len()..];
    }
    b.is_empty().then_some(v)
}

/// Runs with its own random numbers are compared by their frame.
fn frame(b: &[u8]) -> Vec<&[u8]> {
    b.split(|x| *x == b'\n').filter(|l| *l == b"START" || *l == b"END\t0" || l.starts_with(b"METADATA\t")).collect()
}

pub struct C22;

impl Prop for C22 {
    type Case = Case;
    const ID: &'static str = "C22";
    const RULE: &'static str = "case: one to five calls of run, run_bytes and main of the Python module in one interpreter, or the command line of a script, with generated modules (valid, or changed so that they must be rejected) as files or bytes, entry point named or not, shots, seed, callbacks (none, a function, OutputHandler, one that raises) and arguments by position or name, some of an unsuitable type; the native runner performs the same sequence in one process, and text given to the callbacks, standard output and errors must be equal. Non-trivial: at least one call that gives three lines or more through a callback.";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "the module is built over stand-ins for pyo3 (on CPython's C interface) and for inkwell on LLVM 18",
        "calls whose random numbers are not seeded are compared by their framing lines only",
    ];

    fn strategy(tier: Tier) -> BoxedStrategy<Case> {
        let change = prop_oneof![3 => Just(Change::None), 1 => c21::C21::strategy(tier).prop_map(|c| c.change)];
        let cb = prop_oneof![2 => Just(Cb::None), 3 => Just(Cb::List), 2 => Just(Cb::Handler), 1 => Just(Cb::Both), 1 => (0_u16..300).prop_map(Cb::Stop)];
        let how = prop_oneof![4 => Just(How::Run), 4 => Just(How::Bytes), 1 => Just(How::Main)];
        let seed = prop_oneof![3 => any::<u64>().prop_map(Some), 1 => crate::c20::seed().prop_map(Some), 2 => (0_u64..9).prop_map(Some), 2 => Just(None)];
        let shots = prop_oneof![20 => Just(None), 50 => (0_u32..4).prop_map(Some), 1 => (250_u32..260).prop_map(Some)];
        let call = (any::<u8>(), change, how, any::<u8>(), any::<u8>(), shots, seed, cb, any::<u8>(), any::<bool>(), prop::option::weighted(0.07, any::<u8>()))
            .prop_map(|(prog, change, how, form, entry, shots, seed, cb, pos, full, misuse)| Call { prog, change, how, form, entry, shots, seed, cb, pos, full, misuse });
        (prop::collection::vec(prog(), 1..3), prop::collection::vec(call, 1..6), prop::option::weighted(0.08, prop::option::weighted(0.4, "[a-z\\\\\nä ]{0,12}")))
            .prop_map(|(progs, mut calls, script)| {
                // Most sequences are seeded from the start.
                if calls[0].form % 5 > 0 && calls[0].seed.is_none() {
                    calls[0].seed = Some(u64::from(calls[0].pos));
                }
                if script.is_some() {
                    calls.truncate(1);
                    calls[0].how = How::Main;
                }
                Case { progs, calls, script }
            })
            .boxed()
    }
    fn cases(t: Tier) -> u64 {
        t.pick(4_000, 250_000)
    }

    fn check(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
        let calls = (0..c.calls.len()).map(|k| ready(c, k, ctx)).collect::<Result<Vec<_>, String>>()?;
        let dir = package();
        if let Some(fail) = &c.script {
            return script(&calls[0], &c.progs[calls[0].call.prog as usize % c.progs.len()], fail.as_deref(), &dir, ctx);
        }
        let spec: Vec<Value> = calls.iter().map(Ready::spec).collect();
        let (sf, rf) = (scratch().join("spec.json"), scratch().join("result.json"));
        std::fs::write(&sf, serde_json::to_vec(&spec).unwrap()).expect("write scratch file");
        let _ = std::fs::remove_file(&rf);
        let o = std::process::Command::new("python3")
            .args(["-I", "-S", "-B"])
            .args([dir.join("script.py"), sf, rf.clone()])
            .stdin(std::process::Stdio::null())
            .output()
            .map_err(|e| format!("harness: cannot start python3: {e}"))?;
        let about = |k: usize| format!("call {k} of {}: {:?} of\n{}", calls.len(), calls[k].call, if calls[k].bytes.starts_with(b"BC") || calls[k].bytes.starts_with(&[0xde]) { "(bitcode)".to_string() } else { show(&calls[k].bytes) });
        if !o.status.success() {
            return Err(format!("python ended with {:?}: {}, {} calls, the last being {}", o.status, show(&o.stderr), calls.len(), about(calls.len() - 1)));
        }
        let got: Vec<Value> = serde_json::from_slice(&std::fs::read(&rf).map_err(|e| format!("harness: no result: {e}"))?).map_err(|e| format!("harness: {e}"))?;
        let n = in_fork(Duration::from_secs(120), || {
            buffered(true);
            buffered(false);
            let v: Vec<Native> = calls
                .iter()
                .enumerate()
                .map(|(k, r)| {
                    let n = r.native();
                    let _ = std::io::stdout().flush();
                    let mark = format!("\0#{k}\n");
                    unsafe { libc::write(1, mark.as_ptr().cast(), mark.len()) };
                    n
                })
                .collect();
            serde_json::to_vec(&v).unwrap()
        });
        let want: Vec<Native> = match n.end {
            ForkEnd::Done(b) => serde_json::from_slice(&b).unwrap(),
            e => return Err(format!("harness: the native runner ended with {e:?}, {}", about(calls.len() - 1))),
        };
        let (Some(wout), Some(gout)) = (pieces(&n.stdout, calls.len()), pieces(&o.stdout, calls.len())) else {
            return Err(format!("output after or without a call: {:?}, native {:?}", show(&o.stdout), show(&n.stdout)));
        };
        // Whether the random numbers are those of a given seed.
        let mut seeded = false;
        for (k, r) in calls.iter().enumerate() {
            let (w, g) = (&want[k], &got[k]);
            let text: Vec<u8> = g["text"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
            let stopping = matches!(r.call.cb, Cb::Stop(_)) && r.call.how != How::Main;
            if let Some(odd) = g["odd"].as_str() {
                return Err(format!("{odd}: {}", about(k)));
            }
            if r.call.seed.is_some() && !r.misused() && r.plain {
                seeded = true;
            }
            let rejected = g["exc"].is_string();
            // Where the callback stops an unseeded run is not settled.
            if (seeded || !stopping) && rejected == w.ok {
                return Err(format!("the native runner gives {:?}, Python {}: {}", if w.ok { "no error" } else { &w.msg }, g, about(k)));
            }
            ctx.label(match (rejected, r.misused(), stopping) {
                (_, true, _) => "unsuitable argument",
                (true, _, true) => "stopped by the callback or rejected",
                (true, ..) => "rejected",
                _ => ["run", "run_bytes", "main"][r.call.how as usize],
            });
            if rejected && !stopping && !r.misused() && (g["runtime"] != json!(true) || g["msg"].as_str().unwrap().is_empty()) {
                return Err(format!("rejected with {g}, native {:?}: {}", w.msg, about(k)));
            }
            if !seeded {
                ctx.label("unseeded");
                let same = stopping || (frame(&text) == frame(&w.text) && frame(&gout[k]) == frame(&wout[k]));
                if !same || !stopping && text.is_empty() != w.text.is_empty() {
                    return Err(format!("unseeded: callback got {:?}, stdout {:?}; native {:?}, {:?}: {}", show(&text), show(&gout[k]), show(&w.text), show(&wout[k]), about(k)));
                }
            } else {
                if stopping && !w.ok {
                    // How much is given at once is not settled.
                    if !(text.starts_with(&w.text) || w.text.starts_with(&text)) {
                        return Err(format!("callback: {}: {}", first_difference(&text, &w.text), about(k)));
                    }
                } else if text != w.text {
                    return Err(format!("callback: {}: {}", first_difference(&text, &w.text), about(k)));
                }
                if gout[k] != wout[k] {
                    return Err(format!("standard output: {}: {}", first_difference(&gout[k], &wout[k]), about(k)));
                }
            }
            if rejected && stopping {
                seeded = false;
            }
            ctx.nontrivial(!rejected && text.iter().filter(|b| **b == b'\n').count() >= 3);
        }
        Ok(())
    }
}

/// The command line of a script that calls main without arguments.
fn script(r: &Ready, p: &Prog, fail: Option<&str>, dir: &std::path::Path, ctx: &mut Ctx) -> Result<(), String> {
    ctx.label("script");
    let mut args = r.args[1..].to_vec();
    args.retain(|a| !a.contains('\0'));
    if !args.iter().any(|a| a == "-r") {
        args.extend(["-r".into(), "5".into()]);
    }
    let mut text = show_all(&r.bytes);
    if let (Some(f), Change::None, true) = (fail, &r.call.change, r.call.form % 3 != 1) {
        let name = r.name.clone().unwrap_or_else(|| p.entry_name(0));
        if add_failure(&mut text, &name, f) {
            ctx.label("failing program");
            std::fs::write(&r.file, &text).expect("write scratch file");
        }
    }
    let stdin = r.call.pos % 4 == 0;
    if stdin {
        let at = args.iter().position(|a| a == "-f" || a == "--file").unwrap();
        if r.call.pos % 8 == 0 {
            args.drain(at..at + 2);
        } else {
            args[at + 1] = "-".into();
        }
    }
    let start = |cmd: &mut std::process::Command| {
        cmd.args(&args)
            .stdin(if stdin { std::fs::File::open(&r.file).map_or(std::process::Stdio::null(), std::process::Stdio::from) } else { std::process::Stdio::null() })
            .output()
            .map_err(|e| format!("harness: cannot start: {e}"))
    };
    // As the installed program does.
    let mut py = std::process::Command::new("python3");
    py.arg(dir.join("main.py")).env("PYTHONPATH", dir).env("PYTHONDONTWRITEBYTECODE", "1");
    std::fs::write(dir.join("main.py"), "import sys\nfrom qirrunner._native import main\nsys.exit(main())\n").expect("write the script");
    let got = start(&mut py)?;
    let want = start(&mut std::process::Command::new(runner_binary()))?;
    let about = || format!("{args:?} {:?}\n{}", r.call, brief(&text));
    if got.status.success() != want.status.success() || want.status.code().is_some() != got.status.code().is_some() {
        return Err(format!("script: {:?} {}, native {:?} {}: {}", got.status, show(&got.stderr), want.status, show(&want.stderr), about()));
    }
    if got.stdout != want.stdout {
        return Err(format!("script: {}: {}", first_difference(&got.stdout, &want.stdout), about()));
    }
    ctx.nontrivial(want.stdout.iter().filter(|b| **b == b'\n').count() >= 3);
    Ok(())
}

fn show_all(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}
