//! C20: running a module equals executing its calls on the backend.

use crate::mach::*;
use crate::prog::*;
use runner::OUTPUT;
use serde::{Deserialize, Serialize};
use std::io::{Read, Write};
use std::time::Duration;
use vdriver::proptest::prelude::*;
use vdriver::{in_fork, Ctx, ForkEnd, Prop, Tier};

/// How the module reaches the runner.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Form {
    Text,
    Bitcode,
    Wrapped,
    BitcodeCall,
    BitcodeCallText,
    FileLl,
    FileBc,
    InputText,
    InputBc,
    CliLl,
    CliBc,
    CliStdin,
    CliDash,
    Binary,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub prog: Prog,
    pub form: Form,
    pub entry: u8,
    pub shots: u32,
    pub seed: u64,
    /// Pass the seed rather than setting it beforehand.
    pub pass_seed: bool,
    /// Sizes of the pieces in which a reader hands out its bytes and a writer takes them.
    pub chunk: u8,
    /// End the last shot by failing with this message (command line forms only).
    pub fail: Option<String>,
    pub long_flags: bool,
    /// Run a compiled program of the repository (module and entry point) instead.
    #[serde(default)]
    pub resource: Option<(String, Option<String>)>,
}

/// Compiled programs that come with the runner. Those of `cji` check every gate against a decomposition of it.
fn resources() -> Vec<(String, Option<String>)> {
    let mut v = vec![];
    let cji = "H S T X Y Z CNOT CX CY CZ CCNOT Rx Ry Rz Rxx Ryy Rzz R R1 SWAP Exp";
    for g in cji.split(' ') {
        v.push(("cji.bc".to_string(), Some(format!("DecompositionTests__Verify{g}"))));
    }
    for e in ["QIR_App_Test__Simple", "QIR_App_Test__Other"] {
        v.push(("full-qir.bc".to_string(), Some(e.to_string())));
    }
    for f in ["bv.bc", "teleportation.ll", "barrier.bc", "random-bit.bc"] {
        v.push((f.to_string(), None));
    }
    v
}

/// Scratch directory of this process, within that of the whole run.
pub fn scratch() -> std::path::PathBuf {
    let d = std::path::PathBuf::from(std::env::var_os("RVERIF_SCRATCH").expect("scratch directory")).join(std::process::id().to_string());
    std::fs::create_dir_all(&d).expect("scratch directory");
    d
}

struct Chunks<'a> {
    data: &'a [u8],
    n: usize,
    k: usize,
}
impl Read for Chunks<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.k += 1;
        if self.n % 3 == 2 && self.k % 3 == 0 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let n = buf.len().min(self.data.len()).min(if self.n == 0 { usize::MAX } else { self.n * 97 });
        buf[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}
struct Sink {
    got: Vec<u8>,
    n: usize,
}
impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let n = buf.len().min(if self.n == 0 { usize::MAX } else { self.n });
        self.got.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

pub fn bitcode(text: &str) -> Result<Vec<u8>, String> {
    let ctx = inkwell::context::Context::create();
    let m = ctx
        .create_module_from_ir(inkwell::memory_buffer::MemoryBuffer::create_from_memory_range_copy(text.as_bytes(), "m"))
        .map_err(|e| format!("harness: generated text does not parse: {}\n{text}", e.to_string()))?;
    Ok(m.write_bitcode_to_memory().as_slice().to_vec())
}

/// The wrapper that some tools put around bitcode.
pub fn wrapped(bc: &[u8]) -> Vec<u8> {
    let mut w = vec![];
    for x in [0x0B17_C0DE_u32, 0, 20, bc.len() as u32, 0x0100_0007] {
        w.extend_from_slice(&x.to_le_bytes());
    }
    w.extend_from_slice(bc);
    w
}

pub fn buffered(on: bool) {
    OUTPUT.with(|o| {
        let mut o = o.borrow_mut();
        o.use_std_out(!on);
        let _ = o.drain();
    });
}

pub fn drain() -> Vec<u8> {
    OUTPUT.with(|o| o.borrow_mut().drain().collect())
}

/// The output that the calls of the program, made directly, give.
/// Any seed, often a small one or one with a single bit set.
pub fn seed() -> BoxedStrategy<u64> {
    prop_oneof![4 => any::<u64>(), 2 => 0_u64..3, 1 => (0_u32..64).prop_map(|k| 1 << k), 1 => Just(u64::MAX)].boxed()
}

pub fn expected(p: &Prog, entry: usize, shots: u32, seed: u64) -> (Vec<u8>, Vec<u32>) {
    buffered(true);
    qir_backend::set_rng_seed(seed);
    let mut out = vec![];
    let mut called = vec![0; FUNCS.len()];
    for _ in 0..shots {
        out.extend_from_slice(b"START\n");
        for (k, v) in p.metadata(entry) {
            out.extend_from_slice(b"METADATA\t");
            out.extend_from_slice(k.as_bytes());
            if !v.is_empty() {
                out.push(b'\t');
                out.extend_from_slice(v.as_bytes());
            }
            out.push(b'\n');
        }
        qir_backend::__quantum__rt__initialize(std::ptr::null_mut());
        let mut m = direct(p);
        m.run(p.work.len() + entry);
        for (a, b) in called.iter_mut().zip(m.called) {
            *a += b;
        }
        out.extend(drain());
        out.extend_from_slice(b"END\t0\n");
    }
    (out, called)
}

fn show(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

pub fn first_difference(got: &[u8], want: &[u8]) -> String {
    let (g, w): (Vec<&[u8]>, Vec<&[u8]>) = (got.split(|b| *b == b'\n').collect(), want.split(|b| *b == b'\n').collect());
    for k in 0..g.len().max(w.len()) {
        if g.get(k) != w.get(k) {
            return format!("line {}: runner wrote {:?}, direct calls give {:?}", k + 1, g.get(k).map(|x| show(x)), w.get(k).map(|x| show(x)));
        }
    }
    "no difference".into()
}

/// Points standard input at the given bytes.
pub fn stdin_from(bytes: &[u8]) {
    unsafe {
        let fd = libc::memfd_create(c"stdin".as_ptr(), 0);
        assert!(fd >= 0);
        let mut off = 0;
        while off < bytes.len() {
            let n = libc::write(fd, bytes[off..].as_ptr().cast(), bytes.len() - off);
            assert!(n > 0);
            off += n as usize;
        }
        libc::lseek(fd, 0, libc::SEEK_SET);
        libc::dup2(fd, 0);
    }
}

pub fn runner_binary() -> std::path::PathBuf {
    std::env::current_exe().unwrap().with_file_name("qir-runner")
}

fn cli_args(c: &Case, name: Option<&str>, file: Option<&str>) -> Vec<String> {
    let f = |s: &str, l: &str| if c.long_flags { l.to_string() } else { s.to_string() };
    let mut a = vec!["qir-runner".to_string()];
    if let Some(p) = file {
        if p.starts_with('-') && p.len() > 1 {
            a.push(format!("--file={p}"));
        } else {
            a.push(f("-f", "--file"));
            a.push(p.to_string());
        }
    }
    if let Some(n) = name {
        a.push(f("-e", "--entrypoint"));
        a.push(n.to_string());
    }
    if c.shots != 1 || c.long_flags {
        if c.long_flags {
            a.push(format!("--shots={}", c.shots));
        } else {
            a.push("-s".into());
            a.push(c.shots.to_string());
        }
    }
    a.push(f("-r", "--rngseed"));
    a.push(c.seed.to_string());
    a
}

pub struct C20;

impl Prop for C20 {
    type Case = Case;
    const ID: &'static str = "C20";
    const RULE: &'static str = "case: a generated module (1-3 entry points, up to 3 further functions, branches, loops, callables, every runtime function the runner supports, static or dynamic qubits and results, legacy or labelled output, rarely some 100 kB of comments and unused data) with random attributes, shots 0..3 (rarely up to 270, once 66000) and seed, given to the runner as text, bitcode, wrapped bitcode, file, reader, command line or standard input; the same program is performed by direct calls on the backend, and the whole output must be equal byte for byte. Non-trivial: at least one shot, five different runtime functions and three output lines besides the framing.";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "the runner crate is built over a stand-in for inkwell on LLVM 18",
        "results of functions that draw from an unseeded generator are only checked against their bounds",
    ];

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        use Form::*;
        let form = prop_oneof![
            8 => Just(Text), 4 => Just(Bitcode), 2 => Just(Wrapped), 2 => Just(BitcodeCall), 1 => Just(BitcodeCallText), 3 => Just(FileLl), 3 => Just(FileBc),
            2 => Just(InputText), 2 => Just(InputBc), 2 => Just(CliLl), 2 => Just(CliBc), 2 => Just(CliStdin), 1 => Just(CliDash), 1 => Just(Binary)
        ];
        (prog(), form, any::<u8>(), prop_oneof![20 => Just(0_u32), 100 => Just(1), 60 => Just(2), 20 => Just(3), 1 => 250_u32..270, 1 => 4_u32..40], seed(), any::<bool>(), any::<u8>(), prop::option::weighted(0.3, "[a-z\\\\\n\tä ]{0,12}"), any::<bool>())
            .prop_map(|(prog, form, entry, shots, seed, pass_seed, chunk, fail, long_flags)| Case { prog, form, entry, shots, seed, pass_seed, chunk: chunk % 9, fail, long_flags, resource: None })
            .boxed()
    }
    fn fixed() -> Vec<Case> {
        let prog = Prog { static_qubits: false, static_results: false, legacy: false, nq: 1, work: vec![], entries: vec![], caps: [(None, false); 2], spare: false, groups: false, order: 0, pad: 0 };
        resources()
            .into_iter()
            .enumerate()
            .flat_map(|(k, r)| {
                let prog = prog.clone();
                let shots = if r.0 == "cji.bc" { 1_u32 } else { 2 };
                (0..shots).map(move |j| Case {
                    prog: prog.clone(),
                    form: Form::Text,
                    entry: 0,
                    // The first is also run for more shots than sixteen bits count.
                    shots: if r.0 == "random-bit.bc" && j == 1 { 66_000 } else { 1 + j },
                    seed: k as u64 + u64::from(j),
                    pass_seed: true,
                    chunk: 0,
                    fail: None,
                    long_flags: false,
                    resource: Some(r.clone()),
                })
            })
            .collect()
    }
    fn cases(t: Tier) -> u64 {
        t.pick(12_000, 600_000)
    }

    fn check(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
        if let Some((file, entry)) = &c.resource {
            ctx.label("program of the repository");
            return resource(file, entry.as_deref(), c.shots, c.seed);
        }
        let p = &c.prog;
        let entry = c.entry as usize % p.entries.len();
        let name = p.entry_name(entry);
        // With a single entry point the name may be left out.
        let name = if p.entries.len() == 1 && c.entry % 2 == 0 { None } else { Some(name.as_str()) };
        let md = module(p);
        let text = md.text();
        let (want, called) = expected(p, entry, c.shots, c.seed);
        let framing = c.shots as usize * (2 + p.metadata(entry).len());
        let lines = want.iter().filter(|b| **b == b'\n').count();
        ctx.nontrivial(c.shots > 0 && called.iter().filter(|n| **n > 0).count() >= 5 && lines >= framing + 3);
        for (k, n) in called.iter().enumerate() {
            ctx.label_if(*n > 0, FUNCS[k].name);
        }
        let shots = c.shots;
        let seed = if c.pass_seed { Some(c.seed) } else { None };
        buffered(true);
        qir_backend::set_rng_seed(if c.pass_seed { !c.seed } else { c.seed });
        let mut out = Sink { got: vec![], n: c.chunk as usize };
        let in_file = |bytes: &[u8], ext: &str| -> String {
            let f = scratch().join(format!("m.{ext}"));
            std::fs::write(&f, bytes).expect("write scratch file");
            f.to_str().unwrap().to_string()
        };
        use Form::*;
        let r = match c.form {
            Text => {
                ctx.label("text");
                runner::run_bytes(text.as_bytes(), name, shots, seed, &mut out)
            }
            Bitcode => {
                ctx.label("bitcode");
                runner::run_bytes(&bitcode(&text)?, name, shots, seed, &mut out)
            }
            Wrapped => {
                ctx.label("wrapped bitcode");
                runner::run_bytes(&wrapped(&bitcode(&text)?), name, shots, seed, &mut out)
            }
            BitcodeCall | BitcodeCallText => {
                ctx.label("run_bitcode");
                qir_backend::set_rng_seed(c.seed);
                if c.form == BitcodeCall {
                    runner::run_bitcode(&bitcode(&text)?, name, shots, &mut out)
                } else {
                    runner::run_bitcode(text.as_bytes(), name, shots, &mut out)
                }
            }
            FileLl => {
                ctx.label(".ll file");
                runner::run_file(in_file(text.as_bytes(), "ll"), name, shots, seed, &mut out)
            }
            FileBc => {
                ctx.label(".bc file");
                runner::run_file(in_file(&bitcode(&text)?, "bc"), name, shots, seed, &mut out)
            }
            InputText => {
                ctx.label("reader");
                runner::run_input(&mut Chunks { data: text.as_bytes(), n: c.chunk as usize, k: 0 }, name, shots, seed, &mut out)
            }
            InputBc => {
                ctx.label("reader");
                runner::run_input(&mut Chunks { data: &bitcode(&text)?, n: c.chunk as usize, k: 0 }, name, shots, seed, &mut out)
            }
            CliLl | CliBc | CliStdin | CliDash | Binary => {
                ctx.label(if c.form == Binary { "binary" } else { "command line" });
                return cli(c, &text, name, &want);
            }
        };
        if let Err(e) = r {
            return Err(format!("{:?}: the runner rejected a valid program: {e}\n{}", c.form, brief(&text)));
        }
        let rest = drain();
        if !rest.is_empty() {
            return Err(format!("{:?}: output was left behind after the run: {:?}", c.form, show(&rest)));
        }
        if out.got != want {
            return Err(format!("{:?}, {} shots: {}\n{}", c.form, c.shots, first_difference(&out.got, &want), brief(&text)));
        }
        Ok(())
    }
}

/// A compiled program of the repository runs to its end, and gives the same output from its file, as bitcode, and as text.
fn resource(file: &str, entry: Option<&str>, shots: u32, seed: u64) -> Result<(), String> {
    let path = std::path::Path::new("/repo/runner/tests/resources").join(file);
    let bytes = std::fs::read(&path).map_err(|e| format!("harness: {e}"))?;
    let text = {
        let ctx = inkwell::context::Context::create();
        let m = ctx
            .create_module_from_ir(inkwell::memory_buffer::MemoryBuffer::create_from_memory_range_copy(&[&bytes[..], b"\0"].concat()[..bytes.len()], "m"))
            .map_err(|e| format!("harness: {}", e.to_string()))?;
        m.print_to_string().to_string()
    };
    let run = |k: usize| -> Result<Vec<u8>, String> {
        let o = in_fork(Duration::from_secs(120), || {
            buffered(true);
            let mut out = vec![];
            let r = match k {
                0 => runner::run_file(&path, entry, shots, Some(seed), &mut out),
                1 => runner::run_bytes(&bytes, entry, shots, Some(seed), &mut out),
                _ => runner::run_bytes(text.as_bytes(), entry, shots, Some(seed), &mut out),
            };
            match r {
                Ok(()) => [b"+", &out[..]].concat(),
                Err(e) => [b"-", e.as_bytes()].concat(),
            }
        });
        match o.end {
            ForkEnd::Done(b) if b[0] == b'+' => Ok(b[1..].to_vec()),
            ForkEnd::Done(b) => Err(format!("{file} {entry:?}: rejected: {}", show(&b[1..]))),
            e => Err(format!("{file} {entry:?}: the program did not run to its end: {e:?} {}", show(&o.stdout))),
        }
    };
    // The larger ones are run in one of the forms.
    let large = file == "cji.bc";
    let a = run(if large { seed as usize % 3 } else { 0 })?;
    let s = show(&a);
    if s.matches("START\n").count() != shots as usize || s.matches("END\t0\n").count() != shots as usize || !s.ends_with("END\t0\n") {
        return Err(format!("{file} {entry:?}: {shots} shots gave {:?}...", s.chars().take(2000).collect::<String>()));
    }
    for k in 1..if large { 1 } else { 3 } {
        let b = run(k)?;
        if a != b {
            return Err(format!("{file} {entry:?}: output from the file and as {} differ: {}", ["", "bitcode", "text"][k], first_difference(&b, &a)));
        }
    }
    Ok(())
}

/// Makes the entry point end by failing with a message.
pub fn add_failure(text: &mut String, entry: &str, msg: &str) -> bool {
    let Some(head) = text.find(&format!("define void @{}(", symbol(entry))) else { return false };
    let ret = head + text[head..].find("  ret void\n").unwrap();
    text.insert_str(ret, "  %fs = call ptr @__quantum__rt__string_create(ptr @fail_text)\n  call void @__quantum__rt__fail(ptr %fs)\n");
    let data: String = msg.bytes().map(|b| format!("\\{b:02X}")).collect();
    text.push_str(&format!("\n@fail_text = private constant [{} x i8] c\"{data}\\00\"\n", msg.len() + 1));
    for d in ["declare ptr @__quantum__rt__string_create(ptr)\n", "declare void @__quantum__rt__fail(ptr)\n"] {
        if !text.contains(d) {
            text.push_str(d);
        }
    }
    true
}

/// Runs through the command line, in a child process, with its standard output captured.
fn cli(c: &Case, text: &str, name: Option<&str>, want: &[u8]) -> Result<(), String> {
    let mut text = text.to_string();
    let mut want = want.to_vec();
    let mut fails = false;
    if let (Some(f), true) = (&c.fail, c.shots > 0) {
        // The program fails at the end of its first shot: what was recorded before is there, then the message, then nothing.
        let first = want.windows(6).position(|w| w == b"END\t0\n").unwrap();
        // Recorded text could contain the same words; leave such a program alone.
        if want.windows(5).filter(|w| w == b"END\t0").count() == c.shots as usize && name.is_none() {
            assert!(add_failure(&mut text, &c.prog.entry_name(c.entry as usize % c.prog.entries.len()), f));
            want.truncate(first);
            // The form of the message line is decided by C17 and C19; take it from the runtime.
            buffered(true);
            let s = std::ffi::CString::new(f.as_str()).unwrap();
            unsafe { qir_backend::__quantum__rt__message(qir_backend::strings::__quantum__rt__string_create(s.as_ptr() as *mut _)) };
            want.extend(drain());
            fails = true;
        }
    }
    let bc = if c.form == Form::CliBc || (c.form == Form::Binary && c.chunk % 2 == 0) { Some(bitcode(&text)?) } else { None };
    let bytes = bc.clone().unwrap_or_else(|| text.clone().into_bytes());
    let dir = scratch();
    // Its name may be relative, and start with a dash.
    let dash = c.chunk == 8;
    let name_of = match (bc.is_some(), dash) {
        (true, false) => "c.bc",
        (false, false) => "c.ll",
        (true, true) => "-.bc",
        (false, true) => "-c.ll",
    };
    let file = dir.join(name_of);
    std::fs::write(&file, &bytes).expect("write scratch file");
    let file = if dash { name_of.to_string() } else { file.to_str().unwrap().to_string() };
    let (end, got) = if c.form == Form::Binary {
        let stdin = c.chunk % 3 == 0;
        let args = cli_args(c, name, if stdin { None } else { Some(&file) });
        let input = std::fs::File::open(dir.join(name_of)).expect("open scratch file");
        let o = std::process::Command::new(runner_binary())
            .args(&args[1..])
            .current_dir(&dir)
            .stdin(if stdin { std::process::Stdio::from(input) } else { std::process::Stdio::null() })
            .stderr(std::process::Stdio::null())
            .output()
            .map_err(|e| format!("harness: cannot start the runner: {e}"))?;
        (if o.status.success() { "ok".to_string() } else { format!("{:?}", o.status) }, o.stdout)
    } else {
        let args = match c.form {
            Form::CliStdin => cli_args(c, name, None),
            Form::CliDash => cli_args(c, name, Some("-")),
            _ => cli_args(c, name, Some(&file)),
        };
        let o = in_fork(Duration::from_secs(60), || {
            buffered(true);
            buffered(false);
            std::env::set_current_dir(&dir).expect("scratch directory");
            stdin_from(if matches!(c.form, Form::CliStdin | Form::CliDash) { &bytes } else { b"" });
            match runner::main(Some(args)) {
                Ok(()) => b"ok".to_vec(),
                Err(e) => format!("error: {e}").into_bytes(),
            }
        });
        let end = match o.end {
            ForkEnd::Done(b) => show(&b),
            ForkEnd::Timeout => return Err("the command line did not end within a minute".into()),
            e => format!("{e:?}"),
        };
        (end, o.stdout)
    };
    if fails == (end == "ok") {
        return Err(format!("{:?}: the program {} but the run ended with {end}\n{}", c.form, if fails { "fails" } else { "is valid" }, brief(&text)));
    }
    if got != want {
        return Err(format!("{:?}, {} shots: {}\n{}", c.form, c.shots, first_difference(&got, &want), brief(&text)));
    }
    Ok(())
}
