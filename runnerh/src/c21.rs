//! C21: modules that cannot be run are rejected before any shot; valid ones are not.

use crate::c20::*;
use crate::mach::*;
use crate::prog::*;
use serde::{Deserialize, Serialize};
use std::time::Duration;
use vdriver::proptest::prelude::*;
use vdriver::{in_fork, Ctx, ForkEnd, Prop, Tier};

/// What is done to a valid module. Each leaves exactly one reason to reject it, or none.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Change {
    // Harmless ones.
    None,
    /// Declares, without using them, an unknown function and one with a wrong signature.
    UnusedBad(u16),
    /// Declares, without using them, recorders of the other convention.
    UnusedOtherConvention(u8),
    /// A private function that nothing uses calls what does not exist.
    UnusedCaller(u16),
    /// Keeps some supported function that the program does not use, with its right signature.
    KeepGood(u16),
    /// Further functions which are no entry points.
    Bystander(u8),
    /// Comments and blank lines around the text.
    Padding(u8),
    // Not a module.
    Empty,
    Short(Vec<u8>),
    Bytes(Vec<u8>),
    Words(String),
    CutText(u16),
    CutBitcode(u16),
    /// Magic number of (wrapped) bitcode followed by other bytes.
    FalseMagic(bool, Vec<u8>),
    Insert(u16, u8),
    // Not valid.
    Invalid(u8),
    // Entry points.
    NoEntry(u8),
    WrongName(u8),
    Ambiguous,
    Params(u8),
    // Functions.
    Arity(u16, u8),
    Unknown(u16, u8),
    Mixed(u8, u8),
    // Files and arguments.
    Extension(u8),
    Missing(u8),
    TextAsBitcode,
    BrokenReader(u8),
    Arguments(u8, String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub prog: Prog,
    pub change: Change,
    pub form: u8,
    pub entry: u8,
    pub shots: u8,
    pub seed: u64,
}

pub struct Attempt {
    pub bytes: Vec<u8>,
    pub text: bool,
    pub name: Option<String>,
    pub shots: u32,
    /// The outcome: run, reject, or either (when no oracle says which).
    pub want: Option<bool>,
    pub ext: String,
    pub missing: u8,
    pub reader: u8,
    pub args: Option<Vec<String>>,
}

const RECORDERS: [&str; 4] =
    ["__quantum__rt__bool_record_output", "__quantum__rt__double_record_output", "__quantum__rt__int_record_output", "__quantum__rt__result_record_output"];
const BRACKETS: [&str; 4] = [
    "__quantum__rt__array_start_record_output",
    "__quantum__rt__array_end_record_output",
    "__quantum__rt__tuple_start_record_output",
    "__quantum__rt__tuple_end_record_output",
];

fn declare(name: &str, ret: K, args: &[K]) -> String {
    format!("declare {} @{}({})\n", ret.ty(), symbol(name), args.iter().map(|k| k.ty()).collect::<Vec<_>>().join(", "))
}

/// Makes the module use a function, with the given declaration.
fn keep(md: &mut Module, name: &str, decl: &str, n: usize) {
    md.decls.retain(|(k, _)| FUNCS[*k].name != name);
    md.extra_decls.push_str(decl);
    md.tail.push_str(&format!("@kept_{n} = global [1 x ptr] [ptr @{}]\n", symbol(name)));
}

pub fn apply(c: &Case, ctx: &mut Ctx) -> Result<Attempt, String> {
    let p = &c.prog;
    let mut md = module(p);
    let entry = c.entry as usize % p.entries.len();
    let mut name = if p.entries.len() == 1 && c.entry % 2 == 0 { None } else { Some(p.entry_name(entry)) };
    let mut a = Attempt { bytes: vec![], text: c.form % 3 != 1, name: None, shots: u32::from(c.shots), want: Some(false), ext: String::new(), missing: 0, reader: 0, args: None };
    let mut bytes: Option<Vec<u8>> = None;
    let mut prefix = String::new();
    match &c.change {
        Change::None => {
            ctx.label("unchanged");
            a.want = Some(true);
        }
        Change::UnusedBad(k) => {
            ctx.label("unused bad declarations");
            a.want = Some(true);
            let f = &FUNCS[*k as usize % FUNCS.len()];
            md.extra_decls.push_str("declare i64 @__quantum__qis__unheard_of__body(ptr, double)\n");
            if !md.text().contains(&format!("@{}", f.name)) {
                md.extra_decls.push_str(&declare(f.name, K::V, &[f.args, &[K::P, K::P]].concat()));
            }
        }
        Change::UnusedOtherConvention(k) => {
            ctx.label("unused declarations of the other convention");
            a.want = Some(true);
            let f = RECORDERS[*k as usize % 4];
            if !md.text().contains(&format!("@{f}")) {
                md.extra_decls.push_str(&declare(f, K::V, if p.legacy { &[K::P, K::P] } else { &[K::P] }));
            }
        }
        Change::UnusedCaller(k) => {
            ctx.label("unused caller");
            a.want = Some(true);
            md.extra_decls.push_str("declare void @nowhere(i64)\n");
            md.bodies.push(format!("define {} void @lonely() {{\n  call void @nowhere(i64 {k})\n  ret void\n}}\n", ["internal", "private"][*k as usize % 2]));
        }
        Change::KeepGood(k) => {
            a.want = Some(true);
            let k = *k as usize % FUNCS.len();
            let f = &FUNCS[k];
            // Only one form of a function can be declared, and recorders must fit the program.
            let recorder = RECORDERS.contains(&f.name) || BRACKETS.contains(&f.name);
            if !recorder && !md.decls.iter().any(|(l, _)| FUNCS[*l].name == f.name) {
                ctx.label("supported function kept");
                keep(&mut md, f.name, &Emit::declaration(f), 0);
            }
        }
        Change::Bystander(k) => {
            ctx.label("bystanders");
            a.want = Some(true);
            let attr = ["entrypoint", "Entry_Point", "entry_point ", "entry-point", "not_entry_point", "EntryPoint2"][*k as usize % 6];
            md.bodies.push(format!("define i64 @bystander(i64 %x) \"{attr}\" {{\n  ret i64 %x\n}}\n"));
        }
        Change::Padding(k) => {
            ctx.label("padding");
            a.want = Some(true);
            prefix = ["\n\n\n", "; a comment\n", "   ", "\t; \"entry_point\"\n", "\r\n"][*k as usize % 5].to_string();
            md.tail.push_str("\n; the end");
        }
        Change::Empty => {
            ctx.label("empty");
            bytes = Some(vec![]);
        }
        Change::Short(b) => {
            ctx.label("short");
            bytes = Some(b.iter().copied().take(3).collect());
            // Blank text is a module without functions; three bytes cannot be more.
        }
        Change::Bytes(b) => {
            ctx.label("bytes");
            bytes = Some(b.clone());
        }
        Change::Words(w) => {
            ctx.label("words");
            bytes = Some(w.clone().into_bytes());
        }
        Change::CutText(k) => {
            ctx.label("cut text");
            let t = md.text();
            // Cut within a function body.
            let open: Vec<usize> = t.match_indices("{\n").map(|x| x.0).filter(|i| t[..*i].rfind('\n').is_some_and(|s| t[s + 1..].starts_with("define"))).collect();
            let from = open[*k as usize % open.len()];
            let to = from + t[from..].find("\n}").unwrap();
            let mut at = from + 1 + (*k as usize / 7) % (to - from);
            while !t.is_char_boundary(at) {
                at -= 1;
            }
            bytes = Some(t.as_bytes()[..at].to_vec());
        }
        Change::CutBitcode(k) => {
            ctx.label("cut bitcode");
            let b = bitcode(&md.text())?;
            let at = 4 + *k as usize % (b.len() - 4);
            // What is cut off may be no more than the symbol table.
            a.want = if at < b.len() / 2 { Some(false) } else { None };
            a.text = false;
            bytes = Some(b[..at].to_vec());
        }
        Change::FalseMagic(w, b) => {
            ctx.label("false magic");
            let m: [u8; 4] = if *w { [0xDE, 0xC0, 0x17, 0x0B] } else { [0x42, 0x43, 0xC0, 0xDE] };
            a.text = false;
            bytes = Some([&m[..], b].concat());
        }
        Change::Insert(k, w) => {
            ctx.label("syntax error");
            let word = ["garbage", "}", "define", "%", "@@", "\u{1}", "!", "ret"][*w as usize % 8];
            let t = md.text();
            // As a line of its own within a function body.
            let lines: Vec<&str> = t.lines().collect();
            let inside: Vec<usize> = (1..lines.len()).filter(|i| lines[*i].starts_with("  ") && lines[*i - 1].starts_with("  ")).collect();
            let word = if word == "}" || word == "ret" { "garbage here" } else { word };
            if inside.is_empty() {
                bytes = Some(format!("{t}\n{word}\n").into_bytes());
            } else {
                let at = inside[*k as usize % inside.len()];
                let mut l: Vec<String> = lines.iter().map(|s| s.to_string()).collect();
                l.insert(at, format!("  {word} "));
                bytes = Some(l.join("\n").into_bytes());
            }
        }
        Change::Invalid(k) => {
            ctx.label("invalid module");
            let bad = [
                "define void @bad(i1 %c) {\nentry:\n  br i1 %c, label %a, label %b\na:\n  %x = add i64 1, 1\n  br label %b\nb:\n  %y = add i64 %x, 1\n  ret void\n}\n",
                "define void @bad() {\nentry:\n  br label %entry\n}\n",
                "define void @bad(i1 %c) {\nentry:\n  br i1 %c, label %a, label %b\na:\n  br label %b\nb:\n  %y = phi i64 [ 1, %a ]\n  ret void\n}\n",
                "define void @bad() {\n  %y = add i64 %x, 1\n  %x = add i64 1, 1\n  ret void\n}\n",
                "define void @bad() {\nentry:\n  ret void\nb:\n  %x = phi i64 [ 0, %entry ]\n  br label %b\n}\n",
                "define internal void @bad() {\n  %y = add i64 %x, 1\n  %x = add i64 1, 1\n  ret void\n}\n",
                "define void @bad() {\n  %x = alloca i64\n  store i64 %z, ptr %x\n  %z = add i64 1, 2\n  ret void\n}\n",
                "define void @bad() {\n  call void @llvm.memcpy.p0.p0.i64(ptr null, ptr null, i64 0, i1 undef)\n  ret void\n}\ndeclare void @llvm.memcpy.p0.p0.i64(ptr, ptr, i64, i1)\n",
            ][*k as usize % 8];
            md.bodies.push(bad.to_string());
        }
        Change::NoEntry(k) => {
            ctx.label("no entry point");
            let other = ["entrypoint", "Entry_Point", "entry_point_", "Entrypoint", "ENTRY_POINT", "x"][*k as usize % 6];
            for t in md.bodies.iter_mut().chain([&mut md.tail]) {
                *t = t.replace("\"entry_point\"", &quoted(other)).replace("\"EntryPoint\"", &quoted(other));
            }
            // The kind of the attribute counts, not its value.
            if *k >= 128 {
                md.bodies.push("define void @odd() \"kind\"=\"entry_point\" \"EntryPoint2\"=\"EntryPoint\" {\n  ret void\n}\n".into());
            }
        }
        Change::WrongName(k) => {
            ctx.label("wrong name");
            let n = p.entry_name(entry);
            let other = match k % 9 {
                0 => String::new(),
                1 => format!("{n}x"),
                2 => n.chars().skip(1).collect(),
                3 => n.chars().map(|c| if c.is_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect(),
                4 => format!(" {n}"),
                5 => format!("@{n}"),
                6 => format!("{n}\0"),
                // Functions that exist, but are no entry points.
                7 => {
                    md.bodies.push("define void @bystander() {\n  ret void\n}\n".into());
                    "bystander".into()
                }
                _ => {
                    if p.work.is_empty() {
                        "__quantum__qis__x__body".into()
                    } else {
                        fn_name(*k as usize % p.work.len())
                    }
                }
            };
            if (0..p.entries.len()).any(|j| p.entry_name(j) == other) {
                a.want = None;
            }
            name = Some(other);
        }
        Change::Ambiguous => {
            ctx.label("ambiguous");
            name = None;
            if p.entries.len() == 1 {
                md.bodies.push(format!("define void @another() {} {{\n  ret void\n}}\n", ["\"entry_point\"", "\"EntryPoint\"", "\"entry_point\"=\"x\""][c.entry as usize % 3]));
            }
        }
        Change::Params(k) => {
            ctx.label("entry point with parameters");
            let params = ["i64 %p0", "ptr %p0", "i1 %p0, i64 %p1", "double %p0", "..."][*k as usize % 5];
            if *k % 5 == 4 {
                // A variable number of parameters is none to start with.
                a.want = None;
            }
            let head = format!("void @{}(", symbol(&p.entry_name(entry)));
            let mut hit = false;
            for b in &mut md.bodies {
                if b.contains(&head) {
                    *b = b.replacen(&format!("{head})"), &format!("{head}{params})"), 1);
                    hit = true;
                }
            }
            assert!(hit);
        }
        Change::Arity(k, d) => {
            let f = &FUNCS[*k as usize % FUNCS.len()];
            let mut n: Vec<usize> = (0..9).filter(|n| !FUNCS.iter().any(|g| g.name == f.name && g.args.len() == *n)).collect();
            // Only the numbers next to the right ones, and none at all, are of interest.
            n.retain(|n| *n == 0 || FUNCS.iter().any(|g| g.name == f.name && g.args.len().abs_diff(*n) <= 2));
            let n = n[*d as usize % n.len()];
            ctx.label("wrong number of parameters");
            let args: Vec<K> = (0..n).map(|i| f.args.get(i).copied().unwrap_or(K::P)).collect();
            keep(&mut md, f.name, &declare(f.name, f.ret, &args), 0);
        }
        Change::Unknown(k, d) => {
            ctx.label("unknown function");
            let f = &FUNCS[*k as usize % FUNCS.len()];
            let n = f.name;
            let other = match d % 8 {
                0 => format!("{n}_"),
                1 => n[1..].to_string(),
                2 => n.replace("__body", "__adj__body").replace("__rt__", "__rtl__"),
                3 => n.to_uppercase(),
                4 => "puts".into(),
                5 => format!("_{n}"),
                6 => n.replace("__qis__", "__rt__").replace("__rt__b", "__qis__b"),
                _ => "llvmx.fabs.f64".into(),
            };
            if FUNCS.iter().any(|g| g.name == other) {
                a.want = None;
            }
            keep(&mut md, &other, &declare(&other, f.ret, f.args), 0);
        }
        Change::Mixed(k, d) => {
            ctx.label("mixed conventions");
            let (k, d) = (*k as usize % 8, *d as usize % 4);
            let old = [&RECORDERS[..], &BRACKETS[..]].concat()[k];
            let new = RECORDERS[if RECORDERS[d] == old { (d + 1) % 4 } else { d }];
            for n in [old, new] {
                // The program's own declaration goes; its calls no longer matter.
                md.decls.retain(|(l, _)| FUNCS[*l].name != n);
            }
            let args = |n: &str| if n.contains("double") { K::D } else if n.contains("result") { K::P } else if n.contains("bool") { K::B } else { K::I };
            let o = if k >= 4 { declare(old, K::V, &[]) } else { declare(old, K::V, &[args(old)]) };
            keep(&mut md, old, &o, 0);
            keep(&mut md, new, &declare(new, K::V, &[args(new), K::P]), 1);
        }
        Change::Extension(k) => {
            ctx.label("file extension");
            a.ext = ["txt", "", "LL", "BC", "ll.bak", "bcc", "l", "bitcode"][*k as usize % 8].into();
        }
        Change::Missing(k) => {
            ctx.label("missing file");
            a.missing = 1 + k % 4;
        }
        Change::TextAsBitcode => {
            ctx.label("text in a .bc file");
            a.text = true;
            a.ext = "bc".into();
        }
        Change::BrokenReader(k) => {
            ctx.label("broken reader");
            a.reader = 1 + k % 3;
        }
        Change::Arguments(k, s) => {
            ctx.label("bad arguments");
            let s = |d: &str| if s.is_empty() { d.to_string() } else { s.clone() };
            let v: Vec<String> = match k % 16 {
                0 => vec!["-s".into(), "-1".into()],
                1 => vec!["-s".into(), "4294967296".into()],
                2 => vec!["-s".into(), format!("x{}", s("1"))],
                3 => vec!["-s".into()],
                4 => vec!["-r".into(), "-5".into()],
                5 => vec!["-r".into(), "18446744073709551616".into()],
                6 => vec!["-r".into(), format!("{}z", s("0"))],
                7 => vec!["--unheard-of".into()],
                8 => vec![format!("a{}", s("word"))],
                9 => vec!["-s".into(), "1".into(), "-s".into(), "2".into()],
                10 => vec!["-e".into()],
                11 => vec!["--shots=1.5".into()],
                12 => vec!["-s".into(), String::new()],
                13 => vec!["-r".into(), String::new()],
                14 => vec!["-e".into(), String::new()],
                _ => vec![String::new()],
            };
            a.args = Some(v);
        }
    }
    a.name = name;
    let text = prefix + &md.text();
    a.bytes = match bytes {
        Some(b) => b,
        None if a.text => text.into_bytes(),
        None => {
            let b = bitcode_unchecked(&text).map_err(|e| format!("{e} ({:?})", c.change))?;
            if c.form % 2 == 1 {
                wrapped(&b)
            } else {
                b
            }
        }
    };
    if a.want == Some(false) && a.bytes.len() >= 4 {
        if let Change::Bytes(_) | Change::Words(_) = c.change {
            // A fluke of a module.
            if a.bytes.windows(6).any(|w| w == b"define") {
                a.want = None;
            }
        }
    }
    Ok(a)
}

/// Bitcode of text that parses, valid or not.
fn bitcode_unchecked(text: &str) -> Result<Vec<u8>, String> {
    bitcode(text)
}

struct Failing<'a> {
    data: &'a [u8],
    left: usize,
}
impl std::io::Read for Failing<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.left == 0 {
            return Err(std::io::Error::other("the line went dead"));
        }
        let n = buf.len().min(self.data.len()).min(self.left);
        buf[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        self.left -= n;
        Ok(n)
    }
}

fn show(b: &[u8]) -> String {
    String::from_utf8_lossy(b).chars().take(6000).collect()
}

pub struct C21;

impl Prop for C21 {
    type Case = Case;
    const ID: &'static str = "C21";
    const RULE: &'static str = "case: a generated valid module changed in one way (not a module, truncated, syntax error, invalid, no, wrong, ambiguous or unfit entry point, wrong number of parameters of any supported function, unknown function, mixed output conventions, unsuitable file, reader or arguments) or in a harmless way, given as text, bitcode, file, reader or on the command line, with 0 to 3 shots; a bad one must give an error and no output at all, and leave later runs as they were, a good one must run and give what direct calls give. Non-trivial: the change leaves a module that has entry points and at least three different runtime functions, so that something could have been executed.";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "the runner crate is built over a stand-in for inkwell on LLVM 18",
        "truncated bitcode on which LLVM itself crashes or which is still complete enough to run is not judged",
    ];

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let word = prop_oneof![
            "[a-z ]{4,20}",
            "\\PC{1,20}",
            Just("define void @main() \"entry_point\" {".to_string()),
            Just("; a comment\n".to_string()),
            Just("    \n\n".to_string()),
            Just("target triple = \"x86_64\"\n".to_string()),
        ];
        let bytes = prop_oneof![prop::collection::vec(any::<u8>(), 0..4), prop::collection::vec(any::<u8>(), 0..200)];
        let change = prop_oneof![
            2 => Just(Change::None),
            1 => any::<u16>().prop_map(Change::UnusedBad),
            1 => any::<u8>().prop_map(Change::UnusedOtherConvention),
            1 => any::<u16>().prop_map(Change::UnusedCaller),
            3 => any::<u16>().prop_map(Change::KeepGood),
            1 => any::<u8>().prop_map(Change::Bystander),
            1 => any::<u8>().prop_map(Change::Padding),
            1 => Just(Change::Empty),
            1 => prop_oneof![prop::collection::vec(any::<u8>(), 0..4), prop::collection::vec(prop::sample::select(vec![b' ', b'\n', b';']), 1..4)].prop_map(Change::Short),
            1 => bytes.clone().prop_map(Change::Bytes),
            1 => word.prop_map(Change::Words),
            1 => any::<u16>().prop_map(Change::CutText),
            1 => any::<u16>().prop_map(Change::CutBitcode),
            1 => (any::<bool>(), bytes).prop_map(|(w, b)| Change::FalseMagic(w, b)),
            1 => (any::<u16>(), any::<u8>()).prop_map(|(k, w)| Change::Insert(k, w)),
            2 => any::<u8>().prop_map(Change::Invalid),
            1 => any::<u8>().prop_map(Change::NoEntry),
            2 => any::<u8>().prop_map(Change::WrongName),
            1 => Just(Change::Ambiguous),
            2 => any::<u8>().prop_map(Change::Params),
            6 => (any::<u16>(), any::<u8>()).prop_map(|(k, d)| Change::Arity(k, d)),
            3 => (any::<u16>(), any::<u8>()).prop_map(|(k, d)| Change::Unknown(k, d)),
            2 => (any::<u8>(), any::<u8>()).prop_map(|(k, d)| Change::Mixed(k, d)),
            1 => any::<u8>().prop_map(Change::Extension),
            1 => any::<u8>().prop_map(Change::Missing),
            1 => Just(Change::TextAsBitcode),
            1 => any::<u8>().prop_map(Change::BrokenReader),
            1 => (any::<u8>(), "[a-z0-9.]{0,5}").prop_map(|(k, s)| Change::Arguments(k, s)),
        ];
        (prog(), change, any::<u8>(), any::<u8>(), 0_u8..4, any::<u64>()).prop_map(|(prog, change, form, entry, shots, seed)| Case { prog, change, form, entry, shots, seed }).boxed()
    }
    fn fixed() -> Vec<Case> {
        // Every function with every wrong number of parameters.
        let e = Entry { name: "main".into(), body: vec![], modern: true, attrs: vec![], init: false, release: true, dump: false };
        let prog = Prog { static_qubits: false, static_results: false, legacy: false, nq: 1, work: vec![], entries: vec![e], caps: [(None, false); 2], spare: false, groups: false, order: 0, pad: 0 };
        let mut v = vec![];
        let mut add = |change: Change| v.push(Case { prog: prog.clone(), change, form: (v.len() % 256) as u8, entry: 0, shots: 1, seed: 7 });
        for k in 0..FUNCS.len() as u16 {
            for d in 0..5 {
                add(Change::Arity(k, d));
            }
            for d in 0..8 {
                add(Change::Unknown(k, d));
            }
            add(Change::KeepGood(k));
        }
        for k in 0..8 {
            for d in 0..4 {
                add(Change::Mixed(k, d));
            }
        }
        v
    }
    fn cases(t: Tier) -> u64 {
        t.pick(12_000, 800_000)
    }

    fn check(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
        let p = &c.prog;
        let entry = c.entry as usize % p.entries.len();
        let a = apply(c, ctx)?;
        let (good, called) = expected(p, entry, u32::from(c.shots), c.seed);
        ctx.nontrivial(called.iter().filter(|n| **n > 0).count() >= 3 && !matches!(c.change, Change::Empty | Change::Short(_) | Change::Bytes(_) | Change::Words(_) | Change::FalseMagic(..)));
        buffered(true);
        qir_backend::set_rng_seed(!c.seed);
        let name = a.name.as_deref();
        let mut out: Vec<u8> = vec![];
        let ext = if a.ext.is_empty() && !matches!(c.change, Change::Extension(_)) { if a.text { "ll" } else { "bc" } } else { &a.ext };
        let mut file = scratch().join(if ext.is_empty() { "d".to_string() } else { format!("d.{ext}") });
        let files = matches!(c.change, Change::Extension(_) | Change::Missing(_) | Change::TextAsBitcode);
        // Files of the wrong sort are given as files; broken readers as readers.
        let way = match () {
            () if a.args.is_some() => 4,
            () if a.reader > 0 => 3,
            () if files => [2, 4][c.form as usize / 8 % 2],
            () => [0, 0, 1, 2, 2, 3, 4, 5][c.form as usize / 3 % 8],
        };
        if matches!(way, 2 | 4 | 5) {
            std::fs::write(&file, &a.bytes).expect("write scratch file");
            match a.missing {
                0 => {}
                1 => file = scratch().join("missing.ll"),
                2 => file = scratch().join("missing.bc"),
                3 => {
                    file = scratch().join("folder.ll");
                    std::fs::create_dir_all(&file).expect("scratch folder");
                }
                _ => {
                    file = scratch().join("folder.bc");
                    std::fs::create_dir_all(&file).expect("scratch folder");
                }
            }
        }
        let seed = Some(c.seed);
        let judge = |r: Result<(), String>, out: &[u8]| -> Result<(), String> {
            let about = || format!("{:?}, {} shots, entry {:?}\n{}", c.change, a.shots, a.name, if a.text { show(&a.bytes) } else { "(bitcode)".into() });
            match (a.want, r) {
                (Some(true), Err(e)) => Err(format!("a valid module was rejected: {e}: {}", about())),
                (Some(true), Ok(())) if out != good => Err(format!("{}: {}", first_difference(out, &good), about())),
                (Some(false), Ok(())) => Err(format!("accepted, with output {:?}: {}", show(out), about())),
                (_, Err(e)) if e.is_empty() => Err(format!("an error without words: {}", about())),
                (_, Err(e)) if !out.is_empty() => Err(format!("rejected ({e}) after output {:?}: {}", show(out), about())),
                _ => Ok(()),
            }
        };
        let risky = a.want.is_none() || matches!(c.change, Change::CutBitcode(_) | Change::FalseMagic(..));
        match way {
            0 | 1 | 2 | 3 => {
                ctx.label(["bytes", "run_bitcode", "file", "reader"][way]);
                let run = |out: &mut Vec<u8>| match way {
                    0 => runner::run_bytes(&a.bytes, name, a.shots, seed, out),
                    1 => {
                        qir_backend::set_rng_seed(c.seed);
                        runner::run_bitcode(&a.bytes, name, a.shots, out)
                    }
                    2 => runner::run_file(&file, name, a.shots, seed, out),
                    _ => {
                        let left = match a.reader {
                            0 => usize::MAX,
                            1 => 0,
                            2 => a.bytes.len() / 2,
                            _ => a.bytes.len(),
                        };
                        runner::run_input(&mut Failing { data: &a.bytes, left }, name, a.shots, seed, out)
                    }
                };
                if risky {
                    // LLVM may crash on damaged bitcode.
                    let o = in_fork(Duration::from_secs(60), || {
                        let mut out = vec![];
                        let r = run(&mut out);
                        serde_json::to_vec(&(r, out)).unwrap()
                    });
                    match o.end {
                        ForkEnd::Done(b) => {
                            let (r, out): (Result<(), String>, Vec<u8>) = serde_json::from_slice(&b).unwrap();
                            judge(r, &out)?;
                        }
                        ForkEnd::Timeout => return Err(format!("no end within a minute: {:?}", c.change)),
                        _ => ctx.label("LLVM crashed"),
                    }
                    if !o.stdout.is_empty() {
                        return Err(format!("output {:?} on standard output: {:?}", show(&o.stdout), c.change));
                    }
                } else {
                    let r = run(&mut out);
                    judge(r, &out)?;
                    let rest = drain();
                    if !rest.is_empty() {
                        return Err(format!("output was left behind: {:?}: {:?}", show(&rest), c.change));
                    }
                }
            }
            _ => {
                ctx.label("command line");
                let mut args = vec!["qir-runner".to_string()];
                if way == 4 {
                    args.extend(["-f".to_string(), file.to_str().unwrap().to_string()]);
                }
                args.extend(["-r".to_string(), c.seed.to_string()]);
                let own = a.args.clone().unwrap_or_default();
                if !own.iter().any(|x| x == "-s" || x.starts_with("--shots")) {
                    args.extend(["-s".to_string(), a.shots.to_string()]);
                }
                if own.iter().any(|x| x == "-r") {
                    args.retain(|x| *x != "-r" && *x != c.seed.to_string());
                }
                if let (Some(n), false) = (name, own.iter().any(|x| x == "-e")) {
                    // A name that starts with a dash would be taken for an option.
                    args.push(format!("--entrypoint={n}"));
                }
                args.extend(own);
                let nul = args.iter().any(|x| x.contains('\0'));
                if c.form % 16 == 5 && !nul {
                    ctx.label("binary");
                    let o = std::process::Command::new(runner_binary())
                        .args(&args[1..])
                        .stdin(std::fs::File::open(&file).map_or(std::process::Stdio::null(), std::process::Stdio::from))
                        .output()
                        .map_err(|e| format!("harness: cannot start the runner: {e}"))?;
                    if a.want.is_some() && !risky || o.status.code().is_some() {
                        let e = if o.status.success() { Ok(()) } else { Err(format!("{:?} {}", o.status, show(&o.stderr))) };
                        judge(e, &o.stdout)?;
                        if !o.status.success() && (o.status.code() != Some(1) || o.stderr.is_empty()) {
                            return Err(format!("rejected with {:?} and message {:?}: {:?}", o.status, show(&o.stderr), c.change));
                        }
                    }
                    return Ok(());
                }
                let o = in_fork(Duration::from_secs(60), || {
                    buffered(true);
                    buffered(false);
                    stdin_from(if way == 5 { &a.bytes } else { b"" });
                    serde_json::to_vec(&runner::main(Some(args))).unwrap()
                });
                match o.end {
                    ForkEnd::Done(b) => judge(serde_json::from_slice(&b).unwrap(), &o.stdout)?,
                    ForkEnd::Timeout => return Err(format!("no end within a minute: {:?}", c.change)),
                    _ if risky => ctx.label("LLVM crashed"),
                    e => return Err(format!("ended with {e:?}, output {:?}: {:?}", show(&o.stdout), c.change)),
                }
                return Ok(());
            }
        }
        // What was rejected leaves no trace in later runs.
        if a.want == Some(false) && c.seed % 4 == 0 {
            ctx.label("valid run after a rejected one");
            out.clear();
            let n = p.entry_name(entry);
            runner::run_bytes(module(p).text().as_bytes(), Some(&n), u32::from(c.shots), seed, &mut out).map_err(|e| format!("after a rejected module ({:?}) a valid one was rejected: {e}", c.change))?;
            if out != good {
                return Err(format!("after a rejected module ({:?}): {}", c.change, first_difference(&out, &good)));
            }
        }
        Ok(())
    }
}
