//! C16..C19: strings and conversions, recorded output, math, failures.

use crate::qirops::*;
use crate::simops::{pick_many, picks, Picks};
use qir_backend::exp::{__quantum__qis__exp__adj, __quantum__qis__exp__body, __quantum__qis__exp__ctl, __quantum__qis__exp__ctladj};
use qir_backend::math::*;
use qir_backend::output_recording::{self, OUTPUT};
use qir_backend::range_support::{quantum__rt__range_to_string, Range};
use qir_backend::result_bool::*;
use qir_backend::strings::*;
use qir_backend::*;
use serde::{Deserialize, Serialize};
use std::ffi::{c_char, c_void, CString};
use std::io::Write;
use std::time::Duration;
use vdriver::proptest::prelude::*;
use vdriver::{in_fork, Ctx, Fl, ForkEnd, Prop, Tier};

// ---------------------------------------------------------------- doubles

/// Doubles of every kind: any bit pattern, whole numbers and their neighbours, short decimals, powers.
pub fn double() -> BoxedStrategy<Fl> {
    let near = |x: f64, k: i64| f64::from_bits((x.to_bits() as i64).wrapping_add(k) as u64);
    prop_oneof![
        4 => any::<u64>().prop_map(f64::from_bits),
        3 => (-1000_i64..1000).prop_map(|x| x as f64),
        3 => (any::<i64>(), 0_u32..64).prop_map(|(x, s)| (x >> s) as f64),
        3 => (-1000_000_i64..1000_000, 0_i32..12).prop_map(|(x, e)| x as f64 / 10_f64.powi(e)),
        3 => ((any::<i64>(), 0_u32..64), -3_i64..4).prop_map(move |((x, s), k)| near((x >> s) as f64, k)),
        2 => (-330_i32..310, -2_i64..3, any::<bool>()).prop_map(move |(e, k, n)| { let v = near(format!("1e{e}").parse().unwrap(), k); if n { -v } else { v } }),
        2 => (-1074_i32..1024, -2_i64..3, any::<bool>()).prop_map(move |(e, k, n)| { let v = near(2_f64.powi(e), k); if n { -v } else { v } }),
        1 => (0_u64..1 << 52).prop_map(f64::from_bits),
        2 => prop::sample::select(vec![0.0, -0.0, f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, -5e-324, f64::EPSILON, 1.0 - f64::EPSILON / 2.0, 1.0 + f64::EPSILON, 9007199254740993.0, 1e15, 1e16, 1e17, 1e21, 1e22, 1e23, i64::MAX as f64, i64::MIN as f64, 0.1, 0.5, 1.5]),
    ]
    .prop_map(Fl)
    .boxed()
}

/// Does the text name exactly this value, and can it not be taken for an integer?
fn check_double_text(x: f64, s: &str) -> Result<(), String> {
    if x.is_nan() {
        return if s.parse::<f64>().is_ok_and(f64::is_nan) { Ok(()) } else { Err(format!("not a number became {s:?}")) };
    }
    let back: f64 = s.parse().map_err(|_| format!("{x:e} became {s:?}, which is not a number"))?;
    if back.to_bits() != x.to_bits() {
        return Err(format!("{x:e} became {s:?}, which reads back as {back:e}"));
    }
    if x.is_finite() {
        if !s.chars().all(|c| c.is_ascii_digit() || ".eE+-".contains(c)) || !s.contains(['.', 'e', 'E']) {
            return Err(format!("{x:e} became {s:?}, which cannot be told from an integer"));
        }
    }
    Ok(())
}

pub fn int() -> BoxedStrategy<i64> {
    prop_oneof![
        2 => any::<i64>(),
        3 => (any::<i64>(), 0_u32..64).prop_map(|(x, s)| x >> s),
        2 => -20_i64..20,
        1 => prop::sample::select(vec![i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1, 0, 1, -1, i64::from(i32::MAX), i64::from(i32::MIN), 1 << 53]),
        1 => (0_u32..19, -1_i64..2, any::<bool>()).prop_map(|(e, k, n)| { let v = 10_i64.pow(e) + k; if n { -v } else { v } }),
    ]
    .boxed()
}

/// Decimal digits by repeated division, for comparison.
fn decimal(x: i64) -> String {
    let mut m = x.unsigned_abs();
    let mut d = vec![];
    loop {
        d.push(b'0' + (m % 10) as u8);
        m /= 10;
        if m == 0 {
            break;
        }
    }
    if x < 0 {
        d.push(b'-');
    }
    d.reverse();
    String::from_utf8(d).unwrap()
}

// ---------------------------------------------------------------- C16

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum SOp {
    Create(Vec<u8>),
    Concat(u8, u8),
    /// A long string by repeated doubling.
    Grow(u8, u8),
    Equal(u8, u8),
    Drop(u8),
    Int(i64),
    Double(Fl),
    Bool(bool),
    Pauli(u8),
    Range(i64, i64, i64),
    Result(bool),
    Qubit(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ops16(pub Vec<SOp>);

struct Str {
    p: *const CString,
    want: Vec<u8>,
    /// The text of a double is checked by reading it back.
    data: *const c_char,
}

unsafe fn read_str(p: *const CString, what: &str) -> Result<Vec<u8>, String> {
    unsafe {
        let n = __quantum__rt__string_get_length(p) as usize;
        let d = __quantum__rt__string_get_data(p);
        let b = std::slice::from_raw_parts(d.cast::<u8>(), n + 1);
        if let Some(i) = b.iter().position(|x| *x == 0) {
            if i != n {
                return Err(format!("{what}: length {n}, but the terminator is at {i}"));
            }
        } else {
            return Err(format!("{what}: length {n}, and no terminator there"));
        }
        Ok(b[..n].to_vec())
    }
}

fn show(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(&b[..b.len().min(80)]).into_owned();
    format!("{s:?} ({} bytes)", b.len())
}

impl Str {
    fn new(p: *const CString, want: Vec<u8>) -> Str {
        Str { p, want, data: unsafe { __quantum__rt__string_get_data(p) } }
    }
    fn check(&self, what: &str) -> Result<(), String> {
        let got = unsafe { read_str(self.p, what)? };
        if got != self.want {
            return Err(format!("{what}: holds {}, expected {}", show(&got), show(&self.want)));
        }
        Ok(())
    }
}

fn conv(p: *const CString, want: &str, pool: &mut Vec<Str>, what: &str) -> Result<(), String> {
    let s = Str::new(p, want.as_bytes().to_vec());
    s.check(what)?;
    pool.push(s);
    Ok(())
}

pub struct C16;
impl Prop for C16 {
    type Case = Ops16;
    const ID: &'static str = "C16";
    const RULE: &'static str = "case: a history of string creations from generated bytes (the source buffer is overwritten and freed afterwards), concatenations, doublings up to 256 KiB, comparisons, releases, and conversions of 64-bit integers, doubles (any bit pattern, whole numbers and their neighbours, powers of two and ten, subnormals, special values), Booleans, Paulis, ranges, results and qubits; every string is read through length and data, including its terminator, when made and again after every later operation. Integer text is compared with digits worked out separately; double text must parse back to the same bits and contain a point or exponent. Non-trivial: five or more strings made, among them a conversion and a concatenation.";
    const ASSUMPTIONS: &'static [&'static str] = &["the standard library's decimal-to-double parsing is correctly rounded"];
    fn strategy(tier: Tier) -> BoxedStrategy<Ops16> {
        let bytes = prop_oneof![
            3 => prop::collection::vec(1_u8..=255, 0..20),
            2 => "[ -~]{0,12}".prop_map(String::into_bytes),
            2 => "\\PC{0,8}".prop_map(|s| s.replace('\0', "x").into_bytes()),
            1 => prop::collection::vec(1_u8..=255, 0..300),
            1 => prop::collection::vec(prop::sample::select(vec![b'a', b'b']), 0..3),
        ];
        let op = prop_oneof![
            5 => bytes.prop_map(SOp::Create),
            4 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| SOp::Concat(a, b)),
            1 => (any::<u8>(), 0_u8..19).prop_map(|(a, b)| SOp::Grow(a, b)),
            4 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| SOp::Equal(a, b)),
            1 => any::<u8>().prop_map(SOp::Drop),
            3 => int().prop_map(SOp::Int),
            6 => double().prop_map(SOp::Double),
            1 => any::<bool>().prop_map(SOp::Bool),
            1 => (0_u8..4).prop_map(SOp::Pauli),
            3 => (int(), prop_oneof![2 => Just(1_i64), 1 => Just(-1), 3 => int()], int()).prop_map(|(a, b, c)| SOp::Range(a, b, c)),
            1 => any::<bool>().prop_map(SOp::Result),
            1 => prop_oneof![0_u64..2000, any::<u64>()].prop_map(SOp::Qubit),
        ];
        prop::collection::vec(op, 5..tier.pick(30, 80)).prop_map(Ops16).boxed()
    }
    fn cases(tier: Tier) -> u64 {
        tier.pick(800_000, 10_000_000)
    }
    fn check(c: &Ops16, ctx: &mut Ctx) -> Result<(), String> {
        let mut pool: Vec<Str> = vec![];
        let (mut convs, mut concats) = (0, 0);
        for (i, op) in c.0.iter().enumerate() {
            let what = format!("op {i} {}", { let mut s = format!("{op:?}"); s.truncate(120); s });
            let n = pool.len();
            let ops_done = i;
            unsafe {
                match op {
                    SOp::Create(b) => {
                        let b: Vec<u8> = b.iter().copied().filter(|x| *x != 0).collect();
                        let mut buf = b.clone();
                        buf.push(0);
                        buf.extend_from_slice(b"past the end");
                        let p = __quantum__rt__string_create(buf.as_mut_ptr().cast());
                        if buf[..b.len()] != b[..] || buf[b.len()] != 0 {
                            return Err(format!("{what}: the source buffer was changed"));
                        }
                        buf.fill(b'#');
                        drop(buf);
                        pool.push(Str::new(p, b));
                        pool[n].check(&what)?;
                    }
                    SOp::Concat(a, b) => {
                        if n == 0 {
                            continue;
                        }
                        let (a, b) = (*a as usize % n, *b as usize % n);
                        if pool[a].want.len() + pool[b].want.len() > 1 << if ops_done > 12 { 16 } else { 18 } {
                            continue;
                        }
                        let p = __quantum__rt__string_concatenate(pool[a].p, pool[b].p);
                        let want = [&pool[a].want[..], &pool[b].want[..]].concat();
                        pool.push(Str::new(p, want));
                        pool[n].check(&what)?;
                        concats += 1;
                    }
                    SOp::Grow(a, k) => {
                        if n == 0 {
                            continue;
                        }
                        let mut at = *a as usize % n;
                        for _ in 0..*k {
                            if pool[at].want.len() > 1 << if n < 6 { 17 } else { 15 } || pool[at].want.is_empty() {
                                break;
                            }
                            let p = __quantum__rt__string_concatenate(pool[at].p, pool[at].p);
                            let want = pool[at].want.repeat(2);
                            pool.push(Str::new(p, want));
                            at = pool.len() - 1;
                            pool[at].check(&what)?;
                        }
                        ctx.label_if(pool[at].want.len() > 1 << 14, "over_16_KiB");
                        ctx.label_if(pool[at].want.len() > 1 << 16, "over_64_KiB");
                    }
                    SOp::Equal(a, b) => {
                        if n == 0 {
                            continue;
                        }
                        let (a, b) = (*a as usize % n, *b as usize % n);
                        let got = __quantum__rt__string_equal(pool[a].p, pool[b].p);
                        if got != (pool[a].want == pool[b].want) {
                            return Err(format!("{what}: {} and {} compare {got}", show(&pool[a].want), show(&pool[b].want)));
                        }
                        // Also against a string of the same contents made another way.
                        let want = pool[a].want.clone();
                        let cut = want.len() / 2;
                        let l = CString::new(&want[..cut]).unwrap();
                        let r = CString::new(&want[cut..]).unwrap();
                        let (lp, rp) = (__quantum__rt__string_create(l.as_ptr().cast_mut()), __quantum__rt__string_create(r.as_ptr().cast_mut()));
                        let j = __quantum__rt__string_concatenate(lp, rp);
                        let same = __quantum__rt__string_equal(pool[a].p, j) && __quantum__rt__string_equal(j, pool[a].p);
                        for p in [lp, rp, j] {
                            __quantum__rt__string_update_reference_count(p, -1);
                        }
                        if !same {
                            return Err(format!("{what}: {} is not equal to the same contents joined from two halves", show(&want)));
                        }
                    }
                    SOp::Drop(a) => {
                        if n > 0 {
                            let s = pool.swap_remove(*a as usize % n);
                            s.check(&what)?;
                            __quantum__rt__string_update_reference_count(s.p, -1);
                        }
                    }
                    SOp::Int(x) => {
                        conv(__quantum__rt__int_to_string(*x), &decimal(*x), &mut pool, &what)?;
                        convs += 1;
                    }
                    SOp::Double(x) => {
                        let p = __quantum__rt__double_to_string(x.0);
                        let got = read_str(p, &what)?;
                        let s = std::str::from_utf8(&got).map_err(|_| format!("{what}: not text"))?;
                        check_double_text(x.0, s).map_err(|m| format!("{what}: {m}"))?;
                        pool.push(Str::new(p, got));
                        convs += 1;
                    }
                    SOp::Bool(x) => conv(__quantum__rt__bool_to_string(*x), if *x { "true" } else { "false" }, &mut pool, &what)?,
                    SOp::Pauli(x) => conv(__quantum__rt__pauli_to_string(pauli(*x)), ["PauliI", "PauliX", "PauliY", "PauliZ"][*x as usize % 4], &mut pool, &what)?,
                    SOp::Range(a, s, e) => {
                        let want = if *s == 1 { format!("{}..{}", decimal(*a), decimal(*e)) } else { format!("{}..{}..{}", decimal(*a), decimal(*s), decimal(*e)) };
                        conv(quantum__rt__range_to_string(Range { start: *a, step: *s, end: *e }), &want, &mut pool, &what)?;
                        convs += 1;
                    }
                    SOp::Result(x) => {
                        let r = if *x { __quantum__rt__result_get_one() } else { __quantum__rt__result_get_zero() };
                        conv(__quantum__rt__result_to_string(r), if *x { "One" } else { "Zero" }, &mut pool, &what)?;
                    }
                    SOp::Qubit(x) => {
                        let want = if *x <= i64::MAX as u64 { decimal(*x as i64) } else { x.to_string() };
                        conv(__quantum__rt__qubit_to_string(*x as usize as *mut c_void), &want, &mut pool, &what)?;
                    }
                }
                if pool.len() > n + 1 || i % 4 == 0 {
                    for (k, s) in pool.iter().enumerate() {
                        s.check(&format!("after {what}, string {k}"))?;
                    }
                }
                for (k, s) in pool.iter().enumerate() {
                    if __quantum__rt__string_get_data(s.p) != s.data {
                        return Err(format!("after {what}, the data of string {k} moved"));
                    }
                }
            }
        }
        ctx.nontrivial(pool.len() >= 5 && convs > 0 && concats > 0);
        for (k, s) in pool.iter().enumerate() {
            s.check(&format!("at the end, string {k}"))?;
        }
        for s in pool {
            unsafe { __quantum__rt__string_update_reference_count(s.p, -1) };
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C17

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum ROp {
    Int(i64, Option<Vec<u8>>),
    Double(Fl, Option<Vec<u8>>),
    Bool(bool, Option<Vec<u8>>),
    Array(i64, Option<Vec<u8>>),
    Tuple(i64, Option<Vec<u8>>),
    /// By identifier if any result was stored, otherwise as a returned value.
    Res(u32, Option<Vec<u8>>),
    Store(bool, u32),
    LInt(i64),
    LDouble(Fl),
    LBool(bool),
    LArray(i64),
    LTuple(i64),
    LRes(u32),
    LMark(u8),
    Message(String),
    /// Text repeated to the given length.
    LongMessage(String, u32),
    /// Many integers.
    Many(u32, i64),
    MessageRec(String),
    /// A line written by a host in pieces through the recorder; the last flag asks for a flush between.
    Raw(Vec<Vec<u8>>, bool),
    Drain,
    Mode(bool),
    OtherThread(i64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ops17 {
    pub stdout: bool,
    pub ops: Vec<ROp>,
}

/// What a line must be.
enum Want {
    Exact(Vec<u8>),
    Double(&'static str, f64, Option<Vec<u8>>),
    Info(String),
}

/// Undoes Rust-style escapes; anything raw must be a printable character that cannot end or split a line.
pub fn unescape(s: &str) -> Result<String, String> {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(ch) = it.next() {
        if ch != '\\' {
            if ch.is_control() || ch == '\u{2028}' || ch == '\u{2029}' {
                return Err(format!("raw {ch:?} in a message line"));
            }
            out.push(ch);
            continue;
        }
        match it.next() {
            Some('n') => out.push('\n'),
            Some('r') => out.push('\r'),
            Some('t') => out.push('\t'),
            Some('0') => out.push('\0'),
            Some(q @ ('\'' | '"' | '\\')) => out.push(q),
            Some('u') => {
                if it.next() != Some('{') {
                    return Err("bad escape".into());
                }
                let hex: String = it.by_ref().take_while(|c| *c != '}').collect();
                out.push(u32::from_str_radix(&hex, 16).ok().and_then(char::from_u32).ok_or("bad escape")?);
            }
            Some('x') => {
                let hex: String = it.by_ref().take(2).collect();
                out.push(u32::from_str_radix(&hex, 16).ok().and_then(char::from_u32).ok_or("bad escape")?);
            }
            c => return Err(format!("unknown escape \\{c:?}")),
        }
    }
    Ok(out)
}

pub fn check_info(line: &[u8], msg: &str) -> Result<(), String> {
    let line = std::str::from_utf8(line).map_err(|_| "a message line is not text".to_string())?;
    let body = line.strip_prefix("INFO\t").ok_or_else(|| format!("message line {line:?} has no INFO keyword"))?;
    let back = unescape(body).map_err(|m| format!("{m}: {line:?}"))?;
    if back == msg {
        Ok(())
    } else {
        Err(format!("message {msg:?} was recorded as {line:?}, which reads back as {back:?}"))
    }
}

impl Want {
    fn check(&self, line: &[u8]) -> Result<(), String> {
        match self {
            Want::Exact(w) if w == line => Ok(()),
            Want::Exact(w) => Err(format!("line {}, expected {}", show(line), show(w))),
            Want::Info(m) => check_info(line, m),
            Want::Double(pre, x, tag) => {
                let bad = || format!("line {:?} for the double {x:e} with tag {tag:?}", String::from_utf8_lossy(line));
                let mut rest = line.strip_prefix(pre.as_bytes()).ok_or_else(bad)?;
                if let Some(t) = tag {
                    let suffix = [b"\t", &t[..]].concat();
                    rest = rest.strip_suffix(&suffix[..]).ok_or_else(bad)?;
                }
                check_double_text(*x, std::str::from_utf8(rest).map_err(|_| bad())?)
            }
        }
    }
}

fn check_stream(got: &[u8], want: &[Want], what: &str) -> Result<(), String> {
    if !got.is_empty() && got.last() != Some(&b'\n') {
        return Err(format!("{what}: does not end with a line ending: {:?}", String::from_utf8_lossy(&got[got.len().saturating_sub(60)..])));
    }
    let lines: Vec<&[u8]> = if got.is_empty() { vec![] } else { got[..got.len() - 1].split(|b| *b == b'\n').collect() };
    for (i, (l, w)) in lines.iter().zip(want).enumerate() {
        w.check(l).map_err(|m| format!("{what}: line {i}: {m}"))?;
    }
    if lines.len() != want.len() {
        return Err(format!("{what}: {} lines for {} recording calls", lines.len(), want.len()));
    }
    Ok(())
}

/// Standard output of this process while the guard lives.
struct Captured {
    saved: i32,
    mem: i32,
}

impl Captured {
    fn start() -> Captured {
        let _ = std::io::stdout().flush();
        unsafe {
            let saved = libc::dup(1);
            let mem = libc::memfd_create(c"out".as_ptr(), 0);
            assert!(saved >= 0 && mem >= 0 && libc::dup2(mem, 1) == 1, "cannot capture standard output");
            Captured { saved, mem }
        }
    }
    fn take(self) -> Vec<u8> {
        let _ = std::io::stdout().flush();
        unsafe {
            libc::dup2(self.saved, 1);
            libc::lseek(self.mem, 0, libc::SEEK_SET);
        }
        let fd = unsafe { libc::dup(self.mem) };
        vdriver::read_fd(fd)
    }
}

impl Drop for Captured {
    fn drop(&mut self) {
        unsafe {
            libc::dup2(self.saved, 1);
            libc::close(self.saved);
            libc::close(self.mem);
        }
    }
}

fn message() -> BoxedStrategy<String> {
    prop_oneof![
        2 => "[ -~]{0,20}",
        3 => prop::collection::vec(prop_oneof![2 => prop::sample::select(vec!['\n', '\r', '\t', '\\', '"', '\'', '\u{85}', '\u{2028}', '\u{2029}', '\u{b}', '\u{c}', '\u{1b}', '\u{7f}', '\u{1}', 'n', 'u', '{', '}', '\u{feff}', '\u{202e}']), 1 => any::<char>()], 0..14).prop_map(|v| v.into_iter().filter(|c| *c != '\0').collect::<String>()),
        1 => prop::sample::select(vec!["END\t0", "OUTPUT\tRESULT\t1", "a\nEND\t0\n", "\r\nINFO\tx", "\\n", "\\u{a}", "%s%n{}"]).prop_map(str::to_string),
    ]
    .boxed()
}

/// Rarely long.
fn last_message() -> BoxedStrategy<String> {
    prop_oneof![
        9 => message(),
        1 => (prop::collection::vec(any::<char>(), 1..40), prop::sample::select(vec![1_usize, 3, 10, 50, 250, 1000])).prop_map(|(v, n)| {
            v.into_iter().filter(|c| *c != '\0').collect::<String>().repeat(n)
        }),
    ]
    .boxed()
}

fn rtag() -> BoxedStrategy<Option<Vec<u8>>> {
    prop_oneof![
        3 => Just(None),
        3 => "[ -~]{0,12}".prop_map(|s| Some(s.into_bytes())),
        1 => prop::collection::vec(0x20_u8..=255, 0..12).prop_map(|v| Some(v.into_iter().filter(|b| *b != 0x7f).collect())),
        1 => (prop::collection::vec(0x20_u8..0x7f, 50..500), prop_oneof![30 => 1_usize..10, 1 => 100_usize..300]).prop_map(|(v, n)| Some(v.repeat(n))),
    ]
    .boxed()
}

pub struct C17;
impl Prop for C17 {
    type Case = Ops17;
    const ID: &'static str = "C17";
    const RULE: &'static str = "case: a history of every recording call (integers, doubles, Booleans, arrays, tuples, results, stored or returned; legacy forms; messages; lines a host writes in pieces through the recorder), drains, changes between buffered and standard-output mode, and recording on another thread; values and tags of every kind (tags without control characters, up to 5000 bytes and rarely 100000; messages of any characters, up to 60000 bytes and rarely 300000; up to 20000 records in a row). Each drained stretch and the process's real standard output are split into lines and every line is compared with the schema: exact bytes, doubles read back, messages unescaped back to the original. Non-trivial: five or more recorded lines with a tag or message among them.";
    const ASSUMPTIONS: &'static [&'static str] = &["tags do not contain control characters (the schema leaves them to the producer)", "messages are valid UTF-8"];
    fn strategy(tier: Tier) -> BoxedStrategy<Ops17> {
        let id = || prop_oneof![80 => 0_u32..5, 20 => 0_u32..200, 1 => prop::sample::select(vec![255_u32, 256, 257, 511, 512, 65_535, 65_536, 65_537]), 1 => 0_u32..70_000];
        let raw = prop_oneof![
            6 => prop::collection::vec(prop_oneof![3 => 0x20_u8..0x7f, 1 => any::<u8>()], 0..12),
            1 => (prop::collection::vec(any::<u8>(), 1..40), 1_usize..3000).prop_map(|(v, n)| v.repeat(n)),
        ]
        .prop_map(|v: Vec<u8>| v.into_iter().filter(|b| *b != b'\n').collect::<Vec<u8>>());
        let op = prop_oneof![
            3 => (int(), rtag()).prop_map(|(v, t)| ROp::Int(v, t)),
            3 => (double(), rtag()).prop_map(|(v, t)| ROp::Double(v, t)),
            2 => (any::<bool>(), rtag()).prop_map(|(v, t)| ROp::Bool(v, t)),
            2 => (prop_oneof![0_i64..10, int()], rtag()).prop_map(|(v, t)| ROp::Array(v, t)),
            2 => (prop_oneof![0_i64..10, int()], rtag()).prop_map(|(v, t)| ROp::Tuple(v, t)),
            3 => (id(), rtag()).prop_map(|(v, t)| ROp::Res(v, t)),
            2 => (any::<bool>(), id()).prop_map(|(v, r)| ROp::Store(v, r)),
            1 => int().prop_map(ROp::LInt),
            1 => double().prop_map(ROp::LDouble),
            1 => any::<bool>().prop_map(ROp::LBool),
            1 => int().prop_map(ROp::LArray),
            1 => int().prop_map(ROp::LTuple),
            1 => id().prop_map(ROp::LRes),
            2 => (0_u8..4).prop_map(ROp::LMark),
            4 => message().prop_map(ROp::Message),
            1 => (message(), prop_oneof![20 => 0_u32..60_000, 1 => 60_000_u32..300_000]).prop_map(|(m, n)| ROp::LongMessage(m, n)),
            1 => (prop_oneof![60 => 2_u32..100, 2 => 100_u32..3000, 1 => 3000_u32..20_000], int()).prop_map(|(n, v)| ROp::Many(n, v)),
            2 => message().prop_map(ROp::MessageRec),
            2 => (prop::collection::vec(raw, 0..4), any::<bool>()).prop_map(|(v, f)| ROp::Raw(v, f)),
            3 => Just(ROp::Drain),
            1 => any::<bool>().prop_map(ROp::Mode),
            1 => int().prop_map(ROp::OtherThread),
        ];
        (any::<bool>(), prop::collection::vec(op, 3..tier.pick(25, 80))).prop_map(|(stdout, ops)| Ops17 { stdout, ops }).boxed()
    }
    fn cases(tier: Tier) -> u64 {
        tier.pick(350_000, 5_000_000)
    }
    fn check(c: &Ops17, ctx: &mut Ctx) -> Result<(), String> {
        let cap = Captured::start();
        let r = run17(c, ctx);
        OUTPUT.with(|o| o.borrow_mut().use_std_out(false));
        let out = cap.take();
        let (want, lines) = r?;
        check_stream(&out, &want, "standard output")?;
        ctx.nontrivial(lines >= 5 && c.ops.iter().any(|o| matches!(o, ROp::Message(_) | ROp::MessageRec(_) | ROp::Int(_, Some(_)) | ROp::Res(_, Some(_)) | ROp::Double(_, Some(_)))));
        ctx.label_if(!want.is_empty(), "standard_output");
        ctx.label_if(want.len() < lines, "buffered");
        Ok(())
    }
}

fn run17(c: &Ops17, ctx: &mut Ctx) -> Result<(Vec<Want>, usize), String> {
    initialize();
    OUTPUT.with(|o| {
        let mut o = o.borrow_mut();
        o.use_std_out(c.stdout);
        o.drain();
    });
    let mut to_stdout = c.stdout;
    let mut buffered: Vec<Want> = vec![];
    let mut direct: Vec<Want> = vec![];
    let mut lines = 0;
    let mut store: std::collections::BTreeMap<u32, bool> = Default::default();
    let drain = |buffered: &mut Vec<Want>, what: &str| -> Result<(), String> {
        let got = drain_output();
        check_stream(&got, buffered, what)?;
        buffered.clear();
        let again = drain_output();
        if !again.is_empty() {
            return Err(format!("{what}: draining again gave {} bytes", again.len()));
        }
        Ok(())
    };
    for (i, op) in c.ops.iter().enumerate() {
        // The tag's memory goes away after the call.
        let tagged = |kw: &str, v: String, t: &Option<Vec<u8>>, f: &dyn Fn(*mut c_char)| -> Want {
            let mut buf = t.clone().map(|mut b| {
                b.push(0);
                b
            });
            f(buf.as_mut().map_or(std::ptr::null_mut(), |b| b.as_mut_ptr().cast()));
            if let Some(b) = &mut buf {
                b.fill(b'#');
            }
            let mut w = format!("OUTPUT\t{kw}\t{v}").into_bytes();
            if let Some(t) = t {
                w.push(b'\t');
                w.extend_from_slice(t);
            }
            Want::Exact(w)
        };
        let text = |m: &str, f: unsafe extern "C" fn(*const CString)| -> Want {
            unsafe {
                let s = CString::new(m).unwrap();
                let p = __quantum__rt__string_create(s.as_ptr().cast_mut());
                f(p);
                let same = read_str(p, "message").is_ok_and(|b| b == m.as_bytes());
                __quantum__rt__string_update_reference_count(p, -1);
                if same { Want::Info(m.to_string()) } else { Want::Exact(b"the message string was changed".to_vec()) }
            }
        };
        let want = unsafe {
            match op {
                ROp::Int(v, t) => tagged("INT", decimal(*v), t, &|p| output_recording::__quantum__rt__int_record_output(*v, p)),
                ROp::Bool(v, t) => tagged("BOOL", (if *v { "true" } else { "false" }).into(), t, &|p| output_recording::__quantum__rt__bool_record_output(*v, p)),
                ROp::Array(v, t) => tagged("ARRAY", decimal(*v), t, &|p| output_recording::__quantum__rt__array_record_output(*v, p)),
                ROp::Tuple(v, t) => tagged("TUPLE", decimal(*v), t, &|p| output_recording::__quantum__rt__tuple_record_output(*v, p)),
                ROp::Double(v, t) => {
                    let _ = tagged("", String::new(), t, &|p| output_recording::__quantum__rt__double_record_output(v.0, p));
                    Want::Double("OUTPUT\tDOUBLE\t", v.0, t.clone())
                }
                ROp::Res(r, t) => {
                    let (p, b) = if store.is_empty() { (qp((*r % 2) as usize), *r % 2 == 1) } else { (qp(*r as usize), *store.get(r).unwrap_or(&false)) };
                    tagged("RESULT", u8::from(b).to_string(), t, &|tp| __quantum__rt__result_record_output(p, tp))
                }
                ROp::LRes(r) => {
                    let (p, b) = if store.is_empty() { (qp((*r % 2) as usize), *r % 2 == 1) } else { (qp(*r as usize), *store.get(r).unwrap_or(&false)) };
                    legacy_output::__quantum__rt__result_record_output(p);
                    Want::Exact(format!("RESULT\t{}", u8::from(b)).into_bytes())
                }
                ROp::Store(v, r) => {
                    __quantum__rt__write_result(*v, qp(*r as usize));
                    store.insert(*r, *v);
                    continue;
                }
                ROp::LInt(v) => {
                    output_recording::legacy::__quantum__rt__int_record_output(*v);
                    Want::Exact(format!("RESULT\t{}", decimal(*v)).into_bytes())
                }
                ROp::LDouble(v) => {
                    output_recording::legacy::__quantum__rt__double_record_output(v.0);
                    Want::Double("RESULT\t", v.0, None)
                }
                ROp::LBool(v) => {
                    output_recording::legacy::__quantum__rt__bool_record_output(*v);
                    Want::Exact(format!("RESULT\t{}", if *v { "true" } else { "false" }).into_bytes())
                }
                ROp::LArray(v) => {
                    output_recording::legacy::__quantum__rt__array_record_output(*v);
                    Want::Exact(format!("OUTPUT\tARRAY\t{}", decimal(*v)).into_bytes())
                }
                ROp::LTuple(v) => {
                    output_recording::legacy::__quantum__rt__tuple_record_output(*v);
                    Want::Exact(format!("OUTPUT\tTUPLE\t{}", decimal(*v)).into_bytes())
                }
                ROp::LMark(k) => {
                    let (f, s): (extern "C" fn(), &str) = match k % 4 {
                        0 => (output_recording::legacy::__quantum__rt__array_start_record_output, "ARRAY_START"),
                        1 => (output_recording::legacy::__quantum__rt__array_end_record_output, "ARRAY_END"),
                        2 => (output_recording::legacy::__quantum__rt__tuple_start_record_output, "TUPLE_START"),
                        _ => (output_recording::legacy::__quantum__rt__tuple_end_record_output, "TUPLE_END"),
                    };
                    f();
                    Want::Exact(format!("RESULT\t{s}").into_bytes())
                }
                ROp::Message(m) => text(m, __quantum__rt__message),
                ROp::Many(n, v) => {
                    let out = if to_stdout { &mut direct } else { &mut buffered };
                    for k in 1..*n {
                        let v = v.wrapping_add(i64::from(k));
                        output_recording::__quantum__rt__int_record_output(v, std::ptr::null_mut());
                        out.push(Want::Exact(format!("OUTPUT\tINT\t{}", decimal(v)).into_bytes()));
                        lines += 1;
                    }
                    ctx.label_if(*n > 1000, "over_1000_records_in_a_row");
                    output_recording::__quantum__rt__int_record_output(*v, std::ptr::null_mut());
                    Want::Exact(format!("OUTPUT\tINT\t{}", decimal(*v)).into_bytes())
                }
                ROp::MessageRec(m) => text(m, output_recording::__quantum__rt__message_record_output),
                ROp::LongMessage(m, n) => {
                    let m = if m.is_empty() { "x" } else { m };
                    let long = m.repeat(*n as usize / m.len() + 1);
                    ctx.label_if(*n > 8192, "message_over_8_KiB");
                    text(&long, __quantum__rt__message)
                }
                ROp::Raw(pieces, flush) => {
                    let ok = OUTPUT.with(|o| {
                        let mut o = o.borrow_mut();
                        let mut ok = true;
                        for p in pieces {
                            ok &= o.write_all(p).is_ok();
                            ok &= !*flush || o.flush().is_ok();
                        }
                        o.write_newline();
                        ok
                    });
                    if !ok {
                        return Err(format!("op {i}: writing to the recorder failed"));
                    }
                    ctx.label("raw_line");
                    Want::Exact(pieces.concat())
                }
                ROp::Drain => {
                    drain(&mut buffered, &format!("drained at op {i}"))?;
                    continue;
                }
                ROp::Mode(b) => {
                    OUTPUT.with(|o| o.borrow_mut().use_std_out(*b));
                    to_stdout = *b;
                    continue;
                }
                ROp::OtherThread(v) => {
                    // Another thread has a buffer of its own.
                    let v = *v;
                    let got = std::thread::spawn(move || {
                        buffer_output();
                        output_recording::__quantum__rt__int_record_output(v, std::ptr::null_mut());
                        drain_output()
                    })
                    .join()
                    .map_err(|_| "the other thread failed".to_string())?;
                    let w = [Want::Exact(format!("OUTPUT\tINT\t{}", decimal(v)).into_bytes())];
                    check_stream(&got, &w, "drained on another thread")?;
                    ctx.label("other_thread");
                    continue;
                }
            }
        };
        lines += 1;
        if to_stdout {
            direct.push(want);
        } else {
            buffered.push(want);
        }
    }
    drain(&mut buffered, "drained at the end")?;
    Ok((direct, lines))
}

// ---------------------------------------------------------------- C18

mod libm {
    use std::ffi::c_double as D;
    unsafe extern "C" {
        pub fn sin(x: D) -> D;
        pub fn cos(x: D) -> D;
        pub fn tan(x: D) -> D;
        pub fn atan2(y: D, x: D) -> D;
        pub fn sinh(x: D) -> D;
        pub fn cosh(x: D) -> D;
        pub fn tanh(x: D) -> D;
        pub fn asin(x: D) -> D;
        pub fn acos(x: D) -> D;
        pub fn atan(x: D) -> D;
        pub fn sqrt(x: D) -> D;
        pub fn log(x: D) -> D;
    }
}

fn ordinal(x: f64) -> i128 {
    let b = x.to_bits();
    if b >> 63 == 1 { -i128::from(b & (u64::MAX >> 1)) } else { i128::from(b) }
}

fn ulps(a: f64, b: f64) -> u128 {
    (ordinal(a) - ordinal(b)).unsigned_abs()
}

/// x = m * 2^e with integer m, for finite x.
fn split(x: f64) -> (u64, i32) {
    let b = x.to_bits();
    let e = (b >> 52 & 0x7ff) as i32;
    let m = b & ((1 << 52) - 1);
    if e == 0 { (m, -1074) } else { (m | 1 << 52, e - 1075) }
}

fn mod_shift(m: u128, n: u32, md: u128) -> u128 {
    // m * 2^n mod md; md < 2^64
    let mut r = m % md;
    let mut left = n;
    while left > 0 {
        let s = left.min(60);
        r = (r << s) % md;
        left -= s;
    }
    r
}

/// The exact remainder x - n*y with n the integer nearest x/y, ties to even, computed in integers.
fn remainder(x: f64, y: f64) -> f64 {
    if x.is_nan() || y.is_nan() || x.is_infinite() || y == 0.0 {
        return f64::NAN;
    }
    if y.is_infinite() || x == 0.0 {
        return x;
    }
    let (mx, ex) = split(x.abs());
    let (my, ey) = split(y.abs());
    let (r, md, odd, e);
    if ex >= ey {
        let two = 2 * u128::from(my);
        let r2 = mod_shift(u128::from(mx), (ex - ey) as u32, two);
        md = u128::from(my);
        odd = r2 >= md;
        r = if odd { r2 - md } else { r2 };
        e = ey;
    } else {
        if ey - ex > 60 {
            return x;
        }
        md = u128::from(my) << (ey - ex);
        odd = u128::from(mx) / md % 2 == 1;
        r = u128::from(mx) % md;
        e = ex;
    }
    let (neg, r) = if 2 * r > md || (2 * r == md && odd) { (true, md - r) } else { (false, r) };
    // r < 2^53 and e >= -1074: exact (in two steps, as the factor itself may be subnormal).
    let mut v = r as f64;
    let mut k = e;
    while k < -500 {
        v *= 2_f64.powi(-500);
        k += 500;
    }
    while k > 500 {
        v *= 2_f64.powi(500);
        k -= 500;
    }
    v *= 2_f64.powi(k);
    if neg != x.is_sign_negative() { -v } else { v }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum MOp {
    /// sin cos tan sinh cosh tanh asin acos atan sqrt log
    Fun(u8, Fl),
    Atan2(Fl, Fl),
    Rem(Fl, Fl),
    Class(Fl),
    DrawInt(i64, i64),
    /// Bounds this many apart: both ends must come up.
    DrawIntNear(i64, u8),
    /// Bounds far apart: every quarter of the range must come up.
    DrawIntWide(i64, i64),
    DrawDouble(Fl, Fl),
    /// Every quarter of the range must come up.
    DrawDoubleWide(Fl, Fl),
    DrawDoubleNear(Fl, u8),
    ReversedInt(i64, i64),
    ReversedDouble(Fl, Fl),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ops18(pub Vec<MOp>);

fn arg() -> BoxedStrategy<Fl> {
    prop_oneof![
        3 => double(),
        3 => (-10.0_f64..10.0).prop_map(Fl),
        2 => (-1.0_f64..=1.0).prop_map(Fl),
        1 => (-720.0_f64..720.0).prop_map(Fl),
        2 => (-100_i32..100, 1_u8..9, -4_i64..5).prop_map(|(k, d, u)| {
            let v = f64::from(k) * std::f64::consts::PI / f64::from(d);
            Fl(f64::from_bits((v.to_bits() as i64).wrapping_add(u) as u64))
        }),
        1 => (-300_i32..2, 1.0_f64..10.0, any::<bool>()).prop_map(|(e, m, n)| { let v = m * 10_f64.powi(e); Fl(if n { -v } else { v }) }),
        1 => (0_i64..40, any::<bool>()).prop_map(|(u, n)| { let v = f64::from_bits((1.0_f64.to_bits() as i64 + u - 20) as u64); Fl(if n { -v } else { v }) }),
    ]
    .boxed()
}

fn special() -> BoxedStrategy<Fl> {
    prop::sample::select(vec![
        0.0, -0.0, 1.0, -1.0, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, -f64::MIN_POSITIVE, 5e-324, -5e-324, f64::MAX, f64::MIN, 2.0, -3.0,
    ])
    .prop_map(Fl)
    .boxed()
}

fn rem_args() -> BoxedStrategy<(Fl, Fl)> {
    prop_oneof![
        3 => (double(), double()),
        3 => (-40_i32..40, -20_i32..20, -3_i32..4).prop_map(|(a, b, s)| { let k = 2_f64.powi(s); (Fl(f64::from(a) * k * 0.5), Fl(f64::from(b) * k)) }),
        // Exact halves of any y: ties.
        3 => (any::<u64>(), 0_i64..1 << 20, any::<bool>()).prop_map(|(b, n, neg)| {
            let y = f64::from_bits(b & !(0xffff_ff)); // short mantissa so that multiples are exact
            let x = y * (n as f64 + 0.5);
            (Fl(if neg { -x } else { x }), Fl(y))
        }),
        2 => ((-1e6_f64..1e6), (-1e3_f64..1e3)).prop_map(|(a, b)| (Fl(a), Fl(b))),
        // Next to a multiple or a half.
        2 => (double(), 0_i64..1000, -2_i64..3, any::<bool>()).prop_map(|(y, n, u, h)| {
            let x = y.0 * (n as f64 + if h { 0.5 } else { 0.0 });
            (Fl(f64::from_bits((x.to_bits() as i64).wrapping_add(u) as u64)), y)
        }),
    ]
    .boxed()
}

type F1 = extern "C" fn(f64) -> f64;
const FUNS: [(&str, F1, unsafe extern "C" fn(f64) -> f64, u128); 11] = [
    ("sin", __quantum__qis__sin__body, libm::sin, 8),
    ("cos", __quantum__qis__cos__body, libm::cos, 8),
    ("tan", __quantum__qis__tan__body, libm::tan, 8),
    ("sinh", __quantum__qis__sinh__body, libm::sinh, 8),
    ("cosh", __quantum__qis__cosh__body, libm::cosh, 8),
    ("tanh", __quantum__qis__tanh__body, libm::tanh, 8),
    ("arcsin", __quantum__qis__arcsin__body, libm::asin, 8),
    ("arccos", __quantum__qis__arccos__body, libm::acos, 8),
    ("arctan", __quantum__qis__arctan__body, libm::atan, 8),
    ("sqrt", __quantum__qis__sqrt__body, libm::sqrt, 1),
    ("log", __quantum__qis__log__body, libm::log, 8),
];

fn near(what: &str, got: f64, want: f64, tol: u128) -> Result<(), String> {
    let ok = if want.is_nan() {
        got.is_nan()
    } else if want.is_infinite() {
        got == want
    } else {
        !got.is_nan()
            && got.is_finite()
            && ulps(got, want) <= tol
            && (want != 0.0 || got != 0.0 || want.is_sign_negative() == got.is_sign_negative())
    };
    if ok { Ok(()) } else { Err(format!("{what} gave {got:e}, expected {want:e}")) }
}

/// The call must end the process and leave an INFO line on standard output.
fn must_stop(what: &str, message: Option<&str>, any_message: bool, f: impl FnOnce()) -> Result<(), String> {
    let out = in_fork(Duration::from_secs(20), || {
        OUTPUT.with(|o| {
            let mut o = o.borrow_mut();
            o.drain();
            o.use_std_out(true);
        });
        f();
        vec![]
    });
    match &out.end {
        ForkEnd::Done(_) | ForkEnd::Exited(0) => return Err(format!("{what} returned and the program went on")),
        ForkEnd::Timeout => return Err(format!("{what} neither returned nor ended within 20 s")),
        _ => {}
    }
    if let Some(m) = message {
        check_stream(&out.stdout, &[Want::Info(m.to_string())], &format!("{what}: recorded before the end"))?;
    } else if any_message {
        let t = &out.stdout;
        if !(t.starts_with(b"INFO\t") && t.ends_with(b"\n") && t.iter().filter(|b| **b == b'\n').count() == 1 && t.len() > 6) {
            return Err(format!("{what} ended without recording one message line: {:?}", String::from_utf8_lossy(t)));
        }
    }
    Ok(())
}

pub struct C18;
impl Prop for C18 {
    type Case = Ops18;
    const ID: &'static str = "C18";
    const RULE: &'static str = "case: a list of calls of the math intrinsics with generated arguments (any bit pattern, special values, neighbourhoods of multiples of pi, of one, of powers; for the remainder exact ties, near multiples and operands of any ratio), classification calls, draws between generated bounds (extreme, equal, a few values or representable steps apart, wider than the largest double) and draws with reversed bounds in a child process. Functions are compared with the C library within 8 ulp (sqrt 1), the remainder with an exact integer computation, draws with their bounds; for bounds up to four steps apart both ends must appear within 400 draws, for distant bounds every quarter of the range within 250. Non-trivial: three or more calls with a finite result.";
    const ASSUMPTIONS: &'static [&'static str] = &["glibc's functions are accurate to a few ulp", "a value of probability 1/5 or more that is missing from 400 draws, or a quarter of the range from 250 (chance below 1e-30), is unreachable", "random bounds are finite numbers"];
    fn strategy(tier: Tier) -> BoxedStrategy<Ops18> {
        let fin = || double().prop_map(|x| if x.0.is_finite() { x } else { Fl(1.25) });
        let op = prop_oneof![
            150 => (0_u8..11, arg()).prop_map(|(k, x)| MOp::Fun(k, x)),
            30 => (arg(), arg()).prop_map(|(y, x)| MOp::Atan2(y, x)),
            8 => (special(), special()).prop_map(|(y, x)| MOp::Atan2(y, x)),
            8 => (0_u8..11, special()).prop_map(|(k, x)| MOp::Fun(k, x)),
            2 => (prop_oneof![int(), (0_i64..1 << 40).prop_map(|d| i64::MIN + d)], prop_oneof![int(), (0_i64..1 << 40).prop_map(|d| i64::MAX - d)]).prop_map(|(a, b)| MOp::DrawIntWide(a, b)),
            2 => (fin(), fin()).prop_map(|(a, b)| MOp::DrawDoubleWide(a, b)),
            1 => (-1e6_f64..1e6, 1e-6_f64..1e6).prop_map(|(a, b)| MOp::DrawDoubleWide(Fl(a), Fl(a + b))),
            80 => rem_args().prop_map(|(x, y)| MOp::Rem(x, y)),
            20 => double().prop_map(MOp::Class),
            20 => (int(), int()).prop_map(|(a, b)| MOp::DrawInt(a, b)),
            3 => (int(), 0_u8..5).prop_map(|(a, n)| MOp::DrawIntNear(a, n)),
            20 => (fin(), fin()).prop_map(|(a, b)| MOp::DrawDouble(a, b)),
            3 => (fin(), 0_u8..5).prop_map(|(a, n)| MOp::DrawDoubleNear(a, n)),
            1 => (int(), int()).prop_map(|(a, b)| MOp::ReversedInt(a, b)),
            1 => (fin(), fin()).prop_map(|(a, b)| MOp::ReversedDouble(a, b)),
        ];
        prop::collection::vec(op, 1..tier.pick(20, 40)).prop_map(Ops18).boxed()
    }
    fn cases(tier: Tier) -> u64 {
        tier.pick(1_500_000, 8_000_000)
    }
    fn check(c: &Ops18, ctx: &mut Ctx) -> Result<(), String> {
        let mut n = 0;
        for (i, op) in c.0.iter().enumerate() {
            let w = format!("call {i} {op:?}");
            match op {
                MOp::Fun(k, x) => {
                    let (name, f, g, tol) = FUNS[*k as usize % FUNS.len()];
                    let want = unsafe { g(x.0) };
                    near(&format!("call {i}: {name}({:e})", x.0), f(x.0), want, tol)?;
                    n += usize::from(want.is_finite());
                }
                MOp::Atan2(y, x) => near(&w, __quantum__qis__arctan2__body(y.0, x.0), unsafe { libm::atan2(y.0, x.0) }, 8)?,
                MOp::Rem(x, y) => {
                    let want = remainder(x.0, y.0);
                    let got = __quantum__qis__ieeeremainder__body(x.0, y.0);
                    if got != want && !(got.is_nan() && want.is_nan()) {
                        return Err(format!("call {i}: the remainder of {:e} and {:e} is {want:e}, got {got:e}", x.0, y.0));
                    }
                    n += usize::from(want.is_finite());
                    ctx.label("remainder");
                }
                MOp::Class(x) => {
                    let b = x.0.to_bits();
                    let (e, m) = (b >> 52 & 0x7ff, b & ((1 << 52) - 1));
                    let want = [e == 0x7ff && m != 0, e == 0x7ff && m == 0 && b >> 63 == 0, e == 0x7ff && m == 0 && b >> 63 == 1];
                    let got = [__quantum__qis__isnan__body(x.0), __quantum__qis__isinf__body(x.0), __quantum__qis__isnegativeinfinity__body(x.0)];
                    if got != want {
                        return Err(format!("{w}: (nan, inf, -inf) = {got:?}, expected {want:?}"));
                    }
                    if !__quantum__qis__nan__body().is_nan() || __quantum__qis__infinity__body() != f64::INFINITY {
                        return Err("the constants are wrong".into());
                    }
                }
                MOp::DrawInt(a, b) => {
                    let (a, b) = (*a.min(b), *a.max(b));
                    for _ in 0..8 {
                        let v = __quantum__qis__drawrandomint__body(a, b);
                        if v < a || v > b {
                            return Err(format!("{w}: drew {v}"));
                        }
                    }
                    ctx.label("draw");
                }
                MOp::DrawIntWide(a, b) => {
                    let (a, b) = (*a.min(b), *a.max(b));
                    let width = i128::from(b) - i128::from(a) + 1;
                    if width < 1 << 20 {
                        continue;
                    }
                    let mut seen = [0; 4];
                    for _ in 0..250 {
                        let v = __quantum__qis__drawrandomint__body(a, b);
                        if v < a || v > b {
                            return Err(format!("{w}: drew {v} from {a}..={b}"));
                        }
                        seen[((i128::from(v) - i128::from(a)) * 4 / width) as usize] += 1;
                    }
                    if seen.contains(&0) {
                        return Err(format!("{w}: of 250 draws from {a}..={b}, the quarters of the range were hit {seen:?} times"));
                    }
                    ctx.label("draw_wide");
                }
                MOp::DrawDoubleWide(a, b) => {
                    let (a, b) = (a.0.min(b.0), a.0.max(b.0));
                    // Scaled so that nothing overflows.
                    let (lo, hi) = (a / 8.0, b / 8.0);
                    if !((hi - lo) > (lo.abs().max(hi.abs())) * 1e-9 && hi - lo > 1e-290) {
                        continue;
                    }
                    let mut seen = [0; 4];
                    for _ in 0..250 {
                        let v = __quantum__qis__drawrandomdouble__body(a, b);
                        if !(v >= a && v <= b) {
                            return Err(format!("{w}: drew {v:e} from {a:e}..={b:e}"));
                        }
                        seen[(((v / 8.0 - lo) / (hi - lo) * 4.0) as usize).min(3)] += 1;
                    }
                    if seen.contains(&0) {
                        return Err(format!("{w}: of 250 draws from {a:e}..={b:e}, the quarters of the range were hit {seen:?} times"));
                    }
                    ctx.label("draw_wide");
                }
                MOp::DrawIntNear(a, k) => {
                    let (a, b) = if let Some(b) = a.checked_add(i64::from(*k)) { (*a, b) } else { (a - i64::from(*k), *a) };
                    let mut seen = vec![0; *k as usize + 1];
                    for _ in 0..400 {
                        let v = __quantum__qis__drawrandomint__body(a, b);
                        if v < a || v > b {
                            return Err(format!("{w}: drew {v} from {a}..={b}"));
                        }
                        seen[(v - a) as usize] += 1;
                    }
                    if let Some(i) = seen.iter().position(|x| *x == 0) {
                        return Err(format!("{w}: {} never drawn in 400 draws from {a}..={b}", a + i as i64));
                    }
                }
                MOp::DrawDouble(a, b) => {
                    let (a, b) = (a.0.min(b.0), a.0.max(b.0));
                    for _ in 0..8 {
                        let v = __quantum__qis__drawrandomdouble__body(a, b);
                        if !(v >= a && v <= b) {
                            return Err(format!("{w}: drew {v:e}"));
                        }
                    }
                    ctx.label_if(!(b - a).is_finite(), "span_beyond_largest_double");
                }
                MOp::DrawDoubleNear(a, k) => {
                    // Bounds k representable steps apart.
                    let from = |o: i128| if o < 0 { f64::from_bits((-o) as u64 | 1 << 63) } else { f64::from_bits(o as u64) };
                    let (mut lo, mut hi) = (a.0, from(ordinal(a.0) + i128::from(*k)));
                    if !hi.is_finite() {
                        hi = lo;
                        lo = from(ordinal(lo) - i128::from(*k));
                    }
                    let (mut low, mut high) = (0, 0);
                    for _ in 0..400 {
                        let v = __quantum__qis__drawrandomdouble__body(lo, hi);
                        if !(v >= lo && v <= hi) {
                            return Err(format!("{w}: drew {v:e} from {lo:e}..={hi:e}"));
                        }
                        low += usize::from(v == lo);
                        high += usize::from(v == hi);
                    }
                    if low == 0 || high == 0 {
                        return Err(format!("{w}: of 400 draws from {lo:e}..={hi:e}, {low} gave the lower and {high} the upper bound"));
                    }
                }
                MOp::ReversedInt(a, b) => {
                    if a == b {
                        continue;
                    }
                    let (a, b) = (*a.max(b), *a.min(b));
                    must_stop(&format!("call {i}: drawing an integer from {a} down to {b}"), None, true, || {
                        __quantum__qis__drawrandomint__body(a, b);
                    })?;
                    ctx.label("reversed_bounds");
                }
                MOp::ReversedDouble(a, b) => {
                    if a.0 == b.0 {
                        continue;
                    }
                    let (a, b) = (a.0.max(b.0), a.0.min(b.0));
                    must_stop(&format!("call {i}: drawing a double from {a:e} down to {b:e}"), None, true, || {
                        __quantum__qis__drawrandomdouble__body(a, b);
                    })?;
                    ctx.label("reversed_bounds");
                }
            }
        }
        ctx.nontrivial(n >= 3);
        Ok(())
    }
}

// ---------------------------------------------------------------- C19

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Assert {
    pub ps: Picks,
    pub on: Picks,
    pub one: bool,
    pub tol: Fl,
    /// The expectation is the truth plus this many tolerances.
    pub off: Fl,
    /// Through the controlled form, with these controls.
    pub ctl: Option<Picks>,
    pub msg: String,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Last {
    Assert(Assert),
    Fail(String),
    /// measure, assert, assert ctl, exp, exp adj, exp ctl, exp ctladj
    Mismatch(u8, Picks, Picks),
    /// Element sizes and lengths.
    Concat(u16, u16, u16, u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C19Case {
    pub prog: QCase,
    /// Assertions after the given number of operations.
    pub asserts: Vec<(u8, Assert)>,
    pub last: Last,
}

/// Ok(None): too close to call.
fn verdict(q: &Qir, a: &Assert) -> Option<(bool, f64, Vec<u8>, Vec<usize>, f64)> {
    let ids = q.ids();
    let m = q.model.as_ref().unwrap();
    if m.m.dull {
        return None;
    }
    let (ps, on) = q.string(&ids, &a.ps, &a.on);
    let mut truth: Option<f64> = None;
    let mut off = false;
    for c in &m.m.cands {
        let mut c = c.clone();
        let mut live = vec![];
        for (p, t) in ps.iter().zip(&on) {
            while q.pool.is_some() && c.live.last().is_none_or(|l| l < t) {
                let n = c.live.len();
                c.live.insert(n);
            }
            match p % 4 {
                0 => continue,
                1 => c.apply1(&[], *t, &crate::refsim::gate(3)),
                2 => {
                    c.apply1(&[], *t, &crate::refsim::gate(5));
                    c.apply1(&[], *t, &crate::refsim::gate(3));
                }
                _ => {}
            }
            live.push(*t);
        }
        let p = c.prob(&live);
        let p = if a.one { p } else { 1.0 - p };
        off |= truth.is_some_and(|t| (t - p).abs() > 1e-9);
        truth = Some(p);
    }
    let p = truth?;
    let expected = p + if a.tol.0 < 1e-9 { a.off.0 * 0.1 } else { a.tol.0 * a.off.0 };
    let dist = (p - expected).abs();
    let slack = 4.0 * m.m.tol + 1e-10;
    if off || (dist - a.tol.0).abs() < slack {
        return None;
    }
    Some((dist <= a.tol.0, expected, ps, on, p))
}

/// Calls the assertion; returns what is wrong with its operands afterwards.
fn call_assert(a: &Assert, expected: f64, ps: &[u8], on: &[usize], ids: &[usize]) -> Result<(), String> {
    unsafe {
        let pa = Arr::paulis(ps);
        let qa = Arr::qubits(on);
        let s = CString::new(a.msg.as_str()).unwrap();
        let msg = __quantum__rt__string_create(s.as_ptr().cast_mut());
        let r = if a.one { __quantum__rt__result_get_one() } else { __quantum__rt__result_get_zero() };
        if let Some(c) = &a.ctl {
            let ca = Arr::qubits(&pick_many(ids, c, on));
            let mut v = vec![];
            for w in [pa.p as usize, qa.p as usize, r as usize, expected.to_bits() as usize, msg as usize, a.tol.0.to_bits() as usize] {
                v.extend_from_slice(&w.to_ne_bytes());
            }
            let t = Tup::new(&v);
            __quantum__qis__assertmeasurementprobability__ctl(ca.p, t.p);
            t.done("assertion")?;
            ca.done("assertion")?;
        } else {
            __quantum__qis__assertmeasurementprobability__body(pa.p, qa.p, r, expected, msg, a.tol.0);
        }
        pa.done("assertion")?;
        qa.done("assertion")?;
        if read_str(msg, "assertion message")? != a.msg.as_bytes() {
            return Err("the assertion changed its message".into());
        }
        __quantum__rt__string_update_reference_count(msg, -1);
    }
    Ok(())
}

/// The effect on the model of naming static qubits.
fn note_named(q: &mut Qir, ps: &[u8], on: &[usize]) {
    if q.pool.is_none() {
        return;
    }
    if let Some(m) = &mut q.model {
        for (p, t) in ps.iter().zip(on) {
            if p % 4 != 0 {
                for c in &mut m.m.cands {
                    while c.live.last().is_none_or(|l| l < t) {
                        let n = c.live.len();
                        c.live.insert(n);
                    }
                }
            }
        }
    }
}

fn assertion() -> BoxedStrategy<Assert> {
    (
        prop_oneof![15 => prop::collection::vec(0_u8..4, 0..5), 1 => crate::simops::long_string()],
        (prop::collection::vec(0_u8..12, 10), prop::option::weighted(0.1, 200_u8..=255)).prop_map(|(mut v, w)| {
            v.extend(w);
            v
        }),
        any::<bool>(),
        prop_oneof![4 => prop::sample::select(vec![1e-6, 1e-5, 1e-4, 1e-3, 0.01, 0.1, 0.25, 0.5]), 1 => 1e-6_f64..0.6, 1 => prop::sample::select(vec![0.999, 1.0, 1.25, 2.0, 1e6, 1e-12, 0.0])],
        prop_oneof![2 => Just(0.0), 3 => -0.95_f64..0.95, 2 => 1.05_f64..4.0, 2 => -4.0_f64..-1.05, 1 => prop::sample::select(vec![0.99, -0.99, 1.01, -1.01])],
        prop::option::weighted(0.3, picks(3)),
        message(),
    )
        .prop_map(|(ps, on, one, tol, off, ctl, msg)| Assert { ps, on, one, tol: Fl(tol), off: Fl(off), ctl, msg })
        .boxed()
}

pub struct C19;
impl Prop for C19 {
    type Case = C19Case;
    const ID: &'static str = "C19";
    const RULE: &'static str = "case: a QIR program over static or dynamic qubits with assertions inserted that hold (plain and controlled form, any Pauli string, either outcome, expectation off by less than the tolerance), after each of which the program goes on and the state is compared with the reference; then one last call that must fail - an assertion off by more than its tolerance (rarely a negative one), an explicit failure, arrays of different lengths in measurement, assertion or exponentials, or joining arrays of different element sizes - in a child process that must end abnormally, with the message recorded on standard output. Non-trivial: an assertion passed on a state with two or more entries, or the last call failed as required.";
    const ASSUMPTIONS: &'static [&'static str] = &["expectations within rounding of the tolerance's edge are not judged", "a control array is only inspected for being unchanged (controls are documented as ignored)"];
    fn strategy(tier: Tier) -> BoxedStrategy<C19Case> {
        let w = QW { gate: 6, rot: 5, ctl: 2, exp: 1, swap: 1, alloc: 2, meas: 1, joint: 1, reset: 1, store: 0, record: 0, look: 1 };
        let arrs = || prop::collection::vec(0_u8..12, 0..5);
        let last = prop_oneof![
            18 => (assertion(), last_message(), 0_u8..20).prop_map(|(mut a, msg, k)| {
                if k == 0 {
                    // No probability is within a negative tolerance.
                    a.tol.0 = -a.tol.0.abs() - 1e-6;
                    a.off.0 = if a.off.0.abs() < 1.0 { 0.0 } else { a.off.0 };
                } else if a.off.0.abs() < 1.0 {
                    a.off.0 = 1.1 + a.off.0.abs() * 3.0;
                }
                a.msg = msg;
                Last::Assert(a)
            }),
            5 => last_message().prop_map(Last::Fail),
            8 => (0_u8..7, arrs(), arrs()).prop_map(|(k, p, t)| Last::Mismatch(k, p, t)),
            1 => (0_u8..7, 0_u8..4, prop::sample::select(vec![7_usize, 32, 63, 64, 65, 127, 128, 255, 256, 257, 259, 512, 65_536, 65_537]), arrs()).prop_map(|(k, p, n, t)| Last::Mismatch(k, vec![p; n], t)),
            4 => (1_u16..20, 0_u16..5, 1_u16..20, 0_u16..5).prop_map(|(a, b, c, d)| Last::Concat(a, b, c, d)),
            // The same number of bytes, or sizes that agree in their low bits.
            1 => (1_u16..9, 1_u16..5, 2_u16..5).prop_map(|(a, b, k)| Last::Concat(a * k, b, a, b * k)),
            1 => (1_u16..20, 0_u16..5, 1_u16..4, 0_u16..5, any::<bool>()).prop_map(|(a, b, k, d, w)| if w { Last::Concat(a, b, a + 256 * k, d) } else { Last::Concat(a + 256 * k, b, a, d) }),
        ];
        (qcase(w, 0..tier.pick(20, 50)), prop::collection::vec((any::<u8>(), assertion()), 0..6), last)
            .prop_map(|(prog, asserts, last)| C19Case { prog, asserts, last })
            .boxed()
    }
    fn cases(tier: Tier) -> u64 {
        tier.pick(140_000, 1_500_000)
    }
    fn check(c: &C19Case, ctx: &mut Ctx) -> Result<(), String> {
        initialize();
        buffer_output();
        set_rng_seed(u64::from(c.prog.seed));
        let mut q = Qir::start(&c.prog, true)?;
        let n = c.prog.ops.len();
        for i in 0..=n {
            for (at, a) in &c.asserts {
                if *at as usize % (n + 1) != i {
                    continue;
                }
                let Some((true, expected, ps, on, truth)) = verdict(&q, a) else { continue };
                drain_output();
                let w = format!("before op {i}, asserting {a:?} with expectation {expected} where the truth is {truth}");
                call_assert(a, expected, &ps, &on, &q.ids()).map_err(|m| format!("{w}: {m}"))?;
                note_named(&mut q, &ps, &on);
                let out = drain_output();
                if !out.is_empty() {
                    return Err(format!("{w}: recorded {:?}", String::from_utf8_lossy(&out)));
                }
                if *at % 2 == 0 {
                    q.state(&w)?;
                }
                ctx.nontrivial(q.model.as_ref().unwrap().m.cands[0].amps.len() > 1);
                ctx.label("passed");
            }
            if i < n {
                q.step(&c.prog.ops[i]).map_err(|m| format!("at op {i} {:?}: {m}", c.prog.ops[i]))?;
            }
        }
        q.state("state after the program with its assertions")?;
        match &c.last {
            Last::Assert(a) => {
                if let Some((false, expected, ps, on, truth)) = verdict(&q, a) {
                    let ids = q.ids();
                    must_stop(&format!("asserting {a:?} with expectation {expected} where the truth is {truth}"), Some(&a.msg), true, || {
                        let _ = call_assert(a, expected, &ps, &on, &ids);
                    })?;
                    ctx.label("failed_assertion");
                    ctx.nontrivial(true);
                }
            }
            Last::Fail(m) => {
                must_stop(&format!("failing with {m:?}"), Some(m), true, || unsafe {
                    let s = CString::new(m.as_str()).unwrap();
                    __quantum__rt__fail(__quantum__rt__string_create(s.as_ptr().cast_mut()));
                })?;
                ctx.label("fail");
                ctx.nontrivial(true);
            }
            Last::Mismatch(k, ps, on) => {
                let ids = q.ids();
                let on = pick_many(&ids, on, &[]);
                let ps: Vec<u8> = ps.clone();
                if ps.len() == on.len() {
                    return Ok(());
                }
                let name = ["measure", "assertmeasurementprobability", "assertmeasurementprobability ctl", "exp", "exp adj", "exp ctl", "exp ctladj"][*k as usize % 7];
                let (np, nq) = (ps.len(), on.len());
                let records = k % 7 < 3;
                must_stop(&format!("{name} of {np} Paulis ({ps:?}) on {nq} qubits"), None, records, || unsafe {
                    let pa = Arr::paulis(&ps);
                    let qa = Arr::qubits(&on);
                    let none = Arr::qubits(&[]);
                    let msg = __quantum__rt__string_create(c"the assertion's own".as_ptr().cast_mut());
                    match k % 7 {
                        0 => {
                            __quantum__qis__measure__body(pa.p, qa.p);
                        }
                        1 => __quantum__qis__assertmeasurementprobability__body(pa.p, qa.p, std::ptr::null_mut(), 0.5, msg, 10.0),
                        2 => {
                            let mut v = vec![];
                            for w in [pa.p as usize, qa.p as usize, 0, 0.5_f64.to_bits() as usize, msg as usize, 10.0_f64.to_bits() as usize] {
                                v.extend_from_slice(&w.to_ne_bytes());
                            }
                            __quantum__qis__assertmeasurementprobability__ctl(none.p, Tup::new(&v).p);
                        }
                        3 => __quantum__qis__exp__body(pa.p, 0.3, qa.p),
                        4 => __quantum__qis__exp__adj(pa.p, 0.3, qa.p),
                        5 => __quantum__qis__exp__ctl(none.p, Tup::exp(&pa, 0.3, &qa).p),
                        _ => __quantum__qis__exp__ctladj(none.p, Tup::exp(&pa, 0.3, &qa).p),
                    }
                })?;
                ctx.label("mismatched_arrays");
                ctx.nontrivial(true);
            }
            Last::Concat(e1, n1, e2, n2) => {
                if e1 == e2 {
                    return Ok(());
                }
                must_stop(&format!("joining {n1} elements of {e1} bytes and {n2} of {e2}"), None, true, || unsafe {
                    let a = __quantum__rt__array_create_1d(u32::from(*e1), u64::from(*n1));
                    let b = __quantum__rt__array_create_1d(u32::from(*e2), u64::from(*n2));
                    qir_backend::arrays::__quantum__rt__array_concatenate(a, b);
                })?;
                ctx.label("mismatched_elements");
                ctx.nontrivial(true);
            }
        }
        q.dispose();
        Ok(())
    }
}

