//! C12 and C13: arrays and tuples as values, and object lifetimes.

use crate::alloc;
use crate::qirops::buffer_output;
use num_bigint::BigInt;
use qir_backend::result_bool::*;
use qir_backend::*;
use serde::{Deserialize, Serialize};
use std::ffi::{c_void, CString};
use vdriver::proptest::prelude::*;
use vdriver::{in_fork, Ctx, ForkEnd, Prop, Tier};

// ---------------------------------------------------------------- C12

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum AOp {
    NewArr(u32, u32),
    NewTup(u32),
    /// Writes bytes at an element of an array or an offset of a tuple.
    Write(u8, u32, Vec<u8>),
    /// Rewrites everything.
    Fill(u8, u8),
    Copy(u8, bool),
    Concat(u8, u8),
    /// Start, step and how far past the last element taken the end lies.
    Slice(u8, i64, i64, u32, u64),
    Alias(u8, i32),
    Ref(u8, u8),
    Drop(u8, u8),
    /// A block of plain memory, kept and filled.
    Memory(u32, u8),
}

#[derive(Clone, Debug)]
struct Val {
    ptr: usize,
    /// 0: a tuple.
    elem: usize,
    bytes: Vec<u8>,
    refs: i64,
    alias: i64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum A12 {
    History(Vec<AOp>),
    /// Sizes no memory can hold: elem size, count (elem 0: a tuple).
    TooBig(u32, u64),
    /// Elements and range for an access outside the array.
    Outside(u8, i64, i64, i64),
}

unsafe fn read_bytes(v: &Val) -> Result<Vec<u8>, String> {
    unsafe {
        if v.elem == 0 {
            return Ok(std::slice::from_raw_parts(v.ptr as *const u8, v.bytes.len()).to_vec());
        }
        let a = v.ptr as *const QirArray;
        let n = __quantum__rt__array_get_size_1d(a);
        if n as usize != v.bytes.len() / v.elem {
            return Err(format!("size is {n}, expected {}", v.bytes.len() / v.elem));
        }
        let mut out = vec![];
        for i in 0..n {
            let p = __quantum__rt__array_get_element_ptr_1d(a, i).cast::<u8>();
            out.extend_from_slice(std::slice::from_raw_parts(p, v.elem));
        }
        Ok(out)
    }
}

/// The element indices a range selects; None if it leaves the array.
fn indices(n: usize, start: i64, step: i64, end: i64) -> Option<Vec<usize>> {
    let (mut i, step, end) = (i128::from(start), i128::from(step), i128::from(end));
    let mut v = vec![];
    while if step > 0 { i <= end } else { i >= end } {
        if i < 0 || i >= n as i128 {
            return None;
        }
        v.push(i as usize);
        i += step;
    }
    Some(v)
}

/// Shapes a range that stays inside an array of n elements.
fn shape(n: usize, start: i64, step: i64, take: u32, slack: u64) -> (i64, i64, i64) {
    let step = if step == 0 { 1 } else { step };
    let s = step.signum();
    if take == 0 || n == 0 {
        // Empty: any start, the end before it.
        let d = slack.min(i64::MAX as u64) as i64;
        let end = if s > 0 { start.checked_sub(1).and_then(|e| e.checked_sub(d.min(e.saturating_sub(i64::MIN)))) } else { start.checked_add(1).and_then(|e| e.checked_add(d.min(i64::MAX - e))) };
        return match end {
            Some(e) => (start, step, e),
            None => (0, s, -s),
        };
    }
    let start = start.rem_euclid(n as i64);
    // The last index taken.
    let room = if s > 0 { (n as i64 - 1 - start) as u64 } else { start as u64 };
    let steps = (room / step.unsigned_abs()).min(u64::from(take - 1));
    let last = start + s * (steps * step.unsigned_abs()) as i64;
    // The end may lie anywhere short of the next index.
    let extra = i128::from(slack % step.unsigned_abs());
    let end = (i128::from(last) + i128::from(s) * extra).clamp(i128::from(i64::MIN), i128::from(i64::MAX)) as i64;
    (start, step, end)
}

/// What was read and what should have been, or where long ones differ.
fn differ(got: &[u8], want: &[u8]) -> String {
    if got.len().max(want.len()) <= 400 {
        return format!("{got:?}, expected {want:?}");
    }
    match got.iter().zip(want).position(|(a, b)| a != b) {
        Some(i) => format!("{} at byte {i} of {}, expected {}", got[i], got.len(), want[i]),
        None => format!("{} bytes, expected {}", got.len(), want.len()),
    }
}

#[allow(clippy::too_many_lines)]
fn run12(ops: &[AOp], ctx: &mut Ctx) -> Result<(), String> {
    let mut vs: Vec<Val> = vec![];
    let mut shared = 0;
    let mut unshared_writes = 0;
    let mut derived = 0;
    let mut blocks: Vec<(usize, Vec<u8>)> = vec![];
    unsafe fn check(vs: &[Val], when: &str) -> Result<(), String> {
        unsafe {
            for (i, v) in vs.iter().enumerate() {
                let b = read_bytes(v).map_err(|m| format!("{when}: object {i}: {m}"))?;
                if b != v.bytes {
                    return Err(format!("{when}: object {i} ({}) holds {}", if v.elem == 0 { "tuple" } else { "array" }, differ(&b, &v.bytes)));
                }
            }
        }
        Ok(())
    }
    for (k, op) in ops.iter().enumerate() {
        let pick = |i: u8| -> Option<usize> { (!vs.is_empty()).then(|| i as usize * vs.len() / 256) };
        unsafe {
            match op {
                AOp::NewArr(e, n) => {
                    let (e, n) = ((*e).max(1) as usize, *n as usize);
                    let p = alloc::inside(1, || __quantum__rt__array_create_1d(e as u32, n as u64));
                    vs.push(Val { ptr: p as usize, elem: e, bytes: vec![0; e * n], refs: 1, alias: 0 });
                }
                AOp::Memory(n, x) => {
                    let p = alloc::inside(1, || __quantum__rt__memory_allocate(u64::from(*n)));
                    let mem = std::slice::from_raw_parts_mut(p, *n as usize);
                    if let Some(i) = mem.iter().position(|b| *b != 0) {
                        return Err(format!("step {k}: byte {i} of {n} bytes of new memory is {}", mem[i]));
                    }
                    mem.fill(*x);
                    blocks.push((p as usize, vec![*x; *n as usize]));
                }
                AOp::NewTup(n) => {
                    let p = alloc::inside(1, || __quantum__rt__tuple_create(u64::from(*n)));
                    vs.push(Val { ptr: p as usize, elem: 0, bytes: vec![0; *n as usize], refs: 1, alias: 0 });
                }
                AOp::Write(o, at, b) => {
                    let Some(o) = pick(*o) else { continue };
                    let v = &mut vs[o];
                    if v.bytes.is_empty() || b.is_empty() {
                        continue;
                    }
                    let (off, p) = if v.elem == 0 {
                        let off = *at as usize % v.bytes.len();
                        (off, (v.ptr + off) as *mut u8)
                    } else {
                        let i = *at as usize % (v.bytes.len() / v.elem);
                        (i * v.elem, __quantum__rt__array_get_element_ptr_1d(v.ptr as *const QirArray, i as u64).cast::<u8>())
                    };
                    let room = if v.elem == 0 { v.bytes.len() - off } else { v.elem };
                    let n = b.len().min(room);
                    std::ptr::copy_nonoverlapping(b.as_ptr(), p, n);
                    v.bytes[off..off + n].copy_from_slice(&b[..n]);
                    unshared_writes += 1;
                }
                AOp::Fill(o, x) => {
                    let Some(o) = pick(*o) else { continue };
                    let v = &mut vs[o];
                    for i in 0..v.bytes.len() {
                        v.bytes[i] = x.wrapping_mul(31).wrapping_add((i as u8).wrapping_mul(7)).wrapping_add(((i >> 8).wrapping_mul(0x9E37) >> 4) as u8) | 1;
                    }
                    if !v.bytes.is_empty() {
                        let p = if v.elem == 0 { v.ptr as *mut u8 } else { __quantum__rt__array_get_element_ptr_1d(v.ptr as *const QirArray, 0).cast() };
                        std::ptr::copy_nonoverlapping(v.bytes.as_ptr(), p, v.bytes.len());
                    }
                }
                AOp::Copy(o, force) => {
                    let Some(o) = pick(*o) else { continue };
                    let v = vs[o].clone();
                    let p = if v.elem == 0 {
                        alloc::inside(1, || __quantum__rt__tuple_copy(v.ptr as *mut *const Vec<u8>, *force)) as usize
                    } else {
                        alloc::inside(1, || __quantum__rt__array_copy(v.ptr as *const QirArray, *force)) as usize
                    };
                    if p == v.ptr {
                        if *force || v.alias > 0 {
                            return Err(format!("step {k}: a copy of object {o} (alias count {}, forced {force}) is the same object", v.alias));
                        }
                        vs[o].refs += 1;
                        shared += 1;
                    } else {
                        if vs.iter().any(|w| w.ptr == p) {
                            return Err(format!("step {k}: a copy of object {o} is another live object"));
                        }
                        vs.push(Val { ptr: p, refs: 1, alias: 0, ..v });
                        derived += 1;
                    }
                }
                AOp::Concat(a, b) => {
                    let Some(a) = pick(*a) else { continue };
                    let same: Vec<usize> = (0..vs.len()).filter(|i| vs[*i].elem == vs[a].elem).collect();
                    let b = same[*b as usize * same.len() / 256];
                    if vs[a].elem == 0 || vs[a].bytes.len() + vs[b].bytes.len() > 2_500_000 {
                        continue;
                    }
                    let p = alloc::inside(1, || __quantum__rt__array_concatenate(vs[a].ptr as *const QirArray, vs[b].ptr as *const QirArray)) as usize;
                    let bytes = [vs[a].bytes.clone(), vs[b].bytes.clone()].concat();
                    if vs.iter().any(|w| w.ptr == p) {
                        return Err(format!("step {k}: a concatenation is one of the live objects"));
                    }
                    vs.push(Val { ptr: p, elem: vs[a].elem, bytes, refs: 1, alias: 0 });
                    derived += 1;
                }
                AOp::Slice(a, start, step, take, slack) => {
                    let Some(a) = pick(*a) else { continue };
                    let v = vs[a].clone();
                    if v.elem == 0 {
                        continue;
                    }
                    let n = v.bytes.len() / v.elem;
                    let (start, step, end) = shape(n, *start, *step, *take, *slack);
                    let Some(idx) = indices(n, start, step, end) else {
                        return Err(format!("internal: shaped range {start}..{step}..{end} leaves {n} elements"));
                    };
                    let p = alloc::inside(1, || range_support::quantum__rt__array_slice_1d(v.ptr as *const QirArray, range_support::Range { start, step, end })) as usize;
                    let bytes: Vec<u8> = idx.iter().flat_map(|i| v.bytes[i * v.elem..(i + 1) * v.elem].to_vec()).collect();
                    if vs.iter().any(|w| w.ptr == p) {
                        return Err(format!("step {k}: a slice is one of the live objects"));
                    }
                    let s = Val { ptr: p, elem: v.elem, bytes, refs: 1, alias: 0 };
                    let got = read_bytes(&s).map_err(|m| format!("step {k}: slice {start}..{step}..{end} of {n} elements of {} bytes: {m}", v.elem))?;
                    if got != s.bytes {
                        return Err(format!("step {k}: slice {start}..{step}..{end} of {n} elements of {} bytes is {}", v.elem, differ(&got, &s.bytes)));
                    }
                    vs.push(s);
                    derived += 1;
                }
                AOp::Alias(o, d) => {
                    let Some(o) = pick(*o) else { continue };
                    let v = &mut vs[o];
                    let d = i64::from(*d).max(-v.alias) as i32;
                    v.alias += i64::from(d);
                    if v.elem == 0 {
                        alloc::inside(1, || __quantum__rt__tuple_update_alias_count(v.ptr as *mut *const Vec<u8>, d));
                    } else {
                        alloc::inside(1, || __quantum__rt__array_update_alias_count(v.ptr as *const QirArray, d));
                    }
                }
                AOp::Ref(o, d) => {
                    let Some(o) = pick(*o) else { continue };
                    vs[o].refs += i64::from(*d);
                    count(&vs[o], i32::from(*d));
                }
                AOp::Drop(o, d) => {
                    let Some(o) = pick(*o) else { continue };
                    let v = &mut vs[o];
                    let d = i64::from(*d).min(v.refs);
                    if d == v.refs && v.alias > 0 {
                        let a = -(v.alias as i32);
                        v.alias = 0;
                        if v.elem == 0 {
                            __quantum__rt__tuple_update_alias_count(v.ptr as *mut *const Vec<u8>, a);
                        } else {
                            __quantum__rt__array_update_alias_count(v.ptr as *const QirArray, a);
                        }
                    }
                    v.refs -= d;
                    count(v, -(d as i32));
                    if v.refs == 0 {
                        vs.remove(o);
                    }
                }
            }
            check(&vs, &format!("after step {k} {op:?}"))?;
            for (i, (p, want)) in blocks.iter().enumerate() {
                let got = std::slice::from_raw_parts(*p as *const u8, want.len());
                if got != &want[..] {
                    return Err(format!("after step {k} {op:?}: memory block {i} holds {}", differ(got, want)));
                }
            }
        }
        if vs.len() > 12 {
            let v = vs.remove(0);
            unsafe {
                if v.alias > 0 {
                    if v.elem == 0 {
                        __quantum__rt__tuple_update_alias_count(v.ptr as *mut *const Vec<u8>, -(v.alias as i32));
                    } else {
                        __quantum__rt__array_update_alias_count(v.ptr as *const QirArray, -(v.alias as i32));
                    }
                }
            }
            count(&v, -(v.refs as i32));
        }
    }
    for v in vs {
        unsafe {
            if v.alias > 0 {
                if v.elem == 0 {
                    __quantum__rt__tuple_update_alias_count(v.ptr as *mut *const Vec<u8>, -(v.alias as i32));
                } else {
                    __quantum__rt__array_update_alias_count(v.ptr as *const QirArray, -(v.alias as i32));
                }
            }
        }
        count(&v, -(v.refs as i32));
    }
    ctx.nontrivial(derived >= 1 && unshared_writes >= 1);
    ctx.label_if(shared > 0, "shared_copy");
    ctx.label_if(derived > 3, "several_derived");
    ctx.label_if(ops.iter().any(|o| matches!(o, AOp::NewArr(e, n) if *e > 300 || *n > 300) || matches!(o, AOp::NewTup(n) if *n > 300)), "large");
    Ok(())
}

fn count(v: &Val, d: i32) {
    unsafe {
        if v.elem == 0 {
            __quantum__rt__tuple_update_reference_count(v.ptr as *mut *const Vec<u8>, d);
        } else {
            __quantum__rt__array_update_reference_count(v.ptr as *const QirArray, d);
        }
    }
}

fn big_i64() -> BoxedStrategy<i64> {
    prop_oneof![
        6 => -6_i64..12,
        2 => -300_i64..300,
        1 => any::<i64>(),
        1 => prop::sample::select(vec![i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1, 1 << 60, 1 << 61, 1 << 62, (1 << 61) + 1, (1 << 62) + 3, -(1 << 61), -(1 << 62), -(1 << 61) - 1, 1 << 31, 1 << 32, (1 << 32) + 1]),
    ]
    .boxed()
}

fn aop() -> BoxedStrategy<AOp> {
    let o = any::<u8>;
    let e = prop_oneof![4 => prop::sample::select(vec![1_u32, 2, 4, 8, 16]), 2 => 1_u32..40, 1 => Just(8_u32)];
    prop_oneof![
        3 => (e, prop_oneof![6 => 0_u32..9, 1 => 0_u32..120]).prop_map(|(e, n)| AOp::NewArr(e, n)),
        2 => prop_oneof![4 => 0_u32..40, 1 => 0_u32..300].prop_map(AOp::NewTup),
        6 => (o(), any::<u32>(), prop::collection::vec(any::<u8>(), 1..17)).prop_map(|(a, b, c)| AOp::Write(a, b, c)),
        3 => (o(), any::<u8>()).prop_map(|(a, b)| AOp::Fill(a, b)),
        5 => (o(), prop::bool::weighted(0.3)).prop_map(|(a, b)| AOp::Copy(a, b)),
        3 => (o(), o()).prop_map(|(a, b)| AOp::Concat(a, b)),
        5 => (o(), big_i64(), big_i64(), prop_oneof![1 => Just(0_u32), 6 => 1_u32..10, 2 => 0_u32..256], prop_oneof![3 => Just(0_u64), 3 => 0_u64..8, 1 => any::<u64>(), 1 => Just(u64::MAX)]).prop_map(|(a, b, c, d, e)| AOp::Slice(a, b, c, d, e)),
        4 => (o(), -2_i32..3).prop_map(|(a, b)| AOp::Alias(a, b)),
        1 => (o(), 1_u8..4).prop_map(|(a, b)| AOp::Ref(a, b)),
        2 => (o(), 1_u8..4).prop_map(|(a, b)| AOp::Drop(a, b)),
        // (The runtime never takes such memory back.)
        1 => (prop_oneof![60 => 0_u32..40, 1 => 40_u32..20_000], any::<u8>()).prop_map(|(n, x)| AOp::Memory(n, x)),
    ]
    .boxed()
}

/// Sizes around the widths a count, an element size or an offset might be cut to.
fn large_size() -> BoxedStrategy<u32> {
    prop_oneof![prop::sample::select(vec![127_u32, 128, 255, 256, 257, 511, 512, 1023, 1024, 32767, 32768, 65535, 65536, 65537]), 100_u32..3000, 3000_u32..70_000].boxed()
}

/// A short history over one or two large objects.
fn large() -> BoxedStrategy<Vec<AOp>> {
    let arr = (large_size(), prop_oneof![3 => 1_u32..9, 1 => 1_u32..40], any::<bool>()).prop_map(|(n, m, many)| if many { AOp::NewArr(m.min(1_000_000 / n), n) } else { AOp::NewArr(n, m.min(1_000_000 / n)) });
    let new = prop_oneof![3 => arr, 1 => large_size().prop_map(AOp::NewTup)];
    let o = any::<u8>;
    let op = prop_oneof![
        3 => (o(), any::<u32>(), prop::collection::vec(any::<u8>(), 1..17)).prop_map(|(a, b, c)| AOp::Write(a, b, c)),
        1 => (o(), any::<u8>()).prop_map(|(a, b)| AOp::Fill(a, b)),
        3 => (o(), prop::bool::weighted(0.6)).prop_map(|(a, b)| AOp::Copy(a, b)),
        2 => (o(), o()).prop_map(|(a, b)| AOp::Concat(a, b)),
        3 => (o(), prop_oneof![big_i64(), -70_000_i64..70_000], prop_oneof![4 => Just(1_i64), 4 => Just(-1_i64), 2 => -5_i64..6, 2 => -70_000_i64..70_000, 1 => big_i64()], prop_oneof![Just(u32::MAX), 1_u32..70_000, 1_u32..10], prop_oneof![Just(0_u64), 0_u64..70_000, any::<u64>()]).prop_map(|(a, b, c, d, e)| AOp::Slice(a, b, c, d, e)),
        1 => (o(), -2_i32..3).prop_map(|(a, b)| AOp::Alias(a, b)),
        1 => (o(), 1_u8..4).prop_map(|(a, b)| AOp::Drop(a, b)),
    ];
    (prop::collection::vec(new, 1..3), any::<u8>(), any::<u8>(), prop::collection::vec(op, 1..6))
        .prop_map(|(new, x, y, ops)| {
            let mut v = new;
            v.push(AOp::Fill(0, x));
            v.push(AOp::Fill(255, y));
            v.extend(ops);
            v
        })
        .boxed()
}

pub struct C12;
impl Prop for C12 {
    type Case = A12;
    const ID: &'static str = "C12";
    const RULE: &'static str = "case: a history of array and tuple creations (element sizes 1..39, up to 120 elements; rarely element sizes, element counts or tuples up to 70000), writes, copies, concatenations, slices (starts, steps and ends up to the 64-bit limits, forwards, backwards and empty), alias and reference updates, releases and plain memory blocks (zeroed when new), with the bytes and sizes of every live object compared with plain values after each step; or a creation no memory can hold, or a slice that leaves the array, which must end the process. Non-trivial: at least one write and one derived object.";
    const ASSUMPTIONS: &'static [&'static str] = &["element size 0 and step 0 are not generated", "at the machine level the 24-byte range struct is passed as the Rust C ABI does"];
    fn strategy(tier: Tier) -> BoxedStrategy<A12> {
        prop_oneof![
            300 => prop::collection::vec(aop(), 5..tier.pick(30, 80)).prop_map(A12::History),
            2 => large().prop_map(A12::History),
            1 => (prop_oneof![Just(0_u32), 1_u32..20, Just(8_u32), Just(1 << 16), Just(u32::MAX)], prop_oneof![(1_u64 << 50)..=u64::MAX, prop::sample::select(vec![u64::MAX, u64::MAX - 7, u64::MAX - 3, 1 << 63, 1 << 61, (1 << 61) + 1, 1 << 60, (1 << 60) + 2, 1 << 62, 1 << 48])]).prop_map(|(e, n)| A12::TooBig(e, n)),
            1 => (1_u8..9, -5_i64..12, prop::sample::select(vec![-3_i64, -2, -1, 1, 2, 3]), -5_i64..12).prop_map(|(n, a, s, b)| A12::Outside(n, a, s, b)),
        ]
        .boxed()
    }
    fn fixed() -> Vec<A12> {
        let arr = |e: u32| vec![AOp::NewArr(e, 4), AOp::Fill(0, 3)];
        let mut v = vec![];
        for e in [1_u32, 2, 8, 16] {
            for (a, s, t, x) in [(0, i64::MAX, 1, u64::MAX), (0, 1 << 61, 1, 0), (0, (1 << 61) + 1, 1, 0), (0, (1 << 61) + 1, 1, u64::MAX), (3, i64::MIN, 1, 0), (3, i64::MIN, 1, u64::MAX), (1, -(1 << 62), 1, u64::MAX), (i64::MIN, 1, 0, 0), (i64::MAX, -1, 0, 0), (i64::MAX, 1, 0, 5), (i64::MIN + 2, -1, 0, 5), (2, 1 << 62, 1, u64::MAX - 5)] {
                let mut o = arr(e);
                o.push(AOp::Slice(0, a, s, t, x));
                v.push(A12::History(o));
            }
        }
        v.push(A12::TooBig(8, 1 << 61));
        v.push(A12::TooBig(16, (1 << 60) + 1));
        v.push(A12::TooBig(0, u64::MAX));
        v.push(A12::TooBig(0, u64::MAX - 7));
        v
    }
    fn cases(tier: Tier) -> u64 {
        tier.pick(1_000_000, 12_000_000)
    }
    fn check(c: &A12, ctx: &mut Ctx) -> Result<(), String> {
        match c {
            A12::History(ops) => {
                alloc::begin();
                let r = run12(ops, ctx);
                let e = alloc::end();
                r?;
                if let Some(t) = e.trouble {
                    return Err(t);
                }
                Ok(())
            }
            A12::TooBig(e, n) => {
                let total = u128::from((*e).max(1)) * u128::from(*n);
                if total < 1 << 46 {
                    return Ok(());
                }
                let (e, n) = (*e, *n);
                let r = in_fork(std::time::Duration::from_secs(30), move || unsafe {
                    if e == 0 {
                        let t = __quantum__rt__tuple_create(n);
                        format!("tuple at {t:p}").into_bytes()
                    } else {
                        let a = __quantum__rt__array_create_1d(e, n);
                        format!("array reporting size {}", __quantum__rt__array_get_size_1d(a)).into_bytes()
                    }
                });
                ctx.label("too_big");
                ctx.nontrivial(true);
                match r.end {
                    ForkEnd::Done(b) => Err(format!("creating {n} elements of {e} bytes gave an {}", String::from_utf8_lossy(&b))),
                    ForkEnd::Timeout => Err("creating an impossible size hangs".into()),
                    _ => Ok(()),
                }
            }
            A12::Outside(n, a, s, b) => {
                let (n, a, s, b) = (*n, *a, *s, *b);
                if indices(n as usize, a, s, b).is_some() {
                    return Ok(());
                }
                let r = in_fork(std::time::Duration::from_secs(30), move || unsafe {
                    let arr = __quantum__rt__array_create_1d(4, u64::from(n));
                    let s = range_support::quantum__rt__array_slice_1d(arr, range_support::Range { start: a, step: s, end: b });
                    format!("an array of {} elements", __quantum__rt__array_get_size_1d(s)).into_bytes()
                });
                ctx.label("outside");
                ctx.nontrivial(true);
                match r.end {
                    ForkEnd::Done(t) => Err(format!("slice {a}..{s}..{b} of {n} elements leaves the array, gave {}", String::from_utf8_lossy(&t))),
                    ForkEnd::Timeout => Err("a slice that leaves the array hangs".into()),
                    _ => Ok(()),
                }
            }
        }
    }
}

// ---------------------------------------------------------------- C13

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum MOp {
    Arr(u32, u32),
    Tup(u32),
    Str(String),
    Big(i64, u8),
    Call,
    Qubits(u8),
    Copy(u8, bool),
    Join(u8, u8),
    Slice(u8, i64, i64, u32),
    /// Arithmetic on two integers.
    Arith(u8, u8, u8),
    /// A conversion to text of a kind.
    Text(u8, i64),
    /// Adjoint (false) or controlled.
    Functor(u8, bool),
    Invoke(u8, Vec<u8>, bool),
    /// Reads that make nothing: sizes, comparisons, records, messages, capture counts.
    Look(u8, u8, u8),
    /// A quantum operation with a qubit array and control list.
    Gate(u8, u8, u8),
    Ref(u8, u32),
    Drop(u8, u32),
    Alias(u8, i32),
    ReleaseQubits(u8),
}

enum V {
    Arr(usize, Vec<u8>),
    Tup(Vec<u8>),
    Str(Vec<u8>),
    Big(BigInt),
    Call(bool, u32),
    Qubits(Vec<usize>, bool),
}

struct Obj {
    ptr: usize,
    v: V,
    refs: i64,
    alias: i64,
    blocks: Vec<usize>,
    born: usize,
}

thread_local! {
    static CALLS: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(Vec::new()) };
    static KEEP: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static WANT_CTLS: std::cell::Cell<i32> = const { std::cell::Cell::new(-1) };
    static KEPT: std::cell::RefCell<Vec<(usize, usize, Vec<u8>)>> = const { std::cell::RefCell::new(Vec::new()) };
}

extern "C" fn entry(_cap: *mut u8, args: *mut u8, _res: *mut u8) {
    alloc::outside(|| {
        if KEEP.with(std::cell::Cell::get) && !args.is_null() {
            // Keep the argument tuple beyond the call, as a callee may.
            unsafe {
                __quantum__rt__tuple_update_reference_count(args.cast(), 1);
                let n = WANT_CTLS.with(std::cell::Cell::get);
                let (ctl, bytes) = if n >= 0 {
                    let a = *args.cast::<*const QirArray>();
                    __quantum__rt__array_update_reference_count(a, 1);
                    let k = __quantum__rt__array_get_size_1d(a) as usize;
                    (a as usize, std::slice::from_raw_parts(__quantum__rt__array_get_element_ptr_1d(a, 0).cast::<u8>(), k * 8).to_vec())
                } else {
                    (0, std::slice::from_raw_parts(args, 8).to_vec())
                };
                KEPT.with(|k| k.borrow_mut().push((args as usize, ctl, bytes)));
            }
        }
    });
}

static mut FUNCS: [usize; 4] = [0; 4];
extern "C" fn cap_count(_cap: *mut u8, _n: i32) {}
static mut MEM: [usize; 2] = [0; 2];

#[allow(static_mut_refs)]
fn tables() -> (*mut *mut u8, *mut *mut u8) {
    unsafe {
        FUNCS = [entry as usize; 4];
        MEM = [cap_count as usize; 2];
        (FUNCS.as_mut_ptr().cast(), MEM.as_mut_ptr().cast())
    }
}

struct World {
    objs: Vec<Obj>,
    step: u32,
    made: usize,
    freed: usize,
    derived: usize,
}

impl World {
    fn call<R>(&self, f: impl FnOnce() -> R) -> R {
        alloc::inside(self.step + 1, f)
    }

    /// Makes an object; the blocks held afterwards are its own.
    fn make(&mut self, v: V, f: impl FnOnce() -> usize) -> usize {
        let m = alloc::mark();
        let ptr = self.call(f);
        if let Some(i) = self.shared(ptr, &v) {
            return i;
        }
        let blocks = if matches!(v, V::Qubits(..)) { vec![] } else { alloc::held_since(m) };
        self.objs.push(Obj { ptr, v, refs: 1, alias: 0, blocks, born: self.step as usize });
        self.made += 1;
        self.objs.len() - 1
    }

    /// Strings and big integers never change, so an equal one may be handed out with one more reference
    /// in place of a new one.
    fn shared(&mut self, ptr: usize, v: &V) -> Option<usize> {
        let i = self.objs.iter().position(|o| o.ptr == ptr && matches!((&o.v, v), (V::Str(_), V::Str(_)) | (V::Big(_), V::Big(_))))?;
        let same = match (&self.objs[i].v, v) {
            (V::Str(a), V::Str(b)) => a == b,
            (V::Big(a), V::Big(b)) => a == b,
            _ => false,
        };
        same.then(|| {
            self.objs[i].refs += 1;
            i
        })
    }

    fn pick(&self, p: u8, f: impl Fn(&V) -> bool) -> Option<usize> {
        let c: Vec<usize> = (0..self.objs.len()).filter(|i| f(&self.objs[*i].v)).collect();
        (!c.is_empty()).then(|| c[p as usize * c.len() / 256])
    }

    /// A conversion or copy is either a new object or the same with one more reference.
    fn result(&mut self, src: usize, v: V, may_share: bool, f: impl FnOnce() -> usize) -> Result<(), String> {
        let m = alloc::mark();
        let ptr = self.call(f);
        if self.shared(ptr, &v).is_some() {
        } else if ptr == self.objs[src].ptr {
            if !may_share {
                return Err(format!("step {}: an operation returned its operand", self.step));
            }
            self.objs[src].refs += 1;
        } else {
            let blocks = alloc::held_since(m);
            self.objs.push(Obj { ptr, v, refs: 1, alias: 0, blocks, born: self.step as usize });
            self.made += 1;
        }
        self.derived += 1;
        Ok(())
    }

    fn check(&self, what: &str) -> Result<(), String> {
        if let Some(t) = alloc::trouble() {
            return Err(format!("step {} ({what}): {t}", self.step));
        }
        for o in &self.objs {
            let id = || format!("step {} ({what}): {} made in step {} with {} references", self.step, kind(&o.v), o.born, o.refs);
            for b in &o.blocks {
                if alloc::is_freed(*b) {
                    return Err(format!("{}: {} is already freed", id(), alloc::describe(*b)));
                }
            }
            unsafe {
                let got: Vec<u8> = match &o.v {
                    V::Arr(e, b) => {
                        let a = o.ptr as *const QirArray;
                        let n = __quantum__rt__array_get_size_1d(a) as usize;
                        if n != b.len() / e {
                            return Err(format!("{}: size {n}, expected {}", id(), b.len() / e));
                        }
                        std::slice::from_raw_parts(__quantum__rt__array_get_element_ptr_1d(a, 0).cast::<u8>(), b.len()).to_vec()
                    }
                    V::Tup(b) => std::slice::from_raw_parts(o.ptr as *const u8, b.len()).to_vec(),
                    V::Str(b) => {
                        let p = strings::__quantum__rt__string_get_data(o.ptr as *const CString).cast::<u8>();
                        std::slice::from_raw_parts(p, b.len()).to_vec()
                    }
                    V::Big(v) => {
                        let w = &*(o.ptr as *const BigInt);
                        if w != v {
                            return Err(format!("{}: value {w}, expected {v}", id()));
                        }
                        vec![]
                    }
                    V::Call(..) => vec![],
                    V::Qubits(q, _) => {
                        let a = o.ptr as *const QirArray;
                        let n = __quantum__rt__array_get_size_1d(a) as usize;
                        let v: Vec<usize> = (0..n.min(q.len())).map(|i| *__quantum__rt__array_get_element_ptr_1d(a, i as u64).cast::<usize>()).collect();
                        if n != q.len() || &v != q {
                            return Err(format!("{}: qubits {v:?} of {n}, expected {q:?}", id()));
                        }
                        vec![]
                    }
                };
                let want: &[u8] = match &o.v {
                    V::Arr(_, b) | V::Tup(b) | V::Str(b) => b,
                    _ => &[],
                };
                if got != want {
                    return Err(format!("{}: holds {got:?}, expected {want:?}", id()));
                }
            }
        }
        Ok(())
    }

    fn count(&self, o: &Obj, d: i32) {
        self.call(|| unsafe {
            match o.v {
                V::Arr(..) | V::Qubits(..) => __quantum__rt__array_update_reference_count(o.ptr as *const QirArray, d),
                V::Tup(_) => __quantum__rt__tuple_update_reference_count(o.ptr as *mut *const Vec<u8>, d),
                V::Str(_) => strings::__quantum__rt__string_update_reference_count(o.ptr as *const CString, d),
                V::Big(_) => bigints::__quantum__rt__bigint_update_reference_count(o.ptr as *const BigInt, d),
                V::Call(..) => callables::__quantum__rt__callable_update_reference_count(o.ptr as *const callables::Callable, d),
            }
        });
    }

    fn alias(&self, o: &Obj, d: i32) {
        self.call(|| unsafe {
            match o.v {
                V::Arr(..) | V::Qubits(..) => __quantum__rt__array_update_alias_count(o.ptr as *const QirArray, d),
                V::Tup(_) => __quantum__rt__tuple_update_alias_count(o.ptr as *mut *const Vec<u8>, d),
                V::Call(..) => callables::__quantum__rt__callable_update_alias_count(o.ptr as *const callables::Callable, d),
                _ => {}
            }
        });
    }

    /// Gives up references; at zero everything the object holds must go.
    fn drop_refs(&mut self, i: usize, d: i64) -> Result<(), String> {
        if let V::Qubits(_, false) = self.objs[i].v {
            if d >= self.objs[i].refs {
                return self.release_qubits(i);
            }
        }
        if d >= self.objs[i].refs && self.objs[i].alias > 0 {
            let a = self.objs[i].alias as i32;
            self.alias(&self.objs[i], -a);
            self.objs[i].alias = 0;
        }
        let d = d.min(self.objs[i].refs);
        self.count(&self.objs[i], -(d as i32));
        self.objs[i].refs -= d;
        if self.objs[i].refs == 0 {
            self.gone(i)?;
        }
        Ok(())
    }

    fn gone(&mut self, i: usize) -> Result<(), String> {
        let o = self.objs.remove(i);
        self.freed += 1;
        for b in &o.blocks {
            if !alloc::is_freed(*b) {
                return Err(format!("step {}: the last reference to a {} made in step {} is gone, but {} is still held", self.step, kind(&o.v), o.born, alloc::describe(*b)));
            }
        }
        Ok(())
    }

    fn release_qubits(&mut self, i: usize) -> Result<(), String> {
        let o = &mut self.objs[i];
        let p = o.ptr;
        let V::Qubits(_, done) = &mut o.v else { return Ok(()) };
        *done = true;
        if o.refs == 1 && o.alias > 0 {
            let a = o.alias as i32;
            o.alias = 0;
            self.call(|| unsafe { __quantum__rt__array_update_alias_count(p as *const QirArray, -a) });
        }
        self.call(|| unsafe { __quantum__rt__qubit_release_array(p as *const QirArray) });
        self.objs[i].refs -= 1;
        if self.objs[i].refs == 0 {
            self.gone(i)?;
        }
        Ok(())
    }
}

fn kind(v: &V) -> &'static str {
    match v {
        V::Arr(..) => "array",
        V::Tup(_) => "tuple",
        V::Str(_) => "string",
        V::Big(_) => "big integer",
        V::Call(..) => "callable",
        V::Qubits(..) => "qubit array",
    }
}

fn is_str(v: &V) -> bool {
    matches!(v, V::Str(_))
}
fn is_big(v: &V) -> bool {
    matches!(v, V::Big(_))
}
fn is_arr(v: &V) -> bool {
    matches!(v, V::Arr(..))
}

#[allow(clippy::too_many_lines)]
fn step13(w: &mut World, op: &MOp) -> Result<(), String> {
    unsafe {
        match op {
            MOp::Arr(e, n) => {
                let (e, n) = ((*e).max(1) as usize, *n as usize);
                w.make(V::Arr(e, vec![0; e * n]), || __quantum__rt__array_create_1d(e as u32, n as u64) as usize);
                let k = w.objs.len() - 1;
                let bytes: Vec<u8> = (0..e * n).map(|i| (i * 13 + i / 256 + e + n) as u8).collect();
                std::ptr::copy_nonoverlapping(bytes.as_ptr(), __quantum__rt__array_get_element_ptr_1d(w.objs[k].ptr as *const QirArray, 0).cast(), bytes.len());
                w.objs[k].v = V::Arr(e, bytes);
            }
            MOp::Tup(n) => {
                let bytes: Vec<u8> = (0..*n).map(|i| (i.wrapping_mul(11) + i / 256).wrapping_add(*n) as u8).collect();
                w.make(V::Tup(bytes.clone()), || __quantum__rt__tuple_create(u64::from(*n)) as usize);
                std::ptr::copy_nonoverlapping(bytes.as_ptr(), w.objs.last().unwrap().ptr as *mut u8, bytes.len());
            }
            MOp::Str(s) => {
                let c = CString::new(s.replace('\0', "")).unwrap();
                w.make(V::Str(c.as_bytes_with_nul().to_vec()), || strings::__quantum__rt__string_create(c.as_ptr().cast_mut()) as usize);
            }
            MOp::Big(x, n) => {
                if *n == 0 {
                    w.make(V::Big(BigInt::from(*x)), || bigints::__quantum__rt__bigint_create_i64(*x) as usize);
                } else {
                    let b: Vec<u8> = (0..*n as usize).map(|i| (x.wrapping_mul(i as i64 * 2 + 3) >> (i % 40)) as u8).collect();
                    w.make(V::Big(BigInt::from_signed_bytes_le(&b)), || bigints::__quantum__rt__bigint_create_array(b.len() as u32, b.as_ptr()) as usize);
                }
            }
            MOp::Call => {
                let (f, m) = tables();
                w.make(V::Call(false, 0), || callables::__quantum__rt__callable_create(f, m, std::ptr::null_mut()) as usize);
            }
            MOp::Qubits(n) => {
                let live: usize = w.objs.iter().filter_map(|o| if let V::Qubits(q, false) = &o.v { Some(q.len()) } else { None }).sum();
                let n = (*n as usize % 5).min(8 - live.min(8));
                let p = w.call(|| __quantum__rt__qubit_allocate_array(n as u64));
                let q: Vec<usize> = (0..n).map(|i| *__quantum__rt__array_get_element_ptr_1d(p, i as u64).cast::<usize>()).collect();
                w.objs.push(Obj { ptr: p as usize, v: V::Qubits(q, false), refs: 1, alias: 0, blocks: vec![], born: w.step as usize });
                w.made += 1;
            }
            MOp::Copy(o, force) => {
                let Some(i) = w.pick(*o, |v| matches!(v, V::Arr(..) | V::Tup(_) | V::Call(..))) else { return Ok(()) };
                let p = w.objs[i].ptr;
                let share = !*force && w.objs[i].alias == 0;
                match &w.objs[i].v {
                    V::Arr(e, b) => {
                        let v = V::Arr(*e, b.clone());
                        w.result(i, v, share, || __quantum__rt__array_copy(p as *const QirArray, *force) as usize)?;
                    }
                    V::Tup(b) => {
                        let v = V::Tup(b.clone());
                        w.result(i, v, share, || __quantum__rt__tuple_copy(p as *mut *const Vec<u8>, *force) as usize)?;
                    }
                    V::Call(a, c) => {
                        let v = V::Call(*a, *c);
                        w.result(i, v, share, || callables::__quantum__rt__callable_copy(p as *const callables::Callable, *force) as usize)?;
                    }
                    _ => {}
                }
            }
            MOp::Join(a, b) => {
                let Some(i) = w.pick(*a, |v| is_arr(v) || is_str(v)) else { return Ok(()) };
                match &w.objs[i].v {
                    V::Arr(e, x) => {
                        let e = *e;
                        let j = w.pick(*b, |v| matches!(v, V::Arr(f, _) if *f == e)).unwrap();
                        let V::Arr(_, y) = &w.objs[j].v else { unreachable!() };
                        if x.len() + y.len() > if x.len().min(y.len()) > 4000 { 4000 } else { 80_000 } {
                            return Ok(());
                        }
                        let v = V::Arr(e, [x.clone(), y.clone()].concat());
                        let (p, q) = (w.objs[i].ptr, w.objs[j].ptr);
                        w.result(i, v, false, || __quantum__rt__array_concatenate(p as *const QirArray, q as *const QirArray) as usize)?;
                    }
                    V::Str(x) => {
                        let j = w.pick(*b, is_str).unwrap();
                        let V::Str(y) = &w.objs[j].v else { unreachable!() };
                        if x.len() + y.len() > if x.len().min(y.len()) > 4000 { 4000 } else { 80_000 } {
                            return Ok(());
                        }
                        let v = V::Str([x[..x.len() - 1].to_vec(), y.clone()].concat());
                        let (p, q) = (w.objs[i].ptr, w.objs[j].ptr);
                        w.result(i, v, false, || strings::__quantum__rt__string_concatenate(p as *const CString, q as *const CString) as usize)?;
                    }
                    _ => {}
                }
            }
            MOp::Slice(a, s, st, t) => {
                let Some(i) = w.pick(*a, is_arr) else { return Ok(()) };
                let V::Arr(e, x) = &w.objs[i].v else { unreachable!() };
                let n = x.len() / e;
                let (start, step, end) = shape(n, *s, *st, *t, 0);
                let idx = indices(n, start, step, end).unwrap_or_default();
                let v = V::Arr(*e, idx.iter().flat_map(|k| x[k * e..(k + 1) * e].to_vec()).collect());
                let p = w.objs[i].ptr;
                w.result(i, v, false, || range_support::quantum__rt__array_slice_1d(p as *const QirArray, range_support::Range { start, step, end }) as usize)?;
            }
            MOp::Arith(k, a, b) => {
                use bigints::*;
                let Some(i) = w.pick(*a, is_big) else { return Ok(()) };
                let j = w.pick(*b, is_big).unwrap();
                let (V::Big(x), V::Big(y)) = (&w.objs[i].v, &w.objs[j].v) else { unreachable!() };
                if x.bits() + y.bits() > 6000 {
                    return Ok(());
                }
                let (p, q) = (w.objs[i].ptr as *const BigInt, w.objs[j].ptr as *const BigInt);
                let zero = y == &BigInt::from(0);
                type F2 = unsafe extern "C" fn(*const BigInt, *const BigInt) -> *const BigInt;
                let (f, v): (F2, BigInt) = match k % 13 {
                    0 => (__quantum__rt__bigint_add, x + y),
                    1 => (__quantum__rt__bigint_subtract, x - y),
                    2 => (__quantum__rt__bigint_multiply, x * y),
                    3 if !zero => (__quantum__rt__bigint_divide, x / y),
                    4 if !zero => (__quantum__rt__bigint_modulus, x % y),
                    5 => (__quantum__rt__bigint_bitand, x & y),
                    6 => (__quantum__rt__bigint_bitor, x | y),
                    7 => (__quantum__rt__bigint_bitxor, x ^ y),
                    8 => {
                        let v = V::Big(-x);
                        return w.result(i, v, false, || __quantum__rt__bigint_negate(p) as usize);
                    }
                    9 => {
                        let v = V::Big(!x.clone());
                        return w.result(i, v, false, || __quantum__rt__bigint_bitnot(p) as usize);
                    }
                    10 => {
                        let n = if *b % 4 == 0 { 0 } else { u64::from(*b % 70) };
                        let v = V::Big(x << n);
                        return w.result(i, v, false, || __quantum__rt__bigint_shiftleft(p, n) as usize);
                    }
                    11 => {
                        let n = if *b % 4 == 0 { 0 } else { u64::from(*b % 70) };
                        let v = V::Big(x >> n);
                        return w.result(i, v, false, || __quantum__rt__bigint_shiftright(p, n) as usize);
                    }
                    _ => {
                        let n = u32::from(*b % 4);
                        let v = V::Big(x.pow(n));
                        return w.result(i, v, false, || __quantum__rt__bigint_power(p, n) as usize);
                    }
                };
                w.result(i, V::Big(v), false, || f(p, q) as usize)?;
            }
            MOp::Text(k, x) => {
                use strings::*;
                let nul = |s: String| {
                    let mut b = s.into_bytes();
                    b.push(0);
                    V::Str(b)
                };
                let x = *x;
                let _ = match k % 8 {
                    0 => w.make(nul(x.to_string()), || __quantum__rt__int_to_string(x) as usize),
                    1 => w.make(nul((x % 2 == 0).to_string()), || __quantum__rt__bool_to_string(x % 2 == 0) as usize),
                    2 => w.make(nul(format!("{}.0", x % 1000)), || __quantum__rt__double_to_string((x % 1000) as f64) as usize),
                    3 => w.make(nul("PauliY".into()), || __quantum__rt__pauli_to_string(Pauli::Y) as usize),
                    4 => {
                        let step = x >> 3 & 3;
                        let text = if step == 1 { format!("{x}..7") } else { format!("{x}..{step}..7") };
                        w.make(nul(text), || range_support::quantum__rt__range_to_string(range_support::Range { start: x, step, end: 7 }) as usize)
                    }
                    5 => w.make(nul("One".into()), || __quantum__rt__result_to_string(__quantum__rt__result_get_one()) as usize),
                    6 => {
                        let q = x.unsigned_abs() as usize;
                        w.make(nul(q.to_string()), || __quantum__rt__qubit_to_string(q as *mut c_void) as usize)
                    }
                    _ => {
                        let Some(i) = w.pick(x as u8, is_big) else { return Ok(()) };
                        let V::Big(v) = &w.objs[i].v else { unreachable!() };
                        let v = nul(v.to_string());
                        let p = w.objs[i].ptr;
                        w.result(i, v, false, || __quantum__rt__bigint_to_string(p as *const BigInt) as usize)?;
                        0
                    }
                };
            }
            MOp::Functor(o, c) => {
                let Some(i) = w.pick(*o, |v| matches!(v, V::Call(..))) else { return Ok(()) };
                let p = w.objs[i].ptr as *const callables::Callable;
                let V::Call(a, n) = &mut w.objs[i].v else { unreachable!() };
                if *c {
                    if *n >= 5 {
                        return Ok(());
                    }
                    *n += 1;
                    w.call(|| callables::__quantum__rt__callable_make_controlled(p));
                } else {
                    *a = !*a;
                    w.call(|| callables::__quantum__rt__callable_make_adjoint(p));
                }
            }
            MOp::Invoke(o, lens, keep) => {
                let Some(i) = w.pick(*o, |v| matches!(v, V::Call(..))) else { return Ok(()) };
                let V::Call(_, n) = w.objs[i].v else { unreachable!() };
                let p = w.objs[i].ptr as *const callables::Callable;
                // Argument tuples are objects of their own, which the call must leave alone.
                let first = w.objs.len();
                w.make(V::Tup(vec![]), || __quantum__rt__tuple_create(24) as usize);
                let t0 = w.objs[first].ptr as *mut u8;
                for b in 0..24 {
                    *t0.add(b) = (b * 3 + 1) as u8;
                }
                let mut inner = w.objs[first].ptr;
                let mut flat: Vec<u8> = vec![];
                for d in 0..n {
                    let len = *lens.get(d as usize).unwrap_or(&1) as usize % 4;
                    let k = w.objs.len();
                    w.make(V::Arr(8, vec![]), || __quantum__rt__array_create_1d(8, len as u64) as usize);
                    let mut b = vec![];
                    for x in 0..len {
                        let q = (d as usize * 10 + x).to_ne_bytes();
                        std::ptr::copy_nonoverlapping(q.as_ptr(), __quantum__rt__array_get_element_ptr_1d(w.objs[k].ptr as *const QirArray, x as u64).cast(), 8);
                        b.extend_from_slice(&q);
                    }
                    flat = [b.clone(), flat].concat();
                    w.objs[k].v = V::Arr(8, b);
                    if d == 0 {
                        *(inner as *mut usize) = w.objs[k].ptr;
                    } else {
                        let t = w.objs.len();
                        w.make(V::Tup(vec![]), || __quantum__rt__tuple_create(16) as usize);
                        *(w.objs[t].ptr as *mut usize) = w.objs[k].ptr;
                        *(w.objs[t].ptr as *mut usize).add(1) = inner;
                        w.objs[t].v = V::Tup(std::slice::from_raw_parts(w.objs[t].ptr as *const u8, 16).to_vec());
                        inner = w.objs[t].ptr;
                    }
                }
                w.objs[first].v = V::Tup(std::slice::from_raw_parts(w.objs[first].ptr as *const u8, 24).to_vec());
                KEEP.with(|k| k.set(*keep));
                WANT_CTLS.with(|k| k.set(if n > 0 { n as i32 } else { -1 }));
                w.call(|| callables::__quantum__rt__callable_invoke(p, inner as *mut u8, std::ptr::null_mut()));
                KEEP.with(|k| k.set(false));
                w.check("invoke")?;
                for (tup, ctl, bytes) in KEPT.with(std::cell::RefCell::take) {
                    if ctl != 0 {
                        let a = ctl as *const QirArray;
                        let got = std::slice::from_raw_parts(__quantum__rt__array_get_element_ptr_1d(a, 0).cast::<u8>(), flat.len()).to_vec();
                        if got != flat || bytes != flat {
                            return Err(format!("step {}: a control list the callee kept holds {got:?} (then {bytes:?}), expected {flat:?}", w.step));
                        }
                        if *(tup as *const usize) != ctl {
                            return Err(format!("step {}: an argument tuple the callee kept was overwritten", w.step));
                        }
                        w.call(|| __quantum__rt__array_update_reference_count(a, -1));
                    } else {
                        let got = std::slice::from_raw_parts(tup as *const u8, bytes.len()).to_vec();
                        if got != bytes {
                            return Err(format!("step {}: an argument tuple the callee kept holds {got:?}, expected {bytes:?}", w.step));
                        }
                    }
                    w.call(|| __quantum__rt__tuple_update_reference_count(tup as *mut *const Vec<u8>, -1));
                }
                while w.objs.len() > first {
                    w.drop_refs(w.objs.len() - 1, 1)?;
                }
            }
            MOp::Look(k, a, b) => match k % 9 {
                0 => {
                    let Some(i) = w.pick(*a, is_str) else { return Ok(()) };
                    let j = w.pick(*b, is_str).unwrap();
                    let (p, q) = (w.objs[i].ptr as *const CString, w.objs[j].ptr as *const CString);
                    w.call(|| {
                        strings::__quantum__rt__string_equal(p, q);
                        strings::__quantum__rt__string_get_length(p);
                        strings::__quantum__rt__string_get_data(p);
                    });
                }
                1 => {
                    let Some(i) = w.pick(*a, is_big) else { return Ok(()) };
                    let j = w.pick(*b, is_big).unwrap();
                    let (p, q) = (w.objs[i].ptr as *const BigInt, w.objs[j].ptr as *const BigInt);
                    w.call(|| {
                        bigints::__quantum__rt__bigint_equal(p, q);
                        bigints::__quantum__rt__bigint_greater(p, q);
                        bigints::__quantum__rt__bigint_greater_eq(p, q);
                        bigints::__quantum__rt__bigint_get_length(p);
                    });
                }
                2 => {
                    let Some(i) = w.pick(*a, is_str) else { return Ok(()) };
                    let p = w.objs[i].ptr as *const CString;
                    w.call(|| {
                        __quantum__rt__message(p);
                        output_recording::__quantum__rt__message_record_output(p);
                    });
                }
                3 => {
                    let Some(i) = w.pick(*a, is_str) else { return Ok(()) };
                    // String data as a tag.
                    let p = w.objs[i].ptr as *const CString;
                    w.call(|| {
                        let t = strings::__quantum__rt__string_get_data(p).cast_mut();
                        output_recording::__quantum__rt__int_record_output(5, t);
                        output_recording::__quantum__rt__double_record_output(0.5, t);
                        output_recording::__quantum__rt__bool_record_output(true, t);
                        output_recording::__quantum__rt__array_record_output(1, t);
                        output_recording::__quantum__rt__tuple_record_output(1, t);
                        __quantum__rt__result_record_output(std::ptr::null_mut(), t);
                    });
                }
                4 | 5 => {
                    let Some(i) = w.pick(*a, |v| matches!(v, V::Call(..))) else { return Ok(()) };
                    let p = w.objs[i].ptr as *const callables::Callable;
                    let d = i32::from(*b % 5) - 2;
                    w.call(|| {
                        callables::__quantum__rt__capture_update_reference_count(p, d);
                        callables::__quantum__rt__capture_update_alias_count(p, d);
                    });
                }
                6 => {
                    let Some(i) = w.pick(*a, |v| matches!(v, V::Tup(_))) else { return Ok(()) };
                    let o = &w.objs[i];
                    w.alias(o, i32::from(*b % 7));
                    w.alias(o, -i32::from(*b % 7));
                }
                7 => {
                    w.call(|| {
                        let _ = capture_quantum_state();
                        __quantum__qis__dumpmachine__body(std::ptr::null_mut());
                    });
                    let _ = crate::qirops::drain_output();
                }
                _ => {
                    let Some(i) = w.pick(*a, |_| true) else { return Ok(()) };
                    let o = &w.objs[i];
                    let d = i32::from(*b) + 1;
                    w.count(o, d);
                    w.count(o, -d);
                }
            },
            MOp::Gate(k, a, x) => {
                let Some(i) = w.pick(*a, |v| matches!(v, V::Qubits(q, false) if !q.is_empty() || matches!(k % 8, 2..=6))) else { return Ok(()) };
                let V::Qubits(q, _) = &w.objs[i].v else { unreachable!() };
                let q = q.clone();
                let p = w.objs[i].ptr as *const QirArray;
                let paulis = w.objs.len();
                w.make(V::Arr(1, vec![0; q.len()]), || __quantum__rt__array_create_1d(1, q.len() as u64) as usize);
                let pp = w.objs[paulis].ptr as *const QirArray;
                let mut ps: Vec<u8> = vec![];
                for (j, _) in q.iter().enumerate() {
                    let v = (*x as usize >> j) % 4;
                    *__quantum__rt__array_get_element_ptr_1d(pp, j as u64) = v as i8;
                    ps.push(v as u8);
                }
                w.objs[paulis].v = V::Arr(1, ps);
                let free = w.call(|| __quantum__rt__qubit_allocate());
                // The controlled forms of gates without parameters.
                type Ctl = unsafe extern "C" fn(*const QirArray, *mut c_void);
                const CTL: [Ctl; 8] = [
                    __quantum__qis__h__ctl,
                    __quantum__qis__s__ctl,
                    __quantum__qis__s__ctladj,
                    __quantum__qis__t__ctl,
                    __quantum__qis__t__ctladj,
                    __quantum__qis__x__ctl,
                    __quantum__qis__y__ctl,
                    __quantum__qis__z__ctl,
                ];
                match k % 8 {
                    0 => {
                        w.call(|| __quantum__qis__measure__body(pp, p));
                    }
                    1 => w.call(|| {
                        qir_backend::exp::__quantum__qis__exp__body(pp, 0.5, p);
                        qir_backend::exp::__quantum__qis__exp__adj(pp, 0.25, p);
                    }),
                    2 => w.call(|| CTL[*x as usize % 8](p, free)),
                    3 | 4 => {
                        let t = w.objs.len();
                        w.make(V::Tup(vec![]), || __quantum__rt__tuple_create(24) as usize);
                        let tp = w.objs[t].ptr as *mut u64;
                        *tp = u64::from(*x % 4);
                        *tp.add(1) = 0.25_f64.to_bits();
                        *tp.add(2) = free as u64;
                        w.objs[t].v = V::Tup(std::slice::from_raw_parts(tp.cast::<u8>(), 24).to_vec());
                        if k % 8 == 3 {
                            w.call(|| __quantum__qis__r__ctl(p, tp.cast()));
                        } else {
                            w.call(|| __quantum__qis__r__ctladj(p, tp.cast()));
                        }
                        w.check("gate")?;
                        w.drop_refs(t, 1)?;
                    }
                    5 => {
                        let t = w.objs.len();
                        w.make(V::Tup(vec![]), || __quantum__rt__tuple_create(16) as usize);
                        let tp = w.objs[t].ptr as *mut u64;
                        *tp = 0.75_f64.to_bits();
                        *tp.add(1) = free as u64;
                        w.objs[t].v = V::Tup(std::slice::from_raw_parts(tp.cast::<u8>(), 16).to_vec());
                        let f = [__quantum__qis__rx__ctl, __quantum__qis__ry__ctl, __quantum__qis__rz__ctl][*x as usize % 3];
                        w.call(|| f(p, tp.cast()));
                        w.check("gate")?;
                        w.drop_refs(t, 1)?;
                    }
                    6 => {
                        // A new qubit is 0: this assertion holds whatever the state is.
                        let c = w.objs.len();
                        w.make(V::Arr(8, vec![]), || __quantum__rt__array_create_1d(8, 1) as usize);
                        *__quantum__rt__array_get_element_ptr_1d(w.objs[c].ptr as *const QirArray, 0).cast::<usize>() = free as usize;
                        w.objs[c].v = V::Arr(8, (free as usize).to_ne_bytes().to_vec());
                        let z = w.objs.len();
                        w.make(V::Arr(1, vec![0]), || __quantum__rt__array_create_1d(1, 1) as usize);
                        *__quantum__rt__array_get_element_ptr_1d(w.objs[z].ptr as *const QirArray, 0) = 2;
                        w.objs[z].v = V::Arr(1, vec![2]);
                        let m = w.make(V::Str(b"m\0".to_vec()), || strings::__quantum__rt__string_create(c"m".as_ptr().cast_mut()) as usize);
                        let (cp, zp) = (w.objs[c].ptr as *const QirArray, w.objs[z].ptr as *const QirArray);
                        let mp = w.objs[m].ptr as *const CString;
                        let zero = __quantum__rt__result_get_zero();
                        w.call(|| __quantum__qis__assertmeasurementprobability__body(zp, cp, zero, 1.0, mp, 0.25));
                        w.check("assertion")?;
                        w.drop_refs(m, 1)?;
                        w.drop_refs(z, 1)?;
                        w.drop_refs(c, 1)?;
                    }
                    _ => {
                        // exp.ctl and exp.ctladj with a control list of its own.
                        let c = w.objs.len();
                        w.make(V::Arr(8, vec![]), || __quantum__rt__array_create_1d(8, 1) as usize);
                        *__quantum__rt__array_get_element_ptr_1d(w.objs[c].ptr as *const QirArray, 0).cast::<usize>() = free as usize;
                        w.objs[c].v = V::Arr(8, (free as usize).to_ne_bytes().to_vec());
                        let t = w.objs.len();
                        w.make(V::Tup(vec![]), || __quantum__rt__tuple_create(24) as usize);
                        let tp = w.objs[t].ptr as *mut u64;
                        *tp = pp as u64;
                        *tp.add(1) = 0.25_f64.to_bits();
                        *tp.add(2) = p as u64;
                        w.objs[t].v = V::Tup(std::slice::from_raw_parts(tp.cast::<u8>(), 24).to_vec());
                        let cp = w.objs[c].ptr as *const QirArray;
                        w.call(|| {
                            qir_backend::exp::__quantum__qis__exp__ctl(cp, tp.cast());
                            qir_backend::exp::__quantum__qis__exp__ctladj(cp, tp.cast());
                        });
                        w.check("gate")?;
                        w.drop_refs(t, 1)?;
                        w.drop_refs(c, 1)?;
                    }
                }
                w.call(|| __quantum__rt__qubit_release(free));
                w.check("gate")?;
                w.drop_refs(paulis, 1)?;
            }
            MOp::Ref(o, d) => {
                let Some(i) = w.pick(*o, |_| true) else { return Ok(()) };
                w.objs[i].refs += i64::from(*d);
                w.count(&w.objs[i], *d as i32);
            }
            MOp::Drop(o, d) => {
                let Some(i) = w.pick(*o, |_| true) else { return Ok(()) };
                w.drop_refs(i, i64::from(*d))?;
            }
            MOp::Alias(o, d) => {
                let Some(i) = w.pick(*o, |v| matches!(v, V::Arr(..) | V::Tup(_) | V::Call(..) | V::Qubits(..))) else { return Ok(()) };
                let d = i64::from(*d).max(-w.objs[i].alias);
                w.objs[i].alias += d;
                w.alias(&w.objs[i], d as i32);
            }
            MOp::ReleaseQubits(o) => {
                let Some(i) = w.pick(*o, |v| matches!(v, V::Qubits(_, false))) else { return Ok(()) };
                w.release_qubits(i)?;
            }
        }
    }
    Ok(())
}

fn run13(ops: &[MOp]) -> Result<(usize, usize, usize), String> {
    buffer_output();
    let mut w = World { objs: vec![], step: 0, made: 0, freed: 0, derived: 0 };
    for (k, op) in ops.iter().enumerate() {
        w.step = k as u32;
        step13(&mut w, op)?;
        w.check(&format!("{op:?}"))?;
        if w.objs.len() > 14 {
            let all = w.objs[0].refs;
            w.drop_refs(0, all)?;
        }
    }
    w.step += 1;
    let mut k = 0;
    while !w.objs.is_empty() {
        // In an order that depends on the history.
        k = (k * 7 + 3) % w.objs.len();
        let d = if w.step % 2 == 0 { 1 } else { w.objs[k].refs };
        w.drop_refs(k, d)?;
        w.check("final release")?;
        w.step += 1;
    }
    drop(crate::qirops::drain_output());
    Ok((w.made, w.freed, w.derived))
}

fn mop() -> BoxedStrategy<MOp> {
    let o = any::<u8>;
    prop_oneof![
        2 => prop_oneof![
            80 => (prop::sample::select(vec![1_u32, 4, 8, 16]), 0_u32..6),
            1 => (large_size(), 0_u32..3, any::<bool>()).prop_map(|(a, b, many)| if many { (b.max(1), a) } else { (a, b) }),
        ].prop_map(|(e, n)| MOp::Arr(e, n)),
        2 => prop_oneof![80 => 0_u32..40, 1 => large_size()].prop_map(MOp::Tup),
        2 => prop_oneof![80 => "[ -~é\n\t]{0,12}".boxed(), 1 => ("[ -~é]", large_size()).prop_map(|(c, n)| c.repeat(n as usize)).boxed()].prop_map(MOp::Str),
        2 => (any::<i64>(), prop_oneof![Just(0_u8), 1_u8..40]).prop_map(|(a, b)| MOp::Big(a, b)),
        1 => Just(MOp::Call),
        1 => any::<u8>().prop_map(MOp::Qubits),
        4 => (o(), prop::bool::weighted(0.3)).prop_map(|(a, b)| MOp::Copy(a, b)),
        3 => (o(), o()).prop_map(|(a, b)| MOp::Join(a, b)),
        2 => (o(), -128_i64..128, -4_i64..5, prop_oneof![40 => 0_u32..6, 1 => Just(u32::MAX)]).prop_map(|(a, b, c, d)| MOp::Slice(a, b, c, d)),
        3 => (any::<u8>(), o(), o()).prop_map(|(a, b, c)| MOp::Arith(a, b, c)),
        2 => (any::<u8>(), any::<i64>()).prop_map(|(a, b)| MOp::Text(a, b)),
        2 => (o(), any::<bool>()).prop_map(|(a, b)| MOp::Functor(a, b)),
        2 => (o(), prop::collection::vec(0_u8..4, 0..5), any::<bool>()).prop_map(|(a, b, c)| MOp::Invoke(a, b, c)),
        3 => (any::<u8>(), o(), o()).prop_map(|(a, b, c)| MOp::Look(a, b, c)),
        1 => (any::<u8>(), o(), any::<u8>()).prop_map(|(a, b, c)| MOp::Gate(a, b, c)),
        4 => (o(), prop_oneof![50 => 1_u32..4, 10 => 1_u32..400, 1 => large_size()]).prop_map(|(a, b)| MOp::Ref(a, b)),
        6 => (o(), prop_oneof![50 => 1_u32..4, 10 => 1_u32..400, 1 => large_size()]).prop_map(|(a, b)| MOp::Drop(a, b)),
        3 => (o(), prop_oneof![40 => -2_i32..4, 10 => -100_i32..100, 1 => -70_000_i32..70_000]).prop_map(|(a, b)| MOp::Alias(a, b)),
        1 => o().prop_map(MOp::ReleaseQubits),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ops13(pub Vec<MOp>);

pub struct C13;
impl Prop for C13 {
    type Case = Ops13;
    const ID: &'static str = "C13";
    const RULE: &'static str = "case: a balanced history over arrays, tuples, strings, big integers, callables and qubit arrays: creation, copies, concatenation, slices, arithmetic, conversions, functor applications, invocations (the callee may keep arguments), quantum calls on arrays, records and messages, reference and alias updates of up to 70000 (objects up to that size too), then release of everything. Every heap block taken by the runtime is tracked, guarded, poisoned when freed and kept back: an object's blocks must be held and its value unchanged while its count is positive and all be freed when it reaches zero, and after the thread that ran the history ends no block is held. Non-trivial: three or more objects freed and one derived.";
    const ASSUMPTIONS: &'static [&'static str] = &["bigint_get_data and memory_allocate hand out memory they never free and are not called", "alias counts are brought back to zero before the last reference is given up"];
    fn strategy(tier: Tier) -> BoxedStrategy<Ops13> {
        prop::collection::vec(mop(), 5..tier.pick(35, 90)).prop_map(Ops13).boxed()
    }
    fn cases(tier: Tier) -> u64 {
        tier.pick(700_000, 10_000_000)
    }
    fn check(c: &Ops13, ctx: &mut Ctx) -> Result<(), String> {
        alloc::begin();
        let ops = c.0.clone();
        let r = std::thread::Builder::new().stack_size(1 << 20).spawn(move || run13(&ops)).map_err(|e| e.to_string())?.join();
        let e = alloc::end();
        let (made, freed, derived) = r.map_err(|_| "the history panicked".to_string())??;
        if let Some(t) = e.trouble {
            return Err(t);
        }
        if !e.leaked.is_empty() {
            let (size, step) = e.leaked[0];
            return Err(format!("{} blocks never freed, first of {size} bytes taken in step {}", e.leaked.len(), step.saturating_sub(1)));
        }
        ctx.label_if(e.full, "tracking_table_full");
        ctx.nontrivial(freed >= 3 && derived >= 1);
        ctx.label_if(made >= 10, "ten_objects");
        ctx.label_if(c.0.iter().any(|o| matches!(o, MOp::Invoke(..))), "invocation");
        ctx.label_if(c.0.iter().any(|o| matches!(o, MOp::Qubits(..))), "qubit_array");
        Ok(())
    }
}
