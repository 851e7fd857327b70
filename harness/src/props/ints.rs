//! C15: big integers against separately written arithmetic.

use num_bigint::BigInt;
use qir_backend::bigints::*;
use qir_backend::strings::__quantum__rt__bigint_to_string;
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;
use vdriver::proptest::prelude::*;
use vdriver::{Ctx, Prop, Tier};

/// Sign and magnitude, 32-bit limbs, least significant first, no leading zero limb.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Int {
    neg: bool,
    mag: Vec<u32>,
}

fn trim(mut v: Vec<u32>) -> Vec<u32> {
    while v.last() == Some(&0) {
        v.pop();
    }
    v
}

fn cmp_mag(a: &[u32], b: &[u32]) -> Ordering {
    a.len().cmp(&b.len()).then_with(|| a.iter().rev().cmp(b.iter().rev()))
}

fn add_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut out = vec![];
    let mut c = 0_u64;
    for i in 0..a.len().max(b.len()) {
        let s = u64::from(*a.get(i).unwrap_or(&0)) + u64::from(*b.get(i).unwrap_or(&0)) + c;
        out.push(s as u32);
        c = s >> 32;
    }
    out.push(c as u32);
    trim(out)
}

fn sub_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut out = vec![];
    let mut c = 0_i64;
    for i in 0..a.len() {
        let mut s = i64::from(a[i]) - i64::from(*b.get(i).unwrap_or(&0)) - c;
        c = 0;
        if s < 0 {
            s += 1 << 32;
            c = 1;
        }
        out.push(s as u32);
    }
    trim(out)
}

fn mul_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut out = vec![0_u32; a.len() + b.len() + 1];
    for (i, x) in a.iter().enumerate() {
        let mut c = 0_u64;
        for (j, y) in b.iter().enumerate() {
            let s = u64::from(out[i + j]) + u64::from(*x) * u64::from(*y) + c;
            out[i + j] = s as u32;
            c = s >> 32;
        }
        let mut k = i + b.len();
        while c > 0 {
            let s = u64::from(out[k]) + c;
            out[k] = s as u32;
            c = s >> 32;
            k += 1;
        }
    }
    trim(out)
}

fn shl_mag(a: &[u32], n: u64) -> Vec<u32> {
    let (w, b) = ((n / 32) as usize, (n % 32) as u32);
    let mut out = vec![0_u32; w];
    let mut c = 0_u32;
    for x in a {
        out.push(((u64::from(*x) << b) as u32) | c);
        c = (u64::from(*x) << b >> 32) as u32;
    }
    out.push(c);
    trim(out)
}

fn bit(a: &[u32], i: usize) -> bool {
    a.get(i / 32).is_some_and(|x| x >> (i % 32) & 1 == 1)
}

/// Quotient and remainder, one bit at a time.
fn div_mag(a: &[u32], b: &[u32]) -> (Vec<u32>, Vec<u32>) {
    let mut q = vec![0_u32; a.len()];
    let mut r: Vec<u32> = vec![];
    for i in (0..a.len() * 32).rev() {
        r = shl_mag(&r, 1);
        if bit(a, i) {
            if r.is_empty() {
                r.push(0);
            }
            r[0] |= 1;
        }
        if cmp_mag(&r, b) != Ordering::Less {
            r = sub_mag(&r, b);
            q[i / 32] |= 1 << (i % 32);
        }
    }
    (trim(q), trim(r))
}

impl Int {
    fn new(neg: bool, mag: Vec<u32>) -> Int {
        let mag = trim(mag);
        Int { neg: neg && !mag.is_empty(), mag }
    }
    pub fn from_i64(x: i64) -> Int {
        let m = x.unsigned_abs();
        Int::new(x < 0, vec![m as u32, (m >> 32) as u32])
    }
    /// Two's complement, little endian, any length.
    pub fn from_bytes(b: &[u8]) -> Int {
        let neg = b.last().is_some_and(|x| *x >= 128);
        let mut limbs = vec![];
        for c in b.chunks(4) {
            let mut v = if neg { u32::MAX } else { 0 };
            for (i, x) in c.iter().enumerate() {
                v = v & !(0xff << (8 * i)) | u32::from(*x) << (8 * i);
            }
            limbs.push(v);
        }
        if neg {
            // Magnitude: complement and add one.
            let inv: Vec<u32> = limbs.iter().map(|x| !x).collect();
            Int::new(true, add_mag(&trim(inv), &[1]))
        } else {
            Int::new(false, limbs)
        }
    }
    /// n limbs of two's complement.
    fn twos(&self, n: usize) -> Vec<u32> {
        let mut v = self.mag.clone();
        v.resize(n, 0);
        if self.neg {
            let mut c = true;
            for x in &mut v {
                let (y, o) = (!*x).overflowing_add(u32::from(c));
                *x = y;
                c = o;
            }
        }
        v
    }
    fn from_twos(v: &[u32]) -> Int {
        Int::from_bytes(&v.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>())
    }
    fn add(&self, o: &Int) -> Int {
        if self.neg == o.neg {
            return Int::new(self.neg, add_mag(&self.mag, &o.mag));
        }
        match cmp_mag(&self.mag, &o.mag) {
            Ordering::Less => Int::new(o.neg, sub_mag(&o.mag, &self.mag)),
            _ => Int::new(self.neg, sub_mag(&self.mag, &o.mag)),
        }
    }
    fn negate(&self) -> Int {
        Int::new(!self.neg, self.mag.clone())
    }
    fn mul(&self, o: &Int) -> Int {
        Int::new(self.neg != o.neg, mul_mag(&self.mag, &o.mag))
    }
    fn divrem(&self, o: &Int) -> (Int, Int) {
        let (q, r) = div_mag(&self.mag, &o.mag);
        (Int::new(self.neg != o.neg, q), Int::new(self.neg, r))
    }
    fn pow(&self, n: u32) -> Int {
        let mut r = Int::from_i64(1);
        for _ in 0..n {
            r = r.mul(self);
        }
        r
    }
    fn bitwise(&self, o: &Int, f: impl Fn(u32, u32) -> u32) -> Int {
        let n = self.mag.len().max(o.mag.len()) + 1;
        let v: Vec<u32> = self.twos(n).iter().zip(o.twos(n)).map(|(a, b)| f(*a, b)).collect();
        Int::from_twos(&v)
    }
    fn shl(&self, n: u64) -> Int {
        Int::new(self.neg, shl_mag(&self.mag, n))
    }
    /// Rounds down.
    fn shr(&self, n: u64) -> Int {
        let len = self.mag.len() + 1;
        let v = self.twos(len);
        let fill = if self.neg { u32::MAX } else { 0 };
        let get = |i: u64| *usize::try_from(i).ok().and_then(|i| v.get(i)).unwrap_or(&fill);
        let out: Vec<u32> = (0..len as u64)
            .map(|i| {
                let k = i.saturating_add(n / 32);
                let pair = u64::from(get(k)) | u64::from(get(k.saturating_add(1))) << 32;
                (pair >> (n % 32)) as u32
            })
            .collect();
        Int::from_twos(&out)
    }
    fn compare(&self, o: &Int) -> Ordering {
        match (self.neg, o.neg) {
            (true, false) => Ordering::Less,
            (false, true) => Ordering::Greater,
            (false, false) => cmp_mag(&self.mag, &o.mag),
            (true, true) => cmp_mag(&o.mag, &self.mag),
        }
    }
    fn decimal(&self) -> String {
        if self.mag.is_empty() {
            return "0".into();
        }
        let mut m = self.mag.clone();
        let mut parts = vec![];
        while !m.is_empty() {
            let mut r = 0_u64;
            for x in m.iter_mut().rev() {
                let v = r << 32 | u64::from(*x);
                *x = (v / 1_000_000_000) as u32;
                r = v % 1_000_000_000;
            }
            m = trim(m);
            parts.push(r);
        }
        let mut s = if self.neg { "-".to_string() } else { String::new() };
        s += &parts.pop().unwrap().to_string();
        for p in parts.iter().rev() {
            s += &format!("{p:09}");
        }
        s
    }
    fn bits(&self) -> usize {
        self.mag.len() * 32
    }
    /// Decimal, unless that would take long.
    fn text(&self) -> String {
        if self.bits() > WIDE {
            return format!("[{}{} limbs, lowest {:#x}]", if self.neg { "-" } else { "" }, self.mag.len(), self.mag[0]);
        }
        self.decimal()
    }
}

/// Beyond this many bits only the exported bytes are compared.
const WIDE: usize = 45_000;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum BOp {
    I64(i64),
    Bytes(Vec<u8>),
    /// A power of two, plus an offset, negated?
    Near(u32, i8, bool),
    /// add sub mul div mod and or xor
    Two(u8, u8, u8),
    /// negate not
    One(u8, u8),
    Pow(u8, u32),
    Shl(u8, u32),
    Shr(u8, u64),
    Compare(u8, u8),
    /// Export and construct again.
    Export(u8),
}

struct World {
    v: Vec<(usize, Int)>,
    rng: u32,
}

/// Compares an integer with its reference through every exported view.
unsafe fn same(p: *const BigInt, want: &Int, what: &str) -> Result<(), String> {
    unsafe {
        let w = want.text();
        if want.bits() <= WIDE {
            let s = crate::qirops::rt_string(__quantum__rt__bigint_to_string(p));
            if s != w {
                return Err(format!("{what} is {s}, expected {w}"));
            }
        }
        let n = __quantum__rt__bigint_get_length(p) as usize;
        let d = __quantum__rt__bigint_get_data(p);
        let b = std::slice::from_raw_parts(d, n).to_vec();
        if &Int::from_bytes(&b) != want {
            let b = if b.len() > 3000 { format!("{} bytes", b.len()) } else { format!("{b:?}") };
            return Err(format!("{what} exports {b}, which is not {w}"));
        }
        Ok(())
    }
}

fn run(ops: &[BOp], w: &mut World) -> Result<(usize, usize), String> {
    let mut done = 0;
    let mut widest = 0;
    for (k, op) in ops.iter().enumerate() {
        let pick = |p: u8| (!w.v.is_empty()).then(|| p as usize * w.v.len() / 256);
        unsafe {
            let (p, v, what): (*const BigInt, Int, String) = match op {
                BOp::I64(x) => (__quantum__rt__bigint_create_i64(*x), Int::from_i64(*x), format!("create({x})")),
                BOp::Bytes(b) => (__quantum__rt__bigint_create_array(b.len() as u32, b.as_ptr()), Int::from_bytes(b), if b.len() > 3000 { format!("create({} bytes)", b.len()) } else { format!("create({b:?})") }),
                BOp::Near(n, o, neg) => {
                    let mut v = Int::from_i64(1).shl(u64::from(*n)).add(&Int::from_i64(i64::from(*o)));
                    if *neg {
                        v = v.negate();
                    }
                    let limbs = v.twos(v.mag.len() + 1);
                    let b: Vec<u8> = limbs.iter().flat_map(|x| x.to_le_bytes()).collect();
                    (__quantum__rt__bigint_create_array(b.len() as u32, b.as_ptr()), v, format!("create(2^{n}{o:+}, negated {neg})"))
                }
                BOp::Two(o, a, b) => {
                    let (Some(i), Some(j)) = (pick(*a), pick(*b)) else { continue };
                    let (x, y) = (&w.v[i], &w.v[j]);
                    let (p, q) = (x.0 as *const BigInt, y.0 as *const BigInt);
                    let zero = y.1.mag.is_empty();
                    let (name, r, v) = match o % 8 {
                        0 => ("+", __quantum__rt__bigint_add(p, q), x.1.add(&y.1)),
                        1 => ("-", __quantum__rt__bigint_subtract(p, q), x.1.add(&y.1.negate())),
                        2 if x.1.bits() + y.1.bits() < 20000 => ("*", __quantum__rt__bigint_multiply(p, q), x.1.mul(&y.1)),
                        3 if !zero && x.1.bits() < 3000 => ("/", __quantum__rt__bigint_divide(p, q), x.1.divrem(&y.1).0),
                        4 if !zero && x.1.bits() < 3000 => ("%", __quantum__rt__bigint_modulus(p, q), x.1.divrem(&y.1).1),
                        5 => ("&", __quantum__rt__bigint_bitand(p, q), x.1.bitwise(&y.1, |a, b| a & b)),
                        6 => ("|", __quantum__rt__bigint_bitor(p, q), x.1.bitwise(&y.1, |a, b| a | b)),
                        7 => ("^", __quantum__rt__bigint_bitxor(p, q), x.1.bitwise(&y.1, |a, b| a ^ b)),
                        _ => continue,
                    };
                    (r, v, format!("{} {name} {}", x.1.text(), y.1.text()))
                }
                BOp::One(o, a) => {
                    let Some(i) = pick(*a) else { continue };
                    let x = &w.v[i];
                    let p = x.0 as *const BigInt;
                    if o % 2 == 0 {
                        (__quantum__rt__bigint_negate(p), x.1.negate(), format!("-({})", x.1.text()))
                    } else {
                        (__quantum__rt__bigint_bitnot(p), x.1.bitwise(&x.1, |a, _| !a), format!("~({})", x.1.text()))
                    }
                }
                BOp::Pow(a, n) => {
                    let Some(i) = pick(*a) else { continue };
                    let x = &w.v[i];
                    // Zero, one and minus one to large powers too.
                    let big = x.1.mag.is_empty() || x.1.mag == [1];
                    let n = if big || x.1.bits().saturating_mul(*n as usize) <= 20000 { *n } else { *n % 12 };
                    if x.1.bits().saturating_mul(n as usize) > 20000 && !big {
                        continue;
                    }
                    let want = if big { x.1.pow(if n > 2 { 2 + n % 2 } else { n }) } else { x.1.pow(n) };
                    (__quantum__rt__bigint_power(x.0 as *const BigInt, n), want, format!("({})^{n}", x.1.text()))
                }
                BOp::Shl(a, n) => {
                    let Some(i) = pick(*a) else { continue };
                    let x = &w.v[i];
                    if x.1.bits() > 8000 {
                        continue;
                    }
                    (__quantum__rt__bigint_shiftleft(x.0 as *const BigInt, u64::from(*n)), x.1.shl(u64::from(*n)), format!("({}) << {n}", x.1.text()))
                }
                BOp::Shr(a, n) => {
                    let Some(i) = pick(*a) else { continue };
                    let x = &w.v[i];
                    (__quantum__rt__bigint_shiftright(x.0 as *const BigInt, *n), x.1.shr(*n), format!("({}) >> {n}", x.1.text()))
                }
                BOp::Compare(a, b) => {
                    let (Some(i), Some(j)) = (pick(*a), pick(*b)) else { continue };
                    let (x, y) = (&w.v[i], &w.v[j]);
                    let (p, q) = (x.0 as *const BigInt, y.0 as *const BigInt);
                    let c = x.1.compare(&y.1);
                    let got = (__quantum__rt__bigint_equal(p, q), __quantum__rt__bigint_greater(p, q), __quantum__rt__bigint_greater_eq(p, q));
                    let want = (c == Ordering::Equal, c == Ordering::Greater, c != Ordering::Less);
                    if got != want {
                        return Err(format!("step {k}: {} against {}: (equal, greater, greater_eq) is {got:?}, expected {want:?}", x.1.text(), y.1.text()));
                    }
                    done += 1;
                    continue;
                }
                BOp::Export(a) => {
                    let Some(i) = pick(*a) else { continue };
                    let x = &w.v[i];
                    let p = x.0 as *const BigInt;
                    let n = __quantum__rt__bigint_get_length(p);
                    let d = __quantum__rt__bigint_get_data(p);
                    let r = __quantum__rt__bigint_create_array(n, d);
                    if !__quantum__rt__bigint_equal(p, r) {
                        return Err(format!("step {k}: {} exported and constructed again is not equal to itself", x.1.text()));
                    }
                    (r, x.1.clone(), format!("re-construction of {}", x.1.text()))
                }
            };
            same(p, &v, &format!("step {k}: {what}"))?;
            widest = widest.max(v.bits());
            done += 1;
            w.v.push((p as usize, v));
            if w.v.len() > 10 {
                w.rng = w.rng.wrapping_mul(1_103_515_245).wrapping_add(12345);
                let (p, v) = w.v.remove((w.rng >> 16) as usize % 9);
                same(p as *const BigInt, &v, "an operand, later,")?;
                __quantum__rt__bigint_update_reference_count(p as *const BigInt, -1);
            }
        }
    }
    unsafe {
        for (p, v) in w.v.drain(..) {
            same(p as *const BigInt, &v, "an operand, at the end,")?;
            __quantum__rt__bigint_update_reference_count(p as *const BigInt, -1);
        }
    }
    Ok((done, widest))
}

fn bop() -> BoxedStrategy<BOp> {
    let o = any::<u8>;
    let int = prop_oneof![3 => any::<i64>(), 3 => -5_i64..6, 2 => prop::sample::select(vec![i64::MIN, i64::MAX, i64::MIN + 1, 255, 256, -128, -129, 127, 128, -255, -256, -257, 1 << 32, (1 << 32) - 1, -(1 << 32), 1 << 62])];
    let byte = prop_oneof![2 => any::<u8>(), 2 => prop::sample::select(vec![0_u8, 0xff, 0x80, 0x7f, 1])];
    let bytes = prop_oneof![
        4 => prop::collection::vec(byte.clone(), 0..20),
        2 => prop::collection::vec(byte.clone(), 20..90),
        1 => (prop::collection::vec(byte, 0..20), prop::sample::select(vec![0_u8, 0xff]), 1_usize..40).prop_map(|(mut v, x, n)| {
            v.extend(std::iter::repeat_n(x, n));
            v
        }),
    ];
    prop_oneof![
        3 => int.prop_map(BOp::I64),
        4 => bytes.prop_map(BOp::Bytes),
        3 => (prop_oneof![0_u32..130, 0_u32..600, prop::sample::select(vec![31_u32, 32, 63, 64, 95, 96, 127, 128, 255, 256])], -2_i8..3, any::<bool>()).prop_map(|(a, b, c)| BOp::Near(a, b, c)),
        10 => (0_u8..8, o(), o()).prop_map(|(a, b, c)| BOp::Two(a, b, c)),
        2 => (0_u8..2, o()).prop_map(|(a, b)| BOp::One(a, b)),
        1 => (o(), prop_oneof![8 => 0_u32..256, 2 => 250_u32..700, 1 => any::<u32>()]).prop_map(|(a, b)| BOp::Pow(a, b)),
        2 => (o(), prop_oneof![0_u32..70, 0_u32..700]).prop_map(|(a, b)| BOp::Shl(a, b)),
        3 => (o(), prop_oneof![6 => 0_u64..70, 3 => 0_u64..700, 1 => any::<u64>(), 1 => (8_u32..64, 0_u64..9).prop_map(|(k, d)| (1 << k) + d)]).prop_map(|(a, b)| BOp::Shr(a, b)),
        3 => (o(), o()).prop_map(|(a, b)| BOp::Compare(a, b)),
        2 => o().prop_map(BOp::Export),
    ]
    .boxed()
}

/// Integers whose lengths in bytes or bits pass 2^16.
fn wide() -> BoxedStrategy<Vec<BOp>> {
    let o = any::<u8>;
    let n = || prop_oneof![prop::sample::select(vec![65_533_usize, 65_534, 65_535, 65_536, 65_537]), 8100_usize..70_000];
    let new = prop_oneof![
        (n(), any::<u64>(), prop::sample::select(vec![0_u8, 0xff, 0x80, 0x7f, 1])).prop_map(|(n, s, last)| {
            let mut v: Vec<u8> = (0..n as u64).map(|i| ((i ^ s).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 33) as u8).collect();
            *v.last_mut().unwrap() = last;
            BOp::Bytes(v)
        }),
        (prop_oneof![60_000_u32..70_000, 524_200_u32..524_320], -2_i8..3, any::<bool>()).prop_map(|(a, b, c)| BOp::Near(a, b, c)),
    ];
    let op = prop_oneof![
        4 => (prop::sample::select(vec![0_u8, 1, 5, 6, 7]), o(), o()).prop_map(|(a, b, c)| BOp::Two(a, b, c)),
        2 => (0_u8..2, o()).prop_map(|(a, b)| BOp::One(a, b)),
        2 => (o(), prop_oneof![0_u64..70, 0_u64..600_000]).prop_map(|(a, b)| BOp::Shr(a, b)),
        2 => (o(), prop_oneof![65_500_u32..65_600, 0_u32..70_000]).prop_map(|(a, b)| BOp::Shl(a, b)),
        2 => (o(), o()).prop_map(|(a, b)| BOp::Compare(a, b)),
        2 => o().prop_map(BOp::Export),
    ];
    (prop::collection::vec(new, 1..3), any::<i64>(), prop::collection::vec(op, 1..7))
        .prop_map(|(mut v, x, ops)| {
            v.push(BOp::I64(x));
            v.extend(ops);
            v
        })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ops15(pub Vec<BOp>);

pub struct C15;
impl Prop for C15 {
    type Case = Ops15;
    const ID: &'static str = "C15";
    const RULE: &'static str = "case: a history of big integer constructions (64-bit values, byte arrays up to 90 bytes with redundant sign bytes, values next to powers of two), all arithmetic, bitwise, shift, power, comparison, export and text operations over the values made so far (up to 20000 bits; rarely up to 70000 bytes, then without the decimal text); each result is compared as decimal text and as exported bytes with separately written schoolbook arithmetic, and operands are compared again later. Non-trivial: three or more operations and a value wider than 64 bits.";
    const ASSUMPTIONS: &'static [&'static str] = &["division by zero and shifts or powers beyond memory are not generated"];
    fn strategy(tier: Tier) -> BoxedStrategy<Ops15> {
        prop_oneof![700 => prop::collection::vec(bop(), 4..tier.pick(24, 60)), 1 => wide()].prop_map(Ops15).boxed()
    }
    fn cases(tier: Tier) -> u64 {
        tier.pick(800_000, 8_000_000)
    }
    fn check(c: &Ops15, ctx: &mut Ctx) -> Result<(), String> {
        let mut w = World { v: vec![], rng: c.0.len() as u32 };
        let (done, widest) = run(&c.0, &mut w)?;
        ctx.nontrivial(done >= 3 && widest > 64);
        ctx.label_if(widest > 1000, "over_1000_bits");
        ctx.label_if(widest > 65_536, "over_65536_bits");
        Ok(())
    }
}
