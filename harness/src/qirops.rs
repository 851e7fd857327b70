//! Abstract QIR programs: an executor that performs the calls on the real backend, and a model.

use crate::refsim::{self, RefSim, C64};
use crate::simops::{palette, palette_angle, parse_dump, pick_many, pick_one, picks, q, Machine, Picks};
use num_bigint::BigUint;
use qir_backend::exp::{__quantum__qis__exp__adj, __quantum__qis__exp__body, __quantum__qis__exp__ctl, __quantum__qis__exp__ctladj};
use qir_backend::result_bool::{
    __quantum__rt__result_equal, __quantum__rt__result_get_one, __quantum__rt__result_get_zero, __quantum__rt__result_to_string,
    __quantum__rt__result_update_reference_count,
};
use qir_backend::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::{c_char, c_void, CString};
use vdriver::proptest::prelude::*;
use vdriver::proptest::strategy::Union;
use vdriver::Fl;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum QOp {
    /// h s s' t t' x y z sx
    One(u8, u8),
    Rot(u8, Fl, u8),
    /// cnot cx cy cz
    C1(u8, u8, u8),
    Ccx(u8, u8, u8),
    /// rxx ryy rzz
    Two(u8, Fl, u8, u8),
    /// Pauli (0=I 1=X 2=Y 3=Z), adjoint form?
    R(u8, Fl, u8, bool),
    /// h s s' t t' x y z with a control array
    Ctl(u8, Picks, u8),
    RotCtl(u8, Fl, Picks, u8),
    RCtl(u8, Fl, Picks, u8, bool),
    Exp(Picks, Fl, Picks, bool),
    ExpCtl(Picks, Fl, Picks, Picks, bool),
    Swap(u8, u8),
    Barrier,
    Alloc,
    AllocArray(u8),
    /// Measures (to know the outcome) and releases.
    Release(u8),
    ReleaseArray(u8),
    /// An array of many qubits, one of them flipped and reset, and released again.
    BigArray(u16, u16),
    Mz(u8, u32),
    MResetZ(u8, u32),
    M(u8),
    Measure(Picks, Picks),
    Reset(u8),
    Read(u32, bool),
    Write(bool, u32),
    /// Records a stored result, with or without a tag.
    RecRes(u32, Option<String>),
    /// Records a result returned by a measurement.
    RecDyn(u8, Option<String>),
    State,
    Dump,
    IsZero(u8),
}

/// What a program shows.
#[derive(Clone, Debug, PartialEq)]
pub enum Obs {
    Id(usize),
    Bit(bool),
    Out(String),
    State(Vec<(BigUint, C64)>, usize),
    Text(String),
}

pub fn obs_equal(a: &Obs, b: &Obs) -> bool {
    match (a, b) {
        (Obs::State(s, n), Obs::State(t, m)) => {
            n == m && {
                let d = refsim::distance(&refsim::to_map(s), &refsim::to_map(t));
                d < 1e-6
            }
        }
        (a, b) => a == b,
    }
}

pub fn trace_diff(a: &[Obs], b: &[Obs]) -> Option<String> {
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if !obs_equal(x, y) {
            return Some(format!("observation {i}: {x:?} against {y:?}"));
        }
    }
    if a.len() == b.len() {
        None
    } else {
        Some(format!("{} observations against {}", a.len(), b.len()))
    }
}

pub fn qp(q: usize) -> *mut c_void {
    q as *mut c_void
}

pub fn pauli(p: u8) -> Pauli {
    match p % 4 {
        0 => Pauli::I,
        1 => Pauli::X,
        2 => Pauli::Y,
        _ => Pauli::Z,
    }
}

/// A runtime array made for one call; `done` checks that the callee left it alone and frees it.
pub struct Arr {
    pub p: *const QirArray,
    want: Vec<u8>,
}

impl Arr {
    pub fn qubits(ids: &[usize]) -> Arr {
        let p = __quantum__rt__array_create_1d(8, ids.len() as u64);
        let mut want = vec![];
        for (i, q) in ids.iter().enumerate() {
            unsafe {
                *__quantum__rt__array_get_element_ptr_1d(p, i as u64).cast::<usize>() = *q;
            }
            want.extend_from_slice(&q.to_ne_bytes());
        }
        Arr { p, want }
    }
    pub fn paulis(ps: &[u8]) -> Arr {
        let p = __quantum__rt__array_create_1d(1, ps.len() as u64);
        let mut want = vec![];
        for (i, x) in ps.iter().enumerate() {
            let v = pauli(*x) as i8;
            unsafe {
                *__quantum__rt__array_get_element_ptr_1d(p, i as u64) = v;
            }
            want.push(v as u8);
        }
        Arr { p, want }
    }
    pub fn done(self, what: &str) -> Result<(), String> {
        unsafe {
            let got = std::slice::from_raw_parts(__quantum__rt__array_get_element_ptr_1d(self.p, 0).cast::<u8>(), self.want.len()).to_vec();
            if got != self.want {
                return Err(format!("{what}: the operand array changed from {:?} to {got:?}", self.want));
            }
            __quantum__rt__array_update_reference_count(self.p, -1);
        }
        Ok(())
    }
}

/// An argument tuple made for one call.
pub struct Tup {
    pub p: *mut *const Vec<u8>,
    want: Vec<u8>,
}

impl Tup {
    pub fn new(bytes: &[u8]) -> Tup {
        let p = __quantum__rt__tuple_create(bytes.len() as u64);
        unsafe {
            std::ptr::copy_nonoverlapping(bytes.as_ptr(), p.cast::<u8>(), bytes.len());
        }
        Tup { p, want: bytes.to_vec() }
    }
    pub fn rot(theta: f64, q: usize) -> Tup {
        let mut v = theta.to_ne_bytes().to_vec();
        v.extend_from_slice(&q.to_ne_bytes());
        Tup::new(&v)
    }
    pub fn pauli_rot(p: u8, theta: f64, q: usize) -> Tup {
        let mut v = vec![pauli(p) as u8, 0, 0, 0, 0, 0, 0, 0];
        v.extend_from_slice(&theta.to_ne_bytes());
        v.extend_from_slice(&q.to_ne_bytes());
        Tup::new(&v)
    }
    pub fn exp(p: &Arr, theta: f64, t: &Arr) -> Tup {
        let mut v = (p.p as usize).to_ne_bytes().to_vec();
        v.extend_from_slice(&theta.to_ne_bytes());
        v.extend_from_slice(&(t.p as usize).to_ne_bytes());
        Tup::new(&v)
    }
    pub fn done(self, what: &str) -> Result<(), String> {
        unsafe {
            let got = std::slice::from_raw_parts(self.p.cast::<u8>(), self.want.len()).to_vec();
            if got != self.want {
                return Err(format!("{what}: the argument tuple changed from {:?} to {got:?}", self.want));
            }
            __quantum__rt__tuple_update_reference_count(self.p, -1);
        }
        Ok(())
    }
}

pub unsafe fn rt_string(p: *const CString) -> String {
    unsafe {
        let s = std::ffi::CStr::from_ptr(strings::__quantum__rt__string_get_data(p)).to_string_lossy().into_owned();
        strings::__quantum__rt__string_update_reference_count(p, -1);
        s
    }
}

/// Everything recorded so far.
pub fn drain_output() -> Vec<u8> {
    output_recording::OUTPUT.with(|o| o.borrow_mut().drain().collect())
}

pub fn buffer_output() {
    output_recording::OUTPUT.with(|o| {
        let mut o = o.borrow_mut();
        o.use_std_out(false);
        o.drain();
    });
}

pub struct Qir {
    /// Static programs name qubits 0..pool; dynamic ones use what they allocated.
    pub pool: Option<usize>,
    pub live: BTreeSet<usize>,
    pub arrays: Vec<(*const QirArray, Vec<usize>)>,
    pub dyn_results: Vec<bool>,
    pub trace: Vec<Obs>,
    pub model: Option<QModel>,
    pub touched: bool,
    pub max_qubits: usize,
    /// Qubits that only widen the register.
    pub pads: Vec<usize>,
}

/// The reference for programs whose states are followed.
pub struct QModel {
    pub m: Machine,
    pub res: BTreeMap<u32, bool>,
}

impl QModel {
    pub fn new() -> Self {
        QModel { m: Machine::new(0, 64), res: BTreeMap::new() }
    }
    fn touch(&mut self, q: usize) {
        for c in &mut self.m.cands {
            while c.live.last().is_none_or(|l| *l < q) {
                let n = c.live.len();
                c.live.insert(n);
            }
        }
    }
    pub fn in_basis(&mut self, ps: &[u8], ids: &[usize], f: impl FnOnce(&mut Machine, &[usize]) -> Result<(), String>) -> Result<(), String> {
        let on: Vec<(u8, usize)> = ps.iter().copied().zip(ids.iter().copied()).filter(|(p, _)| p % 4 != 0).collect();
        let h = refsim::gate(3);
        for c in &mut self.m.cands {
            for (p, q) in &on {
                match p % 4 {
                    1 => c.apply1(&[], *q, &h),
                    2 => {
                        c.apply1(&[], *q, &refsim::gate(5));
                        c.apply1(&[], *q, &h);
                    }
                    _ => {}
                }
            }
        }
        let q: Vec<usize> = on.iter().map(|x| x.1).collect();
        f(&mut self.m, &q)?;
        for c in &mut self.m.cands {
            for (p, q) in &on {
                match p % 4 {
                    1 => c.apply1(&[], *q, &h),
                    2 => {
                        c.apply1(&[], *q, &h);
                        c.apply1(&[], *q, &refsim::gate(4));
                    }
                    _ => {}
                }
            }
        }
        self.m.tol += 1e-9;
        Ok(())
    }
}

/// Prints what was recorded by `f`.
pub fn recorded(f: impl FnOnce()) -> String {
    drain_output();
    f();
    String::from_utf8_lossy(&drain_output()).into_owned()
}

fn tag_ptr(t: &Option<String>) -> Option<CString> {
    t.as_ref().map(|t| CString::new(t.replace(['\0', '\t', '\n', '\r'], "_")).unwrap())
}

pub fn one_fn(g: u8) -> extern "C" fn(*mut c_void) {
    [
        __quantum__qis__h__body,
        __quantum__qis__s__body,
        __quantum__qis__s__adj,
        __quantum__qis__t__body,
        __quantum__qis__t__adj,
        __quantum__qis__x__body,
        __quantum__qis__y__body,
        __quantum__qis__z__body,
        __quantum__qis__sx__body,
    ][g as usize % 9]
}

/// The reference gate of `one_fn`'s and the control table's order.
pub fn one_mat(g: u8) -> refsim::M2 {
    match g % 9 {
        0 => refsim::gate(3),
        1 => refsim::gate(4),
        2 => refsim::gate(5),
        3 => refsim::gate(6),
        4 => refsim::gate(7),
        5 => refsim::gate(0),
        6 => refsim::gate(1),
        7 => refsim::gate(2),
        // The square root of X.
        _ => {
            let (a, b) = (C64::new(0.5, 0.5), C64::new(0.5, -0.5));
            [[a, b], [b, a]]
        }
    }
}

impl Qir {
    pub fn new(pool: Option<usize>, with_model: bool) -> Self {
        Qir {
            pool,
            live: BTreeSet::new(),
            arrays: vec![],
            dyn_results: vec![],
            trace: vec![],
            model: with_model.then(QModel::new),
            touched: false,
            max_qubits: 9,
            pads: vec![],
        }
    }

    /// A machine for a program, its padding qubits in place.
    pub fn start(c: &QCase, with_model: bool) -> Result<Self, String> {
        let mut q = Qir::new(c.pool.map(usize::from), with_model);
        q.max_qubits += usize::from(c.pad);
        let zero = if c.seed % 4 == 0 { c.seed as usize / 4 } else { usize::MAX };
        let n = usize::from(c.pad);
        if c.pool.is_none() && n > 0 {
            let all = c.seed % 8 < 4;
            let arr = if all { __quantum__rt__qubit_allocate_array(n as u64) } else { std::ptr::null() };
            for i in 0..n {
                let id = if all { unsafe { *__quantum__rt__array_get_element_ptr_1d(arr, i as u64).cast::<usize>() } } else { __quantum__rt__qubit_allocate() as usize };
                q.allocated(id)?;
                q.pads.push(id);
            }
            if all {
                unsafe { __quantum__rt__array_update_reference_count(arr, -1) };
            }
        } else {
            q.pads = (0..n).collect();
        }
        for i in 0..n {
            let t = q.pads[i];
            let g = if zero < usize::MAX && i == zero % n { 7 } else { 5 };
            one_fn(g)(qp(t));
            let m = one_mat(g);
            q.reference(&[t], |c| c.apply1(&[], t, &m));
        }
        Ok(q)
    }

    pub fn ids(&self) -> Vec<usize> {
        match self.pool {
            Some(n) => (self.pads.len()..self.pads.len() + n).collect(),
            None => self.live.iter().copied().filter(|q| !self.pads.contains(q)).collect(),
        }
    }

    /// As `pick_many`, where numbers from 200 on stand for stretches of padding qubits.
    pub fn many(&self, ids: &[usize], picks: &[u8], taken: &[usize]) -> Vec<usize> {
        let plain: Vec<u8> = picks.iter().copied().filter(|p| *p < 200).collect();
        let mut v = pick_many(ids, &plain, taken);
        for p in picks.iter().filter(|p| **p >= 200) {
            let n = [self.pads.len(), 62, 63, 64, 65, 1, 128, 100][(p % 8) as usize].min(self.pads.len());
            let from = if p / 8 % 2 == 0 { 0 } else { self.pads.len() - n };
            let more: Vec<usize> = self.pads[from..from + n].iter().copied().filter(|q| !v.contains(q) && !taken.contains(q)).collect();
            if p / 16 % 2 == 0 {
                v.extend(more);
            } else {
                v.splice(0..0, more);
            }
        }
        v
    }

    /// Paulis and the qubits they act on; beyond those given, Z (rarely I) on padding qubits.
    pub fn string(&self, ids: &[usize], ps: &[u8], ts: &[u8]) -> (Vec<u8>, Vec<usize>) {
        let plain: Vec<u8> = ts.iter().copied().filter(|p| *p < 200).collect();
        let few = pick_many(ids, &plain[..plain.len().min(ps.len())], &[]);
        let wide: Vec<u8> = ts.iter().copied().filter(|p| *p >= 200).collect();
        let more = self.many(&[], &wide, &few);
        let salt = ts.iter().fold(0, |a, b| a * 3 + *b as usize);
        let mut p: Vec<u8> = ps[..few.len()].iter().map(|p| p % 4).collect();
        p.extend((0..more.len()).map(|i| if (i + salt) % 9 == 4 { 0 } else { 3 }));
        let mut t = few;
        t.extend(more);
        if salt % 2 == 1 {
            p.reverse();
            t.reverse();
        }
        (p, t)
    }

    fn reference(&mut self, used: &[usize], f: impl Fn(&mut RefSim)) {
        let stat = self.pool.is_some();
        if let Some(m) = &mut self.model {
            if stat {
                for q in used {
                    m.touch(*q);
                }
            }
            m.m.each(f);
        }
    }

    fn used(&mut self, used: &[usize]) {
        if self.pool.is_some() {
            if let Some(m) = &mut self.model {
                for q in used {
                    m.touch(*q);
                }
            }
        }
    }

    fn outcome(&mut self, q: usize, res: bool, what: &str) -> Result<(), String> {
        self.used(&[q]);
        if let Some(m) = &mut self.model {
            m.m.take_outcome(&[q], res, what)?;
        }
        Ok(())
    }

    fn dull(&self) -> bool {
        self.model.as_ref().is_some_and(|m| m.m.dull)
    }

    pub fn state(&mut self, when: &str) -> Result<(), String> {
        let (s, n) = capture_quantum_state();
        if let Some(m) = &mut self.model {
            if !m.m.dull {
                m.m.check_state(&s, n, when)?;
            }
        }
        self.trace.push(Obs::State(s, n));
        Ok(())
    }

    #[allow(clippy::too_many_lines)]
    pub fn step(&mut self, op: &QOp) -> Result<(), String> {
        let ids = self.ids();
        let needs = !matches!(
            op,
            QOp::Alloc | QOp::AllocArray(_) | QOp::BigArray(..) | QOp::Read(..) | QOp::Write(..) | QOp::RecRes(..) | QOp::RecDyn(..) | QOp::State | QOp::Dump | QOp::Barrier | QOp::ReleaseArray(_)
        );
        if (needs && ids.is_empty()) || self.dull() {
            return Ok(());
        }
        let at = |p: u8| pick_one(&ids, p);
        unsafe {
            match op {
                QOp::One(g, t) => {
                    let t = at(*t);
                    one_fn(*g)(qp(t));
                    let m = one_mat(*g);
                    self.reference(&[t], |c| c.apply1(&[], t, &m));
                }
                QOp::Rot(ax, th, t) => {
                    let t = at(*t);
                    [__quantum__qis__rx__body, __quantum__qis__ry__body, __quantum__qis__rz__body][*ax as usize % 3](th.0, qp(t));
                    let m = refsim::rot(*ax % 3, th.0);
                    self.reference(&[t], |c| c.apply1(&[], t, &m));
                }
                QOp::C1(k, c, t) => {
                    let t = at(*t);
                    let c = pick_many(&ids, &[*c], &[t]);
                    if c.is_empty() {
                        return Ok(());
                    }
                    [__quantum__qis__cnot__body, __quantum__qis__cx__body, __quantum__qis__cy__body, __quantum__qis__cz__body][*k as usize % 4](qp(c[0]), qp(t));
                    let m = refsim::gate([0, 0, 1, 2][*k as usize % 4]);
                    self.reference(&[t, c[0]], |s| s.apply1(&c, t, &m));
                }
                QOp::Ccx(a, b, t) => {
                    let t = at(*t);
                    let c = pick_many(&ids, &[*a, *b], &[t]);
                    if c.len() < 2 {
                        return Ok(());
                    }
                    __quantum__qis__ccx__body(qp(c[0]), qp(c[1]), qp(t));
                    let m = refsim::gate(0);
                    self.reference(&[t, c[0], c[1]], |s| s.apply1(&c, t, &m));
                }
                QOp::Two(k, th, a, b) => {
                    let a = at(*a);
                    let b = pick_many(&ids, &[*b], &[a]);
                    if b.is_empty() {
                        return Ok(());
                    }
                    let b = b[0];
                    let k = *k % 3;
                    [__quantum__qis__rxx__body, __quantum__qis__ryy__body, __quantum__qis__rzz__body][k as usize](th.0, qp(a), qp(b));
                    // exp(-i theta/2 P P)
                    self.reference(&[a, b], |c| c.exp(&[], &[k + 1, k + 1], -th.0 / 2.0, &[a, b]));
                }
                QOp::R(p, th, t, adj) => {
                    let t = at(*t);
                    if p % 4 == 0 && self.pool.is_some() && self.model.as_ref().is_some_and(|m| !m.m.cands[0].live.contains(&t)) {
                        // The identity on a qubit not seen yet: whether it becomes available is open.
                        return Ok(());
                    }
                    if *adj {
                        __quantum__qis__r__adj(pauli(*p), th.0, qp(t));
                    } else {
                        __quantum__qis__r__body(pauli(*p), th.0, qp(t));
                    }
                    let s = if *adj { 0.5 } else { -0.5 };
                    self.reference(&[t], |c| c.exp(&[], &[p % 4], s * th.0, &[t]));
                }
                QOp::Ctl(g, cs, t) => {
                    let t = at(*t);
                    let c = self.many(&ids, cs, &[t]);
                    let a = Arr::qubits(&c);
                    [
                        __quantum__qis__h__ctl,
                        __quantum__qis__s__ctl,
                        __quantum__qis__s__ctladj,
                        __quantum__qis__t__ctl,
                        __quantum__qis__t__ctladj,
                        __quantum__qis__x__ctl,
                        __quantum__qis__y__ctl,
                        __quantum__qis__z__ctl,
                    ][*g as usize % 8](a.p, qp(t));
                    a.done("controls")?;
                    let m = one_mat(*g % 8);
                    let mut used = c.clone();
                    used.push(t);
                    self.reference(&used, |s| s.apply1(&c, t, &m));
                }
                QOp::RotCtl(ax, th, cs, t) => {
                    let t = at(*t);
                    let c = self.many(&ids, cs, &[t]);
                    let a = Arr::qubits(&c);
                    let tup = Tup::rot(th.0, t);
                    [__quantum__qis__rx__ctl, __quantum__qis__ry__ctl, __quantum__qis__rz__ctl][*ax as usize % 3](a.p, tup.p);
                    a.done("controls")?;
                    tup.done("rotation arguments")?;
                    let m = refsim::rot(*ax % 3, th.0);
                    let mut used = c.clone();
                    used.push(t);
                    self.reference(&used, |s| s.apply1(&c, t, &m));
                }
                QOp::RCtl(p, th, cs, t, adj) => {
                    let t = at(*t);
                    let c = self.many(&ids, cs, &[t]);
                    if p % 4 == 0 && c.is_empty() && self.pool.is_some() && self.model.as_ref().is_some_and(|m| !m.m.cands[0].live.contains(&t)) {
                        return Ok(());
                    }
                    let a = Arr::qubits(&c);
                    let tup = Tup::pauli_rot(*p, th.0, t);
                    if *adj {
                        __quantum__qis__r__ctladj(a.p, tup.p);
                    } else {
                        __quantum__qis__r__ctl(a.p, tup.p);
                    }
                    a.done("controls")?;
                    tup.done("R arguments")?;
                    let s = if *adj { 0.5 } else { -0.5 };
                    let mut used = c.clone();
                    used.push(t);
                    self.reference(&used, |r| r.exp(&c, &[p % 4], s * th.0, &[t]));
                }
                QOp::Exp(ps, th, ts, adj) => {
                    let (ps, t) = self.string(&ids, ps, ts);
                    let (a, b) = (Arr::paulis(&ps), Arr::qubits(&t));
                    if *adj {
                        __quantum__qis__exp__adj(a.p, th.0, b.p);
                    } else {
                        __quantum__qis__exp__body(a.p, th.0, b.p);
                    }
                    a.done("paulis")?;
                    b.done("targets")?;
                    let s = if *adj { -th.0 } else { th.0 };
                    self.reference(&t, |r| r.exp(&[], &ps, s, &t));
                }
                QOp::ExpCtl(ps, th, ts, cs, adj) => {
                    let (ps, t) = self.string(&ids, ps, ts);
                    let c = self.many(&ids, cs, &t);
                    let (a, b, k) = (Arr::paulis(&ps), Arr::qubits(&t), Arr::qubits(&c));
                    let tup = Tup::exp(&a, th.0, &b);
                    if *adj {
                        __quantum__qis__exp__ctladj(k.p, tup.p);
                    } else {
                        __quantum__qis__exp__ctl(k.p, tup.p);
                    }
                    tup.done("exp arguments")?;
                    a.done("paulis")?;
                    b.done("targets")?;
                    k.done("controls")?;
                    let s = if *adj { -th.0 } else { th.0 };
                    let mut used = t.clone();
                    used.extend_from_slice(&c);
                    self.reference(&used, |r| r.exp(&c, &ps, s, &t));
                }
                QOp::Swap(a, b) => {
                    let (a, b) = (at(*a), at(*b));
                    __quantum__qis__swap__body(qp(a), qp(b));
                    self.reference(&[a, b], |r| r.swap(a, b));
                }
                QOp::Barrier => __quantum__qis__barrier__body(),
                QOp::Alloc => {
                    if self.pool.is_some() || self.live.len() >= self.max_qubits {
                        return Ok(());
                    }
                    let id = __quantum__rt__qubit_allocate() as usize;
                    self.allocated(id)?;
                }
                QOp::AllocArray(n) => {
                    let n = (*n as usize % 4).min(self.max_qubits.saturating_sub(self.live.len()));
                    if self.pool.is_some() {
                        return Ok(());
                    }
                    let arr = __quantum__rt__qubit_allocate_array(n as u64);
                    let size = __quantum__rt__array_get_size_1d(arr);
                    if size != n as u64 {
                        return Err(format!("an array of {n} qubits has size {size}"));
                    }
                    let mut v = vec![];
                    for i in 0..n {
                        let id = *__quantum__rt__array_get_element_ptr_1d(arr, i as u64).cast::<usize>();
                        self.allocated(id)?;
                        v.push(id);
                    }
                    self.arrays.push((arr, v));
                }
                QOp::BigArray(n, x) => {
                    if self.pool.is_some() {
                        return Ok(());
                    }
                    let n = (*n as usize).max(1);
                    let arr = __quantum__rt__qubit_allocate_array(n as u64);
                    let size = __quantum__rt__array_get_size_1d(arr);
                    if size != n as u64 {
                        return Err(format!("an array of {n} qubits has size {size}"));
                    }
                    let mut v = vec![];
                    for i in 0..n {
                        let id = *__quantum__rt__array_get_element_ptr_1d(arr, i as u64).cast::<usize>();
                        self.allocated(id)?;
                        v.push(id);
                    }
                    let t = v[*x as usize % n];
                    __quantum__qis__x__body(qp(t));
                    let m = one_mat(5);
                    self.reference(&[t], |c| c.apply1(&[], t, &m));
                    self.state("many qubits allocated")?;
                    __quantum__qis__reset__body(qp(t));
                    self.reference(&[t], |c| c.apply1(&[], t, &m));
                    __quantum__rt__qubit_release_array(arr);
                    for t in v {
                        self.live.remove(&t);
                        if let Some(m) = &mut self.model {
                            for c in &mut m.m.cands {
                                c.remove_definite(t, false);
                            }
                        }
                    }
                    self.state("many qubits released")?;
                }
                QOp::Release(t) => {
                    if self.pool.is_some() {
                        return Ok(());
                    }
                    let t = at(*t);
                    if self.arrays.iter().any(|a| a.1.contains(&t)) {
                        return Ok(());
                    }
                    self.release_measured(t)?;
                    __quantum__rt__qubit_release(qp(t));
                }
                QOp::ReleaseArray(k) => {
                    if self.arrays.is_empty() {
                        return Ok(());
                    }
                    let (arr, v) = self.arrays.remove(*k as usize % self.arrays.len());
                    for t in v {
                        self.release_measured(t)?;
                    }
                    __quantum__rt__qubit_release_array(arr);
                }
                QOp::Mz(t, r) => {
                    let t = at(*t);
                    __quantum__qis__mz__body(qp(t), qp(*r as usize));
                    self.stored(t, *r, "mz")?;
                }
                QOp::MResetZ(t, r) => {
                    let t = at(*t);
                    __quantum__qis__mresetz__body(qp(t), qp(*r as usize));
                    self.stored(t, *r, "mresetz")?;
                    let res = __quantum__rt__read_result(qp(*r as usize));
                    if res {
                        self.reference(&[t], |c| c.apply1(&[], t, &refsim::gate(0)));
                    }
                    self.zero(t, "mresetz")?;
                }
                QOp::M(t) => {
                    let t = at(*t);
                    let r = __quantum__qis__m__body(qp(t));
                    let b = self.dynamic(r)?;
                    self.outcome(t, b, "m")?;
                }
                QOp::Measure(ps, ts) => {
                    let (ps, t) = self.string(&ids, ps, ts);
                    let (a, b) = (Arr::paulis(&ps), Arr::qubits(&t));
                    let r = __quantum__qis__measure__body(a.p, b.p);
                    a.done("paulis")?;
                    b.done("qubits")?;
                    let bit = self.dynamic(r)?;
                    let on: Vec<usize> = ps.iter().zip(&t).filter(|(p, _)| **p != 0).map(|x| *x.1).collect();
                    self.used(&on);
                    if let Some(m) = &mut self.model {
                        m.in_basis(&ps, &t, |m, q| m.take_outcome(q, bit, "joint measurement"))?;
                    }
                }
                QOp::Reset(t) => {
                    let t = at(*t);
                    self.used(&[t]);
                    __quantum__qis__reset__body(qp(t));
                    if let Some(m) = &mut self.model {
                        let mut next = vec![];
                        let mut pmin = 1.0_f64;
                        for c in m.m.cands.drain(..) {
                            let p1 = c.prob(&[t]);
                            for v in [false, true] {
                                let p = if v { p1 } else { 1.0 - p1 };
                                if p > 1e-9 {
                                    let mut n = c.clone();
                                    pmin = pmin.min(n.project(&[t], v));
                                    if v {
                                        n.apply1(&[], t, &refsim::gate(0));
                                    }
                                    next.push(n);
                                }
                            }
                        }
                        m.m.cands = next;
                        m.m.scale_tol(pmin);
                        m.m.st.collapses += 1;
                        if m.m.cands.len() > 4 && !m.m.dull {
                            let (s, n) = capture_quantum_state();
                            m.m.check_state(&s, n, "after a reset")?;
                        }
                    }
                    self.zero(t, "reset")?;
                }
                QOp::Read(r, rt) => {
                    let b = if *rt { __quantum__rt__read_result(qp(*r as usize)) } else { __quantum__qis__read_result__body(qp(*r as usize)) };
                    self.touched = true;
                    if let Some(m) = &self.model {
                        let want = m.res.get(r).copied().unwrap_or(false);
                        if b != want {
                            return Err(format!("reading result {r} gave {b}; last stored {:?}", m.res.get(r)));
                        }
                    }
                    self.trace.push(Obs::Bit(b));
                }
                QOp::Write(v, r) => {
                    __quantum__rt__write_result(*v, qp(*r as usize));
                    self.touched = true;
                    if let Some(m) = &mut self.model {
                        m.res.insert(*r, *v);
                    }
                }
                QOp::RecRes(r, tag) => {
                    if !self.touched {
                        // With nothing stored yet the pointer is taken for a returned result.
                        return Ok(());
                    }
                    let t = tag_ptr(tag);
                    let out = recorded(|| __quantum__rt__result_record_output(qp(*r as usize), t.as_ref().map_or(std::ptr::null_mut(), |t| t.as_ptr().cast_mut())));
                    if let Some(m) = &self.model {
                        let want = m.res.get(r).copied().unwrap_or(false);
                        let line = expect_line(want, &t);
                        if out != line {
                            return Err(format!("recording result {r} wrote {out:?}, expected {line:?}"));
                        }
                    }
                    self.trace.push(Obs::Out(out));
                }
                QOp::RecDyn(k, tag) => {
                    if self.touched || self.dyn_results.is_empty() {
                        return Ok(());
                    }
                    let v = self.dyn_results[*k as usize % self.dyn_results.len()];
                    let p = if v { __quantum__rt__result_get_one() } else { __quantum__rt__result_get_zero() };
                    let t = tag_ptr(tag);
                    let out = recorded(|| __quantum__rt__result_record_output(p, t.as_ref().map_or(std::ptr::null_mut(), |t| t.as_ptr().cast_mut())));
                    let line = expect_line(v, &t);
                    if out != line {
                        return Err(format!("recording a {v} result wrote {out:?}, expected {line:?}"));
                    }
                    let leg = recorded(|| legacy_output::__quantum__rt__result_record_output(p));
                    if leg != format!("RESULT\t{}\n", u8::from(v)) {
                        return Err(format!("recording a {v} result (legacy) wrote {leg:?}"));
                    }
                    self.trace.push(Obs::Out(out));
                }
                QOp::State => self.state("state")?,
                QOp::Dump => {
                    let out = recorded(|| __quantum__qis__dumpmachine__body(std::ptr::null_mut()));
                    let line = out.lines().find(|l| l.starts_with("STATE:")).ok_or_else(|| format!("dump printed {out:?}"))?;
                    let s = parse_dump(line)?;
                    let (t, n) = capture_quantum_state();
                    if s.len() != t.len() || s.iter().zip(&t).any(|(a, b)| a.0 != b.0 || (a.1 - b.1).norm() > 1e-12) {
                        return Err(format!("printed state {s:?} is not the captured state {t:?}"));
                    }
                    if let Some(m) = &mut self.model {
                        m.m.check_state(&s, n, "dump")?;
                        if !m.res.is_empty() {
                            let bits: Vec<bool> = out
                                .lines()
                                .find_map(|l| l.strip_prefix("Global Results:"))
                                .ok_or_else(|| format!("results are stored, but the dump is {out:?}"))?
                                .bytes()
                                .filter(|b| matches!(b, b'0' | b'1'))
                                .map(|b| b == b'1')
                                .collect();
                            for (r, v) in &m.res {
                                if bits.get(*r as usize) != Some(v) {
                                    return Err(format!("result {r} was stored as {v}; the dump lists {:?}", bits.get(*r as usize)));
                                }
                            }
                            if bits.iter().enumerate().any(|(i, b)| *b && !m.res.contains_key(&(i as u32))) {
                                return Err("the dump lists a result as 1 that was never stored".into());
                            }
                        }
                    }
                    self.trace.push(Obs::State(s, n));
                }
                QOp::IsZero(t) => {
                    let t = at(*t);
                    self.used(&[t]);
                    let z = qubit_is_zero(qp(t));
                    if let Some(m) = &self.model {
                        let p: Vec<f64> = m.m.cands.iter().map(|c| c.prob(&[t])).collect();
                        if z && p.iter().all(|p| *p > 1e-6) {
                            return Err(format!("qubit {t} reported zero, P(1) = {p:?}"));
                        }
                        if !z && p.iter().all(|p| *p < 1e-13) && m.m.tol < 1e-6 {
                            return Err(format!("qubit {t} reported not zero, P(1) = {p:?}"));
                        }
                        if p.iter().any(|p| (1e-13..=1e-6).contains(p)) {
                            return Ok(());
                        }
                    }
                    self.trace.push(Obs::Bit(z));
                }
            }
        }
        Ok(())
    }

    fn zero(&mut self, t: usize, what: &str) -> Result<(), String> {
        if !self.dull() && !qubit_is_zero(qp(t)) {
            return Err(format!("{what}: qubit {t} is not in |0> afterwards"));
        }
        Ok(())
    }

    fn allocated(&mut self, id: usize) -> Result<(), String> {
        let want = (0..).find(|i| !self.live.contains(i)).unwrap();
        // (Without a model the program may follow another that left qubits behind.)
        if id != want && self.model.is_some() {
            return Err(format!("allocation returned {id}, lowest free is {want} (allocated {:?})", self.live));
        }
        self.live.insert(id);
        if let Some(m) = &mut self.model {
            for c in &mut m.m.cands {
                c.live.insert(id);
            }
        }
        self.trace.push(Obs::Id(id));
        Ok(())
    }

    fn release_measured(&mut self, t: usize) -> Result<(), String> {
        let r = __quantum__qis__m__body(qp(t));
        let b = r == __quantum__rt__result_get_one();
        self.trace.push(Obs::Bit(b));
        self.outcome(t, b, "m before release")?;
        self.live.remove(&t);
        let last = self.live.is_empty();
        if let Some(m) = &mut self.model {
            if last {
                m.m.cands = vec![RefSim::new()];
                m.m.tol = 1e-9;
            } else {
                for c in &mut m.m.cands {
                    c.remove_definite(t, b);
                }
            }
        }
        Ok(())
    }

    fn stored(&mut self, t: usize, r: u32, what: &str) -> Result<(), String> {
        self.touched = true;
        let b = __quantum__rt__read_result(qp(r as usize));
        self.trace.push(Obs::Bit(b));
        if let Some(m) = &mut self.model {
            m.res.insert(r, b);
        }
        self.outcome(t, b, what)
    }

    fn dynamic(&mut self, r: *mut c_void) -> Result<bool, String> {
        let one = __quantum__rt__result_equal(r, __quantum__rt__result_get_one());
        let zero = __quantum__rt__result_equal(r, __quantum__rt__result_get_zero());
        if one == zero {
            return Err("a returned result equals both or neither of One and Zero".into());
        }
        __quantum__rt__result_update_reference_count(r, 1);
        __quantum__rt__result_update_reference_count(r, -1);
        let text = unsafe { rt_string(__quantum__rt__result_to_string(r)) };
        if text != if one { "One" } else { "Zero" } {
            return Err(format!("a {one} result prints as {text:?}"));
        }
        self.dyn_results.push(one);
        self.trace.push(Obs::Bit(one));
        Ok(one)
    }

    /// All stored results against the model.
    pub fn check_results(&self) -> Result<(), String> {
        if let Some(m) = &self.model {
            let mut ids: Vec<u32> = m.res.keys().copied().collect();
            for r in 0..12 {
                ids.push(r);
            }
            for k in m.res.keys() {
                ids.push(k.saturating_add(1));
            }
            for r in ids {
                let b = __quantum__rt__read_result(qp(r as usize));
                if b != m.res.get(&r).copied().unwrap_or(false) {
                    return Err(format!("result {r} reads {b}; last stored {:?}", m.res.get(&r)));
                }
            }
        }
        Ok(())
    }

    pub fn dispose(&mut self) {
        for (a, _) in self.arrays.drain(..) {
            unsafe {
                __quantum__rt__array_update_reference_count(a, -1);
            }
        }
    }
}

fn expect_line(v: bool, tag: &Option<CString>) -> String {
    match tag {
        Some(t) => format!("OUTPUT\tRESULT\t{}\t{}\n", u8::from(v), t.to_string_lossy()),
        None => format!("OUTPUT\tRESULT\t{}\n", u8::from(v)),
    }
}

/// Starts a shot: everything observable of the machine is reset.
pub fn initialize() {
    __quantum__rt__initialize(std::ptr::null_mut::<c_char>());
}

// ---------------------------------------------------------------- strategies

#[derive(Clone, Copy, Default)]
pub struct QW {
    pub gate: u32,
    pub rot: u32,
    pub ctl: u32,
    pub exp: u32,
    pub swap: u32,
    pub alloc: u32,
    pub meas: u32,
    pub joint: u32,
    pub reset: u32,
    pub store: u32,
    pub record: u32,
    pub look: u32,
}

fn tag() -> BoxedStrategy<Option<String>> {
    prop_oneof![2 => Just(None), 1 => "[a-z0-9 \\[\\]_]{0,8}".prop_map(Some)].boxed()
}

pub fn res_id() -> BoxedStrategy<u32> {
    prop_oneof![60 => 0_u32..6, 20 => 0_u32..70, 10 => 60_u32..300, 1 => prop_oneof![65_530_u32..65_545, 300_u32..70_000]].boxed()
}

/// Controls, or rarely stretches of padding qubits among them.
fn wpicks(max: usize) -> BoxedStrategy<Picks> {
    prop_oneof![
        6 => picks(max),
        1 => (picks(max), 200_u8..=255).prop_map(|(mut v, w)| {
            v.push(w);
            v
        }),
    ]
    .boxed()
}

pub fn qop(w: QW, pal: Vec<Fl>) -> BoxedStrategy<QOp> {
    let a = palette_angle(pal);
    let pz = |n: usize| prop::collection::vec(0_u8..4, 0..=n);
    let tg = |n: usize| {
        let few = prop::collection::vec(0_u8..12, n);
        prop_oneof![
            8 => few.clone(),
            1 => (few, 200_u8..=255).prop_map(|(mut v, w)| {
                v.push(w);
                v
            }),
        ]
    };
    // Strings longer than most. The register has few qubits, so only in larger programs they are that long.
    let long = || (crate::simops::long_string(), prop::collection::vec(0_u8..12, 10));
    let string = |n: usize| prop_oneof![12 => (pz(n), tg(n)), 1 => long()].boxed();
    let mut v: Vec<(u32, BoxedStrategy<QOp>)> = vec![
        (w.gate * 2, (0_u8..9, q()).prop_map(|(g, t)| QOp::One(g, t)).boxed()),
        (w.gate, (prop::sample::select(vec![0_u8, 0, 5, 6, 8]), q()).prop_map(|(g, t)| QOp::One(g, t)).boxed()),
        (w.rot * 2, (0_u8..3, a.clone(), q()).prop_map(|(x, a, t)| QOp::Rot(x, a, t)).boxed()),
        (w.gate * 2, (0_u8..4, q(), q()).prop_map(|(k, c, t)| QOp::C1(k, c, t)).boxed()),
        (w.gate, (q(), q(), q()).prop_map(|(a, b, t)| QOp::Ccx(a, b, t)).boxed()),
        (w.rot, (0_u8..3, a.clone(), q(), q()).prop_map(|(k, th, a, b)| QOp::Two(k, th, a, b)).boxed()),
        (w.rot, (0_u8..4, a.clone(), q(), any::<bool>()).prop_map(|(p, a, t, d)| QOp::R(p, a, t, d)).boxed()),
        (w.ctl * 2, (0_u8..8, wpicks(3), q()).prop_map(|(g, c, t)| QOp::Ctl(g, c, t)).boxed()),
        (w.ctl, (0_u8..3, a.clone(), wpicks(3), q()).prop_map(|(x, a, c, t)| QOp::RotCtl(x, a, c, t)).boxed()),
        (w.ctl, (0_u8..4, a.clone(), wpicks(3), q(), any::<bool>()).prop_map(|(p, a, c, t, d)| QOp::RCtl(p, a, c, t, d)).boxed()),
        (w.exp, (string(4), a.clone(), any::<bool>()).prop_map(|((p, t), a, d)| QOp::Exp(p, a, t, d)).boxed()),
        (w.exp, (string(3), a.clone(), wpicks(2), any::<bool>()).prop_map(|((p, t), a, c, d)| QOp::ExpCtl(p, a, t, c, d)).boxed()),
        (w.swap, (q(), q()).prop_map(|(a, b)| QOp::Swap(a, b)).boxed()),
        (w.swap, Just(QOp::Barrier).boxed()),
        (w.alloc * 2, Just(QOp::Alloc).boxed()),
        (w.alloc, any::<u8>().prop_map(QOp::AllocArray).boxed()),
        (w.alloc, q().prop_map(QOp::Release).boxed()),
        (w.alloc, any::<u8>().prop_map(QOp::ReleaseArray).boxed()),
        (w.alloc.min(1), (prop_oneof![20 => 1_u16..40, 2 => 40_u16..140, 1 => 140_u16..600], any::<u16>()).prop_map(|(n, x)| QOp::BigArray(n, x)).boxed()),
        (w.meas, (q(), res_id()).prop_map(|(t, r)| QOp::Mz(t, r)).boxed()),
        (w.meas, (q(), res_id()).prop_map(|(t, r)| QOp::MResetZ(t, r)).boxed()),
        (w.meas, q().prop_map(QOp::M).boxed()),
        (w.joint, string(4).prop_map(|(p, t)| QOp::Measure(p, t)).boxed()),
        (w.reset, q().prop_map(QOp::Reset).boxed()),
        (w.store * 2, (res_id(), any::<bool>()).prop_map(|(r, t)| QOp::Read(r, t)).boxed()),
        (w.store, (any::<bool>(), res_id()).prop_map(|(v, r)| QOp::Write(v, r)).boxed()),
        (w.record, (res_id(), tag()).prop_map(|(r, t)| QOp::RecRes(r, t)).boxed()),
        (w.record, (any::<u8>(), tag()).prop_map(|(k, t)| QOp::RecDyn(k, t)).boxed()),
        (w.look, Just(QOp::State).boxed()),
        (w.look, Just(QOp::Dump).boxed()),
        (w.look, q().prop_map(QOp::IsZero).boxed()),
    ];
    v.retain(|(w, _)| *w > 0);
    Union::new_weighted(v).boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct QCase {
    pub seed: u32,
    /// Some(n): static qubits 0..n. None: dynamic allocation.
    pub pool: Option<u8>,
    pub ops: Vec<QOp>,
    /// So many further qubits are there first.
    #[serde(default)]
    pub pad: u16,
}

pub fn qcase(w: QW, len: std::ops::Range<usize>) -> BoxedStrategy<QCase> {
    (palette(), any::<u32>(), prop_oneof![40 => (1_u8..=5).prop_map(Some), 1 => (6_u8..=8).prop_map(Some), 20 => Just(None)], pad16())
        .prop_flat_map(move |(pal, seed, pool, pad)| {
            let w = if pool.is_some() { QW { alloc: 0, ..w } } else { QW { alloc: w.alloc.max(1), ..w } };
            let pre = prop::collection::vec(qop(QW { rot: 4, gate: 2, ..QW::default() }, pal.clone()), 0..6);
            let allocs = if pool.is_some() { Just(0).boxed() } else { prop_oneof![20 => 0..=3, 1 => 5..=8].boxed() };
            (pre, prop::collection::vec(qop(w, pal), len.clone()), allocs).prop_map(move |(pre, ops, n)| {
                let mut v: Vec<QOp> = (0..n).map(|_| QOp::Alloc).collect();
                v.extend(pre);
                v.extend(ops);
                QCase { seed, pool, ops: v, pad }
            })
        })
        .boxed()
}

fn pad16() -> BoxedStrategy<u16> {
    prop_oneof![300 => Just(0_u16), 20 => 58_u16..=66, 10 => 1_u16..=58, 10 => 100_u16..=140, 1 => 240_u16..=300].boxed()
}
