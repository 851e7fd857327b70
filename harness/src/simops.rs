//! Abstract operations over a simulator, and a machine that performs them on the real simulator and
//! on the reference at the same time.

use crate::refsim::{self, Key, RefSim, C64, M2};
use ndarray::Array2;
use quantum_sparse_sim::{exp::Pauli, QuantumSim};
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use vdriver::proptest::prelude::*;
use vdriver::proptest::strategy::Union;
use vdriver::{Ctx, Fl};

pub type Picks = Vec<u8>;

/// Operands are picks: numbers reduced modulo the qubits that are live when the operation runs, so
/// that any sub-sequence of a history is again a valid history.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// 0..8 = X Y Z H S S' T T'
    G(u8, u8),
    /// axis X Y Z, angle, target
    R(u8, Fl, u8),
    /// gate, controls, target
    CG(u8, Picks, u8),
    CR(u8, Fl, Picks, u8),
    /// controlled phase
    Ph(Fl, Picks, u8),
    Swap(u8, u8),
    /// paulis (0=I 1=X 2=Y 3=Z), angle, targets (length of paulis), controls
    Exp(Picks, Fl, Picks, Picks),
    /// matrix kind and seed, targets, controls
    Mat(u8, u32, Picks, Picks),
    /// n repetitions of a short pattern
    Burst(u16, Picks, u8),
    /// kind, number and choice of padding qubits, angle, further controls, target: one operation that
    /// takes many padding qubits as operands (nothing without padding).
    Wide(u8, u8, u16, Fl, Picks, u8),
    Alloc,
    Release(u8),
    Measure(u8),
    JointMeasure(Picks),
    Force(bool, u8),
    Prob(Picks),
    IsZero(u8),
    State,
    Dump,
}


// ---------------------------------------------------------------- matrices

fn next(s: &mut u64) -> u64 {
    *s ^= *s << 13;
    *s ^= *s >> 7;
    *s ^= *s << 17;
    *s
}

fn unit(s: &mut u64) -> f64 {
    (next(s) >> 11) as f64 / (1_u64 << 53) as f64
}

fn gauss(s: &mut u64) -> f64 {
    let u = unit(s).max(1e-12);
    (-2.0 * u.ln()).sqrt() * (std::f64::consts::TAU * unit(s)).cos()
}

/// A unitary of dimension 2^n, by kind.
pub fn unitary(kind: u8, seed: u32, n: usize) -> Vec<Vec<C64>> {
    let d = 1 << n;
    let mut s = u64::from(seed) * 0x9e37_79b9 + 0x1234_5678_9abc_def1;
    for _ in 0..4 {
        next(&mut s);
    }
    let zero = C64::new(0., 0.);
    let mut m = vec![vec![zero; d]; d];
    match kind % 7 {
        // dense Haar-like
        0 | 1 => {
            for r in &mut m {
                for e in r.iter_mut() {
                    *e = C64::new(gauss(&mut s), gauss(&mut s));
                }
            }
            for i in 0..d {
                for _ in 0..2 {
                    for j in 0..i {
                        let ip: C64 = (0..d).map(|k| m[j][k].conj() * m[i][k]).sum();
                        for k in 0..d {
                            let x = m[j][k];
                            m[i][k] -= ip * x;
                        }
                    }
                    let nrm = (0..d).map(|k| m[i][k].norm_sqr()).sum::<f64>().sqrt();
                    for k in 0..d {
                        m[i][k] /= nrm;
                    }
                }
            }
        }
        // permutation
        2 => {
            let mut p: Vec<usize> = (0..d).collect();
            for i in (1..d).rev() {
                p.swap(i, (next(&mut s) % (i as u64 + 1)) as usize);
            }
            for (i, j) in p.into_iter().enumerate() {
                m[i][j] = C64::new(1., 0.);
            }
        }
        // diagonal phases
        3 => {
            for (i, r) in m.iter_mut().enumerate() {
                let a = f64::from((next(&mut s) % 16) as u32) * std::f64::consts::FRAC_PI_8;
                r[i] = C64::new(a.cos(), a.sin());
            }
        }
        // tensor product of one-qubit gates
        4 => {
            m = vec![vec![C64::new(1., 0.)]];
            for _ in 0..n {
                let g = match next(&mut s) % 3 {
                    0 => refsim::gate((next(&mut s) % 8) as u8),
                    1 => refsim::rot((next(&mut s) % 3) as u8, unit(&mut s) * 6.0 - 3.0),
                    _ => refsim::gate(3),
                };
                m = kron(&m, &g);
            }
        }
        // tensor product of gates whose superpositions interfere
        6 => {
            m = vec![vec![C64::new(1., 0.)]];
            for _ in 0..n {
                let g = refsim::gate([3, 3, 3, 0, 1, 2, 4][(next(&mut s) % 7) as usize]);
                m = kron(&m, &g);
            }
        }
        // two-level mixing on a permuted pair, identity elsewhere
        _ => {
            for (i, r) in m.iter_mut().enumerate() {
                r[i] = C64::new(1., 0.);
            }
            if d > 1 {
                let a = (next(&mut s) % d as u64) as usize;
                let b = (a + 1 + (next(&mut s) % (d as u64 - 1)) as usize) % d;
                let g = refsim::rot((next(&mut s) % 2) as u8, unit(&mut s) * 6.0);
                m[a][a] = g[0][0];
                m[a][b] = g[0][1];
                m[b][a] = g[1][0];
                m[b][b] = g[1][1];
            }
        }
    }
    m
}

fn kron(a: &[Vec<C64>], g: &M2) -> Vec<Vec<C64>> {
    let n = a.len();
    let mut o = vec![vec![C64::new(0., 0.); n * 2]; n * 2];
    for i in 0..n {
        for j in 0..n {
            for x in 0..2 {
                for y in 0..2 {
                    o[i * 2 + x][j * 2 + y] = a[i][j] * g[x][y];
                }
            }
        }
    }
    o
}

pub fn to_array(m: &[Vec<C64>]) -> Array2<C64> {
    Array2::from_shape_fn((m.len(), m.len()), |(i, j)| m[i][j])
}

// ---------------------------------------------------------------- picks

pub fn pick_one(live: &[usize], p: u8) -> usize {
    live[p as usize % live.len()]
}

/// Distinct elements for the picks, as far as there are any left.
pub fn pick_many(live: &[usize], picks: &[u8], taken: &[usize]) -> Vec<usize> {
    let mut rest: Vec<usize> = live.iter().copied().filter(|q| !taken.contains(q)).collect();
    let mut out = vec![];
    for p in picks {
        if rest.is_empty() {
            break;
        }
        let i = *p as usize % rest.len();
        out.push(rest.remove(i));
    }
    out
}

// ---------------------------------------------------------------- wide operations

/// An operation on named qubits.
#[derive(Clone, Debug)]
pub enum Prim {
    Gate(u8, Vec<usize>, usize),
    Rot(u8, f64, Vec<usize>, usize),
    Phase(f64, Vec<usize>, usize),
    Exp(Vec<usize>, Vec<u8>, f64, Vec<usize>),
    Mat(u8, u32, Vec<usize>, Vec<usize>),
    Swap(usize, usize),
    Prob(Vec<usize>),
    Joint(Vec<usize>),
    /// Release it and allocate it again.
    Renew(usize),
}

/// What a wide operation does. Padding qubits are in the basis state `pad_set` says, before and after.
pub fn wide_plan(pad: usize, seed: u32, live: &[usize], op: &Op) -> Vec<Prim> {
    let Op::Wide(kind, n, salt, th, cs, t) = op else { return vec![] };
    if pad == 0 {
        return vec![];
    }
    let n = if *n % 3 == 0 { pad } else { 1 + *n as usize % pad };
    let salt = *salt as usize;
    // A run of n padding qubits with wrap-around, possibly backwards.
    let mut ids: Vec<usize> = (0..n).map(|i| (salt / 2 + i) % pad).collect();
    if salt % 2 == 1 {
        ids.reverse();
    }
    let t = pick_one(live, *t);
    let more = pick_many(live, cs, &[t]);
    let mut ctls = ids.clone();
    for (i, c) in more.iter().enumerate() {
        ctls.insert((salt + i * 5) % (ctls.len() + 1), *c);
    }
    let zeros: Vec<usize> = ids.iter().copied().filter(|i| !pad_set(seed, *i)).collect();
    // Three times in four the controls are all set, otherwise at most a few are left out.
    let flips: &[usize] = if salt % 8 < 6 { &zeros } else { &zeros[..zeros.len() - zeros.len().min(salt % 3)] };
    let around = |mid: Vec<Prim>| {
        let f = || flips.iter().map(|i| Prim::Gate(0, vec![], *i));
        f().chain(mid).chain(f()).collect::<Vec<_>>()
    };
    match kind % 20 {
        g @ 0..=7 => around(vec![Prim::Gate(g, ctls, t)]),
        a @ 8..=10 => around(vec![Prim::Rot(a - 8, th.0, ctls, t)]),
        11 => around(vec![Prim::Phase(th.0, ctls, t)]),
        12 => {
            let mut targets = ctls;
            targets.insert(salt % (targets.len() + 1), t);
            let paulis = targets
                .iter()
                .map(|q| if *q < pad { [3_u8, 3, 0][(q + salt) % 3] } else { ((q + salt / 3) % 4) as u8 })
                .collect();
            around(vec![Prim::Exp(vec![], paulis, th.0, targets)])
        }
        13 => {
            let paulis = (0..=more.len()).map(|i| ((i + salt / 3) % 4) as u8).collect();
            let mut targets = more;
            targets.push(t);
            around(vec![Prim::Exp(ids, paulis, th.0, targets)])
        }
        14 => {
            let mut targets = more;
            targets.push(t);
            targets.truncate(3);
            // A matrix is stored dense with its controls, so their number is bounded by memory.
            ids.truncate(1 + salt % 4);
            around(vec![Prim::Mat((salt % 7) as u8, salt as u32, ids, targets)])
        }
        15 | 16 => {
            let mut all = ctls;
            all.push(t);
            around(vec![if kind % 20 == 15 { Prim::Prob(all) } else { Prim::Joint(all) }])
        }
        17 => {
            // Work on a qubit while it bears a padding qubit's name.
            let p = ids[0];
            let other = ids.get(1).copied().into_iter().collect();
            vec![
                Prim::Swap(p, t),
                Prim::Rot((salt % 3) as u8, th.0, more.clone(), p),
                Prim::Gate((salt % 4) as u8, other, p),
                Prim::Swap(t, p),
            ]
        }
        18 => ids
            .iter()
            .take(1 + salt % 3)
            .flat_map(|i| [Prim::Renew(*i)].into_iter().chain(pad_set(seed, *i).then_some(Prim::Gate(0, vec![], *i))))
            .collect(),
        // The pending state of many targets at once.
        _ => {
            let v: Vec<Prim> = ids.iter().take(40).map(|i| Prim::Gate((i % 3) as u8, vec![t], *i)).collect();
            let back = v.iter().rev().cloned();
            v.iter().cloned().chain([Prim::Gate(2, ids.clone(), t)]).chain(back).collect()
        }
    }
}

// ---------------------------------------------------------------- the machine

#[derive(Default, Debug, Clone)]
pub struct Stats {
    pub pending_max: usize,
    pub gates: usize,
    pub nonclassical: usize,
    pub controlled: usize,
    pub collapses: usize,
    pub releases: usize,
    pub reallocs: usize,
    pub swaps: usize,
    pub observations: usize,
    pub exps: usize,
    pub mats: usize,
    pub angles_pi: usize,
    pub entries_max: usize,
    pub branches: usize,
    pub wide: usize,
}

pub struct Machine {
    pub sim: QuantumSim,
    /// Possible reference states (more than one while an unobserved release was random).
    pub cands: Vec<RefSim>,
    pub tol: f64,
    /// The accumulated error bound is too large to judge further.
    pub dull: bool,
    pub st: Stats,
    pub max_qubits: usize,
    /// Ids below this are padding: qubits the history never names, which only make the register wide.
    pub pad: usize,
    pub pad_seed: u32,
}

impl Machine {
    pub fn new(seed: u64, max_qubits: usize) -> Self {
        let mut sim = QuantumSim::new(None);
        sim.set_rng_seed(seed);
        Machine {
            sim,
            cands: vec![RefSim::new()],
            tol: 1e-9,
            dull: false,
            st: Stats::default(),
            max_qubits,
            pad: 0,
            pad_seed: 0,
        }
    }

    /// The qubits histories act on.
    pub fn live(&self) -> Vec<usize> {
        self.cands[0].live.iter().copied().filter(|q| *q >= self.pad).collect()
    }

    pub fn live_all(&self) -> Vec<usize> {
        self.cands[0].live.iter().copied().collect()
    }

    /// Allocates a case's padding; some of it is set.
    pub fn do_pad(&mut self, pad: u8, seed: u32) -> Result<(), String> {
        for i in 0..usize::from(pad) {
            let got = self.sim.allocate();
            if got != i {
                return Err(format!("allocation {i} of a new register returned {got}"));
            }
            for c in &mut self.cands {
                c.allocate();
            }
            if pad_set(seed, i) {
                self.do_gate(0, &[], i);
            }
        }
        self.pad = usize::from(pad);
        self.pad_seed = seed;
        Ok(())
    }

    fn prim(&mut self, p: &Prim) -> Result<(), String> {
        match p {
            Prim::Gate(g, c, t) => self.do_gate(*g, c, *t),
            Prim::Rot(ax, th, c, t) => {
                match (ax, c.is_empty()) {
                    (0, true) => self.sim.rx(*th, *t),
                    (1, true) => self.sim.ry(*th, *t),
                    (_, true) => self.sim.rz(*th, *t),
                    (0, _) => self.sim.mcrx(c, *th, *t),
                    (1, _) => self.sim.mcry(c, *th, *t),
                    (_, _) => self.sim.mcrz(c, *th, *t),
                }
                let m = refsim::rot(*ax, *th);
                self.each(|r| r.apply1(c, *t, &m));
            }
            Prim::Phase(th, c, t) => {
                let m = refsim::phase(*th);
                self.sim.mcphase(c, m[1][1], *t);
                self.each(|r| r.apply1(c, *t, &m));
            }
            Prim::Exp(c, ps, th, ts) => {
                let real = real_paulis(ps);
                if c.is_empty() {
                    self.sim.exp(&real, *th, ts);
                } else {
                    self.sim.mcexp(c, &real, *th, ts);
                }
                self.st.exps += 1;
                self.each(|r| r.exp(c, ps, *th, ts));
            }
            Prim::Mat(kind, seed, c, ts) => {
                let u = unitary(*kind, *seed, ts.len());
                self.sim.apply(&to_array(&u), ts, Some(c));
                self.st.mats += 1;
                self.each(|r| r.matrix(c, ts, &u));
            }
            Prim::Swap(a, b) => {
                self.sim.swap_qubit_ids(*a, *b);
                self.each(|r| r.swap(*a, *b));
            }
            Prim::Prob(ids) => {
                let p = self.sim.joint_probability(ids);
                self.st.observations += 1;
                self.check_prob(ids, p, "joint probability")?;
            }
            Prim::Joint(ids) => {
                let res = self.sim.joint_measure(ids);
                self.take_outcome(ids, res, "joint measurement")?;
            }
            Prim::Renew(id) => {
                self.sim.release(*id);
                let got = self.sim.allocate();
                if got != *id {
                    return Err(format!("allocation returned {got}, the lowest free identifier is {id}"));
                }
                let set = pad_set(self.pad_seed, *id);
                for c in &mut self.cands {
                    c.remove_definite(*id, set);
                    c.allocate();
                }
            }
        }
        Ok(())
    }

    pub fn bump(&mut self) {
        let e = self.cands.iter().map(|c| c.amps.len()).max().unwrap_or(1);
        self.st.entries_max = self.st.entries_max.max(e);
        self.tol += 4e-10 * (e as f64).sqrt() + 2e-10;
    }

    pub fn scale_tol(&mut self, p: f64) {
        self.tol = 2.0 * self.tol / p.sqrt();
        if self.tol > 1e-4 {
            self.dull = true;
        }
    }

    /// Compares the simulator's full state with the reference.
    pub fn compare(&mut self, when: &str) -> Result<(), String> {
        let (state, n) = self.sim.get_state();
        self.check_state(&state, n, when)
    }

    pub fn check_state(
        &mut self,
        state: &[(num_bigint::BigUint, C64)],
        n: usize,
        when: &str,
    ) -> Result<(), String> {
        let live = self.live_all();
        if n != live.len() {
            return Err(format!(
                "{when}: state reports {n} qubits, {} are allocated",
                live.len()
            ));
        }
        for w in state.windows(2) {
            if w[0].0 >= w[1].0 {
                return Err(format!(
                    "{when}: state is not strictly sorted: {} then {}",
                    w[0].0, w[1].0
                ));
            }
        }
        if let Some((k, _)) = state.last() {
            if k.bits() > n as u64 {
                return Err(format!("{when}: index {k} out of range for {n} qubits"));
            }
        }
        let got = refsim::to_map(state);
        let norm = got.values().map(|v| v.norm_sqr()).sum::<f64>();
        if !((norm - 1.0).abs() <= 4.0 * self.tol) {
            return Err(format!("{when}: squared norm is {norm}"));
        }
        let mut best: Option<(f64, HashMap<Key, C64>)> = None;
        let tol = self.tol;
        let mut keep = vec![];
        for c in &self.cands {
            let r = c.ranked();
            let d = refsim::distance(&r, &got);
            keep.push(d <= tol);
            if best.as_ref().is_none_or(|b| d < b.0) {
                best = Some((d, r));
            }
        }
        let (d, r) = best.unwrap();
        if d > tol {
            return Err(format!(
                "{when}: state differs from the ideal one by {d:.3e} (tolerance {tol:.1e})\n ideal {}\n got   {}",
                refsim::render(&r),
                refsim::render(&got)
            ));
        }
        let mut it = keep.iter();
        self.cands.retain(|_| *it.next().unwrap());
        Ok(())
    }

    pub fn check_prob(&mut self, ids: &[usize], p: f64, what: &str) -> Result<(), String> {
        let tol = 4.0 * self.tol;
        let exp: Vec<f64> = self.cands.iter().map(|c| c.prob(ids)).collect();
        if !exp.iter().any(|e| (e - p).abs() <= tol) {
            return Err(format!(
                "{what} of {ids:?} is {p}, ideal {exp:?} (tolerance {tol:.1e})"
            ));
        }
        let mut it = exp.iter();
        self.cands.retain(|_| (it.next().unwrap() - p).abs() <= tol);
        Ok(())
    }

    pub fn take_outcome(&mut self, ids: &[usize], res: bool, what: &str) -> Result<(), String> {
        let thr = (4.0 * self.tol * self.tol).max(1e-9);
        let p1: Vec<f64> = self.cands.iter().map(|c| c.prob(ids)).collect();
        let ps: Vec<f64> = p1.iter().map(|p| if res { *p } else { 1.0 - *p }).collect();
        if !ps.iter().any(|p| *p > thr) {
            return Err(format!(
                "{what} of {ids:?} returned {res}, which has ideal probability {ps:?}"
            ));
        }
        let mut it = ps.iter();
        self.cands.retain(|_| *it.next().unwrap() > thr);
        let mut pmin = 1.0_f64;
        for c in &mut self.cands {
            pmin = pmin.min(c.project(ids, res));
        }
        self.scale_tol(pmin.max(1e-12));
        self.st.collapses += 1;
        Ok(())
    }

    pub fn each(&mut self, f: impl Fn(&mut RefSim)) {
        for c in &mut self.cands {
            f(c);
        }
        self.st.gates += 1;
        self.bump();
    }

    fn gate(&mut self, g: u8, ctls: &[usize], t: usize) {
        let s = &mut self.sim;
        match (g, ctls.is_empty()) {
            (0, true) => s.x(t),
            (1, true) => s.y(t),
            (2, true) => s.z(t),
            (3, true) => s.h(t),
            (4, true) => s.s(t),
            (5, true) => s.sadj(t),
            (6, true) => s.t(t),
            (7, true) => s.tadj(t),
            (0, _) => s.mcx(ctls, t),
            (1, _) => s.mcy(ctls, t),
            (2, _) => s.mcz(ctls, t),
            (3, _) => s.mch(ctls, t),
            (4, _) => s.mcs(ctls, t),
            (5, _) => s.mcsadj(ctls, t),
            (6, _) => s.mct(ctls, t),
            (7, _) => s.mctadj(ctls, t),
            _ => unreachable!(),
        }
    }

    pub fn do_gate(&mut self, g: u8, ctls: &[usize], t: usize) {
        self.gate(g, ctls, t);
        let m = refsim::gate(g);
        self.each(|c| c.apply1(ctls, t, &m));
    }

    /// The multi-controlled form of the interface even when there is no control.
    pub fn do_gate_ctl_form(&mut self, g: u8, ctls: &[usize], t: usize) {
        let s = &mut self.sim;
        match g {
            0 => s.mcx(ctls, t),
            1 => s.mcy(ctls, t),
            2 => s.mcz(ctls, t),
            3 => s.mch(ctls, t),
            4 => s.mcs(ctls, t),
            5 => s.mcsadj(ctls, t),
            6 => s.mct(ctls, t),
            7 => s.mctadj(ctls, t),
            _ => unreachable!(),
        }
        let m = refsim::gate(g);
        self.each(|c| c.apply1(ctls, t, &m));
    }

    /// Performs one operation; `Err` when something observable is wrong.
    #[allow(clippy::too_many_lines)]
    pub fn step(&mut self, op: &Op) -> Result<(), String> {
        let live = self.live();
        if live.is_empty() && !matches!(op, Op::Alloc | Op::State | Op::Dump) {
            return Ok(());
        }
        match op {
            Op::G(g, q) => {
                let t = pick_one(&live, *q);
                self.st.nonclassical += usize::from(*g == 3);
                self.do_gate(*g, &[], t);
            }
            Op::CG(g, cs, q) => {
                let t = pick_one(&live, *q);
                let ctls = pick_many(&live, cs, &[t]);
                self.st.controlled += usize::from(!ctls.is_empty());
                self.st.nonclassical += usize::from(*g == 3);
                self.do_gate_ctl_form(*g, &ctls, t);
            }
            Op::R(ax, th, q) => {
                let t = pick_one(&live, *q);
                self.note_angle(th.0);
                self.st.nonclassical += usize::from(*ax < 2);
                match ax {
                    0 => self.sim.rx(th.0, t),
                    1 => self.sim.ry(th.0, t),
                    _ => self.sim.rz(th.0, t),
                }
                let m = refsim::rot(*ax, th.0);
                self.each(|c| c.apply1(&[], t, &m));
            }
            Op::CR(ax, th, cs, q) => {
                let t = pick_one(&live, *q);
                let ctls = pick_many(&live, cs, &[t]);
                self.note_angle(th.0);
                self.st.controlled += usize::from(!ctls.is_empty());
                self.st.nonclassical += usize::from(*ax < 2);
                match ax {
                    0 => self.sim.mcrx(&ctls, th.0, t),
                    1 => self.sim.mcry(&ctls, th.0, t),
                    _ => self.sim.mcrz(&ctls, th.0, t),
                }
                let m = refsim::rot(*ax, th.0);
                self.each(|c| c.apply1(&ctls, t, &m));
            }
            Op::Ph(th, cs, q) => {
                let t = pick_one(&live, *q);
                let ctls = pick_many(&live, cs, &[t]);
                let m = refsim::phase(th.0);
                self.st.controlled += usize::from(!ctls.is_empty());
                self.sim.mcphase(&ctls, m[1][1], t);
                self.each(|c| c.apply1(&ctls, t, &m));
            }
            Op::Swap(a, b) => {
                let (a, b) = (pick_one(&live, *a), pick_one(&live, *b));
                self.sim.swap_qubit_ids(a, b);
                self.st.swaps += usize::from(a != b);
                self.each(|c| c.swap(a, b));
            }
            Op::Exp(ps, th, ts, cs) => {
                let targets = pick_many(&live, &ts[..ts.len().min(ps.len())], &[]);
                let paulis: Vec<u8> = ps[..targets.len()].iter().map(|p| p % 4).collect();
                let ctls = pick_many(&live, cs, &targets);
                self.st.exps += 1;
                self.st.controlled += usize::from(!ctls.is_empty());
                self.note_angle(th.0 * 2.0);
                let real: Vec<Pauli> = paulis
                    .iter()
                    .map(|p| match p {
                        0 => Pauli::I,
                        1 => Pauli::X,
                        2 => Pauli::Y,
                        _ => Pauli::Z,
                    })
                    .collect();
                if ctls.is_empty() && cs.is_empty() {
                    self.sim.exp(&real, th.0, &targets);
                } else {
                    self.sim.mcexp(&ctls, &real, th.0, &targets);
                }
                self.each(|c| c.exp(&ctls, &paulis, th.0, &targets));
            }
            Op::Mat(kind, seed, ts, cs) => {
                let targets = pick_many(&live, ts, &[]);
                let ctls = pick_many(&live, cs, &targets);
                let u = unitary(*kind, *seed, targets.len());
                self.st.mats += 1;
                self.st.controlled += usize::from(!ctls.is_empty());
                let a = to_array(&u);
                if cs.is_empty() {
                    self.sim.apply(&a, &targets, None);
                } else {
                    self.sim.apply(&a, &targets, Some(&ctls));
                }
                self.each(|c| c.matrix(&ctls, &targets, &u));
            }
            Op::Burst(n, pat, q) => {
                if pat.is_empty() {
                    return Ok(());
                }
                let t = pick_one(&live, *q);
                // Deferred operations only: they are what the queue holds.
                let ms: Vec<M2> = [0_u8, 1, 2, 4, 5, 6, 7].iter().map(|g| refsim::gate(*g)).collect();
                let rz = refsim::rot(2, 0.1);
                let mut seq = vec![];
                for i in 0..*n as usize {
                    let p = pat[i % pat.len()] as usize % 10;
                    let ctl = live
                        .iter()
                        .copied()
                        .find(|c| *c != t)
                        .filter(|_| p == 8 || p == 9);
                    match p {
                        0..=6 => {
                            let g = [0_u8, 1, 2, 4, 5, 6, 7][p];
                            self.gate(g, &[], t);
                            seq.push((p, None));
                        }
                        7 => {
                            self.sim.rz(0.1, t);
                            seq.push((7, None));
                        }
                        8 => {
                            let cs: Vec<usize> = ctl.into_iter().collect();
                            self.sim.mcx(&cs, t);
                            seq.push((0, ctl));
                        }
                        _ => {
                            let cs: Vec<usize> = ctl.into_iter().collect();
                            self.sim.mcs(&cs, t);
                            seq.push((3, ctl));
                        }
                    }
                }
                for c in &mut self.cands {
                    for (i, ctl) in &seq {
                        let cs: Vec<usize> = ctl.iter().copied().collect();
                        let m = if *i == 7 { &rz } else { &ms[*i] };
                        c.apply1(&cs, t, m);
                    }
                }
                self.st.gates += seq.len();
                self.st.pending_max = self.st.pending_max.max(seq.len());
                self.bump();
            }
            Op::Wide(..) => {
                let plan = wide_plan(self.pad, self.pad_seed, &live, op);
                self.st.wide += usize::from(!plan.is_empty());
                for p in &plan {
                    self.prim(p)?;
                }
            }
            Op::Alloc => {
                if live.len() >= self.max_qubits {
                    return Ok(());
                }
                let exp = self.cands[0].lowest_free();
                let got = self.sim.allocate();
                if got != exp {
                    return Err(format!(
                        "allocation returned id {got}; lowest free id is {exp} (allocated: {live:?})"
                    ));
                }
                for c in &mut self.cands {
                    c.allocate();
                }
                if live.last().is_some_and(|l| *l > exp) {
                    self.st.reallocs += 1;
                }
            }
            Op::Release(q) => {
                let id = pick_one(&live, *q);
                self.sim.release(id);
                self.st.releases += 1;
                if live.len() == 1 && self.pad == 0 {
                    self.cands = vec![RefSim::new()];
                    self.tol = 1e-9;
                    return Ok(());
                }
                let mut next = vec![];
                let mut pmin = 1.0_f64;
                for c in self.cands.drain(..) {
                    let p1 = c.prob(&[id]);
                    for v in [false, true] {
                        let p = if v { p1 } else { 1.0 - p1 };
                        if p > 1e-9 {
                            let mut n = c.clone();
                            pmin = pmin.min(n.project(&[id], v));
                            n.remove_definite(id, v);
                            next.push(n);
                        }
                    }
                }
                self.cands = next;
                self.scale_tol(pmin);
                if self.cands.len() > 1 {
                    self.st.branches += 1;
                }
                if self.cands.len() > 4 && !self.dull {
                    self.compare("after a release")?;
                }
            }
            Op::Measure(q) => {
                let id = pick_one(&live, *q);
                let res = self.sim.measure(id);
                self.take_outcome(&[id], res, "measurement")?;
                let again = self.sim.measure(id);
                if again != res && !self.dull {
                    return Err(format!("measuring {id} twice gave {res} then {again}"));
                }
            }
            Op::JointMeasure(ps) => {
                let ids = pick_many(&live, ps, &[]);
                let res = self.sim.joint_measure(&ids);
                self.take_outcome(&ids, res, "joint measurement")?;
            }
            Op::Force(v, q) => {
                let id = pick_one(&live, *q);
                let p1: Vec<f64> = self.cands.iter().map(|c| c.prob(&[id])).collect();
                let ps: Vec<f64> = p1.iter().map(|p| if *v { *p } else { 1.0 - p }).collect();
                // Only probabilities that are clearly zero or clearly not.
                if ps.iter().any(|p| *p > 1e-12 && *p < 1e-5) || self.cands.len() > 1 {
                    return Ok(());
                }
                let got = self.sim.force_collapse(*v, id);
                let tol = 4.0 * self.tol;
                if (got - ps[0]).abs() > tol {
                    return Err(format!(
                        "forcing {id} to {v} reported probability {got}, ideal {}",
                        ps[0]
                    ));
                }
                if ps[0] >= 1e-5 {
                    let p = self.cands[0].project(&[id], *v);
                    self.scale_tol(p);
                    self.st.collapses += 1;
                }
            }
            Op::Prob(ps) => {
                let ids = pick_many(&live, ps, &[]);
                let p = self.sim.joint_probability(&ids);
                self.st.observations += 1;
                self.check_prob(&ids, p, "joint probability")?;
            }
            Op::IsZero(q) => {
                let id = pick_one(&live, *q);
                let ps: Vec<f64> = self.cands.iter().map(|c| c.prob(&[id])).collect();
                let z = self.sim.qubit_is_zero(id);
                self.st.observations += 1;
                if ps.iter().all(|p| *p > 1e-6) && z && !self.dull {
                    return Err(format!("qubit {id} reported zero; P(1) is {ps:?}"));
                }
                if ps.iter().all(|p| *p < 1e-13) && !z && self.tol < 1e-6 {
                    return Err(format!("qubit {id} reported not zero; P(1) is {ps:?}"));
                }
            }
            Op::State => {
                self.st.observations += 1;
                self.compare("get_state")?;
            }
            Op::Dump => {
                self.st.observations += 1;
                let d = self.sim.dump();
                let parsed = parse_dump(&d)?;
                let n = self.live_all().len();
                self.check_state(&parsed, n, "dump")?;
            }
        }
        Ok(())
    }

    pub fn note_angle(&mut self, th: f64) {
        let k = th / std::f64::consts::PI;
        if (k - k.round()).abs() < 1e-8 && k.round() != 0.0 {
            self.st.angles_pi += 1;
        }
    }

    pub fn run(&mut self, ops: &[Op]) -> Result<(), String> {
        for (i, op) in ops.iter().enumerate() {
            if self.dull {
                break;
            }
            self.step(op).map_err(|m| format!("at op {i} {op:?}: {m}"))?;
        }
        Ok(())
    }

    pub fn labels(&self, ctx: &mut Ctx) {
        let s = &self.st;
        ctx.label_if(s.pending_max >= 10_000, "queue_limit_crossed");
        ctx.label_if(s.controlled > 0, "controlled");
        ctx.label_if(s.angles_pi > 0, "angle_multiple_of_pi");
        ctx.label_if(s.collapses > 0, "collapse");
        ctx.label_if(s.releases > 0, "release");
        ctx.label_if(s.branches > 0, "random_release");
        ctx.label_if(s.reallocs > 0, "alloc_in_the_middle");
        ctx.label_if(s.swaps > 0, "swap");
        ctx.label_if(s.exps > 0, "exp");
        ctx.label_if(s.mats > 0, "matrix");
        ctx.label_if(s.observations > 0, "observed_midway");
        ctx.label_if(s.entries_max >= 16, "entries>=16");
        ctx.label_if(s.wide > 0, "wide_operation");
        ctx.label_if(self.pad >= 50, "register_wider_than_a_word");
        ctx.label_if(self.dull, "stopped_by_error_bound");
    }
}

/// Parses the printed state: `STATE: [ |k⟩: re+imi, ... ]`.
pub fn parse_dump(d: &str) -> Result<Vec<(num_bigint::BigUint, C64)>, String> {
    let body = d
        .trim_end_matches(['\r', '\n'])
        .strip_prefix("STATE: [ ")
        .and_then(|s| s.strip_suffix(']'))
        .ok_or_else(|| format!("dump is not in the printed form: {d:?}"))?;
    let mut out = vec![];
    for item in body.split(", ") {
        if item.is_empty() {
            continue;
        }
        let (k, v) = item
            .strip_prefix('|')
            .and_then(|s| s.split_once("\u{27e9}: "))
            .ok_or_else(|| format!("bad dump item {item:?}"))?;
        let key: num_bigint::BigUint = k.parse().map_err(|e| format!("bad key {k}: {e}"))?;
        out.push((key, parse_complex(v)?));
    }
    Ok(out)
}

fn parse_complex(v: &str) -> Result<C64, String> {
    let bad = || format!("bad amplitude {v:?}");
    let s = v.strip_suffix('i').ok_or_else(bad)?;
    // The sign that separates the parts: the last + or - that is not first and not an exponent's.
    let b = s.as_bytes();
    let cut = (1..b.len())
        .rev()
        .find(|i| (b[*i] == b'+' || b[*i] == b'-') && b[i - 1] != b'e' && b[i - 1] != b'E')
        .ok_or_else(bad)?;
    Ok(C64::new(
        // num-complex prints a negative zero imaginary part as "+-0".
        s[..cut].trim_end_matches('+').parse().map_err(|_| bad())?,
        s[cut..].parse().map_err(|_| bad())?,
    ))
}

// ---------------------------------------------------------------- strategies

pub fn angle() -> BoxedStrategy<Fl> {
    use std::f64::consts::PI;
    prop_oneof![
        6 => (-16_i32..=16).prop_map(|k| f64::from(k) * PI / 4.0),
        3 => (-8_i32..=8).prop_map(|k| f64::from(k) * PI),
        2 => (-64_i32..=64).prop_map(|k| f64::from(k) * PI / 8.0),
        2 => (-8_i32..=8, prop::sample::select(vec![1e-9, -1e-9, 3e-10, 1e-10, -1e-11, 1e-12, 1e-7, 1e-6, -1e-5]))
            .prop_map(|(k, d)| f64::from(k) * PI / 2.0 + d),
        6 => -7.0..7.0_f64,
        1 => -1e4..1e4_f64,
        1 => prop::sample::select(vec![0.0, 1e-300, 1e-12, -1e-11, 2e-10, 1e-9, -1e-6, 1e-3]),
    ]
    .prop_map(Fl)
    .boxed()
}

pub fn palette() -> impl Strategy<Value = Vec<Fl>> {
    prop::collection::vec(angle(), 3)
}

/// Angles are drawn from a small palette (with sign), so that merged rotations cancel often.
pub fn palette_angle(pal: Vec<Fl>) -> BoxedStrategy<Fl> {
    let n = pal.len();
    (0..n, any::<bool>())
        .prop_map(move |(i, neg)| if neg { Fl(-pal[i].0) } else { pal[i] })
        .boxed()
}

pub fn picks(max: usize) -> BoxedStrategy<Picks> {
    prop::collection::vec(0_u8..12, 0..=max).boxed()
}

pub fn q() -> BoxedStrategy<u8> {
    (0_u8..12).boxed()
}

/// Weights of the operation kinds.
#[derive(Clone, Copy, Default)]
pub struct W {
    pub gate: u32,
    pub rot: u32,
    pub cgate: u32,
    pub crot: u32,
    pub phase: u32,
    pub swap: u32,
    pub exp: u32,
    pub mat: u32,
    pub burst: u32,
    pub wide: u32,
    pub alloc: u32,
    pub release: u32,
    pub measure: u32,
    pub joint: u32,
    pub force: u32,
    pub prob: u32,
    pub zero: u32,
    pub state: u32,
    pub dump: u32,
}

/// Pauli strings that are longer than most, often with many of the same Pauli (mostly Y).
pub fn long_string() -> BoxedStrategy<Vec<u8>> {
    let p = |x: u32, y: u32, z: u32| {
        prop_oneof![1 => Just(0_u8), x => Just(1_u8), y => Just(2_u8), z => Just(3_u8)].boxed()
    };
    prop_oneof![
        2 => prop::collection::vec(p(1, 10, 1), 5..=10),
        1 => prop::collection::vec(p(10, 1, 1), 5..=10),
        1 => prop::collection::vec(p(3, 3, 3), 5..=10),
    ]
    .boxed()
}

pub fn op(w: W, pal: Vec<Fl>) -> BoxedStrategy<Op> {
    let pal2 = pal.clone();
    let a = palette_angle(pal);
    let mut v: Vec<(u32, BoxedStrategy<Op>)> = vec![
        (w.gate, (0_u8..8, q()).prop_map(|(g, q)| Op::G(g, q)).boxed()),
        // H, X, Y, Z interact with pending rotations most.
        (
            w.gate,
            (prop::sample::select(vec![0_u8, 1, 2, 3, 3]), q())
                .prop_map(|(g, q)| Op::G(g, q))
                .boxed(),
        ),
        (
            w.rot,
            (prop::sample::select(vec![0_u8, 0, 1, 1, 2]), a.clone(), q())
                .prop_map(|(x, a, q)| Op::R(x, a, q))
                .boxed(),
        ),
        (
            w.cgate,
            (prop::sample::select(vec![0_u8, 0, 1, 2, 2, 3, 4, 5, 6, 7]), picks(5), q())
                .prop_map(|(g, c, q)| Op::CG(g, c, q))
                .boxed(),
        ),
        (
            w.cgate,
            (0_u8..3, prop::collection::vec(0_u8..12, 1..=1), q())
                .prop_map(|(g, c, q)| Op::CG(g, c, q))
                .boxed(),
        ),
        (
            w.crot,
            (0_u8..3, a.clone(), picks(3), q())
                .prop_map(|(x, a, c, q)| Op::CR(x, a, c, q))
                .boxed(),
        ),
        (
            w.phase,
            (a.clone(), picks(3), q()).prop_map(|(a, c, q)| Op::Ph(a, c, q)).boxed(),
        ),
        (w.swap, (q(), q()).prop_map(|(a, b)| Op::Swap(a, b)).boxed()),
        (
            w.exp,
            (
                prop_oneof![
                    9 => (prop::collection::vec(0_u8..4, 0..=4), prop::collection::vec(0_u8..12, 4)),
                    1 => (long_string(), prop::collection::vec(0_u8..12, 10)),
                ],
                a.clone(),
                picks(2),
            )
                .prop_map(|((p, t), a, c)| Op::Exp(p, a, t, c))
                .boxed(),
        ),
        (
            w.mat,
            (0_u8..7, any::<u16>(), prop_oneof![12 => prop::collection::vec(0_u8..12, 0..=3), 1 => prop::collection::vec(0_u8..12, 4..=5)], picks(2))
                .prop_map(|(k, s, t, c)| Op::Mat(k, u32::from(s), t, c))
                .boxed(),
        ),
        (
            w.burst,
            (
                prop_oneof![4 => 1_u16..40, 1 => 9_990_u16..10_050, 1 => Just(10_000_u16), 1 => Just(10_001_u16), 1 => Just(20_003_u16)],
                prop::collection::vec(0_u8..10, 1..5),
                q(),
            )
                .prop_map(|(n, p, q)| Op::Burst(n, p, q))
                .boxed(),
        ),
        (
            w.wide,
            (0_u8..20, any::<u8>(), any::<u16>(), palette_angle(pal2), picks(2), q())
                .prop_map(|(k, n, s, a, c, t)| Op::Wide(k, n, s, a, c, t))
                .boxed(),
        ),
        (w.alloc, Just(Op::Alloc).boxed()),
        (w.release, q().prop_map(Op::Release).boxed()),
        (w.measure, q().prop_map(Op::Measure).boxed()),
        (w.joint, picks(4).prop_map(Op::JointMeasure).boxed()),
        (w.force, (any::<bool>(), q()).prop_map(|(v, q)| Op::Force(v, q)).boxed()),
        (w.prob, picks(4).prop_map(Op::Prob).boxed()),
        (w.zero, q().prop_map(Op::IsZero).boxed()),
        (w.state, Just(Op::State).boxed()),
        (w.dump, Just(Op::Dump).boxed()),
    ];
    v.retain(|(w, _)| *w > 0);
    Union::new_weighted(v).boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SimCase {
    pub seed: u32,
    pub qubits: u8,
    /// How the register is prepared: 0 = |0..0>, 1 = generic product state, 2 = generic entangled.
    pub prep: u8,
    /// Whether the preparation is observed (and so nothing is pending) before the history starts.
    pub settle: bool,
    pub ops: Vec<Op>,
    /// Qubits allocated before the others and never used, which put the others at high positions.
    #[serde(default)]
    pub pad: u8,
}

/// Whether padding qubit `i` is put in |1>.
pub fn pad_set(seed: u32, i: usize) -> bool {
    seed % 3 == 0 && (seed as usize / 3 + i * i) % 7 < 3
}

pub fn pad() -> BoxedStrategy<u8> {
    prop_oneof![
        30 => Just(0_u8),
        2 => 58_u8..=66,
        1 => 1_u8..=58,
        1 => 100_u8..=140,
    ]
    .boxed()
}

/// The operation that undoes this one, if it is unitary and has a simple inverse.
fn undo(op: &Op) -> Option<Op> {
    Some(match op.clone() {
        Op::G(g, t) => Op::G([0, 1, 2, 3, 5, 4, 7, 6][g as usize % 8], t),
        Op::CG(g, c, t) => Op::CG([0, 1, 2, 3, 5, 4, 7, 6][g as usize % 8], c, t),
        Op::R(x, a, t) => Op::R(x, Fl(-a.0), t),
        Op::CR(x, a, c, t) => Op::CR(x, Fl(-a.0), c, t),
        Op::Ph(a, c, t) => Op::Ph(Fl(-a.0), c, t),
        Op::Swap(a, b) => Op::Swap(a, b),
        Op::Exp(p, a, t, c) => Op::Exp(p, Fl(-a.0), t, c),
        _ => return None,
    })
}

/// Undoes up to `len` of the operations before a position right there, possibly observing in between
/// and afterwards, so that qubits return to |0>, superpositions dissolve and queued operations cancel.
fn echo(w: W, ops: &mut Vec<Op>, at: u8, len: u8, obs: u8, pick: u8) {
    let at = ops.len() - at as usize * ops.len() / 256;
    let back: Vec<Op> = ops[..at].iter().rev().take(len as usize).map_while(undo).collect();
    let look = |k: u8| match k % 4 {
        1 if w.state > 0 => Some(Op::State),
        2 if w.zero > 0 => Some(Op::IsZero(pick)),
        3 if w.prob > 0 => Some(Op::Prob(vec![pick])),
        _ => None,
    };
    let new: Vec<Op> = look(obs).into_iter().chain(back).chain(look(obs / 4)).collect();
    ops.splice(at..at, new);
}

pub fn case_strategy(
    w: W,
    qubits: std::ops::RangeInclusive<u8>,
    ops: std::ops::Range<usize>,
) -> BoxedStrategy<SimCase> {
    let mirror = prop::option::weighted(0.3, (any::<u8>(), 1_u8..8, 0_u8..16, q()));
    (palette(), any::<u32>(), qubits, 0_u8..3, any::<bool>(), pad(), mirror)
        .prop_flat_map(move |(pal, seed, qubits, prep, settle, pad, mirror)| {
            prop::collection::vec(op(w, pal), ops.clone()).prop_map(move |mut ops| {
                if let Some((at, len, obs, pick)) = mirror {
                    echo(w, &mut ops, at, len, obs, pick);
                }
                SimCase { seed, qubits, prep, settle, ops, pad }
            })
        })
        .boxed()
}

/// Allocates and prepares the register of a case.
pub fn prepared(c: &SimCase, max_qubits: usize) -> Result<Machine, String> {
    let mut m = Machine::new(u64::from(c.seed), max_qubits);
    m.do_pad(c.pad, c.seed)?;
    for _ in 0..c.qubits {
        m.step(&Op::Alloc)?;
    }
    for op in prep_ops(c.prep, c.qubits) {
        m.step(&op)?;
    }
    if c.settle {
        m.step(&Op::State)?;
    }
    Ok(m)
}

pub fn prep_ops(prep: u8, n: u8) -> Vec<Op> {
    let mut v = vec![];
    if prep > 0 {
        for q in 0..n {
            v.push(Op::R(1, Fl(0.7 + 0.31 * f64::from(q)), q));
            v.push(Op::R(2, Fl(0.4 - 0.23 * f64::from(q)), q));
        }
    }
    if prep > 1 && n > 1 {
        for q in 0..n {
            v.push(Op::CG(0, vec![q], (q + 1) % n));
            v.push(Op::R(0, Fl(0.9 + 0.17 * f64::from(q)), q));
        }
    }
    v
}

// ---------------------------------------------------------------- the real simulator alone

/// Performs histories on the real simulator only.
pub struct Raw {
    pub sim: QuantumSim,
    pub live: std::collections::BTreeSet<usize>,
    pub outcomes: Vec<bool>,
    pub probs: Vec<f64>,
    pub max_qubits: usize,
    pub pad: usize,
    pub pad_seed: u32,
}

impl Raw {
    pub fn new(seed: u64) -> Self {
        let mut sim = QuantumSim::new(None);
        sim.set_rng_seed(seed);
        Raw {
            sim,
            live: Default::default(),
            outcomes: vec![],
            probs: vec![],
            max_qubits: 10,
            pad: 0,
            pad_seed: 0,
        }
    }

    /// The qubits histories act on.
    pub fn named(&self) -> Vec<usize> {
        self.live.iter().copied().filter(|q| *q >= self.pad).collect()
    }

    pub fn release_all(&mut self) {
        for q in std::mem::take(&mut self.live) {
            self.sim.release(q);
        }
    }

    pub fn prepare(&mut self, c: &SimCase) {
        for i in 0..usize::from(c.pad) {
            let q = self.sim.allocate();
            self.live.insert(q);
            if pad_set(c.seed, i) {
                self.sim.x(q);
            }
        }
        self.pad = usize::from(c.pad);
        self.pad_seed = c.seed;
        for _ in 0..c.qubits {
            let q = self.sim.allocate();
            self.live.insert(q);
        }
        for op in prep_ops(c.prep, c.qubits) {
            let _ = self.step(&op);
        }
        if c.settle {
            let _ = self.sim.get_state();
        }
    }

    /// Performs one operation; the operands are chosen as [`Machine::step`] chooses them.
    pub fn step(&mut self, op: &Op) -> Result<(), String> {
        let live = self.named();
        if live.is_empty() && !matches!(op, Op::Alloc | Op::State | Op::Dump) {
            return Ok(());
        }
        let s = &mut self.sim;
        match op {
            Op::G(g, q) => sim_gate(s, *g, &[], pick_one(&live, *q), false),
            Op::CG(g, cs, q) => {
                let t = pick_one(&live, *q);
                sim_gate(s, *g, &pick_many(&live, cs, &[t]), t, true);
            }
            Op::R(ax, th, q) => {
                let t = pick_one(&live, *q);
                match ax {
                    0 => s.rx(th.0, t),
                    1 => s.ry(th.0, t),
                    _ => s.rz(th.0, t),
                }
            }
            Op::CR(ax, th, cs, q) => {
                let t = pick_one(&live, *q);
                let c = pick_many(&live, cs, &[t]);
                match ax {
                    0 => s.mcrx(&c, th.0, t),
                    1 => s.mcry(&c, th.0, t),
                    _ => s.mcrz(&c, th.0, t),
                }
            }
            Op::Ph(th, cs, q) => {
                let t = pick_one(&live, *q);
                let c = pick_many(&live, cs, &[t]);
                s.mcphase(&c, C64::new(th.0.cos(), th.0.sin()), t);
            }
            Op::Swap(a, b) => s.swap_qubit_ids(pick_one(&live, *a), pick_one(&live, *b)),
            Op::Exp(ps, th, ts, cs) => {
                let targets = pick_many(&live, &ts[..ts.len().min(ps.len())], &[]);
                let c = pick_many(&live, cs, &targets);
                let real = real_paulis(&ps[..targets.len()]);
                s.mcexp(&c, &real, th.0, &targets);
            }
            Op::Mat(kind, seed, ts, cs) => {
                let targets = pick_many(&live, ts, &[]);
                let c = pick_many(&live, cs, &targets);
                let u = to_array(&unitary(*kind, *seed, targets.len()));
                s.apply(&u, &targets, Some(&c));
            }
            Op::Burst(n, pat, q) => {
                let t = pick_one(&live, *q);
                for i in 0..*n as usize {
                    if !pat.is_empty() {
                        match pat[i % pat.len()] % 10 {
                            p @ 0..=6 => sim_gate(s, [0_u8, 1, 2, 4, 5, 6, 7][p as usize], &[], t, false),
                            _ => s.rz(0.1, t),
                        }
                    }
                }
            }
            Op::Wide(..) => {
                for p in &wide_plan(self.pad, self.pad_seed, &live, op) {
                    match p {
                        Prim::Gate(g, c, t) => sim_gate(s, *g, c, *t, !c.is_empty()),
                        Prim::Rot(0, th, c, t) => s.mcrx(c, *th, *t),
                        Prim::Rot(1, th, c, t) => s.mcry(c, *th, *t),
                        Prim::Rot(_, th, c, t) => s.mcrz(c, *th, *t),
                        Prim::Phase(th, c, t) => s.mcphase(c, C64::new(th.cos(), th.sin()), *t),
                        Prim::Exp(c, ps, th, ts) => s.mcexp(c, &real_paulis(ps), *th, ts),
                        Prim::Mat(k, seed, c, ts) => s.apply(&to_array(&unitary(*k, *seed, ts.len())), ts, Some(c)),
                        Prim::Swap(a, b) => s.swap_qubit_ids(*a, *b),
                        Prim::Prob(ids) => {
                            let p = s.joint_probability(ids);
                            self.probs.push(p);
                        }
                        Prim::Joint(ids) => {
                            let b = s.joint_measure(ids);
                            self.outcomes.push(b);
                        }
                        Prim::Renew(id) => {
                            s.release(*id);
                            if s.allocate() != *id {
                                return Err(format!("allocation did not return {id}, the lowest free identifier"));
                            }
                        }
                    }
                }
            }
            Op::Alloc => {
                if live.len() < self.max_qubits {
                    let q = s.allocate();
                    if !self.live.insert(q) {
                        return Err(format!("allocation returned {q}, which is in use"));
                    }
                }
            }
            Op::Release(q) => {
                let id = pick_one(&live, *q);
                s.release(id);
                self.live.remove(&id);
            }
            Op::Measure(q) => {
                let b = s.measure(pick_one(&live, *q));
                self.outcomes.push(b);
            }
            Op::JointMeasure(ps) => {
                let b = s.joint_measure(&pick_many(&live, ps, &[]));
                self.outcomes.push(b);
            }
            Op::Force(v, q) => {
                let p = s.force_collapse(*v, pick_one(&live, *q));
                self.probs.push(p);
            }
            Op::Prob(ps) => {
                let p = s.joint_probability(&pick_many(&live, ps, &[]));
                self.probs.push(p);
            }
            Op::IsZero(q) => {
                let _ = s.qubit_is_zero(pick_one(&live, *q));
            }
            Op::State => {
                let _ = s.get_state();
            }
            Op::Dump => {
                let _ = s.dump();
            }
        }
        Ok(())
    }
}

pub fn real_paulis(p: &[u8]) -> Vec<Pauli> {
    p.iter()
        .map(|p| match p % 4 {
            0 => Pauli::I,
            1 => Pauli::X,
            2 => Pauli::Y,
            _ => Pauli::Z,
        })
        .collect()
}

pub fn sim_gate(s: &mut QuantumSim, g: u8, ctls: &[usize], t: usize, ctl_form: bool) {
    match (g, !ctl_form) {
        (0, true) => s.x(t),
        (1, true) => s.y(t),
        (2, true) => s.z(t),
        (3, true) => s.h(t),
        (4, true) => s.s(t),
        (5, true) => s.sadj(t),
        (6, true) => s.t(t),
        (7, true) => s.tadj(t),
        (0, _) => s.mcx(ctls, t),
        (1, _) => s.mcy(ctls, t),
        (2, _) => s.mcz(ctls, t),
        (3, _) => s.mch(ctls, t),
        (4, _) => s.mcs(ctls, t),
        (5, _) => s.mcsadj(ctls, t),
        (6, _) => s.mct(ctls, t),
        (7, _) => s.mctadj(ctls, t),
        _ => unreachable!(),
    }
}
