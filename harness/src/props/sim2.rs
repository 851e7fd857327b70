//! C05..C07: observations, sparsity, misuse.

use crate::refsim::{self, Key, RefSim, C64};
use crate::simops::{case_strategy, pad, parse_dump, pick_one, picks, q, sim_gate, prepared, to_array, unitary, Machine, Op, Raw, SimCase, W};
use crate::qirops::{buffer_output, drain_output, initialize, one_fn, pauli, qcase, qp, Arr, QCase, QOp, Qir, Tup, QW};
use num_bigint::BigUint;
use qir_backend::exp::{__quantum__qis__exp__adj, __quantum__qis__exp__body, __quantum__qis__exp__ctl, __quantum__qis__exp__ctladj};
use qir_backend::result_bool::{__quantum__rt__result_equal, __quantum__rt__result_get_one, __quantum__rt__result_get_zero};
use qir_backend::*;
use quantum_sparse_sim::{exp::Pauli, QuantumSim};
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::f64::consts::PI;
use vdriver::proptest::prelude::*;
use vdriver::{catch, Ctx, Fl, Prop, Tier};

// ---------------------------------------------------------------- C05

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C05Case {
    pub hist: SimCase,
    /// Observations (1 = state, 2 = dump, 3 = zero check, 4 = probability) and where they go.
    pub obs: Vec<(u8, u8, u8)>,
}

pub struct C05;

fn structure(state: &[(BigUint, C64)], n: usize, live: usize, what: &str) -> Result<(), String> {
    if n != live {
        return Err(format!("{what}: reports {n} qubits, {live} are allocated"));
    }
    for w in state.windows(2) {
        if w[0].0 >= w[1].0 {
            return Err(format!("{what}: not strictly sorted: {} then {}", w[0].0, w[1].0));
        }
    }
    if state.last().is_some_and(|(k, _)| k.bits() > n as u64) {
        return Err(format!("{what}: an index exceeds {n} qubits"));
    }
    Ok(())
}

fn observe(r: &mut Raw, kind: u8, arg: u8) -> Result<(), String> {
    let live = r.named();
    let count = r.live.len();
    match kind % 5 {
        0 | 1 => {
            let (s, n) = r.sim.get_state();
            structure(&s, n, count, "state")?;
            let d = parse_dump(&r.sim.dump())?;
            if d.len() != s.len() || d.iter().zip(&s).any(|(a, b)| a.0 != b.0 || (a.1 - b.1).norm() > 1e-14) {
                return Err(format!("printed state {d:?} is not the reported state {s:?}"));
            }
        }
        2 => {
            let d = parse_dump(&r.sim.dump())?;
            structure(&d, count, count, "dump")?;
            let (s, _) = r.sim.get_state();
            if d.len() != s.len() || d.iter().zip(&s).any(|(a, b)| a.0 != b.0 || (a.1 - b.1).norm() > 1e-14) {
                return Err(format!("printed state {d:?} is not the reported state {s:?}"));
            }
        }
        3 => {
            if !live.is_empty() {
                let _ = r.sim.qubit_is_zero(pick_one(&live, arg));
            }
        }
        _ => {
            if !live.is_empty() {
                let a = pick_one(&live, arg);
                let b = pick_one(&live, arg / 12);
                let p = r.sim.joint_probability(&if a == b { vec![a] } else { vec![a, b] });
                if !(-1e-6..=1.0 + 1e-6).contains(&p) {
                    return Err(format!("probability {p}"));
                }
            }
        }
    }
    Ok(())
}

impl Prop for C05 {
    type Case = C05Case;
    const ID: &'static str = "C05";
    const RULE: &'static str = "case: a program (gates, exponentials, matrices, allocation, release, relabelling, measurement, forced collapse) and 1..12 observations (state, printed state, zero check, probability) inserted anywhere. The program runs twice from one seed, with and without the observations: all outcomes, probabilities and the final state must agree; every reported state is sorted, in range, reports the allocated count and equals its printed form. Non-trivial: observations inserted, at least 2 populated basis states at the end or a measurement with a random outcome possible.";
    const ASSUMPTIONS: &'static [&'static str] = &["states are compared up to a global phase with tolerance 1e-6"];
    fn strategy(tier: Tier) -> BoxedStrategy<C05Case> {
        let w = W { gate: 5, rot: 7, cgate: 5, crot: 2, phase: 1, swap: 3, exp: 1, mat: 1, measure: 1, joint: 1, force: 0, prob: 1, release: 3, alloc: 3, wide: 1, ..W::default() };
        (
            prop_oneof![
                1000 => case_strategy(w, 0..=5, 2..40),
                1000 => case_strategy(W { release: 0, measure: 0, joint: 0, wide: 0, ..w }, 1..=4, 2..30),
                1000 => case_strategy(w, 2..=7, 10..tier.pick(70, 160)),
                1 => super::sim::wide_state(w),
            ],
            prop::collection::vec((any::<u8>(), 0_u8..5, any::<u8>()), 1..12),
        )
            .prop_map(|(hist, obs)| C05Case { hist, obs })
            .boxed()
    }
    fn cases(tier: Tier) -> u64 {
        tier.pick(900_000, 10_000_000)
    }
    fn check(c: &C05Case, ctx: &mut Ctx) -> Result<(), String> {
        let n = c.hist.ops.len();
        let mut plain = Raw::new(u64::from(c.hist.seed));
        let mut seen = Raw::new(u64::from(c.hist.seed));
        plain.prepare(&c.hist);
        seen.prepare(&c.hist);
        for i in 0..=n {
            for (pos, kind, arg) in &c.obs {
                if *pos as usize % (n + 1) == i {
                    observe(&mut seen, *kind, *arg).map_err(|m| format!("before op {i}: {m}"))?;
                }
            }
            if let Some(op) = c.hist.ops.get(i) {
                plain.step(op)?;
                seen.step(op)?;
            }
            if plain.live != seen.live {
                return Err(format!("after op {i}: allocated {:?} without and {:?} with observations", plain.live, seen.live));
            }
        }
        if plain.outcomes != seen.outcomes {
            return Err(format!("outcomes {:?} without and {:?} with observations", plain.outcomes, seen.outcomes));
        }
        for (a, b) in plain.probs.iter().zip(&seen.probs) {
            if (a - b).abs() > 1e-6 {
                return Err(format!("probability {a} without and {b} with observations"));
            }
        }
        // The random streams are still in step.
        for _ in 0..2 {
            let qa = plain.sim.allocate();
            let qb = seen.sim.allocate();
            if qa != qb {
                return Err(format!("next allocation: {qa} without, {qb} with observations"));
            }
            plain.live.insert(qa);
            seen.live.insert(qb);
            plain.sim.h(qa);
            seen.sim.h(qb);
            let (a, b) = (plain.sim.measure(qa), seen.sim.measure(qb));
            if a != b {
                return Err(format!("a later measurement gave {a} without and {b} with observations"));
            }
        }
        let (s1, n1) = plain.sim.get_state();
        let (s2, n2) = seen.sim.get_state();
        structure(&s1, n1, plain.live.len(), "final state")?;
        structure(&s2, n2, seen.live.len(), "final state (observed)")?;
        let (a, b) = (refsim::to_map(&s1), refsim::to_map(&s2));
        let d = refsim::distance(&a, &b);
        if d > 1e-6 {
            return Err(format!(
                "final states differ by {d:.3e}\n without {}\n with    {}",
                refsim::render(&a),
                refsim::render(&b)
            ));
        }
        let probe = parse_dump(&seen.sim.dump())?;
        if probe.len() != s2.len() || probe.iter().zip(&s2).any(|(x, y)| x.0 != y.0 || (x.1 - y.1).norm() > 1e-14) {
            return Err("the printed final state is not the reported one".into());
        }
        ctx.nontrivial(n >= 2 && s1.len() >= 2);
        ctx.label_if(plain.outcomes.len() >= 2, "measured_midway");
        ctx.label_if(c.hist.ops.iter().any(|o| matches!(o, Op::Release(_))), "release");
        ctx.label_if(c.obs.iter().any(|o| o.1 % 5 == 2), "printed");
        Ok(())
    }
}

// ---------------------------------------------------------------- C06

/// Operations of the wide circuits. Qubits are picked from the live ones by a 16-bit pick.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum WOp {
    X(u16),
    Y(u16),
    Phase(u8, u16),
    Rz(Fl, u16),
    Cx(Vec<u16>, u16),
    Cz(Vec<u16>, u16),
    Swap(u16, u16),
    Half(bool, i8, u16),
    ExpZ(Fl, Vec<u16>),
    ExpFlip(Vec<u16>),
    ExpFlipC(Vec<u16>, Vec<u16>),
    Joint(Vec<u16>),
    Many(u8, u16, u16, u16),
    Super(u16),
    /// S then H, back to a basis state: H on an unpopulated superposition pair is avoided by model.
    Release(u16),
    Alloc,
    Measure(u16),
    Check,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum C06Case {
    /// Clifford+T and exact angles: the key set equals the reference's.
    Exact(SimCase),
    /// Any history: normalised, no duplicates, no index beyond the register, count bounded.
    Any(SimCase),
    /// Wide circuits that keep few entries.
    Wide { qubits: u16, supers: u8, ops: Vec<WOp> },
}

pub struct C06;

fn exact_ops() -> BoxedStrategy<Op> {
    let quarter = (-8_i32..=8).prop_map(|k| Fl(f64::from(k) * PI / 2.0));
    prop_oneof![
        4 => (prop::sample::select(vec![0_u8, 1, 2, 3, 3, 3, 4, 5]), q()).prop_map(|(g, q)| Op::G(g, q)),
        1 => (6_u8..8, q()).prop_map(|(g, q)| Op::G(g, q)),
        3 => (0_u8..3, quarter.clone(), q()).prop_map(|(a, t, q)| Op::R(a, t, q)),
        4 => (0_u8..6, picks(2), q()).prop_map(|(g, c, q)| Op::CG(g, c, q)),
        1 => (0_u8..3, quarter.clone(), picks(1), q()).prop_map(|(a, t, c, q)| Op::CR(a, t, c, q)),
        1 => (q(), q()).prop_map(|(a, b)| Op::Swap(a, b)),
        2 => (prop::collection::vec(0_u8..4, 1..=3), (-4_i32..=4), prop::collection::vec(0_u8..12, 3), picks(1))
            .prop_map(|(p, k, t, c)| Op::Exp(p, Fl(f64::from(k) * PI / 4.0), t, c)),
        1 => (prop::sample::select(vec![2_u8, 3, 6, 6]), any::<u16>(), prop::collection::vec(0_u8..12, 0..=3), picks(1))
            .prop_map(|(k, s, t, c)| Op::Mat(k, u32::from(s), t, c)),
        1 => Just(Op::State),
        1 => picks(3).prop_map(Op::Prob),
        1 => Just(Op::Alloc),
        1 => q().prop_map(Op::Measure),
    ]
    .boxed()
}

fn wop() -> BoxedStrategy<WOp> {
    let w = || any::<u16>();
    let ctl = || prop_oneof![40 => prop::collection::vec(any::<u16>(), 1..5), 1 => prop::collection::vec(any::<u16>(), 5..140)];
    prop_oneof![
        5 => w().prop_map(WOp::X),
        2 => w().prop_map(WOp::Y),
        3 => (2_u8..8, w()).prop_map(|(g, t)| WOp::Phase(g, t)),
        2 => (-7.0..7.0_f64, w()).prop_map(|(a, t)| WOp::Rz(Fl(a), t)),
        5 => (ctl(), w()).prop_map(|(c, t)| WOp::Cx(c, t)),
        2 => (ctl(), w()).prop_map(|(c, t)| WOp::Cz(c, t)),
        2 => (w(), w()).prop_map(|(a, b)| WOp::Swap(a, b)),
        2 => (any::<bool>(), -5_i8..5, w()).prop_map(|(a, k, t)| WOp::Half(a, k, t)),
        1 => (-7.0..7.0_f64, ctl()).prop_map(|(a, c)| WOp::ExpZ(Fl(a), c)),
        1 => ctl().prop_map(WOp::ExpFlip),
        1 => (ctl(), ctl()).prop_map(|(t, c)| WOp::ExpFlipC(t, c)),
        1 => ctl().prop_map(WOp::Joint),
        2 => (any::<u8>(), w(), w(), w()).prop_map(|(k, n, a, s)| WOp::Many(k, n, a, s)),
        1 => w().prop_map(WOp::Super),
        2 => w().prop_map(WOp::Release),
        1 => Just(WOp::Alloc),
        1 => w().prop_map(WOp::Measure),
        1 => Just(WOp::Check),
    ]
    .boxed()
}

fn distinct(live: &[usize], picks: &[u16], not: &[usize]) -> Vec<usize> {
    if live.is_empty() {
        return vec![];
    }
    let mut v: Vec<usize> = vec![];
    for p in picks {
        let c = live[*p as usize % live.len()];
        if !v.contains(&c) && !not.contains(&c) {
            v.push(c);
        }
    }
    v
}

fn wide(qubits: u16, supers: u8, ops: &[WOp], ctx: &mut Ctx) -> Result<(), String> {
    let mut sim = QuantumSim::new(None);
    sim.set_rng_seed(7);
    let mut r = RefSim::new();
    for _ in 0..qubits {
        let id = sim.allocate();
        if id != r.allocate() {
            return Err(format!("allocation returned {id}"));
        }
    }
    let mut budget = supers as usize % 4;
    let mut limit = 1_usize;
    let mut queued = 0_usize;
    let mut longest = 0_usize;
    let g = refsim::gate;
    for (i, op) in ops.iter().enumerate() {
        let live: Vec<usize> = r.live.iter().copied().collect();
        if live.is_empty() && !matches!(op, WOp::Alloc) {
            continue;
        }
        let at = |p: u16| live[p as usize % live.len()];
        match op {
            WOp::X(t) => {
                sim.x(at(*t));
                r.apply1(&[], at(*t), &g(0));
                queued += 1;
            }
            WOp::Y(t) => {
                sim.y(at(*t));
                r.apply1(&[], at(*t), &g(1));
                queued += 1;
            }
            WOp::Phase(k, t) => {
                let k = if *k == 3 { 2 } else { *k };
                sim_gate(&mut sim, k, &[], at(*t), false);
                r.apply1(&[], at(*t), &g(k));
                queued += 1;
            }
            WOp::Rz(a, t) => {
                sim.rz(a.0, at(*t));
                r.apply1(&[], at(*t), &refsim::rot(2, a.0));
                queued += 1;
            }
            WOp::Cx(c, t) => {
                let t = at(*t);
                let c = distinct(&live, c, &[t]);
                sim.mcx(&c, t);
                r.apply1(&c, t, &g(0));
                queued += 1;
            }
            WOp::Cz(c, t) => {
                let t = at(*t);
                let c = distinct(&live, c, &[t]);
                sim.mcz(&c, t);
                r.apply1(&c, t, &g(2));
                queued += 1;
            }
            WOp::Swap(a, b) => {
                sim.swap_qubit_ids(at(*a), at(*b));
                r.swap(at(*a), at(*b));
                queued = 0;
            }
            WOp::Half(y, k, t) => {
                // An odd multiple of pi about X or Y flips the bit.
                let th = PI * f64::from(2 * i32::from(*k) + 1);
                if *y {
                    sim.ry(th, at(*t));
                } else {
                    sim.rx(th, at(*t));
                }
                r.apply1(&[], at(*t), &refsim::rot(u8::from(*y), th));
                // The reference's own rounding must not count as population.
                r.amps.retain(|_, v| v.norm() > 1e-9);
            }
            WOp::ExpZ(a, t) => {
                let t = distinct(&live, t, &[]);
                let p: Vec<Pauli> = t.iter().map(|_| Pauli::Z).collect();
                sim.exp(&p, a.0, &t);
                r.exp(&[], &vec![3; t.len()], a.0, &t);
                queued = 0;
            }
            WOp::ExpFlip(t) | WOp::ExpFlipC(t, _) => {
                // exp(i pi/2 P) = i P: still a permutation with phases.
                let c = match op {
                    WOp::ExpFlipC(_, c) => distinct(&live, c, &[]),
                    _ => vec![],
                };
                let picks = t;
                let t = distinct(&live, t, &c);
                if t.is_empty() {
                    continue;
                }
                let codes: Vec<u8> = t.iter().enumerate().map(|(i, _)| ((picks[0] >> (i % 16)) & 1) as u8 + 1 + u8::from(i % 5 == 4)).collect();
                let p: Vec<Pauli> = codes.iter().map(|c| match c { 1 => Pauli::X, 2 => Pauli::Y, _ => Pauli::Z }).collect();
                if c.is_empty() {
                    sim.exp(&p, PI / 2.0, &t);
                } else {
                    sim.mcexp(&c, &p, PI / 2.0, &t);
                }
                r.exp(&c, &codes, PI / 2.0, &t);
                r.amps.retain(|_, v| v.norm() > 1e-9);
                ctx.label_if(t.len() > 32, "exp_on_more_than_32_qubits");
                queued = 0;
            }
            WOp::Joint(t) => {
                let t = distinct(&live, t, &[]);
                let p = r.prob(&t);
                let got = sim.joint_probability(&t);
                if (got - p).abs() > 1e-6 {
                    return Err(format!("op {i}: the joint probability of {} qubits is {got}, ideal {p}", t.len()));
                }
                let v = sim.joint_measure(&t);
                let pv = if v { p } else { 1.0 - p };
                if pv < 1e-6 {
                    return Err(format!("op {i}: measuring {} qubits jointly gave {v}, which has probability {pv}", t.len()));
                }
                r.project(&t, v);
                ctx.label_if(t.len() > 32, "joint_measurement_of_more_than_32_qubits");
                queued = 0;
            }
            WOp::Many(kind, n, start, stride) => {
                // A long run of deferred operations over the register.
                let n = if *kind >= 250 { 10_001 + *n as usize % 300 } else { *n as usize % 200 };
                for j in 0..n {
                    let t = live[(*start as usize + j * (1 + *stride as usize % 7)) % live.len()];
                    let c = live[(*start as usize + j * 3 + 1) % live.len()];
                    if *kind % 3 == 0 && c != t {
                        sim.mcx(&[c], t);
                        r.apply1(&[c], t, &g(0));
                    } else if *kind % 3 == 1 {
                        sim.x(t);
                        r.apply1(&[], t, &g(0));
                    } else {
                        sim.s(t);
                        r.apply1(&[], t, &g(4));
                    }
                    queued += 1;
                }
            }
            WOp::Super(t) => {
                if budget > 0 {
                    budget -= 1;
                    limit *= 2;
                    sim.h(at(*t));
                    r.apply1(&[], at(*t), &g(3));
                    r.amps.retain(|_, v| v.norm() > 1e-9);
                }
            }
            WOp::Release(t) => {
                let t = at(*t);
                // Only where the outcome is certain, so that the reference can follow.
                let p = r.prob(&[t]);
                if !(1e-6..=1.0 - 1e-6).contains(&p) {
                    sim.release(t);
                    let v = p > 0.5;
                    r.project(&[t], v);
                    r.remove_definite(t, v);
                    queued = 0;
                    if r.live.is_empty() {
                        r = RefSim::new();
                    }
                }
            }
            WOp::Alloc => {
                let a = sim.allocate();
                let b = r.allocate();
                if a != b {
                    return Err(format!("allocation returned {a}, lowest free is {b}"));
                }
            }
            WOp::Measure(t) => {
                let t = at(*t);
                let p = r.prob(&[t]);
                let v = sim.measure(t);
                let pv = if v { p } else { 1.0 - p };
                if pv < 1e-6 {
                    return Err(format!("measuring {t} gave {v}, which has probability {pv}"));
                }
                r.project(&[t], v);
                queued = 0;
            }
            WOp::Check => {
                compare_exact(&mut sim, &r, limit, &format!("after op {i}"))?;
                queued = 0;
            }
        }
        longest = longest.max(queued);
        if r.amps.len() > limit {
            return Err(format!("harness: reference has {} entries, at most {limit} expected", r.amps.len()));
        }
    }
    compare_exact(&mut sim, &r, limit, "final state")?;
    ctx.nontrivial(qubits >= 16 && ops.len() >= 4);
    ctx.label("wide");
    ctx.label_if(qubits >= 1000, "wide>=1000_qubits");
    ctx.label_if(longest >= 10_000, "queue_limit_crossed");
    ctx.label_if(limit == 1, "single_entry");
    Ok(())
}

/// The simulator's keys are exactly the reference's populated ones.
fn compare_exact(sim: &mut QuantumSim, r: &RefSim, limit: usize, when: &str) -> Result<(), String> {
    let (s, n) = sim.get_state();
    structure(&s, n, r.live.len(), when)?;
    if s.len() > limit {
        return Err(format!(
            "{when}: {} entries are stored, the circuit populates {} (at most {limit}); smallest magnitude {:.2e}",
            s.len(),
            r.amps.len(),
            s.iter().map(|e| e.1.norm()).fold(f64::INFINITY, f64::min)
        ));
    }
    let want: HashMap<Key, C64> = r.ranked();
    let got = refsim::to_map(&s);
    for (k, v) in &got {
        let ideal = want.get(k).map_or(0.0, |v| v.norm());
        if ideal < 1e-9 {
            return Err(format!(
                "{when}: an entry of magnitude {:.2e} is stored at index {k:?}, where the ideal state has {ideal:.1e}",
                v.norm()
            ));
        }
    }
    for (k, v) in &want {
        if v.norm() > 1e-6 && !got.contains_key(k) {
            return Err(format!("{when}: no entry at index {k:?}, ideal amplitude {v}"));
        }
    }
    let norm: f64 = got.values().map(|v| v.norm_sqr()).sum();
    if !((norm - 1.0).abs() < 1e-6) {
        return Err(format!("{when}: squared norm {norm}"));
    }
    let d = refsim::distance(&want, &got);
    if d > 1e-6 {
        return Err(format!("{when}: state differs from the ideal one by {d:.2e}"));
    }
    Ok(())
}

impl Prop for C06 {
    type Case = C06Case;
    const ID: &'static str = "C06";
    const RULE: &'static str = "case: (a) Clifford+T circuits with quarter-turn rotations, exponentials and permutations on 1..6 qubits, where the stored indices must be exactly the ideal populated ones; (b) any history, where the state is normalised, strictly sorted, within the register and no larger than 2^qubits; (c) circuits of permutations, phases, half turns, exponentials and joint measurements (of up to 139 qubits) and up to 3 Hadamards on 16..3000 qubits with queues beyond 10000 operations, allocation and release, compared index by index. Non-trivial: 4 or more operations, with 2 populated states in (a) and (b) and 16 or more qubits in (c).";
    const ASSUMPTIONS: &'static [&'static str] = &["an amplitude below 1e-9 in the ideal state counts as zero; one above 1e-6 counts as populated"];
    fn strategy(tier: Tier) -> BoxedStrategy<C06Case> {
        let w = W { gate: 5, rot: 7, cgate: 5, crot: 3, phase: 1, swap: 1, exp: 3, mat: 2, measure: 2, joint: 1, release: 2, alloc: 2, state: 1, wide: 1, ..W::default() };
        let exact = (any::<u32>(), 1_u8..=6, prop::collection::vec(exact_ops(), 1..24), pad()).prop_map(|(seed, qubits, ops, pad)| {
            C06Case::Exact(SimCase { seed, qubits, prep: 0, settle: false, ops, pad })
        });
        let wide_s = (
            prop_oneof![3 => 16_u16..130, 1 => 130_u16..600, 1 => 600_u16..tier.pick(1500, 3500)],
            any::<u8>(),
            prop::collection::vec(wop(), 4..tier.pick(40, 120)),
        )
            .prop_map(|(qubits, supers, ops)| C06Case::Wide { qubits, supers, ops });
        prop_oneof![
            60 => exact,
            60 => case_strategy(w, 1..=6, 2..40).prop_map(C06Case::Any),
            2 => wide_s,
        ]
        .boxed()
    }
    fn cases(tier: Tier) -> u64 {
        tier.pick(900_000, 6_000_000)
    }
    fn check(c: &C06Case, ctx: &mut Ctx) -> Result<(), String> {
        match c {
            C06Case::Exact(c) => {
                let mut m = Machine::new(u64::from(c.seed), 7);
                m.do_pad(c.pad, c.seed)?;
                for _ in 0..c.qubits {
                    m.step(&Op::Alloc)?;
                }
                let mut biggest = 0;
                for op in &c.ops {
                    m.step(op)?;
                    for r in &mut m.cands {
                        r.amps.retain(|_, v| v.norm() > 1e-9);
                        biggest = biggest.max(r.amps.len());
                    }
                    if matches!(op, Op::State) {
                        compare_exact(&mut m.sim, &m.cands[0], usize::MAX, "midway")?;
                    }
                }
                compare_exact(&mut m.sim, &m.cands[0], usize::MAX, "final state")?;
                ctx.label("exact");
                ctx.nontrivial(biggest >= 2 && c.ops.len() >= 4);
                Ok(())
            }
            C06Case::Any(c) => {
                let mut m = prepared(c, 10)?;
                let mut biggest = 0;
                // Without tiny angles a tiny amplitude can only be what a cancellation left behind.
                let tame = c.ops.iter().all(|o| match o {
                    Op::R(_, a, _) | Op::CR(_, a, _, _) | Op::Exp(_, a, _, _) | Op::Ph(a, _, _) => {
                        let k = a.0 / (PI / 4.0);
                        let d = (k - k.round()).abs();
                        !(1e-13..1e-2).contains(&d)
                    }
                    _ => true,
                });
                for (i, op) in c.ops.iter().chain([&Op::State]).enumerate() {
                    m.step(op).map_err(|e| format!("at op {i} {op:?}: {e}"))?;
                    if m.dull {
                        break;
                    }
                    if matches!(op, Op::State) {
                        let (s, n) = m.sim.get_state();
                        structure(&s, n, m.live_all().len(), &format!("after op {i}"))?;
                        let used = m.live().len();
                        if s.is_empty() || s.len() as u64 > 1 << used {
                            return Err(format!("after op {i}: {} entries for {used} used qubits", s.len()));
                        }
                        let norm: f64 = s.iter().map(|v| v.1.norm_sqr()).sum();
                        if !((norm - 1.0).abs() < 1e-6) {
                            return Err(format!("after op {i}: squared norm {norm}"));
                        }
                        biggest = biggest.max(s.len());
                        if let [c] = &m.cands[..] {
                            let want = c.ranked();
                            for (k, v) in refsim::to_map(&s) {
                                let ideal = want.get(&k).map_or(0.0, |v| v.norm());
                                if tame && v.norm() < 1e-13 && ideal < 0.1 * v.norm() {
                                    return Err(format!(
                                        "after op {i}: a vanished entry of magnitude {:.2e} is stored at index {k:?}",
                                        v.norm()
                                    ));
                                }
                            }
                        }
                    }
                }
                ctx.label("any");
                ctx.nontrivial(biggest >= 2 && c.ops.len() >= 4);
                Ok(())
            }
            C06Case::Wide { qubits, supers, ops } => wide(*qubits, *supers, ops, ctx),
        }
    }
}

// ---------------------------------------------------------------- C07

/// An illegal use. `bad` = which operand is wrong; the wrong operand is a free identifier or a
/// repetition of another operand.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BadOp {
    pub kind: u8,
    pub gate: u8,
    /// false: an identifier that is not allocated; true: an operand named twice.
    pub dup: bool,
    pub at: u8,
    pub ids: Vec<u8>,
    pub free: u8,
    /// This many further operands, freshly allocated, for operations that take any number.
    pub more: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C07Case {
    pub hist: SimCase,
    pub bad: BadOp,
    pub after: Vec<Op>,
    pub observe: u8,
    pub who: u8,
}

/// An illegal call of a QIR function.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BadCall {
    pub kind: u8,
    pub gate: u8,
    pub at: u8,
    pub ids: Vec<u8>,
    /// Use a qubit released before rather than one named twice, where there is one.
    pub released: bool,
    /// This many further operands, freshly allocated, for calls that take any number.
    pub more: u8,
    pub after: Vec<QOp>,
    pub observe: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum C07Any {
    Sim(C07Case),
    Qir(QCase, BadCall),
}

pub struct C07;

const KINDS: u8 = 16;

fn more() -> BoxedStrategy<u8> {
    prop_oneof![12 => Just(0_u8), 2 => 1_u8..12, 1 => 12_u8..90].boxed()
}

impl Prop for C07 {
    type Case = C07Any;
    const ID: &'static str = "C07";
    const RULE: &'static str = "case: a legal history, one illegal operation (any of 16 kinds: gates, rotations, controlled forms, phase, exponential, matrix, measurement, joint measurement, probability, zero check, forced collapse, relabelling, release; with an identifier that was released or never allocated, or with one operand named twice, rarely among up to 90 operands), up to 5 further legal gates, allocations and releases, and one observation (state, dump, measurement, probability); or a QIR program followed by an illegal call of an intrinsic (a qubit named twice in any combination of control array, target, exponential, joint measurement or assertion, or a qubit released before) in a child process, which must not get past the next observation. Something up to and including the observation must fail. Non-trivial: every case whose illegal operation is constructible (a repeated operand needs an operation with two operands).";
    const ASSUMPTIONS: &'static [&'static str] = &["operations that are the identity on the offending operand (zero angle, identity Pauli, no matrix target) are not generated"];
    fn strategy(_tier: Tier) -> BoxedStrategy<C07Any> {
        let w = W { gate: 5, rot: 5, cgate: 4, crot: 1, swap: 2, exp: 1, mat: 1, measure: 1, release: 5, alloc: 3, state: 1, ..W::default() };
        // (Allocation may hand out the very identifier misused; releases may drop what is pending.)
        let later = W { gate: 4, rot: 4, cgate: 3, alloc: 4, release: 4, ..W::default() };
        let sim = (
            prop_oneof![
                case_strategy(w, 0..=5, 0..20),
                case_strategy(W { release: 0, alloc: 0, ..w }, 1..=4, 0..6),
            ],
            (0_u8..KINDS, 0_u8..8, any::<bool>(), any::<u8>(), prop::collection::vec(0_u8..12, 6), 0_u8..6, more())
                .prop_map(|(kind, gate, dup, at, ids, free, more)| BadOp { kind, gate, dup, at, ids, free, more }),
            case_strategy(later, 1..=1, 0..6).prop_map(|c| c.ops),
            0_u8..5,
            q(),
        )
            .prop_map(|(hist, bad, after, observe, who)| C07Any::Sim(C07Case { hist, bad, after, observe, who }));
        let qw = QW { gate: 4, rot: 4, ctl: 2, exp: 1, swap: 1, alloc: 8, meas: 1, ..QW::default() };
        let qafter = (qcase(QW { gate: 4, rot: 4, ctl: 2, alloc: 4, ..QW::default() }, 0..4), any::<bool>())
            .prop_map(|(c, all)| c.ops.into_iter().filter(|o| all || !matches!(o, QOp::Alloc | QOp::AllocArray(_) | QOp::BigArray(..) | QOp::Release(_) | QOp::ReleaseArray(_))).take(4).collect::<Vec<_>>());
        let qir = (qcase(qw, 0..16), 0_u8..12, 0_u8..12, any::<u8>(), prop::collection::vec(0_u8..12, 5), any::<bool>(), more(), qafter, 0_u8..4)
            .prop_map(|(hist, kind, gate, at, ids, released, more, after, observe)| C07Any::Qir(hist, BadCall { kind, gate, at, ids, released, more, after, observe }));
        prop_oneof![9 => sim, 1 => qir].boxed()
    }
    fn cases(tier: Tier) -> u64 {
        tier.pick(800_000, 8_000_000)
    }
    fn check(c: &C07Any, ctx: &mut Ctx) -> Result<(), String> {
        let c = match c {
            C07Any::Sim(c) => c,
            C07Any::Qir(h, b) => return misuse_qir(h, b, ctx),
        };
        let mut r = Raw::new(u64::from(c.hist.seed));
        r.prepare(&c.hist);
        for op in &c.hist.ops {
            r.step(op)?;
        }
        let live: Vec<usize> = r.live.iter().copied().collect();
        let b = &c.bad;
        // Operand counts: controls then targets, by kind.
        let many = 2 + b.ids[0] as usize % if b.ids.len() > 4 { 5 } else { 2 };
        let n = match b.kind {
            0 | 1 | 7 | 9 | 10 | 12 => 1,
            2..=4 => many,
            _ => many,
        };
        let n = match b.kind {
            11 | 6 => n.max(2),
            13 => 1,
            14 => 2,
            15 => 1,
            _ => n,
        };
        let extra: Vec<usize> = if matches!(b.kind, 2..=6 | 8 | 15) { (0..b.more).map(|_| r.sim.allocate()).collect() } else { vec![] };
        r.live.extend(&extra);
        // The k-th identifier (small) that is not allocated.
        let free = (0..).filter(|i| !r.live.contains(i)).nth(b.free as usize).unwrap();
        let mut ids: Vec<usize> = distinct(&live, &b.ids.iter().map(|i| u16::from(*i)).collect::<Vec<_>>(), &[]);
        ids.truncate(n);
        for (i, e) in extra.iter().enumerate() {
            ids.insert((i * 7 + b.at as usize) % (ids.len() + 1), *e);
        }
        let n = n + extra.len();
        if b.dup {
            if n < 2 || ids.is_empty() {
                return Ok(());
            }
            if ids.len() < 2 {
                let d = ids[0];
                ids.push(d);
            } else {
                let pos = b.at as usize % ids.len();
                let far = b.at as usize / 16 + 13 * b.ids[1] as usize;
                let other = (pos + 1 + far % (ids.len() - 1)) % ids.len();
                ids[pos] = ids[other];
            }
        } else {
            if ids.is_empty() {
                if n > 1 && !matches!(b.kind, 5 | 8 | 11) {
                    return Ok(());
                }
                ids.push(free);
            } else {
                let pos = b.at as usize % ids.len();
                ids[pos] = free;
            }
            // Multi-operand kinds with a single operand left are fine: the operand is unallocated.
        }
        if matches!(b.kind, 2..=4 | 6 | 14) && ids.len() < 2 {
            return Ok(());
        }
        let (ctls, t) = (ids[..ids.len() - 1].to_vec(), ids[ids.len() - 1]);
        let th = 0.37 + f64::from(b.gate);
        let what = format!("illegal operation kind {} gate {} on {ids:?} with {live:?} allocated", b.kind, b.gate);
        let paulis = |k: usize| -> Vec<Pauli> {
            (0..k)
                .map(|i| match (b.gate as usize + i) % 3 {
                    0 => Pauli::X,
                    1 => Pauli::Y,
                    _ => Pauli::Z,
                })
                .collect()
        };
        let s = &mut r.sim;
        let mut stopped = catch(|| match b.kind {
            0 => sim_gate(s, b.gate, &[], t, false),
            1 => match b.gate % 3 {
                0 => s.rx(th, t),
                1 => s.ry(th, t),
                _ => s.rz(th, t),
            },
            2 => sim_gate(s, b.gate, &ctls, t, true),
            3 => match b.gate % 3 {
                0 => s.mcrx(&ctls, th, t),
                1 => s.mcry(&ctls, th, t),
                _ => s.mcrz(&ctls, th, t),
            },
            4 => s.mcphase(&ctls, C64::new(th.cos(), th.sin()), t),
            5 => s.exp(&paulis(ids.len()), th, &ids),
            6 => s.mcexp(&ids[..1], &paulis(ids.len() - 1), th, &ids[1..]),
            7 => {
                let _ = s.measure(t);
            }
            8 => {
                let _ = s.joint_measure(&ids);
            }
            9 => {
                let _ = s.joint_probability(&[t]);
            }
            10 => {
                let _ = s.qubit_is_zero(t);
            }
            11 => {
                let u = to_array(&unitary(0, u32::from(b.gate), ids.len() - 1));
                if ids.len() > 1 && b.gate % 2 == 0 {
                    s.apply(&u, &ids[1..], Some(&ids[..1]));
                } else {
                    let u = to_array(&unitary(0, u32::from(b.gate), ids.len()));
                    s.apply(&u, &ids, None);
                }
            }
            12 => {
                let _ = s.force_collapse(b.gate % 2 == 0, t);
            }
            13 => s.release(t),
            14 => {
                if b.dup {
                    // Relabelling a qubit with itself is the identity; use a controlled swap-free
                    // form instead.
                    let _ = s.joint_probability(&ids);
                } else {
                    s.swap_qubit_ids(ids[0], ids[1]);
                }
            }
            15 => {
                let _ = s.joint_probability(&ids);
            }
            _ => unreachable!(),
        })
        .is_err();
        ctx.nontrivial(true);
        ctx.label(if b.dup { "operand_twice" } else { "not_allocated" });
        ctx.label_if(ids.len() > 6, "many_operands");
        ctx.label_if(stopped, "failed_at_once");
        if !stopped {
            for op in &c.after {
                if catch(|| r.step(op)).is_err() {
                    stopped = true;
                    break;
                }
            }
        }
        if stopped {
            return Ok(());
        }
        let live: Vec<usize> = r.live.iter().copied().collect();
        let s = &mut r.sim;
        let obs = catch(|| match (c.observe, live.is_empty()) {
            (1, _) => s.dump(),
            (2, false) => format!("measured {}", s.measure(pick_one(&live, c.who))),
            (3, false) => format!("probability {}", s.joint_probability(&[pick_one(&live, c.who)])),
            (4, false) => format!("zero {}", s.qubit_is_zero(pick_one(&live, c.who))),
            _ => format!("{:?}", s.get_state()),
        });
        match obs {
            Err(_) => {
                ctx.label("failed_at_observation");
                Ok(())
            }
            Ok(o) => Err(format!("{what}: nothing failed; the next observation returned {}", o.chars().take(300).collect::<String>())),
        }
    }
}

/// An illegal call within a QIR program ends the process before anything else is observed.
fn misuse_qir(h: &QCase, b: &BadCall, ctx: &mut Ctx) -> Result<(), String> {
    initialize();
    set_rng_seed(u64::from(h.seed));
    let mut r = Qir::start(h, false)?;
    let mut seen = std::collections::BTreeSet::new();
    for op in &h.ops {
        r.step(op)?;
        seen.extend(r.ids());
    }
    let live = r.ids();
    let gone: Vec<usize> = seen.iter().copied().filter(|q| !live.contains(q)).collect();
    let released = b.released && !gone.is_empty();
    let mut ids = distinct(&live, &b.ids.iter().map(|i| u16::from(*i)).collect::<Vec<_>>(), &[]);
    if ids.is_empty() && !released {
        r.dispose();
        return Ok(());
    }
    // Operands of the call; one of them is then made wrong.
    let want = match b.kind {
        0 | 7 => 2,
        1 => 3,
        9 if released => 1,
        10 | 11 => 1,
        _ => 2 + b.at as usize % 3,
    };
    ids.truncate(want);
    let n;
    let mut extra = vec![];
    if released {
        n = if matches!(b.kind, 0 | 1 | 7) { want } else { ids.len().max(1) };
        if ids.len() + 1 < n {
            r.dispose();
            return Ok(());
        }
        let bad = gone[b.at as usize / 8 % gone.len()];
        if ids.len() < n {
            ids.push(bad);
        } else {
            ids[b.at as usize / 4 % n] = bad;
        }
    } else {
        if matches!(b.kind, 10 | 11) {
            r.dispose();
            return Ok(());
        }
        // Too few qubits: some are named twice already.
        if ids.len() == want {
            let i = b.at as usize / 4 % want;
            let j = (i + 1 + b.at as usize / 16 % (want - 1)) % want;
            ids[i] = ids[j];
        } else if matches!(b.kind, 0 | 1 | 7) {
            while ids.len() < want {
                let d = ids[b.at as usize / 4 % ids.len()];
                ids.push(d);
            }
        } else {
            let d = ids[b.at as usize / 4 % ids.len()];
            ids.push(d);
        }
        n = ids.len();
    }
    if matches!(b.kind, 2..=6 | 8 | 9) {
        for i in 0..b.more as usize {
            let e = __quantum__rt__qubit_allocate() as usize;
            extra.push(e);
            ids.insert((i * 7 + b.at as usize) % (ids.len() + 1), e);
        }
    }
    let n = n + extra.len();
    let (ctls, t) = (ids[..n - 1].to_vec(), ids[n - 1]);
    let th = 0.37 + f64::from(b.gate);
    // (Measuring many qubits in other bases populates exponentially many basis states.)
    let z = n > 8 && matches!(b.kind, 8 | 9);
    let ps: Vec<u8> = (0..n).map(|i| if z { 3 } else { 1 + (b.gate + i as u8) % 3 }).collect();
    let what = format!("illegal call kind {} gate {} on {ids:?} with {live:?} in use", b.kind, b.gate);
    let g = b.gate as usize;
    let o = vdriver::in_fork(std::time::Duration::from_secs(60), || {
        buffer_output();
        unsafe {
            match b.kind {
                0 => [__quantum__qis__cnot__body, __quantum__qis__cx__body, __quantum__qis__cy__body, __quantum__qis__cz__body][g % 4](qp(ids[0]), qp(ids[1])),
                1 => __quantum__qis__ccx__body(qp(ids[0]), qp(ids[1]), qp(ids[2])),
                2 => {
                    let a = Arr::qubits(&ctls);
                    [
                        __quantum__qis__h__ctl,
                        __quantum__qis__s__ctl,
                        __quantum__qis__s__ctladj,
                        __quantum__qis__t__ctl,
                        __quantum__qis__t__ctladj,
                        __quantum__qis__x__ctl,
                        __quantum__qis__y__ctl,
                        __quantum__qis__z__ctl,
                    ][g % 8](a.p, qp(t));
                }
                3 => {
                    let (a, t) = (Arr::qubits(&ctls), Tup::rot(th, t));
                    [__quantum__qis__rx__ctl, __quantum__qis__ry__ctl, __quantum__qis__rz__ctl][g % 3](a.p, t.p.cast());
                }
                4 => {
                    let (a, t) = (Arr::qubits(&ctls), Tup::pauli_rot(1 + b.gate % 3, th, t));
                    [__quantum__qis__r__ctl, __quantum__qis__r__ctladj][g % 2](a.p, t.p.cast());
                }
                5 => {
                    let (p, a) = (Arr::paulis(&ps), Arr::qubits(&ids));
                    [__quantum__qis__exp__body, __quantum__qis__exp__adj][g % 2](p.p, th, a.p);
                }
                6 => {
                    let (p, a, c) = (Arr::paulis(&ps[1..]), Arr::qubits(&ids[1..]), Arr::qubits(&ids[..1]));
                    let t = Tup::exp(&p, th, &a);
                    [__quantum__qis__exp__ctl, __quantum__qis__exp__ctladj][g % 2](c.p, t.p.cast());
                }
                7 => [__quantum__qis__rxx__body, __quantum__qis__ryy__body, __quantum__qis__rzz__body][g % 3](th, qp(ids[0]), qp(ids[1])),
                8 => {
                    let (p, a) = (Arr::paulis(&ps), Arr::qubits(&ids));
                    let _ = __quantum__qis__measure__body(p.p, a.p);
                }
                9 => {
                    let (p, a) = (Arr::paulis(&ps), Arr::qubits(&ids));
                    let msg = std::ffi::CString::new("asserted").unwrap();
                    let s = __quantum__rt__string_create(msg.as_ptr() as *mut _);
                    // Any probability at all is within the tolerance.
                    __quantum__qis__assertmeasurementprobability__body(p.p, a.p, __quantum__rt__result_get_zero(), 0.5, s, 2.0);
                }
                10 => match g % 6 {
                    0 => __quantum__qis__mz__body(qp(t), qp(0)),
                    1 => __quantum__qis__mresetz__body(qp(t), qp(0)),
                    2 => {
                        let _ = __quantum__qis__m__body(qp(t));
                    }
                    3 => __quantum__qis__reset__body(qp(t)),
                    4 => __quantum__rt__qubit_release(qp(t)),
                    _ => one_fn(b.gate)(qp(t)),
                },
                _ => {
                    if g % 4 == 3 {
                        __quantum__qis__r__body(pauli(1 + b.at % 3), th, qp(t));
                    } else {
                        [__quantum__qis__rx__body, __quantum__qis__ry__body, __quantum__qis__rz__body][g % 3](th, qp(t));
                    }
                }
            }
        }
        for op in &b.after {
            let _ = r.step(op);
        }
        let live = r.ids();
        let s = match b.observe {
            0 => {
                __quantum__qis__dumpmachine__body(std::ptr::null_mut());
                String::from_utf8_lossy(&drain_output()).into_owned()
            }
            1 if !live.is_empty() => format!("zero {}", qubit_is_zero(qp(live[b.at as usize % live.len()]))),
            2 if !live.is_empty() => format!("measured {:?}", __quantum__rt__result_equal(__quantum__qis__m__body(qp(live[b.at as usize % live.len()])), __quantum__rt__result_get_one())),
            _ => format!("{:?}", capture_quantum_state()),
        };
        s.into_bytes()
    });
    for e in &extra {
        __quantum__rt__qubit_release(qp(*e));
    }
    r.dispose();
    ctx.nontrivial(true);
    ctx.label_if(n > 6, "many_operands_in_qir");
    ctx.label(if released { "released_qubit_in_qir" } else { "operand_twice_in_qir" });
    match o.end {
        vdriver::ForkEnd::Done(s) => Err(format!("{what}: nothing failed; the next observation gave {}", String::from_utf8_lossy(&s).chars().take(300).collect::<String>())),
        vdriver::ForkEnd::Timeout => Err(format!("{what}: no end within a minute")),
        _ => Ok(()),
    }
}
