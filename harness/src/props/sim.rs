//! C01..C04: the simulator against the eager reference.

use crate::refsim::{Key, RefSim};
use crate::simops::{case_strategy, pick_many, pick_one, prepared, Op, Raw, SimCase, W};
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use vdriver::proptest::prelude::*;
use vdriver::{Ctx, Fl, Prop, Tier};

const ASSUME: &[&str] = &[
    "amplitudes are compared up to one global phase within a tracked rounding bound (1e-9 plus 4e-10*sqrt(entries) per operation, scaled by 1/sqrt(p) at each collapse)",
    "angles are finite and at most 1e4 in magnitude",
];

fn run(c: &SimCase, ctx: &mut Ctx) -> Result<(), String> {
    let mut m = prepared(c, if c.qubits > 9 { 15 } else { 10 })?;
    m.run(&c.ops)?;
    if !m.dull {
        m.compare("final state")?;
    }
    m.labels(ctx);
    let s = &m.st;
    ctx.label_if(s.entries_max >= 512, "over_500_states");
    ctx.nontrivial(s.entries_max >= 2 && s.gates >= 4 && (s.nonclassical >= 1 || s.exps + s.mats >= 1));
    Ok(())
}

/// A generic state of hundreds to thousands of populated basis states.
pub fn wide_state(w: W) -> BoxedStrategy<SimCase> {
    (prop_oneof![9 => case_strategy(w, 9..=12, 1..25), 1 => case_strategy(w, 13..=14, 1..16)], 1_u8..3).prop_map(|(c, prep)| SimCase { prep, ..c }).boxed()
}

pub struct C01;
impl Prop for C01 {
    type Case = SimCase;
    const ID: &'static str = "C01";
    const RULE: &'static str = "case: 1..7 (rarely 9..12) qubits prepared in |0..0>, a generic product or a generic entangled state (settled or still pending), then up to 80 gates with angles from a per-case palette (multiples of pi, near multiples, cancelling, random), optional probability/state probes, operations with up to 140 controls on a register wider than a machine word, and bursts across the 10000-operation queue limit; the full state is compared with an eager reference simulator. Non-trivial: at least 4 gates, a gate that creates superposition, and at least 2 populated basis states.";
    const ASSUMPTIONS: &'static [&'static str] = ASSUME;
    fn strategy(tier: Tier) -> BoxedStrategy<SimCase> {
        let w = W { gate: 6, rot: 9, cgate: 6, crot: 3, phase: 1, swap: 2, prob: 1, state: 1, wide: 2, ..W::default() };
        let wb = W { burst: 6, ..w };
        prop_oneof![
            400 => case_strategy(W { prob: 0, state: 0, ..w }, 1..=3, 1..16),
            400 => case_strategy(w, 1..=4, 1..40),
            160 => case_strategy(w, 2..=7, 10..tier.pick(80, 200)),
            20 => case_strategy(wb, 1..=3, 1..8),
            2 => wide_state(w),
        ]
        .boxed()
    }
    fn cases(tier: Tier) -> u64 {
        tier.pick(1_200_000, 16_000_000)
    }
    fn check(c: &SimCase, ctx: &mut Ctx) -> Result<(), String> {
        run(c, ctx)
    }
}

pub struct C02;
impl Prop for C02 {
    type Case = SimCase;
    const ID: &'static str = "C02";
    const RULE: &'static str = "case: as C01 with exponentials of random Pauli strings (0..4, rarely 5..10 targets, 0..2 controls) and random unitaries (dense, permutation, diagonal, tensor, two-level; 0..3, rarely 4..5 targets, 0..2 controls) mixed with gates, swaps, allocations, releases and strings over up to 140 qubits. Non-trivial: at least one exponential or matrix, 4 operations and 2 populated basis states.";
    const ASSUMPTIONS: &'static [&'static str] = ASSUME;
    fn strategy(tier: Tier) -> BoxedStrategy<SimCase> {
        let w = W { gate: 2, rot: 4, cgate: 2, crot: 1, swap: 2, exp: 8, mat: 0, alloc: 1, release: 2, measure: 0, prob: 1, wide: 1, ..W::default() };
        prop_oneof![
            300 => case_strategy(w, 1..=5, 1..14),
            250 => case_strategy(W { mat: 8, exp: 0, ..w }, 1..=5, 1..14),
            200 => case_strategy(W { mat: 8, ..w }, 2..=6, 1..tier.pick(30, 80)),
            6 => case_strategy(W { exp: 16, ..w }, 6..=9, 1..8),
            1 => wide_state(W { mat: 3, ..w }),
        ]
        .boxed()
    }
    fn cases(tier: Tier) -> u64 {
        tier.pick(1_000_000, 10_000_000)
    }
    fn check(c: &SimCase, ctx: &mut Ctx) -> Result<(), String> {
        let r = run(c, ctx);
        let used = c.ops.iter().any(|o| matches!(o, Op::Exp(..) | Op::Mat(..)));
        ctx.nontrivial &= used;
        r
    }
}

/// One history, or the outcome frequencies of one circuit over many runs.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum C03Case {
    Hist(SimCase),
    Freq {
        circuit: SimCase,
        /// Measure these jointly first, then every qubit in turn.
        joint: Vec<u8>,
        runs: u32,
        /// One random stream for all the runs instead of one seed for each.
        one_stream: bool,
        /// Release this qubit (and so measure it) before measuring the others.
        drop: Option<u8>,
    },
    /// A qubit with an unlikely outcome, with copies of it, over enough runs to see that outcome.
    Rare {
        seed: u32,
        /// The unlikely outcome's probability is 2e-5 * 1000^(p/65536).
        p: u16,
        /// The unlikely outcome is 0 rather than 1.
        zero: bool,
        /// The other qubits: 0 idle, 1 a copy, 2 a complement, 3 flipped, 4 in superposition.
        others: Vec<u8>,
        joint: Vec<u8>,
        drop: Option<u8>,
        one_stream: bool,
    },
}

pub struct C03;

/// Counts outcomes over many runs and compares them with the exact distribution. The bound is the
/// method-of-types bound on the relative entropy: a sound sampler exceeds it with probability below
/// e^-45.
fn frequencies(
    circuit: &SimCase,
    joint: &[u8],
    drop: Option<u8>,
    runs: u32,
    one_stream: bool,
    ctx: &mut Ctx,
) -> Result<(), String> {
    let mut m = prepared(circuit, 6)?;
    m.run(&circuit.ops)?;
    let mut live = m.live();
    let mut all = m.live_all();
    if live.is_empty() || m.cands.len() != 1 {
        return Ok(());
    }
    let dropped = drop.filter(|_| live.len() > 1).map(|d| pick_one(&live, d));
    live.retain(|q| Some(*q) != dropped);
    all.retain(|q| Some(*q) != dropped);
    let reference = m.cands[0].clone();
    let exact: HashMap<Key, f64> = {
        let mut d = HashMap::new();
        for (k, v) in &reference.amps {
            let mut k = k.clone();
            if let Some(q) = dropped {
                k.set(q, false);
            }
            *d.entry(k).or_insert(0.0) += v.norm_sqr();
        }
        d
    };
    let mut counts: HashMap<Key, u32> = HashMap::new();
    let mut stream = Raw::new(u64::from(circuit.seed));
    let jids = pick_many(&live, joint, &[]);
    for r in 0..runs {
        let mut fresh;
        let raw = if one_stream {
            stream.release_all();
            &mut stream
        } else {
            fresh = Raw::new(u64::from(circuit.seed) * 1_000_003 + u64::from(r));
            &mut fresh
        };
        raw.prepare(circuit);
        for op in &circuit.ops {
            raw.step(op)?;
        }
        if let Some(q) = dropped {
            raw.sim.release(q);
            raw.live.remove(&q);
        }
        let j = raw.sim.joint_measure(&jids);
        let mut key = Key::default();
        for q in &all {
            if raw.sim.measure(*q) {
                key.set(*q, true);
            }
        }
        let par = jids.iter().filter(|q| key.bit(**q)).count() % 2 == 1;
        if par != j {
            return Err(format!("joint measurement of {jids:?} returned {j} but the qubits then read {key:?}"));
        }
        *counts.entry(key).or_default() += 1;
    }
    let n = f64::from(runs);
    let mut kl = 0.0;
    for (k, c) in &counts {
        let p = exact.get(k).copied().unwrap_or(0.0);
        if p < 1e-12 {
            return Err(format!("outcome {k:?} has ideal probability {p} and was returned {c} times in {runs} runs"));
        }
        let f = f64::from(*c) / n;
        kl += f * (f / p).ln();
    }
    let support = exact.values().filter(|p| **p > 1e-12).count() as f64;
    let bound = 45.0 + (support - 1.0).max(0.0) * (n + 1.0).ln();
    if n * kl > bound {
        let mut v: Vec<_> = exact
            .iter()
            .map(|(k, p)| (k.0.first().copied().unwrap_or(0), p * n, counts.get(k).copied().unwrap_or(0)))
            .collect();
        v.sort_by_key(|x| x.0);
        return Err(format!(
            "outcome frequencies over {runs} runs do not match the probabilities (n*KL = {:.1} > {bound:.1}): (outcome, expected, seen) {v:?}",
            n * kl
        ));
    }
    ctx.label("frequencies");
    ctx.label_if(dropped.is_some(), "frequencies_after_release");
    ctx.nontrivial(support >= 2.0);
    Ok(())
}

impl Prop for C03 {
    type Case = C03Case;
    const ID: &'static str = "C03";
    const RULE: &'static str = "case: (a) a history of gates, exponentials, single and joint measurements, forced collapses, probability queries and zero checks on 1..5 qubits, where every reported probability, every outcome and every state after a collapse is compared with the reference's projection; (b) one measured circuit run thousands of times (one seed per run, or one stream) whose full outcome distribution is compared with the exact one under a relative-entropy bound, also after releasing one of the qubits, and also for outcomes as unlikely as 2e-5 over enough runs to see them. Non-trivial: a collapse of a state with at least two populated basis states.";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "amplitude tolerance as in C01",
        "forced values with ideal probability between 1e-12 and 1e-5 are not judged (the threshold for 'impossible' is not specified)",
        "the frequency bound has false-alarm probability below e^-45 for an ideal sampler",
    ];
    fn strategy(tier: Tier) -> BoxedStrategy<C03Case> {
        let w = W { gate: 4, rot: 6, cgate: 4, crot: 2, swap: 1, exp: 1, measure: 4, joint: 4, force: 3, prob: 4, zero: 2, state: 1, release: 1, alloc: 1, wide: 2, ..W::default() };
        let g = W { gate: 4, rot: 6, cgate: 4, crot: 2, swap: 1, ..W::default() };
        prop_oneof![
            12000 => case_strategy(w, 1..=5, 1..40).prop_map(C03Case::Hist),
            10 => wide_state(w).prop_map(C03Case::Hist),
            2 => (
                any::<u32>(),
                any::<u16>(),
                any::<bool>(),
                prop::collection::vec(0_u8..5, 0..4),
                prop::collection::vec(0_u8..12, 0..=3),
                prop::option::weighted(0.3, 0_u8..12),
                any::<bool>(),
            ).prop_map(|(seed, p, zero, others, joint, drop, one_stream)| C03Case::Rare { seed, p, zero, others, joint, drop, one_stream }),
            30 => (
                case_strategy(g, 1..=3, 1..8),
                prop::collection::vec(0_u8..12, 0..=3),
                any::<bool>(),
                prop::option::weighted(0.3, 0_u8..12),
            ).prop_map(move |(circuit, joint, one_stream, drop)| C03Case::Freq {
                circuit, joint, one_stream, drop, runs: tier.pick(3000, 20_000),
            }),
        ]
        .boxed()
    }
    fn cases(tier: Tier) -> u64 {
        tier.pick(600_000, 12_000_000)
    }
    fn check(c: &C03Case, ctx: &mut Ctx) -> Result<(), String> {
        match c {
            C03Case::Hist(c) => {
                let mut m = prepared(c, if c.qubits > 9 { 15 } else { 10 })?;
                m.run(&c.ops)?;
                if !m.dull {
                    m.compare("final state")?;
                }
                m.labels(ctx);
                ctx.nontrivial(m.st.collapses >= 1 && m.st.entries_max >= 2);
                Ok(())
            }
            C03Case::Freq { circuit, joint, runs, one_stream, drop } => {
                frequencies(circuit, joint, *drop, *runs, *one_stream, ctx)
            }
            C03Case::Rare { seed, p, zero, others, joint, drop, one_stream } => {
                let p = 2e-5 * 1000.0_f64.powf(f64::from(*p) / 65536.0);
                let mut ops = vec![Op::R(1, Fl(2.0 * p.sqrt().asin()), 0)];
                if *zero {
                    ops.push(Op::G(0, 0));
                }
                for (i, o) in others.iter().enumerate() {
                    let q = i as u8 + 1;
                    match o {
                        1 => ops.push(Op::CG(0, vec![0], q)),
                        2 => ops.extend([Op::G(0, q), Op::CG(0, vec![0], q)]),
                        3 => ops.push(Op::G(0, q)),
                        4 => ops.push(Op::G(3, q)),
                        _ => {}
                    }
                }
                let circuit = SimCase { seed: *seed, qubits: 1 + others.len() as u8, prep: 0, settle: seed % 2 == 0, ops, pad: 0 };
                ctx.label("rare_outcome");
                // Enough for the unlikely outcome's absence to exceed the bound.
                let free = 1 << (1 + others.iter().filter(|o| **o == 4).count());
                let runs = (60.0 + 15.0 * f64::from(free - 1)) / p;
                frequencies(&circuit, joint, *drop, runs as u32, *one_stream, ctx)
            }
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C04Case {
    pub hist: SimCase,
    /// The order of the final releases.
    pub finish: Vec<u8>,
}

pub struct C04;
impl Prop for C04 {
    type Case = C04Case;
    const ID: &'static str = "C04";
    const RULE: &'static str = "case: a history heavy in allocation, release (any order, any state, pending operations), relabelling, gates, matrices and observations on up to 8 (rarely 9..15) qubits, then releasing the rest one by one in a generated order with a full state comparison after each, a fresh allocation that must be in |0>, and a release of everything. Random release outcomes are tracked as alternative reference states. Non-trivial: at least one release or middle-of-register allocation while two or more basis states are populated.";
    const ASSUMPTIONS: &'static [&'static str] = ASSUME;
    fn strategy(tier: Tier) -> BoxedStrategy<C04Case> {
        let w = W { gate: 4, rot: 4, cgate: 4, crot: 1, swap: 4, exp: 1, mat: 1, measure: 1, release: 8, alloc: 9, prob: 1, state: 1, dump: 1, wide: 1, ..W::default() };
        (
            prop_oneof![
                6000 => case_strategy(w, 0..=5, 1..30),
                4000 => case_strategy(W { swap: 1, gate: 8, rot: 8, cgate: 8, mat: 0, ..w }, 2..=5, 4..60),
                2000 => case_strategy(w, 0..=5, 20..tier.pick(60, 160)),
                5 => wide_state(W { alloc: 2, ..w }),
            ],
            prop::collection::vec(0_u8..12, 0..8),
        )
            .prop_map(|(hist, finish)| C04Case { hist, finish })
            .boxed()
    }
    fn cases(tier: Tier) -> u64 {
        tier.pick(900_000, 10_000_000)
    }
    fn check(c: &C04Case, ctx: &mut Ctx) -> Result<(), String> {
        let mut m = prepared(&c.hist, if c.hist.qubits > 8 { 15 } else { 8 })?;
        m.run(&c.hist.ops)?;
        m.labels(ctx);
        ctx.nontrivial((m.st.releases >= 1 || m.st.reallocs >= 1) && m.st.entries_max >= 2);
        for p in &c.finish {
            if m.dull || m.live().is_empty() {
                break;
            }
            m.step(&Op::Release(*p)).map_err(|e| format!("final releases: {e}"))?;
            if !m.dull {
                m.compare("after a final release")?;
            }
            let id = m.cands[0].lowest_free();
            m.step(&Op::Alloc)?;
            if !m.dull && !m.sim.qubit_is_zero(id) {
                return Err(format!("qubit {id} is not in |0> right after allocation"));
            }
            m.step(&Op::Release((m.live().iter().position(|q| *q == id).unwrap()) as u8))?;
        }
        // With nothing allocated the machine is as new.
        let mut left = m.live_all();
        left.sort_by_key(|q| (q * 7 + c.finish.len()) % 5);
        for q in left {
            m.sim.release(q);
        }
        let (s, n) = m.sim.get_state();
        if n != 0 || s.len() != 1 || s[0].0.bits() != 0 || (s[0].1.norm() - 1.0).abs() > 1e-9 {
            return Err(format!("after releasing every qubit the state is {s:?} over {n} qubits"));
        }
        m.cands = vec![RefSim::new()];
        m.tol = 1e-9;
        m.dull = false;
        m.pad = 0;
        m.step(&Op::Alloc)?;
        m.compare("a fresh qubit after releasing every qubit")
    }
}
