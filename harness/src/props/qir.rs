//! C08..C11: the QIR layer against the model.

use crate::qirops::*;
use crate::simops::pick_one;
use qir_backend::*;
use serde::{Deserialize, Serialize};
use vdriver::proptest::prelude::*;
use vdriver::{Ctx, Prop, Tier};

fn run_model(c: &QCase, ctx: &mut Ctx) -> Result<Qir, String> {
    initialize();
    buffer_output();
    set_rng_seed(u64::from(c.seed));
    let mut q = Qir::start(&c, true)?;
    for (i, op) in c.ops.iter().enumerate() {
        q.step(op).map_err(|m| format!("at op {i} {op:?}: {m}"))?;
    }
    q.state("final state")?;
    ctx.label_if(c.pad >= 58, "register_wider_than_a_word");
    ctx.label(if c.pool.is_some() { "static_qubits" } else { "dynamic_qubits" });
    Ok(q)
}

pub struct C09;
impl Prop for C09 {
    type Case = QCase;
    const ID: &'static str = "C09";
    const RULE: &'static str = "case: a QIR program over 1..5 static or up to 9 dynamic qubits, rarely beside up to 300 padding qubits that also serve as controls and in Pauli strings, calling every gate intrinsic (body, adjoint, controlled, controlled-adjoint; R, Exp, Rxx/Ryy/Rzz, SX, CX/CY/CZ/CCX, SWAP) with generated angles, Pauli arrays and control arrays, with measurements, resets and allocations between; the captured state and qubit count are compared with the reference after the program and at observations, and every operand array and tuple is compared byte for byte after each call. Non-trivial: 4 or more intrinsics applied and 2 or more populated basis states.";
    const ASSUMPTIONS: &'static [&'static str] = &["amplitude tolerance as in C01", "R with the identity Pauli on a static qubit not yet mentioned is not generated (whether it becomes available is open)"];
    fn strategy(tier: Tier) -> BoxedStrategy<QCase> {
        let w = QW { gate: 6, rot: 5, ctl: 5, exp: 5, swap: 2, alloc: 3, meas: 1, joint: 1, reset: 1, store: 0, record: 0, look: 1 };
        prop_oneof![
            3 => qcase(QW { meas: 0, joint: 0, reset: 0, look: 0, ..w }, 1..12),
            3 => qcase(w, 2..30),
            1 => qcase(w, 10..tier.pick(60, 160)),
        ]
        .boxed()
    }
    fn cases(tier: Tier) -> u64 {
        tier.pick(900_000, 10_000_000)
    }
    fn check(c: &QCase, ctx: &mut Ctx) -> Result<(), String> {
        let mut q = run_model(c, ctx)?;
        let st = &q.model.as_ref().unwrap().m.st;
        ctx.nontrivial(st.gates >= 4 && st.entries_max >= 2);
        ctx.label_if(c.ops.iter().any(|o| matches!(o, QOp::ExpCtl(..) | QOp::Exp(..))), "exp");
        ctx.label_if(c.ops.iter().any(|o| matches!(o, QOp::Ctl(..) | QOp::RotCtl(..) | QOp::RCtl(..))), "controlled");
        q.dispose();
        Ok(())
    }
}

pub struct C10;
impl Prop for C10 {
    type Case = QCase;
    const ID: &'static str = "C10";
    const RULE: &'static str = "case: a QIR program mixing gates with destructive, resetting, plain and Pauli-basis joint measurements, result reads and writes over identifiers up to 300 and rarely 70000, rarely on registers of up to 300 qubits, result recording (stored and returned, tagged and not), resets and allocation; every stored or returned value is compared with the reference's possible outcomes and every read with the last stored value, and all identifiers in use and their neighbours are read back at the end. Non-trivial: at least one measurement and one read, record or joint measurement.";
    const ASSUMPTIONS: &'static [&'static str] = &["amplitude tolerance as in C01", "programs that store results under identifiers do not record returned results, and results are not recorded by identifier before any is stored (the two kinds share one pointer space)"];
    fn strategy(tier: Tier) -> BoxedStrategy<QCase> {
        let w = QW { gate: 4, rot: 3, ctl: 1, exp: 1, swap: 1, alloc: 2, meas: 5, joint: 5, reset: 3, store: 4, record: 4, look: 1 };
        let d = QW { gate: 4, rot: 4, ctl: 1, alloc: 3, joint: 6, reset: 2, record: 5, look: 1, ..QW::default() };
        prop_oneof![
            3 => qcase(w, 2..30),
            2 => qcase(d, 2..20),
            1 => qcase(w, 10..tier.pick(70, 200)),
        ]
        .boxed()
    }
    fn cases(tier: Tier) -> u64 {
        tier.pick(800_000, 10_000_000)
    }
    fn check(c: &QCase, ctx: &mut Ctx) -> Result<(), String> {
        let mut q = run_model(c, ctx)?;
        let joint = c.ops.iter().filter(|o| matches!(o, QOp::Measure(..))).count();
        let reads = c.ops.iter().filter(|o| matches!(o, QOp::Read(..) | QOp::RecRes(..) | QOp::RecDyn(..))).count();
        if q.touched {
            q.check_results()?;
        }
        let st = &q.model.as_ref().unwrap().m.st;
        ctx.nontrivial(st.collapses >= 1 && (joint + reads) >= 1);
        ctx.label_if(joint > 0, "joint_pauli_measurement");
        ctx.label_if(c.ops.iter().any(|o| matches!(o, QOp::MResetZ(..))), "measure_and_reset");
        ctx.label_if(q.model.as_ref().unwrap().res.len() >= 3, "three_or_more_results");
        q.dispose();
        Ok(())
    }
}

// ---------------------------------------------------------------- C08 and C11

/// Runs a program without model; the trace is all that can be observed.
fn trace(c: &QCase) -> Result<Vec<Obs>, String> {
    let mut q = Qir::start(&c, false)?;
    for (i, op) in c.ops.iter().enumerate() {
        q.step(op).map_err(|m| format!("at op {i} {op:?}: {m}"))?;
    }
    q.state("final")?;
    q.dispose();
    Ok(q.trace)
}

/// A program that leaves as much as it can behind.
fn dirty(c: &QCase) -> Result<(), String> {
    let mut q = Qir::start(&c, false)?;
    for op in &c.ops {
        // (An earlier program may have stored results, and the kinds share one pointer space.)
        if !matches!(op, QOp::RecDyn(..)) {
            q.step(op)?;
        }
    }
    // Leave deferred operations pending.
    let ids = q.ids();
    if !ids.is_empty() {
        let t = pick_one(&ids, 3);
        __quantum__qis__h__body(qp(t));
        __quantum__qis__rx__body(0.3, qp(pick_one(&ids, 1)));
        __quantum__qis__ry__body(0.3, qp(pick_one(&ids, 2)));
        __quantum__qis__x__body(qp(t));
    }
    q.dispose();
    Ok(())
}

fn flips(n: usize) -> Vec<bool> {
    (0..n)
        .map(|_| {
            let q = __quantum__rt__qubit_allocate();
            __quantum__qis__h__body(q);
            let b = __quantum__qis__m__body(q) == result_bool::__quantum__rt__result_get_one();
            __quantum__rt__qubit_release(q);
            b
        })
        .collect()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C08Case {
    pub prog: QCase,
    pub before: QCase,
    pub shots: u8,
    /// Where to re-initialise in a stream of coin flips.
    pub cuts: Vec<u8>,
    pub seed64: u64,
    pub threaded: bool,
}

fn strip_looks(c: &QCase) -> QCase {
    QCase {
        ops: c.ops.iter().filter(|o| !matches!(o, QOp::State | QOp::Dump | QOp::IsZero(_))).cloned().collect(),
        ..c.clone()
    }
}

fn bits(t: &[Obs]) -> Vec<bool> {
    t.iter().filter_map(|o| if let Obs::Bit(b) = o { Some(*b) } else { None }).collect()
}

pub struct C08;
impl Prop for C08 {
    type Case = C08Case;
    const ID: &'static str = "C08";
    const RULE: &'static str = "case: a QIR program run for 1..5 shots from a 64-bit seed, twice: once after nothing and once after an unrelated program (left unreleased, with pending operations and other draws), and with observations removed or on another thread; all traces must agree. Coin flips across re-initialisations must continue the stream of an uninterrupted run, seeding again restarts it, shots and seeds differ (64 flips), also under concurrent activity on another thread. Non-trivial: the program has a measurement, or two or more shots of coin flips are compared.";
    const ASSUMPTIONS: &'static [&'static str] = &["two different seeds or consecutive stretches of one stream give equal 64-flip sequences with probability 2^-64"];
    fn strategy(tier: Tier) -> BoxedStrategy<C08Case> {
        let w = QW { gate: 5, rot: 5, ctl: 2, exp: 1, swap: 1, alloc: 3, meas: 5, joint: 3, reset: 2, store: 1, record: 2, look: 2 };
        (
            qcase(w, 2..tier.pick(25, 60)),
            qcase(w, 0..15),
            1_u8..=5,
            prop::collection::vec(any::<u8>(), 0..5),
            prop_oneof![any::<u64>(), 0_u64..5, Just(u64::MAX), any::<u32>().prop_map(u64::from), any::<u32>().prop_map(|x| u64::from(x) << 32)],
            prop::bool::weighted(0.2),
        )
            .prop_map(|(prog, before, shots, cuts, seed64, threaded)| C08Case { prog, before, shots, cuts, seed64, threaded })
            .boxed()
    }
    fn cases(tier: Tier) -> u64 {
        tier.pick(150_000, 2_500_000)
    }
    fn check(c: &C08Case, ctx: &mut Ctx) -> Result<(), String> {
        let shots = |prog: &QCase| -> Result<Vec<Vec<Obs>>, String> {
            (0..c.shots)
                .map(|_| {
                    initialize();
                    trace(prog)
                })
                .collect()
        };
        let cmp = |a: &[Vec<Obs>], b: &[Vec<Obs>], what: &str| -> Result<(), String> {
            for (i, (x, y)) in a.iter().zip(b).enumerate() {
                if let Some(d) = trace_diff(x, y) {
                    return Err(format!("{what}: shot {i} differs: {d}"));
                }
            }
            Ok(())
        };
        buffer_output();
        initialize();
        set_rng_seed(c.seed64);
        let first = shots(&c.prog)?;

        initialize();
        dirty(&c.before)?;
        set_rng_seed(c.seed64);
        let second = shots(&c.prog)?;
        cmp(&first, &second, "run again after an unrelated program, from the same seed")?;

        // Seeding just before or just after initialising is the same. (Static and dynamic programs do
        // not share a machine.)
        if c.prog.pool.is_some() != c.before.pool.is_some() {
            initialize();
        }
        dirty(&c.before)?;
        initialize();
        set_rng_seed(c.seed64);
        let third = trace(&c.prog)?;
        if let Some(d) = trace_diff(&first[0], &third) {
            return Err(format!("seeding after initialising: {d}"));
        }

        // Observations consume nothing.
        initialize();
        set_rng_seed(c.seed64);
        let bare = strip_looks(&c.prog);
        let quiet = shots(&bare)?;
        initialize();
        set_rng_seed(c.seed64);
        let looked = (0..c.shots)
            .map(|_| {
                initialize();
                let mut q = Qir::start(&bare, false)?;
                for op in &bare.ops {
                    let _ = capture_quantum_state();
                    q.step(op)?;
                }
                q.state("final")?;
                q.dispose();
                Ok(q.trace)
            })
            .collect::<Result<Vec<_>, String>>()?;
        for (i, (a, b)) in quiet.iter().zip(&looked).enumerate() {
            if bits(a) != bits(b) {
                return Err(format!("shot {i}: outcomes {:?} without and {:?} with observations", bits(a), bits(b)));
            }
        }

        // The stream: uninterrupted, and cut by initialisations and dirty programs without draws.
        initialize();
        set_rng_seed(c.seed64);
        let whole = flips(128);
        initialize();
        set_rng_seed(c.seed64);
        let mut parts = vec![];
        let mut cuts: Vec<usize> = c.cuts.iter().map(|x| *x as usize % 128).collect();
        cuts.push(128);
        cuts.sort_unstable();
        for cut in cuts {
            let n = cut - parts.len();
            parts.extend(flips(n));
            initialize();
        }
        if whole != parts {
            return Err(format!("re-initialising changes the random stream: {whole:?} uninterrupted, {parts:?} with re-initialisation after {:?} flips", c.cuts));
        }
        if whole[..64] == whole[64..] {
            return Err(format!("two stretches of 64 flips from one stream are equal: {whole:?}"));
        }
        set_rng_seed(c.seed64);
        if flips(64) != whole[..64] {
            return Err("seeding again does not restart the stream".into());
        }
        set_rng_seed(c.seed64 ^ (1 << (c.prog.seed % 64)));
        if flips(64) == whole[..64] {
            return Err(format!("seeds {} and {} give the same 64 outcomes", c.seed64, c.seed64 ^ (1 << (c.prog.seed % 64))));
        }

        // Other threads neither share nor disturb the stream.
        if c.threaded {
            let (go_tx, go_rx) = std::sync::mpsc::channel::<()>();
            let (done_tx, done_rx) = std::sync::mpsc::channel::<Vec<bool>>();
            let seed = c.seed64;
            let before = c.before.clone();
            let h = std::thread::spawn(move || {
                buffer_output();
                initialize();
                set_rng_seed(seed);
                while go_rx.recv().is_ok() {
                    let _ = done_tx.send(flips(16));
                    initialize();
                    if dirty(&before).is_err() {
                        break;
                    }
                    initialize();
                    set_rng_seed(seed);
                }
            });
            initialize();
            set_rng_seed(c.seed64);
            let mut mine = vec![];
            for _ in 0..4 {
                mine.extend(flips(16));
                go_tx.send(()).map_err(|e| e.to_string())?;
                let other = done_rx.recv().map_err(|e| format!("the other thread failed: {e}"))?;
                if other != whole[..16] {
                    return Err("the other thread's outcomes are not those of its seed".into());
                }
            }
            drop(go_tx);
            let _ = h.join();
            if mine != whole[..64] {
                return Err("another thread's activity changed this thread's outcomes".into());
            }
            ctx.label("other_thread");
        }
        ctx.nontrivial(c.prog.ops.iter().any(|o| matches!(o, QOp::Mz(..) | QOp::M(..) | QOp::MResetZ(..) | QOp::Measure(..))));
        ctx.label_if(c.shots > 1, "several_shots");
        Ok(())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C11Case {
    pub before: Vec<QCase>,
    pub prog: QCase,
    /// 0: compare with a fresh thread; 1: also interleave another thread's activity.
    pub mode: u8,
}

pub struct C11;
impl Prop for C11 {
    type Case = C11Case;
    const ID: &'static str = "C11";
    const RULE: &'static str = "case: 1..3 programs that leave qubits, pending operations and results behind, an initialisation, then a program whose whole trace (identifiers, outcomes, reads, records, states, printed dump) is compared with its trace on a new thread's machine from the same seed; in one mode another thread runs its own program step by step in between. Right after initialising there are 0 qubits, one basis state and every result reads false. Non-trivial: the earlier programs executed at least 3 operations and so did the program.";
    fn strategy(tier: Tier) -> BoxedStrategy<C11Case> {
        let w = QW { gate: 5, rot: 5, ctl: 2, exp: 1, swap: 1, alloc: 3, meas: 4, joint: 2, reset: 2, store: 3, record: 3, look: 2 };
        (
            prop::collection::vec(qcase(w, 1..15), 1..=3),
            qcase(w, 1..tier.pick(25, 60)),
            prop_oneof![3 => Just(0_u8), 1 => Just(1_u8)],
        )
            .prop_map(|(before, prog, mode)| C11Case { before, prog, mode })
            .boxed()
    }
    fn cases(tier: Tier) -> u64 {
        tier.pick(200_000, 3_000_000)
    }
    fn check(c: &C11Case, ctx: &mut Ctx) -> Result<(), String> {
        let seed = u64::from(c.prog.seed);
        let prog = c.prog.clone();
        // A new thread has a new machine.
        let fresh = std::thread::spawn(move || {
            buffer_output();
            set_rng_seed(seed);
            let t = trace(&prog)?;
            let out = recorded(|| __quantum__qis__dumpmachine__body(std::ptr::null_mut()));
            Ok::<_, String>((t, out))
        })
        .join()
        .map_err(|_| "the program failed on a fresh machine".to_string())??;

        buffer_output();
        initialize();
        let mut last = None;
        for b in &c.before {
            // Static and dynamic programs do not share a machine.
            if last.is_some_and(|l| l != b.pool.is_none()) {
                initialize();
            }
            last = Some(b.pool.is_none());
            dirty(b)?;
            if b.seed % 3 == 0 {
                initialize();
            }
        }
        if c.before.last().unwrap().seed % 2 == 0 {
            set_rng_seed(seed);
            initialize();
        } else {
            initialize();
            set_rng_seed(seed);
        }
        let (s, n) = capture_quantum_state();
        if n != 0 || s.len() != 1 || s[0].0.bits() != 0 {
            return Err(format!("after initialising: {n} qubits, state {s:?}"));
        }
        if seed % 4 == 0 {
            // Reading results allocates storage for them, which the dump would then show.
            let out = recorded(|| __quantum__qis__dumpmachine__body(std::ptr::null_mut()));
            if !out.starts_with("STATE: [ |0") || out.lines().count() != 1 {
                return Err(format!("after initialising the dump prints {out:?}"));
            }
        }
        let got = if c.mode == 0 {
            trace(&c.prog)?
        } else {
            ctx.label("other_thread");
            let (go_tx, go_rx) = std::sync::mpsc::channel::<usize>();
            let (done_tx, done_rx) = std::sync::mpsc::channel::<Result<(), String>>();
            let other = c.before[0].clone();
            let h = std::thread::spawn(move || {
                buffer_output();
                initialize();
                set_rng_seed(99);
                let mut q = Qir::start(&other, true).expect("padding");
                while let Ok(i) = go_rx.recv() {
                    let r = match other.ops.get(i) {
                        Some(op) => q.step(op),
                        None => {
                            initialize();
                            q = Qir::start(&other, true).expect("padding");
                            Ok(())
                        }
                    };
                    let _ = done_tx.send(r);
                }
            });
            let mut q = Qir::start(&c.prog, false)?;
            for (i, op) in c.prog.ops.iter().enumerate() {
                go_tx.send(i).map_err(|e| e.to_string())?;
                done_rx.recv().map_err(|e| e.to_string())?.map_err(|m| format!("the other thread's program, step {i}: {m}"))?;
                q.step(op).map_err(|m| format!("at op {i}: {m}"))?;
            }
            q.state("final")?;
            drop(go_tx);
            let _ = h.join();
            q.dispose();
            q.trace
        };
        if let Some(d) = trace_diff(&fresh.0, &got) {
            return Err(format!("the program behaves differently after earlier programs and initialisation: fresh against reused: {d}"));
        }
        let out = recorded(|| __quantum__qis__dumpmachine__body(std::ptr::null_mut()));
        if strip_state(&fresh.1) != strip_state(&out) {
            return Err(format!("final dump {:?} on a fresh machine, {out:?} on the reused one", fresh.1));
        }
        // Every stored result is gone after initialising.
        initialize();
        let stored = c.before.iter().chain([&c.prog]).flat_map(|p| &p.ops).filter_map(|o| match o {
            QOp::Mz(_, r) | QOp::MResetZ(_, r) | QOp::Write(_, r) => Some(*r as usize),
            _ => None,
        });
        for r in (0..40).chain(stored) {
            if __quantum__rt__read_result(qp(r)) {
                return Err(format!("result {r} reads true after initialising"));
            }
        }
        let n = capture_quantum_state().1;
        if n != 0 {
            return Err(format!("{n} qubits after initialising"));
        }
        initialize();
        ctx.nontrivial(c.before.iter().map(|b| b.ops.len()).sum::<usize>() >= 3 && c.prog.ops.len() >= 3);
        Ok(())
    }
}

/// The dump without the amplitudes, which may differ by rounding.
fn strip_state(d: &str) -> String {
    d.lines().filter(|l| !l.starts_with("STATE")).collect()
}
