//! C14: callables.

use qir_backend::callables::*;
use qir_backend::*;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use vdriver::proptest::prelude::*;
use vdriver::{Ctx, Prop, Tier};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Inv {
    pub who: u8,
    /// No argument tuple at all (only without controls).
    pub null_args: bool,
    pub payload: Vec<u8>,
    /// Control list lengths, outermost first.
    pub lens: Vec<u32>,
    pub res: u16,
    /// What the called entry invokes in turn.
    pub then: Option<Box<Inv>>,
    /// What the called entry does to other callables before that.
    #[serde(default)]
    pub inner: Vec<FOp>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum FOp {
    /// Table, memory table kind, capture.
    New(u8, u8, u16),
    Copy(u8, bool),
    Adjoint(u8),
    /// Applied a number of times.
    Controlled(u8, u32),
    Alias(u8, i8),
    Ref(u8, u8),
    Drop(u8),
    Invoke(Inv),
    /// Alias count (true) or reference count of the captures.
    Capture(u8, bool, i32),
}

#[derive(Clone, Debug)]
struct Model {
    ptr: usize,
    table: usize,
    mem: usize,
    cap: usize,
    adj: bool,
    ctls: usize,
    refs: i64,
    alias: i64,
}

#[derive(Debug, Clone, PartialEq)]
struct Seen {
    table: usize,
    entry: usize,
    cap: usize,
    res: usize,
    ctls: Option<Vec<usize>>,
    payload: Option<Vec<u8>>,
}

struct Plan {
    has_args: bool,
    has_ctls: bool,
    /// Bytes of the argument tuple that reaches the entry.
    size: usize,
    then: Option<Box<Inv>>,
    inner: Vec<FOp>,
}

thread_local! {
    static PLANS: RefCell<Vec<Plan>> = const { RefCell::new(Vec::new()) };
    static SEEN: RefCell<Vec<Seen>> = const { RefCell::new(Vec::new()) };
    static COUNTS: RefCell<Vec<(usize, usize, i32)>> = const { RefCell::new(Vec::new()) };
    static WORLD: Cell<*mut World> = const { Cell::new(std::ptr::null_mut()) };
    static TROUBLE: RefCell<Option<String>> = const { RefCell::new(None) };
}

extern "C" fn ent<const T: usize, const E: usize>(cap: *mut u8, args: *mut u8, res: *mut u8) {
    let plan = PLANS.with(|p| p.borrow_mut().pop());
    let Some(plan) = plan else {
        TROUBLE.with(|t| *t.borrow_mut() = Some(format!("entry {E} of table {T} was called when no call was expected")));
        return;
    };
    let mut seen = Seen { table: T, entry: E, cap: cap as usize, res: res as usize, ctls: None, payload: None };
    if plan.has_args && !args.is_null() {
        unsafe {
            if plan.has_ctls {
                let a = *args.cast::<*const QirArray>();
                let n = __quantum__rt__array_get_size_1d(a);
                seen.ctls = Some((0..n.min(3_000_000)).map(|i| *__quantum__rt__array_get_element_ptr_1d(a, i).cast::<usize>()).collect());
                seen.payload = Some(std::slice::from_raw_parts(args.add(8), plan.size - 8).to_vec());
            } else {
                seen.payload = Some(std::slice::from_raw_parts(args, plan.size).to_vec());
            }
        }
    }
    SEEN.with(|s| s.borrow_mut().push(seen));
    if plan.then.is_some() || !plan.inner.is_empty() {
        let w = WORLD.with(Cell::get);
        let r = unsafe {
            run(&plan.inner, &mut *w).and_then(|()| match &plan.then {
                Some(then) => (*w).invoke(then),
                None => Ok(()),
            })
        };
        if let Err(m) = r {
            TROUBLE.with(|t| {
                t.borrow_mut().get_or_insert(format!("in a nested call: {m}"));
            });
        }
    }
}

extern "C" fn mem<const T: usize, const E: usize>(cap: *mut u8, n: i32) {
    COUNTS.with(|c| c.borrow_mut().push((T * 2 + E, cap as usize, n)));
}

type Entry = extern "C" fn(*mut u8, *mut u8, *mut u8);
type MemFn = Option<extern "C" fn(*mut u8, i32)>;
struct Tables([[Entry; 4]; 3]);
struct Mems([[MemFn; 2]; 5]);
static TABLES: Tables = Tables([
    [ent::<0, 0>, ent::<0, 1>, ent::<0, 2>, ent::<0, 3>],
    [ent::<1, 0>, ent::<1, 1>, ent::<1, 2>, ent::<1, 3>],
    [ent::<2, 0>, ent::<2, 1>, ent::<2, 2>, ent::<2, 3>],
]);
/// 0: no table (null pointer).
static MEMS: Mems = Mems([
    [None, None],
    [None, None],
    [Some(mem::<2, 0>), None],
    [None, Some(mem::<3, 1>)],
    [Some(mem::<4, 0>), Some(mem::<4, 1>)],
]);

#[derive(Default)]
struct World {
    objs: Vec<Model>,
    invoked: usize,
    deep: usize,
    nested: usize,
    depth: usize,
    /// Callables being invoked, which their entries leave as they are.
    busy: Vec<usize>,
    changed_inside: bool,
}

impl World {
    fn is_busy(&mut self, i: usize) -> bool {
        self.changed_inside |= self.depth > 0;
        self.busy.contains(&self.objs[i].ptr)
    }

    fn pick(&self, p: u8) -> Option<usize> {
        (!self.objs.is_empty()).then(|| p as usize * self.objs.len() / 256)
    }

    fn invoke(&mut self, inv: &Inv) -> Result<(), String> {
        let Some(i) = self.pick(inv.who) else { return Ok(()) };
        if self.depth > 4 {
            return Ok(());
        }
        let m = self.objs[i].clone();
        let null = inv.null_args && m.ctls == 0;
        unsafe {
            // Innermost tuple: the control list (when controlled) and the payload.
            let lead = if m.ctls > 0 { 8 } else { 0 };
            let size = inv.payload.len() + lead;
            let innermost = __quantum__rt__tuple_create(size as u64).cast::<u8>();
            std::ptr::copy_nonoverlapping(inv.payload.as_ptr(), innermost.add(lead), inv.payload.len());
            let mut tuples = vec![(innermost as usize, vec![])];
            let mut arrays: Vec<(usize, Vec<usize>)> = vec![];
            let mut args = innermost;
            let mut flat = vec![];
            for d in (0..m.ctls).rev() {
                let n = *inv.lens.get(d).unwrap_or(&1) as usize;
                let ids: Vec<usize> = (0..n).map(|k| 1_000_000 * (d + 1) + 10 * k + inv.payload.len()).collect();
                let a = __quantum__rt__array_create_1d(8, n as u64);
                for (k, q) in ids.iter().enumerate() {
                    *__quantum__rt__array_get_element_ptr_1d(a, k as u64).cast::<usize>() = *q;
                }
                if d + 1 < m.ctls {
                    let t = __quantum__rt__tuple_create(16).cast::<u8>();
                    *t.cast::<usize>().add(1) = args as usize;
                    tuples.push((t as usize, vec![]));
                    args = t;
                }
                *args.cast::<usize>() = a as usize;
                flat = [ids.clone(), flat].concat();
                arrays.push((a as usize, ids));
            }
            for (k, t) in tuples.iter_mut().enumerate() {
                let n = if k == 0 { size } else { 16 };
                t.1 = std::slice::from_raw_parts(t.0 as *const u8, n).to_vec();
            }
            let want = Seen {
                table: m.table,
                entry: usize::from(m.adj) + if m.ctls > 0 { 2 } else { 0 },
                cap: m.cap,
                res: inv.res as usize * 16,
                ctls: (m.ctls > 0).then(|| flat.clone()),
                payload: (!null).then(|| inv.payload.clone()),
            };
            let before = SEEN.with(|s| s.borrow().len());
            let plans = PLANS.with(|p| p.borrow().len());
            PLANS.with(|p| p.borrow_mut().push(Plan { has_args: !null, has_ctls: m.ctls > 0, size, then: inv.then.clone(), inner: inv.inner.clone() }));
            self.depth += 1;
            self.busy.push(m.ptr);
            let w: *mut World = self;
            let was = WORLD.with(|x| x.replace(w));
            __quantum__rt__callable_invoke(m.ptr as *const Callable, if null { std::ptr::null_mut() } else { args }, (inv.res as usize * 16) as *mut u8);
            WORLD.with(|x| x.set(was));
            self.depth -= 1;
            self.busy.pop();
            if let Some(t) = TROUBLE.with(|t| t.borrow_mut().take()) {
                return Err(t);
            }
            if PLANS.with(|p| p.borrow().len()) != plans {
                return Err(format!("invoking {m:?} called no entry"));
            }
            let got = SEEN.with(|s| s.borrow().get(before).cloned());
            if got.as_ref() != Some(&want) {
                let lists: Vec<_> = arrays.iter().rev().map(|a| &a.1).collect();
                let msg = format!("invoking {m:?} with control lists {lists:?}: called {got:?}, expected {want:?}");
                return Err(if msg.len() < 6000 {
                    msg
                } else {
                    let part = |s: &Seen| format!("entry {} of table {} with capture {:#x}, result {:#x}, {:?} controls, {:?} bytes of arguments", s.entry, s.table, s.cap, s.res, s.ctls.as_ref().map(Vec::len), s.payload.as_ref().map(Vec::len));
                    format!("invoking {m:?} with control lists of lengths {:?}: called {:?}, expected {} (or the contents differ)", lists.iter().map(|l| l.len()).collect::<Vec<_>>(), got.as_ref().map(part), part(&want))
                });
            }
            for (k, (t, b)) in tuples.iter().enumerate() {
                if std::slice::from_raw_parts(*t as *const u8, b.len()) != b.as_slice() {
                    return Err(format!("invoking {m:?} changed argument tuple {k}"));
                }
            }
            for (k, (a, ids)) in arrays.iter().enumerate() {
                let a = *a as *const QirArray;
                let n = __quantum__rt__array_get_size_1d(a);
                let now: Vec<usize> = (0..n.min(3_000_000)).map(|i| *__quantum__rt__array_get_element_ptr_1d(a, i).cast::<usize>()).collect();
                if &now != ids {
                    return Err(if ids.len().max(now.len()) > 300 { format!("invoking {m:?} changed control list {k} of {} entries", ids.len()) } else { format!("invoking {m:?} changed control list {k} from {ids:?} to {now:?}") });
                }
                __quantum__rt__array_update_reference_count(a, -1);
            }
            for (t, _) in tuples {
                __quantum__rt__tuple_update_reference_count(t as *mut *const Vec<u8>, -1);
            }
        }
        self.invoked += 1;
        self.deep = self.deep.max(m.ctls);
        if self.depth > 0 {
            self.nested += 1;
        }
        Ok(())
    }

    fn give_up(&mut self, i: usize) {
        let m = self.objs.remove(i);
        unsafe {
            __quantum__rt__callable_update_alias_count(m.ptr as *const Callable, -(m.alias as i32));
            __quantum__rt__callable_update_reference_count(m.ptr as *const Callable, -(m.refs as i32));
        }
    }
}

fn run(ops: &[FOp], w: &mut World) -> Result<(), String> {
    for (k, op) in ops.iter().enumerate() {
        unsafe {
            match op {
                FOp::New(t, m, c) => {
                    let (t, m) = (*t as usize % 3, *m as usize % 5);
                    let cap = *c as usize * 16;
                    let mt = if m == 0 { std::ptr::null_mut() } else { MEMS.0[m].as_ptr().cast_mut().cast() };
                    let p = __quantum__rt__callable_create(TABLES.0[t].as_ptr().cast_mut().cast(), mt, cap as *mut u8);
                    w.objs.push(Model { ptr: p as usize, table: t, mem: m, cap, adj: false, ctls: 0, refs: 1, alias: 0 });
                }
                FOp::Copy(o, force) => {
                    let Some(i) = w.pick(*o) else { continue };
                    let m = w.objs[i].clone();
                    let p = __quantum__rt__callable_copy(m.ptr as *const Callable, *force) as usize;
                    if p == m.ptr {
                        if *force || m.alias > 0 {
                            return Err(format!("step {k}: a copy (forced {force}, alias count {}) is the same callable", m.alias));
                        }
                        w.objs[i].refs += 1;
                    } else {
                        w.objs.push(Model { ptr: p, refs: 1, alias: 0, ..m });
                    }
                }
                FOp::Adjoint(o) => {
                    let Some(i) = w.pick(*o) else { continue };
                    if w.is_busy(i) {
                        continue;
                    }
                    w.objs[i].adj = !w.objs[i].adj;
                    __quantum__rt__callable_make_adjoint(w.objs[i].ptr as *const Callable);
                }
                FOp::Controlled(o, n) => {
                    let Some(i) = w.pick(*o) else { continue };
                    if w.is_busy(i) {
                        continue;
                    }
                    for _ in 0..*n {
                        if w.objs[i].ctls >= if *n > 1 { 700 } else { 7 } {
                            break;
                        }
                        w.objs[i].ctls += 1;
                        __quantum__rt__callable_make_controlled(w.objs[i].ptr as *const Callable);
                    }
                }
                FOp::Alias(o, d) => {
                    let Some(i) = w.pick(*o) else { continue };
                    let d = i64::from(*d).max(-w.objs[i].alias);
                    w.objs[i].alias += d;
                    __quantum__rt__callable_update_alias_count(w.objs[i].ptr as *const Callable, d as i32);
                }
                FOp::Ref(o, d) => {
                    let Some(i) = w.pick(*o) else { continue };
                    w.objs[i].refs += i64::from(*d);
                    __quantum__rt__callable_update_reference_count(w.objs[i].ptr as *const Callable, i32::from(*d));
                }
                FOp::Drop(o) => {
                    let Some(i) = w.pick(*o) else { continue };
                    if w.objs[i].refs > 1 {
                        w.objs[i].refs -= 1;
                        __quantum__rt__callable_update_reference_count(w.objs[i].ptr as *const Callable, -1);
                    } else if !w.is_busy(i) {
                        w.give_up(i);
                    }
                }
                FOp::Invoke(inv) => w.invoke(inv).map_err(|m| format!("step {k}: {m}"))?,
                FOp::Capture(o, alias, d) => {
                    let Some(i) = w.pick(*o) else { continue };
                    let m = w.objs[i].clone();
                    COUNTS.with(|c| c.borrow_mut().clear());
                    if *alias {
                        __quantum__rt__capture_update_alias_count(m.ptr as *const Callable, *d);
                    } else {
                        __quantum__rt__capture_update_reference_count(m.ptr as *const Callable, *d);
                    }
                    let e = usize::from(*alias);
                    let want = if m.mem > 0 && MEMS.0[m.mem][e].is_some() { vec![(m.mem * 2 + e, m.cap, *d)] } else { vec![] };
                    let got = COUNTS.with(RefCell::take);
                    if got != want {
                        return Err(format!("step {k}: capture {} count update by {d} on {m:?} called {got:?}, expected {want:?}", if *alias { "alias" } else { "reference" }));
                    }
                }
            }
        }
        if w.objs.len() > 8 && w.depth == 0 {
            w.give_up(0);
        }
    }
    Ok(())
}

fn inv() -> BoxedStrategy<Inv> {
    let leaf = (any::<u8>(), prop::bool::weighted(0.15), prop_oneof![300 => prop::collection::vec(any::<u8>(), 0..28), 1 => (any::<u8>(), 28_usize..70_000).prop_map(|(x, n)| (0..n).map(|i| (i ^ i >> 8) as u8 ^ x).collect())], prop::collection::vec(prop_oneof![400 => 0_u32..6, 1 => 250_u32..300, 1 => 6_u32..70_000], 0..7), any::<u16>()).prop_map(|(who, null_args, payload, lens, res)| Inv { who, null_args, payload, lens, res, then: None, inner: vec![] });
    let inner = prop_oneof![4 => Just(vec![]).boxed(), 1 => prop::collection::vec(quiet(), 1..4).boxed()];
    (leaf.clone(), prop::collection::vec(leaf, 0..3), prop::bool::weighted(0.3), inner)
        .prop_map(|(mut a, rest, chain, inner)| {
            a.inner = inner;
            if chain {
                let mut t = None;
                for mut r in rest {
                    r.then = t;
                    t = Some(Box::new(r));
                }
                a.then = t;
            }
            a
        })
        .boxed()
}

/// Operations that call no entry.
fn quiet() -> BoxedStrategy<FOp> {
    let o = any::<u8>;
    prop_oneof![
        1 => (0_u8..3, 0_u8..5, any::<u16>()).prop_map(|(a, b, c)| FOp::New(a, b, c)),
        3 => (o(), any::<bool>()).prop_map(|(a, b)| FOp::Copy(a, b)),
        3 => o().prop_map(FOp::Adjoint),
        2 => o().prop_map(|a| FOp::Controlled(a, 1)),
        1 => (o(), -2_i8..3).prop_map(|(a, b)| FOp::Alias(a, b)),
        1 => o().prop_map(FOp::Drop),
        1 => (o(), any::<bool>(), -3_i32..4).prop_map(|(a, b, c)| FOp::Capture(a, b, c)),
    ]
    .boxed()
}

fn fop() -> BoxedStrategy<FOp> {
    let o = any::<u8>;
    prop_oneof![
        2 => (0_u8..3, 0_u8..5, any::<u16>()).prop_map(|(a, b, c)| FOp::New(a, b, c)),
        3 => (o(), any::<bool>()).prop_map(|(a, b)| FOp::Copy(a, b)),
        4 => o().prop_map(FOp::Adjoint),
        5 => (o(), prop_oneof![300 => Just(1_u32), 1 => 2_u32..9, 1 => 250_u32..300]).prop_map(|(a, b)| FOp::Controlled(a, b)),
        2 => (o(), -2_i8..3).prop_map(|(a, b)| FOp::Alias(a, b)),
        1 => (o(), 0_u8..5).prop_map(|(a, b)| FOp::Ref(a, b)),
        1 => o().prop_map(FOp::Drop),
        7 => inv().prop_map(FOp::Invoke),
        3 => (o(), any::<bool>(), prop_oneof![-3_i32..4, any::<i32>()]).prop_map(|(a, b, c)| FOp::Capture(a, b, c)),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ops14(pub Vec<FOp>);

pub struct C14;
impl Prop for C14 {
    type Case = Ops14;
    const ID: &'static str = "C14";
    const RULE: &'static str = "case: a history over up to 8 callables (3 function tables, memory tables absent, empty, partial or full, any capture pointer): copies, adjoint and controlled applications, alias and reference updates, capture count updates, and invocations with generated argument tuples, up to 7 nested control lists of 0..5 entries (rarely up to 600 lists, lists of up to 70000 entries and tuples of up to 70000 bytes), and entries that copy, change and invoke further callables. Each entry records itself and what it was given; exactly one expected call with the expected contents must happen and the caller's tuples and lists stay as they were. Non-trivial: an invocation of a callable with a functor applied.";
    const ASSUMPTIONS: &'static [&'static str] = &["a callable with controls applied is not invoked without an argument tuple"];
    fn strategy(tier: Tier) -> BoxedStrategy<Ops14> {
        prop::collection::vec(fop(), 4..tier.pick(40, 100))
            .prop_map(|mut v| {
                v.insert(0, FOp::New(0, 4, 77));
                Ops14(v)
            })
            .boxed()
    }
    fn cases(tier: Tier) -> u64 {
        tier.pick(1_000_000, 12_000_000)
    }
    fn check(c: &Ops14, ctx: &mut Ctx) -> Result<(), String> {
        PLANS.with(|p| p.borrow_mut().clear());
        SEEN.with(|p| p.borrow_mut().clear());
        TROUBLE.with(|p| *p.borrow_mut() = None);
        let mut w = World::default();
        run(&c.0, &mut w)?;
        let functors = c.0.iter().any(|o| matches!(o, FOp::Adjoint(_) | FOp::Controlled(..)));
        while !w.objs.is_empty() {
            w.give_up(0);
        }
        ctx.nontrivial(w.invoked > 0 && functors);
        ctx.label_if(w.deep >= 2, "nested_controls");
        ctx.label_if(w.deep >= 4, "four_or_more_controls");
        ctx.label_if(w.deep >= 256, "over_255_controls");
        ctx.label_if(w.nested > 0, "call_within_call");
        ctx.label_if(w.changed_inside, "functors_applied_within_call");
        Ok(())
    }
}
