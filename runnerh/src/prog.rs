//! Generated QIR programs: description, meaning (over any `Mach`), and IR text.

use crate::mach::*;
use serde::{Deserialize, Serialize};
use std::fmt::Write as _;
use vdriver::proptest::prelude::*;
use vdriver::Fl;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Op {
    /// Index into `FUNCS` of the function the step is about.
    pub f: u16,
    pub a: [u32; 5],
    pub i: [i64; 2],
    pub d: [Fl; 2],
    pub s: String,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Stmt {
    Op(Op),
    If { b: u8, then: Vec<Stmt>, els: Vec<Stmt> },
    Loop { n: u8, body: Vec<Stmt> },
    Call(u8),
    /// Record an integer, double or boolean variable.
    Rec(u8, String),
    /// Set a boolean variable from a measured result.
    Meas { q: u8, r: u8, b: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Entry {
    pub name: String,
    pub body: Vec<Stmt>,
    /// Key of the entry point attribute, then further string attributes.
    pub modern: bool,
    pub attrs: Vec<(String, String)>,
    pub init: bool,
    pub release: bool,
    pub dump: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Prog {
    pub static_qubits: bool,
    pub static_results: bool,
    pub legacy: bool,
    pub nq: u8,
    /// Work functions; each calls only earlier ones.
    pub work: Vec<Vec<Stmt>>,
    pub entries: Vec<Entry>,
    /// Capture used by each of the two callable tables, and whether it has a memory table.
    pub caps: [(Option<i64>, bool); 2],
    /// Also declare functions that are not used.
    pub spare: bool,
    /// Write attributes as a group rather than inline.
    pub groups: bool,
    /// Order of the pieces in the module.
    pub order: u8,
    /// Size of comments and data that the program does not use.
    #[serde(default)]
    pub pad: u32,
}

impl Prog {
    pub fn nq(&self) -> usize {
        (self.nq as usize).clamp(1, NQ)
    }
    pub fn entry_name(&self, k: usize) -> String {
        // Names are made unique.
        let base = &self.entries[k].name;
        if self.entries[..k].iter().any(|e| e.name == *base) {
            format!("{base}__{k}")
        } else {
            base.clone()
        }
    }
    /// The metadata lines of an entry point: its attributes in the order of their keys.
    pub fn metadata(&self, k: usize) -> Vec<(String, String)> {
        let e = &self.entries[k];
        let mut m = std::collections::BTreeMap::new();
        for (k, v) in &e.attrs {
            if !is_entry_key(k) {
                m.insert(k.clone(), v.clone());
            }
        }
        m.insert(if e.modern { "entry_point" } else { "EntryPoint" }.to_string(), String::new());
        m.into_iter().collect()
    }
}

fn is_entry_key(k: &str) -> bool {
    k == "entry_point" || k == "EntryPoint"
}

// ---------------------------------------------------------------- meaning

pub struct Env<'a> {
    pub p: &'a Prog,
    /// Number of work functions that may be called from here.
    pub callable: usize,
}

/// `want` distinct qubits of the program, or as many as there are.
fn qubits<M: Mach>(m: &mut M, p: &Prog, sel: &[u32], want: usize) -> Vec<M::V> {
    distinct(p, sel, want).into_iter().map(|k| qubit(m, p, k)).collect()
}

fn distinct(p: &Prog, sel: &[u32], want: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..p.nq()).collect();
    let mut out = vec![];
    for k in 0..want {
        if left.is_empty() {
            break;
        }
        out.push(left.remove((sel[k % sel.len()] as usize >> (k / sel.len() * 8)) % left.len()));
    }
    out
}

fn qubit<M: Mach>(m: &mut M, p: &Prog, k: usize) -> M::V {
    if p.static_qubits {
        m.konst(Val::P(k as *mut u8))
    } else {
        m.get(Slot::Qubit(k))
    }
}

fn static_result<M: Mach>(m: &mut M, k: u32) -> M::V {
    m.konst(Val::P((k as usize % 6) as *mut u8))
}

struct Cx<'a, M: Mach> {
    m: &'a mut M,
    p: &'a Prog,
}

impl<M: Mach> Cx<'_, M> {
    fn c(&mut self, name: &str, args: &[M::V]) -> M::V {
        let f = fidx(name, args.len());
        self.m.call(f, args)
    }
    fn i(&mut self, x: i64) -> M::V {
        self.m.konst(Val::I(x))
    }
    fn j(&mut self, x: i32) -> M::V {
        self.m.konst(Val::J(x))
    }
    fn d(&mut self, x: f64) -> M::V {
        self.m.konst(Val::D(x))
    }
    fn b(&mut self, x: bool) -> M::V {
        self.m.konst(Val::B(x))
    }
    fn null(&mut self) -> M::V {
        self.m.konst(Val::P(std::ptr::null_mut()))
    }
    /// An integer operand: a literal or a variable.
    fn int(&mut self, sel: u32, x: i64) -> M::V {
        if sel % 4 == 3 {
            self.m.get(Slot::I(sel as usize / 4 % NI))
        } else {
            self.i(x)
        }
    }
    fn dbl(&mut self, sel: u32, x: f64) -> M::V {
        if sel % 4 == 3 {
            self.m.get(Slot::D(sel as usize / 4 % NI))
        } else {
            self.d(x)
        }
    }
    fn boolean(&mut self, sel: u32) -> M::V {
        if sel % 4 < 2 {
            self.b(sel % 4 == 1)
        } else {
            self.m.get(Slot::B(sel as usize / 4 % NI))
        }
    }
    fn tag(&mut self, s: &str) -> M::V {
        let t: String = s.chars().filter(|c| !c.is_control()).collect();
        if t.is_empty() {
            self.null()
        } else {
            self.m.cstr(&t)
        }
    }
    fn rec_int(&mut self, v: &M::V, tag: &str) {
        if self.p.legacy {
            self.c("__quantum__rt__int_record_output", &[v.clone()]);
        } else {
            let t = self.tag(tag);
            self.c("__quantum__rt__int_record_output", &[v.clone(), t]);
        }
    }
    fn rec_dbl(&mut self, v: &M::V, tag: &str) {
        if self.p.legacy {
            self.c("__quantum__rt__double_record_output", &[v.clone()]);
        } else {
            let t = self.tag(tag);
            self.c("__quantum__rt__double_record_output", &[v.clone(), t]);
        }
    }
    fn rec_bool(&mut self, v: &M::V, tag: &str) {
        if self.p.legacy {
            self.c("__quantum__rt__bool_record_output", &[v.clone()]);
        } else {
            let t = self.tag(tag);
            self.c("__quantum__rt__bool_record_output", &[v.clone(), t]);
        }
    }
    fn rec_result(&mut self, v: &M::V, tag: &str) {
        if self.p.legacy {
            self.c("__quantum__rt__result_record_output", &[v.clone()]);
        } else {
            let t = self.tag(tag);
            self.c("__quantum__rt__result_record_output", &[v.clone(), t]);
        }
    }
    fn string(&mut self, s: &str) -> M::V {
        let t: String = s.chars().filter(|c| *c != '\0').collect();
        let p = self.m.cstr(&t);
        self.c("__quantum__rt__string_create", &[p])
    }
    /// Shows a runtime string and gives it up.
    fn show(&mut self, s: &M::V) {
        self.c("__quantum__rt__message", &[s.clone()]);
        let one = self.j(-1);
        self.c("__quantum__rt__string_update_reference_count", &[s.clone(), one]);
    }
    fn drop_(&mut self, f: &str, v: &M::V) {
        let one = self.j(-1);
        self.c(f, &[v.clone(), one]);
    }
    fn big(&mut self, v: &M::V) -> M::V {
        self.c("__quantum__rt__bigint_create_i64", &[v.clone()])
    }
    fn show_big(&mut self, v: &M::V) {
        let s = self.c("__quantum__rt__bigint_to_string", &[v.clone()]);
        self.show(&s);
    }
    fn drop_big(&mut self, v: &M::V) {
        self.drop_("__quantum__rt__bigint_update_reference_count", v);
    }
    fn drop_array(&mut self, v: &M::V) {
        self.drop_("__quantum__rt__array_update_reference_count", v);
    }
    fn drop_tuple(&mut self, v: &M::V) {
        self.drop_("__quantum__rt__tuple_update_reference_count", v);
    }
    /// An array of the given 8-byte values.
    fn array(&mut self, items: &[M::V], k: K) -> M::V {
        let size = if k == K::Q { 1 } else { 8 };
        let (s, n) = (self.j(size), self.i(items.len() as i64));
        let a = self.c("__quantum__rt__array_create_1d", &[s, n]);
        for (i, v) in items.iter().enumerate() {
            let i = self.i(i as i64);
            let e = self.c("__quantum__rt__array_get_element_ptr_1d", &[a.clone(), i]);
            self.m.store(&e, 0, k, v);
        }
        a
    }
    fn ints(&mut self, n: usize, base: i64) -> Vec<M::V> {
        (0..n).map(|k| self.i(base.wrapping_add(k as i64 * 7))).collect()
    }
    /// Records the size and the elements of an array of integers (`n` of them).
    fn show_array(&mut self, a: &M::V, n: usize) {
        let s = self.c("__quantum__rt__array_get_size_1d", &[a.clone()]);
        self.rec_int(&s, "");
        for i in 0..n {
            let i = self.i(i as i64);
            let e = self.c("__quantum__rt__array_get_element_ptr_1d", &[a.clone(), i]);
            let v = self.m.load(&e, 0, K::I);
            self.rec_int(&v, "");
        }
    }
    fn paulis(&mut self, sel: u32, n: usize) -> M::V {
        let v: Vec<M::V> = (0..n).map(|k| self.m.konst(Val::Q((sel >> (2 * k)) as u8 % 4))).collect();
        self.array(&v, K::Q)
    }
    fn tuple(&mut self, items: &[(K, M::V)]) -> M::V {
        let n = self.i(items.len() as i64 * 8);
        let t = self.c("__quantum__rt__tuple_create", &[n]);
        for (i, (k, v)) in items.iter().enumerate() {
            self.m.store(&t, i as i64 * 8, *k, v);
        }
        t
    }
    /// Records whether a dynamic result is one.
    fn show_result(&mut self, r: &M::V, tag: &str) -> M::V {
        let one = self.c("__quantum__rt__result_get_one", &[]);
        let b = self.c("__quantum__rt__result_equal", &[r.clone(), one]);
        if self.p.static_results {
            self.rec_bool(&b, tag);
        } else {
            self.rec_result(r, tag);
        }
        b
    }
}

/// Angles that a program would use.
fn angle(x: f64) -> f64 {
    if x.is_finite() && x.abs() < 1e6 {
        x
    } else {
        0.75
    }
}

fn exec_op<M: Mach>(m: &mut M, p: &Prog, op: &Op) {
    let f = &FUNCS[op.f as usize % FUNCS.len()];
    let name = f.name;
    let short = name.trim_start_matches("__quantum__").trim_start_matches("quantum__");
    let a = &op.a;
    let mut x = Cx { m, p };
    let call = |x: &mut Cx<M>, args: &[M::V]| x.m.call(fidx(name, args.len()), args);
    let theta = angle(op.d[0].0);
    let gatelike = short.starts_with("qis__") && f.ret == K::V;
    match short {
        "rt__initialize" => {
            if p.static_qubits {
                let n = x.null();
                call(&mut x, &[n]);
            }
        }
        "qis__barrier__body" => {
            call(&mut x, &[]);
        }
        "qis__dumpmachine__body" => {
            let n = x.null();
            call(&mut x, &[n]);
        }
        "qis__rx__body" | "qis__ry__body" | "qis__rz__body" => {
            let q = qubits(x.m, p, a, 1);
            let t = x.d(theta);
            call(&mut x, &[t, q[0].clone()]);
        }
        "qis__rxx__body" | "qis__ryy__body" | "qis__rzz__body" => {
            let q = qubits(x.m, p, a, 2);
            if q.len() == 2 {
                let t = x.d(theta);
                call(&mut x, &[t, q[0].clone(), q[1].clone()]);
            }
        }
        "qis__r__body" | "qis__r__adj" => {
            let q = qubits(x.m, p, a, 1);
            let (b, t) = (x.m.konst(Val::Q(a[4] as u8 % 4)), x.d(theta));
            call(&mut x, &[b, t, q[0].clone()]);
        }
        "qis__exp__body" | "qis__exp__adj" => {
            let n = a[3] as usize % 4;
            let q = qubits(x.m, p, a, n);
            let ps = x.paulis(a[4], q.len());
            let qs = x.array(&q, K::P);
            let t = x.d(theta);
            call(&mut x, &[ps.clone(), t, qs.clone()]);
            x.drop_array(&ps);
            x.drop_array(&qs);
        }
        "qis__exp__ctl" | "qis__exp__ctladj" => {
            let n = a[3] as usize % 4;
            let q = qubits(x.m, p, a, n + 1);
            let ps = x.paulis(a[4], q.len() - 1);
            let (cs, qs) = (x.array(&q[..1], K::P), x.array(&q[1..], K::P));
            let t = x.d(theta);
            let tup = x.tuple(&[(K::P, ps.clone()), (K::D, t), (K::P, qs.clone())]);
            call(&mut x, &[cs.clone(), tup.clone()]);
            for v in [&ps, &cs, &qs] {
                x.drop_array(v);
            }
            x.drop_tuple(&tup);
        }
        "qis__rx__ctl" | "qis__ry__ctl" | "qis__rz__ctl" | "qis__r__ctl" | "qis__r__ctladj" => {
            let n = a[3] as usize % 3;
            let q = qubits(x.m, p, a, n + 1);
            let cs = x.array(&q[1..], K::P);
            let t = x.d(theta);
            let b = x.m.konst(Val::Q(a[4] as u8 % 4));
            let tup = if short.starts_with("qis__r__") {
                x.tuple(&[(K::Q, b), (K::D, t), (K::P, q[0].clone())])
            } else {
                x.tuple(&[(K::D, t), (K::P, q[0].clone())])
            };
            call(&mut x, &[cs.clone(), tup.clone()]);
            x.drop_array(&cs);
            x.drop_tuple(&tup);
        }
        "qis__assertmeasurementprobability__body" | "qis__assertmeasurementprobability__ctl" => {
            let n = a[3] as usize % 4;
            let q = qubits(x.m, p, a, n + 1);
            let ps = x.paulis(a[4], n.min(q.len() - 1));
            let qs = x.array(&q[1..], K::P);
            let r = x.c(if a[2] % 2 == 0 { "__quantum__rt__result_get_one" } else { "__quantum__rt__result_get_zero" }, &[]);
            let (pr, tol, msg) = (x.d(0.5), x.d(2.0), x.string(&op.s));
            if short.ends_with("ctl") {
                let cs = x.array(&q[..1], K::P);
                let tup = x.tuple(&[(K::P, ps.clone()), (K::P, qs.clone()), (K::P, r), (K::D, pr), (K::P, msg.clone()), (K::D, tol)]);
                call(&mut x, &[cs.clone(), tup.clone()]);
                x.drop_array(&cs);
                x.drop_tuple(&tup);
            } else {
                call(&mut x, &[ps.clone(), qs.clone(), r, pr, msg.clone(), tol]);
            }
            x.drop_array(&ps);
            x.drop_array(&qs);
            x.drop_("__quantum__rt__string_update_reference_count", &msg);
        }
        "qis__measure__body" => {
            let n = a[3] as usize % 4;
            let q = qubits(x.m, p, a, n);
            let ps = x.paulis(a[4], q.len());
            let qs = x.array(&q, K::P);
            let r = call(&mut x, &[ps.clone(), qs.clone()]);
            let b = x.show_result(&r, &op.s);
            x.m.set(Slot::B(a[2] as usize % NI), &b);
            x.drop_array(&ps);
            x.drop_array(&qs);
        }
        "qis__mz__body" | "qis__mresetz__body" => {
            if p.static_results {
                let q = qubits(x.m, p, a, 1);
                let r = static_result(x.m, a[1]);
                call(&mut x, &[q[0].clone(), r.clone()]);
                x.rec_result(&r, &op.s);
            }
        }
        "qis__m__body" => {
            let q = qubits(x.m, p, a, 1);
            if p.static_results {
                let r = static_result(x.m, a[1]);
                x.c("__quantum__qis__m__body", &[q[0].clone(), r.clone()]);
                x.rec_result(&r, &op.s);
            } else {
                let r = x.c("__quantum__qis__m__body", &[q[0].clone()]);
                let b = x.show_result(&r, &op.s);
                x.m.set(Slot::B(a[1] as usize % NI), &b);
            }
        }
        "qis__read_result__body" | "rt__read_result" => {
            if p.static_results {
                let r = static_result(x.m, a[1]);
                let b = call(&mut x, &[r]);
                x.m.set(Slot::B(a[2] as usize % NI), &b);
                x.rec_bool(&b, &op.s);
            }
        }
        "rt__write_result" => {
            if p.static_results {
                let (b, r) = (x.boolean(a[0]), static_result(x.m, a[1]));
                call(&mut x, &[b, r.clone()]);
                x.rec_result(&r, &op.s);
            }
        }
        "rt__result_record_output" => {
            if p.static_results {
                let r = static_result(x.m, a[1]);
                x.rec_result(&r, &op.s);
            } else {
                let r = x.c(if a[2] % 2 == 0 { "__quantum__rt__result_get_one" } else { "__quantum__rt__result_get_zero" }, &[]);
                x.rec_result(&r, &op.s);
            }
        }
        "rt__result_get_one" | "rt__result_get_zero" | "rt__result_to_string" | "rt__result_update_reference_count" | "rt__result_equal" => {
            let n = if short == "rt__result_get_zero" || (short != "rt__result_get_one" && a[0] % 2 == 0) { "__quantum__rt__result_get_zero" } else { "__quantum__rt__result_get_one" };
            let r = x.c(n, &[]);
            let o = x.c(if a[1] % 2 == 0 { "__quantum__rt__result_get_one" } else { "__quantum__rt__result_get_zero" }, &[]);
            let one = x.j(1);
            x.c("__quantum__rt__result_update_reference_count", &[r.clone(), one]);
            let b = x.c("__quantum__rt__result_equal", &[r.clone(), o]);
            x.rec_bool(&b, &op.s);
            let s = x.c("__quantum__rt__result_to_string", &[r]);
            x.show(&s);
        }
        "rt__qubit_allocate" | "rt__qubit_release" => {
            if !p.static_qubits {
                let q = qubits(x.m, p, a, 1);
                let n = x.c("__quantum__rt__qubit_allocate", &[]);
                x.c("__quantum__qis__cx__body", &[q[0].clone(), n.clone()]);
                let s = x.c("__quantum__rt__qubit_to_string", &[n.clone()]);
                x.show(&s);
                x.c("__quantum__rt__qubit_release", &[n]);
            }
        }
        "rt__qubit_allocate_array" | "rt__qubit_release_array" => {
            if !p.static_qubits {
                let k = a[3] % 4;
                let n = x.i(i64::from(k));
                let r = x.c("__quantum__rt__qubit_allocate_array", &[n]);
                for i in 0..k {
                    let i = x.i(i64::from(i));
                    let e = x.c("__quantum__rt__array_get_element_ptr_1d", &[r.clone(), i]);
                    let q = x.m.load(&e, 0, K::P);
                    x.c("__quantum__qis__h__body", &[q.clone()]);
                    let s = x.c("__quantum__rt__qubit_to_string", &[q]);
                    x.show(&s);
                }
                x.c("__quantum__rt__qubit_release_array", &[r]);
            }
        }
        "rt__qubit_to_string" => {
            let q = qubits(x.m, p, a, 1);
            let s = call(&mut x, &[q[0].clone()]);
            x.show(&s);
        }
        _ if gatelike && f.args == [K::P] => {
            let q = qubits(x.m, p, a, 1);
            call(&mut x, &[q[0].clone()]);
        }
        _ if gatelike && f.args == [K::P, K::P] && short.contains("__ctl") => {
            let n = a[3] as usize % 4;
            let q = qubits(x.m, p, a, n + 1);
            let cs = x.array(&q[1..], K::P);
            call(&mut x, &[cs.clone(), q[0].clone()]);
            x.drop_array(&cs);
        }
        _ if gatelike && f.args == [K::P, K::P] => {
            let q = qubits(x.m, p, a, 2);
            if q.len() == 2 {
                call(&mut x, &[q[0].clone(), q[1].clone()]);
            }
        }
        _ if gatelike && f.args == [K::P, K::P, K::P] => {
            let q = qubits(x.m, p, a, 3);
            if q.len() == 3 {
                call(&mut x, &[q[0].clone(), q[1].clone(), q[2].clone()]);
            }
        }
        // Mathematics.
        "qis__drawrandomint__body" => {
            let (lo, hi) = (op.i[0].min(op.i[1]), op.i[0].max(op.i[1]));
            let (l, h) = (x.i(lo), x.i(if a[3] % 2 == 0 { lo } else { hi }));
            let v = call(&mut x, &[l.clone(), h.clone()]);
            let (p, q) = (x.m.ile(&l, &v), x.m.ile(&v, &h));
            let b = x.m.and(&p, &q);
            x.rec_bool(&b, &op.s);
            if a[3] % 2 == 0 {
                x.rec_int(&v, &op.s);
            }
        }
        "qis__drawrandomdouble__body" => {
            let y = |k: usize| if op.d[k].0.is_finite() { op.d[k].0 } else { k as f64 };
            let (lo, hi) = (y(0).min(y(1)), y(0).max(y(1)));
            let (l, h) = (x.d(lo), x.d(if a[3] % 2 == 0 { lo } else { hi }));
            let v = call(&mut x, &[l.clone(), h.clone()]);
            let (p, q) = (x.m.dle(&l, &v), x.m.dle(&v, &h));
            let b = x.m.and(&p, &q);
            x.rec_bool(&b, &op.s);
        }
        _ if short.starts_with("qis__") && f.ret == K::D => {
            let args: Vec<M::V> = (0..f.args.len()).map(|k| x.dbl(a[k], op.d[k].0)).collect();
            let v = call(&mut x, &args);
            x.rec_dbl(&v, &op.s);
            x.m.set(Slot::D(a[4] as usize % NI), &v);
        }
        _ if short.starts_with("qis__") && f.ret == K::B => {
            let v = x.dbl(a[0], op.d[0].0);
            let b = call(&mut x, &[v]);
            x.rec_bool(&b, &op.s);
            x.m.set(Slot::B(a[4] as usize % NI), &b);
        }
        // Large integers.
        "rt__bigint_create_i64" | "rt__bigint_to_string" | "rt__bigint_update_reference_count" => {
            let v = x.int(a[0], op.i[0]);
            let b = x.big(&v);
            let one = x.j(1);
            x.c("__quantum__rt__bigint_update_reference_count", &[b.clone(), one]);
            x.show_big(&b);
            x.drop_big(&b);
            x.drop_big(&b);
        }
        "rt__bigint_create_array" | "rt__bigint_get_data" | "rt__bigint_get_length" => {
            let bytes: Vec<u8> = op.s.bytes().filter(|b| *b != 0).take(16).collect();
            let n = if std::str::from_utf8(&bytes).is_ok() { bytes.len() } else { 0 };
            let text = String::from_utf8(bytes).unwrap_or_default();
            let data = x.m.cstr(&text);
            let len = x.j(n as i32);
            let b = x.c("__quantum__rt__bigint_create_array", &[len, data]);
            x.show_big(&b);
            let l = x.c("__quantum__rt__bigint_get_length", &[b.clone()]);
            let l = x.m.widen(&l);
            x.rec_int(&l, &op.s);
            let d = x.c("__quantum__rt__bigint_get_data", &[b.clone()]);
            let y = x.m.load(&d, 0, K::Y);
            x.rec_int(&y, "");
            x.drop_big(&b);
        }
        "rt__bigint_power" => {
            let v = x.int(a[0], op.i[0]);
            let b = x.big(&v);
            let e = x.j((a[3] % 7) as i32);
            let r = call(&mut x, &[b.clone(), e]);
            x.show_big(&r);
            x.drop_big(&r);
            x.drop_big(&b);
        }
        "rt__bigint_shiftleft" | "rt__bigint_shiftright" => {
            let v = x.int(a[0], op.i[0]);
            let b = x.big(&v);
            let e = x.i(i64::from(a[3] % 100));
            let r = call(&mut x, &[b.clone(), e]);
            x.show_big(&r);
            x.drop_big(&r);
            x.drop_big(&b);
        }
        "rt__bigint_negate" | "rt__bigint_bitnot" => {
            let v = x.int(a[0], op.i[0]);
            let b = x.big(&v);
            let r = call(&mut x, &[b.clone()]);
            x.show_big(&r);
            x.drop_big(&r);
            x.drop_big(&b);
        }
        _ if short.starts_with("rt__bigint_") => {
            let v = x.int(a[0], op.i[0]);
            // A literal divisor is never zero.
            let w = if short.ends_with("divide") || short.ends_with("modulus") { x.i(if op.i[1] == 0 { 3 } else { op.i[1] }) } else { x.int(a[1], op.i[1]) };
            let (b, c) = (x.big(&v), x.big(&w));
            let r = call(&mut x, &[b.clone(), c.clone()]);
            if f.ret == K::B {
                x.rec_bool(&r, &op.s);
                x.m.set(Slot::B(a[4] as usize % NI), &r);
            } else {
                x.show_big(&r);
                x.drop_big(&r);
            }
            x.drop_big(&b);
            x.drop_big(&c);
        }
        // Strings.
        "rt__int_to_string" => {
            let v = x.int(a[0], op.i[0]);
            let s = call(&mut x, &[v]);
            x.show(&s);
        }
        "rt__double_to_string" => {
            let v = x.dbl(a[0], op.d[0].0);
            let s = call(&mut x, &[v]);
            x.show(&s);
        }
        "rt__bool_to_string" => {
            let v = x.boolean(a[0]);
            let s = call(&mut x, &[v]);
            x.show(&s);
        }
        "rt__pauli_to_string" => {
            let v = x.m.konst(Val::Q(a[0] as u8 % 4));
            let s = call(&mut x, &[v]);
            x.show(&s);
        }
        "rt__range_to_string" => {
            let v = x.m.konst(Val::R(op.i[0], i64::from(a[0]) - 3, op.i[1]));
            let s = call(&mut x, &[v]);
            x.show(&s);
        }
        "rt__string_create" | "rt__message" | "rt__string_update_reference_count" => {
            let s = x.string(&op.s);
            let one = x.j(1);
            x.c("__quantum__rt__string_update_reference_count", &[s.clone(), one]);
            x.show(&s);
            x.show(&s);
        }
        "rt__message_record_output" => {
            let s = x.string(&op.s);
            call(&mut x, &[s.clone()]);
            x.drop_("__quantum__rt__string_update_reference_count", &s);
        }
        "rt__string_concatenate" | "rt__string_equal" => {
            let (s, v) = (x.string(&op.s), x.int(a[0], op.i[0]));
            let t = x.c("__quantum__rt__int_to_string", &[v]);
            let r = x.c("__quantum__rt__string_concatenate", &[s.clone(), t.clone()]);
            let b = x.c("__quantum__rt__string_equal", &[r.clone(), if a[1] % 2 == 0 { r.clone() } else { s.clone() }]);
            x.rec_bool(&b, "");
            x.show(&r);
            x.drop_("__quantum__rt__string_update_reference_count", &s);
            x.drop_("__quantum__rt__string_update_reference_count", &t);
        }
        "rt__string_get_data" | "rt__string_get_length" => {
            let s = x.string(&op.s);
            let n = x.c("__quantum__rt__string_get_length", &[s.clone()]);
            let n = x.m.widen(&n);
            x.rec_int(&n, &op.s);
            let d = x.c("__quantum__rt__string_get_data", &[s.clone()]);
            let len = op.s.bytes().filter(|b| *b != 0).count();
            let y = x.m.load(&d, (a[0] as usize % (len + 1)) as i64, K::Y);
            x.rec_int(&y, "");
            x.drop_("__quantum__rt__string_update_reference_count", &s);
        }
        // Arrays and tuples.
        "rt__array_create_1d" | "rt__array_get_element_ptr_1d" | "rt__array_get_size_1d" => {
            let n = a[0] as usize % 5;
            let v = x.ints(n, op.i[0]);
            let r = x.array(&v, K::I);
            x.show_array(&r, n);
            x.drop_array(&r);
        }
        "rt__array_copy" | "rt__array_update_alias_count" | "rt__array_update_reference_count" => {
            let n = a[0] as usize % 5;
            let v = x.ints(n, op.i[0]);
            let r = x.array(&v, K::I);
            let up = x.j(1);
            let down = x.j(-1);
            x.c("__quantum__rt__array_update_reference_count", &[r.clone(), up.clone()]);
            let alias = a[1] % 2 == 0;
            if alias {
                x.c("__quantum__rt__array_update_alias_count", &[r.clone(), up]);
            }
            let force = x.b(a[2] % 2 == 0);
            let c = x.c("__quantum__rt__array_copy", &[r.clone(), force]);
            if n > 0 {
                let z = x.i(0);
                let e = x.c("__quantum__rt__array_get_element_ptr_1d", &[c.clone(), z]);
                let w = x.i(op.i[1]);
                x.m.store(&e, 0, K::I, &w);
            }
            x.show_array(&r, n);
            x.show_array(&c, n);
            if alias {
                x.c("__quantum__rt__array_update_alias_count", &[r.clone(), down]);
            }
            x.drop_array(&c);
            x.drop_array(&r);
            x.drop_array(&r);
        }
        "rt__array_concatenate" => {
            let (n, k) = (a[0] as usize % 4, a[1] as usize % 4);
            let (v, w) = (x.ints(n, op.i[0]), x.ints(k, op.i[1]));
            let (r, s) = (x.array(&v, K::I), x.array(&w, K::I));
            let c = call(&mut x, &[r.clone(), s.clone()]);
            x.show_array(&c, n + k);
            x.drop_array(&r);
            x.drop_array(&s);
            x.drop_array(&c);
        }
        "rt__array_slice_1d" => {
            let n = 1 + a[0] as usize % 6;
            let v = x.ints(n, op.i[0]);
            let r = x.array(&v, K::I);
            let (mut s, e) = (a[1] as i64 % n as i64, a[2] as i64 % n as i64);
            let step = [1, 2, -1, -2, 3][a[3] as usize % 5];
            // Ranges whose elements all exist.
            let mut count = 0;
            let range = x.m.konst(Val::R(s, step, e));
            while (step > 0 && s <= e) || (step < 0 && s >= e) {
                count += 1;
                s += step;
            }
            let force = x.b(a[4] % 2 == 0);
            let c = call(&mut x, &[r.clone(), range, force]);
            x.show_array(&c, count);
            x.drop_array(&r);
            x.drop_array(&c);
        }
        "rt__tuple_create" | "rt__tuple_copy" | "rt__tuple_update_alias_count" | "rt__tuple_update_reference_count" => {
            let (v, w) = (x.int(a[0], op.i[0]), x.dbl(a[1], op.d[0].0));
            let t = x.tuple(&[(K::I, v), (K::D, w)]);
            let (up, down) = (x.j(1), x.j(-1));
            x.c("__quantum__rt__tuple_update_reference_count", &[t.clone(), up.clone()]);
            let alias = a[2] % 2 == 0;
            if alias {
                x.c("__quantum__rt__tuple_update_alias_count", &[t.clone(), up]);
            }
            let force = x.b(a[3] % 2 == 0);
            let c = x.c("__quantum__rt__tuple_copy", &[t.clone(), force]);
            let n = x.i(op.i[1]);
            x.m.store(&c, 0, K::I, &n);
            for u in [&t, &c] {
                let v = x.m.load(u, 0, K::I);
                x.rec_int(&v, "");
                let v = x.m.load(u, 8, K::D);
                x.rec_dbl(&v, "");
            }
            if alias {
                x.c("__quantum__rt__tuple_update_alias_count", &[t.clone(), down]);
            }
            x.drop_tuple(&c);
            x.drop_tuple(&t);
            x.drop_tuple(&t);
        }
        "rt__memory_allocate" => {
            let n = x.i(16 + i64::from(a[0] % 100));
            let b = call(&mut x, &[n]);
            let v = x.int(a[1], op.i[0]);
            x.m.store(&b, 8, K::I, &v);
            let v = x.m.load(&b, 8, K::I);
            x.rec_int(&v, "");
        }
        // Callables.
        _ if short.starts_with("rt__callable_") || short.starts_with("rt__capture_") => exec_callable(&mut x, op),
        // Output.
        "rt__array_record_output" | "rt__tuple_record_output" => {
            if !p.legacy {
                let (v, t) = (x.int(a[0], op.i[0]), x.tag(&op.s));
                call(&mut x, &[v, t]);
            }
        }
        "rt__array_start_record_output" | "rt__array_end_record_output" | "rt__tuple_start_record_output" | "rt__tuple_end_record_output" => {
            if p.legacy {
                call(&mut x, &[]);
            }
        }
        "rt__bool_record_output" => {
            let v = x.boolean(a[0]);
            x.rec_bool(&v, &op.s);
        }
        "rt__double_record_output" => {
            let v = x.dbl(a[0], op.d[0].0);
            x.rec_dbl(&v, &op.s);
        }
        "rt__int_record_output" => {
            let v = x.int(a[0], op.i[0]);
            let w = x.i(op.i[1]);
            let s = x.m.add(&v, &w);
            x.rec_int(&s, &op.s);
            x.m.set(Slot::I(a[1] as usize % NI), &s);
        }
        // Failing ends the program; see C19 and the failing programs of C20.
        "rt__fail" => {}
        n => unreachable!("{n}"),
    }
}

fn exec_callable<M: Mach>(x: &mut Cx<M>, op: &Op) {
    let p = x.p;
    let a = &op.a;
    let k = a[0] as usize % 2;
    let table = x.m.table(k);
    let mem = if p.caps[k].1 { x.m.mem_table(k) } else { x.null() };
    let cap = match p.caps[k].0 {
        Some(v) => {
            let v = x.i(v);
            x.tuple(&[(K::I, v)])
        }
        None => x.null(),
    };
    let c = x.c("__quantum__rt__callable_create", &[table, mem, cap.clone()]);
    let (up, down) = (x.j(1), x.j(-1));
    let alias = a[3] & 4 != 0;
    if alias {
        x.c("__quantum__rt__callable_update_alias_count", &[c.clone(), up.clone()]);
        x.c("__quantum__rt__capture_update_alias_count", &[c.clone(), up.clone()]);
    }
    let force = x.b(a[3] & 8 != 0);
    let d = x.c("__quantum__rt__callable_copy", &[c.clone(), force]);
    x.c("__quantum__rt__capture_update_reference_count", &[d.clone(), up]);
    let mut depth = 0;
    for b in 0..(a[1] % 4) {
        if a[2] >> b & 1 == 0 {
            x.c("__quantum__rt__callable_make_adjoint", &[d.clone()]);
        } else if depth < 2 {
            depth += 1;
            x.c("__quantum__rt__callable_make_controlled", &[d.clone()]);
        }
    }
    let q = qubits(x.m, p, a, depth + 1);
    // Controls that are not there leave an empty list.
    let n = x.i(op.i[0]);
    let mut owned_t = vec![];
    let mut owned_a = vec![];
    let mut args = x.tuple(&[(K::P, q[0].clone()), (K::I, n)]);
    owned_t.push(args.clone());
    for l in 0..depth {
        let ctl: Vec<M::V> = q.get(l + 1).cloned().into_iter().collect();
        let arr = x.array(&ctl, K::P);
        owned_a.push(arr.clone());
        args = x.tuple(&[(K::P, arr), (K::P, args)]);
        owned_t.push(args.clone());
    }
    let zero = x.i(0);
    let res = x.tuple(&[(K::I, zero)]);
    x.c("__quantum__rt__callable_invoke", &[d.clone(), args, res.clone()]);
    let r = x.m.load(&res, 0, K::I);
    x.rec_int(&r, &op.s);
    x.m.set(Slot::I(a[4] as usize % NI), &r);
    for t in owned_t.iter().chain([&res]) {
        x.drop_tuple(t);
    }
    for t in &owned_a {
        x.drop_array(t);
    }
    if alias {
        x.c("__quantum__rt__callable_update_alias_count", &[c.clone(), down.clone()]);
        x.c("__quantum__rt__capture_update_alias_count", &[c.clone(), down.clone()]);
    }
    x.c("__quantum__rt__capture_update_reference_count", &[d.clone(), down.clone()]);
    x.c("__quantum__rt__callable_update_reference_count", &[d, down.clone()]);
    x.c("__quantum__rt__callable_update_reference_count", &[c, down]);
}

/// The entries of the callable tables: body, adjoint, controlled, controlled adjoint.
pub fn table_entry<M: Mach>(m: &mut M, p: &Prog, t: usize, e: usize, cap: M::V, args: M::V, res: M::V) {
    let mut x = Cx { m, p };
    if p.caps[t].0.is_some() {
        let v = x.m.load(&cap, 0, K::I);
        x.rec_int(&v, "cap");
    }
    let inner = if e >= 2 { x.m.load(&args, 8, K::P) } else { args.clone() };
    let q = x.m.load(&inner, 0, K::P);
    let n = x.m.load(&inner, 8, K::I);
    if e >= 2 {
        let ctls = x.m.load(&args, 0, K::P);
        let s = x.c("__quantum__rt__array_get_size_1d", &[ctls.clone()]);
        x.rec_int(&s, "controls");
        x.c(["__quantum__qis__x__ctl", "__quantum__qis__z__ctl"][e - 2], &[ctls, q]);
    } else if t == 0 {
        let th = x.d([0.4, -0.4][e]);
        x.c("__quantum__qis__ry__body", &[th, q]);
    } else {
        x.c(["__quantum__qis__t__body", "__quantum__qis__t__adj"][e], &[q]);
    }
    let k = x.i((t * 4 + e) as i64 * 1000);
    let s = x.m.add(&n, &k);
    x.m.store(&res, 0, K::I, &s);
}

pub fn mem_entry<M: Mach>(m: &mut M, p: &Prog, t: usize, e: usize, cap: M::V, n: M::V) {
    let mut x = Cx { m, p };
    let n = x.m.widen(&n);
    let k = x.i((t * 2 + e) as i64 * 1000);
    let n = x.m.add(&n, &k);
    x.rec_int(&n, "mem");
    if p.caps[t].0.is_some() {
        let v = x.m.load(&cap, 0, K::I);
        x.rec_int(&v, "cap");
    }
}

fn exec<M: Mach>(m: &mut M, env: &Env, body: &[Stmt]) {
    for s in body {
        match s {
            Stmt::Op(op) => exec_op(m, env.p, op),
            Stmt::If { b, then, els } => {
                let c = m.get(Slot::B(*b as usize % NI));
                m.if_(&c, &mut |m| exec(m, env, then), &mut |m| exec(m, env, els));
            }
            Stmt::Loop { n, body } => m.repeat(u32::from(*n % 4), &mut |m| exec(m, env, body)),
            Stmt::Call(k) => {
                if env.callable > 0 {
                    m.call_fn(*k as usize % env.callable);
                }
            }
            Stmt::Rec(k, tag) => {
                let mut x = Cx { m, p: env.p };
                let i = *k as usize / 3 % NI;
                match k % 3 {
                    0 => {
                        let v = x.m.get(Slot::I(i));
                        x.rec_int(&v, tag);
                    }
                    1 => {
                        let v = x.m.get(Slot::D(i));
                        x.rec_dbl(&v, tag);
                    }
                    _ => {
                        let v = x.m.get(Slot::B(i));
                        x.rec_bool(&v, tag);
                    }
                }
            }
            Stmt::Meas { q, r, b } => {
                let mut x = Cx { m, p: env.p };
                let q = qubit(x.m, env.p, *q as usize % env.p.nq());
                let v = if env.p.static_results {
                    let r = static_result(x.m, u32::from(*r));
                    x.c("__quantum__qis__mz__body", &[q, r.clone()]);
                    x.c("__quantum__rt__read_result", &[r])
                } else {
                    let r = x.c("__quantum__qis__m__body", &[q]);
                    let one = x.c("__quantum__rt__result_get_one", &[]);
                    x.c("__quantum__rt__result_equal", &[r, one])
                };
                x.m.set(Slot::B(*b as usize % NI), &v);
            }
        }
    }
}

/// The body of function `k`: work functions first, then the entry points.
pub fn exec_fn<M: Mach>(m: &mut M, p: &Prog, k: usize) {
    if k < p.work.len() {
        exec(m, &Env { p, callable: k }, &p.work[k]);
        return;
    }
    let e = &p.entries[k - p.work.len()];
    {
        let mut x = Cx { m, p };
        if e.init {
            let n = x.null();
            x.c("__quantum__rt__initialize", &[n]);
        }
        for i in 0..NI {
            // Programs start their variables afresh in every shot.
            let (a, b, c) = (x.i(i as i64), x.d(i as f64 + 0.5), x.b(i % 2 == 1));
            x.m.set(Slot::I(i), &a);
            x.m.set(Slot::D(i), &b);
            x.m.set(Slot::B(i), &c);
        }
        if !p.static_qubits {
            for i in 0..p.nq() {
                let q = x.c("__quantum__rt__qubit_allocate", &[]);
                x.m.set(Slot::Qubit(i), &q);
            }
        }
    }
    exec(m, &Env { p, callable: p.work.len() }, &e.body);
    let mut x = Cx { m, p };
    if e.dump {
        let n = x.null();
        x.c("__quantum__qis__dumpmachine__body", &[n]);
    }
    if e.release && !p.static_qubits {
        for i in 0..p.nq() {
            let q = x.m.get(Slot::Qubit(i));
            x.c("__quantum__rt__qubit_release", &[q]);
        }
    }
}

pub fn direct(p: &Prog) -> Direct {
    Direct::new(
        p,
        |m, k| {
            let p = unsafe { &*m.prog };
            exec_fn(m, p, k);
        },
        |m, t, e, cap, args, res| {
            let p = unsafe { &*m.prog };
            table_entry(m, p, t, e, cap, args, res);
        },
        |m, t, e, cap, n| {
            let p = unsafe { &*m.prog };
            mem_entry(m, p, t, e, cap, n);
        },
    )
}

// ---------------------------------------------------------------- text

/// A module in pieces, so that defects can be put in.
pub struct Module {
    pub head: String,
    pub bodies: Vec<String>,
    /// Declared functions: index into `FUNCS` and text.
    pub decls: Vec<(usize, String)>,
    pub extra_decls: String,
    pub tail: String,
    pub order: u8,
}

/// The text without what only makes it long.
pub fn brief(text: &str) -> String {
    text.lines().filter(|l| !l.starts_with("; 0") && !l.starts_with("@an_unused_constant")).collect::<Vec<_>>().join("\n")
}

impl Module {
    pub fn text(&self) -> String {
        let decls: String = self.decls.iter().map(|d| d.1.as_str()).collect::<String>() + &self.extra_decls;
        let mut bodies = self.bodies.clone();
        if self.order & 2 != 0 {
            bodies.reverse();
        }
        let bodies = bodies.concat();
        if self.order & 1 == 0 {
            format!("{}\n{bodies}{decls}\n{}", self.head, self.tail)
        } else {
            format!("{}\n{decls}\n{bodies}{}", self.head, self.tail)
        }
    }
}

pub fn quoted(s: &str) -> String {
    let mut o = String::from("\"");
    for b in s.bytes() {
        if b.is_ascii_graphic() && b != b'"' && b != b'\\' || b == b' ' {
            o.push(b as char);
        } else {
            let _ = write!(o, "\\{b:02X}");
        }
    }
    o.push('"');
    o
}

pub fn symbol(s: &str) -> String {
    if s.bytes().all(|b| b.is_ascii_alphanumeric() || b"_.$".contains(&b)) && !s.as_bytes()[0].is_ascii_digit() {
        s.to_string()
    } else {
        quoted(s)
    }
}

pub fn module(p: &Prog) -> Module {
    let mut e = Emit::new();
    let mut bodies = vec![];
    let mut tail = String::new();
    for k in 0..p.work.len() {
        e.define(&format!("{}void @{}()", ["", "internal "][k % 2], fn_name(k)), |e| exec_fn(e, p, k));
        bodies.push(std::mem::take(&mut e.body));
    }
    for k in 0..p.entries.len() {
        let en = &p.entries[k];
        let mut attrs = vec![(if en.modern { "entry_point" } else { "EntryPoint" }.to_string(), String::new())];
        for (k, v) in &en.attrs {
            if !is_entry_key(k) {
                attrs.retain(|(l, _)| l != k);
                attrs.push((k.clone(), v.clone()));
            }
        }
        let mut list = String::new();
        for (k, v) in &attrs {
            list.push(' ');
            list.push_str(&quoted(k));
            if !v.is_empty() {
                let _ = write!(list, "={}", quoted(v));
            }
        }
        let head = if p.groups {
            let _ = writeln!(tail, "attributes #{k} = {{{list} }}");
            format!("void @{}() #{k}", symbol(&p.entry_name(k)))
        } else {
            format!("void @{}(){list}", symbol(&p.entry_name(k)))
        };
        e.define(&head, |e| exec_fn(e, p, p.work.len() + k));
        bodies.push(std::mem::take(&mut e.body));
    }
    let mut tables = String::new();
    // Memory tables are only used by callables, whose entries may in turn use further functions.
    for t in 0..2 {
        if e.tables_used[t] {
            for k in 0..4 {
                e.define(&format!("internal void @call{t}_{k}(ptr %cap, ptr %args, ptr %res)"), |e| {
                    let v = |s: &str| (s.to_string(), K::P);
                    table_entry(e, p, t, k, v("%cap"), v("%args"), v("%res"));
                });
                bodies.push(std::mem::take(&mut e.body));
            }
            let _ = writeln!(tables, "@T{t} = internal constant [4 x ptr] [ptr @call{t}_0, ptr @call{t}_1, ptr @call{t}_2, ptr @call{t}_3]");
        }
        if e.mems_used[t] {
            for k in 0..2 {
                e.define(&format!("internal void @mem{t}_{k}(ptr %cap, i32 %n)"), |e| {
                    mem_entry(e, p, t, k, ("%cap".to_string(), K::P), ("%n".to_string(), K::J));
                });
                bodies.push(std::mem::take(&mut e.body));
            }
            let _ = writeln!(tables, "@M{t} = internal constant [2 x ptr] [ptr @mem{t}_0, ptr @mem{t}_1]");
        }
    }
    let mut head = format!("; ModuleID = 'generated'\nsource_filename = \"generated\"\n\n{}{tables}", e.globals());
    if p.pad > 0 {
        // The text ends in what matters, after comments and data that do not.
        let n = p.pad as usize;
        let data: String = (0..n / 2).map(|k| char::from(b'a' + (k * k / 7 % 26) as u8)).collect();
        let comment: String = (0..n / 60).map(|k| format!("; {k:056}\n")).collect();
        head = format!("{comment}{head}@an_unused_constant = constant [{} x i8] c\"{data}\"\n", n / 2);
    }
    let mut decls = vec![];
    for (k, f) in FUNCS.iter().enumerate() {
        let other_form = FUNCS.iter().enumerate().any(|(l, g)| l != k && g.name == f.name && e.used[l]);
        let first = FUNCS.iter().position(|g| g.name == f.name) == Some(k);
        if e.used[k] || (p.spare && !other_form && first) {
            decls.push((k, Emit::declaration(f)));
        }
    }
    let extra_decls = if p.spare { "declare void @an_unused_function(i64)\n".to_string() } else { String::new() };
    let _ = write!(tail, "\n!llvm.module.flags = !{{!0, !1}}\n!0 = !{{i32 1, !\"qir_major_version\", i32 1}}\n!1 = !{{i32 7, !\"qir_minor_version\", i32 0}}\n");
    Module { head, bodies, decls, extra_decls, tail, order: p.order }
}

// ---------------------------------------------------------------- generation

fn text() -> BoxedStrategy<String> {
    prop_oneof![
        90 => Just(String::new()),
        150 => "[a-zA-Z0-9_ ]{1,10}",
        60 => "\\PC{0,8}",
        30 => "[\n\t\r\"\\\\%äß→😀a]{1,6}",
        1 => (65_000_usize..80_000).prop_map(|n| (0..n).map(|k| char::from(b'a' + (k * k / 7 % 26) as u8)).collect::<String>()),
    ]
    .boxed()
}

fn int() -> BoxedStrategy<i64> {
    prop_oneof![3 => -20_i64..20, 2 => any::<i64>(), 1 => (any::<i64>(), 0_u32..64).prop_map(|(x, s)| x >> s), 1 => prop::sample::select(vec![i64::MAX, i64::MIN, 0, 1, -1])].boxed()
}

fn dbl() -> BoxedStrategy<Fl> {
    prop_oneof![
        4 => (-16_i32..17).prop_map(|k| f64::from(k) * std::f64::consts::FRAC_PI_8),
        3 => -7.0_f64..7.0,
        1 => any::<u64>().prop_map(f64::from_bits),
        1 => prop::sample::select(vec![0.0, -0.0, 1.0, -1.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 0.5, 1e300]),
    ]
    .prop_map(Fl)
    .boxed()
}

fn op() -> BoxedStrategy<Stmt> {
    (0..FUNCS.len() as u16, prop::array::uniform5(0_u32..1000), prop::array::uniform2(int()), prop::array::uniform2(dbl()), text())
        .prop_map(|(f, a, i, d, s)| Stmt::Op(Op { f, a, i, d, s }))
        .boxed()
}

fn stmts(n: usize) -> BoxedStrategy<Vec<Stmt>> {
    let leaf = prop_oneof![
        14 => op(),
        2 => (any::<u8>(), text()).prop_map(|(k, s)| Stmt::Rec(k, s)),
        2 => (any::<u8>(), any::<u8>(), any::<u8>()).prop_map(|(q, r, b)| Stmt::Meas { q, r, b }),
        2 => any::<u8>().prop_map(Stmt::Call),
    ];
    let stmt = leaf.prop_recursive(2, 24, 5, |inner| {
        prop_oneof![
            6 => inner.clone(),
            2 => (any::<u8>(), prop::collection::vec(inner.clone(), 0..4), prop::collection::vec(inner.clone(), 0..4)).prop_map(|(b, then, els)| Stmt::If { b, then, els }),
            1 => (0_u8..4, prop::collection::vec(inner, 0..4)).prop_map(|(n, body)| Stmt::Loop { n, body }),
        ]
    });
    prop::collection::vec(stmt, 0..n).boxed()
}

fn attr() -> BoxedStrategy<(String, String)> {
    let key = prop_oneof![
        4 => prop::sample::select(vec!["output_labeling_schema", "qir_profiles", "required_num_qubits", "required_num_results", "num_required_qubits"]).prop_map(str::to_string),
        1 => "[a-zA-Z][a-zA-Z_. -]{0,9}",
        1 => "[äößα-ω]{1,4}",
    ];
    let value = prop_oneof![2 => Just(String::new()), 3 => "[a-z_0-9]{1,12}", 1 => "[ -~]{0,12}", 1 => "[ä→😀 x]{1,5}", 1 => "[\t ]{1,2}[a-z\t]{0,4}"];
    (key, value).boxed()
}

fn entry() -> BoxedStrategy<Entry> {
    let name = prop_oneof![2 => Just("main".to_string()), 3 => "[A-Z][a-z]{0,6}__[A-Z][a-z]{0,6}", 1 => "[a-z]{1,3}[-$. ][a-z0-9]{0,3}", 1 => "[äü]{1,3}x"];
    (name, stmts(14), any::<bool>(), prop::collection::vec(attr(), 0..5), any::<[bool; 3]>())
        .prop_map(|(name, body, modern, attrs, f)| Entry { name, body, modern, attrs, init: f[0], release: f[1], dump: f[2] })
        .boxed()
}

pub fn prog() -> BoxedStrategy<Prog> {
    (
        any::<[bool; 5]>(),
        1_u8..6,
        prop::collection::vec(stmts(8), 0..4),
        prop_oneof![6 => prop::collection::vec(entry(), 1..2), 3 => prop::collection::vec(entry(), 2..4)],
        prop::array::uniform2((prop::option::of(int()), any::<bool>())),
        0_u8..4,
        prop_oneof![60 => Just(0_u32), 1 => 60_000_u32..400_000],
    )
        .prop_map(|(b, nq, work, entries, caps, order, pad)| Prog { static_qubits: b[0], static_results: b[1], legacy: b[2], nq, work, entries, caps, spare: b[3], groups: b[4], order, pad })
        .boxed()
}
