//! One program, two executions: as LLVM IR text (`Emit`) and by calling the runtime directly (`Direct`).

use std::cell::Cell;
use std::ffi::CString;
use std::fmt::Write as _;

/// Kinds of parameter and return: void, pointer, double, i64, i32, i1, i2 (Pauli), range by value; `Y` is a byte in memory.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    V,
    P,
    D,
    I,
    J,
    B,
    Q,
    R,
    Y,
}

impl K {
    pub fn ty(self) -> &'static str {
        match self {
            K::V => "void",
            K::P => "ptr",
            K::D => "double",
            K::I => "i64",
            K::J => "i32",
            K::B => "i1",
            K::Q => "i2",
            K::R => "ptr byval({ i64, i64, i64 }) align 8",
            K::Y => "i8",
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub enum Val {
    U,
    P(*mut u8),
    D(f64),
    I(i64),
    J(i32),
    B(bool),
    Q(u8),
    R(i64, i64, i64),
}

impl Val {
    fn p(self) -> *mut u8 {
        match self {
            Val::P(p) => p,
            v => panic!("pointer expected, got {v:?}"),
        }
    }
    fn d(self) -> f64 {
        match self {
            Val::D(p) => p,
            v => panic!("double expected, got {v:?}"),
        }
    }
    fn i(self) -> i64 {
        match self {
            Val::I(p) => p,
            v => panic!("i64 expected, got {v:?}"),
        }
    }
    fn j(self) -> i32 {
        match self {
            Val::J(p) => p,
            v => panic!("i32 expected, got {v:?}"),
        }
    }
    fn b(self) -> bool {
        match self {
            Val::B(p) => p,
            v => panic!("i1 expected, got {v:?}"),
        }
    }
    fn q(self) -> qir_stdlib::Pauli {
        match self {
            Val::Q(0) => qir_stdlib::Pauli::I,
            Val::Q(1) => qir_stdlib::Pauli::X,
            Val::Q(2) => qir_stdlib::Pauli::Z,
            Val::Q(3) => qir_stdlib::Pauli::Y,
            v => panic!("pauli expected, got {v:?}"),
        }
    }
    fn r(self) -> qir_stdlib::range_support::Range {
        match self {
            Val::R(start, step, end) => qir_stdlib::range_support::Range { start, step, end },
            v => panic!("range expected, got {v:?}"),
        }
    }
}

/// A runtime function: its symbol, its signature and a direct call of it.
pub struct F {
    pub name: &'static str,
    pub ret: K,
    pub args: &'static [K],
    pub call: fn(&[Val]) -> Val,
}

macro_rules! arg {
    (P, $v:expr) => {
        $v.p() as _
    };
    (D, $v:expr) => {
        $v.d()
    };
    (I, $v:expr) => {
        $v.i() as _
    };
    (J, $v:expr) => {
        $v.j() as _
    };
    (B, $v:expr) => {
        $v.b()
    };
    (Q, $v:expr) => {
        $v.q()
    };
    (R, $v:expr) => {
        $v.r()
    };
}
macro_rules! ret {
    (V, $e:expr) => {{
        $e;
        Val::U
    }};
    (P, $e:expr) => {
        Val::P($e as *mut u8)
    };
    (D, $e:expr) => {
        Val::D($e)
    };
    (I, $e:expr) => {
        Val::I($e as i64)
    };
    (J, $e:expr) => {
        Val::J($e as i32)
    };
    (B, $e:expr) => {
        Val::B($e)
    };
}
macro_rules! funcs {
    ($( $name:ident ( $($a:ident),* ) $r:ident $(= $path:path)? ; )*) => {
        pub static FUNCS: &[F] = &[ $( F {
            name: stringify!($name),
            ret: K::$r,
            args: &[ $(K::$a),* ],
            call: |a| {
                #[allow(unused_mut, unused_variables)]
                let mut it = a.iter().copied();
                #[allow(unused_unsafe, unused_imports, clippy::all)]
                unsafe {
                    use qir_backend::{*, exp::*};
                    funcs!(@call $r, ($($path)?, $name), it, $($a),*)
                }
            },
        } ),* ];
    };
    (@call $r:ident, (, $name:ident), $it:ident, $($a:ident),*) => { ret!($r, $name( $( arg!($a, $it.next().unwrap()) ),* )) };
    (@call $r:ident, ($path:path, $name:ident), $it:ident, $($a:ident),*) => { ret!($r, $path( $( arg!($a, $it.next().unwrap()) ),* )) };
}

use qir_backend::legacy_output as legb;
use qir_backend::output_recording::legacy as leg;

funcs! {
    __quantum__rt__initialize(P) V;
    __quantum__qis__arccos__body(D) D;
    __quantum__qis__arcsin__body(D) D;
    __quantum__qis__arctan__body(D) D;
    __quantum__qis__arctan2__body(D, D) D;
    __quantum__qis__assertmeasurementprobability__body(P, P, P, D, P, D) V;
    __quantum__qis__assertmeasurementprobability__ctl(P, P) V;
    __quantum__qis__barrier__body() V;
    __quantum__qis__ccx__body(P, P, P) V;
    __quantum__qis__cnot__body(P, P) V;
    __quantum__qis__cos__body(D) D;
    __quantum__qis__cosh__body(D) D;
    __quantum__qis__cx__body(P, P) V;
    __quantum__qis__cy__body(P, P) V;
    __quantum__qis__cz__body(P, P) V;
    __quantum__qis__drawrandomdouble__body(D, D) D;
    __quantum__qis__drawrandomint__body(I, I) I;
    __quantum__qis__dumpmachine__body(P) V;
    __quantum__qis__exp__body(P, D, P) V;
    __quantum__qis__exp__adj(P, D, P) V;
    __quantum__qis__exp__ctl(P, P) V;
    __quantum__qis__exp__ctladj(P, P) V;
    __quantum__qis__h__body(P) V;
    __quantum__qis__h__ctl(P, P) V;
    __quantum__qis__ieeeremainder__body(D, D) D;
    __quantum__qis__infinity__body() D;
    __quantum__qis__isinf__body(D) B;
    __quantum__qis__isnan__body(D) B;
    __quantum__qis__isnegativeinfinity__body(D) B;
    __quantum__qis__log__body(D) D;
    __quantum__qis__measure__body(P, P) P;
    __quantum__qis__mresetz__body(P, P) V;
    __quantum__qis__mz__body(P, P) V;
    __quantum__qis__nan__body() D;
    __quantum__qis__r__adj(Q, D, P) V;
    __quantum__qis__r__body(Q, D, P) V;
    __quantum__qis__r__ctl(P, P) V;
    __quantum__qis__r__ctladj(P, P) V;
    __quantum__qis__read_result__body(P) B;
    __quantum__qis__reset__body(P) V;
    __quantum__qis__rx__body(D, P) V;
    __quantum__qis__rx__ctl(P, P) V;
    __quantum__qis__rxx__body(D, P, P) V;
    __quantum__qis__ry__body(D, P) V;
    __quantum__qis__ry__ctl(P, P) V;
    __quantum__qis__ryy__body(D, P, P) V;
    __quantum__qis__rz__body(D, P) V;
    __quantum__qis__rz__ctl(P, P) V;
    __quantum__qis__rzz__body(D, P, P) V;
    __quantum__qis__s__adj(P) V;
    __quantum__qis__s__body(P) V;
    __quantum__qis__s__ctl(P, P) V;
    __quantum__qis__s__ctladj(P, P) V;
    __quantum__qis__sx__body(P) V;
    __quantum__qis__sin__body(D) D;
    __quantum__qis__sinh__body(D) D;
    __quantum__qis__sqrt__body(D) D;
    __quantum__qis__swap__body(P, P) V;
    __quantum__qis__t__adj(P) V;
    __quantum__qis__t__body(P) V;
    __quantum__qis__t__ctl(P, P) V;
    __quantum__qis__t__ctladj(P, P) V;
    __quantum__qis__tan__body(D) D;
    __quantum__qis__tanh__body(D) D;
    __quantum__qis__x__body(P) V;
    __quantum__qis__x__ctl(P, P) V;
    __quantum__qis__y__body(P) V;
    __quantum__qis__y__ctl(P, P) V;
    __quantum__qis__z__body(P) V;
    __quantum__qis__z__ctl(P, P) V;
    __quantum__rt__array_concatenate(P, P) P;
    __quantum__rt__array_copy(P, B) P;
    __quantum__rt__array_create_1d(J, I) P;
    __quantum__rt__array_get_element_ptr_1d(P, I) P;
    __quantum__rt__array_get_size_1d(P) I;
    quantum__rt__array_slice_1d(P, R, B) P = slice;
    __quantum__rt__array_update_alias_count(P, J) V;
    __quantum__rt__array_update_reference_count(P, J) V;
    __quantum__rt__bigint_add(P, P) P;
    __quantum__rt__bigint_bitand(P, P) P;
    __quantum__rt__bigint_bitnot(P) P;
    __quantum__rt__bigint_bitor(P, P) P;
    __quantum__rt__bigint_bitxor(P, P) P;
    __quantum__rt__bigint_create_array(J, P) P;
    __quantum__rt__bigint_create_i64(I) P;
    __quantum__rt__bigint_divide(P, P) P;
    __quantum__rt__bigint_equal(P, P) B;
    __quantum__rt__bigint_get_data(P) P;
    __quantum__rt__bigint_get_length(P) J;
    __quantum__rt__bigint_greater(P, P) B;
    __quantum__rt__bigint_greater_eq(P, P) B;
    __quantum__rt__bigint_modulus(P, P) P;
    __quantum__rt__bigint_multiply(P, P) P;
    __quantum__rt__bigint_negate(P) P;
    __quantum__rt__bigint_power(P, J) P;
    __quantum__rt__bigint_shiftleft(P, I) P;
    __quantum__rt__bigint_shiftright(P, I) P;
    __quantum__rt__bigint_subtract(P, P) P;
    __quantum__rt__bigint_to_string(P) P;
    __quantum__rt__bigint_update_reference_count(P, J) V;
    __quantum__rt__bool_to_string(B) P;
    __quantum__rt__callable_copy(P, B) P;
    __quantum__rt__callable_create(P, P, P) P;
    __quantum__rt__callable_invoke(P, P, P) V;
    __quantum__rt__callable_make_adjoint(P) V;
    __quantum__rt__callable_make_controlled(P) V;
    __quantum__rt__callable_update_alias_count(P, J) V;
    __quantum__rt__callable_update_reference_count(P, J) V;
    __quantum__rt__capture_update_alias_count(P, J) V;
    __quantum__rt__capture_update_reference_count(P, J) V;
    __quantum__rt__double_to_string(D) P;
    __quantum__rt__fail(P) V;
    __quantum__rt__int_to_string(I) P;
    __quantum__rt__memory_allocate(I) P;
    __quantum__rt__message(P) V;
    __quantum__rt__message_record_output(P) V;
    __quantum__rt__pauli_to_string(Q) P;
    __quantum__rt__qubit_allocate() P;
    __quantum__rt__qubit_allocate_array(I) P;
    __quantum__rt__qubit_release(P) V;
    __quantum__rt__qubit_release_array(P) V;
    __quantum__rt__qubit_to_string(P) P;
    __quantum__rt__read_result(P) B;
    __quantum__rt__result_equal(P, P) B = result_bool::__quantum__rt__result_equal;
    quantum__rt__range_to_string(R) P = range_to_string;
    __quantum__rt__result_get_one() P = result_bool::__quantum__rt__result_get_one;
    __quantum__rt__result_get_zero() P = result_bool::__quantum__rt__result_get_zero;
    __quantum__rt__result_to_string(P) P = result_bool::__quantum__rt__result_to_string;
    __quantum__rt__result_update_reference_count(P, J) V = result_bool::__quantum__rt__result_update_reference_count;
    __quantum__rt__string_concatenate(P, P) P;
    __quantum__rt__string_create(P) P;
    __quantum__rt__string_equal(P, P) B;
    __quantum__rt__string_get_data(P) P;
    __quantum__rt__string_get_length(P) J;
    __quantum__rt__string_update_reference_count(P, J) V;
    __quantum__rt__tuple_copy(P, B) P;
    __quantum__rt__tuple_create(I) P;
    __quantum__rt__tuple_update_alias_count(P, J) V;
    __quantum__rt__tuple_update_reference_count(P, J) V;
    __quantum__rt__write_result(B, P) V;
    // One of two, by the parameters.
    __quantum__qis__m__body(P) P;
    __quantum__qis__m__body(P, P) V = __quantum__qis__mz__body;
    // Labelled output
    __quantum__rt__array_record_output(I, P) V;
    __quantum__rt__tuple_record_output(I, P) V;
    __quantum__rt__bool_record_output(B, P) V;
    __quantum__rt__double_record_output(D, P) V;
    __quantum__rt__int_record_output(I, P) V;
    __quantum__rt__result_record_output(P, P) V;
    // Legacy output
    __quantum__rt__array_start_record_output() V = leg::__quantum__rt__array_start_record_output;
    __quantum__rt__array_end_record_output() V = leg::__quantum__rt__array_end_record_output;
    __quantum__rt__tuple_start_record_output() V = leg::__quantum__rt__tuple_start_record_output;
    __quantum__rt__tuple_end_record_output() V = leg::__quantum__rt__tuple_end_record_output;
    __quantum__rt__bool_record_output(B) V = leg::__quantum__rt__bool_record_output;
    __quantum__rt__double_record_output(D) V = leg::__quantum__rt__double_record_output;
    __quantum__rt__int_record_output(I) V = leg::__quantum__rt__int_record_output;
    __quantum__rt__result_record_output(P) V = legb::__quantum__rt__result_record_output;
}

use qir_backend::range_support::quantum__rt__array_slice_1d as call_slice;
use qir_backend::range_support::quantum__rt__range_to_string as range_to_string;
unsafe fn slice(a: *const qir_backend::arrays::QirArray, r: qir_stdlib::range_support::Range, _force: bool) -> *const qir_backend::arrays::QirArray {
    call_slice(a, r)
}

/// Finds a function by symbol and number of parameters.
pub fn fidx(name: &str, n: usize) -> usize {
    FUNCS.iter().position(|f| f.name == name && f.args.len() == n).unwrap_or_else(|| panic!("{name}/{n}"))
}

/// Program variables.
#[derive(Clone, Copy, Debug)]
pub enum Slot {
    I(usize),
    D(usize),
    B(usize),
    Qubit(usize),
}

impl Slot {
    pub fn kind(self) -> K {
        match self {
            Slot::I(_) => K::I,
            Slot::D(_) => K::D,
            Slot::B(_) => K::B,
            Slot::Qubit(_) => K::P,
        }
    }
    fn global(self) -> String {
        match self {
            Slot::I(i) => format!("@vi{i}"),
            Slot::D(i) => format!("@vd{i}"),
            Slot::B(i) => format!("@vb{i}"),
            Slot::Qubit(i) => format!("@q{i}"),
        }
    }
}
pub const NI: usize = 4;
pub const NQ: usize = 6;

pub trait Mach: Sized {
    type V: Clone;
    fn konst(&mut self, v: Val) -> Self::V;
    fn cstr(&mut self, s: &str) -> Self::V;
    fn call(&mut self, f: usize, args: &[Self::V]) -> Self::V;
    fn get(&mut self, s: Slot) -> Self::V;
    fn set(&mut self, s: Slot, v: &Self::V);
    fn load(&mut self, p: &Self::V, off: i64, k: K) -> Self::V;
    fn store(&mut self, p: &Self::V, off: i64, k: K, v: &Self::V);
    fn add(&mut self, a: &Self::V, b: &Self::V) -> Self::V;
    /// a <= b as signed integers.
    fn ile(&mut self, a: &Self::V, b: &Self::V) -> Self::V;
    /// a <= b as doubles.
    fn dle(&mut self, a: &Self::V, b: &Self::V) -> Self::V;
    fn and(&mut self, a: &Self::V, b: &Self::V) -> Self::V;
    /// An i32 widened to i64.
    fn widen(&mut self, a: &Self::V) -> Self::V;
    fn if_(&mut self, c: &Self::V, t: &mut dyn FnMut(&mut Self), e: &mut dyn FnMut(&mut Self));
    fn repeat(&mut self, n: u32, body: &mut dyn FnMut(&mut Self));
    fn call_fn(&mut self, k: usize);
    fn table(&mut self, k: usize) -> Self::V;
    fn mem_table(&mut self, k: usize) -> Self::V;
}

// ---------------------------------------------------------------- direct execution

/// Called back by the runtime: (table, entry, capture, arguments, result).
pub type EntryFn = fn(&mut Direct, usize, usize, Val, Val, Val);
pub type MemFn = fn(&mut Direct, usize, usize, Val, Val);

pub struct Direct {
    ints: [i64; NI],
    dbls: [f64; NI],
    bools: [bool; NI],
    qubits: [*mut u8; NQ],
    strings: Vec<CString>,
    pub prog: *const crate::prog::Prog,
    pub funcs: fn(&mut Direct, usize),
    pub entry: EntryFn,
    pub mem: MemFn,
    pub called: [u32; 160],
}

thread_local! {
    static CURRENT: Cell<*mut Direct> = const { Cell::new(std::ptr::null_mut()) };
}

/// Callbacks use a machine of their own: the one that is running is borrowed by its caller.
fn inner() -> Direct {
    let d = unsafe { &*CURRENT.with(Cell::get) };
    Direct::new(d.prog, d.funcs, d.entry, d.mem)
}
extern "C" fn trampoline<const T: usize, const E: usize>(cap: *mut u8, args: *mut u8, res: *mut u8) {
    let mut d = inner();
    (d.entry)(&mut d, T, E, Val::P(cap), Val::P(args), Val::P(res));
}
extern "C" fn mem_trampoline<const T: usize, const E: usize>(cap: *mut u8, n: i32) {
    let mut d = inner();
    (d.mem)(&mut d, T, E, Val::P(cap), Val::J(n));
}

type Tramp = extern "C" fn(*mut u8, *mut u8, *mut u8);
type MemTramp = extern "C" fn(*mut u8, i32);
static TABLES: [[Tramp; 4]; 2] = [
    [trampoline::<0, 0>, trampoline::<0, 1>, trampoline::<0, 2>, trampoline::<0, 3>],
    [trampoline::<1, 0>, trampoline::<1, 1>, trampoline::<1, 2>, trampoline::<1, 3>],
];
static MEMS: [[MemTramp; 2]; 2] = [[mem_trampoline::<0, 0>, mem_trampoline::<0, 1>], [mem_trampoline::<1, 0>, mem_trampoline::<1, 1>]];

impl Direct {
    pub fn new(prog: *const crate::prog::Prog, funcs: fn(&mut Direct, usize), entry: EntryFn, mem: MemFn) -> Direct {
        Direct { ints: [0; NI], dbls: [0.0; NI], bools: [false; NI], qubits: [std::ptr::null_mut(); NQ], strings: vec![], prog, funcs, entry, mem, called: [0; 160] }
    }
    pub fn run(&mut self, k: usize) {
        let me: *mut Direct = self;
        CURRENT.with(|c| c.set(me));
        (self.funcs)(self, k);
        CURRENT.with(|c| c.set(std::ptr::null_mut()));
    }
}

impl Mach for Direct {
    type V = Val;
    fn konst(&mut self, v: Val) -> Val {
        v
    }
    fn cstr(&mut self, s: &str) -> Val {
        let c = CString::new(s).unwrap();
        let p = c.as_ptr() as *mut u8;
        self.strings.push(c);
        Val::P(p)
    }
    fn call(&mut self, f: usize, args: &[Val]) -> Val {
        self.called[f] += 1;
        (FUNCS[f].call)(args)
    }
    fn get(&mut self, s: Slot) -> Val {
        match s {
            Slot::I(i) => Val::I(self.ints[i]),
            Slot::D(i) => Val::D(self.dbls[i]),
            Slot::B(i) => Val::B(self.bools[i]),
            Slot::Qubit(i) => Val::P(self.qubits[i]),
        }
    }
    fn set(&mut self, s: Slot, v: &Val) {
        match s {
            Slot::I(i) => self.ints[i] = v.i(),
            Slot::D(i) => self.dbls[i] = v.d(),
            Slot::B(i) => self.bools[i] = v.b(),
            Slot::Qubit(i) => self.qubits[i] = v.p(),
        }
    }
    fn load(&mut self, p: &Val, off: i64, k: K) -> Val {
        unsafe {
            let p = p.p().offset(off as isize);
            match k {
                K::P => Val::P(p.cast::<*mut u8>().read_unaligned()),
                K::D => Val::D(p.cast::<f64>().read_unaligned()),
                K::I => Val::I(p.cast::<i64>().read_unaligned()),
                K::J => Val::J(p.cast::<i32>().read_unaligned()),
                K::Y => Val::I(i64::from(*p)),
                k => panic!("load {k:?}"),
            }
        }
    }
    fn store(&mut self, p: &Val, off: i64, k: K, v: &Val) {
        unsafe {
            let p = p.p().offset(off as isize);
            match (k, *v) {
                (K::P, Val::P(x)) => p.cast::<*mut u8>().write_unaligned(x),
                (K::D, Val::D(x)) => p.cast::<f64>().write_unaligned(x),
                (K::I, Val::I(x)) => p.cast::<i64>().write_unaligned(x),
                (K::J, Val::J(x)) => p.cast::<i32>().write_unaligned(x),
                (K::Q, Val::Q(x)) => *p = x,
                (k, v) => panic!("store {k:?} {v:?}"),
            }
        }
    }
    fn add(&mut self, a: &Val, b: &Val) -> Val {
        Val::I(a.i().wrapping_add(b.i()))
    }
    fn ile(&mut self, a: &Val, b: &Val) -> Val {
        Val::B(a.i() <= b.i())
    }
    fn dle(&mut self, a: &Val, b: &Val) -> Val {
        Val::B(a.d() <= b.d())
    }
    fn and(&mut self, a: &Val, b: &Val) -> Val {
        Val::B(a.b() && b.b())
    }
    fn widen(&mut self, a: &Val) -> Val {
        Val::I(i64::from(a.j()))
    }
    fn if_(&mut self, c: &Val, t: &mut dyn FnMut(&mut Self), e: &mut dyn FnMut(&mut Self)) {
        if c.b() {
            t(self)
        } else {
            e(self)
        }
    }
    fn repeat(&mut self, n: u32, body: &mut dyn FnMut(&mut Self)) {
        for _ in 0..n {
            body(self)
        }
    }
    fn call_fn(&mut self, k: usize) {
        (self.funcs)(self, k)
    }
    fn table(&mut self, k: usize) -> Val {
        Val::P(TABLES[k].as_ptr() as *mut u8)
    }
    fn mem_table(&mut self, k: usize) -> Val {
        Val::P(MEMS[k].as_ptr() as *mut u8)
    }
}

// ---------------------------------------------------------------- emission

#[derive(Default)]
pub struct Emit {
    pub body: String,
    next: usize,
    strings: Vec<String>,
    pub used: Vec<bool>,
    pub tables_used: [bool; 2],
    pub mems_used: [bool; 2],
}

pub fn fn_name(k: usize) -> String {
    format!("work__{k}__body")
}

impl Emit {
    pub fn new() -> Emit {
        Emit { used: vec![false; FUNCS.len()], ..Emit::default() }
    }
    fn fresh(&mut self) -> String {
        self.next += 1;
        format!("%t{}", self.next)
    }
    fn line(&mut self, s: &str) {
        self.body.push_str("  ");
        self.body.push_str(s);
        self.body.push('\n');
    }
    fn label(&mut self) -> String {
        self.next += 1;
        format!("l{}", self.next)
    }
    pub fn ptr_plus(&mut self, p: &str, off: i64) -> String {
        if off == 0 {
            return p.to_string();
        }
        let t = self.fresh();
        self.line(&format!("{t} = getelementptr i8, ptr {p}, i64 {off}"));
        t
    }
    /// Definition of a function; the body is emitted by `f`, given the parameter names.
    pub fn define(&mut self, head: &str, f: impl FnOnce(&mut Emit)) {
        let _ = writeln!(self.body, "define {head} {{\nentry:");
        f(self);
        self.body.push_str("  ret void\n}\n\n");
    }
    pub fn globals(&self) -> String {
        let mut g = String::new();
        for i in 0..NI {
            let _ = writeln!(g, "@vi{i} = internal global i64 0\n@vd{i} = internal global double 0.0\n@vb{i} = internal global i1 false");
        }
        for i in 0..NQ {
            let _ = writeln!(g, "@q{i} = internal global ptr null");
        }
        for (i, s) in self.strings.iter().enumerate() {
            let _ = write!(g, "@s{i} = private constant [{} x i8] c\"", s.len() + 1);
            for b in s.bytes() {
                if (b.is_ascii_alphanumeric() || b == b' ') && b != b'"' && b != b'\\' {
                    g.push(b as char);
                } else {
                    let _ = write!(g, "\\{b:02X}");
                }
            }
            g.push_str("\\00\"\n");
        }
        g
    }
    pub fn declaration(f: &F) -> String {
        format!("declare {} @{}({})\n", f.ret.ty(), f.name, f.args.iter().map(|k| k.ty()).collect::<Vec<_>>().join(", "))
    }
}

pub fn ir_double(x: f64) -> String {
    format!("0x{:016X}", x.to_bits())
}

impl Mach for Emit {
    /// An operand without its type, and its kind.
    type V = (String, K);
    fn konst(&mut self, v: Val) -> Self::V {
        match v {
            Val::U => unreachable!(),
            Val::P(p) if p.is_null() => ("null".into(), K::P),
            Val::P(p) => (format!("inttoptr (i64 {} to ptr)", p as usize), K::P),
            Val::D(x) => (ir_double(x), K::D),
            Val::I(x) => (x.to_string(), K::I),
            Val::J(x) => (x.to_string(), K::J),
            Val::B(x) => (x.to_string(), K::B),
            Val::Q(x) => ([0, 1, -2, -1][x as usize].to_string(), K::Q),
            Val::R(a, s, b) => {
                let r = self.fresh();
                self.line(&format!("{r} = alloca {{ i64, i64, i64 }}, align 8"));
                for (i, x) in [a, s, b].into_iter().enumerate() {
                    let p = self.ptr_plus(&r, i as i64 * 8);
                    self.line(&format!("store i64 {x}, ptr {p}, align 8"));
                }
                (r, K::R)
            }
        }
    }
    fn cstr(&mut self, s: &str) -> Self::V {
        let i = self.strings.iter().position(|t| t == s).unwrap_or_else(|| {
            self.strings.push(s.to_string());
            self.strings.len() - 1
        });
        (format!("@s{i}"), K::P)
    }
    fn call(&mut self, f: usize, args: &[Self::V]) -> Self::V {
        self.used[f] = true;
        let fun = &FUNCS[f];
        assert_eq!(fun.args.len(), args.len(), "{}", fun.name);
        let list: Vec<String> = args
            .iter()
            .zip(fun.args)
            .map(|((v, k), want)| {
                assert_eq!(k, want, "{}", fun.name);
                format!("{} {v}", want.ty())
            })
            .collect();
        let text = format!("call {} @{}({})", fun.ret.ty(), fun.name, list.join(", "));
        if fun.ret == K::V {
            self.line(&text);
            return (String::new(), K::V);
        }
        let t = self.fresh();
        self.line(&format!("{t} = {text}"));
        (t, fun.ret)
    }
    fn get(&mut self, s: Slot) -> Self::V {
        let t = self.fresh();
        self.line(&format!("{t} = load {}, ptr {}", s.kind().ty(), s.global()));
        (t, s.kind())
    }
    fn set(&mut self, s: Slot, v: &Self::V) {
        assert_eq!(s.kind(), v.1);
        self.line(&format!("store {} {}, ptr {}", v.1.ty(), v.0, s.global()));
    }
    fn load(&mut self, p: &Self::V, off: i64, k: K) -> Self::V {
        let p = self.ptr_plus(&p.0, off);
        let t = self.fresh();
        self.line(&format!("{t} = load {}, ptr {p}, align 1", k.ty()));
        if k == K::Y {
            let w = self.fresh();
            self.line(&format!("{w} = zext i8 {t} to i64"));
            return (w, K::I);
        }
        (t, k)
    }
    fn store(&mut self, p: &Self::V, off: i64, k: K, v: &Self::V) {
        assert_eq!(k, v.1);
        let p = self.ptr_plus(&p.0, off);
        self.line(&format!("store {} {}, ptr {p}, align 1", k.ty(), v.0));
    }
    fn add(&mut self, a: &Self::V, b: &Self::V) -> Self::V {
        let t = self.fresh();
        self.line(&format!("{t} = add i64 {}, {}", a.0, b.0));
        (t, K::I)
    }
    fn ile(&mut self, a: &Self::V, b: &Self::V) -> Self::V {
        let t = self.fresh();
        self.line(&format!("{t} = icmp sle i64 {}, {}", a.0, b.0));
        (t, K::B)
    }
    fn dle(&mut self, a: &Self::V, b: &Self::V) -> Self::V {
        let t = self.fresh();
        self.line(&format!("{t} = fcmp ole double {}, {}", a.0, b.0));
        (t, K::B)
    }
    fn and(&mut self, a: &Self::V, b: &Self::V) -> Self::V {
        let t = self.fresh();
        self.line(&format!("{t} = and i1 {}, {}", a.0, b.0));
        (t, K::B)
    }
    fn widen(&mut self, a: &Self::V) -> Self::V {
        let t = self.fresh();
        self.line(&format!("{t} = sext i32 {} to i64", a.0));
        (t, K::I)
    }
    fn if_(&mut self, c: &Self::V, t: &mut dyn FnMut(&mut Self), e: &mut dyn FnMut(&mut Self)) {
        let (a, b, d) = (self.label(), self.label(), self.label());
        self.line(&format!("br i1 {}, label %{a}, label %{b}", c.0));
        let _ = writeln!(self.body, "{a}:");
        t(self);
        self.line(&format!("br label %{d}"));
        let _ = writeln!(self.body, "{b}:");
        e(self);
        self.line(&format!("br label %{d}"));
        let _ = writeln!(self.body, "{d}:");
    }
    fn repeat(&mut self, n: u32, body: &mut dyn FnMut(&mut Self)) {
        let (h, b, d) = (self.label(), self.label(), self.label());
        let c = self.fresh();
        self.line(&format!("{c} = alloca i32"));
        self.line(&format!("store i32 0, ptr {c}"));
        self.line(&format!("br label %{h}"));
        let _ = writeln!(self.body, "{h}:");
        let (x, y, z) = (self.fresh(), self.fresh(), self.fresh());
        self.line(&format!("{x} = load i32, ptr {c}"));
        self.line(&format!("{y} = icmp ult i32 {x}, {n}"));
        self.line(&format!("br i1 {y}, label %{b}, label %{d}"));
        let _ = writeln!(self.body, "{b}:");
        self.line(&format!("{z} = add i32 {x}, 1"));
        self.line(&format!("store i32 {z}, ptr {c}"));
        body(self);
        self.line(&format!("br label %{h}"));
        let _ = writeln!(self.body, "{d}:");
    }
    fn call_fn(&mut self, k: usize) {
        self.line(&format!("call void @{}()", fn_name(k)));
    }
    fn table(&mut self, k: usize) -> Self::V {
        self.tables_used[k] = true;
        (format!("@T{k}"), K::P)
    }
    fn mem_table(&mut self, k: usize) -> Self::V {
        self.mems_used[k] = true;
        (format!("@M{k}"), K::P)
    }
}
