//! A stand-in for pyo3: the part of its interface that the module needs, on CPython's C interface.
//! The interpreter lock is assumed to be held wherever an object is touched.

#![allow(clippy::missing_safety_doc)]

use std::fmt;
use std::marker::PhantomData;
use std::os::raw::{c_char, c_int, c_void};

pub use pyo3_macros::{pyclass, pyfunction, pymethods, pymodule};

#[allow(non_snake_case, non_upper_case_globals, non_camel_case_types)]
pub mod ffi {
    use super::{c_char, c_int, c_void};
    #[repr(C)]
    pub struct PyObject {
        pub ob_refcnt: isize,
        pub ob_type: *mut PyObject,
    }
    pub type Fun = unsafe extern "C" fn(*mut PyObject, *mut PyObject, *mut PyObject) -> *mut PyObject;
    #[repr(C)]
    pub struct PyMethodDef {
        pub ml_name: *const c_char,
        pub ml_meth: Option<Fun>,
        pub ml_flags: c_int,
        pub ml_doc: *const c_char,
    }
    #[repr(C)]
    pub struct PyModuleDef {
        pub base: PyObject,
        pub m_init: *mut c_void,
        pub m_index: isize,
        pub m_copy: *mut PyObject,
        pub m_name: *const c_char,
        pub m_doc: *const c_char,
        pub m_size: isize,
        pub m_methods: *mut PyMethodDef,
        pub m_slots: *mut c_void,
        pub m_traverse: *mut c_void,
        pub m_clear: *mut c_void,
        pub m_free: *mut c_void,
    }
    #[repr(C)]
    pub struct PyType_Slot {
        pub slot: c_int,
        pub pfunc: *mut c_void,
    }
    #[repr(C)]
    pub struct PyType_Spec {
        pub name: *const c_char,
        pub basicsize: c_int,
        pub itemsize: c_int,
        pub flags: u32,
        pub slots: *mut PyType_Slot,
    }
    unsafe extern "C" {
        pub static mut PyExc_RuntimeError: *mut PyObject;
        pub static mut PyExc_ValueError: *mut PyObject;
        pub static mut PyExc_TypeError: *mut PyObject;
        pub static mut PyExc_OSError: *mut PyObject;
        pub static mut PyExc_OverflowError: *mut PyObject;
        pub static mut PyExc_Exception: *mut PyObject;
        pub static mut PyExc_BaseException: *mut PyObject;
        pub static mut PyExc_KeyError: *mut PyObject;
        pub static mut PyExc_FileNotFoundError: *mut PyObject;
        pub static mut _Py_NoneStruct: PyObject;
        pub static mut _Py_TrueStruct: PyObject;
        pub static mut _Py_FalseStruct: PyObject;
        pub fn Py_IncRef(o: *mut PyObject);
        pub fn Py_DecRef(o: *mut PyObject);
        pub fn PyErr_SetObject(t: *mut PyObject, v: *mut PyObject);
        pub fn PyErr_Occurred() -> *mut PyObject;
        pub fn PyErr_Fetch(t: *mut *mut PyObject, v: *mut *mut PyObject, tb: *mut *mut PyObject);
        pub fn PyErr_NormalizeException(t: *mut *mut PyObject, v: *mut *mut PyObject, tb: *mut *mut PyObject);
        pub fn PyErr_Restore(t: *mut PyObject, v: *mut PyObject, tb: *mut PyObject);
        pub fn PyErr_NewException(n: *const c_char, b: *mut PyObject, d: *mut PyObject) -> *mut PyObject;
        pub fn PyUnicode_FromStringAndSize(p: *const c_char, n: isize) -> *mut PyObject;
        pub fn PyUnicode_AsUTF8AndSize(o: *mut PyObject, n: *mut isize) -> *const c_char;
        pub fn PyBytes_AsString(o: *mut PyObject) -> *mut c_char;
        pub fn PyBytes_Size(o: *mut PyObject) -> isize;
        pub fn PyBytes_FromStringAndSize(p: *const c_char, n: isize) -> *mut PyObject;
        pub fn PyTuple_New(n: isize) -> *mut PyObject;
        pub fn PyTuple_SetItem(t: *mut PyObject, k: isize, o: *mut PyObject) -> c_int;
        pub fn PyTuple_GetItem(t: *mut PyObject, k: isize) -> *mut PyObject;
        pub fn PyTuple_Size(t: *mut PyObject) -> isize;
        pub fn PyDict_Next(d: *mut PyObject, pos: *mut isize, k: *mut *mut PyObject, v: *mut *mut PyObject) -> c_int;
        pub fn PyObject_Call(f: *mut PyObject, a: *mut PyObject, k: *mut PyObject) -> *mut PyObject;
        pub fn PyObject_GetIter(o: *mut PyObject) -> *mut PyObject;
        pub fn PyIter_Next(o: *mut PyObject) -> *mut PyObject;
        pub fn PyObject_Str(o: *mut PyObject) -> *mut PyObject;
        pub fn PyObject_IsTrue(o: *mut PyObject) -> c_int;
        pub fn PyObject_GetAttrString(o: *mut PyObject, n: *const c_char) -> *mut PyObject;
        pub fn PyObject_SetAttrString(o: *mut PyObject, n: *const c_char, v: *mut PyObject) -> c_int;
        pub fn PyNumber_Index(o: *mut PyObject) -> *mut PyObject;
        pub fn PyLong_AsUnsignedLongLong(o: *mut PyObject) -> u64;
        pub fn PyLong_AsLongLong(o: *mut PyObject) -> i64;
        pub fn PyLong_FromLongLong(x: i64) -> *mut PyObject;
        pub fn PyLong_FromUnsignedLongLong(x: u64) -> *mut PyObject;
        pub fn PyFloat_AsDouble(o: *mut PyObject) -> f64;
        pub fn PyFloat_FromDouble(x: f64) -> *mut PyObject;
        pub fn PyCFunction_NewEx(d: *mut PyMethodDef, s: *mut PyObject, m: *mut PyObject) -> *mut PyObject;
        pub fn PyModule_Create2(d: *mut PyModuleDef, v: c_int) -> *mut PyObject;
        pub fn PyType_FromSpec(s: *mut PyType_Spec) -> *mut PyObject;
        pub fn PyType_GenericAlloc(t: *mut PyObject, n: isize) -> *mut PyObject;
        pub fn PyObject_Free(p: *mut c_void);
        pub fn PyType_IsSubtype(a: *mut PyObject, b: *mut PyObject) -> c_int;
        pub fn PyEval_SaveThread() -> *mut c_void;
        pub fn PyEval_RestoreThread(t: *mut c_void);
        pub fn PyGILState_Ensure() -> c_int;
        pub fn PyGILState_Release(s: c_int);
        pub fn PyErr_CheckSignals() -> c_int;
    }
}
use ffi::PyObject;

/// Proof of holding the interpreter lock.
#[derive(Clone, Copy)]
pub struct Python<'py>(PhantomData<(&'py (), *mut ())>);

impl<'py> Python<'py> {
    pub unsafe fn assume_gil_acquired() -> Python<'py> {
        Python(PhantomData)
    }
    pub fn attach<R>(f: impl for<'a> FnOnce(Python<'a>) -> R) -> R {
        unsafe {
            let s = ffi::PyGILState_Ensure();
            let r = f(Python(PhantomData));
            ffi::PyGILState_Release(s);
            r
        }
    }
    pub fn with_gil<R>(f: impl for<'a> FnOnce(Python<'a>) -> R) -> R {
        Self::attach(f)
    }
    pub fn detach<R>(self, f: impl FnOnce() -> R) -> R {
        struct Back(*mut c_void);
        impl Drop for Back {
            fn drop(&mut self) {
                unsafe { ffi::PyEval_RestoreThread(self.0) }
            }
        }
        let _b = Back(unsafe { ffi::PyEval_SaveThread() });
        f()
    }
    pub fn allow_threads<R>(self, f: impl FnOnce() -> R) -> R {
        self.detach(f)
    }
    #[allow(non_snake_case)]
    pub fn None(self) -> Py<PyAny> {
        none()
    }
    pub fn check_signals(self) -> PyResult<()> {
        if unsafe { ffi::PyErr_CheckSignals() } == 0 { Ok(()) } else { Err(PyErr::fetch(self)) }
    }
}

fn none() -> Py<PyAny> {
    unsafe { Py::borrowed(&raw mut ffi::_Py_NoneStruct) }
}

pub struct PyAny(());

/// An owned reference.
pub struct Py<T>(*mut PyObject, PhantomData<T>);
unsafe impl<T> Send for Py<T> {}
unsafe impl<T> Sync for Py<T> {}

impl<T> Py<T> {
    unsafe fn owned(p: *mut PyObject) -> Self {
        Py(p, PhantomData)
    }
    unsafe fn borrowed(p: *mut PyObject) -> Self {
        unsafe { ffi::Py_IncRef(p) };
        Py(p, PhantomData)
    }
    unsafe fn checked(py: Python<'_>, p: *mut PyObject) -> PyResult<Self> {
        if p.is_null() { Err(PyErr::fetch(py)) } else { Ok(Py(p, PhantomData)) }
    }
    pub fn as_ptr(&self) -> *mut PyObject {
        self.0
    }
    pub fn into_any(self) -> Py<PyAny> {
        let p = self.0;
        std::mem::forget(self);
        Py(p, PhantomData)
    }
    pub fn clone_ref(&self, _py: Python<'_>) -> Self {
        unsafe { Py::borrowed(self.0) }
    }
    pub fn is_none(&self, _py: Python<'_>) -> bool {
        std::ptr::eq(self.0, &raw mut ffi::_Py_NoneStruct)
    }
    pub fn bind<'a, 'py>(&'a self, _py: Python<'py>) -> &'a Bound<'py, T> {
        // A Bound is a Py and nothing else.
        unsafe { &*(&raw const *self).cast::<Bound<'py, T>>() }
    }
    pub fn into_bound(self, _py: Python<'_>) -> Bound<'_, T> {
        Bound(self, PhantomData)
    }
    pub fn call1<A: PyCallArgs>(&self, py: Python<'_>, args: A) -> PyResult<Py<PyAny>> {
        let a = args.tuple(py)?;
        unsafe { Py::checked(py, ffi::PyObject_Call(self.0, a.0, std::ptr::null_mut())) }
    }
    pub fn call0(&self, py: Python<'_>) -> PyResult<Py<PyAny>> {
        self.call1(py, ())
    }
    pub fn extract<'py, R: FromPyObject<'py>>(&self, py: Python<'py>) -> PyResult<R> {
        R::extract(&unsafe { Py::<PyAny>::borrowed(self.0) }.into_bound(py))
    }
}

impl<T: impl_::PyClass> Py<T> {
    pub fn new(py: Python<'_>, value: T) -> PyResult<Py<T>> {
        let t = impl_::type_object::<T>(py)?;
        unsafe {
            let o = ffi::PyType_GenericAlloc(t, 0);
            if o.is_null() {
                return Err(PyErr::fetch(py));
            }
            (*o.cast::<impl_::Instance>()).contents = Box::into_raw(Box::new(value)).cast();
            Ok(Py(o, PhantomData))
        }
    }
}

impl<T> Drop for Py<T> {
    fn drop(&mut self) {
        unsafe { ffi::Py_DecRef(self.0) }
    }
}

impl<T> Clone for Py<T> {
    fn clone(&self) -> Self {
        unsafe { Py::borrowed(self.0) }
    }
}

impl<T> fmt::Debug for Py<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Py({:p})", self.0)
    }
}

pub type PyObjectRef = Py<PyAny>;

#[repr(transparent)]
pub struct Bound<'py, T>(Py<T>, PhantomData<Python<'py>>);

impl<'py, T> Bound<'py, T> {
    pub fn py(&self) -> Python<'py> {
        Python(PhantomData)
    }
    pub fn unbind(self) -> Py<T> {
        self.0
    }
    pub fn as_ptr(&self) -> *mut PyObject {
        self.0 .0
    }
    pub fn into_any(self) -> Bound<'py, PyAny> {
        Bound(self.0.into_any(), PhantomData)
    }
    pub fn is_none(&self) -> bool {
        self.0.is_none(self.py())
    }
    pub fn call1<A: PyCallArgs>(&self, args: A) -> PyResult<Bound<'py, PyAny>> {
        Ok(Bound(self.0.call1(self.py(), args)?, PhantomData))
    }
    pub fn call0(&self) -> PyResult<Bound<'py, PyAny>> {
        self.call1(())
    }
    pub fn extract<R: FromPyObject<'py>>(&self) -> PyResult<R> {
        self.0.extract(self.py())
    }
    pub fn getattr(&self, name: &str) -> PyResult<Bound<'py, PyAny>> {
        let n = std::ffi::CString::new(name).unwrap();
        Ok(Bound(unsafe { Py::checked(self.py(), ffi::PyObject_GetAttrString(self.as_ptr(), n.as_ptr()))? }, PhantomData))
    }
    pub fn to_string_lossy(&self) -> String {
        text_of(self.as_ptr())
    }
}

impl<T> Clone for Bound<'_, T> {
    fn clone(&self) -> Self {
        Bound(self.0.clone(), PhantomData)
    }
}

impl<'py> Bound<'py, types::PyModule> {
    pub fn add<V: IntoPyObject>(&self, name: &str, v: V) -> PyResult<()> {
        let o = v.to_py(self.py())?;
        let n = std::ffi::CString::new(name).unwrap();
        if unsafe { ffi::PyObject_SetAttrString(self.as_ptr(), n.as_ptr(), o.0) } == 0 {
            Ok(())
        } else {
            Err(PyErr::fetch(self.py()))
        }
    }
    pub fn add_function(&self, f: Bound<'py, types::PyCFunction>) -> PyResult<()> {
        let n: String = f.getattr("__name__")?.extract()?;
        self.add(&n, f)
    }
    pub fn add_class<T: impl_::PyClass>(&self) -> PyResult<()> {
        let t = unsafe { Py::<PyAny>::borrowed(impl_::type_object::<T>(self.py())?) };
        self.add(T::NAME, t)
    }
}

fn text_of(o: *mut PyObject) -> String {
    unsafe {
        let s = ffi::PyObject_Str(o);
        if s.is_null() {
            ffi::PyErr_Restore(std::ptr::null_mut(), std::ptr::null_mut(), std::ptr::null_mut());
            return "<unprintable>".into();
        }
        let s = Py::<PyAny>::owned(s);
        let mut n = 0;
        let p = ffi::PyUnicode_AsUTF8AndSize(s.0, &mut n);
        if p.is_null() {
            ffi::PyErr_Restore(std::ptr::null_mut(), std::ptr::null_mut(), std::ptr::null_mut());
            return "<unprintable>".into();
        }
        String::from_utf8_lossy(std::slice::from_raw_parts(p.cast(), n as usize)).into_owned()
    }
}

// ---------------------------------------------------------------- errors

pub type PyResult<T> = Result<T, PyErr>;

enum State {
    New(fn() -> *mut PyObject, String),
    Raised(Py<PyAny>),
}

pub struct PyErr(State);

impl PyErr {
    pub fn new<T: exceptions::PyTypeInfo, A: PyErrArguments>(args: A) -> PyErr {
        PyErr(State::New(T::type_ptr, args.text()))
    }
    pub fn fetch(_py: Python<'_>) -> PyErr {
        unsafe {
            let (mut t, mut v, mut tb) = (std::ptr::null_mut(), std::ptr::null_mut(), std::ptr::null_mut());
            ffi::PyErr_Fetch(&mut t, &mut v, &mut tb);
            if t.is_null() {
                return PyErr::new::<exceptions::PyRuntimeError, _>("attempted to fetch exception but none was set");
            }
            ffi::PyErr_NormalizeException(&mut t, &mut v, &mut tb);
            ffi::Py_DecRef(t);
            ffi::Py_DecRef(tb);
            PyErr(State::Raised(Py::owned(v)))
        }
    }
    fn restore(self) {
        unsafe {
            match self.0 {
                State::New(t, m) => {
                    let s = ffi::PyUnicode_FromStringAndSize(m.as_ptr().cast(), m.len() as isize);
                    ffi::PyErr_SetObject(t(), s);
                    ffi::Py_DecRef(s);
                }
                State::Raised(v) => ffi::PyErr_SetObject((*v.0).ob_type, v.0),
            }
        }
    }
}

impl fmt::Display for PyErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let name = |t: *mut PyObject| unsafe {
            let n = ffi::PyObject_GetAttrString(t, c"__qualname__".as_ptr());
            text_of(Py::<PyAny>::owned(n).0)
        };
        match &self.0 {
            State::New(t, m) => write!(f, "{}: {m}", name(t())),
            State::Raised(v) => write!(f, "{}: {}", name(unsafe { (*v.0).ob_type }), text_of(v.0)),
        }
    }
}
impl fmt::Debug for PyErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "PyErr({self})")
    }
}
impl std::error::Error for PyErr {}

impl From<PyErr> for std::io::Error {
    fn from(e: PyErr) -> Self {
        std::io::Error::other(e)
    }
}
impl From<std::io::Error> for PyErr {
    fn from(e: std::io::Error) -> Self {
        PyErr::new::<exceptions::PyOSError, _>(e.to_string())
    }
}
impl From<std::str::Utf8Error> for PyErr {
    fn from(e: std::str::Utf8Error) -> Self {
        PyErr::new::<exceptions::PyValueError, _>(e.to_string())
    }
}

pub trait PyErrArguments {
    fn text(self) -> String;
}
impl PyErrArguments for String {
    fn text(self) -> String {
        self
    }
}
impl PyErrArguments for &str {
    fn text(self) -> String {
        self.to_string()
    }
}

pub mod exceptions {
    use super::ffi;
    pub trait PyTypeInfo {
        fn type_ptr() -> *mut ffi::PyObject;
    }
    macro_rules! exc {
        ($($n:ident $f:ident),*) => {$(
            pub struct $n(());
            impl PyTypeInfo for $n {
                fn type_ptr() -> *mut ffi::PyObject {
                    unsafe { ffi::$f }
                }
            }
            impl $n {
                pub fn new_err<A: super::PyErrArguments>(a: A) -> super::PyErr {
                    super::PyErr::new::<$n, A>(a)
                }
            }
        )*};
    }
    exc!(
        PyRuntimeError PyExc_RuntimeError, PyValueError PyExc_ValueError, PyTypeError PyExc_TypeError, PyOSError PyExc_OSError, PyOverflowError PyExc_OverflowError,
        PyException PyExc_Exception, PyBaseException PyExc_BaseException, PyKeyError PyExc_KeyError, PyFileNotFoundError PyExc_FileNotFoundError
    );
}

// ---------------------------------------------------------------- conversions

pub trait FromPyObject<'py>: Sized {
    fn extract(o: &Bound<'py, PyAny>) -> PyResult<Self>;
}

impl FromPyObject<'_> for String {
    fn extract(o: &Bound<'_, PyAny>) -> PyResult<Self> {
        unsafe {
            let mut n = 0;
            let p = ffi::PyUnicode_AsUTF8AndSize(o.as_ptr(), &mut n);
            if p.is_null() {
                return Err(PyErr::fetch(o.py()));
            }
            Ok(String::from_utf8(std::slice::from_raw_parts(p.cast(), n as usize).to_vec()).unwrap())
        }
    }
}

impl<'py, T: FromPyObject<'py>> FromPyObject<'py> for Option<T> {
    fn extract(o: &Bound<'py, PyAny>) -> PyResult<Self> {
        if o.is_none() { Ok(None) } else { T::extract(o).map(Some) }
    }
}

macro_rules! ints {
    ($get:ident $wide:ty: $($t:ty),*) => {$(
        impl FromPyObject<'_> for $t {
            fn extract(o: &Bound<'_, PyAny>) -> PyResult<Self> {
                unsafe {
                    let i = Py::<PyAny>::checked(o.py(), ffi::PyNumber_Index(o.as_ptr()))?;
                    let v: $wide = ffi::$get(i.0);
                    if !ffi::PyErr_Occurred().is_null() {
                        return Err(PyErr::fetch(o.py()));
                    }
                    <$t>::try_from(v).map_err(|e| PyErr::new::<exceptions::PyOverflowError, _>(e.to_string()))
                }
            }
        }
    )*};
}
ints!(PyLong_AsUnsignedLongLong u64: u8, u16, u32, u64, usize);
ints!(PyLong_AsLongLong i64: i8, i16, i32, i64, isize);

impl FromPyObject<'_> for bool {
    fn extract(o: &Bound<'_, PyAny>) -> PyResult<Self> {
        {
            if std::ptr::eq(o.as_ptr(), &raw mut ffi::_Py_TrueStruct) {
                Ok(true)
            } else if std::ptr::eq(o.as_ptr(), &raw mut ffi::_Py_FalseStruct) {
                Ok(false)
            } else {
                Err(PyErr::new::<exceptions::PyTypeError, _>("object cannot be converted to bool"))
            }
        }
    }
}
impl FromPyObject<'_> for f64 {
    fn extract(o: &Bound<'_, PyAny>) -> PyResult<Self> {
        unsafe {
            let v = ffi::PyFloat_AsDouble(o.as_ptr());
            if v == -1.0 && !ffi::PyErr_Occurred().is_null() {
                return Err(PyErr::fetch(o.py()));
            }
            Ok(v)
        }
    }
}

impl<T> FromPyObject<'_> for Py<T>
where
    T: 'static,
{
    fn extract(o: &Bound<'_, PyAny>) -> PyResult<Self> {
        Ok(unsafe { Py::borrowed(o.as_ptr()) })
    }
}
impl<'py> FromPyObject<'py> for Bound<'py, PyAny> {
    fn extract(o: &Bound<'py, PyAny>) -> PyResult<Self> {
        Ok(o.clone())
    }
}
impl std::ops::Deref for types::PyBackedBytes {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}
impl FromPyObject<'_> for types::PyBackedBytes {
    fn extract(o: &Bound<'_, PyAny>) -> PyResult<Self> {
        Ok(types::PyBackedBytes(Vec::extract(o)?))
    }
}
impl FromPyObject<'_> for std::path::PathBuf {
    fn extract(o: &Bound<'_, PyAny>) -> PyResult<Self> {
        String::extract(o).map(Into::into)
    }
}
impl FromPyObject<'_> for std::ffi::OsString {
    fn extract(o: &Bound<'_, PyAny>) -> PyResult<Self> {
        String::extract(o).map(Into::into)
    }
}

impl<'py, T: FromPyObject<'py>> FromPyObject<'py> for Vec<T> {
    fn extract(o: &Bound<'py, PyAny>) -> PyResult<Self> {
        unsafe {
            let is = |name: &str| text_of((*o.as_ptr()).ob_type).contains(name);
            if is("'str'") {
                return Err(PyErr::new::<exceptions::PyTypeError, _>("Can't extract `str` to `Vec`"));
            }
            let it = Py::<PyAny>::checked(o.py(), ffi::PyObject_GetIter(o.as_ptr()))?;
            let mut v = vec![];
            loop {
                let e = ffi::PyIter_Next(it.0);
                if e.is_null() {
                    break;
                }
                v.push(T::extract(&Py::<PyAny>::owned(e).into_bound(o.py()))?);
            }
            if !ffi::PyErr_Occurred().is_null() {
                return Err(PyErr::fetch(o.py()));
            }
            Ok(v)
        }
    }
}

pub trait IntoPyObject {
    fn to_py(self, py: Python<'_>) -> PyResult<Py<PyAny>>;
}
impl<T> IntoPyObject for Py<T> {
    fn to_py(self, _: Python<'_>) -> PyResult<Py<PyAny>> {
        Ok(self.into_any())
    }
}
impl<T> IntoPyObject for &Py<T> {
    fn to_py(self, _: Python<'_>) -> PyResult<Py<PyAny>> {
        Ok(unsafe { Py::borrowed(self.0) })
    }
}
impl<T> IntoPyObject for Bound<'_, T> {
    fn to_py(self, _: Python<'_>) -> PyResult<Py<PyAny>> {
        Ok(self.0.into_any())
    }
}
impl<T> IntoPyObject for &Bound<'_, T> {
    fn to_py(self, _: Python<'_>) -> PyResult<Py<PyAny>> {
        Ok(unsafe { Py::borrowed(self.as_ptr()) })
    }
}
impl IntoPyObject for &str {
    fn to_py(self, py: Python<'_>) -> PyResult<Py<PyAny>> {
        unsafe { Py::checked(py, ffi::PyUnicode_FromStringAndSize(self.as_ptr().cast(), self.len() as isize)) }
    }
}
impl IntoPyObject for String {
    fn to_py(self, py: Python<'_>) -> PyResult<Py<PyAny>> {
        self.as_str().to_py(py)
    }
}
impl IntoPyObject for () {
    fn to_py(self, _: Python<'_>) -> PyResult<Py<PyAny>> {
        Ok(none())
    }
}
impl IntoPyObject for bool {
    fn to_py(self, _: Python<'_>) -> PyResult<Py<PyAny>> {
        Ok(unsafe { Py::borrowed(if self { &raw mut ffi::_Py_TrueStruct } else { &raw mut ffi::_Py_FalseStruct }) })
    }
}
impl IntoPyObject for f64 {
    fn to_py(self, py: Python<'_>) -> PyResult<Py<PyAny>> {
        unsafe { Py::checked(py, ffi::PyFloat_FromDouble(self)) }
    }
}
macro_rules! from_ints {
    ($f:ident $w:ty: $($t:ty),*) => {$(
        impl IntoPyObject for $t {
            fn to_py(self, py: Python<'_>) -> PyResult<Py<PyAny>> {
                unsafe { Py::checked(py, ffi::$f(self as $w)) }
            }
        }
    )*};
}
from_ints!(PyLong_FromLongLong i64: i8, i16, i32, i64, isize);
from_ints!(PyLong_FromUnsignedLongLong u64: u8, u16, u32, u64, usize);
impl<T: IntoPyObject> IntoPyObject for Option<T> {
    fn to_py(self, py: Python<'_>) -> PyResult<Py<PyAny>> {
        self.map_or_else(|| Ok(none()), |v| v.to_py(py))
    }
}

pub trait PyCallArgs {
    fn tuple(self, py: Python<'_>) -> PyResult<Py<types::PyTuple>>;
}
fn tuple(py: Python<'_>, v: Vec<Py<PyAny>>) -> PyResult<Py<types::PyTuple>> {
    unsafe {
        let t = Py::checked(py, ffi::PyTuple_New(v.len() as isize))?;
        for (k, o) in v.into_iter().enumerate() {
            let p = o.0;
            std::mem::forget(o);
            ffi::PyTuple_SetItem(t.0, k as isize, p);
        }
        Ok(t)
    }
}
impl PyCallArgs for () {
    fn tuple(self, py: Python<'_>) -> PyResult<Py<types::PyTuple>> {
        tuple(py, vec![])
    }
}
impl<A: IntoPyObject> PyCallArgs for (A,) {
    fn tuple(self, py: Python<'_>) -> PyResult<Py<types::PyTuple>> {
        tuple(py, vec![self.0.to_py(py)?])
    }
}
impl<A: IntoPyObject, B: IntoPyObject> PyCallArgs for (A, B) {
    fn tuple(self, py: Python<'_>) -> PyResult<Py<types::PyTuple>> {
        tuple(py, vec![self.0.to_py(py)?, self.1.to_py(py)?])
    }
}
impl PyCallArgs for Py<types::PyTuple> {
    fn tuple(self, _: Python<'_>) -> PyResult<Py<types::PyTuple>> {
        Ok(self)
    }
}
impl PyCallArgs for &Py<types::PyTuple> {
    fn tuple(self, _: Python<'_>) -> PyResult<Py<types::PyTuple>> {
        Ok(self.clone())
    }
}
impl PyCallArgs for Bound<'_, types::PyTuple> {
    fn tuple(self, _: Python<'_>) -> PyResult<Py<types::PyTuple>> {
        Ok(self.0)
    }
}
impl PyCallArgs for &Bound<'_, types::PyTuple> {
    fn tuple(self, _: Python<'_>) -> PyResult<Py<types::PyTuple>> {
        Ok(self.0.clone())
    }
}

pub mod types {
    use super::{tuple, Bound, IntoPyObject, PyAny, PyErr, PyResult, Python};
    pub struct PyTuple(());
    pub struct PyModule(());
    pub struct PyCFunction(());
    pub struct PyString(());
    pub struct PyBytes(());
    pub struct PyBackedBytes(pub(crate) Vec<u8>);
    impl PyTuple {
        pub fn new<'py, T: IntoPyObject, I: IntoIterator<Item = T>>(py: Python<'py>, v: I) -> PyResult<Bound<'py, PyTuple>> {
            let v = v.into_iter().map(|x| x.to_py(py)).collect::<PyResult<Vec<_>>>()?;
            Ok(tuple(py, v)?.into_bound(py))
        }
        pub fn empty(py: Python<'_>) -> Bound<'_, PyTuple> {
            tuple(py, vec![]).unwrap().into_bound(py)
        }
    }
    impl PyString {
        pub fn new<'py>(py: Python<'py>, s: &str) -> Bound<'py, PyAny> {
            s.to_py(py).unwrap().into_bound(py)
        }
    }
    impl PyBytes {
        pub fn new<'py>(py: Python<'py>, s: &[u8]) -> Bound<'py, PyAny> {
            unsafe { super::Py::owned(super::ffi::PyBytes_FromStringAndSize(s.as_ptr().cast(), s.len() as isize)).into_bound(py) }
        }
    }
    pub trait PyAnyMethods {}
    pub trait PyModuleMethods {}
    #[allow(dead_code)]
    fn _unused(_: PyErr) {}
}

pub mod prelude {
    pub use crate::types::{PyAnyMethods, PyModule, PyModuleMethods};
    pub use crate::{pyclass, pyfunction, pymethods, pymodule, wrap_pyfunction, Bound, FromPyObject, IntoPyObject, Py, PyAny, PyErr, PyResult, Python};
}

#[macro_export]
macro_rules! wrap_pyfunction {
    ($f:path, $m:expr) => {{
        use $f as wrapped;
        $crate::impl_::function(&wrapped::DEF, &$m)
    }};
}

pub mod impl_ {
    use super::*;
    use std::ffi::CString;
    use std::panic::{catch_unwind, AssertUnwindSafe};
    use std::sync::OnceLock;

    pub struct FnDef {
        pub name: &'static str,
        pub doc: &'static str,
        pub meth: ffi::Fun,
    }
    pub struct MethodDef {
        pub def: FnDef,
        pub unary: unsafe extern "C" fn(*mut PyObject) -> *mut PyObject,
    }
    pub trait PyMethods {
        fn methods() -> Vec<MethodDef>;
    }
    pub trait PyClass: PyMethods + Sized {
        const NAME: &'static str;
        fn cell() -> &'static TypeCell;
    }
    pub struct TypeCell(OnceLock<usize>);
    impl TypeCell {
        #[allow(clippy::new_without_default)]
        pub const fn new() -> Self {
            TypeCell(OnceLock::new())
        }
    }
    #[repr(C)]
    pub struct Instance {
        pub head: PyObject,
        pub contents: *mut c_void,
    }

    unsafe extern "C" fn dealloc<T>(o: *mut PyObject) {
        unsafe {
            let i = o.cast::<Instance>();
            if !(*i).contents.is_null() {
                drop(Box::from_raw((*i).contents.cast::<T>()));
            }
            let t = (*o).ob_type;
            ffi::PyObject_Free(o.cast());
            ffi::Py_DecRef(t);
        }
    }

    fn leak(s: &str) -> *const c_char {
        CString::new(s).unwrap().into_raw()
    }

    fn method(d: &FnDef) -> ffi::PyMethodDef {
        // METH_VARARGS | METH_KEYWORDS
        ffi::PyMethodDef { ml_name: leak(d.name), ml_meth: Some(d.meth), ml_flags: 3, ml_doc: leak(d.doc) }
    }

    pub fn type_object<T: PyClass>(py: Python<'_>) -> PyResult<*mut PyObject> {
        if let Some(t) = T::cell().0.get() {
            return Ok(*t as *mut PyObject);
        }
        let mut slots = vec![ffi::PyType_Slot { slot: 52, pfunc: dealloc::<T> as *mut c_void }];
        let mut methods = vec![];
        for m in T::methods() {
            let slot = match m.def.name {
                "__repr__" => 66,
                "__str__" => 70,
                _ => 0,
            };
            if slot > 0 {
                slots.push(ffi::PyType_Slot { slot, pfunc: m.unary as *mut c_void });
            } else {
                methods.push(method(&m.def));
            }
        }
        methods.push(ffi::PyMethodDef { ml_name: std::ptr::null(), ml_meth: None, ml_flags: 0, ml_doc: std::ptr::null() });
        slots.push(ffi::PyType_Slot { slot: 64, pfunc: methods.leak().as_mut_ptr().cast() });
        slots.push(ffi::PyType_Slot { slot: 0, pfunc: std::ptr::null_mut() });
        let mut spec = ffi::PyType_Spec {
            name: leak(&format!("builtins.{}", T::NAME)),
            basicsize: std::mem::size_of::<Instance>() as c_int,
            itemsize: 0,
            flags: 1 << 18 | 1 << 7, // default, no instantiation
            slots: slots.leak().as_mut_ptr(),
        };
        let t = unsafe { ffi::PyType_FromSpec(&mut spec) };
        if t.is_null() {
            return Err(PyErr::fetch(py));
        }
        Ok(*T::cell().0.get_or_init(|| t as usize) as *mut PyObject)
    }

    pub unsafe fn contents<T>(o: *mut PyObject) -> *mut T {
        unsafe { (*o.cast::<Instance>()).contents.cast() }
    }

    pub struct Param {
        pub name: &'static str,
        pub required: bool,
        pub keyword_only: bool,
    }

    pub struct Args(Vec<*mut PyObject>);

    impl Args {
        pub fn parse(_py: Python<'_>, fname: &str, params: &[Param], args: *mut PyObject, kwargs: *mut PyObject) -> PyResult<Args> {
            let bad = |m: String| Err(PyErr::new::<exceptions::PyTypeError, _>(m));
            let mut v = vec![std::ptr::null_mut(); params.len()];
            unsafe {
                if !args.is_null() {
                    let n = ffi::PyTuple_Size(args) as usize;
                    let most = params.iter().filter(|p| !p.keyword_only).count();
                    if n > most {
                        return bad(format!("{fname}() takes at most {most} positional arguments ({n} given)"));
                    }
                    for (k, slot) in v.iter_mut().enumerate().take(n) {
                        *slot = ffi::PyTuple_GetItem(args, k as isize);
                    }
                }
                if !kwargs.is_null() {
                    let (mut pos, mut key, mut val) = (0, std::ptr::null_mut(), std::ptr::null_mut());
                    while ffi::PyDict_Next(kwargs, &mut pos, &mut key, &mut val) != 0 {
                        let name = text_of(key);
                        let Some(k) = params.iter().position(|p| p.name == name) else {
                            return bad(format!("{fname}() got an unexpected keyword argument '{name}'"));
                        };
                        if !v[k].is_null() {
                            return bad(format!("{fname}() got multiple values for argument '{name}'"));
                        }
                        v[k] = val;
                    }
                }
            }
            for (p, o) in params.iter().zip(&v) {
                if o.is_null() && p.required {
                    return bad(format!("{fname}() missing 1 required positional argument: '{}'", p.name));
                }
            }
            Ok(Args(v))
        }
        pub fn get(&self, k: usize) -> Option<*mut PyObject> {
            Some(self.0[k]).filter(|p| !p.is_null())
        }
    }

    pub fn extract<'py, T: FromPyObject<'py>>(py: Python<'py>, o: *mut PyObject, name: &str) -> PyResult<T> {
        let b = unsafe { Py::<PyAny>::borrowed(o) }.into_bound(py);
        T::extract(&b).map_err(|e| match &e.0 {
            State::Raised(v) if std::ptr::eq(unsafe { (*v.0).ob_type }, unsafe { ffi::PyExc_TypeError }) => {
                PyErr::new::<exceptions::PyTypeError, _>(format!("argument '{name}': {}", text_of(v.0)))
            }
            _ => e,
        })
    }

    pub trait Outcome {
        fn outcome(self, py: Python<'_>) -> PyResult<Py<PyAny>>;
    }
    impl<T: IntoPyObject> Outcome for PyResult<T> {
        fn outcome(self, py: Python<'_>) -> PyResult<Py<PyAny>> {
            self?.to_py(py)
        }
    }
    impl<T: IntoPyObject> Outcome for T {
        fn outcome(self, py: Python<'_>) -> PyResult<Py<PyAny>> {
            self.to_py(py)
        }
    }
    pub fn finish<T: Outcome>(py: Python<'_>, v: T) -> PyResult<*mut PyObject> {
        let o = v.outcome(py)?;
        let p = o.0;
        std::mem::forget(o);
        Ok(p)
    }

    pub fn trampoline(f: impl for<'py> FnOnce(Python<'py>) -> PyResult<*mut PyObject>) -> *mut PyObject {
        match catch_unwind(AssertUnwindSafe(|| f(Python(PhantomData)))) {
            Ok(Ok(p)) => p,
            Ok(Err(e)) => {
                e.restore();
                std::ptr::null_mut()
            }
            Err(p) => unsafe {
                static PANIC: OnceLock<usize> = OnceLock::new();
                let t = *PANIC.get_or_init(|| ffi::PyErr_NewException(c"pyo3_runtime.PanicException".as_ptr(), ffi::PyExc_BaseException, std::ptr::null_mut()) as usize) as *mut PyObject;
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(ToString::to_string)).unwrap_or_else(|| "panic".into());
                let s = ffi::PyUnicode_FromStringAndSize(m.as_ptr().cast(), m.len() as isize);
                ffi::PyErr_SetObject(t, s);
                ffi::Py_DecRef(s);
                std::ptr::null_mut()
            },
        }
    }

    pub fn function<'py, T>(d: &FnDef, m: &Bound<'py, T>) -> PyResult<Bound<'py, types::PyCFunction>> {
        let def = Box::leak(Box::new(method(d)));
        Ok(unsafe { Py::checked(m.py(), ffi::PyCFunction_NewEx(def, std::ptr::null_mut(), std::ptr::null_mut()))? }.into_bound(m.py()))
    }

    pub fn module(name: &str, f: impl for<'a, 'py> FnOnce(Python<'py>, &'a Bound<'py, types::PyModule>) -> PyResult<()>) -> *mut PyObject {
        trampoline(|py| unsafe {
            let def = Box::leak(Box::new(ffi::PyModuleDef {
                base: PyObject { ob_refcnt: 1, ob_type: std::ptr::null_mut() },
                m_init: std::ptr::null_mut(),
                m_index: 0,
                m_copy: std::ptr::null_mut(),
                m_name: leak(name),
                m_doc: leak(""),
                m_size: -1,
                m_methods: std::ptr::null_mut(),
                m_slots: std::ptr::null_mut(),
                m_traverse: std::ptr::null_mut(),
                m_clear: std::ptr::null_mut(),
                m_free: std::ptr::null_mut(),
            }));
            let m: Bound<'_, types::PyModule> = Py::checked(py, ffi::PyModule_Create2(def, 1013))?.into_bound(py);
            f(py, &m)?;
            let p = m.as_ptr();
            std::mem::forget(m);
            Ok(p)
        })
    }
}
