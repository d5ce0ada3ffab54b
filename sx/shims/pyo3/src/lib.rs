//! Stand-in for pyo3 used by the solver-based checks.
//!
//! Python objects are plain Rust values (`Val`), exceptions are class ids. Nothing
//! here is decided symbolically: conversions keep the value they are given.
//! Allocations are leaked so that no drop glue has to be unrolled.
#![allow(clippy::all)]
use std::cell::RefCell;
use std::convert::Infallible;
use std::marker::PhantomData;

pub use pyo3_macros_shim::{pyclass, pyfunction, pymethods, pymodule};

#[derive(Clone, Copy, Debug)]
pub enum Val {
    None,
    Bool(bool),
    Int(i64),
    UInt(u64),
    Float(f64),
    Bytes(&'static [u8]),
    Str(&'static str),
    Tuple(&'static [Val]),
    List(&'static RefCell<Vec<Val>>),
    Dict(&'static RefCell<Vec<(Val, Val)>>),
}

fn leak_bytes(data: &[u8]) -> &'static [u8] {
    let v: Vec<u8> = data.to_vec();
    Vec::leak(v)
}

fn val_eq(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::None, Val::None) => true,
        (Val::Bool(x), Val::Bool(y)) => x == y,
        (Val::Int(x), Val::Int(y)) => x == y,
        (Val::UInt(x), Val::UInt(y)) => x == y,
        (Val::Int(x), Val::UInt(y)) | (Val::UInt(y), Val::Int(x)) => *x >= 0 && *x as u64 == *y,
        (Val::Float(x), Val::Float(y)) => x == y,
        (Val::Bytes(x), Val::Bytes(y)) => x == y,
        (Val::Str(x), Val::Str(y)) => x == y,
        _ => false,
    }
}

#[derive(Clone, Copy)]
pub struct Python<'py>(PhantomData<&'py ()>);

impl<'py> Python<'py> {
    pub fn model() -> Python<'py> {
        Python(PhantomData)
    }
    pub fn with_gil<F, R>(f: F) -> R
    where
        F: for<'a> FnOnce(Python<'a>) -> R,
    {
        f(Python(PhantomData))
    }
    pub fn allow_threads<T, F>(self, f: F) -> T
    where
        F: FnOnce() -> T,
    {
        f()
    }
    #[allow(non_snake_case)]
    pub fn None(self) -> PyObject {
        Py::from_val(Val::None)
    }
    pub fn check_signals(self) -> PyResult<()> {
        Ok(())
    }
}

pub struct PyAny;
pub struct PyModule;

pub struct Py<T>(Val, PhantomData<T>);
pub type PyObject = Py<PyAny>;

impl<T> Py<T> {
    pub fn from_val(v: Val) -> Self {
        Py(v, PhantomData)
    }
    pub fn val(&self) -> Val {
        self.0
    }
    pub fn bind<'py>(&self, _py: Python<'py>) -> Bound<'py, T> {
        Bound::from_val(self.0)
    }
    pub fn into_bound<'py>(self, _py: Python<'py>) -> Bound<'py, T> {
        Bound::from_val(self.0)
    }
    pub fn clone_ref(&self, _py: Python<'_>) -> Self {
        Py(self.0, PhantomData)
    }
    pub fn into_any(self) -> PyObject {
        Py::from_val(self.0)
    }
}

pub struct Bound<'py, T>(Val, PhantomData<(&'py (), T)>);
pub type Borrowed<'a, 'py, T> = BorrowedShim<'a, 'py, T>;
pub struct BorrowedShim<'a, 'py, T>(Bound<'py, T>, PhantomData<&'a ()>);

impl<'a, 'py, T> std::ops::Deref for BorrowedShim<'a, 'py, T> {
    type Target = Bound<'py, T>;
    fn deref(&self) -> &Bound<'py, T> {
        &self.0
    }
}
impl<'a, 'py, T> BorrowedShim<'a, 'py, T> {
    pub fn to_owned(&self) -> Bound<'py, T> {
        Bound::from_val((self.0).0)
    }
}

impl<'py, T> Clone for Bound<'py, T> {
    fn clone(&self) -> Self {
        Bound(self.0, PhantomData)
    }
}
impl<T> Clone for Py<T> {
    fn clone(&self) -> Self {
        Py(self.0, PhantomData)
    }
}

impl<'py, T> Bound<'py, T> {
    pub fn from_val(v: Val) -> Self {
        Bound(v, PhantomData)
    }
    pub fn val(&self) -> Val {
        self.0
    }
    pub fn as_any(&self) -> &Bound<'py, PyAny> {
        // Same layout: the type parameter is phantom
        unsafe { &*(self as *const Bound<'py, T> as *const Bound<'py, PyAny>) }
    }
    pub fn into_any(self) -> Bound<'py, PyAny> {
        Bound::from_val(self.0)
    }
    pub fn unbind(self) -> Py<T> {
        Py::from_val(self.0)
    }
    pub fn py(&self) -> Python<'py> {
        Python(PhantomData)
    }
    pub fn is_none(&self) -> bool {
        matches!(self.0, Val::None)
    }
}

impl<'py, T> From<Bound<'py, T>> for PyObject {
    fn from(b: Bound<'py, T>) -> PyObject {
        Py::from_val(b.0)
    }
}

// ---- exceptions ---------------------------------------------------------

pub const fn class_id(name: &str) -> u32 {
    let b = name.as_bytes();
    let mut h: u32 = 0x811c9dc5;
    let mut i = 0;
    while i < b.len() {
        h = (h ^ b[i] as u32).wrapping_mul(0x01000193);
        i += 1;
    }
    h
}

pub trait PyTypeInfo {
    const ID: u32;
    /// Id of the immediate base class
    const BASE: u32;
}

pub trait PyErrArguments {}
impl PyErrArguments for String {}
impl PyErrArguments for &str {}
impl PyErrArguments for () {}
impl PyErrArguments for (String,) {}
impl PyErrArguments for (&str,) {}

#[derive(Debug, Clone, Copy, PartialEq)]
pub struct PyErr {
    pub class: u32,
    pub base: u32,
}
pub type PyResult<T> = Result<T, PyErr>;

impl std::fmt::Display for PyErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("exc")
    }
}
impl std::error::Error for PyErr {}
impl From<Infallible> for PyErr {
    fn from(x: Infallible) -> PyErr {
        match x {}
    }
}
impl From<std::io::Error> for PyErr {
    fn from(_x: std::io::Error) -> PyErr {
        exceptions::PyOSError::new_err("")
    }
}
impl From<std::str::Utf8Error> for PyErr {
    fn from(_x: std::str::Utf8Error) -> PyErr {
        exceptions::PyValueError::new_err("")
    }
}
impl From<std::num::TryFromIntError> for PyErr {
    fn from(_x: std::num::TryFromIntError) -> PyErr {
        exceptions::PyValueError::new_err("")
    }
}
impl From<std::num::ParseIntError> for PyErr {
    fn from(_x: std::num::ParseIntError) -> PyErr {
        exceptions::PyValueError::new_err("")
    }
}
impl PyErr {
    pub fn new<T: PyTypeInfo, A>(_a: A) -> PyErr {
        std::mem::forget(_a);
        PyErr { class: T::ID, base: T::BASE }
    }
    pub fn is_instance_of<T: PyTypeInfo>(&self, _py: Python<'_>) -> bool {
        self.class == T::ID || self.base == T::ID
    }
}

#[macro_export]
macro_rules! __exc {
    ($name:ident, $base:ident) => {
        pub struct $name;
        impl $crate::PyTypeInfo for $name {
            const ID: u32 = $crate::class_id(stringify!($name));
            const BASE: u32 = $crate::class_id(stringify!($base));
        }
        #[allow(dead_code)]
        impl $name {
            pub fn new_err<A>(_a: A) -> $crate::PyErr {
                // Arguments are not part of any property; not dropped to spare the solver
                std::mem::forget(_a);
                $crate::PyErr {
                    class: <$name as $crate::PyTypeInfo>::ID,
                    base: <$name as $crate::PyTypeInfo>::BASE,
                }
            }
        }
    };
}

#[macro_export]
macro_rules! create_exception {
    ($m:ident, $name:ident, $base:ident) => {
        $crate::__exc!($name, $base);
    };
    ($m:ident, $name:ident, $base:ident, $doc:expr) => {
        $crate::__exc!($name, $base);
    };
}

#[macro_export]
macro_rules! wrap_pyfunction {
    ($($t:tt)*) => {
        ()
    };
}

pub mod exceptions {
    __exc!(PyBaseException, PyBaseException);
    __exc!(PyException, PyBaseException);
    __exc!(PyValueError, PyException);
    __exc!(PyTypeError, PyException);
    __exc!(PyRuntimeError, PyException);
    __exc!(PyNotImplementedError, PyRuntimeError);
    __exc!(PyOSError, PyException);
    __exc!(PyBlockingIOError, PyOSError);
    __exc!(PyTimeoutError, PyOSError);
    __exc!(PyConnectionRefusedError, PyOSError);
    __exc!(PyStopIteration, PyException);
    __exc!(PyStopAsyncIteration, PyException);
    __exc!(PyKeyError, PyException);
    __exc!(PyIndexError, PyException);
    __exc!(PyOverflowError, PyException);
    __exc!(PyMemoryError, PyException);
    __exc!(PyAssertionError, PyException);
}

// ---- conversions --------------------------------------------------------

pub trait IntoPyObject<'py>: Sized {
    type Target;
    type Output;
    type Error;
    fn into_pyobject(self, py: Python<'py>) -> Result<Self::Output, Self::Error>;
}

/// What a conversion yields, whatever the wrapper
pub trait HasVal {
    fn get_val(&self) -> Val;
}
impl<'py, T> HasVal for Bound<'py, T> {
    fn get_val(&self) -> Val {
        self.0
    }
}
impl<T> HasVal for Py<T> {
    fn get_val(&self) -> Val {
        self.0
    }
}
impl<'a, 'py, T> HasVal for BorrowedShim<'a, 'py, T> {
    fn get_val(&self) -> Val {
        (self.0).0
    }
}

macro_rules! conv {
    ($t:ty, $target:ty, $x:ident => $e:expr) => {
        impl<'py> IntoPyObject<'py> for $t {
            type Target = $target;
            type Output = Bound<'py, $target>;
            type Error = Infallible;
            fn into_pyobject(self, _py: Python<'py>) -> Result<Self::Output, Infallible> {
                let $x = self;
                Ok(Bound::from_val($e))
            }
        }
        impl<'py> IntoPyObject<'py> for &$t {
            type Target = $target;
            type Output = Bound<'py, $target>;
            type Error = Infallible;
            fn into_pyobject(self, _py: Python<'py>) -> Result<Self::Output, Infallible> {
                let $x = self.clone();
                Ok(Bound::from_val($e))
            }
        }
    };
}
conv!(i64, types::PyInt, x => Val::Int(x));
conv!(i32, types::PyInt, x => Val::Int(x as i64));
conv!(i16, types::PyInt, x => Val::Int(x as i64));
conv!(i8, types::PyInt, x => Val::Int(x as i64));
conv!(isize, types::PyInt, x => Val::Int(x as i64));
conv!(u64, types::PyInt, x => Val::UInt(x));
conv!(u32, types::PyInt, x => Val::UInt(x as u64));
conv!(u16, types::PyInt, x => Val::UInt(x as u64));
conv!(u8, types::PyInt, x => Val::UInt(x as u64));
conv!(usize, types::PyInt, x => Val::UInt(x as u64));
conv!(f64, types::PyFloat, x => Val::Float(x));
conv!(f32, types::PyFloat, x => Val::Float(x as f64));
conv!(String, types::PyString, x => Val::Str(Box::leak(x.into_boxed_str())));
conv!((), types::PyTuple, _x => Val::None);
impl<'py> IntoPyObject<'py> for bool {
    type Target = types::PyBool;
    type Output = BorrowedShim<'py, 'py, types::PyBool>;
    type Error = Infallible;
    fn into_pyobject(self, py: Python<'py>) -> Result<Self::Output, Infallible> {
        Ok(types::PyBool::new(py, self))
    }
}
impl<'py> IntoPyObject<'py> for &str {
    type Target = types::PyString;
    type Output = Bound<'py, types::PyString>;
    type Error = Infallible;
    fn into_pyobject(self, py: Python<'py>) -> Result<Self::Output, Infallible> {
        Ok(types::PyString::new(py, self))
    }
}
impl<'py, T> IntoPyObject<'py> for Bound<'py, T> {
    type Target = T;
    type Output = Bound<'py, T>;
    type Error = Infallible;
    fn into_pyobject(self, _py: Python<'py>) -> Result<Self::Output, Infallible> {
        Ok(self)
    }
}
impl<'py, T> IntoPyObject<'py> for &Bound<'py, T> {
    type Target = T;
    type Output = Bound<'py, T>;
    type Error = Infallible;
    fn into_pyobject(self, _py: Python<'py>) -> Result<Self::Output, Infallible> {
        Ok(self.clone())
    }
}
impl<'py, T> IntoPyObject<'py> for Py<T> {
    type Target = T;
    type Output = Bound<'py, T>;
    type Error = Infallible;
    fn into_pyobject(self, _py: Python<'py>) -> Result<Self::Output, Infallible> {
        Ok(Bound::from_val(self.0))
    }
}
impl<'py, T> IntoPyObject<'py> for &Py<T> {
    type Target = T;
    type Output = Bound<'py, T>;
    type Error = Infallible;
    fn into_pyobject(self, _py: Python<'py>) -> Result<Self::Output, Infallible> {
        Ok(Bound::from_val(self.0))
    }
}
impl<'py, A, B> IntoPyObject<'py> for (A, B)
where
    A: IntoPyObject<'py>,
    A::Output: HasVal,
    A::Error: Into<PyErr>,
    B: IntoPyObject<'py>,
    B::Output: HasVal,
    B::Error: Into<PyErr>,
{
    type Target = types::PyTuple;
    type Output = Bound<'py, types::PyTuple>;
    type Error = PyErr;
    fn into_pyobject(self, py: Python<'py>) -> Result<Self::Output, PyErr> {
        let a = self.0.into_pyobject(py).map_err(Into::into)?.get_val();
        let b = self.1.into_pyobject(py).map_err(Into::into)?.get_val();
        let v: Vec<Val> = vec![a, b];
        Ok(Bound::from_val(Val::Tuple(Vec::leak(v))))
    }
}

pub mod types {
    use super::*;
    pub struct PyBytes;
    pub struct PyString;
    pub struct PyBool;
    pub struct PyInt;
    pub struct PyFloat;
    pub struct PyNone;
    pub struct PyTuple;
    pub struct PyList;
    pub struct PyDict;

    impl PyBytes {
        pub fn new<'py>(_py: Python<'py>, data: &[u8]) -> Bound<'py, PyBytes> {
            Bound::from_val(Val::Bytes(leak_bytes(data)))
        }
    }
    impl PyString {
        pub fn new<'py>(_py: Python<'py>, s: &str) -> Bound<'py, PyString> {
            let b = leak_bytes(s.as_bytes());
            Bound::from_val(Val::Str(unsafe { std::str::from_utf8_unchecked(b) }))
        }
    }
    impl PyBool {
        pub fn new<'py>(_py: Python<'py>, v: bool) -> BorrowedShim<'py, 'py, PyBool> {
            BorrowedShim(Bound::from_val(Val::Bool(v)), PhantomData)
        }
    }
    impl PyFloat {
        pub fn new<'py>(_py: Python<'py>, v: f64) -> Bound<'py, PyFloat> {
            Bound::from_val(Val::Float(v))
        }
    }
    impl PyNone {
        pub fn get<'py>(_py: Python<'py>) -> BorrowedShim<'py, 'py, PyNone> {
            BorrowedShim(Bound::from_val(Val::None), PhantomData)
        }
    }
    impl PyTuple {
        pub fn new<'py, T, U>(
            py: Python<'py>,
            elements: impl IntoIterator<Item = T, IntoIter = U>,
        ) -> PyResult<Bound<'py, PyTuple>>
        where
            T: IntoPyObject<'py>,
            T::Output: HasVal,
            T::Error: Into<PyErr>,
            U: Iterator<Item = T>,
        {
            let mut out: Vec<Val> = Vec::with_capacity(2);
            for e in elements {
                out.push(e.into_pyobject(py).map_err(Into::into)?.get_val());
            }
            Ok(Bound::from_val(Val::Tuple(Vec::leak(out))))
        }
        pub fn empty<'py>(_py: Python<'py>) -> Bound<'py, PyTuple> {
            Bound::from_val(Val::Tuple(&[]))
        }
    }
    impl PyList {
        pub fn empty<'py>(_py: Python<'py>) -> Bound<'py, PyList> {
            Bound::from_val(Val::List(Box::leak(Box::new(RefCell::new(Vec::with_capacity(4))))))
        }
        pub fn new<'py, T, U>(
            py: Python<'py>,
            elements: impl IntoIterator<Item = T, IntoIter = U>,
        ) -> PyResult<Bound<'py, PyList>>
        where
            T: IntoPyObject<'py>,
            T::Output: HasVal,
            T::Error: Into<PyErr>,
            U: Iterator<Item = T>,
        {
            let l = PyList::empty(py);
            for e in elements {
                l.append(e)?;
            }
            Ok(l)
        }
    }
    impl<'py> Bound<'py, PyList> {
        pub fn append<T>(&self, item: T) -> PyResult<()>
        where
            T: IntoPyObject<'py>,
            T::Output: HasVal,
            T::Error: Into<PyErr>,
        {
            let v = item.into_pyobject(self.py()).map_err(Into::into)?.get_val();
            match self.val() {
                Val::List(l) => l.borrow_mut().push(v),
                _ => unreachable!(),
            }
            Ok(())
        }
        pub fn len(&self) -> usize {
            match self.val() {
                Val::List(l) => l.borrow().len(),
                _ => unreachable!(),
            }
        }
        pub fn is_empty(&self) -> bool {
            self.len() == 0
        }
    }
    impl PyDict {
        pub fn new<'py>(_py: Python<'py>) -> Bound<'py, PyDict> {
            Bound::from_val(Val::Dict(Box::leak(Box::new(RefCell::new(Vec::with_capacity(4))))))
        }
    }
    impl<'py> Bound<'py, PyDict> {
        pub fn set_item<K, V>(&self, key: K, value: V) -> PyResult<()>
        where
            K: IntoPyObject<'py>,
            K::Output: HasVal,
            K::Error: Into<PyErr>,
            V: IntoPyObject<'py>,
            V::Output: HasVal,
            V::Error: Into<PyErr>,
        {
            let k = key.into_pyobject(self.py()).map_err(Into::into)?.get_val();
            let v = value.into_pyobject(self.py()).map_err(Into::into)?.get_val();
            match self.val() {
                Val::Dict(d) => {
                    let mut d = d.borrow_mut();
                    let mut i = 0;
                    while i < d.len() {
                        if val_eq(&d[i].0, &k) {
                            d[i].1 = v;
                            return Ok(());
                        }
                        i += 1;
                    }
                    d.push((k, v));
                }
                _ => unreachable!(),
            }
            Ok(())
        }
        pub fn contains<K>(&self, key: K) -> PyResult<bool>
        where
            K: IntoPyObject<'py>,
            K::Output: HasVal,
            K::Error: Into<PyErr>,
        {
            let k = key.into_pyobject(self.py()).map_err(Into::into)?.get_val();
            match self.val() {
                Val::Dict(d) => {
                    let d = d.borrow();
                    let mut i = 0;
                    while i < d.len() {
                        if val_eq(&d[i].0, &k) {
                            return Ok(true);
                        }
                        i += 1;
                    }
                    Ok(false)
                }
                _ => unreachable!(),
            }
        }
        pub fn len(&self) -> usize {
            match self.val() {
                Val::Dict(d) => d.borrow().len(),
                _ => unreachable!(),
            }
        }
        pub fn is_empty(&self) -> bool {
            self.len() == 0
        }
    }
}

pub mod pybacked {
    /// A str handed in by the caller
    #[derive(Clone)]
    pub struct PyBackedStr(pub &'static str);
    impl AsRef<str> for PyBackedStr {
        fn as_ref(&self) -> &str {
            self.0
        }
    }
    impl std::ops::Deref for PyBackedStr {
        type Target = str;
        fn deref(&self) -> &str {
            self.0
        }
    }
    #[derive(Clone)]
    pub struct PyBackedBytes(pub &'static [u8]);
    impl AsRef<[u8]> for PyBackedBytes {
        fn as_ref(&self) -> &[u8] {
            self.0
        }
    }
    impl std::ops::Deref for PyBackedBytes {
        type Target = [u8];
        fn deref(&self) -> &[u8] {
            self.0
        }
    }
}

pub mod prelude {
    pub use super::{
        pyclass, pyfunction, pymethods, pymodule, wrap_pyfunction, Bound, IntoPyObject, Py, PyAny,
        PyErr, PyModule, PyObject, PyResult, Python,
    };
}
