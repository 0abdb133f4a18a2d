//! A stand-in for pyo3 with the same surface: what an interpreter would pass
//! and get is a value of type PyAny.  Argument passing (positional, keyword,
//! default), class instances, attributes and errors follow pyo3 0.16.
use std::any::Any;
use std::cell::{RefCell, UnsafeCell};
use std::rc::Rc;

pub use pyo3_macros::{pyclass, pyfunction, pymethods, pymodule, FromPyObject};

#[derive(Clone)]
pub enum PyAny {
    None,
    Bool(bool),
    Int(i64),
    Str(String),
    List(Vec<PyAny>),
    Inst(Rc<UnsafeCell<Box<dyn Obj>>>),
}
pub type PyObject = PyAny;
#[derive(Clone, Copy)]
pub struct Python<'a>(std::marker::PhantomData<&'a ()>);
impl<'a> Python<'a> {
    pub fn stub() -> Self {
        Python(std::marker::PhantomData)
    }
    pub fn allow_threads<T>(self, f: impl FnOnce() -> T) -> T {
        f()
    }
}

#[derive(Debug)]
pub struct PyErr {
    pub kind: &'static str,
    pub msg: String,
}
pub type PyResult<T> = Result<T, PyErr>;
impl PyErr {
    pub fn of(kind: &'static str, msg: &str) -> Self {
        PyErr { kind, msg: msg.to_string() }
    }
}
impl std::fmt::Display for PyErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}: {}", self.kind, self.msg)
    }
}
impl std::error::Error for PyErr {}
impl From<std::io::Error> for PyErr {
    fn from(e: std::io::Error) -> Self {
        PyErr { kind: "OSError", msg: e.to_string() }
    }
}
pub mod exceptions {
    use super::PyErr;
    macro_rules! exc {
        ($($n:ident $s:expr),*) => {$(
            pub struct $n;
            impl $n {
                pub fn new_err<T: Text>(m: T) -> PyErr {
                    PyErr { kind: $s, msg: m.text() }
                }
            }
        )*};
    }
    pub trait Text {
        fn text(self) -> String;
    }
    impl Text for String {
        fn text(self) -> String {
            self
        }
    }
    impl Text for &str {
        fn text(self) -> String {
            self.to_string()
        }
    }
    impl Text for () {
        fn text(self) -> String {
            String::new()
        }
    }
    exc!(
        PyException "Exception", PyOSError "OSError", PyIOError "OSError", PyEnvironmentError "OSError",
        PyFileNotFoundError "FileNotFoundError", PyValueError "ValueError", PyTypeError "TypeError",
        PyRuntimeError "RuntimeError", PyKeyError "KeyError", PyIndexError "IndexError",
        PyAttributeError "AttributeError", PyUnicodeDecodeError "UnicodeDecodeError",
        PyPermissionError "PermissionError", PyNotImplementedError "NotImplementedError"
    );
}

// ---- classes
pub trait PyClass: Any {
    const NAME: &'static str;
    fn field(&self, name: &str) -> Option<PyAny>;
}
pub type Args<'a> = (&'a [PyAny], &'a [(&'a str, PyAny)]);
pub trait PyMethods: PyClass + Sized {
    fn py_new(a: Args) -> PyResult<PyAny>;
    fn py_call(&mut self, name: &str, a: Args) -> PyResult<PyAny>;
    fn py_get(&self, name: &str) -> Option<PyResult<PyAny>>;
}
pub trait Obj: Any {
    fn class(&self) -> &'static str;
    fn any(&self) -> &dyn Any;
    fn any_mut(&mut self) -> &mut dyn Any;
    fn get(&self, name: &str) -> Option<PyResult<PyAny>>;
    fn call(&mut self, name: &str, a: Args) -> PyResult<PyAny>;
}
impl<T: PyMethods> Obj for T {
    fn class(&self) -> &'static str {
        T::NAME
    }
    fn any(&self) -> &dyn Any {
        self
    }
    fn any_mut(&mut self) -> &mut dyn Any {
        self
    }
    fn get(&self, name: &str) -> Option<PyResult<PyAny>> {
        match self.field(name) {
            Some(v) => Some(Ok(v)),
            None => self.py_get(name),
        }
    }
    fn call(&mut self, name: &str, a: Args) -> PyResult<PyAny> {
        self.py_call(name, a)
    }
}
impl PyAny {
    fn obj(&self) -> Option<&mut Box<dyn Obj>> {
        match self {
            PyAny::Inst(o) => Some(unsafe { &mut *o.get() }),
            _ => None,
        }
    }
    pub fn extract<'a, T: FromPyObject<'a>>(&'a self) -> PyResult<T> {
        T::extract(self)
    }
    pub fn getattr(&self, name: &str) -> PyResult<PyAny> {
        match self.obj().and_then(|o| o.get(name)) {
            Some(r) => r,
            None => Err(PyErr::of("AttributeError", name)),
        }
    }
    pub fn hasattr(&self, name: &str) -> PyResult<bool> {
        Ok(self.getattr(name).is_ok())
    }
    pub fn is_none(&self) -> bool {
        matches!(self, PyAny::None)
    }
    /// obj.name(args, kw)
    pub fn method(&self, name: &str, a: Args) -> PyResult<PyAny> {
        match self.obj() {
            Some(o) => o.call(name, a),
            None => Err(PyErr::of("AttributeError", name)),
        }
    }
}

// ---- conversions
pub trait FromPyObject<'a>: Sized {
    fn extract(o: &'a PyAny) -> PyResult<Self>;
}
fn wrong<T>(what: &str) -> PyResult<T> {
    Err(PyErr::of("TypeError", what))
}
impl<'a> FromPyObject<'a> for String {
    fn extract(o: &'a PyAny) -> PyResult<Self> {
        as_str(o).map(|s| s.to_string())
    }
}
impl<'a> FromPyObject<'a> for &'a str {
    fn extract(o: &'a PyAny) -> PyResult<Self> {
        as_str(o)
    }
}
impl<'a> FromPyObject<'a> for &'a PyAny {
    fn extract(o: &'a PyAny) -> PyResult<Self> {
        Ok(o)
    }
}
impl<'a> FromPyObject<'a> for PyAny {
    fn extract(o: &'a PyAny) -> PyResult<Self> {
        Ok(o.clone())
    }
}
impl<'a> FromPyObject<'a> for bool {
    fn extract(o: &'a PyAny) -> PyResult<Self> {
        match o {
            PyAny::Bool(b) => Ok(*b),
            _ => wrong("not a bool"),
        }
    }
}
impl<'a> FromPyObject<'a> for char {
    fn extract(o: &'a PyAny) -> PyResult<Self> {
        let s = as_str(o)?;
        let mut c = s.chars();
        match (c.next(), c.next()) {
            (Some(c), None) => Ok(c),
            _ => Err(PyErr::of("ValueError", "expected a string of length 1")),
        }
    }
}
macro_rules! ints {
    ($($t:ty)*) => {$(
        impl<'a> FromPyObject<'a> for $t {
            fn extract(o: &'a PyAny) -> PyResult<Self> {
                match o {
                    PyAny::Int(n) => (*n).try_into().or_else(|_| Err(PyErr::of("OverflowError", "int"))),
                    PyAny::Bool(b) => Ok(*b as $t),
                    _ => wrong("not an int"),
                }
            }
        }
        impl IntoPy for $t {
            fn into_py(self) -> PyAny {
                PyAny::Int(self as i64)
            }
        }
    )*};
}
ints!(usize u64 u32 u16 u8 isize i64 i32 i16 i8);
impl<'a, T: FromPyObject<'a>> FromPyObject<'a> for Option<T> {
    fn extract(o: &'a PyAny) -> PyResult<Self> {
        match o {
            PyAny::None => Ok(None),
            o => T::extract(o).map(Some),
        }
    }
}
impl<'a, T: FromPyObject<'a>> FromPyObject<'a> for Vec<T> {
    fn extract(o: &'a PyAny) -> PyResult<Self> {
        match o {
            PyAny::List(l) => l.iter().map(T::extract).collect(),
            _ => wrong("not a list"),
        }
    }
}
impl<'a, T: PyClass + Clone> FromPyObject<'a> for T {
    fn extract(o: &'a PyAny) -> PyResult<Self> {
        as_inst::<T>(o).cloned()
    }
}
pub struct PyRef<'a, T>(&'a T);
impl<'a, T> std::ops::Deref for PyRef<'a, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.0
    }
}
impl<'a, T: PyClass> FromPyObject<'a> for PyRef<'a, T> {
    fn extract(o: &'a PyAny) -> PyResult<Self> {
        as_inst::<T>(o).map(PyRef)
    }
}
pub fn as_str(o: &PyAny) -> PyResult<&str> {
    match o {
        PyAny::Str(s) => Ok(s),
        _ => wrong("not a str"),
    }
}
pub fn as_inst<T: PyClass>(o: &PyAny) -> PyResult<&T> {
    as_inst_mut(o).map(|x| &*x)
}
#[allow(clippy::mut_from_ref)]
pub fn as_inst_mut<T: PyClass>(o: &PyAny) -> PyResult<&mut T> {
    match o.obj().and_then(|o| o.any_mut().downcast_mut::<T>()) {
        Some(t) => Ok(t),
        None => wrong("not an instance"),
    }
}
pub trait IntoPy {
    fn into_py(self) -> PyAny;
}
impl IntoPy for PyAny {
    fn into_py(self) -> PyAny {
        self
    }
}
impl IntoPy for String {
    fn into_py(self) -> PyAny {
        PyAny::Str(self)
    }
}
impl<'a> IntoPy for &'a str {
    fn into_py(self) -> PyAny {
        PyAny::Str(self.to_string())
    }
}
impl<'a> IntoPy for std::borrow::Cow<'a, str> {
    fn into_py(self) -> PyAny {
        PyAny::Str(self.into_owned())
    }
}
impl IntoPy for bool {
    fn into_py(self) -> PyAny {
        PyAny::Bool(self)
    }
}
impl IntoPy for () {
    fn into_py(self) -> PyAny {
        PyAny::None
    }
}
impl<T: IntoPy> IntoPy for Vec<T> {
    fn into_py(self) -> PyAny {
        PyAny::List(self.into_iter().map(|x| x.into_py()).collect())
    }
}
impl<T: IntoPy> IntoPy for Option<T> {
    fn into_py(self) -> PyAny {
        self.map_or(PyAny::None, |x| x.into_py())
    }
}
impl<T: PyMethods> IntoPy for T {
    fn into_py(self) -> PyAny {
        inst(self)
    }
}
pub fn inst<T: PyMethods>(t: T) -> PyAny {
    PyAny::Inst(Rc::new(UnsafeCell::new(Box::new(t))))
}
pub trait Ret {
    fn ret(self) -> PyResult<PyAny>;
}
impl<T: IntoPy> Ret for T {
    fn ret(self) -> PyResult<PyAny> {
        Ok(self.into_py())
    }
}
impl<T: IntoPy> Ret for PyResult<T> {
    fn ret(self) -> PyResult<PyAny> {
        self.map(|x| x.into_py())
    }
}

/// the argument `name`, the i-th of the positional ones
pub fn arg<'a>(a: Args<'a>, i: usize, name: &str) -> PyResult<Option<&'a PyAny>> {
    let k = a.1.iter().find(|x| x.0 == name).map(|x| &x.1);
    match (a.0.get(i), k) {
        (Some(_), Some(_)) => wrong("multiple values for an argument"),
        (Some(p), None) => Ok(Some(p)),
        (None, k) => Ok(k),
    }
}
/// no unknown or superfluous ones
pub fn arity(a: Args, names: &[&str]) -> PyResult<()> {
    if a.0.len() > names.len() {
        return wrong("too many positional arguments");
    }
    for k in a.1 {
        if !names.contains(&k.0) {
            return wrong("unexpected keyword argument");
        }
    }
    Ok(())
}
pub fn missing<T>(name: &str) -> PyResult<T> {
    wrong(name)
}

// ---- modules
pub type Ctor = fn(Args) -> PyResult<PyAny>;
#[derive(Default)]
pub struct PyModule {
    pub name: String,
    pub classes: RefCell<Vec<(&'static str, Ctor)>>,
    pub subs: RefCell<Vec<PyModule>>,
}
impl PyModule {
    pub fn named(n: &str) -> Self {
        PyModule { name: n.to_string(), ..Default::default() }
    }
    pub fn add_class<T: PyMethods>(&self) -> PyResult<()> {
        self.classes.borrow_mut().push((T::NAME, T::py_new));
        Ok(())
    }
    pub fn add_wrapped(&self, m: impl FnOnce() -> PyResult<PyModule>) -> PyResult<()> {
        let m = m()?;
        self.subs.borrow_mut().push(m);
        Ok(())
    }
    pub fn add<T>(&self, _name: &str, _v: T) -> PyResult<()> {
        Ok(())
    }
    /// Class(args, kw)
    pub fn make(&self, class: &str, a: Args) -> PyResult<PyAny> {
        let f = self.classes.borrow().iter().rev().find(|c| c.0 == class).map(|c| c.1);
        match f {
            Some(f) => f(a),
            None => Err(PyErr::of("AttributeError", class)),
        }
    }
}
#[macro_export]
macro_rules! wrap_pymodule {
    ($p:path) => {
        || {
            let n = stringify!($p);
            let m = $crate::PyModule::named(n.rsplit("::").next().unwrap().trim());
            $p($crate::Python::stub(), &m)?;
            Ok(m)
        }
    };
}
pub mod types {
    pub use crate::PyModule;
}
pub mod prelude {
    pub use crate::{
        pyclass, pyfunction, pymethods, pymodule, wrap_pymodule, FromPyObject, PyAny, PyErr, PyModule, PyObject, PyRef,
        PyResult, Python,
    };
}
