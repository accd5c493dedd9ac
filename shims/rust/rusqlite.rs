//! Stand-in for "rusqlite": what generated modules use of it, over SQLite
//! itself, with its conversions (no coercion between types).
extern crate libsqlite3_sys;
use libsqlite3_sys as ffi;
use std::ffi::{CStr, CString};
use std::os::raw::c_int;

pub type Result<T, E = Error> = std::result::Result<T, E>;

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Type { Null, Integer, Real, Text, Blob }

#[derive(Debug)]
#[non_exhaustive]
pub enum Error {
    SqliteFailure(ffi::Error, Option<String>),
    IntegralValueOutOfRange(usize, i64),
    FromSqlConversionFailure(usize, Type, Box<dyn std::error::Error + Send + Sync + 'static>),
    InvalidColumnIndex(usize),
    InvalidColumnType(usize, String, Type),
    InvalidParameterCount(usize, usize),
    InvalidPath(String),
    NulError(std::ffi::NulError),
    ExecuteReturnedResults,
    QueryReturnedNoRows,
    StatementChangedRows(usize),
    MultipleStatement,
}

impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self) }
}
impl std::error::Error for Error {}

pub enum Value<'a> { Null, Integer(i64), Real(f64), Text(&'a str), Blob(&'a [u8]) }

pub trait ToSql { fn value(&self) -> Value<'_>; }
macro_rules! ints { ($($t:ty),*) => { $(impl ToSql for $t { fn value(&self) -> Value<'_> { Value::Integer(*self as i64) } })* } }
ints!(i8, i16, i32, i64, isize, u8, u16, u32, bool);
impl ToSql for f64 { fn value(&self) -> Value<'_> { Value::Real(*self) } }
impl ToSql for f32 { fn value(&self) -> Value<'_> { Value::Real(*self as f64) } }
impl ToSql for str { fn value(&self) -> Value<'_> { Value::Text(self) } }
impl ToSql for String { fn value(&self) -> Value<'_> { Value::Text(self) } }
impl ToSql for [u8] { fn value(&self) -> Value<'_> { Value::Blob(self) } }
impl ToSql for Vec<u8> { fn value(&self) -> Value<'_> { Value::Blob(self) } }
impl<T: ToSql + ?Sized> ToSql for &T { fn value(&self) -> Value<'_> { (**self).value() } }
impl<T: ToSql> ToSql for Option<T> {
    fn value(&self) -> Value<'_> { match self { Some(x) => x.value(), None => Value::Null } }
}

#[macro_export]
macro_rules! params {
    () => { &[] as &[&dyn $crate::ToSql] };
    ($($param:expr),+ $(,)?) => { &[$(&$param as &dyn $crate::ToSql),+] as &[&dyn $crate::ToSql] };
}

pub trait Params { fn bind(self, st: &mut Statement<'_>) -> Result<()>; }
impl Params for [&(dyn ToSql + Send + Sync); 0] { fn bind(self, st: &mut Statement<'_>) -> Result<()> { st.bind(&[]) } }
impl Params for &[&dyn ToSql] { fn bind(self, st: &mut Statement<'_>) -> Result<()> { st.bind(self) } }

pub struct Connection { db: *mut ffi::sqlite3 }

fn fail(db: *mut ffi::sqlite3, rc: c_int) -> Error {
    let (rc, m) = unsafe {
        if db.is_null() { (rc, None) }
        else { (ffi::sqlite3_extended_errcode(db), Some(CStr::from_ptr(ffi::sqlite3_errmsg(db)).to_string_lossy().into_owned())) }
    };
    Error::SqliteFailure(ffi::Error::new(rc), m)
}

impl Connection {
    pub fn open<P: AsRef<std::path::Path>>(path: P) -> Result<Connection> {
        let p = CString::new(path.as_ref().to_str().unwrap()).map_err(Error::NulError)?;
        let mut db = std::ptr::null_mut();
        // READWRITE | CREATE | URI | NOMUTEX
        let rc = unsafe { ffi::sqlite3_open_v2(p.as_ptr(), &mut db, 0x2 | 0x4 | 0x40 | 0x8000, std::ptr::null()) };
        if rc != 0 {
            let e = fail(db, rc);
            unsafe { ffi::sqlite3_close(db) };
            return Err(e);
        }
        unsafe {
            ffi::sqlite3_extended_result_codes(db, 1);
            ffi::sqlite3_busy_timeout(db, 5000);
        }
        Ok(Connection { db })
    }
    pub fn prepare(&self, sql: &str) -> Result<Statement<'_>> {
        let mut st = std::ptr::null_mut();
        let mut tail = std::ptr::null();
        let s = CString::new(sql).map_err(Error::NulError)?;
        let rc = unsafe { ffi::sqlite3_prepare_v2(self.db, s.as_ptr(), -1, &mut st, &mut tail) };
        if rc != 0 { return Err(fail(self.db, rc)); }
        Ok(Statement { conn: self, st })
    }
    pub fn execute<P: Params>(&self, sql: &str, params: P) -> Result<usize> {
        self.prepare(sql)?.execute(params)
    }
    pub fn last_insert_rowid(&self) -> i64 { unsafe { ffi::sqlite3_last_insert_rowid(self.db) } }
}

impl Drop for Connection {
    fn drop(&mut self) {
        if unsafe { ffi::sqlite3_close(self.db) } != 0 { eprintln!("SHIM: connection closed with statements open"); }
    }
}

pub struct Statement<'c> { conn: &'c Connection, st: *mut ffi::sqlite3_stmt }

impl Drop for Statement<'_> {
    fn drop(&mut self) { unsafe { ffi::sqlite3_finalize(self.st) }; }
}

impl Statement<'_> {
    fn bind(&mut self, ps: &[&dyn ToSql]) -> Result<()> {
        let n = unsafe { ffi::sqlite3_bind_parameter_count(self.st) } as usize;
        if n != ps.len() { return Err(Error::InvalidParameterCount(ps.len(), n)); }
        let tr = -1isize as *mut std::os::raw::c_void;
        for (k, p) in ps.iter().enumerate() {
            let i = k as c_int + 1;
            let rc = unsafe {
                match p.value() {
                    Value::Null => ffi::sqlite3_bind_null(self.st, i),
                    Value::Integer(x) => ffi::sqlite3_bind_int64(self.st, i, x),
                    Value::Real(x) => ffi::sqlite3_bind_double(self.st, i, x),
                    Value::Text(x) => {
                        let q = if x.is_empty() { "\0" } else { x };
                        ffi::sqlite3_bind_text(self.st, i, q.as_ptr() as *const _, x.len() as c_int, tr)
                    }
                    Value::Blob(x) if x.is_empty() => ffi::sqlite3_bind_zeroblob(self.st, i, 0),
                    Value::Blob(x) => ffi::sqlite3_bind_blob(self.st, i, x.as_ptr() as *const _, x.len() as c_int, tr),
                }
            };
            if rc != 0 { return Err(fail(self.conn.db, rc)); }
        }
        Ok(())
    }
    pub fn execute<P: Params>(&mut self, params: P) -> Result<usize> {
        if unsafe { ffi::sqlite3_column_count(self.st) } > 0 { return Err(Error::ExecuteReturnedResults); }
        params.bind(self)?;
        let rc = unsafe { ffi::sqlite3_step(self.st) };
        let e = match rc {
            101 => Ok(unsafe { ffi::sqlite3_changes(self.conn.db) } as usize),
            100 => Err(Error::ExecuteReturnedResults),
            _ => Err(fail(self.conn.db, rc)),
        };
        unsafe { ffi::sqlite3_reset(self.st) };
        e
    }
    pub fn insert<P: Params>(&mut self, params: P) -> Result<i64> {
        match self.execute(params)? {
            1 => Ok(self.conn.last_insert_rowid()),
            n => Err(Error::StatementChangedRows(n)),
        }
    }
    pub fn query<P: Params>(&mut self, params: P) -> Result<Rows<'_>> {
        params.bind(self)?;
        let (st, db) = (self.st, self.conn.db);
        Ok(Rows { row: Row { st, _p: std::marker::PhantomData }, db, done: false })
    }
}

pub struct Rows<'s> { row: Row<'s>, db: *mut ffi::sqlite3, done: bool }

impl<'s> Rows<'s> {
    pub fn next(&mut self) -> Result<Option<&Row<'s>>> {
        if self.done { return Ok(None); }
        match unsafe { ffi::sqlite3_step(self.row.st) } {
            100 => Ok(Some(&self.row)),
            101 => { self.done = true; unsafe { ffi::sqlite3_reset(self.row.st) }; Ok(None) }
            rc => { self.done = true; let e = fail(self.db, rc); unsafe { ffi::sqlite3_reset(self.row.st) }; Err(e) }
        }
    }
}

impl Drop for Rows<'_> {
    fn drop(&mut self) { unsafe { ffi::sqlite3_reset(self.row.st) }; }
}

pub struct Row<'s> { st: *mut ffi::sqlite3_stmt, _p: std::marker::PhantomData<&'s ()> }

pub trait FromSql: Sized { fn from(v: Value<'_>) -> Option<Self>; }
macro_rules! fints { ($($t:ty),*) => { $(impl FromSql for $t { fn from(v: Value<'_>) -> Option<Self> {
    match v { Value::Integer(x) => <$t as std::convert::TryFrom<i64>>::try_from(x).ok(), _ => None } } })* } }
fints!(i8, i16, i32, i64, u8, u16, u32, u64, usize, isize);
impl FromSql for f64 { fn from(v: Value<'_>) -> Option<Self> { match v { Value::Real(x) => Some(x), Value::Integer(x) => Some(x as f64), _ => None } } }
impl FromSql for bool { fn from(v: Value<'_>) -> Option<Self> { match v { Value::Integer(x) => Some(x != 0), _ => None } } }
impl FromSql for String { fn from(v: Value<'_>) -> Option<Self> { match v { Value::Text(x) => Some(x.to_string()), _ => None } } }
impl FromSql for Vec<u8> { fn from(v: Value<'_>) -> Option<Self> { match v { Value::Blob(x) => Some(x.to_vec()), _ => None } } }
impl<T: FromSql> FromSql for Option<T> {
    fn from(v: Value<'_>) -> Option<Self> { match v { Value::Null => Some(None), v => T::from(v).map(Some) } }
}

impl Row<'_> {
    pub fn get<T: FromSql>(&self, i: usize) -> Result<T> {
        unsafe {
            if i >= ffi::sqlite3_column_count(self.st) as usize { return Err(Error::InvalidColumnIndex(i)); }
            let k = i as c_int;
            let (t, v) = match ffi::sqlite3_column_type(self.st, k) {
                1 => (Type::Integer, Value::Integer(ffi::sqlite3_column_int64(self.st, k))),
                2 => (Type::Real, Value::Real(ffi::sqlite3_column_double(self.st, k))),
                3 => {
                    let p = ffi::sqlite3_column_text(self.st, k);
                    let b = std::slice::from_raw_parts(p, ffi::sqlite3_column_bytes(self.st, k) as usize);
                    match std::str::from_utf8(b) {
                        Ok(s) => (Type::Text, Value::Text(s)),
                        Err(e) => return Err(Error::FromSqlConversionFailure(i, Type::Text, Box::new(e))),
                    }
                }
                4 => {
                    let p = ffi::sqlite3_column_blob(self.st, k);
                    let n = ffi::sqlite3_column_bytes(self.st, k) as usize;
                    (Type::Blob, Value::Blob(if n == 0 { &[] } else { std::slice::from_raw_parts(p, n) }))
                }
                _ => (Type::Null, Value::Null),
            };
            T::from(v).ok_or_else(|| Error::InvalidColumnType(i, "column".to_string(), t))
        }
    }
}
