//! Stand-in for "libsqlite3-sys": the few functions used, and its error.
#![allow(non_camel_case_types, non_upper_case_globals)]
use std::os::raw::{c_char, c_double, c_int, c_void};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[non_exhaustive]
pub enum ErrorCode {
    InternalMalfunction, PermissionDenied, OperationAborted, DatabaseBusy, DatabaseLocked, OutOfMemory, ReadOnly,
    OperationInterrupted, SystemIoFailure, DatabaseCorrupt, NotFound, DiskFull, CannotOpen, FileLockingProtocolFailed,
    SchemaChanged, TooBig, ConstraintViolation, TypeMismatch, ApiMisuse, NoLargeFileSupport, AuthorizationForStatementDenied,
    ParameterOutOfRange, NotADatabase, Unknown,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Error {
    pub code: ErrorCode,
    pub extended_code: c_int,
}

impl Error {
    pub fn new(rc: c_int) -> Error {
        use ErrorCode::*;
        let code = match rc & 0xff {
            2 => InternalMalfunction, 3 => PermissionDenied, 4 => OperationAborted, 5 => DatabaseBusy, 6 => DatabaseLocked,
            7 => OutOfMemory, 8 => ReadOnly, 9 => OperationInterrupted, 10 => SystemIoFailure, 11 => DatabaseCorrupt,
            12 => NotFound, 13 => DiskFull, 14 => CannotOpen, 15 => FileLockingProtocolFailed, 17 => SchemaChanged,
            18 => TooBig, 19 => ConstraintViolation, 20 => TypeMismatch, 21 => ApiMisuse, 22 => NoLargeFileSupport,
            23 => AuthorizationForStatementDenied, 25 => ParameterOutOfRange, 26 => NotADatabase, _ => Unknown,
        };
        Error { code, extended_code: rc }
    }
}

pub enum sqlite3 {}
pub enum sqlite3_stmt {}

#[link(name = "sqlite3")]
extern "C" {
    pub fn sqlite3_open_v2(name: *const c_char, db: *mut *mut sqlite3, flags: c_int, vfs: *const c_char) -> c_int;
    pub fn sqlite3_close(db: *mut sqlite3) -> c_int;
    pub fn sqlite3_busy_timeout(db: *mut sqlite3, ms: c_int) -> c_int;
    pub fn sqlite3_extended_result_codes(db: *mut sqlite3, on: c_int) -> c_int;
    pub fn sqlite3_prepare_v2(db: *mut sqlite3, sql: *const c_char, n: c_int, st: *mut *mut sqlite3_stmt, tail: *mut *const c_char) -> c_int;
    pub fn sqlite3_finalize(st: *mut sqlite3_stmt) -> c_int;
    pub fn sqlite3_step(st: *mut sqlite3_stmt) -> c_int;
    pub fn sqlite3_reset(st: *mut sqlite3_stmt) -> c_int;
    pub fn sqlite3_clear_bindings(st: *mut sqlite3_stmt) -> c_int;
    pub fn sqlite3_bind_parameter_count(st: *mut sqlite3_stmt) -> c_int;
    pub fn sqlite3_bind_int64(st: *mut sqlite3_stmt, i: c_int, v: i64) -> c_int;
    pub fn sqlite3_bind_double(st: *mut sqlite3_stmt, i: c_int, v: c_double) -> c_int;
    pub fn sqlite3_bind_null(st: *mut sqlite3_stmt, i: c_int) -> c_int;
    pub fn sqlite3_bind_zeroblob(st: *mut sqlite3_stmt, i: c_int, n: c_int) -> c_int;
    pub fn sqlite3_bind_text(st: *mut sqlite3_stmt, i: c_int, v: *const c_char, n: c_int, d: *mut c_void) -> c_int;
    pub fn sqlite3_bind_blob(st: *mut sqlite3_stmt, i: c_int, v: *const c_void, n: c_int, d: *mut c_void) -> c_int;
    pub fn sqlite3_column_count(st: *mut sqlite3_stmt) -> c_int;
    pub fn sqlite3_column_type(st: *mut sqlite3_stmt, i: c_int) -> c_int;
    pub fn sqlite3_column_int64(st: *mut sqlite3_stmt, i: c_int) -> i64;
    pub fn sqlite3_column_double(st: *mut sqlite3_stmt, i: c_int) -> c_double;
    pub fn sqlite3_column_text(st: *mut sqlite3_stmt, i: c_int) -> *const u8;
    pub fn sqlite3_column_blob(st: *mut sqlite3_stmt, i: c_int) -> *const u8;
    pub fn sqlite3_column_bytes(st: *mut sqlite3_stmt, i: c_int) -> c_int;
    pub fn sqlite3_changes(db: *mut sqlite3) -> c_int;
    pub fn sqlite3_last_insert_rowid(db: *mut sqlite3) -> i64;
    pub fn sqlite3_errmsg(db: *mut sqlite3) -> *const c_char;
    pub fn sqlite3_extended_errcode(db: *mut sqlite3) -> c_int;
}
