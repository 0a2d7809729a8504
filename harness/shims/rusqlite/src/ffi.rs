#![allow(non_camel_case_types)]
use std::os::raw::{c_char, c_double, c_int, c_void};
pub enum sqlite3 {}
pub enum sqlite3_stmt {}
pub const SQLITE_OK: c_int = 0;
pub const SQLITE_ROW: c_int = 100;
pub const SQLITE_DONE: c_int = 101;
pub const SQLITE_INTEGER: c_int = 1;
pub const SQLITE_FLOAT: c_int = 2;
pub const SQLITE_TEXT: c_int = 3;
pub const SQLITE_BLOB: c_int = 4;
#[link(name = "sqlite3")]
extern "C" {
    pub fn sqlite3_open_v2(f: *const c_char, db: *mut *mut sqlite3, flags: c_int, vfs: *const c_char) -> c_int;
    pub fn sqlite3_close_v2(db: *mut sqlite3) -> c_int;
    pub fn sqlite3_busy_timeout(db: *mut sqlite3, ms: c_int) -> c_int;
    pub fn sqlite3_extended_errcode(db: *mut sqlite3) -> c_int;
    pub fn sqlite3_errmsg(db: *mut sqlite3) -> *const c_char;
    pub fn sqlite3_prepare_v2(db: *mut sqlite3, sql: *const c_char, n: c_int, st: *mut *mut sqlite3_stmt, tail: *mut *const c_char) -> c_int;
    pub fn sqlite3_step(st: *mut sqlite3_stmt) -> c_int;
    pub fn sqlite3_reset(st: *mut sqlite3_stmt) -> c_int;
    pub fn sqlite3_clear_bindings(st: *mut sqlite3_stmt) -> c_int;
    pub fn sqlite3_finalize(st: *mut sqlite3_stmt) -> c_int;
    pub fn sqlite3_bind_parameter_count(st: *mut sqlite3_stmt) -> c_int;
    pub fn sqlite3_bind_parameter_index(st: *mut sqlite3_stmt, n: *const c_char) -> c_int;
    pub fn sqlite3_bind_null(st: *mut sqlite3_stmt, i: c_int) -> c_int;
    pub fn sqlite3_bind_int64(st: *mut sqlite3_stmt, i: c_int, v: i64) -> c_int;
    pub fn sqlite3_bind_double(st: *mut sqlite3_stmt, i: c_int, v: c_double) -> c_int;
    pub fn sqlite3_bind_text(st: *mut sqlite3_stmt, i: c_int, v: *const c_char, n: c_int, d: *const c_void) -> c_int;
    pub fn sqlite3_bind_blob(st: *mut sqlite3_stmt, i: c_int, v: *const c_void, n: c_int, d: *const c_void) -> c_int;
    pub fn sqlite3_bind_zeroblob(st: *mut sqlite3_stmt, i: c_int, n: c_int) -> c_int;
    pub fn sqlite3_column_count(st: *mut sqlite3_stmt) -> c_int;
    pub fn sqlite3_column_name(st: *mut sqlite3_stmt, i: c_int) -> *const c_char;
    pub fn sqlite3_column_type(st: *mut sqlite3_stmt, i: c_int) -> c_int;
    pub fn sqlite3_column_int64(st: *mut sqlite3_stmt, i: c_int) -> i64;
    pub fn sqlite3_column_double(st: *mut sqlite3_stmt, i: c_int) -> c_double;
    pub fn sqlite3_column_blob(st: *mut sqlite3_stmt, i: c_int) -> *const c_void;
    pub fn sqlite3_column_text(st: *mut sqlite3_stmt, i: c_int) -> *const c_char;
    pub fn sqlite3_column_bytes(st: *mut sqlite3_stmt, i: c_int) -> c_int;
    pub fn sqlite3_changes(db: *mut sqlite3) -> c_int;
    pub fn sqlite3_last_insert_rowid(db: *mut sqlite3) -> i64;
    pub fn sqlite3_get_autocommit(db: *mut sqlite3) -> c_int;
    pub fn sqlite3_stmt_readonly(st: *mut sqlite3_stmt) -> c_int;
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ErrorCode {
    ConstraintViolation,
    DatabaseBusy,
    DatabaseLocked,
    DiskFull,
    SystemIoFailure,
    Unknown,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Error {
    pub code: ErrorCode,
    pub extended_code: c_int,
}
impl Error {
    pub fn new(c: c_int) -> Self {
        let code = match c & 0xff {
            5 => ErrorCode::DatabaseBusy,
            6 => ErrorCode::DatabaseLocked,
            10 => ErrorCode::SystemIoFailure,
            13 => ErrorCode::DiskFull,
            19 => ErrorCode::ConstraintViolation,
            _ => ErrorCode::Unknown,
        };
        Self { code, extended_code: c }
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Error code {}", self.extended_code)
    }
}
impl std::error::Error for Error {}
