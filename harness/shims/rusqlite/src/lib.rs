//! rusqlite's API over the system SQLite, with a fault point before every statement.
pub mod ffi;
pub mod types;
pub use ffi::ErrorCode;
pub use types::ToSql;
use std::{
    cell::Cell,
    ffi::{CStr, CString},
    marker::PhantomData,
    path::Path,
    ptr,
    sync::Arc,
};
use types::*;

pub type Result<T, E = Error> = std::result::Result<T, E>;

#[derive(Debug)]
pub enum Error {
    SqliteFailure(ffi::Error, Option<String>),
    FromSqlConversionFailure(usize, Type, Box<dyn std::error::Error + Send + Sync + 'static>),
    ToSqlConversionFailure(Box<dyn std::error::Error + Send + Sync + 'static>),
    IntegralValueOutOfRange(usize, i64),
    InvalidColumnType(usize, String, Type),
    InvalidColumnIndex(usize),
    InvalidColumnName(String),
    InvalidParameterName(String),
    InvalidParameterCount(usize, usize),
    InvalidQuery,
    QueryReturnedNoRows,
    QueryReturnedMoreThanOneRow,
    ExecuteReturnedResults,
    MultipleStatement,
    NulError(std::ffi::NulError),
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Error::SqliteFailure(_, Some(m)) => f.write_str(m),
            Error::QueryReturnedNoRows => f.write_str("Query returned no rows"),
            e => write!(f, "{e:?}"),
        }
    }
}
impl std::error::Error for Error {}

/// Fault injection for drivers.
pub mod faults {
    use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
    static COUNT: AtomicI64 = AtomicI64::new(0);
    static CRASH_AT: AtomicI64 = AtomicI64::new(-1);
    static FAIL_AT: AtomicI64 = AtomicI64::new(-1);
    /// Statements run so far.
    pub fn count() -> i64 {
        COUNT.load(SeqCst)
    }
    pub fn reset() {
        COUNT.store(0, SeqCst);
        CRASH_AT.store(-1, SeqCst);
        FAIL_AT.store(-1, SeqCst);
    }
    /// Kill the process right before statement `n` (counted from the last reset).
    pub fn crash_at(n: i64) {
        CRASH_AT.store(n, SeqCst);
    }
    /// Make statement `n` fail as if the disk were full.
    pub fn fail_at(n: i64) {
        FAIL_AT.store(n, SeqCst);
    }
    pub(crate) fn point() -> Result<(), super::Error> {
        let n = COUNT.fetch_add(1, SeqCst);
        if n == CRASH_AT.load(SeqCst) {
            std::process::abort();
        }
        if n == FAIL_AT.load(SeqCst) {
            return Err(super::Error::SqliteFailure(super::ffi::Error::new(13), Some("database or disk is full".into())));
        }
        Ok(())
    }
}

struct Db(*mut ffi::sqlite3);
unsafe impl Send for Db {}
unsafe impl Sync for Db {}
impl Drop for Db {
    fn drop(&mut self) {
        unsafe { ffi::sqlite3_close_v2(self.0) };
    }
}
pub struct Connection {
    db: Arc<Db>,
    _not_sync: PhantomData<Cell<()>>,
}
impl std::fmt::Debug for Connection {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Connection")
    }
}
fn fail(db: *mut ffi::sqlite3, code: i32) -> Error {
    let m = unsafe { CStr::from_ptr(ffi::sqlite3_errmsg(db)).to_string_lossy().into_owned() };
    let ext = unsafe { ffi::sqlite3_extended_errcode(db) };
    Error::SqliteFailure(ffi::Error::new(if ext == 0 { code } else { ext }), Some(m))
}
impl Connection {
    pub fn open(p: impl AsRef<Path>) -> Result<Self> {
        Self::open_uri(p.as_ref().to_str().ok_or(Error::InvalidQuery)?)
    }
    pub fn open_in_memory() -> Result<Self> {
        Self::open_uri(":memory:")
    }
    pub fn open_uri(s: &str) -> Result<Self> {
        let c = CString::new(s).map_err(Error::NulError)?;
        let mut db = ptr::null_mut();
        // READWRITE | CREATE | URI | NOMUTEX-less (serialized)
        let rc = unsafe { ffi::sqlite3_open_v2(c.as_ptr(), &mut db, 0x2 | 0x4 | 0x40 | 0x10000, ptr::null()) };
        if rc != ffi::SQLITE_OK {
            let e = fail(db, rc);
            unsafe { ffi::sqlite3_close_v2(db) };
            return Err(e);
        }
        unsafe { ffi::sqlite3_busy_timeout(db, 5000) };
        Ok(Self { db: Arc::new(Db(db)), _not_sync: PhantomData })
    }
    fn prep<'s>(&self, sql: &'s str) -> Result<(Statement<'_>, &'s str)> {
        let mut st = ptr::null_mut();
        let mut tail = ptr::null();
        let rc = unsafe { ffi::sqlite3_prepare_v2(self.db.0, sql.as_ptr() as *const _, sql.len() as i32, &mut st, &mut tail) };
        if rc != ffi::SQLITE_OK {
            return Err(fail(self.db.0, rc));
        }
        let used = if tail.is_null() { sql.len() } else { tail as usize - sql.as_ptr() as usize };
        Ok((Statement { db: self.db.clone(), st, _c: PhantomData }, &sql[used..]))
    }
    pub fn prepare(&self, sql: &str) -> Result<Statement<'_>> {
        self.prep(sql).map(|p| p.0)
    }
    pub fn prepare_cached(&self, sql: &str) -> Result<Statement<'_>> {
        self.prepare(sql)
    }
    pub fn execute<P: Params>(&self, sql: &str, p: P) -> Result<usize> {
        self.prepare(sql)?.execute(p)
    }
    pub fn execute_batch(&self, sql: &str) -> Result<()> {
        let mut rest = sql;
        while !rest.trim().is_empty() {
            let (mut st, tail) = self.prep(rest)?;
            rest = tail;
            if st.st.is_null() {
                continue;
            }
            let mut rows = st.raw([] as [&(dyn ToSql + Send + Sync); 0])?;
            while rows.next()?.is_some() {}
        }
        Ok(())
    }
    pub fn query_row<T, P: Params, F: FnOnce(&Row<'_>) -> Result<T>>(&self, sql: &str, p: P, f: F) -> Result<T> {
        self.prepare(sql)?.query_row(p, f)
    }
    pub fn changes(&self) -> u64 {
        unsafe { ffi::sqlite3_changes(self.db.0) as u64 }
    }
    pub fn last_insert_rowid(&self) -> i64 {
        unsafe { ffi::sqlite3_last_insert_rowid(self.db.0) }
    }
    pub fn is_autocommit(&self) -> bool {
        unsafe { ffi::sqlite3_get_autocommit(self.db.0) != 0 }
    }
    pub fn transaction(&mut self) -> Result<Transaction<'_>> {
        self.unchecked_transaction()
    }
    pub fn unchecked_transaction(&self) -> Result<Transaction<'_>> {
        self.execute_batch("BEGIN DEFERRED")?;
        Ok(Transaction { conn: self, done: false })
    }
    pub fn busy_timeout(&self, d: std::time::Duration) -> Result<()> {
        unsafe { ffi::sqlite3_busy_timeout(self.db.0, d.as_millis() as i32) };
        Ok(())
    }
}
pub struct Transaction<'a> {
    conn: &'a Connection,
    done: bool,
}
impl Transaction<'_> {
    pub fn commit(mut self) -> Result<()> {
        self.done = true;
        self.conn.execute_batch("COMMIT")
    }
    pub fn rollback(mut self) -> Result<()> {
        self.done = true;
        self.conn.execute_batch("ROLLBACK")
    }
}
impl Drop for Transaction<'_> {
    fn drop(&mut self) {
        if !self.done && !self.conn.is_autocommit() {
            let _ = self.conn.execute_batch("ROLLBACK");
        }
    }
}
impl std::ops::Deref for Transaction<'_> {
    type Target = Connection;
    fn deref(&self) -> &Connection {
        self.conn
    }
}

pub struct Statement<'c> {
    db: Arc<Db>,
    st: *mut ffi::sqlite3_stmt,
    _c: PhantomData<&'c ()>,
}
impl Drop for Statement<'_> {
    fn drop(&mut self) {
        unsafe { ffi::sqlite3_finalize(self.st) };
    }
}
pub trait Params {
    fn bind(self, st: &mut Statement<'_>) -> Result<()>;
}
fn bind_all<'a>(st: &mut Statement<'_>, it: impl Iterator<Item = &'a dyn ToSql>) -> Result<()> {
    let want = unsafe { ffi::sqlite3_bind_parameter_count(st.st) as usize };
    let mut n = 0;
    for v in it {
        n += 1;
        if n > want {
            return Err(Error::InvalidParameterCount(n, want));
        }
        st.bind_one(n as i32, v)?;
    }
    if n != want {
        return Err(Error::InvalidParameterCount(n, want));
    }
    Ok(())
}
fn bind_named(st: &mut Statement<'_>, it: &[(&str, &dyn ToSql)]) -> Result<()> {
    for (n, v) in it {
        let c = CString::new(*n).map_err(Error::NulError)?;
        let i = unsafe { ffi::sqlite3_bind_parameter_index(st.st, c.as_ptr()) };
        if i == 0 {
            return Err(Error::InvalidParameterName((*n).into()));
        }
        st.bind_one(i, *v)?;
    }
    Ok(())
}
impl Params for () {
    fn bind(self, st: &mut Statement<'_>) -> Result<()> {
        bind_all(st, std::iter::empty())
    }
}
impl Params for [&(dyn ToSql + Send + Sync); 0] {
    fn bind(self, st: &mut Statement<'_>) -> Result<()> {
        bind_all(st, std::iter::empty())
    }
}
impl Params for &[&dyn ToSql] {
    fn bind(self, st: &mut Statement<'_>) -> Result<()> {
        bind_all(st, self.iter().copied())
    }
}
impl Params for &[(&str, &dyn ToSql)] {
    fn bind(self, st: &mut Statement<'_>) -> Result<()> {
        bind_named(st, self)
    }
}
macro_rules! arrays {
    ($($n:literal)*) => {$(
        impl<T: ToSql> Params for [T; $n] {
            fn bind(self, st: &mut Statement<'_>) -> Result<()> {
                bind_all(st, self.iter().map(|v| v as &dyn ToSql))
            }
        }
        impl<T: ToSql> Params for &[(&str, T); $n] {
            fn bind(self, st: &mut Statement<'_>) -> Result<()> {
                let v: Vec<(&str, &dyn ToSql)> = self.iter().map(|(n, v)| (*n, v as &dyn ToSql)).collect();
                bind_named(st, &v)
            }
        }
    )*};
}
arrays!(1 2 3 4 5 6 7 8 9 10 11 12);
macro_rules! tuples {
    ($(($($t:ident $i:tt),+))*) => {$(
        impl<$($t: ToSql),+> Params for ($($t,)+) {
            fn bind(self, st: &mut Statement<'_>) -> Result<()> {
                bind_all(st, [$(&self.$i as &dyn ToSql),+].into_iter())
            }
        }
    )*};
}
tuples!((A 0) (A 0, B 1) (A 0, B 1, C 2) (A 0, B 1, C 2, D 3) (A 0, B 1, C 2, D 3, E 4));
#[macro_export]
macro_rules! params {
    () => { &[] as &[&dyn $crate::ToSql] };
    ($($p:expr),+ $(,)?) => { &[$(&$p as &dyn $crate::ToSql),+] as &[&dyn $crate::ToSql] };
}
#[macro_export]
macro_rules! named_params {
    () => { &[] as &[(&str, &dyn $crate::ToSql)] };
    ($($n:literal: $v:expr),+ $(,)?) => { &[$(($n, &$v as &dyn $crate::ToSql)),+] as &[(&str, &dyn $crate::ToSql)] };
}
pub fn params_from_iter<I: IntoIterator>(it: I) -> ParamsFromIter<I> {
    ParamsFromIter(it)
}
pub struct ParamsFromIter<I>(I);
impl<I: IntoIterator> Params for ParamsFromIter<I>
where
    I::Item: ToSql,
{
    fn bind(self, st: &mut Statement<'_>) -> Result<()> {
        let v: Vec<I::Item> = self.0.into_iter().collect();
        bind_all(st, v.iter().map(|x| x as &dyn ToSql))
    }
}

impl Statement<'_> {
    fn bind_one(&mut self, i: i32, v: &dyn ToSql) -> Result<()> {
        let out = v.to_sql()?;
        let r = match &out {
            ToSqlOutput::Borrowed(r) => *r,
            ToSqlOutput::Owned(Value::Null) => ValueRef::Null,
            ToSqlOutput::Owned(Value::Integer(i)) => ValueRef::Integer(*i),
            ToSqlOutput::Owned(Value::Real(f)) => ValueRef::Real(*f),
            ToSqlOutput::Owned(Value::Text(t)) => ValueRef::Text(t.as_bytes()),
            ToSqlOutput::Owned(Value::Blob(b)) => ValueRef::Blob(b),
        };
        let transient = -1isize as *const std::os::raw::c_void;
        let rc = unsafe {
            match r {
                ValueRef::Null => ffi::sqlite3_bind_null(self.st, i),
                ValueRef::Integer(v) => ffi::sqlite3_bind_int64(self.st, i, v),
                ValueRef::Real(v) => ffi::sqlite3_bind_double(self.st, i, v),
                ValueRef::Text(t) => ffi::sqlite3_bind_text(self.st, i, t.as_ptr() as *const _, t.len() as i32, transient),
                ValueRef::Blob([]) => ffi::sqlite3_bind_zeroblob(self.st, i, 0),
                ValueRef::Blob(b) => ffi::sqlite3_bind_blob(self.st, i, b.as_ptr() as *const _, b.len() as i32, transient),
            }
        };
        if rc != ffi::SQLITE_OK {
            return Err(fail(self.db.0, rc));
        }
        Ok(())
    }
    fn raw<P: Params>(&mut self, p: P) -> Result<Rows<'_>> {
        unsafe {
            ffi::sqlite3_reset(self.st);
            ffi::sqlite3_clear_bindings(self.st);
        }
        p.bind(self)?;
        faults::point()?;
        Ok(Rows { db: self.db.clone(), st: self.st, row: None, done: false, _s: PhantomData })
    }
    pub fn execute<P: Params>(&mut self, p: P) -> Result<usize> {
        let mut rows = self.raw(p)?;
        if rows.next()?.is_some() {
            return Err(Error::ExecuteReturnedResults);
        }
        drop(rows);
        Ok(unsafe { ffi::sqlite3_changes(self.db.0) as usize })
    }
    pub fn query<P: Params>(&mut self, p: P) -> Result<Rows<'_>> {
        self.raw(p)
    }
    pub fn exists<P: Params>(&mut self, p: P) -> Result<bool> {
        Ok(self.raw(p)?.next()?.is_some())
    }
    pub fn query_row<T, P: Params, F: FnOnce(&Row<'_>) -> Result<T>>(&mut self, p: P, f: F) -> Result<T> {
        let mut rows = self.raw(p)?;
        match rows.next()? {
            Some(r) => f(r),
            None => Err(Error::QueryReturnedNoRows),
        }
    }
    pub fn query_map<T, P: Params, F: FnMut(&Row<'_>) -> Result<T>>(&mut self, p: P, f: F) -> Result<MappedRows<'_, F>> {
        Ok(MappedRows { rows: self.raw(p)?, f })
    }
    pub fn query_and_then<T, E: From<Error>, P: Params, F: FnMut(&Row<'_>) -> Result<T, E>>(&mut self, p: P, f: F) -> Result<AndThenRows<'_, F>> {
        Ok(AndThenRows { rows: self.raw(p)?, f })
    }
}
pub struct Rows<'s> {
    db: Arc<Db>,
    st: *mut ffi::sqlite3_stmt,
    row: Option<Row<'s>>,
    done: bool,
    _s: PhantomData<&'s ()>,
}
impl Drop for Rows<'_> {
    fn drop(&mut self) {
        unsafe { ffi::sqlite3_reset(self.st) };
    }
}
impl<'s> Rows<'s> {
    #[allow(clippy::should_implement_trait)]
    pub fn next(&mut self) -> Result<Option<&Row<'s>>> {
        self.row = None;
        if self.done {
            return Ok(None);
        }
        match unsafe { ffi::sqlite3_step(self.st) } {
            ffi::SQLITE_ROW => {
                self.row = Some(Row { st: self.st, _s: PhantomData });
                Ok(self.row.as_ref())
            }
            ffi::SQLITE_DONE => {
                self.done = true;
                unsafe { ffi::sqlite3_reset(self.st) };
                Ok(None)
            }
            rc => {
                self.done = true;
                let e = fail(self.db.0, rc);
                unsafe { ffi::sqlite3_reset(self.st) };
                Err(e)
            }
        }
    }
    pub fn mapped<T, F: FnMut(&Row<'_>) -> Result<T>>(self, f: F) -> MappedRows<'s, F> {
        MappedRows { rows: self, f }
    }
}
pub struct MappedRows<'s, F> {
    rows: Rows<'s>,
    f: F,
}
impl<T, F: FnMut(&Row<'_>) -> Result<T>> Iterator for MappedRows<'_, F> {
    type Item = Result<T>;
    fn next(&mut self) -> Option<Result<T>> {
        match self.rows.next() {
            Ok(Some(r)) => Some((self.f)(r)),
            Ok(None) => None,
            Err(e) => Some(Err(e)),
        }
    }
}
pub struct AndThenRows<'s, F> {
    rows: Rows<'s>,
    f: F,
}
impl<T, E: From<Error>, F: FnMut(&Row<'_>) -> Result<T, E>> Iterator for AndThenRows<'_, F> {
    type Item = Result<T, E>;
    fn next(&mut self) -> Option<Result<T, E>> {
        match self.rows.next() {
            Ok(Some(r)) => Some((self.f)(r)),
            Ok(None) => None,
            Err(e) => Some(Err(e.into())),
        }
    }
}
pub struct Row<'s> {
    st: *mut ffi::sqlite3_stmt,
    _s: PhantomData<&'s ()>,
}
pub trait RowIndex {
    fn idx(&self, row: &Row<'_>) -> Result<usize>;
}
impl RowIndex for usize {
    fn idx(&self, row: &Row<'_>) -> Result<usize> {
        if *self < row.columns() { Ok(*self) } else { Err(Error::InvalidColumnIndex(*self)) }
    }
}
impl RowIndex for &str {
    fn idx(&self, row: &Row<'_>) -> Result<usize> {
        (0..row.columns())
            .find(|i| row.name(*i).eq_ignore_ascii_case(self))
            .ok_or_else(|| Error::InvalidColumnName((*self).into()))
    }
}
impl Row<'_> {
    fn columns(&self) -> usize {
        unsafe { ffi::sqlite3_column_count(self.st) as usize }
    }
    fn name(&self, i: usize) -> String {
        unsafe { CStr::from_ptr(ffi::sqlite3_column_name(self.st, i as i32)).to_string_lossy().into_owned() }
    }
    pub fn get_ref<I: RowIndex>(&self, i: I) -> Result<ValueRef<'_>> {
        let i = i.idx(self)? as i32;
        unsafe {
            Ok(match ffi::sqlite3_column_type(self.st, i) {
                ffi::SQLITE_INTEGER => ValueRef::Integer(ffi::sqlite3_column_int64(self.st, i)),
                ffi::SQLITE_FLOAT => ValueRef::Real(ffi::sqlite3_column_double(self.st, i)),
                ffi::SQLITE_TEXT => {
                    let p = ffi::sqlite3_column_text(self.st, i) as *const u8;
                    let n = ffi::sqlite3_column_bytes(self.st, i) as usize;
                    ValueRef::Text(if n == 0 { &[] } else { std::slice::from_raw_parts(p, n) })
                }
                ffi::SQLITE_BLOB => {
                    let p = ffi::sqlite3_column_blob(self.st, i) as *const u8;
                    let n = ffi::sqlite3_column_bytes(self.st, i) as usize;
                    ValueRef::Blob(if n == 0 { &[] } else { std::slice::from_raw_parts(p, n) })
                }
                _ => ValueRef::Null,
            })
        }
    }
    pub fn get<I: RowIndex, T: FromSql>(&self, i: I) -> Result<T> {
        let i = i.idx(self)?;
        let v = self.get_ref(i)?;
        T::column_result(v).map_err(|e| match e {
            FromSqlError::InvalidType => Error::InvalidColumnType(i, self.name(i), v.data_type()),
            FromSqlError::OutOfRange(n) => Error::IntegralValueOutOfRange(i, n),
            FromSqlError::Other(e) => Error::FromSqlConversionFailure(i, v.data_type(), e),
            e => Error::FromSqlConversionFailure(i, v.data_type(), Box::new(e)),
        })
    }
    pub fn get_unwrap<I: RowIndex, T: FromSql>(&self, i: I) -> T {
        self.get(i).unwrap()
    }
}
pub trait OptionalExtension<T> {
    fn optional(self) -> Result<Option<T>>;
}
impl<T> OptionalExtension<T> for Result<T> {
    fn optional(self) -> Result<Option<T>> {
        match self {
            Ok(v) => Ok(Some(v)),
            Err(Error::QueryReturnedNoRows) => Ok(None),
            Err(e) => Err(e),
        }
    }
}
