use std::borrow::Cow;
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Type {
    Null,
    Integer,
    Real,
    Text,
    Blob,
}
impl std::fmt::Display for Type {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Value {
    Null,
    Integer(i64),
    Real(f64),
    Text(String),
    Blob(Vec<u8>),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum ValueRef<'a> {
    Null,
    Integer(i64),
    Real(f64),
    Text(&'a [u8]),
    Blob(&'a [u8]),
}
impl<'a> ValueRef<'a> {
    pub fn data_type(&self) -> Type {
        match self {
            Self::Null => Type::Null,
            Self::Integer(_) => Type::Integer,
            Self::Real(_) => Type::Real,
            Self::Text(_) => Type::Text,
            Self::Blob(_) => Type::Blob,
        }
    }
    pub fn as_i64(&self) -> FromSqlResult<i64> {
        match *self {
            Self::Integer(i) => Ok(i),
            _ => Err(FromSqlError::InvalidType),
        }
    }
    pub fn as_str(&self) -> FromSqlResult<&'a str> {
        match *self {
            Self::Text(t) => std::str::from_utf8(t).map_err(FromSqlError::other),
            _ => Err(FromSqlError::InvalidType),
        }
    }
    pub fn as_blob(&self) -> FromSqlResult<&'a [u8]> {
        match *self {
            Self::Blob(b) => Ok(b),
            _ => Err(FromSqlError::InvalidType),
        }
    }
    pub fn as_bytes(&self) -> FromSqlResult<&'a [u8]> {
        match *self {
            Self::Blob(b) | Self::Text(b) => Ok(b),
            _ => Err(FromSqlError::InvalidType),
        }
    }
}
#[derive(Debug)]
pub enum FromSqlError {
    InvalidType,
    OutOfRange(i64),
    InvalidBlobSize { expected_size: usize, blob_size: usize },
    Other(Box<dyn std::error::Error + Send + Sync + 'static>),
}
impl FromSqlError {
    pub fn other<E: std::error::Error + Send + Sync + 'static>(e: E) -> Self {
        Self::Other(Box::new(e))
    }
}
impl std::fmt::Display for FromSqlError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for FromSqlError {}
pub type FromSqlResult<T> = Result<T, FromSqlError>;
pub trait FromSql: Sized {
    fn column_result(value: ValueRef<'_>) -> FromSqlResult<Self>;
}
macro_rules! ints {
    ($($t:ty),*) => {$(
        impl FromSql for $t {
            fn column_result(v: ValueRef<'_>) -> FromSqlResult<Self> {
                let i = v.as_i64()?;
                i.try_into().map_err(|_| FromSqlError::OutOfRange(i))
            }
        }
        impl ToSql for $t {
            fn to_sql(&self) -> crate::Result<ToSqlOutput<'_>> {
                i64::try_from(*self).map(|i| ToSqlOutput::Owned(Value::Integer(i))).map_err(|e| crate::Error::ToSqlConversionFailure(e.into()))
            }
        }
    )*};
}
ints!(i8, i16, i32, i64, isize, u8, u16, u32, u64, usize);
impl FromSql for bool {
    fn column_result(v: ValueRef<'_>) -> FromSqlResult<Self> {
        v.as_i64().map(|i| i != 0)
    }
}
impl FromSql for f64 {
    fn column_result(v: ValueRef<'_>) -> FromSqlResult<Self> {
        match v {
            ValueRef::Integer(i) => Ok(i as f64),
            ValueRef::Real(f) => Ok(f),
            _ => Err(FromSqlError::InvalidType),
        }
    }
}
impl FromSql for String {
    fn column_result(v: ValueRef<'_>) -> FromSqlResult<Self> {
        v.as_str().map(Into::into)
    }
}
impl FromSql for Vec<u8> {
    fn column_result(v: ValueRef<'_>) -> FromSqlResult<Self> {
        v.as_blob().map(Into::into)
    }
}
impl<const N: usize> FromSql for [u8; N] {
    fn column_result(v: ValueRef<'_>) -> FromSqlResult<Self> {
        let b = v.as_blob()?;
        b.try_into().map_err(|_| FromSqlError::InvalidBlobSize { expected_size: N, blob_size: b.len() })
    }
}
impl<T: FromSql> FromSql for Option<T> {
    fn column_result(v: ValueRef<'_>) -> FromSqlResult<Self> {
        match v {
            ValueRef::Null => Ok(None),
            v => T::column_result(v).map(Some),
        }
    }
}
pub enum ToSqlOutput<'a> {
    Borrowed(ValueRef<'a>),
    Owned(Value),
}
pub trait ToSql {
    fn to_sql(&self) -> crate::Result<ToSqlOutput<'_>>;
}
impl<T: ToSql + ?Sized> ToSql for &T {
    fn to_sql(&self) -> crate::Result<ToSqlOutput<'_>> {
        (**self).to_sql()
    }
}
impl<T: ToSql + ?Sized> ToSql for Box<T> {
    fn to_sql(&self) -> crate::Result<ToSqlOutput<'_>> {
        (**self).to_sql()
    }
}
impl ToSql for bool {
    fn to_sql(&self) -> crate::Result<ToSqlOutput<'_>> {
        Ok(ToSqlOutput::Owned(Value::Integer(*self as i64)))
    }
}
impl ToSql for f64 {
    fn to_sql(&self) -> crate::Result<ToSqlOutput<'_>> {
        Ok(ToSqlOutput::Owned(Value::Real(*self)))
    }
}
impl ToSql for str {
    fn to_sql(&self) -> crate::Result<ToSqlOutput<'_>> {
        Ok(ToSqlOutput::Borrowed(ValueRef::Text(self.as_bytes())))
    }
}
impl ToSql for String {
    fn to_sql(&self) -> crate::Result<ToSqlOutput<'_>> {
        self.as_str().to_sql()
    }
}
impl ToSql for Cow<'_, str> {
    fn to_sql(&self) -> crate::Result<ToSqlOutput<'_>> {
        self.as_ref().to_sql()
    }
}
impl ToSql for [u8] {
    fn to_sql(&self) -> crate::Result<ToSqlOutput<'_>> {
        Ok(ToSqlOutput::Borrowed(ValueRef::Blob(self)))
    }
}
impl ToSql for Vec<u8> {
    fn to_sql(&self) -> crate::Result<ToSqlOutput<'_>> {
        self.as_slice().to_sql()
    }
}
impl<const N: usize> ToSql for [u8; N] {
    fn to_sql(&self) -> crate::Result<ToSqlOutput<'_>> {
        self.as_slice().to_sql()
    }
}
impl<T: ToSql> ToSql for Option<T> {
    fn to_sql(&self) -> crate::Result<ToSqlOutput<'_>> {
        match self {
            None => Ok(ToSqlOutput::Owned(Value::Null)),
            Some(v) => v.to_sql(),
        }
    }
}
impl<'a> From<&'a str> for ValueRef<'a> {
    fn from(s: &'a str) -> Self {
        ValueRef::Text(s.as_bytes())
    }
}
impl<'a> From<&'a [u8]> for ValueRef<'a> {
    fn from(s: &'a [u8]) -> Self {
        ValueRef::Blob(s)
    }
}
impl PartialEq for FromSqlError {
    fn eq(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::InvalidType, Self::InvalidType) => true,
            (Self::OutOfRange(a), Self::OutOfRange(b)) => a == b,
            (Self::InvalidBlobSize { expected_size: a, blob_size: b }, Self::InvalidBlobSize { expected_size: c, blob_size: d }) => a == c && b == d,
            _ => false,
        }
    }
}
