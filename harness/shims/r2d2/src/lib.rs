//! A connection pool with r2d2's surface.
use parking_lot::{Condvar, Mutex};
use std::{fmt, ops::{Deref, DerefMut}, sync::Arc, time::{Duration, Instant}};
pub trait ManageConnection: Send + Sync + 'static {
    type Connection: Send + 'static;
    type Error: std::error::Error + 'static;
    fn connect(&self) -> Result<Self::Connection, Self::Error>;
}
#[derive(Debug)]
pub struct Error(Option<String>);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "timed out waiting for connection")?;
        if let Some(e) = &self.0 {
            write!(f, ": {e}")?;
        }
        Ok(())
    }
}
impl std::error::Error for Error {}
struct Shared<M: ManageConnection> {
    manager: M,
    max: u32,
    timeout: Duration,
    // Idle connections and the number of open ones.
    state: Mutex<(Vec<M::Connection>, u32)>,
    cond: Condvar,
}
pub struct Pool<M: ManageConnection>(Arc<Shared<M>>);
impl<M: ManageConnection> Clone for Pool<M> {
    fn clone(&self) -> Self {
        Self(self.0.clone())
    }
}
impl<M: ManageConnection> fmt::Debug for Pool<M> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Pool")
    }
}
pub struct Builder<M>(u32, Duration, std::marker::PhantomData<M>);
impl<M: ManageConnection> Builder<M> {
    pub fn max_size(mut self, n: u32) -> Self {
        self.0 = n;
        self
    }
    pub fn connection_timeout(mut self, d: Duration) -> Self {
        self.1 = d;
        self
    }
    pub fn build(self, manager: M) -> Result<Pool<M>, Error> {
        let first = manager.connect().map_err(|e| Error(Some(e.to_string())))?;
        Ok(Pool(Arc::new(Shared { manager, max: self.0, timeout: self.1, state: Mutex::new((vec![first], 1)), cond: Condvar::new() })))
    }
}
impl<M: ManageConnection> Pool<M> {
    pub fn new(manager: M) -> Result<Self, Error> {
        Self::builder().build(manager)
    }
    pub fn builder() -> Builder<M> {
        Builder(10, Duration::from_secs(30), std::marker::PhantomData)
    }
    pub fn get(&self) -> Result<PooledConnection<M>, Error> {
        let deadline = Instant::now() + self.0.timeout;
        let mut s = self.0.state.lock();
        loop {
            if let Some(c) = s.0.pop() {
                return Ok(PooledConnection { pool: self.0.clone(), conn: Some(c) });
            }
            if s.1 < self.0.max {
                let c = self.0.manager.connect().map_err(|e| Error(Some(e.to_string())))?;
                s.1 += 1;
                return Ok(PooledConnection { pool: self.0.clone(), conn: Some(c) });
            }
            if self.0.cond.wait_until(&mut s, deadline).timed_out() {
                return Err(Error(None));
            }
        }
    }
}
pub struct PooledConnection<M: ManageConnection> {
    pool: Arc<Shared<M>>,
    conn: Option<M::Connection>,
}
impl<M: ManageConnection> Drop for PooledConnection<M> {
    fn drop(&mut self) {
        if let Some(c) = self.conn.take() {
            self.pool.state.lock().0.push(c);
            self.pool.cond.notify_one();
        }
    }
}
impl<M: ManageConnection> Deref for PooledConnection<M> {
    type Target = M::Connection;
    fn deref(&self) -> &M::Connection {
        self.conn.as_ref().unwrap()
    }
}
impl<M: ManageConnection> DerefMut for PooledConnection<M> {
    fn deref_mut(&mut self) -> &mut M::Connection {
        self.conn.as_mut().unwrap()
    }
}
