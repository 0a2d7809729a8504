//! uTP with the packets taken out: every stream operation is handed to whoever controls the
//! socket, which decides how it ends.
pub mod cid {
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    pub struct ConnectionId<P> {
        pub send: u16,
        pub recv: u16,
        pub peer_id: P,
    }
}
pub mod conn {
    use std::time::Duration;
    #[derive(Clone, Copy, Debug)]
    pub struct ConnectionConfig {
        pub max_packet_size: u16,
        pub max_conn_attempts: usize,
        pub max_idle_timeout: Duration,
        pub initial_timeout: Duration,
        pub min_timeout: Duration,
        pub max_timeout: Duration,
        pub target_delay: Duration,
    }
    impl Default for ConnectionConfig {
        fn default() -> Self {
            Self {
                max_packet_size: 1024,
                max_conn_attempts: 6,
                max_idle_timeout: Duration::from_secs(32),
                initial_timeout: Duration::from_millis(1500),
                min_timeout: Duration::from_secs(1),
                max_timeout: Duration::from_secs(16),
                target_delay: Duration::from_millis(100),
            }
        }
    }
}
pub mod peer {
    use std::{fmt::Debug, hash::Hash};
    pub trait ConnectionPeer: Debug + Clone + Send + Sync {
        type Id: Debug + Clone + PartialEq + Eq + Hash + Send + Sync;
        fn id(&self) -> Self::Id;
        fn consolidate(a: Self, b: Self) -> Self;
    }
    #[derive(Debug, Clone)]
    pub struct Peer<P: ConnectionPeer> {
        id: P::Id,
        peer: Option<P>,
    }
    impl<P: ConnectionPeer> Peer<P> {
        pub fn new(peer: P) -> Self {
            Self { id: peer.id(), peer: Some(peer) }
        }
        pub fn new_id(id: P::Id) -> Self {
            Self { id, peer: None }
        }
        pub fn id(&self) -> &P::Id {
            &self.id
        }
        pub fn peer(&self) -> Option<&P> {
            self.peer.as_ref()
        }
        pub fn consolidate(&mut self, other: Self) {
            self.peer = match (self.peer.take(), other.peer) {
                (Some(a), Some(b)) => Some(P::consolidate(a, b)),
                (a, b) => a.or(b),
            };
        }
    }
}
pub mod udp {
    use crate::peer::{ConnectionPeer, Peer};
    use std::io;
    #[async_trait::async_trait]
    pub trait AsyncUdpSocket<P: ConnectionPeer>: Send + Sync {
        async fn send_to(&mut self, buf: &[u8], peer: &Peer<P>) -> io::Result<usize>;
        async fn recv_from(&mut self, buf: &mut [u8]) -> io::Result<(usize, Peer<P>)>;
    }
}
pub mod control {
    use super::*;
    use tokio::sync::oneshot;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Side {
        Connect,
        Accept,
    }
    /// A stream the code under test asked for.
    pub struct Open<P: peer::ConnectionPeer> {
        pub side: Side,
        pub cid: cid::ConnectionId<P::Id>,
        pub answer: oneshot::Sender<std::io::Result<Plan>>,
    }
    /// How an opened stream behaves.
    #[derive(Default)]
    pub struct Plan {
        /// What reading to the end yields; waits for the sender when present.
        pub read: Option<oneshot::Receiver<std::io::Result<Vec<u8>>>>,
        /// Decides a write: receives the data, answers with the number of bytes taken.
        pub write: Option<Box<dyn FnMut(&[u8]) -> std::io::Result<usize> + Send>>,
        /// Resolves when the stream is fully closed.
        pub close: Option<oneshot::Receiver<std::io::Result<()>>>,
    }
}
pub mod stream {
    use super::*;
    use std::io;
    pub struct UtpStream<P: peer::ConnectionPeer> {
        pub(crate) cid: cid::ConnectionId<P::Id>,
        pub(crate) plan: control::Plan,
    }
    impl<P: peer::ConnectionPeer> UtpStream<P> {
        pub fn cid(&self) -> &cid::ConnectionId<P::Id> {
            &self.cid
        }
        pub async fn read_to_eof(&mut self, buf: &mut Vec<u8>) -> io::Result<usize> {
            let data = match self.plan.read.take() {
                Some(rx) => rx.await.unwrap_or_else(|_| Err(io::ErrorKind::TimedOut.into()))?,
                None => vec![],
            };
            buf.extend_from_slice(&data);
            Ok(data.len())
        }
        pub async fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
            match &mut self.plan.write {
                Some(f) => f(buf),
                None => Ok(buf.len()),
            }
        }
        pub async fn close(&mut self) -> io::Result<()> {
            match self.plan.close.take() {
                Some(rx) => rx.await.unwrap_or_else(|_| Err(io::ErrorKind::TimedOut.into())),
                None => Ok(()),
            }
        }
    }
}
pub mod socket {
    use super::{cid::ConnectionId, conn::ConnectionConfig, control::*, peer::*, stream::UtpStream, udp::AsyncUdpSocket};
    use parking_lot::Mutex;
    use std::{io, sync::atomic::{AtomicU16, Ordering}};
    use tokio::sync::{mpsc, oneshot};
    pub struct UtpSocket<P: ConnectionPeer> {
        tx: mpsc::UnboundedSender<Open<P>>,
        rx: Mutex<Option<mpsc::UnboundedReceiver<Open<P>>>>,
        next: AtomicU16,
    }
    impl<P: ConnectionPeer> Default for UtpSocket<P> {
        fn default() -> Self {
            let (tx, rx) = mpsc::unbounded_channel();
            Self { tx, rx: Mutex::new(Some(rx)), next: AtomicU16::new(100) }
        }
    }
    impl<P: ConnectionPeer + 'static> UtpSocket<P> {
        pub fn with_socket<S: AsyncUdpSocket<P> + 'static>(_socket: S) -> Self {
            Self::default()
        }
        /// Driver entry point: the stream requests made on this socket.
        pub fn take_control(&self) -> mpsc::UnboundedReceiver<Open<P>> {
            self.rx.lock().take().expect("control already taken")
        }
        pub fn cid(&self, peer_id: P::Id, is_initiator: bool) -> ConnectionId<P::Id> {
            let c = self.next.fetch_add(2, Ordering::SeqCst);
            let (send, recv) = if is_initiator { (c.wrapping_add(1), c) } else { (c, c.wrapping_add(1)) };
            ConnectionId { send, recv, peer_id }
        }
        async fn open(&self, side: Side, cid: ConnectionId<P::Id>, cfg: ConnectionConfig) -> io::Result<UtpStream<P>> {
            let (answer, rx) = oneshot::channel();
            let timed_out = || io::Error::from(io::ErrorKind::TimedOut);
            if self.tx.send(Open { side, cid: cid.clone(), answer }).is_err() {
                tokio::time::sleep(cfg.max_idle_timeout).await;
                return Err(timed_out());
            }
            let plan = rx.await.unwrap_or_else(|_| Err(timed_out()))?;
            Ok(UtpStream { cid, plan })
        }
        pub async fn connect_with_cid(&self, cid: ConnectionId<P::Id>, _peer: Peer<P>, cfg: ConnectionConfig) -> io::Result<UtpStream<P>> {
            self.open(Side::Connect, cid, cfg).await
        }
        pub async fn accept_with_cid(&self, cid: ConnectionId<P::Id>, _peer: Peer<P>, cfg: ConnectionConfig) -> io::Result<UtpStream<P>> {
            self.open(Side::Accept, cid, cfg).await
        }
    }
}
