//! In-memory connections between the sqlx client and the simulated server.
//!
//! A connection is a pair of ordered byte pipes. Bytes may be delayed (later bytes wait behind
//! earlier ones), held back while the node is cut off from the server, and lost together with the
//! connection.
use super::exec::{Db, Sid};
use crate::world::World;
use simrt::Kind;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::Duration;

/// Simulation node of the server.
pub const DB_NODE: u32 = 900;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Close {
    Eof,
    Reset,
}
#[derive(Default)]
pub struct Pipe {
    q: VecDeque<(u64, VecDeque<u8>)>,
    /// After the queued bytes.
    closed: Option<Close>,
    closed_at: u64,
    waker: Option<Waker>,
}
impl Pipe {
    fn wake(&mut self) {
        if let Some(w) = self.waker.take() {
            w.wake();
        }
    }
    fn write(&mut self, b: &[u8], delay_ns: u64) {
        let at = (simrt::now_ns() + delay_ns).max(self.q.back().map(|x| x.0).unwrap_or(0));
        self.q.push_back((at, b.iter().copied().collect()));
        self.wake();
    }
    /// Close; `lose`: also drop some of the chunks still under way.
    fn close(&mut self, how: Close, lose: bool, delay_ns: u64) {
        if self.closed.is_some() {
            return;
        }
        if lose && !self.q.is_empty() {
            let keep = simrt::choose(Kind::Net, self.q.len() + 1);
            self.q.truncate(keep);
        }
        self.closed = Some(how);
        self.closed_at = simrt::now_ns() + delay_ns;
        self.wake();
    }
    fn close_now(&mut self, how: Close) {
        self.q.clear();
        self.closed = Some(how);
        self.closed_at = 0;
        self.wake();
    }
    /// Ok(Ok(n bytes)), Ok(Err(None)): nothing yet, Ok(Err(Some(t))): not before t.
    fn read(&mut self, max: usize, out: &mut Vec<u8>) -> io::Result<Result<usize, Option<u64>>> {
        let now = simrt::now_ns();
        match self.q.front_mut() {
            Some((at, b)) if *at <= now => {
                let n = max.min(b.len());
                out.extend(b.drain(..n));
                if b.is_empty() {
                    self.q.pop_front();
                }
                Ok(Ok(n))
            }
            Some((at, _)) => Ok(Err(Some(*at))),
            None => match self.closed {
                Some(_) if self.closed_at > now => Ok(Err(Some(self.closed_at))),
                Some(Close::Eof) => Ok(Ok(0)),
                Some(Close::Reset) => Err(io::ErrorKind::ConnectionReset.into()),
                None => Ok(Err(None)),
            },
        }
    }
}

pub struct Conn {
    pub sid: Sid,
    pub node: u32,
    pub up: Pipe,
    pub down: Pipe,
    /// The server side is gone: the session must stop at once.
    pub dead: bool,
    pub listening: bool,
    /// Notifications to be sent when the session is idle: (sender, channel, payload).
    pub notes: VecDeque<(Sid, String, String)>,
}

impl Conn {
    pub fn close_down(&mut self, how: Close) {
        self.down.close(how, false, 0);
    }
}

pub struct Server {
    pub db: Mutex<Db>,
    pub w: Arc<World>,
    pub conns: Mutex<BTreeMap<Sid, Arc<Mutex<Conn>>>>,
    /// Every connection ever made (to wake both ends when a partition heals).
    all: Mutex<Vec<Arc<Mutex<Conn>>>>,
    pub cut: Mutex<BTreeSet<u32>>,
    pub down: Mutex<bool>,
    next: Mutex<Sid>,
    /// Locks were released.
    pub released: Arc<tokio::sync::Notify>,
    pub healed: Arc<tokio::sync::Notify>,
    pub unsupported: Mutex<Option<String>>,
}

static SERVER: Mutex<Option<Arc<Server>>> = Mutex::new(None);

pub fn server() -> Option<Arc<Server>> {
    simrt::atomically(|| SERVER.lock().unwrap_or_else(|e| e.into_inner()).clone())
}
pub fn set_server(s: Option<Arc<Server>>) {
    let old = simrt::atomically(|| std::mem::replace(&mut *SERVER.lock().unwrap_or_else(|e| e.into_inner()), s));
    drop(old);
}

fn delay_ns(w: &World) -> u64 {
    // most messages take no time of their own: their order is up to the scheduler
    if w.faults.any() && simrt::now_ns() < w.faults.until_ms * 1_000_000 && w.faults.delay > 0 && simrt::flip(Kind::Net, w.faults.delay as u64) {
        w.fault("net_delay");
        return (1 + simrt::choose(Kind::Net, w.faults.max_delay_ms.max(1) as usize) as u64) * 1_000_000;
    }
    0
}

impl Server {
    pub fn new(w: Arc<World>, db: Db) -> Arc<Server> {
        Arc::new(Server {
            db: Mutex::new(db),
            w,
            conns: Default::default(),
            all: Default::default(),
            cut: Default::default(),
            down: Mutex::new(false),
            next: Mutex::new(1),
            released: Default::default(),
            healed: Default::default(),
            unsupported: Mutex::new(None),
        })
    }
    pub fn is_cut(&self, node: u32) -> bool {
        self.cut.lock().unwrap().contains(&node)
    }
    pub fn of_node(&self, node: u32) -> Vec<Arc<Mutex<Conn>>> {
        self.conns.lock().unwrap().values().filter(|c| c.lock().unwrap().node == node).cloned().collect()
    }
    pub fn write_down(&self, c: &Arc<Mutex<Conn>>, b: &[u8]) {
        if b.is_empty() {
            return;
        }
        let d = delay_ns(&self.w);
        c.lock().unwrap().down.write(b, d);
    }
    /// Hand committed notifications to the listening sessions.
    pub fn deliver(&self) {
        let out = std::mem::take(&mut self.db.lock().unwrap().outbox);
        for (to, from, ch, payload) in out {
            let c = self.conns.lock().unwrap().get(&to).cloned();
            if let Some(c) = c {
                let mut c = c.lock().unwrap();
                c.notes.push_back((from, ch, payload));
                c.up.wake();
            }
        }
        self.released.notify_waiters();
    }
    /// The connection breaks. `server_delay`: when the server notices.
    pub fn break_conn(&self, c: &Arc<Mutex<Conn>>, client: Close, server_delay_ns: u64) {
        let mut c = c.lock().unwrap();
        self.w.push_at(0, crate::world::EvK::ConnBroken { sid: c.sid });
        let lose_up = simrt::choose(Kind::Net, 2) == 1;
        let lose_down = simrt::choose(Kind::Net, 2) == 1;
        c.up.close(Close::Eof, lose_up, server_delay_ns);
        c.down.close(client, lose_down, 0);
    }
}

/// Wait until the server side of the connection has something to do.
pub enum Event {
    Bytes,
    Notes,
    Closed,
}
pub struct ServerRead<'a> {
    pub srv: &'a Arc<Server>,
    pub conn: &'a Arc<Mutex<Conn>>,
    pub buf: &'a mut Vec<u8>,
    pub idle: bool,
    pub sleep: Option<Pin<Box<tokio::time::Sleep>>>,
}
impl Future for ServerRead<'_> {
    type Output = Event;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Event> {
        let me = &mut *self;
        loop {
            let wait = {
                let node = me.conn.lock().unwrap().node;
                let cut = me.srv.is_cut(node);
                let mut c = me.conn.lock().unwrap();
                if c.dead {
                    return Poll::Ready(Event::Closed);
                }
                if me.idle && !c.notes.is_empty() {
                    return Poll::Ready(Event::Notes);
                }
                c.up.waker = Some(cx.waker().clone());
                if cut {
                    return Poll::Pending;
                }
                match c.up.read(1 << 20, me.buf) {
                    Ok(Ok(0)) | Err(_) => return Poll::Ready(Event::Closed),
                    Ok(Ok(_)) => return Poll::Ready(Event::Bytes),
                    Ok(Err(None)) => return Poll::Pending,
                    Ok(Err(Some(t))) => t,
                }
            };
            let mut s = Box::pin(tokio::time::sleep(Duration::from_nanos(wait.saturating_sub(simrt::now_ns()))));
            match s.as_mut().poll(cx) {
                Poll::Ready(_) => continue,
                Poll::Pending => {
                    me.sleep = Some(s);
                    return Poll::Pending;
                }
            }
        }
    }
}

/// The client's end.
pub struct ClientSocket {
    srv: Arc<Server>,
    conn: Arc<Mutex<Conn>>,
    sleep: Option<Pin<Box<tokio::time::Sleep>>>,
}
impl Drop for ClientSocket {
    fn drop(&mut self) {
        let mut c = self.conn.lock().unwrap_or_else(|e| e.into_inner());
        c.up.close(Close::Eof, false, 0);
    }
}
impl sqlx_core::net::Socket for ClientSocket {
    fn try_read(&mut self, buf: &mut dyn sqlx_core::io::ReadBuf) -> io::Result<usize> {
        let node = self.conn.lock().unwrap().node;
        if self.srv.is_cut(node) {
            return Err(io::ErrorKind::WouldBlock.into());
        }
        let mut v = vec![];
        let max = buf.remaining_mut();
        let r = self.conn.lock().unwrap().down.read(max, &mut v);
        match r? {
            Ok(n) => {
                buf.put_slice(&v);
                Ok(n)
            }
            Err(_) => Err(io::ErrorKind::WouldBlock.into()),
        }
    }
    fn try_write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let d = delay_ns(&self.srv.w);
        let mut c = self.conn.lock().unwrap();
        match (c.down.closed, c.up.closed) {
            (Some(Close::Reset), _) => return Err(io::ErrorKind::ConnectionReset.into()),
            (Some(Close::Eof), _) | (_, Some(_)) => return Err(io::ErrorKind::BrokenPipe.into()),
            _ => {}
        }
        c.up.write(buf, d);
        Ok(buf.len())
    }
    fn poll_read_ready(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let node = self.conn.lock().unwrap().node;
        let cut = self.srv.is_cut(node);
        let at = {
            let mut c = self.conn.lock().unwrap();
            c.down.waker = Some(cx.waker().clone());
            if cut {
                return Poll::Pending;
            }
            let now = simrt::now_ns();
            match (c.down.q.front(), c.down.closed) {
                (Some((at, _)), _) if *at <= now => return Poll::Ready(Ok(())),
                (Some((at, _)), _) => *at,
                (None, Some(_)) if c.down.closed_at > now => c.down.closed_at,
                (None, Some(_)) => return Poll::Ready(Ok(())),
                (None, None) => return Poll::Pending,
            }
        };
        let mut s = Box::pin(tokio::time::sleep(Duration::from_nanos(at.saturating_sub(simrt::now_ns()))));
        match s.as_mut().poll(cx) {
            Poll::Ready(_) => Poll::Ready(Ok(())),
            Poll::Pending => {
                self.sleep = Some(s);
                Poll::Pending
            }
        }
    }
    fn poll_write_ready(&mut self, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(&mut self, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.conn.lock().unwrap().up.close(Close::Eof, false, 0);
        Poll::Ready(Ok(()))
    }
}

pub fn connect(_host: String, _port: u16) -> Pin<Box<dyn Future<Output = io::Result<Box<dyn sqlx_core::net::Socket>>> + Send>> {
    Box::pin(async move {
        let Some(srv) = server() else { return Err(io::ErrorKind::ConnectionRefused.into()) };
        let node = simrt::cur_node();
        loop {
            let healed = srv.healed.notified();
            if !srv.is_cut(node) {
                break;
            }
            healed.await;
        }
        if *srv.down.lock().unwrap() {
            return Err(io::ErrorKind::ConnectionRefused.into());
        }
        let sid = {
            let mut n = srv.next.lock().unwrap();
            *n += 1;
            *n
        };
        let conn = Arc::new(Mutex::new(Conn { sid, node, up: Pipe::default(), down: Pipe::default(), dead: false, listening: false, notes: VecDeque::new() }));
        srv.conns.lock().unwrap().insert(sid, conn.clone());
        srv.all.lock().unwrap().push(conn.clone());
        let c2 = conn.clone();
        let s2 = srv.clone();
        simrt::with_node(DB_NODE, || tokio::spawn(super::wire::session(s2, c2)));
        let s: Box<dyn sqlx_core::net::Socket> = Box::new(ClientSocket { srv, conn, sleep: None });
        Ok(s)
    })
}

impl Server {
    /// All sessions end and running transactions are lost; committed data stays.
    pub fn set_down(&self, down: bool) {
        *self.down.lock().unwrap() = down;
        if !down {
            return;
        }
        let all: Vec<_> = std::mem::take(&mut *self.conns.lock().unwrap()).into_values().collect();
        for c in all {
            let mut c = c.lock().unwrap();
            self.w.push_at(0, crate::world::EvK::ConnBroken { sid: c.sid });
            c.dead = true;
            let lose = simrt::choose(Kind::Net, 2) == 1;
            let how = if simrt::choose(Kind::Net, 2) == 1 { Close::Eof } else { Close::Reset };
            c.up.close_now(Close::Eof);
            c.down.close(how, lose, 0);
        }
        let mut db = self.db.lock().unwrap();
        db.crash();
        drop(db);
        self.released.notify_waiters();
    }
    pub fn set_cut(&self, node: u32, cut: bool) {
        if cut {
            self.cut.lock().unwrap().insert(node);
        } else {
            self.cut.lock().unwrap().remove(&node);
            for c in self.all.lock().unwrap().iter() {
                let mut c = c.lock().unwrap();
                if c.node == node {
                    c.up.wake();
                    c.down.wake();
                }
            }
            self.healed.notify_waiters();
        }
    }
}
