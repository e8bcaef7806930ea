//! The server side of the Postgres protocol.
use super::exec::*;
use super::net::*;
use super::sql::{parse, Stmt};
use super::val::*;
use bytes::{Buf, BufMut};
use simrt::Kind;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

type Parsed = Result<(Arc<Vec<Arc<Stmt>>>, usize), String>;
static PARSED: Mutex<Option<HashMap<String, Parsed>>> = Mutex::new(None);

fn parsed(sql: &str) -> Parsed {
    simrt::atomically(|| {
        let mut g = PARSED.lock().unwrap_or_else(|e| e.into_inner());
        let m = g.get_or_insert_with(HashMap::new);
        if m.len() > 20_000 {
            m.clear();
        }
        match m.get(sql) {
            Some(p) => p.clone(),
            None => {
                let p = parse(sql).map(|(v, n)| (Arc::new(v.into_iter().map(Arc::new).collect()), n));
                m.insert(sql.to_string(), p.clone());
                p
            }
        }
    })
}

struct Prep {
    stmt: Option<Arc<Stmt>>,
    params: Vec<Ty>,
    cols: Vec<(String, Ty)>,
}
struct Portal {
    stmt: Option<Arc<Stmt>>,
    params: Arc<Vec<V>>,
    cols: Vec<(String, Ty)>,
    formats: Vec<i16>,
    rows: Option<(Vec<Row>, u64)>,
    sent: usize,
}

struct Sess {
    srv: Arc<Server>,
    conn: Arc<Mutex<Conn>>,
    sid: Sid,
    x: Xact,
    out: Vec<u8>,
    preps: HashMap<String, Prep>,
    portals: HashMap<String, Portal>,
    /// After an error in the extended protocol: ignore until Sync.
    skip: bool,
    dead: bool,
}

fn msg(out: &mut Vec<u8>, t: u8, f: impl FnOnce(&mut Vec<u8>)) {
    out.push(t);
    let at = out.len();
    out.extend_from_slice(&[0; 4]);
    f(out);
    let l = (out.len() - at) as i32;
    out[at..at + 4].copy_from_slice(&l.to_be_bytes());
}
fn cstr(o: &mut Vec<u8>, s: &str) {
    o.extend_from_slice(s.as_bytes());
    o.push(0);
}
fn get_cstr(b: &mut &[u8]) -> String {
    let n = b.iter().position(|c| *c == 0).unwrap_or(b.len());
    let s = String::from_utf8_lossy(&b[..n]).into_owned();
    *b = &b[(n + 1).min(b.len())..];
    s
}

impl Sess {
    fn error(&mut self, e: &Err) {
        if e.code == "XXSIM" {
            let mut u = self.srv.unsupported.lock().unwrap();
            if u.is_none() {
                *u = Some(e.msg.clone());
            }
        }
        let m = e.msg.clone();
        msg(&mut self.out, b'E', |o| {
            for (k, v) in [(b'S', "ERROR"), (b'V', "ERROR"), (b'C', e.code), (b'M', m.as_str())] {
                o.push(k);
                cstr(o, v);
            }
            o.push(0);
        });
        *self.srv.db.lock().unwrap().stats.entry("errors").or_default() += 1;
    }
    fn flush(&mut self) {
        let b = std::mem::take(&mut self.out);
        self.srv.write_down(&self.conn, &b);
    }
    fn ready(&mut self) {
        let st = if !self.x.active || !self.x.explicit {
            b'I'
        } else if self.x.failed {
            b'E'
        } else {
            b'T'
        };
        if st == b'I' {
            self.notes();
        }
        msg(&mut self.out, b'Z', |o| o.push(st));
        self.flush();
    }
    fn notes(&mut self) {
        let notes: Vec<_> = self.conn.lock().unwrap().notes.drain(..).collect();
        for (from, ch, p) in notes {
            msg(&mut self.out, b'A', |o| {
                o.put_i32(from as i32);
                cstr(o, &ch);
                cstr(o, &p);
            });
        }
    }
    fn begin(&mut self) {
        if !self.x.active {
            self.x = Xact::default();
            self.x.active = true;
            self.x.now_us = (simrt::realtime_ns() / 1000) as i64 - Y2000 * 1_000_000;
        }
    }
    fn commit(&mut self) {
        simrt::atomically(|| {
            let listen = !self.x.listen.is_empty();
            let began = self.x.now_us;
            let mut db = self.srv.db.lock().unwrap();
            if self.x.failed {
                db.rollback(self.sid, &mut self.x);
            } else {
                db.commit(self.sid, &mut self.x);
            }
            let l = listen && db.listeners.values().any(|l| l.contains(&self.sid));
            drop(db);
            if l {
                self.conn.lock().unwrap().listening = true;
            }
            let node = self.conn.lock().unwrap().node;
            crate::pg::on_commit(&self.srv, node, began);
            self.srv.deliver();
        });
        self.x = Xact::default();
    }
    fn rollback(&mut self) {
        simrt::atomically(|| {
            self.srv.db.lock().unwrap().rollback(self.sid, &mut self.x);
            self.srv.deliver();
        });
        self.x = Xact::default();
    }
    fn check_dead(&mut self) -> bool {
        if self.conn.lock().unwrap().dead {
            self.dead = true;
        }
        self.dead
    }

    /// Run one statement inside the current transaction. None: the session was killed.
    async fn exec(&mut self, stmt: Arc<Stmt>, params: Arc<Vec<V>>) -> Option<R<(Vec<Row>, u64)>> {
        let w = self.srv.w.clone();
        let dml = matches!(&*stmt, Stmt::Select(_) | Stmt::Insert { .. } | Stmt::Update { .. } | Stmt::Delete { .. });
        if dml && w.faults.any() && simrt::now_ns() < w.faults.until_ms * 1_000_000 && w.faults.err_before > 0 && simrt::flip(Kind::Net, w.faults.err_before as u64) {
            w.fault("db_statement_error");
            return Some(err("57014", "canceling statement due to user request"));
        }
        let rot = if dml { simrt::choose(Kind::Net, 3) } else { 0 };
        let mut st = St::new(stmt, params);
        loop {
            let released = self.srv.released.clone();
            let n = released.notified();
            tokio::pin!(n);
            n.as_mut().enable();
            let r = simrt::atomically(|| {
                let mut db = self.srv.db.lock().unwrap();
                db.waits.remove(&self.sid);
                let r = db.step(self.sid, &mut self.x, &mut st, rot);
                if let Ok(Step::Wait(on)) = &r {
                    if db.deadlock(self.sid, *on) {
                        *db.stats.entry("deadlocks").or_default() += 1;
                        return err("40P01", "deadlock detected");
                    }
                    let on = *on;
                    db.waits.insert(self.sid, on);
                    *db.stats.entry("lock_waits").or_default() += 1;
                }
                r
            });
            match r {
                Ok(Step::Done) => {
                    return Some(Ok((st.out, st.affected)));
                }
                Ok(Step::Yield) => tokio::task::yield_now().await,
                Ok(Step::Wait(_)) => n.await,
                Result::Err(e) => return Some(Result::Err(e)),
            }
            if self.check_dead() {
                return None;
            }
        }
    }

    fn tag(stmt: &Stmt, n: u64) -> String {
        match stmt {
            Stmt::Select(_) => format!("SELECT {n}"),
            Stmt::Insert { .. } => format!("INSERT 0 {n}"),
            Stmt::Update { .. } => format!("UPDATE {n}"),
            Stmt::Delete { .. } => format!("DELETE {n}"),
            Stmt::Begin => "BEGIN".into(),
            Stmt::Commit => "COMMIT".into(),
            Stmt::Rollback => "ROLLBACK".into(),
            Stmt::Listen(_) => "LISTEN".into(),
            Stmt::Unlisten(_) => "UNLISTEN".into(),
            Stmt::Notify(..) => "NOTIFY".into(),
            Stmt::Set => "SET".into(),
            Stmt::Do(_) => "DO".into(),
            _ => "CREATE TABLE".into(),
        }
    }

    /// Transaction control and everything else.
    async fn statement(&mut self, stmt: Arc<Stmt>, params: Arc<Vec<V>>) -> Option<R<(Vec<Row>, u64, String)>> {
        match &*stmt {
            Stmt::Begin => {
                self.begin();
                self.x.explicit = true;
                return Some(Ok((vec![], 0, "BEGIN".into())));
            }
            Stmt::Commit => {
                let t = if self.x.failed { "ROLLBACK" } else { "COMMIT" };
                self.commit();
                return Some(Ok((vec![], 0, t.into())));
            }
            Stmt::Rollback => {
                self.rollback();
                return Some(Ok((vec![], 0, "ROLLBACK".into())));
            }
            Stmt::Savepoint(_) | Stmt::Release | Stmt::RollbackTo(_) => return Some(unsupported("savepoints")),
            _ => {}
        }
        if self.x.failed {
            return Some(err("25P02", "current transaction is aborted, commands ignored until end of transaction block"));
        }
        self.begin();
        let r = self.exec(stmt.clone(), params).await?;
        Some(match r {
            Ok((rows, n)) => Ok((rows, n, Self::tag(&stmt, n))),
            Result::Err(e) => Result::Err(e),
        })
    }

    /// A failed statement: the transaction is aborted.
    fn fail(&mut self, e: Err) {
        self.error(&e);
        if self.x.active {
            if self.x.explicit {
                // locks and changes are gone at once, the block stays open
                let now = self.x.now_us;
                self.rollback();
                self.x.active = true;
                self.x.explicit = true;
                self.x.failed = true;
                self.x.now_us = now;
            } else {
                self.rollback();
            }
        }
    }

    fn row_desc(&mut self, cols: &[(String, Ty)], formats: &[i16]) {
        let size = |t: Ty| -> i16 {
            match t {
                BOOL | CHAR => 1,
                INT2 => 2,
                INT4 | OID => 4,
                INT8 | FLOAT8 | TIMESTAMP | TIMESTAMPTZ => 8,
                INTERVAL => 16,
                NAME => 64,
                _ => -1,
            }
        };
        msg(&mut self.out, b'T', |o| {
            o.put_i16(cols.len() as i16);
            for (i, (n, t)) in cols.iter().enumerate() {
                cstr(o, n);
                o.put_i32(0);
                o.put_i16(0);
                o.put_u32(if *t == UNKNOWN { TEXT } else { *t });
                o.put_i16(size(*t));
                o.put_i32(-1);
                o.put_i16(format_of(formats, i));
            }
        });
    }
    fn data_row(&mut self, row: &[V], formats: &[i16]) {
        let db = self.srv.db.lock().unwrap();
        let ty = &db.types;
        msg(&mut self.out, b'D', |o| {
            o.put_i16(row.len() as i16);
            for (i, v) in row.iter().enumerate() {
                if v.is_null() {
                    o.put_i32(-1);
                    continue;
                }
                let at = o.len();
                o.put_i32(0);
                v.encode(format_of(formats, i) == 1, ty, o);
                let l = (o.len() - at - 4) as i32;
                o[at..at + 4].copy_from_slice(&l.to_be_bytes());
            }
        });
    }

    async fn simple(&mut self, sql: &str) -> Option<()> {
        let stmts = match parsed(sql) {
            Ok((s, _)) => s,
            Result::Err(e) => {
                self.fail(syntax(e, sql));
                self.ready();
                return Some(());
            }
        };
        if stmts.is_empty() {
            msg(&mut self.out, b'I', |_| {});
        }
        // A connection breaks around a commit: before it happens, or before its answer.
        let w = self.srv.w.clone();
        let mut lose = None;
        if stmts.iter().any(|s| matches!(**s, Stmt::Commit)) && w.faults.any() && simrt::now_ns() < w.faults.until_ms * 1_000_000 && w.faults.err_after > 0 && simrt::flip(Kind::Net, (w.faults.err_after as u64 * 5).min(500)) {
            lose = Some(simrt::choose(Kind::Net, 3));
        }
        if matches!(lose, Some(0 | 1)) {
            w.fault("net_commit_lost");
            let how = if lose == Some(0) { Close::Eof } else { Close::Reset };
            self.srv.break_conn(&self.conn, how, 0);
            return None;
        }
        for s in stmts.iter() {
            let r = self.statement(s.clone(), Default::default()).await?;
            match r {
                Ok((rows, _, tag)) => {
                    let has = returns(s);
                    if has {
                        let cols = simrt::atomically(|| self.srv.db.lock().unwrap().describe(s, &[], &[]));
                        if let Ok(cols) = cols {
                            self.row_desc(&cols, &[]);
                        }
                        for r in &rows {
                            self.data_row(r, &[]);
                        }
                    }
                    msg(&mut self.out, b'C', |o| cstr(o, &tag));
                }
                Result::Err(e) => {
                    self.fail(e);
                    break;
                }
            }
        }
        if self.x.active && !self.x.explicit {
            self.commit();
        }
        if lose.is_some() {
            w.fault("net_commit_reply_lost");
            self.srv.break_conn(&self.conn, Close::Reset, 0);
            return None;
        }
        self.ready();
        Some(())
    }

    fn parse(&mut self, b: &mut &[u8]) -> R<()> {
        let name = get_cstr(b);
        let sql = get_cstr(b);
        let n = b.get_i16();
        let mut params: Vec<Ty> = (0..n).map(|_| b.get_u32()).collect();
        let (stmts, np) = match parsed(&sql) {
            Ok(p) => p,
            Result::Err(e) => return Result::Err(syntax(e, &sql)),
        };
        if stmts.len() > 1 {
            return err("42601", "cannot insert multiple commands into a prepared statement");
        }
        params.resize(params.len().max(np), 0);
        if params.contains(&0) {
            return unsupported(format!("parameter of unspecified type in {sql}"));
        }
        let stmt = stmts.first().cloned();
        if self.x.failed && !matches!(stmt.as_deref(), Some(Stmt::Commit | Stmt::Rollback)) {
            return err("25P02", "current transaction is aborted, commands ignored until end of transaction block");
        }
        let cols = match &stmt {
            Some(s) => simrt::atomically(|| self.srv.db.lock().unwrap().describe(s, &params, &[]))?,
            None => vec![],
        };
        self.preps.insert(name, Prep { stmt, params, cols });
        msg(&mut self.out, b'1', |_| {});
        Ok(())
    }
    fn bind(&mut self, b: &mut &[u8]) -> R<()> {
        let portal = get_cstr(b);
        let name = get_cstr(b);
        let nf = b.get_i16();
        let fmts: Vec<i16> = (0..nf).map(|_| b.get_i16()).collect();
        let np = b.get_u16();
        let Some(p) = self.preps.get(&name) else { return err("26000", format!("prepared statement \"{name}\" does not exist")) };
        if self.x.failed && !matches!(p.stmt.as_deref(), Some(Stmt::Commit | Stmt::Rollback)) {
            return err("25P02", "current transaction is aborted, commands ignored until end of transaction block");
        }
        if np as usize != p.params.len() {
            return err("08P01", format!("bind message supplies {np} parameters, but prepared statement \"{name}\" requires {}", p.params.len()));
        }
        let mut vals = vec![];
        {
            let db = self.srv.db.lock().unwrap();
            for i in 0..np as usize {
                let l = b.get_i32();
                if l < 0 {
                    vals.push(V::Null);
                    continue;
                }
                let raw = &b[..l as usize];
                vals.push(V::decode(raw, p.params[i], format_of(&fmts, i) == 1, &db.types)?);
                b.advance(l as usize);
            }
        }
        let nr = b.get_i16();
        let formats: Vec<i16> = (0..nr).map(|_| b.get_i16()).collect();
        let po = Portal { stmt: p.stmt.clone(), params: Arc::new(vals), cols: p.cols.clone(), formats, rows: None, sent: 0 };
        self.portals.insert(portal, po);
        msg(&mut self.out, b'2', |_| {});
        Ok(())
    }
    fn describe(&mut self, b: &mut &[u8]) -> R<()> {
        let kind = b.get_u8();
        let name = get_cstr(b);
        let (cols, formats, stmt) = if kind == b'S' {
            let Some(p) = self.preps.get(&name) else { return err("26000", "prepared statement does not exist") };
            let params = p.params.clone();
            let r = (p.cols.clone(), vec![], p.stmt.clone());
            msg(&mut self.out, b't', |o| {
                o.put_i16(params.len() as i16);
                for t in &params {
                    o.put_u32(*t);
                }
            });
            r
        } else {
            let Some(p) = self.portals.get(&name) else { return err("34000", "portal does not exist") };
            (p.cols.clone(), p.formats.clone(), p.stmt.clone())
        };
        if stmt.as_deref().is_some_and(returns) {
            self.row_desc(&cols, &formats);
        } else {
            msg(&mut self.out, b'n', |_| {});
        }
        Ok(())
    }
    async fn execute(&mut self, b: &mut &[u8]) -> Option<R<()>> {
        let name = get_cstr(b);
        let limit = b.get_i32().max(0) as usize;
        let Some(mut p) = self.portals.remove(&name) else { return Some(err("34000", "portal does not exist")) };
        let Some(stmt) = p.stmt.clone() else {
            msg(&mut self.out, b'I', |_| {});
            return Some(Ok(()));
        };
        let tag = match p.rows {
            Some((_, n)) => Self::tag(&stmt, n),
            None => match self.statement(stmt.clone(), p.params.clone()).await? {
                Ok((rows, n, tag)) => {
                    p.rows = Some((rows, n));
                    tag
                }
                Result::Err(e) => return Some(Result::Err(e)),
            },
        };
        let mut more = false;
        if returns(&stmt) {
            let rows = std::mem::take(&mut p.rows.as_mut().unwrap().0);
            let end = if limit == 0 { rows.len() } else { rows.len().min(p.sent + limit) };
            for r in &rows[p.sent..end] {
                self.data_row(r, &p.formats);
            }
            more = limit > 0 && end - p.sent == limit;
            p.sent = end;
            p.rows.as_mut().unwrap().0 = rows;
        }
        if more {
            msg(&mut self.out, b's', |_| {});
        } else {
            msg(&mut self.out, b'C', |o| cstr(o, &tag));
        }
        self.portals.insert(name, p);
        Some(Ok(()))
    }

    async fn message(&mut self, t: u8, mut b: &[u8]) -> Option<()> {
        let b = &mut b;
        match t {
            b'Q' => {
                self.skip = false;
                let sql = get_cstr(b);
                self.simple(&sql).await?;
            }
            b'S' => {
                self.skip = false;
                if self.x.active && !self.x.explicit {
                    self.commit();
                    self.portals.clear();
                }
                let w = self.srv.w.clone();
                if w.faults.any() && simrt::now_ns() < w.faults.until_ms * 1_000_000 && w.faults.err_after > 0 && simrt::flip(Kind::Net, w.faults.err_after as u64) {
                    // the connection breaks: the answer (or a part of it) is lost
                    w.fault("net_reply_lost");
                    let how = if simrt::choose(Kind::Net, 2) == 0 { Close::Eof } else { Close::Reset };
                    self.srv.break_conn(&self.conn, how, 0);
                    return None;
                }
                self.ready();
            }
            b'X' => return None,
            b'H' => self.flush(),
            _ if self.skip => {}
            b'P' | b'B' | b'D' | b'E' | b'C' => {
                let r = match t {
                    b'P' => self.parse(b),
                    b'B' => self.bind(b),
                    b'D' => self.describe(b),
                    b'E' => self.execute(b).await?,
                    _ => {
                        let kind = b.get_u8();
                        let name = get_cstr(b);
                        if kind == b'S' {
                            self.preps.remove(&name);
                        } else {
                            self.portals.remove(&name);
                        }
                        msg(&mut self.out, b'3', |_| {});
                        Ok(())
                    }
                };
                if let Result::Err(e) = r {
                    self.fail(e);
                    self.skip = true;
                }
            }
            t => {
                let _ = self.fail(Err { code: "XXSIM", msg: format!("message type {:?}", t as char) });
            }
        }
        Some(())
    }
}

fn format_of(f: &[i16], i: usize) -> i16 {
    match f.len() {
        0 => 0,
        1 => f[0],
        _ => f.get(i).copied().unwrap_or(0),
    }
}
fn returns(s: &Stmt) -> bool {
    match s {
        Stmt::Select(_) => true,
        Stmt::Insert { ret, .. } | Stmt::Update { ret, .. } | Stmt::Delete { ret, .. } => !ret.is_empty(),
        _ => false,
    }
}
fn syntax(e: String, sql: &str) -> Err {
    // what is certainly wrong, and what the simulator may just not know
    match e.strip_prefix('!') {
        Some(e) => Err { code: "42601", msg: format!("{e} in {sql}") },
        None => Err { code: "XXSIM", msg: format!("{e} in {sql}") },
    }
}

pub async fn session(srv: Arc<Server>, conn: Arc<Mutex<Conn>>) {
    let sid = conn.lock().unwrap().sid;
    let mut s = Sess { srv: srv.clone(), conn: conn.clone(), sid, x: Xact::default(), out: vec![], preps: HashMap::new(), portals: HashMap::new(), skip: false, dead: false };
    let mut buf: Vec<u8> = vec![];
    let mut started = false;
    'outer: loop {
        // complete messages first
        loop {
            let head = if started { 1 } else { 0 };
            if buf.len() < head + 4 {
                break;
            }
            let l = i32::from_be_bytes(buf[head..head + 4].try_into().unwrap()) as usize;
            if buf.len() < head + l {
                break;
            }
            let m: Vec<u8> = buf.drain(..head + l).collect();
            if !started {
                let code = i32::from_be_bytes(m[4..8].try_into().unwrap());
                if code == 80_877_103 {
                    s.out.push(b'N');
                    s.flush();
                    continue;
                }
                if code != 196_608 {
                    break 'outer;
                }
                started = true;
                msg(&mut s.out, b'R', |o| o.put_i32(0));
                msg(&mut s.out, b'S', |o| {
                    cstr(o, "server_version");
                    cstr(o, "16.2");
                });
                msg(&mut s.out, b'K', |o| {
                    o.put_i32(sid as i32);
                    o.put_i32(4711);
                });
                s.ready();
                continue;
            }
            if s.message(m[0], &m[5..]).await.is_none() {
                break 'outer;
            }
            if s.check_dead() {
                break 'outer;
            }
        }
        let ev = ServerRead { srv: &srv, conn: &conn, buf: &mut buf, idle: !s.x.active && started, sleep: None }.await;
        match ev {
            Event::Closed => break,
            Event::Notes => {
                s.notes();
                s.flush();
            }
            Event::Bytes => {}
        }
    }
    if !s.dead && !conn.lock().unwrap().dead {
        simrt::atomically(|| {
            srv.db.lock().unwrap().disconnect(sid, &mut s.x);
            srv.deliver();
        });
        srv.conns.lock().unwrap().remove(&sid);
        conn.lock().unwrap().close_down(Close::Eof);
    }
}
