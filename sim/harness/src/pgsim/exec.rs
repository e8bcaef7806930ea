//! Storage, transactions, locks and statement execution of the simulated Postgres server.
//!
//! READ COMMITTED: each statement reads a snapshot of what was committed when it started (and what
//! its own transaction did); rows it changes or locks are locked until the end of the transaction;
//! a row that was changed by someone else since the snapshot is looked at again in its newest
//! version before it is touched (Postgres' "EvalPlanQual"). A statement is executed in steps, and
//! other sessions may run between the steps.
use super::sql::*;
use super::val::*;
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

pub type Row = Vec<V>;
pub type Sid = u32;

#[derive(Clone, Debug)]
pub struct Col {
    pub name: String,
    pub ty: Ty,
    pub not_null: bool,
    pub default: Option<E>,
    pub pk: bool,
}
#[derive(Clone, Debug)]
pub struct Slot {
    /// Position in the heap: new versions go to the end.
    pub pos: u64,
    pub committed: Option<Arc<Row>>,
    /// A new version (None: deleted) by the transaction holding the lock.
    pub pending: Option<Option<Arc<Row>>>,
    pub lock: Option<Sid>,
}
#[derive(Clone, Debug, Default)]
pub struct Table {
    pub cols: Vec<Col>,
    pub shape: Arc<Vec<(String, Ty)>>,
    pub rows: BTreeMap<u64, Slot>,
    pub trig: Vec<Trigger>,
    pub seq: BTreeMap<String, i64>,
}
#[derive(Clone, Debug)]
pub struct Adv {
    pub holder: Sid,
    pub session: u32,
    pub xact: u32,
}
/// A committed change of a row.
#[derive(Clone, Debug)]
pub struct Change {
    pub table: String,
    pub sid: Sid,
    pub old: Option<Arc<Row>>,
    pub new: Option<Arc<Row>>,
}

#[derive(Default, Clone)]
pub struct Db {
    pub types: Types,
    pub tables: BTreeMap<String, Table>,
    pub funcs: BTreeMap<String, Arc<PlBlock>>,
    next_oid: Ty,
    next_row: u64,
    next_pos: u64,
    pub adv: BTreeMap<i64, Adv>,
    pub waits: BTreeMap<Sid, Sid>,
    pub listeners: BTreeMap<String, Vec<Sid>>,
    /// Notifications of committed transactions, not yet handed to the sessions.
    pub outbox: Vec<(Sid, Sid, String, String)>,
    pub changes: Vec<Change>,
    pub stats: BTreeMap<&'static str, u64>,
}

#[derive(Default)]
pub struct Xact {
    pub active: bool,
    pub explicit: bool,
    pub failed: bool,
    pub now_us: i64,
    pub touched: Vec<(String, u64)>,
    pub notify: Vec<(String, String)>,
    pub listen: Vec<(bool, Option<String>)>,
    catalog: Option<Box<(Types, BTreeMap<String, (Vec<Col>, Vec<Trigger>)>, BTreeMap<String, Arc<PlBlock>>)>>,
}

pub type Snap = BTreeMap<String, Vec<(u64, Arc<Row>)>>;

#[derive(Clone)]
pub struct Bind {
    pub alias: String,
    pub cols: Arc<Vec<(String, Ty)>>,
    pub row: Arc<Row>,
    pub src: Option<(String, u64)>,
}
#[derive(Clone, Copy)]
pub struct Env<'a> {
    pub binds: &'a [Bind],
    pub outer: Option<&'a Env<'a>>,
}
#[derive(Clone)]
pub struct Rel {
    pub cols: Arc<Vec<(String, Ty)>>,
    pub rows: Vec<Arc<Row>>,
}

/// The state of a statement being executed.
pub struct St {
    pub stmt: Arc<Stmt>,
    pub params: Arc<Vec<V>>,
    snap: Option<Arc<Snap>>,
    cache: HashMap<usize, Arc<Vec<Row>>>,
    ctes: Vec<(String, Rel)>,
    sub: Option<Box<St>>,
    phase: u8,
    targets: Vec<(u64, Arc<Row>, Vec<Bind>)>,
    next: usize,
    changed: Vec<(Option<Arc<Row>>, Option<Arc<Row>>)>,
    pub out: Vec<Row>,
    pub affected: u64,
}
impl St {
    pub fn new(stmt: Arc<Stmt>, params: Arc<Vec<V>>) -> St {
        St { stmt, params, snap: None, cache: HashMap::new(), ctes: vec![], sub: None, phase: 0, targets: vec![], next: 0, changed: vec![], out: vec![], affected: 0 }
    }
}
pub enum Step {
    Done,
    /// Others may run here.
    Yield,
    /// Waits for the end of that session's transaction.
    Wait(Sid),
}

const BLOCK: &str = "XXBLK";

pub struct Cx<'a> {
    pub db: &'a mut Db,
    pub x: &'a mut Xact,
    pub sid: Sid,
    pub snap: Arc<Snap>,
    pub params: Arc<Vec<V>>,
    pub cache: &'a mut HashMap<usize, Arc<Vec<Row>>>,
    pub ctes: Vec<(String, Rel)>,
    blocked: Option<Sid>,
    /// Rotation of the scan order, chosen per statement.
    rot: usize,
}

impl Db {
    pub fn new() -> Db {
        Db { next_oid: 16_384, ..Default::default() }
    }
    pub fn snapshot(&self, sid: Sid) -> Snap {
        let mut s = Snap::new();
        for (n, t) in &self.tables {
            let mut v: Vec<(u64, u64, Arc<Row>)> = vec![];
            for (id, r) in &t.rows {
                let vis = match (&r.pending, r.lock) {
                    (Some(p), Some(l)) if l == sid => p.clone(),
                    _ => r.committed.clone(),
                };
                if let Some(row) = vis {
                    v.push((r.pos, *id, row));
                }
            }
            v.sort_by_key(|x| x.0);
            s.insert(n.clone(), v.into_iter().map(|(_, i, r)| (i, r)).collect());
        }
        s
    }
    fn release(&mut self, sid: Sid) {
        self.adv.retain(|_, a| {
            if a.holder == sid {
                a.xact = 0;
            }
            a.session + a.xact > 0
        });
        self.waits.remove(&sid);
    }
    pub fn commit(&mut self, sid: Sid, x: &mut Xact) {
        for (name, id) in std::mem::take(&mut x.touched) {
            let Some(t) = self.tables.get_mut(&name) else { continue };
            let Some(s) = t.rows.get_mut(&id) else { continue };
            if s.lock != Some(sid) {
                continue;
            }
            s.lock = None;
            if let Some(p) = s.pending.take() {
                self.next_pos += 1;
                s.pos = self.next_pos;
                let old = std::mem::replace(&mut s.committed, p);
                self.changes.push(Change { table: name, sid, old, new: s.committed.clone() });
                if s.committed.is_none() {
                    t.rows.remove(&id);
                }
            }
        }
        for (on, c) in std::mem::take(&mut x.listen) {
            match (on, c) {
                (true, Some(c)) => {
                    let l = self.listeners.entry(c).or_default();
                    if !l.contains(&sid) {
                        l.push(sid);
                    }
                }
                (_, Some(c)) => {
                    self.listeners.entry(c).or_default().retain(|s| *s != sid);
                }
                _ => self.listeners.values_mut().for_each(|l| l.retain(|s| *s != sid)),
            }
        }
        for (c, p) in std::mem::take(&mut x.notify) {
            for l in self.listeners.get(&c).cloned().unwrap_or_default() {
                self.outbox.push((l, sid, c.clone(), p.clone()));
            }
        }
        *self.stats.entry("commits").or_default() += 1;
        self.release(sid);
        *x = Xact::default();
    }
    pub fn rollback(&mut self, sid: Sid, x: &mut Xact) {
        for (t, id) in std::mem::take(&mut x.touched) {
            let Some(t) = self.tables.get_mut(&t) else { continue };
            let Some(s) = t.rows.get_mut(&id) else { continue };
            if s.lock != Some(sid) {
                continue;
            }
            s.lock = None;
            s.pending = None;
            if s.committed.is_none() {
                t.rows.remove(&id);
            }
        }
        if let Some(c) = x.catalog.take() {
            self.types = c.0;
            self.funcs = c.2;
            let names: Vec<String> = self.tables.keys().cloned().collect();
            for n in names {
                match c.1.get(&n) {
                    None => {
                        self.tables.remove(&n);
                    }
                    Some((cols, trig)) => {
                        let t = self.tables.get_mut(&n).unwrap();
                        t.cols = cols.clone();
                        t.trig = trig.clone();
                        t.shape = shape(cols);
                    }
                }
            }
        }
        *self.stats.entry("rollbacks").or_default() += 1;
        self.release(sid);
        *x = Xact::default();
    }
    pub fn disconnect(&mut self, sid: Sid, x: &mut Xact) {
        self.rollback(sid, x);
        self.adv.retain(|_, a| a.holder != sid);
        self.listeners.values_mut().for_each(|l| l.retain(|s| *s != sid));
    }
    /// The server stops: running transactions are lost.
    pub fn crash(&mut self) {
        for t in self.tables.values_mut() {
            t.rows.retain(|_, s| {
                s.lock = None;
                s.pending = None;
                s.committed.is_some()
            });
        }
        self.adv.clear();
        self.waits.clear();
        self.listeners.clear();
        self.outbox.clear();
        *self.stats.entry("server_restarts").or_default() += 1;
    }
    /// Would waiting for `on` close a cycle?
    pub fn deadlock(&self, sid: Sid, on: Sid) -> bool {
        let mut cur = on;
        for _ in 0..self.waits.len() + 1 {
            if cur == sid {
                return true;
            }
            match self.waits.get(&cur) {
                Some(n) => cur = *n,
                None => return false,
            }
        }
        false
    }
    fn ty(&self, t: &TypeName) -> R<Ty> {
        match self.types.by_name(&t.name, t.array) {
            Some(t) => Ok(t),
            None => err("42704", format!("type \"{}\" does not exist", t.name)),
        }
    }
    fn table(&self, n: &str) -> R<&Table> {
        match self.tables.get(n) {
            Some(t) => Ok(t),
            None => err("42P01", format!("relation \"{n}\" does not exist")),
        }
    }
    fn catalog(&self, n: &str) -> Option<Rel> {
        let rel = |cols: &[(&str, Ty)], rows: Vec<Row>| Rel { cols: Arc::new(cols.iter().map(|(n, t)| (n.to_string(), *t)).collect()), rows: rows.into_iter().map(Arc::new).collect() };
        let o = |t: Ty| V::Int(OID, t as i64);
        let c = |c: u8| V::Int(CHAR, c as i64);
        match n {
            "pg_type" => {
                let mut v = vec![];
                for e in &self.types.enums {
                    v.push(vec![o(e.oid), V::Text(e.name.clone()), c(b'e'), c(b'E'), o(0), o(0), o(0), o(e.array)]);
                    v.push(vec![o(e.array), V::Text(format!("_{}", e.name)), c(b'b'), c(b'A'), o(0), o(e.oid), o(0), o(0)]);
                }
                for t in [BOOL, BYTEA, INT2, INT4, INT8, TEXT, VARCHAR, FLOAT8, TIMESTAMP, TIMESTAMPTZ, INTERVAL, JSON, JSONB, OID, NAME, CHAR] {
                    v.push(vec![o(t), V::Text(self.types.name(t)), c(b'b'), c(b'U'), o(0), o(0), o(0), o(self.types.array_of(t).unwrap_or(0))]);
                }
                Some(rel(&[("oid", OID), ("typname", NAME), ("typtype", CHAR), ("typcategory", CHAR), ("typrelid", OID), ("typelem", OID), ("typbasetype", OID), ("typarray", OID)], v))
            }
            "pg_enum" => {
                let mut v = vec![];
                for e in &self.types.enums {
                    for (i, l) in e.labels.iter().enumerate() {
                        v.push(vec![o(e.oid), V::Float(i as f64 + 1.0), V::Text(l.clone())]);
                    }
                }
                Some(rel(&[("enumtypid", OID), ("enumsortorder", FLOAT8), ("enumlabel", NAME)], v))
            }
            _ => None,
        }
    }

    /// Run a data definition statement.
    fn ddl(&mut self, x: &mut Xact, s: &Stmt) -> R<()> {
        if x.catalog.is_none() {
            let t = self.tables.iter().map(|(n, t)| (n.clone(), (t.cols.clone(), t.trig.clone()))).collect();
            x.catalog = Some(Box::new((self.types.clone(), t, self.funcs.clone())));
        }
        match s {
            Stmt::CreateType(n, l) => {
                if self.types.by_name(n, false).is_some() {
                    return err("42710", format!("type \"{n}\" already exists"));
                }
                self.next_oid += 2;
                self.types.enums.push(EnumTy { name: n.clone(), oid: self.next_oid, array: self.next_oid + 1, labels: l.clone() });
            }
            Stmt::CreateTable { name, if_not_exists, cols } => {
                if self.tables.contains_key(name) {
                    return if *if_not_exists { Ok(()) } else { err("42P07", format!("relation \"{name}\" already exists")) };
                }
                let cols: Vec<Col> = cols.iter().map(|c| Ok(Col { name: c.name.clone(), ty: self.ty(&c.ty)?, not_null: c.not_null, default: c.default.clone(), pk: c.pk })).collect::<R<_>>()?;
                let shape = shape(&cols);
                self.tables.insert(name.clone(), Table { cols, shape, ..Default::default() });
            }
            Stmt::AddColumn { table, if_not_exists, col } => {
                let ty = self.ty(&col.ty)?;
                self.table(table)?;
                let have = self.tables[table].cols.iter().any(|c| c.name == col.name);
                if have {
                    return if *if_not_exists { Ok(()) } else { err("42701", "column already exists") };
                }
                let types = self.types.clone();
                let mut cache = HashMap::new();
                let v = match &col.default {
                    Some(d) => {
                        let mut cx = Cx { db: self, x, sid: 0, snap: Default::default(), params: Default::default(), cache: &mut cache, ctes: vec![], blocked: None, rot: 0 };
                        cx.eval(&Env { binds: &[], outer: None }, d)?.assign(ty, &types)?
                    }
                    None => V::Null,
                };
                let t = self.tables.get_mut(table).unwrap();
                t.cols.push(Col { name: col.name.clone(), ty, not_null: col.not_null, default: col.default.clone(), pk: false });
                t.shape = shape(&t.cols);
                for s in t.rows.values_mut() {
                    if let Some(r) = &s.committed {
                        let mut n = (**r).clone();
                        n.push(v.clone());
                        s.committed = Some(Arc::new(n));
                    }
                }
            }
            Stmt::CreateFunction { name, body } => {
                self.funcs.insert(name.clone(), body.clone());
            }
            Stmt::CreateTrigger { table, trig } => {
                self.table(table)?;
                if !self.funcs.contains_key(&trig.func) {
                    return err("42883", format!("function {} does not exist", trig.func));
                }
                let t = self.tables.get_mut(table).unwrap();
                if t.trig.iter().any(|x| x.name == trig.name) {
                    return err("42710", format!("trigger \"{}\" already exists", trig.name));
                }
                t.trig.push(trig.clone());
                t.trig.sort_by(|a, b| a.name.cmp(&b.name));
            }
            Stmt::DropTable(n) => {
                self.tables.remove(n);
            }
            Stmt::DropType(n) => self.types.enums.retain(|e| e.name != *n),
            Stmt::DropTrigger(n, t) => {
                if let Some(t) = self.tables.get_mut(t) {
                    t.trig.retain(|x| x.name != *n);
                }
            }
            _ => {}
        }
        Ok(())
    }

    /// Advance a statement.
    pub fn step(&mut self, sid: Sid, x: &mut Xact, st: &mut St, rot: usize) -> R<Step> {
        let stmt = st.stmt.clone();
        match &*stmt {
            Stmt::CreateType(..)
            | Stmt::CreateTable { .. }
            | Stmt::AddColumn { .. }
            | Stmt::CreateIndex
            | Stmt::CreateFunction { .. }
            | Stmt::CreateTrigger { .. }
            | Stmt::DropTable(_)
            | Stmt::DropType(_)
            | Stmt::DropTrigger(..)
            | Stmt::DropOther => {
                self.ddl(x, &stmt)?;
                return Ok(Step::Done);
            }
            Stmt::Set => return Ok(Step::Done),
            Stmt::Listen(c) => {
                x.listen.push((true, Some(c.clone())));
                return Ok(Step::Done);
            }
            Stmt::Unlisten(c) => {
                x.listen.push((false, c.clone()));
                return Ok(Step::Done);
            }
            Stmt::Notify(c, p) => {
                if !x.notify.iter().any(|n| n.0 == *c && n.1 == *p) {
                    x.notify.push((c.clone(), p.clone()));
                }
                return Ok(Step::Done);
            }
            Stmt::Do(b) => {
                let mut cache = HashMap::new();
                let snap = Arc::new(self.snapshot(sid));
                let mut cx = Cx { db: self, x, sid, snap, params: Default::default(), cache: &mut cache, ctes: vec![], blocked: None, rot: 0 };
                cx.block(b, &[])?;
                return Ok(Step::Done);
            }
            _ => {}
        }
        let snap = match &st.snap {
            Some(s) => s.clone(),
            None => {
                let s = Arc::new(self.snapshot(sid));
                st.snap = Some(s.clone());
                if !matches!(&*stmt, Stmt::Insert { .. }) {
                    return Ok(Step::Yield);
                }
                s
            }
        };
        // WITH
        let ctes: &[(String, Stmt)] = match &*stmt {
            Stmt::Select(s) => &s.ctes,
            Stmt::Insert { ctes, .. } | Stmt::Update { ctes, .. } | Stmt::Delete { ctes, .. } => ctes,
            _ => &[],
        };
        while st.ctes.len() < ctes.len() {
            let (name, q) = &ctes[st.ctes.len()];
            if st.sub.is_none() {
                let mut s = St::new(Arc::new(q.clone()), st.params.clone());
                s.snap = Some(snap.clone());
                s.ctes = st.ctes.clone();
                st.sub = Some(Box::new(s));
            }
            let sub = st.sub.as_mut().unwrap();
            // inner WITH lists are not supported on top of the outer ones
            match self.step_body(sid, x, sub, snap.clone(), rot)? {
                Step::Done => {
                    let types: Vec<Ty> = st.params.iter().map(|p| p.ty()).collect();
                    let cols = self.describe(q, &types, &st.ctes.iter().map(|(n, r)| (n.clone(), r.cols.clone())).collect::<Vec<_>>())?;
                    let sub = st.sub.take().unwrap();
                    st.ctes.push((name.clone(), Rel { cols: Arc::new(cols), rows: sub.out.into_iter().map(Arc::new).collect() }));
                }
                s => return Ok(s),
            }
        }
        self.step_body(sid, x, st, snap, rot)
    }

    fn step_body(&mut self, sid: Sid, x: &mut Xact, st: &mut St, snap: Arc<Snap>, rot: usize) -> R<Step> {
        let stmt = st.stmt.clone();
        let mut cx = Cx { db: self, x, sid, snap, params: st.params.clone(), cache: &mut st.cache, ctes: st.ctes.clone(), blocked: None, rot };
        macro_rules! blocking {
            ($e:expr) => {
                match $e {
                    Ok(v) => v,
                    Result::Err(e) if e.code == BLOCK => return Ok(Step::Wait(cx.blocked.unwrap())),
                    Result::Err(e) => return Result::Err(e),
                }
            };
        }
        match &*stmt {
            Stmt::Select(s) => {
                let rows = blocking!(cx.select_body(s, None));
                st.affected = rows.len() as u64;
                st.out = rows;
                Ok(Step::Done)
            }
            Stmt::Insert { table, cols, src, nothing_on_conflict, ret, .. } => {
                let t = cx.db.table(table)?;
                let tcols = t.cols.clone();
                let shape = t.shape.clone();
                let names: Vec<String> = if cols.is_empty() { tcols.iter().map(|c| c.name.clone()).collect() } else { cols.clone() };
                let idx: Vec<usize> = names
                    .iter()
                    .map(|n| match tcols.iter().position(|c| c.name == *n) {
                        Some(i) => Ok(i),
                        None => err("42703", format!("column \"{n}\" of relation \"{table}\" does not exist")),
                    })
                    .collect::<R<_>>()?;
                let env = Env { binds: &[], outer: None };
                let mut rows: Vec<Vec<Option<V>>> = vec![];
                match src.as_deref() {
                    None => rows.push(vec![]),
                    Some(Select { values: Some(v), .. }) => {
                        for r in v {
                            if r.len() > idx.len() {
                                return err("42601", "INSERT has more expressions than target columns");
                            }
                            let mut o = vec![];
                            for e in r {
                                o.push(match e {
                                    E::Default => None,
                                    e => Some(blocking!(cx.eval(&env, e))),
                                });
                            }
                            rows.push(o);
                        }
                    }
                    Some(q) => {
                        for r in blocking!(cx.select_body(q, None)) {
                            rows.push(r.into_iter().map(Some).collect());
                        }
                    }
                }
                if !cols.is_empty() && rows.iter().any(|r| r.len() < idx.len()) && src.is_some() {
                    return err("42601", "INSERT has more target columns than expressions");
                }
                for r in rows {
                    let mut row: Vec<Option<V>> = vec![None; tcols.len()];
                    for (k, v) in r.into_iter().enumerate() {
                        row[idx[k]] = v;
                    }
                    let mut full = vec![];
                    for (c, v) in tcols.iter().zip(row) {
                        let v = match v {
                            Some(v) => v,
                            None => match &c.default {
                                Some(E::Func { name, .. }) if name == "__nextval" => {
                                    let t = cx.db.tables.get_mut(table).unwrap();
                                    let s = t.seq.entry(c.name.clone()).or_default();
                                    *s += 1;
                                    V::Int(c.ty, *s)
                                }
                                Some(d) => cx.eval(&env, d)?,
                                None => V::Null,
                            },
                        };
                        let v = v.assign(c.ty, &cx.db.types)?;
                        if v.is_null() && c.not_null {
                            return err("23502", format!("null value in column \"{}\" of relation \"{table}\" violates not-null constraint", c.name));
                        }
                        full.push(v);
                    }
                    let mut dup = None;
                    for (i, c) in tcols.iter().enumerate().filter(|(_, c)| c.pk) {
                        for s in cx.db.tables[table].rows.values() {
                            let hit = |r: &Option<Arc<Row>>| r.as_ref().is_some_and(|r| cmp(&r[i], &full[i]) == Some(std::cmp::Ordering::Equal));
                            if s.lock.is_some_and(|l| l != sid) && s.pending.is_some() && (hit(&s.committed) || s.pending.as_ref().is_some_and(hit)) {
                                return Ok(Step::Wait(s.lock.unwrap()));
                            }
                            let cur = s.pending.as_ref().unwrap_or(&s.committed);
                            if hit(cur) {
                                dup = Some(c.name.clone());
                            }
                        }
                    }
                    if dup.is_some() {
                        if *nothing_on_conflict {
                            continue;
                        }
                        return err("23505", format!("duplicate key value violates unique constraint \"{table}_pkey\""));
                    }
                    let row = Arc::new(full);
                    cx.db.next_row += 1;
                    cx.db.next_pos += 1;
                    let (id, pos) = (cx.db.next_row, cx.db.next_pos);
                    cx.db.tables.get_mut(table).unwrap().rows.insert(id, Slot { pos, committed: None, pending: Some(Some(row.clone())), lock: Some(sid) });
                    cx.x.touched.push((table.clone(), id));
                    let b = [Bind { alias: table.clone(), cols: shape.clone(), row: row.clone(), src: None }];
                    if !ret.is_empty() {
                        let o = cx.project(&Env { binds: &b, outer: None }, ret)?;
                        st.out.push(o);
                    }
                    st.changed.push((None, Some(row)));
                    st.affected += 1;
                }
                cx.triggers(table, &st.changed)?;
                Ok(Step::Done)
            }
            Stmt::Update { table, alias, from, wher, .. } | Stmt::Delete { table, alias, using: from, wher, .. } => {
                let t = cx.db.table(table)?;
                let shape = t.shape.clone();
                let tcols = t.cols.clone();
                let al = alias.clone().unwrap_or_else(|| table.clone());
                if st.phase == 0 {
                    let others = blocking!(cx.from(from, None));
                    let mut targets = vec![];
                    for (id, row) in cx.scan(table) {
                        for o in &others {
                            let mut b = vec![Bind { alias: al.clone(), cols: shape.clone(), row: row.clone(), src: Some((table.clone(), id)) }];
                            b.extend(o.iter().cloned());
                            let ok = match wher {
                                None => true,
                                Some(w) => matches!(blocking!(cx.eval(&Env { binds: &b, outer: None }, w)), V::Bool(true)),
                            };
                            if ok {
                                b.remove(0);
                                targets.push((id, row.clone(), b));
                                break;
                            }
                        }
                    }
                    st.targets = targets;
                    st.phase = 1;
                    return Ok(Step::Yield);
                }
                while st.next < st.targets.len() {
                    let (id, seen, joined) = st.targets[st.next].clone();
                    let Some(slot) = cx.db.tables[table].rows.get(&id) else {
                        st.next += 1;
                        continue;
                    };
                    if let Some(l) = slot.lock {
                        if l != sid {
                            return Ok(Step::Wait(l));
                        }
                    }
                    let cur = match slot.pending.as_ref().unwrap_or(&slot.committed) {
                        Some(c) => c.clone(),
                        None => {
                            st.next += 1;
                            continue;
                        }
                    };
                    let mut b = vec![Bind { alias: al.clone(), cols: shape.clone(), row: cur.clone(), src: Some((table.clone(), id)) }];
                    b.extend(joined);
                    let env = Env { binds: &b, outer: None };
                    if !Arc::ptr_eq(&cur, &seen) {
                        *cx.db.stats.entry("rows_rechecked").or_default() += 1;
                        if let Some(w) = wher {
                            if !matches!(blocking!(cx.eval(&env, w)), V::Bool(true)) {
                                *cx.db.stats.entry("rows_rechecked_out").or_default() += 1;
                                st.next += 1;
                                continue;
                            }
                        }
                    }
                    let new = match &*stmt {
                        Stmt::Update { set, .. } => {
                            let mut n = (*cur).clone();
                            for (c, e) in set {
                                let Some(i) = tcols.iter().position(|x| x.name == *c) else { return err("42703", format!("column \"{c}\" does not exist")) };
                                let v = match e {
                                    E::Default => match &tcols[i].default {
                                        Some(d) => cx.eval(&env, d)?,
                                        None => V::Null,
                                    },
                                    e => blocking!(cx.eval(&env, e)),
                                };
                                let v = v.assign(tcols[i].ty, &cx.db.types)?;
                                if v.is_null() && tcols[i].not_null {
                                    return err("23502", format!("null value in column \"{c}\" violates not-null constraint"));
                                }
                                n[i] = v;
                            }
                            Some(Arc::new(n))
                        }
                        _ => None,
                    };
                    let s = cx.db.tables.get_mut(table).unwrap().rows.get_mut(&id).unwrap();
                    s.lock = Some(sid);
                    s.pending = Some(new.clone());
                    cx.x.touched.push((table.clone(), id));
                    let ret = match &*stmt {
                        Stmt::Update { ret, .. } | Stmt::Delete { ret, .. } => ret,
                        _ => unreachable!(),
                    };
                    if !ret.is_empty() {
                        let row = new.clone().unwrap_or(cur.clone());
                        let mut b = b.clone();
                        b[0].row = row;
                        let o = cx.project(&Env { binds: &b, outer: None }, ret)?;
                        st.out.push(o);
                    }
                    st.changed.push((Some(cur), new));
                    st.affected += 1;
                    st.next += 1;
                    if st.next < st.targets.len() {
                        return Ok(Step::Yield);
                    }
                }
                cx.triggers(table, &st.changed)?;
                Ok(Step::Done)
            }
            s => unsupported(format!("statement {s:?}")),
        }
    }

    // ---- static types -------------------------------------------------------------------------

    /// The result columns of a statement; also checks names and operators like Postgres' analysis.
    pub fn describe(&self, s: &Stmt, params: &[Ty], outer_ctes: &[(String, Arc<Vec<(String, Ty)>>)]) -> R<Vec<(String, Ty)>> {
        let mut t = Tc { db: self, params, ctes: outer_ctes.to_vec() };
        match s {
            Stmt::Select(s) => t.select(s, &[]),
            Stmt::Insert { ctes, table, cols, src, ret, .. } => {
                t.with(ctes)?;
                let tb = self.table(table)?;
                for c in cols {
                    if !tb.cols.iter().any(|x| x.name == *c) {
                        return err("42703", format!("column \"{c}\" of relation \"{table}\" does not exist"));
                    }
                }
                match src.as_deref() {
                    Some(Select { values: Some(v), .. }) => {
                        for r in v {
                            for (k, e) in r.iter().enumerate() {
                                if !matches!(e, E::Default) {
                                    let ty = t.expr(&[], e)?;
                                    let c = match cols.get(k) {
                                        Some(n) => tb.cols.iter().find(|x| x.name == *n),
                                        None => tb.cols.get(k),
                                    };
                                    if let Some(c) = c {
                                        t.assignable(ty, c.ty, &c.name)?;
                                    }
                                }
                            }
                        }
                    }
                    Some(q) => {
                        t.select(q, &[])?;
                    }
                    None => {}
                }
                let sc = [vec![(table.clone(), tb.shape.clone())]];
                t.items(&sc, ret)
            }
            Stmt::Update { ctes, table, alias, set, from, wher, ret } => {
                t.with(ctes)?;
                let tb = self.table(table)?;
                let mut f = vec![(alias.clone().unwrap_or_else(|| table.clone()), tb.shape.clone())];
                for x in from {
                    t.from(x, &mut f, &[])?;
                }
                let sc = [f];
                for (c, e) in set {
                    let Some(col) = tb.cols.iter().find(|x| x.name == *c) else { return err("42703", format!("column \"{c}\" of relation \"{table}\" does not exist")) };
                    if !matches!(e, E::Default) {
                        let ty = t.expr(&sc, e)?;
                        t.assignable(ty, col.ty, c)?;
                    }
                }
                if let Some(w) = wher {
                    t.cond(&sc, w)?;
                }
                t.items(&sc, ret)
            }
            Stmt::Delete { ctes, table, alias, using, wher, ret } => {
                t.with(ctes)?;
                let tb = self.table(table)?;
                let mut f = vec![(alias.clone().unwrap_or_else(|| table.clone()), tb.shape.clone())];
                for x in using {
                    t.from(x, &mut f, &[])?;
                }
                let sc = [f];
                if let Some(w) = wher {
                    t.cond(&sc, w)?;
                }
                t.items(&sc, ret)
            }
            _ => Ok(vec![]),
        }
    }
}

fn shape(cols: &[Col]) -> Arc<Vec<(String, Ty)>> {
    Arc::new(cols.iter().map(|c| (c.name.clone(), c.ty)).collect())
}

type Frame = Vec<(String, Arc<Vec<(String, Ty)>>)>;
struct Tc<'a> {
    db: &'a Db,
    params: &'a [Ty],
    ctes: Vec<(String, Arc<Vec<(String, Ty)>>)>,
}
impl Tc<'_> {
    fn with(&mut self, ctes: &[(String, Stmt)]) -> R<()> {
        for (n, s) in ctes {
            let c = self.db.describe(s, self.params, &self.ctes)?;
            self.ctes.push((n.clone(), Arc::new(c)));
        }
        Ok(())
    }
    fn assignable(&self, from: Ty, to: Ty, c: &str) -> R<()> {
        let ok = from == to
            || from == UNKNOWN
            || is_text(to)
            || (is_num(from) && is_num(to))
            || (matches!(from, TIMESTAMP | TIMESTAMPTZ) && matches!(to, TIMESTAMP | TIMESTAMPTZ))
            || (matches!(from, JSON | JSONB) && matches!(to, JSON | JSONB))
            || match (self.db.types.elem(from), self.db.types.elem(to)) {
                (Some(a), Some(b)) => self.assignable(a, b, c).is_ok(),
                _ => false,
            };
        if ok {
            Ok(())
        } else {
            err("42804", format!("column \"{c}\" is of type {} but expression is of type {}", self.db.types.name(to), self.db.types.name(from)))
        }
    }
    fn from(&mut self, f: &From, out: &mut Frame, outer: &[Frame]) -> R<()> {
        match f {
            From::Table { name, alias } => {
                let al = alias.clone().unwrap_or_else(|| name.clone());
                if let Some((_, c)) = self.ctes.iter().rev().find(|(n, _)| n == name) {
                    out.push((al, c.clone()));
                } else if let Some(r) = self.db.catalog(name) {
                    out.push((al, r.cols));
                } else {
                    out.push((al, self.db.table(name)?.shape.clone()));
                }
            }
            From::Sub { q, alias, cols } => {
                let mut c = self.select(q, outer)?;
                for (k, n) in cols.iter().enumerate() {
                    if let Some(x) = c.get_mut(k) {
                        x.0 = n.clone();
                    }
                }
                out.push((alias.clone(), Arc::new(c)));
            }
            From::Func { e, alias, cols } => {
                let E::Func { name, args, .. } = e else { return unsupported("expression in FROM") };
                let mut fr = outer.to_vec();
                fr.push(out.clone());
                let t = match (name.as_str(), args.first()) {
                    ("unnest", Some(a)) => {
                        let t = self.expr(&fr, a)?;
                        self.db.types.elem(t).unwrap_or(TEXT)
                    }
                    ("generate_series", Some(a)) => self.expr(&fr, a)?,
                    _ => self.expr(&fr, e)?,
                };
                out.push((alias.clone(), Arc::new(vec![(cols.first().cloned().unwrap_or_else(|| alias.clone()), t)])));
            }
            From::Join { l, r, on, .. } => {
                self.from(l, out, outer)?;
                self.from(r, out, outer)?;
                if let Some(e) = on {
                    let mut fr = outer.to_vec();
                    fr.push(out.clone());
                    self.cond(&fr, e)?;
                }
            }
        }
        Ok(())
    }
    fn cond(&mut self, sc: &[Frame], e: &E) -> R<()> {
        let t = self.expr(sc, e)?;
        if t == BOOL || t == UNKNOWN {
            Ok(())
        } else {
            err("42804", format!("argument of WHERE must be type boolean, not type {}", self.db.types.name(t)))
        }
    }
    fn select(&mut self, s: &Select, outer: &[Frame]) -> R<Vec<(String, Ty)>> {
        let depth = self.ctes.len();
        self.with(&s.ctes)?;
        if let Some(v) = &s.values {
            let mut c = vec![];
            for (k, e) in v[0].iter().enumerate() {
                let t = self.expr(outer, e)?;
                c.push((format!("column{}", k + 1), if t == UNKNOWN { TEXT } else { t }));
            }
            return Ok(c);
        }
        let mut f = vec![];
        for x in &s.from {
            self.from(x, &mut f, outer)?;
        }
        let mut sc = outer.to_vec();
        sc.push(f);
        if let Some(w) = &s.wher {
            self.cond(&sc, w)?;
        }
        let cols = self.items(&sc, &s.items)?;
        for e in s.group.iter().chain(&s.having) {
            self.expr(&sc, e)?;
        }
        for o in &s.order {
            match &o.e {
                E::Num(_) => {}
                E::Col(None, n) if cols.iter().any(|c| c.0 == *n) => {}
                e => {
                    self.expr(&sc, e)?;
                }
            }
        }
        for e in s.limit.iter().chain(&s.offset) {
            let t = self.expr(&sc, e)?;
            if !is_num(t) && t != UNKNOWN {
                return err("42804", "argument of LIMIT must be type bigint");
            }
        }
        if let Some((u, _)) = &s.union {
            self.select(u, outer)?;
        }
        self.ctes.truncate(depth);
        Ok(cols)
    }
    fn items(&mut self, sc: &[Frame], items: &[(E, Option<String>)]) -> R<Vec<(String, Ty)>> {
        let mut out = vec![];
        for (e, a) in items {
            if let E::Star(q) = e {
                for (al, c) in sc.last().into_iter().flatten() {
                    if q.as_ref().is_none_or(|q| q == al) {
                        out.extend(c.iter().cloned());
                    }
                }
                continue;
            }
            let t = self.expr(sc, e)?;
            out.push((a.clone().unwrap_or_else(|| item_name(e)), if t == UNKNOWN { TEXT } else { t }));
        }
        Ok(out)
    }
    fn col(&self, sc: &[Frame], q: &Option<String>, n: &str) -> R<Ty> {
        for f in sc.iter().rev() {
            let mut hit = None;
            for (al, c) in f {
                if q.as_ref().is_some_and(|q| q != al) {
                    continue;
                }
                if let Some((_, t)) = c.iter().find(|x| x.0 == n) {
                    if hit.is_some() {
                        return err("42702", format!("column reference \"{n}\" is ambiguous"));
                    }
                    hit = Some(*t);
                }
            }
            if let Some(t) = hit {
                return Ok(t);
            }
        }
        // a whole row?
        if q.is_none() && sc.iter().flatten().any(|(al, _)| al == n) {
            return Ok(RECORD);
        }
        err("42703", format!("column \"{n}\" does not exist"))
    }
    fn comparable(&self, a: Ty, b: Ty, op: &str) -> R<()> {
        let ts = |t| matches!(t, TIMESTAMP | TIMESTAMPTZ);
        let ok = (a == b && a != JSON)
            || a == UNKNOWN
            || b == UNKNOWN
            || (is_text(a) && is_text(b))
            || (is_num(a) && is_num(b))
            || (ts(a) && ts(b))
            || match (self.db.types.elem(a), self.db.types.elem(b)) {
                // arrays must be of the same element type, apart from varchar and text
                (Some(x), Some(y)) => x == y || (is_text(x) && is_text(y)),
                _ => false,
            };
        if ok {
            Ok(())
        } else {
            err("42883", format!("operator does not exist: {} {op} {}", self.db.types.name(a), self.db.types.name(b)))
        }
    }
    fn expr(&mut self, sc: &[Frame], e: &E) -> R<Ty> {
        let ts = |t| matches!(t, TIMESTAMP | TIMESTAMPTZ);
        Ok(match e {
            E::Null | E::Str(_) | E::Default => UNKNOWN,
            E::Bool(_) => BOOL,
            E::Num(n) => {
                if n.contains(['.', 'e', 'E']) {
                    NUMERIC
                } else if n.parse::<i32>().is_ok() {
                    INT4
                } else {
                    INT8
                }
            }
            E::Param(n) => match self.params.get(n - 1) {
                Some(t) if *t != 0 => *t,
                _ => UNKNOWN,
            },
            E::Col(q, n) => self.col(sc, q, n)?,
            E::Star(_) => RECORD,
            E::Un(op, x) => {
                let t = self.expr(sc, x)?;
                if op == "not" {
                    if t != BOOL && t != UNKNOWN {
                        return err("42804", "argument of NOT must be type boolean");
                    }
                    BOOL
                } else {
                    t
                }
            }
            E::Bin(op, l, r) => {
                let a = self.expr(sc, l)?;
                let b = self.expr(sc, r)?;
                match op.as_str() {
                    "and" | "or" => {
                        for t in [a, b] {
                            if t != BOOL && t != UNKNOWN {
                                return err("42804", format!("argument of {} must be type boolean, not type {}", op.to_uppercase(), self.db.types.name(t)));
                            }
                        }
                        BOOL
                    }
                    "=" | "<>" | "<" | ">" | "<=" | ">=" => {
                        self.comparable(a, b, op)?;
                        BOOL
                    }
                    "@>" | "<@" | "&&" => {
                        self.comparable(a, b, op)?;
                        BOOL
                    }
                    "?" | "~" | "!~" | "~*" => BOOL,
                    "->" | "#>" => a,
                    "->>" | "#>>" => TEXT,
                    "||" => {
                        if self.db.types.elem(a).is_some() {
                            a
                        } else if self.db.types.elem(b).is_some() {
                            b
                        } else if a == JSONB || b == JSONB {
                            JSONB
                        } else {
                            TEXT
                        }
                    }
                    "-" if ts(a) && ts(b) => INTERVAL,
                    "-" if ts(a) && b == UNKNOWN => INTERVAL,
                    "+" | "-" if ts(a) && (b == INTERVAL || b == UNKNOWN) => a,
                    "+" if ts(b) => b,
                    "+" | "-" | "*" | "/" if a == INTERVAL || b == INTERVAL => INTERVAL,
                    "+" | "-" | "*" | "/" | "%" => {
                        if (is_num(a) || a == UNKNOWN) && (is_num(b) || b == UNKNOWN) {
                            match (a, b) {
                                (NUMERIC | FLOAT8, x) | (x, NUMERIC | FLOAT8) => {
                                    let _ = x;
                                    FLOAT8
                                }
                                (INT8, _) | (_, INT8) => INT8,
                                (UNKNOWN, x) | (x, UNKNOWN) => x,
                                _ => INT4,
                            }
                        } else {
                            return err("42883", format!("operator does not exist: {} {op} {}", self.db.types.name(a), self.db.types.name(b)));
                        }
                    }
                    o => return unsupported(format!("operator {o}")),
                }
            }
            E::Cast(x, t) => {
                self.expr(sc, x)?;
                self.db.ty(t)?
            }
            E::Case { arg, arms, other } => {
                let at = match arg {
                    Some(a) => Some(self.expr(sc, a)?),
                    None => None,
                };
                let mut t = UNKNOWN;
                for (c, v) in arms {
                    let ct = self.expr(sc, c)?;
                    if let Some(a) = at {
                        self.comparable(a, ct, "=")?;
                    }
                    let vt = self.expr(sc, v)?;
                    if t == UNKNOWN {
                        t = vt;
                    }
                }
                if let Some(o) = other {
                    let vt = self.expr(sc, o)?;
                    if t == UNKNOWN {
                        t = vt;
                    }
                }
                // All branches unknown: text.
                if t == UNKNOWN {
                    TEXT
                } else {
                    t
                }
            }
            E::InList(l, v, _) => {
                let a = self.expr(sc, l)?;
                for x in v {
                    let b = self.expr(sc, x)?;
                    self.comparable(a, b, "=")?;
                }
                BOOL
            }
            E::InSub(l, q, _) => {
                let c = self.select(q, sc)?;
                if let E::Row(v) = &**l {
                    if v.len() != c.len() {
                        return err("42601", "subquery has too few columns");
                    }
                } else {
                    let a = self.expr(sc, l)?;
                    if c.len() != 1 {
                        return err("42601", "subquery has too many columns");
                    }
                    self.comparable(a, c[0].1, "=")?;
                }
                BOOL
            }
            E::Quant { l, op, r, .. } => {
                let a = self.expr(sc, l)?;
                let b = self.expr(sc, r)?;
                if b != UNKNOWN {
                    match self.db.types.elem(b) {
                        Some(e) => self.comparable(a, e, op)?,
                        None => return err("42809", "op ANY/ALL (array) requires array on right side"),
                    }
                }
                BOOL
            }
            E::QuantSub { l, op, r, .. } => {
                let a = self.expr(sc, l)?;
                let c = self.select(r, sc)?;
                self.comparable(a, c[0].1, op)?;
                BOOL
            }
            E::Between(x, a, b, _) => {
                let t = self.expr(sc, x)?;
                let ta = self.expr(sc, a)?;
                let tb = self.expr(sc, b)?;
                self.comparable(t, ta, ">=")?;
                self.comparable(t, tb, "<=")?;
                BOOL
            }
            E::IsNull(x, _) | E::IsBool(x, _, _) => {
                self.expr(sc, x)?;
                BOOL
            }
            E::Distinct(a, b, _) => {
                let a = self.expr(sc, a)?;
                let b = self.expr(sc, b)?;
                self.comparable(a, b, "=")?;
                BOOL
            }
            E::Like(a, b, _, _) => {
                self.expr(sc, a)?;
                self.expr(sc, b)?;
                BOOL
            }
            E::Array(v) => {
                let mut t = UNKNOWN;
                for x in v {
                    let y = self.expr(sc, x)?;
                    if t == UNKNOWN {
                        t = y;
                    }
                }
                self.db.types.array_of(t).unwrap_or(1009)
            }
            E::ArraySub(q) => {
                let c = self.select(q, sc)?;
                self.db.types.array_of(c[0].1).unwrap_or(1009)
            }
            E::Row(v) => {
                for x in v {
                    self.expr(sc, x)?;
                }
                RECORD
            }
            E::Sub(q) => {
                let c = self.select(q, sc)?;
                if c.len() != 1 {
                    return err("42601", "subquery must return only one column");
                }
                c[0].1
            }
            E::Exists(q) => {
                self.select(q, sc)?;
                BOOL
            }
            E::Index(a, i) => {
                let t = self.expr(sc, a)?;
                self.expr(sc, i)?;
                self.db.types.elem(t).unwrap_or(t)
            }
            E::Field(..) => TEXT,
            E::AtTz(a, _) => match self.expr(sc, a)? {
                TIMESTAMPTZ => TIMESTAMP,
                _ => TIMESTAMPTZ,
            },
            E::Func { name, args, star, .. } => {
                let a: Vec<Ty> = args.iter().map(|x| self.expr(sc, x)).collect::<R<_>>()?;
                let f = |k: usize| a.get(k).copied().unwrap_or(UNKNOWN);
                match name.as_str() {
                    "now" | "current_timestamp" | "clock_timestamp" | "statement_timestamp" | "transaction_timestamp" | "to_timestamp" => TIMESTAMPTZ,
                    "localtimestamp" => TIMESTAMP,
                    "timezone" => match f(1) {
                        TIMESTAMPTZ => TIMESTAMP,
                        _ => TIMESTAMPTZ,
                    },
                    "date_trunc" => f(1),
                    "extract" | "date_part" => FLOAT8,
                    "make_interval" | "age" => INTERVAL,
                    "coalesce" | "greatest" | "least" | "nullif" => a.iter().copied().find(|t| *t != UNKNOWN).unwrap_or(TEXT),
                    "min" | "max" | "abs" | "mod" => f(0),
                    "sum" => INT8,
                    "count" => {
                        if !*star && a.is_empty() {
                            return err("42883", "count() needs an argument");
                        }
                        INT8
                    }
                    "bool_or" | "bool_and" => BOOL,
                    "array_agg" => self.db.types.array_of(f(0)).unwrap_or(1009),
                    "array_append" | "array_remove" | "array_cat" => {
                        let t = f(0);
                        if let (Some(e), true) = (self.db.types.elem(t), name != "array_cat") {
                            let b = f(1);
                            let ok = e == b || b == UNKNOWN || (is_text(e) && is_text(b));
                            if !ok {
                                return err("42883", format!("function {name}({}, {}) does not exist", self.db.types.name(t), self.db.types.name(b)));
                            }
                        }
                        t
                    }
                    "array_prepend" => f(1),
                    "array_length" | "cardinality" | "length" | "char_length" | "jsonb_array_length" => INT4,
                    "jsonb_build_object" | "jsonb_build_array" | "to_jsonb" | "jsonb_set" => JSONB,
                    "json_build_object" | "json_build_array" | "to_json" | "row_to_json" => JSON,
                    "lower" | "upper" | "concat" | "format" | "md5" | "current_database" | "current_setting" | "version" | "current_schema" | "set_config" | "trim" | "btrim" | "left" | "right" | "replace" | "substring" | "to_char" => TEXT,
                    "pg_notify" | "pg_advisory_xact_lock" | "pg_advisory_lock" => {
                        if name != "pg_notify" && a.iter().any(|t| *t != UNKNOWN && !is_num(*t)) {
                            return err("42883", format!("function {name}({}) does not exist", self.db.types.name(f(0))));
                        }
                        VOID
                    }
                    "pg_try_advisory_xact_lock" | "pg_try_advisory_lock" | "pg_advisory_unlock" => BOOL,
                    "pg_advisory_unlock_all" => VOID,
                    "pg_backend_pid" => INT4,
                    "hashtext" => INT4,
                    "hashtextextended" => INT8,
                    "random" => FLOAT8,
                    n => return unsupported(format!("function {n}")),
                }
            }
        })
    }
}

fn item_name(e: &E) -> String {
    match e {
        E::Col(_, n) => n.clone(),
        E::Func { name, .. } => name.clone(),
        E::Cast(x, t) => match &**x {
            E::Col(..) | E::Func { .. } => item_name(x),
            _ => t.name.clone(),
        },
        E::Case { .. } => "case".into(),
        E::Exists(_) => "exists".into(),
        E::Array(_) => "array".into(),
        E::Sub(_) => "?column?".into(),
        _ => "?column?".into(),
    }
}
fn has_agg(e: &E) -> bool {
    match e {
        E::Func { name, .. } if ["count", "min", "max", "sum", "bool_or", "bool_and", "array_agg"].contains(&name.as_str()) => true,
        E::Func { args, .. } => args.iter().any(has_agg),
        E::Un(_, a) | E::Cast(a, _) | E::IsNull(a, _) => has_agg(a),
        E::Bin(_, a, b) => has_agg(a) || has_agg(b),
        E::Case { arms, other, .. } => arms.iter().any(|(a, b)| has_agg(a) || has_agg(b)) || other.as_deref().is_some_and(has_agg),
        _ => false,
    }
}

impl Cx<'_> {
    fn scan(&self, table: &str) -> Vec<(u64, Arc<Row>)> {
        let mut v = self.snap.get(table).cloned().unwrap_or_default();
        if !v.is_empty() {
            let n = v.len();
            v.rotate_left(self.rot % n);
        }
        v
    }
    fn triggers(&mut self, table: &str, changed: &[(Option<Arc<Row>>, Option<Arc<Row>>)]) -> R<()> {
        let trig = self.db.table(table)?.trig.clone();
        let shape = self.db.table(table)?.shape.clone();
        let null = Arc::new(vec![V::Null; shape.len()]);
        for (old, new) in changed {
            for t in &trig {
                let fires = match (old, new) {
                    (None, _) => t.insert,
                    (Some(_), Some(_)) => t.update,
                    (Some(_), None) => t.delete,
                };
                if !fires {
                    continue;
                }
                let b = vec![
                    Bind { alias: "new".into(), cols: shape.clone(), row: new.clone().unwrap_or_else(|| null.clone()), src: None },
                    Bind { alias: "old".into(), cols: shape.clone(), row: old.clone().unwrap_or_else(|| null.clone()), src: None },
                ];
                if let Some(w) = &t.when {
                    if !matches!(self.eval(&Env { binds: &b, outer: None }, w)?, V::Bool(true)) {
                        continue;
                    }
                }
                let Some(f) = self.db.funcs.get(&t.func).cloned() else { return err("42883", "trigger function does not exist") };
                self.block(&f, &b)?;
            }
        }
        Ok(())
    }
    fn block(&mut self, f: &PlBlock, outer: &[Bind]) -> R<Option<V>> {
        let mut vars: Vec<(String, Ty, V)> = vec![];
        for (n, t, d) in &f.vars {
            let t = self.db.ty(t)?;
            let v = match d {
                Some(e) => {
                    let b = vars_bind(&vars, outer);
                    self.eval(&Env { binds: &b, outer: None }, e)?.cast(t, &self.db.types, true)?
                }
                None => V::Null,
            };
            vars.push((n.clone(), t, v));
        }
        match self.pl(&f.body, &mut vars, outer) {
            Result::Err(e) => {
                let name = match e.code {
                    "42710" => "duplicate_object",
                    "42P07" => "duplicate_table",
                    "23505" => "unique_violation",
                    _ => "",
                };
                match f.handlers.iter().find(|(c, _)| c == name || c == "others") {
                    Some((_, b)) => self.pl(b, &mut vars, outer),
                    None => Result::Err(e),
                }
            }
            r => r,
        }
    }
    fn pl(&mut self, body: &[PlStmt], vars: &mut Vec<(String, Ty, V)>, outer: &[Bind]) -> R<Option<V>> {
        for s in body {
            let b = vars_bind(vars, outer);
            let env = Env { binds: &b, outer: None };
            match s {
                PlStmt::Nothing => {}
                PlStmt::Assign(n, e) => {
                    let v = self.eval(&env, e)?;
                    let Some(x) = vars.iter_mut().find(|x| x.0 == *n) else { return err("42601", format!("\"{n}\" is not a known variable")) };
                    x.2 = v.cast(x.1, &self.db.types, true)?;
                }
                PlStmt::If(arms, other) => {
                    let mut done = false;
                    for (c, b2) in arms {
                        if matches!(self.eval(&env, c)?, V::Bool(true)) {
                            if let Some(v) = self.pl(b2, vars, outer)? {
                                return Ok(Some(v));
                            }
                            done = true;
                            break;
                        }
                    }
                    if !done {
                        if let Some(v) = self.pl(other, vars, outer)? {
                            return Ok(Some(v));
                        }
                    }
                }
                PlStmt::Perform(q) => {
                    self.select_body(q, Some(&env))?;
                }
                PlStmt::Return(e) => {
                    return Ok(Some(match e {
                        Some(E::Col(None, n)) if n == "new" || n == "old" => V::Null,
                        Some(e) => self.eval(&env, e)?,
                        None => V::Null,
                    }));
                }
                PlStmt::Sql(s) => match s {
                    Stmt::Select(_) | Stmt::Insert { .. } | Stmt::Update { .. } | Stmt::Delete { .. } => return unsupported("queries in functions"),
                    s => {
                        let mut x = std::mem::take(self.x);
                        let r = self.db.ddl(&mut x, s);
                        *self.x = x;
                        r?;
                    }
                },
            }
        }
        Ok(None)
    }
    fn project(&mut self, env: &Env, items: &[(E, Option<String>)]) -> R<Row> {
        let mut out = vec![];
        for (e, _) in items {
            if let E::Star(q) = e {
                for b in env.binds {
                    if q.as_ref().is_none_or(|q| *q == b.alias) {
                        out.extend(b.row.iter().cloned());
                    }
                }
                continue;
            }
            let v = self.eval(env, e)?;
            out.push(match v {
                V::Unknown(s) => V::Text(s),
                v => v,
            });
        }
        Ok(out)
    }
    fn from(&mut self, f: &[From], outer: Option<&Env>) -> R<Vec<Vec<Bind>>> {
        let mut acc: Vec<Vec<Bind>> = vec![vec![]];
        for x in f {
            let mut n = vec![];
            for a in acc {
                for r in self.from_item(x, &a, outer)? {
                    let mut v = a.clone();
                    v.extend(r);
                    n.push(v);
                }
            }
            acc = n;
        }
        Ok(acc)
    }
    fn from_item(&mut self, f: &From, left: &[Bind], outer: Option<&Env>) -> R<Vec<Vec<Bind>>> {
        let rel = |alias: &str, r: &Rel| r.rows.iter().map(|x| vec![Bind { alias: alias.into(), cols: r.cols.clone(), row: x.clone(), src: None }]).collect::<Vec<_>>();
        match f {
            From::Table { name, alias } => {
                let al = alias.clone().unwrap_or_else(|| name.clone());
                if let Some((_, r)) = self.ctes.iter().rev().find(|(n, _)| n == name) {
                    return Ok(rel(&al, r));
                }
                if let Some(r) = self.db.catalog(name) {
                    return Ok(rel(&al, &r));
                }
                let cols = self.db.table(name)?.shape.clone();
                Ok(self.scan(name).into_iter().map(|(id, row)| vec![Bind { alias: al.clone(), cols: cols.clone(), row, src: Some((name.clone(), id)) }]).collect())
            }
            From::Sub { q, alias, cols } => {
                let env = Env { binds: left, outer };
                let rows = self.select_body(q, Some(&env))?;
                let ptys: Vec<Ty> = self.params.iter().map(|p| p.ty()).collect();
                let ctes: Vec<_> = self.ctes.iter().map(|(n, r)| (n.clone(), r.cols.clone())).collect();
                let mut c = self.db.describe(&Stmt::Select(q.clone()), &ptys, &ctes).unwrap_or_default();
                for (k, n) in cols.iter().enumerate() {
                    if let Some(x) = c.get_mut(k) {
                        x.0 = n.clone();
                    }
                }
                Ok(rel(alias, &Rel { cols: Arc::new(c), rows: rows.into_iter().map(Arc::new).collect() }))
            }
            From::Func { e, alias, cols } => {
                let E::Func { name, args, .. } = e else { return unsupported("expression in FROM") };
                let env = Env { binds: left, outer };
                let a: Vec<V> = args.iter().map(|x| self.eval(&env, x)).collect::<R<_>>()?;
                let (t, vals): (Ty, Vec<V>) = match (name.as_str(), a.first()) {
                    ("unnest", Some(V::Arr(t, v))) => (*t, v.clone()),
                    ("unnest", _) => (TEXT, vec![]),
                    ("generate_series", Some(V::Int(t, lo))) => match a.get(1) {
                        Some(V::Int(_, hi)) => (*t, (*lo..=*hi).map(|i| V::Int(*t, i)).collect()),
                        _ => (INT4, vec![]),
                    },
                    _ => {
                        let v = self.eval(&env, e)?;
                        (v.ty(), vec![v])
                    }
                };
                let c = Arc::new(vec![(cols.first().cloned().unwrap_or_else(|| alias.clone()), t)]);
                Ok(rel(alias, &Rel { cols: c, rows: vals.into_iter().map(|v| Arc::new(vec![v])).collect() }))
            }
            From::Join { l, r, kind, on } => {
                let ls = self.from_item(l, left, outer)?;
                let mut out = vec![];
                for a in ls {
                    let mut lf = left.to_vec();
                    lf.extend(a.iter().cloned());
                    let rs = self.from_item(r, &lf, outer)?;
                    let mut any = false;
                    let shape: Vec<Bind> = rs.first().cloned().unwrap_or_default();
                    for b in rs {
                        let mut v = a.clone();
                        v.extend(b);
                        let mut full = left.to_vec();
                        full.extend(v.iter().cloned());
                        let ok = match on {
                            Some(e) => matches!(self.eval(&Env { binds: &full, outer }, e)?, V::Bool(true)),
                            None => true,
                        };
                        if ok {
                            any = true;
                            out.push(v);
                        }
                    }
                    if !any && *kind == Join::Left {
                        let mut v = a.clone();
                        if shape.is_empty() {
                            return unsupported("left join with an empty relation");
                        }
                        v.extend(shape.into_iter().map(|mut b| {
                            b.row = Arc::new(vec![V::Null; b.cols.len()]);
                            b.src = None;
                            b
                        }));
                        out.push(v);
                    }
                }
                Ok(out)
            }
        }
    }

    /// Run a query whose WITH list, if any, is plain.
    fn select_body(&mut self, s: &Select, outer: Option<&Env>) -> R<Vec<Row>> {
        let depth = self.ctes.len();
        for (n, q) in &s.ctes {
            if self.ctes.iter().any(|c| c.0 == *n) {
                continue; // evaluated by the statement already
            }
            let Stmt::Select(q2) = q else { return unsupported("data-modifying WITH in a subquery") };
            let rows = self.select_body(q2, outer)?;
            let ptys: Vec<Ty> = self.params.iter().map(|p| p.ty()).collect();
            let ctes: Vec<_> = self.ctes.iter().map(|(n, r)| (n.clone(), r.cols.clone())).collect();
            let c = self.db.describe(q, &ptys, &ctes)?;
            self.ctes.push((n.clone(), Rel { cols: Arc::new(c), rows: rows.into_iter().map(Arc::new).collect() }));
        }
        let r = self.select_inner(s, outer);
        self.ctes.truncate(depth);
        r
    }
    fn select_inner(&mut self, s: &Select, outer: Option<&Env>) -> R<Vec<Row>> {
        let empty = Env { binds: &[], outer };
        if let Some(v) = &s.values {
            return v.iter().map(|r| r.iter().map(|e| self.eval(&empty, e)).collect()).collect();
        }
        let count = |cx: &mut Self, e: &Option<E>| -> R<Option<usize>> {
            match e {
                None => Ok(None),
                Some(e) => match cx.eval(&empty, e)?.cast(INT8, &cx.db.types.clone(), true)? {
                    V::Null => Ok(None),
                    V::Int(_, i) if i < 0 => err("2201W", "LIMIT must not be negative"),
                    V::Int(_, i) => Ok(Some(i as usize)),
                    _ => err("42804", "argument of LIMIT must be type bigint"),
                },
            }
        };
        let limit = count(self, &s.limit)?;
        let offset = count(self, &s.offset)?.unwrap_or(0);
        let mut rows = vec![];
        for b in self.from(&s.from, outer)? {
            let ok = match &s.wher {
                Some(w) => matches!(self.eval(&Env { binds: &b, outer }, w)?, V::Bool(true)),
                None => true,
            };
            if ok {
                rows.push(b);
            }
        }
        // grouping
        if !s.group.is_empty() || s.items.iter().any(|(e, _)| has_agg(e)) {
            let mut groups: Vec<(Row, Vec<Vec<Bind>>)> = vec![];
            for b in rows {
                let k: Row = s.group.iter().map(|e| self.eval(&Env { binds: &b, outer }, e)).collect::<R<_>>()?;
                match groups.iter_mut().find(|g| g.0 == k) {
                    Some(g) => g.1.push(b),
                    None => groups.push((k, vec![b])),
                }
            }
            if s.group.is_empty() && groups.is_empty() {
                groups.push((vec![], vec![]));
            }
            let mut out: Vec<(Row, Row)> = vec![];
            for (_, g) in groups {
                if let Some(h) = &s.having {
                    if !matches!(self.agg(&g, outer, h)?, V::Bool(true)) {
                        continue;
                    }
                }
                let keys = s.order.iter().map(|o| self.agg(&g, outer, &o.e)).collect::<R<Row>>()?;
                let r = s.items.iter().map(|(e, _)| self.agg(&g, outer, e)).collect::<R<Row>>()?;
                out.push((keys, r));
            }
            sort(&mut out, &s.order)?;
            return Ok(out.into_iter().map(|x| x.1).skip(offset).take(limit.unwrap_or(usize::MAX)).collect());
        }
        // order
        let mut keyed: Vec<(Row, Vec<Bind>)> = vec![];
        for b in rows {
            let env = Env { binds: &b, outer };
            let k = s
                .order
                .iter()
                .map(|o| match &o.e {
                    E::Num(n) => {
                        let i: usize = n.parse().unwrap_or(1);
                        self.eval(&env, &s.items[i - 1].0)
                    }
                    E::Col(None, n) => match s.items.iter().find(|(_, a)| a.as_ref() == Some(n)) {
                        Some((e, _)) => self.eval(&env, e),
                        None => self.eval(&env, &o.e),
                    },
                    e => self.eval(&env, e),
                })
                .collect::<R<Row>>()?;
            keyed.push((k, b));
        }
        sort(&mut keyed, &s.order)?;
        let want = limit.map(|l| l + offset);
        let mut out: Vec<Row> = vec![];
        for (_, mut b) in keyed {
            if want == Some(out.len()) && !s.distinct && s.union.is_none() {
                break;
            }
            if let Some(wait) = s.lock {
                if !self.lock_rows(s, &mut b, wait, outer)? {
                    continue;
                }
            }
            let r = self.project(&Env { binds: &b, outer }, &s.items)?;
            if s.distinct && out.contains(&r) {
                continue;
            }
            out.push(r);
        }
        if let Some((u, all)) = &s.union {
            for r in self.select_body(u, outer)? {
                if *all || !out.contains(&r) {
                    out.push(r);
                }
            }
        }
        Ok(out.into_iter().skip(offset).take(limit.unwrap_or(usize::MAX)).collect())
    }
    /// FOR UPDATE: lock the rows, skipping or waiting; false: this row is not part of the result.
    fn lock_rows(&mut self, s: &Select, b: &mut [Bind], wait: LockWait, outer: Option<&Env>) -> R<bool> {
        let mut recheck = false;
        for k in 0..b.len() {
            let Some((t, id)) = b[k].src.clone() else { continue };
            let Some(slot) = self.db.tables[&t].rows.get(&id) else { return Ok(false) };
            if let Some(l) = slot.lock {
                if l != self.sid {
                    match wait {
                        LockWait::Skip => {
                            *self.db.stats.entry("rows_skipped_locked").or_default() += 1;
                            return Ok(false);
                        }
                        LockWait::Nowait => return err("55P03", "could not obtain lock on row"),
                        LockWait::Block => {
                            self.blocked = Some(l);
                            return err(BLOCK, "");
                        }
                    }
                }
            }
            let cur = match slot.pending.as_ref().unwrap_or(&slot.committed) {
                Some(c) => c.clone(),
                None => return Ok(false),
            };
            if !Arc::ptr_eq(&cur, &b[k].row) {
                recheck = true;
                b[k].row = cur;
            }
        }
        if recheck {
            *self.db.stats.entry("rows_rechecked").or_default() += 1;
            if let Some(w) = &s.wher {
                if !matches!(self.eval(&Env { binds: b, outer }, w)?, V::Bool(true)) {
                    *self.db.stats.entry("rows_rechecked_out").or_default() += 1;
                    return Ok(false);
                }
            }
        }
        for x in b.iter() {
            let Some((t, id)) = x.src.clone() else { continue };
            let slot = self.db.tables.get_mut(&t).unwrap().rows.get_mut(&id).unwrap();
            if slot.lock != Some(self.sid) {
                slot.lock = Some(self.sid);
                self.x.touched.push((t, id));
            }
        }
        Ok(true)
    }
    fn agg(&mut self, g: &[Vec<Bind>], outer: Option<&Env>, e: &E) -> R<V> {
        if let E::Func { name, args, star, distinct } = e {
            if has_agg(e) && ["count", "min", "max", "sum", "bool_or", "bool_and", "array_agg"].contains(&name.as_str()) {
                let mut vals = vec![];
                for b in g {
                    if *star {
                        vals.push(V::Bool(true));
                        continue;
                    }
                    let v = self.eval(&Env { binds: b, outer }, &args[0])?;
                    if !v.is_null() && !(*distinct && vals.contains(&v)) {
                        vals.push(v);
                    }
                }
                return Ok(match name.as_str() {
                    "count" => V::Int(INT8, vals.len() as i64),
                    "sum" if vals.is_empty() => V::Null,
                    "sum" => V::Int(INT8, vals.iter().map(|v| if let V::Int(_, i) = v { *i } else { 0 }).sum()),
                    "bool_or" => V::Bool(vals.contains(&V::Bool(true))),
                    "bool_and" => V::Bool(!vals.contains(&V::Bool(false))),
                    "array_agg" => {
                        if vals.is_empty() {
                            V::Null
                        } else {
                            V::Arr(vals[0].ty(), vals)
                        }
                    }
                    m => {
                        let mut best = V::Null;
                        for v in vals {
                            if best.is_null() || cmp(&v, &best) == Some(if m == "min" { std::cmp::Ordering::Less } else { std::cmp::Ordering::Greater }) {
                                best = v;
                            }
                        }
                        best
                    }
                });
            }
        }
        match e {
            e if !has_agg(e) => match g.first() {
                Some(b) => self.eval(&Env { binds: b, outer }, e),
                None => self.eval(&Env { binds: &[], outer }, e),
            },
            E::Bin(op, a, b) => {
                let a = self.agg(g, outer, a)?;
                let b = self.agg(g, outer, b)?;
                self.bin(op, a, b)
            }
            E::Cast(a, t) => {
                let t = self.db.ty(t)?;
                let v = self.agg(g, outer, a)?;
                v.cast(t, &self.db.types, true)
            }
            E::Func { name, args, .. } if name == "coalesce" => {
                for a in args {
                    let v = self.agg(g, outer, a)?;
                    if !v.is_null() {
                        return Ok(v);
                    }
                }
                Ok(V::Null)
            }
            _ => unsupported("expression over aggregates"),
        }
    }
    fn subquery(&mut self, q: &Arc<Select>, env: &Env) -> R<Arc<Vec<Row>>> {
        // A query that does not look at the outer row is evaluated once per statement.
        let key = Arc::as_ptr(q) as usize;
        if let Some(r) = self.cache.get(&key) {
            return Ok(r.clone());
        }
        let ptys: Vec<Ty> = self.params.iter().map(|p| p.ty()).collect();
        let ctes: Vec<_> = self.ctes.iter().map(|(n, r)| (n.clone(), r.cols.clone())).collect();
        let independent = match self.db.describe(&Stmt::Select(q.clone()), &ptys, &ctes) {
            Ok(_) => true,
            Result::Err(e) if e.code == "42703" => false,
            Result::Err(e) => return Result::Err(e),
        };
        let r = Arc::new(self.select_body(q, if independent { None } else { Some(env) })?);
        if independent {
            self.cache.insert(key, r.clone());
        }
        Ok(r)
    }
    fn boolean(&self, v: V) -> R<Option<bool>> {
        match v {
            V::Null => Ok(None),
            V::Bool(b) => Ok(Some(b)),
            V::Unknown(s) => match V::from_text(&s, BOOL, &self.db.types)? {
                V::Bool(b) => Ok(Some(b)),
                _ => Ok(None),
            },
            v => err("42804", format!("argument must be type boolean, not {}", self.db.types.name(v.ty()))),
        }
    }
    fn compare(&self, op: &str, a: V, b: V) -> R<V> {
        if a.is_null() || b.is_null() {
            return Ok(V::Null);
        }
        let (a, b) = unify(a, b, &self.db.types)?;
        let Some(o) = cmp(&a, &b) else {
            return err("42883", format!("operator does not exist: {} {op} {}", self.db.types.name(a.ty()), self.db.types.name(b.ty())));
        };
        Ok(V::Bool(match op {
            "=" => o.is_eq(),
            "<>" => o.is_ne(),
            "<" => o.is_lt(),
            ">" => o.is_gt(),
            "<=" => o.is_le(),
            ">=" => o.is_ge(),
            _ => return unsupported(format!("operator {op}")),
        }))
    }
    fn bin(&mut self, op: &str, a: V, b: V) -> R<V> {
        if let "=" | "<>" | "<" | ">" | "<=" | ">=" = op {
            return self.compare(op, a, b);
        }
        if a.is_null() || b.is_null() {
            return Ok(V::Null);
        }
        let ty = self.db.types.clone();
        let no = |a: &V, b: &V| err("42883", format!("operator does not exist: {} {op} {}", ty.name(a.ty()), ty.name(b.ty())));
        Ok(match (op, a, b) {
            ("+" | "-" | "*" | "/" | "%", V::Int(t, x), V::Int(u, y)) => {
                let (x, y) = (x as i128, y as i128);
                let t = if t == INT8 || u == INT8 { INT8 } else { INT4 };
                let r = match op {
                    "+" => x + y,
                    "-" => x - y,
                    "*" => x * y,
                    _ if y == 0 => return err("22012", "division by zero"),
                    "/" => x / y,
                    _ => x % y,
                };
                V::int(t, r)?
            }
            ("+" | "-" | "*" | "/", V::Float(x), y @ (V::Float(_) | V::Int(..))) | ("+" | "-" | "*" | "/", y @ V::Int(..), V::Float(x)) if matches!(y, V::Float(_)) || op == "+" || op == "*" => {
                let y = match y {
                    V::Float(f) => f,
                    V::Int(_, i) => i as f64,
                    _ => 0.0,
                };
                V::Float(match op {
                    "+" => x + y,
                    "-" => x - y,
                    "*" => x * y,
                    _ => x / y,
                })
            }
            ("-", V::Ts(_, x), V::Ts(_, y)) => V::Interval(x - y),
            ("-", V::Ts(t, x), V::Interval(y)) => V::ts(t, x.checked_sub(y))?,
            ("+", V::Ts(t, x), V::Interval(y)) | ("+", V::Interval(y), V::Ts(t, x)) => V::ts(t, x.checked_add(y))?,
            ("+", V::Interval(x), V::Interval(y)) => V::Interval(x + y),
            ("-", V::Interval(x), V::Interval(y)) => V::Interval(x - y),
            ("*", V::Interval(x), V::Int(_, y)) | ("*", V::Int(_, y), V::Interval(x)) => V::Interval(x * y),
            ("*", V::Interval(x), V::Float(y)) | ("*", V::Float(y), V::Interval(x)) => V::Interval((x as f64 * y) as i64),
            ("/", V::Interval(x), V::Int(_, y)) => V::Interval(x / y),
            (o @ ("+" | "-"), a @ V::Ts(..), V::Unknown(s)) => {
                let b = if o == "-" && parse_interval(&s).is_none() { V::from_text(&s, a.ty(), &ty)? } else { V::from_text(&s, INTERVAL, &ty)? };
                return self.bin(o, a, b);
            }
            (o, V::Unknown(s), b) if !matches!(b, V::Unknown(_)) => {
                let t = b.ty();
                return self.bin(o, V::from_text(&s, t, &ty)?, b);
            }
            (o @ ("+" | "-" | "*" | "/" | "@>" | "<@" | "&&"), a, V::Unknown(s)) => {
                let t = a.ty();
                return self.bin(o, a, V::from_text(&s, t, &ty)?);
            }
            ("@>", V::Arr(_, x), V::Arr(_, y)) => V::Bool(y.iter().all(|b| x.iter().any(|a| cmp(a, b) == Some(std::cmp::Ordering::Equal)))),
            ("<@", a @ V::Arr(..), b @ V::Arr(..)) => return self.bin("@>", b, a),
            ("&&", V::Arr(_, x), V::Arr(_, y)) => V::Bool(y.iter().any(|b| x.iter().any(|a| cmp(a, b) == Some(std::cmp::Ordering::Equal)))),
            ("@>", V::Json(_, x), V::Json(_, y)) => V::Bool(contains(&x, &y)),
            ("<@", V::Json(_, x), V::Json(_, y)) => V::Bool(contains(&y, &x)),
            ("->", V::Json(t, j), V::Text(k) | V::Unknown(k)) => j.get(&k).map(|v| V::Json(t, v.clone())).unwrap_or(V::Null),
            ("->", V::Json(t, j), V::Int(_, i)) => j.get(i as usize).map(|v| V::Json(t, v.clone())).unwrap_or(V::Null),
            ("->>", V::Json(_, j), k) => {
                let v = match &k {
                    V::Text(k) | V::Unknown(k) => j.get(k),
                    V::Int(_, i) => j.get(*i as usize),
                    _ => None,
                };
                match v {
                    None | Some(serde_json::Value::Null) => V::Null,
                    Some(serde_json::Value::String(s)) => V::Text(s.clone()),
                    Some(x) => V::Text(x.to_string()),
                }
            }
            ("?", V::Json(_, j), V::Text(k) | V::Unknown(k)) => V::Bool(j.get(&k).is_some()),
            ("||", V::Arr(t, mut x), V::Arr(_, y)) => {
                x.extend(y);
                V::Arr(t, x)
            }
            ("||", V::Arr(t, mut x), y) => {
                x.push(y.cast(t, &ty, false)?);
                V::Arr(t, x)
            }
            ("||", x, V::Arr(t, mut y)) => {
                y.insert(0, x.cast(t, &ty, false)?);
                V::Arr(t, y)
            }
            ("||", V::Json(t, x), V::Json(_, y)) => match (x, y) {
                (serde_json::Value::Object(mut a), serde_json::Value::Object(b)) => {
                    a.extend(b);
                    V::Json(t, serde_json::Value::Object(a))
                }
                _ => return unsupported("jsonb concatenation"),
            },
            ("||", x, y) => V::Text(format!("{}{}", x.text(&ty), y.text(&ty))),
            (_, a, b) => return no(&a, &b),
        })
    }
    pub fn eval(&mut self, env: &Env, e: &E) -> R<V> {
        Ok(match e {
            E::Null | E::Default => V::Null,
            E::Bool(b) => V::Bool(*b),
            E::Num(n) => {
                if n.contains(['.', 'e', 'E']) {
                    V::Float(n.parse().unwrap_or(0.0))
                } else {
                    let i: i64 = match n.parse() {
                        Ok(i) => i,
                        _ => return err("22003", "number out of range"),
                    };
                    V::Int(if i32::try_from(i).is_ok() { INT4 } else { INT8 }, i)
                }
            }
            E::Str(s) => V::Unknown(s.clone()),
            E::Param(n) => match self.params.get(n - 1) {
                Some(v) => v.clone(),
                None => return err("42P02", format!("there is no parameter ${n}")),
            },
            E::Col(q, n) => {
                let mut cur = Some(env);
                while let Some(f) = cur {
                    for b in f.binds {
                        if q.as_ref().is_some_and(|q| *q != b.alias) {
                            continue;
                        }
                        if let Some(i) = b.cols.iter().position(|c| c.0 == *n) {
                            return Ok(b.row[i].clone());
                        }
                    }
                    cur = f.outer;
                }
                return err("42703", format!("column \"{n}\" does not exist"));
            }
            E::Star(_) => return err("42601", "* is not allowed here"),
            E::Un(op, x) => {
                let v = self.eval(env, x)?;
                if op == "not" {
                    match self.boolean(v)? {
                        None => V::Null,
                        Some(b) => V::Bool(!b),
                    }
                } else {
                    match v {
                        V::Null => V::Null,
                        V::Int(t, i) => V::int(t, -(i as i128))?,
                        V::Float(f) => V::Float(-f),
                        V::Interval(i) => V::Interval(-i),
                        _ => return unsupported("unary minus"),
                    }
                }
            }
            E::Bin(op, l, r) => match op.as_str() {
                "and" => {
                    let v = self.eval(env, l)?;
                    let a = self.boolean(v)?;
                    if a == Some(false) {
                        return Ok(V::Bool(false));
                    }
                    let v = self.eval(env, r)?;
                    match (a, self.boolean(v)?) {
                        (_, Some(false)) => V::Bool(false),
                        (Some(true), Some(true)) => V::Bool(true),
                        _ => V::Null,
                    }
                }
                "or" => {
                    let v = self.eval(env, l)?;
                    let a = self.boolean(v)?;
                    if a == Some(true) {
                        return Ok(V::Bool(true));
                    }
                    let v = self.eval(env, r)?;
                    match (a, self.boolean(v)?) {
                        (_, Some(true)) => V::Bool(true),
                        (Some(false), Some(false)) => V::Bool(false),
                        _ => V::Null,
                    }
                }
                op => {
                    let a = self.eval(env, l)?;
                    let b = self.eval(env, r)?;
                    self.bin(op, a, b)?
                }
            },
            E::Cast(x, t) => {
                let t = self.db.ty(t)?;
                let v = self.eval(env, x)?;
                v.cast(t, &self.db.types, true)?
            }
            E::Case { arg, arms, other } => {
                let a = match arg {
                    Some(a) => Some(self.eval(env, a)?),
                    None => None,
                };
                for (c, v) in arms {
                    let c = self.eval(env, c)?;
                    let hit = match &a {
                        Some(a) => matches!(self.compare("=", a.clone(), c)?, V::Bool(true)),
                        None => self.boolean(c)? == Some(true),
                    };
                    if hit {
                        return Ok(text_if_unknown(self.eval(env, v)?));
                    }
                }
                match other {
                    Some(o) => text_if_unknown(self.eval(env, o)?),
                    None => V::Null,
                }
            }
            E::InList(l, v, neg) => {
                let a = self.eval(env, l)?;
                let vals: Vec<V> = v.iter().map(|x| self.eval(env, x)).collect::<R<_>>()?;
                self.any("=", a, &vals, false, *neg)?
            }
            E::InSub(l, q, neg) => {
                let rows = self.subquery(q, env)?;
                if let E::Row(_) = &**l {
                    let a = self.eval(env, l)?;
                    let vals: Vec<V> = rows.iter().map(|r| V::Row(r.clone())).collect();
                    return self.any("=", a, &vals, false, *neg);
                }
                let a = self.eval(env, l)?;
                let vals: Vec<V> = rows.iter().map(|r| r[0].clone()).collect();
                self.any("=", a, &vals, false, *neg)?
            }
            E::Quant { l, op, all, r } => {
                let a = self.eval(env, l)?;
                match self.eval(env, r)? {
                    V::Null => V::Null,
                    V::Arr(_, v) => self.any(op, a, &v, *all, false)?,
                    V::Unknown(s) => {
                        let t = self.db.types.array_of(a.ty()).unwrap_or(1009);
                        match V::from_text(&s, t, &self.db.types)? {
                            V::Arr(_, v) => self.any(op, a, &v, *all, false)?,
                            _ => V::Null,
                        }
                    }
                    _ => return err("42809", "op ANY/ALL (array) requires array on right side"),
                }
            }
            E::QuantSub { l, op, all, r } => {
                let a = self.eval(env, l)?;
                let rows = self.subquery(r, env)?;
                let vals: Vec<V> = rows.iter().map(|r| r[0].clone()).collect();
                self.any(op, a, &vals, *all, false)?
            }
            E::Between(x, a, b, neg) => {
                let v = self.eval(env, x)?;
                let a = self.eval(env, a)?;
                let b = self.eval(env, b)?;
                let lo = self.compare(">=", v.clone(), a)?;
                let hi = self.compare("<=", v, b)?;
                match (lo, hi) {
                    (V::Bool(false), _) | (_, V::Bool(false)) => V::Bool(*neg),
                    (V::Bool(true), V::Bool(true)) => V::Bool(!*neg),
                    _ => V::Null,
                }
            }
            E::IsNull(x, neg) => V::Bool(self.eval(env, x)?.is_null() != *neg),
            E::IsBool(x, want, neg) => {
                let v = self.eval(env, x)?;
                let b = self.boolean(v)?;
                V::Bool((b == *want) != *neg)
            }
            E::Distinct(a, b, neg) => {
                let a = self.eval(env, a)?;
                let b = self.eval(env, b)?;
                let d = match (a.is_null(), b.is_null()) {
                    (true, true) => false,
                    (true, false) | (false, true) => true,
                    _ => !matches!(self.compare("=", a, b)?, V::Bool(true)),
                };
                V::Bool(d != *neg)
            }
            E::Like(a, b, ci, neg) => {
                let a = self.eval(env, a)?;
                let b = self.eval(env, b)?;
                if a.is_null() || b.is_null() {
                    return Ok(V::Null);
                }
                let (mut a, mut b) = (a.text(&self.db.types), b.text(&self.db.types));
                if *ci {
                    a = a.to_lowercase();
                    b = b.to_lowercase();
                }
                V::Bool(like(&a.chars().collect::<Vec<_>>(), &b.chars().collect::<Vec<_>>()) != *neg)
            }
            E::Array(v) => {
                let vals: Vec<V> = v.iter().map(|x| self.eval(env, x)).collect::<R<_>>()?;
                let t = vals.iter().map(|x| x.ty()).find(|t| *t != UNKNOWN).unwrap_or(TEXT);
                V::Arr(t, vals.into_iter().map(|x| x.cast(t, &self.db.types, true)).collect::<R<_>>()?)
            }
            E::ArraySub(q) => {
                let rows = self.subquery(q, env)?;
                let vals: Vec<V> = rows.iter().map(|r| r[0].clone()).collect();
                V::Arr(vals.first().map(|v| v.ty()).unwrap_or(TEXT), vals)
            }
            E::Row(v) => V::Row(v.iter().map(|x| self.eval(env, x)).collect::<R<_>>()?),
            E::Sub(q) => {
                let rows = self.subquery(q, env)?;
                match rows.len() {
                    0 => V::Null,
                    1 => rows[0][0].clone(),
                    _ => return err("21000", "more than one row returned by a subquery used as an expression"),
                }
            }
            E::Exists(q) => V::Bool(!self.subquery(q, env)?.is_empty()),
            E::Index(a, i) => {
                let a = self.eval(env, a)?;
                let i = self.eval(env, i)?;
                match (a, i) {
                    (V::Arr(_, v), V::Int(_, i)) => v.get((i - 1).max(-1) as usize).cloned().unwrap_or(V::Null),
                    _ => V::Null,
                }
            }
            E::Field(..) => return unsupported("field selection"),
            E::AtTz(a, z) => {
                let z = self.eval(env, z)?;
                let a = self.eval(env, a)?;
                self.timezone(z, a)?
            }
            E::Func { name, args, .. } => self.func(env, name, args)?,
        })
    }
    fn timezone(&mut self, z: V, a: V) -> R<V> {
        let z = z.text(&self.db.types).to_lowercase();
        if z != "utc" && z != "etc/utc" && z != "gmt" {
            return unsupported(format!("time zone {z}"));
        }
        Ok(match a {
            V::Null => V::Null,
            V::Ts(TIMESTAMPTZ, us) => V::Ts(TIMESTAMP, us),
            V::Ts(_, us) => V::Ts(TIMESTAMPTZ, us),
            _ => return err("42883", "function timezone does not exist"),
        })
    }
    /// l op ANY/ALL (values), or its negation.
    fn any(&mut self, op: &str, a: V, vals: &[V], all: bool, neg: bool) -> R<V> {
        let mut null = a.is_null() && !vals.is_empty();
        for v in vals {
            let r = match op {
                "=" | "<>" | "<" | ">" | "<=" | ">=" => self.compare(op, a.clone(), v.clone())?,
                o => self.bin(o, a.clone(), v.clone())?,
            };
            match r {
                V::Null => null = true,
                V::Bool(b) if b != all => return Ok(V::Bool(!all != neg)),
                _ => {}
            }
        }
        Ok(if null { V::Null } else { V::Bool(all != neg) })
    }
    fn func(&mut self, env: &Env, name: &str, args: &[E]) -> R<V> {
        if name == "coalesce" {
            for a in args {
                let v = self.eval(env, a)?;
                if !v.is_null() {
                    return Ok(v);
                }
            }
            return Ok(V::Null);
        }
        let a: Vec<V> = args.iter().map(|x| self.eval(env, x)).collect::<R<_>>()?;
        let ty = self.db.types.clone();
        let text = |k: usize| a.get(k).map(|v: &V| v.text(&ty)).unwrap_or_default();
        let strict_null = a.iter().any(|v| v.is_null());
        let lock_key = |a: &[V]| -> R<i64> {
            match a {
                [v] => match v.clone().cast(INT8, &ty, true)? {
                    V::Int(_, i) => Ok(i),
                    _ => err("42883", "bad advisory lock key"),
                },
                [V::Int(_, x), V::Int(_, y)] => Ok((*x << 32) ^ (*y & 0xffff_ffff) ^ (1 << 62)),
                _ => err("42883", "bad advisory lock key"),
            }
        };
        Ok(match name {
            "now" | "current_timestamp" | "transaction_timestamp" | "statement_timestamp" => V::Ts(TIMESTAMPTZ, self.x.now_us),
            "clock_timestamp" => V::Ts(TIMESTAMPTZ, utc_to_ts(chrono::Utc::now())),
            "localtimestamp" => V::Ts(TIMESTAMP, self.x.now_us),
            "timezone" => {
                if strict_null {
                    return Ok(V::Null);
                }
                self.timezone(a[0].clone(), a[1].clone())?
            }
            "date_trunc" => match (text(0).as_str(), &a[1]) {
                (u, V::Ts(t, us)) => {
                    let k = match u {
                        "microseconds" => 1,
                        "milliseconds" => 1_000,
                        "second" | "seconds" => 1_000_000,
                        "minute" => 60_000_000,
                        "hour" => 3_600_000_000,
                        "day" => 86_400_000_000,
                        _ => return unsupported("date_trunc unit"),
                    };
                    V::Ts(*t, us.div_euclid(k) * k)
                }
                _ => return unsupported("date_trunc"),
            },
            "greatest" | "least" => {
                let mut best = V::Null;
                for v in a {
                    if v.is_null() {
                        continue;
                    }
                    if best.is_null() {
                        best = v;
                        continue;
                    }
                    let (x, y) = unify(v, best.clone(), &ty)?;
                    let o = cmp(&x, &y);
                    best = if o == Some(if name == "least" { std::cmp::Ordering::Less } else { std::cmp::Ordering::Greater }) { x } else { y };
                }
                best
            }
            "nullif" => {
                if matches!(self.compare("=", a[0].clone(), a[1].clone())?, V::Bool(true)) {
                    V::Null
                } else {
                    a[0].clone()
                }
            }
            "abs" => match &a[0] {
                V::Int(t, i) => V::Int(*t, i.abs()),
                V::Float(f) => V::Float(f.abs()),
                v => v.clone(),
            },
            "array_append" => match (a[0].clone(), a[1].clone()) {
                (V::Arr(t, mut v), x) => {
                    v.push(x.cast(t, &ty, false)?);
                    V::Arr(t, v)
                }
                (V::Null, x) => V::Arr(x.ty(), vec![x]),
                _ => return err("42883", "array_append needs an array"),
            },
            "array_prepend" => match (a[0].clone(), a[1].clone()) {
                (x, V::Arr(t, mut v)) => {
                    v.insert(0, x.cast(t, &ty, false)?);
                    V::Arr(t, v)
                }
                _ => return err("42883", "array_prepend needs an array"),
            },
            "array_cat" => match (a[0].clone(), a[1].clone()) {
                (V::Arr(t, mut v), V::Arr(_, w)) => {
                    v.extend(w);
                    V::Arr(t, v)
                }
                (V::Null, x) | (x, V::Null) => x,
                _ => return err("42883", "array_cat needs arrays"),
            },
            "array_length" => match &a[0] {
                V::Arr(_, v) if !v.is_empty() => V::Int(INT4, v.len() as i64),
                _ => V::Null,
            },
            "cardinality" => match &a[0] {
                V::Arr(_, v) => V::Int(INT4, v.len() as i64),
                _ => V::Null,
            },
            "length" | "char_length" => {
                if strict_null {
                    return Ok(V::Null);
                }
                V::Int(INT4, text(0).chars().count() as i64)
            }
            "jsonb_build_object" | "json_build_object" => {
                if a.len() % 2 != 0 {
                    return err("22023", "argument list must have even number of elements");
                }
                let mut m = serde_json::Map::new();
                for p in a.chunks(2) {
                    if p[0].is_null() {
                        return err("22023", "null value not allowed for object key");
                    }
                    m.insert(p[0].text(&ty), p[1].json(&ty));
                }
                let t = if name == "jsonb_build_object" { JSONB } else { JSON };
                V::Json(JSON, serde_json::Value::Object(m)).cast(t, &ty, true)?
            }
            "to_jsonb" | "to_json" => {
                let t = if name == "to_jsonb" { JSONB } else { JSON };
                V::Json(JSON, a[0].json(&ty)).cast(t, &ty, true)?
            }
            "lower" | "upper" => {
                if strict_null {
                    return Ok(V::Null);
                }
                V::Text(if name == "lower" { text(0).to_lowercase() } else { text(0).to_uppercase() })
            }
            "concat" => V::Text(a.iter().map(|v| v.text(&ty)).collect()),
            "current_database" => V::Text("sim".into()),
            "current_schema" => V::Text("public".into()),
            "version" => V::Text("PostgreSQL 16.0 (simulated)".into()),
            "current_setting" => V::Text(match text(0).as_str() {
                "server_version_num" => "160000".into(),
                _ => String::new(),
            }),
            "set_config" => V::Text(text(1)),
            "pg_backend_pid" => V::Int(INT4, self.sid as i64),
            "pg_notify" => {
                let (c, p) = (text(0), text(1));
                if c.is_empty() {
                    return err("22023", "channel name cannot be empty");
                }
                if p.len() >= 8000 {
                    return err("22023", "payload string too long");
                }
                if !self.x.notify.iter().any(|n| n.0 == c && n.1 == p) {
                    self.x.notify.push((c, p));
                }
                V::Void
            }
            "pg_advisory_xact_lock" | "pg_advisory_lock" | "pg_try_advisory_xact_lock" | "pg_try_advisory_lock" => {
                if strict_null {
                    return Ok(V::Null);
                }
                let k = lock_key(&a)?;
                let sid = self.sid;
                let xact = name.contains("xact");
                let tr = name.contains("_try_");
                let l = self.db.adv.entry(k).or_insert(Adv { holder: sid, session: 0, xact: 0 });
                if l.holder != sid {
                    if tr {
                        return Ok(V::Bool(false));
                    }
                    self.blocked = Some(l.holder);
                    return err(BLOCK, "");
                }
                if xact {
                    l.xact += 1;
                } else {
                    l.session += 1;
                }
                if tr {
                    V::Bool(true)
                } else {
                    V::Void
                }
            }
            "pg_advisory_unlock" => {
                let k = lock_key(&a)?;
                let sid = self.sid;
                let ok = match self.db.adv.get_mut(&k) {
                    Some(l) if l.holder == sid && l.session > 0 => {
                        l.session -= 1;
                        true
                    }
                    _ => false,
                };
                self.db.adv.retain(|_, l| l.session + l.xact > 0);
                V::Bool(ok)
            }
            "__nextval" => return unsupported("nextval here"),
            n => return unsupported(format!("function {n}")),
        })
    }
}

fn text_if_unknown(v: V) -> V {
    match v {
        V::Unknown(s) => V::Unknown(s),
        v => v,
    }
}
fn vars_bind(vars: &[(String, Ty, V)], outer: &[Bind]) -> Vec<Bind> {
    let mut b = vec![Bind {
        alias: "".into(),
        cols: Arc::new(vars.iter().map(|v| (v.0.clone(), v.1)).collect()),
        row: Arc::new(vars.iter().map(|v| v.2.clone()).collect()),
        src: None,
    }];
    b.extend(outer.iter().cloned());
    b
}
fn like(s: &[char], p: &[char]) -> bool {
    match p.first() {
        None => s.is_empty(),
        Some('%') => (0..=s.len()).any(|k| like(&s[k..], &p[1..])),
        Some('_') => !s.is_empty() && like(&s[1..], &p[1..]),
        Some(c) => s.first() == Some(c) && like(&s[1..], &p[1..]),
    }
}
fn contains(a: &serde_json::Value, b: &serde_json::Value) -> bool {
    use serde_json::Value as J;
    match (a, b) {
        (J::Object(x), J::Object(y)) => y.iter().all(|(k, v)| x.get(k).is_some_and(|w| contains(w, v))),
        (J::Array(x), J::Array(y)) => y.iter().all(|v| x.iter().any(|w| contains(w, v))),
        (J::Array(x), y) => x.contains(y),
        _ => a == b,
    }
}
fn sort<T>(rows: &mut [(Row, T)], order: &[Order]) -> R<()> {
    if order.is_empty() {
        return Ok(());
    }
    let mut bad = None;
    rows.sort_by(|a, b| {
        for (k, o) in order.iter().enumerate() {
            let (x, y) = (&a.0[k], &b.0[k]);
            let nf = o.nulls_first.unwrap_or(o.desc);
            let r = match (x.is_null(), y.is_null()) {
                (true, true) => std::cmp::Ordering::Equal,
                (true, false) => return if nf { std::cmp::Ordering::Less } else { std::cmp::Ordering::Greater },
                (false, true) => return if nf { std::cmp::Ordering::Greater } else { std::cmp::Ordering::Less },
                _ => match cmp(x, y) {
                    Some(r) => r,
                    None => {
                        bad = Some(());
                        std::cmp::Ordering::Equal
                    }
                },
            };
            let r = if o.desc { r.reverse() } else { r };
            if r.is_ne() {
                return r;
            }
        }
        std::cmp::Ordering::Equal
    });
    match bad {
        Some(_) => err("42883", "could not identify an ordering operator"),
        None => Ok(()),
    }
}
