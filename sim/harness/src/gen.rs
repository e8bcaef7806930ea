//! Scenario generators, one family per property. Everything is a function of (property, seed,
//! depth).
use crate::scen::*;
use crate::world::{BLOCKING, LIMIT, MAXATT};
use simrt::Rng;

pub struct G {
    pub r: Rng,
    next_op: u32,
    next_uid: u64,
    pub deep: bool,
}

const TEXTS: [&str; 6] = ["", "plain", "quote \" ' \\ ", "ünïcödé 🦀", "{\"json\": [1, null]}", "a\nb\tc"];

impl G {
    fn n(&mut self, lo: i64, hi: i64) -> i64 {
        self.r.range(lo, hi)
    }
    fn p(&mut self, permille: u64) -> bool {
        self.r.chance(permille)
    }
    fn op_id(&mut self) -> u32 {
        self.next_op += 1;
        self.next_op
    }
    fn text(&mut self) -> String {
        let t = *self.r.pick(&TEXTS);
        if self.p(300) {
            format!("{t}{}", self.r.below(1000))
        } else {
            t.to_string()
        }
    }
    fn run_cfg(&mut self) -> RunCfg {
        let mt = self.p(750);
        RunCfg {
            policy: self.r.below(5) as u8,
            mt,
            preempt: *self.r.pick(&[30, 150, 300, 600]),
            cost_ns: *self.r.pick(&[300, 2000, 6000]),
            epoch_s: self.r.below(400 * 86400),
            epoch_sub_ms: self.r.below(1000),
        }
    }
    fn base(&mut self, prop: &str, seed: u64) -> Scenario {
        Scenario {
            prop: prop.into(),
            seed,
            backend: Bk::Mem,
            direct: false,
            nodes: vec![],
            clients: vec![],
            faults: Faults::default(),
            horizon_ms: 90_000,
            tick_ms: *self.r.pick(&[40, 100, 200]),
            run: self.run_cfg(),
            probe: 0,
            paused: false,
        }
    }
    fn execs(&mut self, k: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..8).collect();
        for i in (1..v.len()).rev() {
            let j = self.r.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
        v.truncate(k.clamp(1, 8));
        v
    }
    fn node(&mut self, execs: Vec<usize>) -> Node {
        Node { start_ms: if self.p(700) { 0 } else { self.r.below(600) }, skew_ms: 0, execs, crons: vec![], pruner: None, pool: 2 + self.r.below(4) as u32 }
    }
    /// One to three instances serving the same executors (some only on some of them).
    fn nodes(&mut self, execs: &[usize]) -> Vec<Node> {
        let n = *self.r.pick(&[1, 1, 2, 2, 3]);
        (0..n)
            .map(|i| {
                let e: Vec<usize> = execs.iter().copied().filter(|_| i == 0 || self.r.chance(800)).collect();
                self.node(e)
            })
            .collect()
    }
    fn segs(&mut self) -> Vec<u32> {
        match self.r.below(6) {
            0 | 1 => vec![],
            2 => vec![self.r.below(20) as u32],
            3 => vec![self.r.below(300) as u32],
            4 => vec![self.r.below(100) as u32, self.r.below(200) as u32],
            _ => vec![1, 15, self.r.below(400) as u32],
        }
    }
    fn backoff(&mut self) -> Backoff {
        if self.p(150) {
            let kind = self.r.below(4) as u8;
            let opt = |g: &mut G, p: u64, lo: i64, hi: i64| if g.p(p) { Some(g.n(lo, hi)) } else { None };
            let exp = kind == 1;
            let unit_ms = if exp { self.n(1, 2) * 1000 } else { self.n(0, 600) };
            let max_ms = opt(self, 500, 1, 4).map(|m| if exp { m * 1000 } else { m * 700 + 3 });
            let abs_ms = opt(self, 300, 0, 900);
            let rel_pct = if abs_ms.is_none() { opt(self, 400, 0, 100).map(|x| x as u32) } else { None };
            let power = self.n(0, 2) as u32;
            return Backoff::Full { kind, unit_ms, power, max_ms, abs_ms, rel_pct, min_ms: opt(self, 400, 0, 1500) };
        }
        match self.r.below(10) {
            0..=5 => Backoff::Ms(*self.r.pick(&[0, 1, 10, 50, 99, 101, 150, 500, 1000, 2500])),
            6 => Backoff::Constant { ms: self.n(0, 2000), jitter_ms: self.n(0, 500), min_ms: 0 },
            7 => Backoff::Linear { factor_ms: self.n(1, 800), max_ms: self.n(100, 3000), jitter_ms: self.n(0, 50) },
            8 => Backoff::Exponential { base_s: self.n(1, 2), max_s: self.n(1, 5), jitter_pct: self.n(0, 50) as u32 },
            _ => Backoff::Polynomial { factor_ms: self.n(1, 200), power: self.n(1, 3) as u32, max_ms: self.n(100, 4000) },
        }
    }
    fn fail(&mut self) -> Out {
        match self.r.below(6) {
            0..=3 => Out::Err(self.text(), self.r.below(4) as u8),
            _ => Out::Panic(format!("p{}", self.text()), self.r.below(3) as u8),
        }
    }
    /// A step with the given chance (per mille) of failing.
    fn step(&mut self, fail: u64, snooze: u64, cancel: u64, timeout: u64) -> Step {
        let x = self.r.below(1000);
        let out = if x < fail {
            self.fail()
        } else if x < fail + snooze {
            Out::SnoozeMs(*self.r.pick(&[0, 1, 20, 99, 101, 120, 400, 1500]))
        } else if x < fail + snooze + cancel {
            Out::Cancel(self.text())
        } else {
            Out::Done
        };
        let timeout_ms = if self.p(timeout) { Some(*self.r.pick(&[5, 20, 100, 250, 1000])) } else { None };
        Step { segs: self.segs(), out, timeout_ms, backoff: self.backoff() }
    }
    fn plan(&mut self, ex: usize, steps: Vec<Step>) -> Plan {
        self.next_uid += 1;
        Plan { uid: self.next_uid, ex, steps, text: self.text() }
    }
    fn enq(&mut self, ex: usize, steps: Vec<Step>) -> Enq {
        Enq {
            ex,
            abs_ms: None,
            delay_ms: match self.r.below(6) {
                0..=2 => None,
                3 => Some(self.n(-2000, 0)),
                4 => Some(self.n(0, 400)),
                _ => Some(self.n(0, 5000)),
            },
            plan: self.plan(ex, steps),
            max: if self.p(500) { Some(self.n(1, 6) as u16) } else { None },
            prio: if self.r.chance(30) { *self.r.pick(&[255, 256, 32767, 32768, 65535]) } else { self.r.below(4) as u16 },
            tags: if self.p(300) { vec![self.text(), "t".into()] } else { vec![] },
            meta: if self.p(400) { Some(Meta { m: self.r.below(4) + 1, s: "meta".into() }) } else { None },
            uniq: None,
            raw: None,
        }
    }
    fn op(&mut self, at_ms: u64, node: u32, k: OpK) -> Op {
        Op { id: self.op_id(), at_ms, node, k }
    }
    /// Spread operations over clients.
    fn clients(&mut self, mut ops: Vec<Op>, max: usize) -> Vec<Vec<Op>> {
        let n = 1 + self.r.below(max as u64) as usize;
        let mut c: Vec<Vec<Op>> = vec![vec![]; n];
        ops.sort_by_key(|o| o.at_ms);
        for o in ops {
            let i = self.r.below(n as u64) as usize;
            c[i].push(o);
        }
        c.retain(|x| !x.is_empty());
        c
    }
    fn time(&mut self, span: u64) -> u64 {
        match self.r.below(5) {
            0 => 0,
            1 => span / 2,
            2 => span / 2 + self.r.below(3),
            _ => self.r.below(span + 1),
        }
    }
    fn mem_faults(&mut self, enqueue: bool) -> Faults {
        let mut f = Faults { until_ms: self.n(500, 8000) as u64, ..Default::default() };
        if self.p(500) {
            f.err_before = *self.r.pick(&[30, 100, 300]);
        }
        if self.p(400) {
            f.err_after = *self.r.pick(&[30, 100, 300]);
        }
        if self.p(600) {
            f.delay = *self.r.pick(&[50, 200, 500]);
            f.max_delay_ms = *self.r.pick(&[5, 60, 400, 2500]);
        }
        if self.p(500) {
            f.stream_err = *self.r.pick(&[50, 200, 500]);
        }
        if f.err_before + f.err_after + f.delay + f.stream_err == 0 {
            f.delay = 200;
            f.max_delay_ms = 100;
        }
        if !enqueue {
            f.only = ["complete", "retry", "discard", "cancel", "snooze", "stream"].iter().map(|s| s.to_string()).collect();
        }
        f
    }
    fn managed(&mut self, tgts: &[(u32, usize)], span: u64, cancel: bool, rerun: bool, update: bool) -> Option<OpK> {
        let _ = span;
        let (tgt, ex) = *self.r.pick(tgts);
        let mut kinds = vec![];
        if cancel {
            kinds.push(0);
        }
        if rerun {
            kinds.push(1);
        }
        if update {
            kinds.push(2);
            kinds.push(2);
        }
        if kinds.is_empty() {
            return None;
        }
        Some(match *self.r.pick(&kinds) {
            0 => OpK::Cancel { tgt, reason: self.text() },
            1 => OpK::Rerun { tgt },
            _ => {
                let plan = if self.p(300) {
                    let st = vec![self.step(200, 100, 0, 0)];
                    Some(self.plan(ex, st))
                } else {
                    None
                };
                OpK::Update {
                    tgt,
                    stale_ms: *self.r.pick(&[0, 0, 5, 60, 300]),
                    delay_ms: if self.p(500) { Some(self.n(-500, 2500)) } else { None },
                    plan,
                    max: if self.p(300) { Some(if self.r.chance(50) { u16::MAX } else { self.n(1, 8) as u16 }) } else { None },
                    prio: if self.p(300) { Some(if self.r.chance(150) { *self.r.pick(&[255, 256, 32767, 32768, 65535]) } else { self.r.below(5) as u16 }) } else { None },
                    tags: if self.p(200) { Some(if self.r.chance(500) { vec!["u".into()] } else { self.tags() }) } else { None },
                    meta: if self.p(200) { Some(Meta { m: 9, s: "new".into() }) } else { None },
                }
            }
        })
    }
    fn uniq(&mut self, replace: u64) -> Uniq {
        let key = if self.p(700) { Some(self.r.below(2) as u32) } else { None };
        let executor = key.is_none() || self.p(400);
        let statuses = match self.r.below(4) {
            0 => vec![0, 1, 2, 3, 4, 5],
            1 => vec![2],
            2 => vec![1, 2, 3],
            _ => {
                let mut v: Vec<u8> = (0..6).filter(|_| self.r.chance(600)).collect();
                if v.is_empty() {
                    v.push(2);
                }
                v
            }
        };
        let within_s = if self.p(250) { Some(*self.r.pick(&[1, 60, 3600])) } else { None };
        let replace = if self.p(replace) {
            Some(Repl {
                scheduled_at: self.p(500),
                data: self.p(500),
                metadata: self.p(500),
                priority: self.p(500),
                max_attempts: self.p(500),
                for_statuses: match self.r.below(16) {
                    0..=4 => vec![0, 1, 2, 3, 4, 5],
                    5..=9 => vec![2],
                    10 => vec![],
                    11 => (0..6).filter(|_| self.r.chance(500)).collect(),
                    _ => vec![2, 3],
                },
            })
        } else {
            None
        };
        Uniq { key, executor, within_s, statuses, replace }
    }
    fn query(&mut self, depth: u32, tgts: &[u32]) -> Q {
        let leaf = depth == 0 || self.p(300);
        if leaf {
            let id = |g: &mut G| if g.p(800) && !tgts.is_empty() { *g.r.pick(tgts) as i64 } else { -1 - g.r.below(3) as i64 };
            match self.r.below(13) {
                11 => Q::Older(*self.r.pick(&[-10, 0, 1, 5, 20, 100])),
                12 => Q::Within(*self.r.pick(&[0, 1, 5, 20, 100])),
                0 => Q::Executor(self.r.below(3) as usize),
                1 => Q::Data(self.r.below(self.next_uid + 2)),
                2 => Q::Meta(self.r.below(4)),
                3 => Q::Id(id(self)),
                4 => {
                    let k = self.r.below(4);
                    Q::IdIn((0..k).map(|_| id(self)).collect())
                }
                5 | 6 => Q::Status(self.r.below(6) as u8),
                7 => {
                    let k = self.r.below(3);
                    Q::TagsAll((0..k).map(|_| self.tag()).collect())
                }
                8 => {
                    let k = 1 + self.r.below(2);
                    Q::TagsOne((0..k).map(|_| self.tag()).collect())
                }
                9 => Q::Before(self.sched_ref(tgts)),
                _ => {
                    if self.p(500) {
                        Q::After(self.sched_ref(tgts))
                    } else {
                        Q::Equal(self.sched_ref(tgts))
                    }
                }
            }
        } else {
            let k = if self.p(60) { 0 } else { 1 + self.r.below(3) };
            match self.r.below(3) {
                0 => Q::Not(Box::new(self.query(depth - 1, tgts))),
                1 => Q::And((0..k).map(|_| self.query(depth - 1, tgts)).collect()),
                _ => Q::Or((0..k).map(|_| self.query(depth - 1, tgts)).collect()),
            }
        }
    }
    fn sched_ref(&mut self, tgts: &[u32]) -> i64 {
        if self.p(500) && !tgts.is_empty() {
            1_000_000 + *self.r.pick(tgts) as i64
        } else {
            self.n(-30, 30)
        }
    }
    fn tag(&mut self) -> String {
        (*self.r.pick(&["a", "b", "c", "d e", "é'\""])).to_string()
    }
    fn tags(&mut self) -> Vec<String> {
        let k = if self.r.chance(80) { self.n(4, 9) as u64 } else { self.r.below(4) };
        (0..k).map(|_| self.tag()).collect()
    }
    fn prune(&mut self) -> Prune {
        let except = self.p(500);
        let execs = (0..3).filter(|_| self.r.chance(400)).collect::<Vec<usize>>();
        let age = self.p(500);
        Prune {
            status: self.r.below(6) as u8,
            max_age_s: if age { Some(*self.r.pick(&[0, 10, 1000, 100_000])) } else { None },
            max_len: if age { None } else { Some(self.r.below(4) as u32) },
            except,
            execs,
        }
    }
}

pub const PROPS: [&str; 24] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24",
];

pub fn generate(prop: &str, seed: u64, deep: bool) -> Scenario {
    let salt = prop.bytes().fold(0u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64));
    let mut g = G { r: Rng::new(seed ^ salt.wrapping_mul(0x9E37_79B9_7F4A_7C15)), next_op: 0, next_uid: 0, deep };
    let g = &mut g;
    let pg = g.p(match prop {
        "C23" | "C24" => 1000,
        "C01" | "C11" | "C12" | "C15" | "C19" | "C20" | "C21" => 300,
        _ => 200,
    });
    let pg = match std::env::var("SIM_BACKEND").as_deref() {
        Ok("pg") => true,
        Ok("mem") => false,
        _ => pg,
    };
    let sc = generate_mem(g, prop, seed, pg);
    if pg {
        g.pgify(prop, sc)
    } else {
        sc
    }
}

fn generate_mem(g: &mut G, prop: &str, seed: u64, pg: bool) -> Scenario {
    match prop {
        "C11" | "C12" => {
            if g.p(550) {
                g.direct(prop, seed)
            } else {
                g.unique_live(prop, seed)
            }
        }
        "C15" => {
            if g.p(if pg { 350 } else { 150 }) {
                g.prune_race(prop, seed)
            } else if g.p(300) {
                g.prune_population(prop, seed)
            } else if g.p(600) {
                g.direct(prop, seed)
            } else {
                g.prune_live(prop, seed)
            }
        }
        "C21" => g.direct(prop, seed),
        "C13" => g.ordering(prop, seed),
        "C16" => g.pruner(prop, seed),
        "C17" | "C18" => g.cron(prop, seed),
        "C23" if g.p(250) => g.unique_live(prop, seed),
        _ => g.cluster(prop, seed),
    }
}

impl G {
    /// Run the scenario on the (simulated) Postgres backend.
    fn pgify(&mut self, prop: &str, mut sc: Scenario) -> Scenario {
        sc.backend = Bk::Pg;
        for n in sc.nodes.iter_mut() {
            n.pool = *self.r.pick(&[0, 2, 3, 5]);
        }
        if matches!(prop, "C01" | "C02" | "C03" | "C23" | "C24") && self.p(250) {
            // clocks that differ from the database's
            for n in sc.nodes.iter_mut() {
                n.skew_ms = self.n(-400, 400);
            }
        }
        let f = &mut sc.faults;
        f.only.clear();
        f.stream_err = 0;
        let nn = sc.nodes.len() as u64;
        if sc.direct || nn == 0 {
            return sc;
        }
        if prop == "C23" || prop == "C24" {
            sc.horizon_ms = sc.horizon_ms.max(150_000);
        }
        if f.any() {
            if f.err_before > 0 || f.err_after > 0 {
                f.err_before = *self.r.pick(&[0, 20, 80]);
                f.err_after = *self.r.pick(&[0, 10, 40]);
            }
            f.delay = *self.r.pick(&[0, 100, 400]);
            f.max_delay_ms = *self.r.pick(&[2, 20, 300]);
        } else if prop == "C23" && self.p(600) {
            *f = Faults { until_ms: 2000 + self.r.below(4000), err_before: *self.r.pick(&[0, 20, 60]), err_after: *self.r.pick(&[10, 40, 120]), delay: *self.r.pick(&[0, 200]), max_delay_ms: *self.r.pick(&[2, 50]), ..Default::default() };
        }
        // Connection losses, outages, crashes.
        let (net, crash) = match prop {
            "C23" => (600, 600),
            "C24" => (350, 0),
            "C02" | "C09" => (300, 150),
            "C01" | "C04" | "C14" | "C19" | "C20" | "C06" | "C03" => (150, 150),
            "C10" | "C12" => (100, 0),
            _ => (0, 0),
        };
        let mut extra = vec![];
        if self.p(net) {
            for _ in 0..self.n(1, 3) {
                let t = self.time(3000);
                let node = self.r.below(nn) as u32;
                let k = match if prop == "C24" { 0 } else { self.r.below(5) } {
                    0 => OpK::Reset { node, listener_only: true },
                    1 | 2 => OpK::Reset { node, listener_only: false },
                    3 => OpK::Partition { node, ms: self.n(1, 4000) as u32 },
                    _ => OpK::DbRestart { ms: self.n(1, 3000) as u32 },
                };
                extra.push(self.op(t, node, k));
            }
            sc.horizon_ms = sc.horizon_ms.max(150_000);
        }
        if matches!(prop, "C24" | "C02" | "C09") && self.p(200) {
            for _ in 0..self.n(1, 3) {
                let t = self.time(3000);
                let payload = match self.r.below(6) {
                    0 => String::new(),
                    1 => "hello".into(),
                    2 => "{}".into(),
                    3 => r#"{"executor":"nobody","scheduled_at":"2024-05-01T00:00:00+00:00"}"#.into(),
                    4 => r#"{"executor":"zero","scheduled_at":null}"#.into(),
                    _ => self.text(),
                };
                extra.push(self.op(t, 0, OpK::Foreign { payload }));
            }
        }
        if self.p(crash) {
            for _ in 0..self.n(1, 2) {
                let t = self.time(3000);
                let node = self.r.below(nn) as u32;
                extra.push(self.op(t, node, OpK::Crash { node }));
                if self.p(800) {
                    let t2 = t + self.r.below(3000);
                    extra.push(self.op(t2, node, OpK::Restart { node }));
                }
            }
            sc.horizon_ms = sc.horizon_ms.max(150_000);
        }
        extra.sort_by_key(|o| o.at_ms);
        for o in extra {
            sc.clients.push(vec![o]);
        }
        sc
    }

    /// Jobs change status while they are being pruned.
    fn prune_race(&mut self, prop: &str, seed: u64) -> Scenario {
        let mut sc = self.base(prop, seed);
        sc.direct = true;
        sc.nodes = vec![];
        sc.tick_ms = 300;
        sc.horizon_ms = 60_000;
        let mut ops = vec![];
        let mut tgts = vec![];
        for _ in 0..self.n(1, 4) {
            let ex = self.r.below(2) as usize;
            let mut e = self.enq(ex, vec![]);
            e.delay_ms = Some(self.n(-30, 2) * 1000);
            let o = self.op(0, 0, OpK::Enq(e));
            tgts.push(o.id);
            ops.push(vec![o]);
        }
        let status = *self.r.pick(&[0u8, 2, 3, 4, 5, 5]);
        for t in &tgts {
            if self.p(800) {
                let (kind, delay_ms) = (self.r.below(5) as u8, self.n(-10_000, 10_000));
                let o = self.op(100, 0, OpK::Mark { tgt: *t, kind, delay_ms, msg: "m".into() });
                ops.push(vec![o]);
            }
        }
        let at = 500;
        for _ in 0..self.n(1, 2) {
            let p = Prune { status: if self.p(700) { status } else { self.r.below(6) as u8 }, ..self.prune() };
            ops.push(vec![self.op(at, 0, OpK::Prune(p))]);
        }
        for _ in 0..self.n(1, 4) {
            let tgt = *self.r.pick(&tgts);
            let k = match self.r.below(5) {
                0 | 1 => OpK::Rerun { tgt },
                2 => OpK::Claim { ex: self.r.below(2) as usize, wait_ms: 5 },
                3 => OpK::Cancel { tgt, reason: "c".into() },
                _ => OpK::Mark { tgt, kind: self.r.below(5) as u8, delay_ms: self.n(-10_000, 10_000), msg: "n".into() },
            };
            ops.push(vec![self.op(at, 0, k)]);
        }
        sc.clients = ops;
        sc
    }

    /// Many jobs of one status, then prunings of it.
    fn prune_population(&mut self, prop: &str, seed: u64) -> Scenario {
        let mut sc = self.base(prop, seed);
        sc.direct = true;
        sc.nodes = vec![];
        sc.tick_ms = 300;
        sc.horizon_ms = 60_000;
        let mut ops = vec![];
        let status = self.r.below(6) as u8;
        let two = self.p(500);
        let unit = *self.r.pick(&[100i64, 1000, 5000]);
        for _ in 0..self.n(2, 7) {
            let ex = if two { self.r.below(2) as usize } else { 0 };
            let mut e = self.enq(ex, vec![]);
            let ahead = if status == 1 { 0 } else { 6 };
            e.delay_ms = Some(self.n(-12, ahead) * unit + self.n(0, 1));
            let o = self.op(0, 0, OpK::Enq(e));
            let tgt = o.id;
            ops.push(vec![o]);
            let st = if self.p(800) { status } else { self.r.below(6) as u8 };
            let kind = match st {
                0 => Some(0),
                1 => None,
                2 => None,
                3 => Some(1),
                4 => Some(3),
                _ => Some(2),
            };
            if let Some(kind) = kind {
                let delay_ms = self.n(-12, 6) * unit;
                ops.push(vec![self.op(200, 0, OpK::Mark { tgt, kind, delay_ms, msg: "m".into() })]);
            } else if st == 1 {
                ops.push(vec![self.op(200, 0, OpK::Claim { ex, wait_ms: 5 })]);
            }
        }
        for i in 0..self.n(1, 3) {
            let age = self.p(500);
            let p = Prune {
                status: if self.p(900) { status } else { self.r.below(6) as u8 },
                max_age_s: if age { Some(self.n(0, 12) * unit / 1000) } else { None },
                max_len: if age { None } else { Some(self.r.below(5) as u32) },
                except: self.p(500),
                execs: if two && self.p(300) { vec![self.r.below(2) as usize] } else if self.p(500) { vec![0, 1] } else { vec![] },
            };
            ops.push(vec![self.op(400 + 100 * i as u64, 0, OpK::Prune(p))]);
        }
        sc.clients = ops;
        sc
    }

    /// Instances executing a mixed workload.
    fn cluster(&mut self, prop: &str, seed: u64) -> Scenario {
        let mut sc = self.base(prop, seed);
        let k = 1 + self.r.below(3) as usize;
        let mut execs = self.execs(k);
        if prop == "C07" && execs.iter().all(|e| LIMIT[*e].is_none()) {
            execs[0] = *self.r.pick(&[1, 2, 3, 5, 6]);
        }
        sc.nodes = self.nodes(&execs);
        let mut slow = false;
        if (prop == "C07" && self.p(200)) || (matches!(prop, "C02" | "C24") && self.p(120)) {
            // registered twice
            if prop != "C07" && self.p(600) && !execs.contains(&1) {
                for n in sc.nodes.iter_mut() {
                    n.execs.iter_mut().filter(|e| **e == execs[0]).for_each(|e| *e = 1);
                }
                execs[0] = 1;
            }
            let e = execs[0];
            sc.nodes[0].execs.push(e);
            slow = prop != "C07";
        }
        let nn = sc.nodes.len() as u64;
        let span = *self.r.pick(&[0, 200, 1000, 3000]);
        let (fail, snooze, cancel, timeout) = match prop {
            "C02" => (150, 150, 50, 100),
            "C03" | "C22" => (400, 300, 0, 50),
            "C04" => (250, 150, 150, 150),
            "C05" => (600, 150, 20, 100),
            "C06" => (500, 100, 150, 150),
            "C07" => (200, 100, 50, 150),
            "C08" => (100, 50, 50, 700),
            "C09" => (400, 50, 50, 200),
            _ => (250, 100, 50, 80),
        };
        let jobs = match prop {
            "C07" => self.n(4, 14),
            "C05" | "C06" | "C22" => self.n(1, 6),
            _ => self.n(1, 10),
        };
        let mut ops = vec![];
        let mut tgts: Vec<(u32, usize)> = vec![];
        for _ in 0..jobs {
            let ex = *self.r.pick(&execs);
            let steps: Vec<Step> = {
                let n = match prop {
                    "C05" | "C06" | "C22" => self.n(1, 8),
                    _ => self.n(0, 4),
                };
                (0..n).map(|_| self.step(fail, snooze, cancel, timeout)).collect()
            };
            let mut e = self.enq(ex, steps);
            for s in e.plan.steps.iter_mut() {
                match prop {
                    "C08" => {
                        // durations clearly below or above the timeout
                        if s.timeout_ms.is_some() && self.r.chance(150) {
                            s.timeout_ms = Some(if BLOCKING[ex] { *self.r.pick(&[1, 6000]) } else { *self.r.pick(&[0, 0, 1, 6000]) });
                        }
                        if let Some(t) = s.timeout_ms {
                            match self.r.below(4) {
                                0 => s.segs = vec![t / 3],
                                1 => s.segs = vec![t / 2, t * 2 + 120, 50, 50],
                                2 if !BLOCKING[ex] || self.r.chance(500) => {
                                    s.out = Out::Never;
                                    s.segs = vec![1];
                                }
                                _ => s.segs = vec![0; 3],
                            }
                        }
                    }
                    "C09" => {
                        if self.r.chance(40) && !BLOCKING[ex] && LIMIT[ex].is_none() {
                            s.out = Out::Never;
                            s.timeout_ms = None;
                        }
                        if self.r.chance(40) {
                            s.out = Out::SnoozeHuge;
                        }
                        if self.r.chance(40) {
                            s.backoff = Backoff::Huge;
                        }
                        if self.r.chance(30) {
                            s.backoff = Backoff::Polynomial { factor_ms: 1000, power: 40, max_ms: 2000 };
                        }
                    }
                    "C22" => {
                        if self.r.chance(60) {
                            s.backoff = Backoff::Default;
                        }
                    }
                    _ => {}
                }
            }
            if matches!(prop, "C05" | "C06" | "C22" | "C04") && self.p(40) {
                // a long life
                let n = self.n(9, 26);
                e.plan.steps = (0..n)
                    .map(|_| {
                        let mut s = self.step(800, 60, 0, 60);
                        if prop != "C22" || self.r.chance(500) {
                            s.backoff = Backoff::Ms(*self.r.pick(&[0, 1, 20, 110, 300]));
                        }
                        s
                    })
                    .filter(|s| s.out != Out::Done)
                    .collect();
                e.max = Some(self.n(7, 28) as u16);
            }
            if slow && self.r.chance(300) {
                if let Some(s) = e.plan.steps.first_mut() {
                    s.segs = vec![self.n(1500, 6000) as u32];
                }
            }
            if prop == "C09" && self.p(150) {
                e.raw = Some(self.text());
            }
            if prop == "C09" && self.p(40) {
                e.max = Some(u16::MAX);
            }
            if prop == "C03" && self.p(400) {
                e.delay_ms = Some(self.n(0, 6000));
            }
            if prop == "C14" {
                e.tags = self.tags();
                e.plan.text = self.text();
                if self.r.chance(40) {
                    e.max = Some(*self.r.pick(&[0, 1001, u16::MAX]));
                }
            }
            let t = self.time(span);
            let node = self.r.below(nn) as u32;
            let o = self.op(t, node, OpK::Enq(e));
            tgts.push((o.id, ex));
            ops.push(o);
        }
        if matches!(prop, "C02" | "C24" | "C23") && self.p(250) {
            // Nothing but a far away job to wait for.
            for ex in execs.clone() {
                let mut e = self.enq(ex, vec![]);
                e.delay_ms = Some(self.n(4000, 9000) * 1000);
                ops.push(self.op(0, 0, OpK::Enq(e)));
            }
        }
        // Management
        let (c, r, u, m) = match prop {
            "C01" => (true, true, true, self.n(0, 6)),
            "C02" => (true, true, true, self.n(0, 4)),
            "C03" => (false, true, true, self.n(0, 6)),
            "C04" => (false, false, false, 0),
            "C05" => (false, true, true, self.n(0, 4)),
            "C06" => (true, true, true, self.n(0, 4)),
            "C07" => (false, false, false, 0),
            "C09" => (true, false, false, self.n(0, 2)),
            "C10" => (true, true, true, self.n(0, 3)),
            "C14" => (false, true, true, self.n(0, 6)),
            "C19" => (true, true, true, self.n(2, 10)),
            "C20" => (true, true, true, self.n(2, 10)),
            "C22" => (false, false, false, 0),
            "C23" => (true, true, true, self.n(0, 5)),
            "C24" => (false, true, true, self.n(0, 4)),
            _ => (false, false, false, 0),
        };
        let late = span + *self.r.pick(&[50, 500, 3000]);
        for _ in 0..m {
            let u = if prop == "C19" { u && self.p(300) } else { u };
            if let Some(k) = self.managed(&tgts, late, c, r, u) {
                let k = match k {
                    // The maximum may be lowered below the attempts already made.
                    OpK::Update { tgt, stale_ms, delay_ms, plan, max, prio, tags, meta } => {
                        let max = if prop == "C05" { Some(self.n(1, 6) as u16) } else { max };
                        // a new plan would change what later executions do; keep its executor
                        OpK::Update { tgt, stale_ms, delay_ms, plan, max, prio, tags, meta }
                    }
                    k => k,
                };
                let t = self.time(late);
                let node = self.r.below(nn) as u32;
                ops.push(self.op(t, node, k));
            }
        }
        if prop == "C19" {
            for _ in 0..self.n(0, 3) {
                let t = self.time(late);
                let (kind, id) = (self.r.below(3) as u8, self.r.below(3) as i32);
                ops.push(self.op(t, 0, OpK::Missing { kind, id }));
            }
        }
        if matches!(prop, "C01" | "C04" | "C05" | "C06" | "C14" | "C19" | "C20") && self.p(200) {
            for _ in 0..self.n(1, 3) {
                let t = self.time(late + 500);
                let mut p = self.prune();
                p.status = *self.r.pick(&[0, 0, 4, 5]); // finished statuses
                if self.p(700) {
                    p.except = true;
                    p.execs = vec![];
                }
                if p.max_age_s.is_some() {
                    p.max_age_s = Some(*self.r.pick(&[0, 0, 1]));
                } else if let Some(l) = &mut p.max_len {
                    *l = self.r.below(3) as _;
                }
                let node = self.r.below(nn) as u32;
                ops.push(self.op(t, node, OpK::Prune(p)));
            }
        }
        if prop == "C02" && self.p(80) {
            sc.paused = true;
            for _ in 0..self.n(1, 3) {
                let t = self.time(late + 1000);
                ops.push(self.op(t, 0, OpK::Notify));
            }
        } else if self.p(80) {
            let t = self.time(late);
            ops.push(self.op(t, 0, OpK::Notify));
        }
        sc.clients = self.clients(ops, 4);
        // Faults
        let fault = match prop {
            "C02" | "C09" => 600,
            "C22" | "C14" | "C20" | "C05" => 250,
            "C08" => 200,
            _ => 400,
        };
        if self.p(fault) {
            let enqueue = !matches!(prop, "C20" | "C19");
            sc.faults = self.mem_faults(enqueue);
            if matches!(prop, "C05" | "C22" | "C08") {
                // a failed recording leaves the job executing for ever; mostly use delays
                if self.p(700) {
                    sc.faults.err_before = 0;
                }
            }
            sc.horizon_ms = 150_000;
        }
        if prop == "C10" || (prop == "C01" && self.p(300)) || (matches!(prop, "C02" | "C04" | "C07") && self.p(150)) {
            // Shut one or more instances down at any moment; others (or a new one) continue.
            let n = sc.nodes.len() as u32;
            let victims = if n == 1 { 1 } else { self.n(1, n as i64 - 1) as u32 };
            let mut extra = vec![];
            for v in 0..victims {
                let node = if n == 1 { 0 } else { v + 1 };
                let at = self.time(late.max(400));
                let guard = self.p(400);
                extra.push(self.op(at, node, OpK::Shutdown { node, guard }));
                if self.p(300) {
                    let at2 = at + self.r.below(2500);
                    extra.push(self.op(at2, node, OpK::Restart { node }));
                }
            }
            extra.sort_by_key(|o| o.at_ms);
            sc.clients.push(extra);
            if prop == "C10" {
                // jobs that become due around and after the shutdown
                if self.p(500) {
                    let c = Cron { ex: execs[0], schedule: "* * * * * *".into(), plan: self.plan(execs[0], vec![]), offset_s: None };
                    for nd in sc.nodes.iter_mut() {
                        if self.r.chance(600) {
                            nd.crons.push(c.clone());
                        }
                    }
                }
                if self.p(400) {
                    let status = *self.r.pick(&[0u8, 4, 5]);
                    let p = PrunerCfg { schedule: "* * * * * *".into(), max_concurrency: None, pruners: vec![Prune { status, max_age_s: Some(100_000), max_len: None, except: true, execs: vec![] }] };
                    for nd in sc.nodes.iter_mut() {
                        nd.pruner = Some(p.clone());
                    }
                }
                if sc.nodes.iter().any(|n| !n.crons.is_empty() || n.pruner.is_some()) {
                    sc.horizon_ms = late + self.n(5000, 9000) as u64;
                    if sc.faults.any() {
                        sc.faults.until_ms = sc.faults.until_ms.min(3000);
                    }
                }
            }
        }
        if matches!(prop, "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C09" | "C14" | "C19" | "C20" | "C23") && self.p(120) {
            self.stalls(&mut sc);
            sc.horizon_ms = sc.horizon_ms.max(150_000);
        }
        sc
    }

    fn ordering(&mut self, prop: &str, seed: u64) -> Scenario {
        let mut sc = self.base(prop, seed);
        // limited executors build a backlog
        let ex = *self.r.pick(&[1, 1, 2, 3, 5, 6, 0]);
        sc.nodes = self.nodes(&[ex]);
        let nn = sc.nodes.len() as u64;
        let mut ops = vec![];
        let mut tgts = vec![];
        let jobs = self.n(3, 12);
        let grid = *self.r.pick(&[1, 50, 500, 1000]);
        let same = self.p(300);
        let absolute = self.p(500);
        for _ in 0..jobs {
            let steps = (0..self.n(0, 3)).map(|_| self.step(250, 200, 0, 0)).collect();
            let mut e = self.enq(ex, steps);
            for s in e.plan.steps.iter_mut() {
                if s.segs.is_empty() {
                    s.segs = vec![self.n(1, 250) as u32];
                }
            }
            if e.plan.steps.is_empty() {
                e.plan.steps = vec![Step { segs: vec![self.n(1, 300) as u32], out: Out::Done, timeout_ms: None, backoff: Backoff::Ms(10) }];
            }
            e.delay_ms = Some(self.n(-3, 4) * grid);
            if absolute {
                e.abs_ms = Some(self.n(-2, 4) * grid);
            }
            e.prio = if self.p(200) { *self.r.pick(&[0, 1, 32768, 40000, 65535]) } else { self.r.below(4) as u16 };
            let t = if same { 0 } else { self.time(600) };
            let node = self.r.below(nn) as u32;
            let o = self.op(t, node, OpK::Enq(e));
            tgts.push((o.id, ex));
            ops.push(o);
        }
        for _ in 0..self.n(0, 3) {
            if let Some(k) = self.managed(&tgts, 0, false, false, true) {
                let t = self.time(1500);
                ops.push(self.op(t, 0, k));
            }
        }
        sc.clients = self.clients(ops, 3);
        if self.p(250) {
            sc.faults = Faults { until_ms: 4000, delay: 200, max_delay_ms: 300, ..Default::default() };
            sc.horizon_ms = 150_000;
        }
        sc
    }

    /// Unique enqueues with instances running.
    fn unique_live(&mut self, prop: &str, seed: u64) -> Scenario {
        let mut sc = self.base(prop, seed);
        let solo = prop == "C11" && self.p(200);
        let execs = if solo { vec![crate::world::SOLO] } else { self.execs(2) };
        sc.nodes = self.nodes(&execs);
        let nn = sc.nodes.len() as u64;
        let mut ops = vec![];
        let mut crit = self.uniq(match prop {
            "C12" => 1000,
            "C23" => 500,
            _ => 0,
        });
        if prop == "C11" {
            crit.statuses = vec![0, 1, 2, 3, 4, 5];
            crit.within_s = None;
        }
        crit.within_s = crit.within_s.map(|_| 3600);
        let vary = prop == "C11" && !solo && self.p(300);
        if let Some(r) = &mut crit.replace {
            if !(r.data || r.metadata || r.priority || r.max_attempts) {
                r.scheduled_at = true;
            }
        }
        let span = *self.r.pick(&[0, 5, 400, 2000]);
        for _ in 0..self.n(2, 8) {
            let ex = *self.r.pick(&execs);
            let steps = (0..self.n(0, 3)).map(|_| self.step(300, 150, 50, 50)).collect();
            let mut e = self.enq(ex, steps);
            let mut c = crit.clone();
            if c.key.is_some() && self.p(300) {
                c.key = Some(self.r.below(2) as u32);
            }
            if vary {
                // far beyond the times used here
                c.within_s = *self.r.pick(&[None, Some(3600), Some(7200)]);
            }
            e.uniq = if solo && self.p(600) { None } else { Some(c) };
            if prop == "C12" {
                e.delay_ms = Some(self.n(0, 4000));
            }
            let t = self.time(span);
            let node = self.r.below(nn) as u32;
            ops.push(self.op(t, node, OpK::Enq(e)));
        }
        sc.clients = self.clients(ops, 5);
        if self.p(250) {
            sc.faults = Faults { until_ms: 3000, delay: 300, max_delay_ms: *self.r.pick(&[5, 100, 800]), ..Default::default() };
            sc.horizon_ms = 150_000;
        }
        sc
    }

    fn prune_live(&mut self, prop: &str, seed: u64) -> Scenario {
        let mut sc = self.base(prop, seed);
        let execs: Vec<usize> = vec![0, 1, 2];
        sc.nodes = self.nodes(&execs);
        let nn = sc.nodes.len() as u64;
        let mut pruners = vec![];
        for _ in 0..self.n(1, 3) {
            let mut p = self.prune();
            p.status = *self.r.pick(&[0, 4, 5]); // finished statuses
            if p.max_age_s.is_some() {
                p.max_age_s = Some(*self.r.pick(&[0, 1, 3]));
            }
            pruners.push(p);
        }
        let cfg = PrunerCfg { schedule: self.r.pick(&["* * * * * *", "*/2 * * * * *", "1/3 * * * * *"]).to_string(), max_concurrency: None, pruners };
        for n in sc.nodes.iter_mut() {
            n.pruner = Some(cfg.clone());
        }
        let mut ops = vec![];
        for _ in 0..self.n(3, 12) {
            let ex = *self.r.pick(&execs);
            let steps = (0..self.n(0, 3)).map(|_| self.step(300, 150, 150, 50)).collect();
            let e = self.enq(ex, steps);
            let t = self.time(3000);
            let node = self.r.below(nn) as u32;
            ops.push(self.op(t, node, OpK::Enq(e)));
        }
        sc.clients = self.clients(ops, 3);
        sc.horizon_ms = self.n(5000, 12000) as u64;
        sc
    }

    fn pruner(&mut self, prop: &str, seed: u64) -> Scenario {
        let mut sc = self.base(prop, seed);
        let mut node = self.node(vec![0]);
        let k = if self.p(150) { self.n(11, 14) } else { self.n(1, 6) };
        let pruners = (0..k)
            .map(|i| {
                let mut p = self.prune();
                // distinct specs
                if p.max_age_s.is_some() {
                    p.max_age_s = Some(1000 + i);
                } else {
                    p.max_len = Some(100 + i as u32);
                }
                p
            })
            .collect();
        let schedule = self.r.pick(&["* * * * * *", "*/2 * * * * *", "*/5 * * * * *", "0 * * * * *", "10,20,21 * * * * *", "0 */2 * * * *"]).to_string();
        sc.horizon_ms = match schedule.as_str() {
            "0 * * * * *" | "10,20,21 * * * * *" => self.n(100_000, 250_000) as u64,
            "0 */2 * * * *" => 400_000,
            _ => self.n(5000, 20_000) as u64,
        };
        sc.tick_ms = 400;
        node.pruner = Some(PrunerCfg { schedule, max_concurrency: *self.r.pick(&[None, Some(None), Some(Some(1)), Some(Some(2)), Some(Some(3))]), pruners });
        sc.nodes = vec![node];
        if self.p(300) {
            let n2 = sc.nodes[0].clone();
            sc.nodes.push(n2);
        }
        if self.p(650) {
            sc.faults = Faults { until_ms: sc.horizon_ms, only: vec!["prune".into()], ..Default::default() };
            if self.p(800) {
                sc.faults.delay = *self.r.pick(&[200, 500, 900]);
                sc.faults.max_delay_ms = *self.r.pick(&[20, 300, 900, 3000]);
            }
            if self.p(500) {
                sc.faults.err_before = *self.r.pick(&[100, 500]);
            }
        }
        if self.p(250) {
            let at = self.r.below(sc.horizon_ms);
            let o = self.op(at, 0, OpK::Shutdown { node: 0, guard: false });
            sc.clients = vec![vec![o]];
        }
        sc
    }

    fn cron(&mut self, prop: &str, seed: u64) -> Scenario {
        let mut sc = self.base(prop, seed);
        sc.tick_ms = 400;
        let multi = prop == "C18";
        let k = if multi { self.n(1, 2) } else { self.n(1, 4) };
        let mut crons = vec![];
        let fast = self.p(650);
        for _ in 0..k {
            let schedule = if fast {
                self.r.pick(&["* * * * * *", "*/2 * * * * *", "*/3 * * * * *", "1,2,5,30-33 * * * * *"]).to_string()
            } else {
                self.r.pick(&["0 * * * * *", "30 */2 * * * *", "0 0 * * * *", "0 30 1,5,13 * * *", "15 0 0 * * *"]).to_string()
            };
            let ex = if multi { *self.r.pick(&[0, 1, 2, 7]) } else { *self.r.pick(&[0, 1, 2, 5, 7]) };
            let steps = if multi || self.p(600) {
                if self.p(500) {
                    // Nothing that moves the job's schedule
                    let out = match self.r.below(4) {
                        0 => Out::Cancel(self.text()),
                        1 | 2 if MAXATT[ex] == 1 => self.fail(),
                        _ => Out::Done,
                    };
                    vec![Step { segs: vec![self.n(0, 400) as u32], out, timeout_ms: None, backoff: Backoff::Ms(100) }]
                } else {
                    vec![]
                }
            } else {
                vec![self.step(500, 0, 100, 100)]
            };
            let offset_s = match self.r.below(4) {
                0 | 1 => None,
                2 => Some(*self.r.pick(&[3600, -5 * 3600, 19800, -12 * 3600, 14 * 3600])),
                _ => Some(self.n(-43200, 43200) as i32),
            };
            crons.push(Cron { ex, schedule, plan: self.plan(ex, steps), offset_s });
        }
        if crons.len() > 1 && self.p(300) {
            // the same data for different executors
            let i = self.r.below(crons.len() as u64 - 1) as usize + 1;
            if crons.iter().enumerate().all(|(k, c)| k == i || c.ex != crons[i].ex) && (!multi || crons[0].plan.steps.iter().all(|s| matches!(s.out, Out::Done | Out::Cancel(_))) || MAXATT[crons[i].ex] == 1) {
                crons[i].plan = crons[0].plan.clone();
                if self.p(600) {
                    crons[i].schedule = crons[0].schedule.clone();
                    crons[i].offset_s = crons[0].offset_s;
                }
            }
        }
        sc.horizon_ms = if fast { self.n(4000, 12_000) as u64 } else { *self.r.pick(&[200_000, 3_600_000, 40_000_000]) };
        if sc.horizon_ms > 100_000 {
            sc.tick_ms = (sc.horizon_ms / 200).max(400);
        }
        if sc.horizon_ms > 1_000_000 {
            // dense schedules would make long runs expensive
            for c in crons.iter_mut() {
                if c.schedule.starts_with("0 *") || c.schedule.starts_with("30 */2") {
                    c.schedule = "0 0 * * * *".into();
                }
            }
            if sc.horizon_ms > 10_000_000 {
                sc.tick_ms = 60_000;
            }
        }
        let n = if multi { self.n(2, 3) } else { 1 };
        for i in 0..n {
            let mut nd = self.node(vec![]);
            nd.crons = crons.clone();
            if multi {
                nd.skew_ms = if self.p(500) { 0 } else { self.n(-450, 450) };
                nd.start_ms = if i == 0 { 0 } else { self.r.below(3000) };
            }
            // plain executors besides
            sc.nodes.push(nd);
        }
        if self.p(400) {
            sc.faults = Faults { until_ms: sc.horizon_ms, only: vec!["enqueue".into()], ..Default::default() };
            if self.p(700) {
                sc.faults.delay = *self.r.pick(&[100, 400, 800]);
                sc.faults.max_delay_ms = *self.r.pick(&[5, 30, 400, 1500]);
            }
            if self.p(400) && !multi {
                sc.faults.err_before = *self.r.pick(&[50, 300]);
            }
        }
        if multi && self.p(250) {
            let at = self.r.below(sc.horizon_ms);
            let o = self.op(at, 1, OpK::Shutdown { node: 1, guard: false });
            sc.clients = vec![vec![o]];
        }
        if self.p(200) {
            self.stalls(&mut sc);
        }
        sc
    }

    /// Instances that do not run for a while.
    fn stalls(&mut self, sc: &mut Scenario) {
        let nn = sc.nodes.len() as u64;
        for _ in 0..self.n(1, 2) {
            let at = self.r.below(sc.horizon_ms.min(4000));
            let node = self.r.below(nn) as u32;
            let ms = *self.r.pick(&[3, 30, 300, 1000, 3000]) + self.r.below(300) as u32;
            let o = self.op(at, node, OpK::Pause { node, ms });
            sc.clients.push(vec![o]);
        }
    }

    /// Concurrent clients using the backend directly.
    fn direct(&mut self, prop: &str, seed: u64) -> Scenario {
        let mut sc = self.base(prop, seed);
        sc.direct = true;
        sc.nodes = vec![];
        sc.tick_ms = *self.r.pick(&[7, 50, 300]);
        sc.horizon_ms = 60_000;
        let n = self.n(3, if self.deep { 22 } else { 14 }) as usize;
        let span = *self.r.pick(&[0, 0, 3, 100]);
        let mut enqs: Vec<u32> = vec![];
        let mut ops = vec![];
        let crit = self.uniq(if prop == "C12" { 1000 } else { 250 });
        let first = self.n(1, 5);
        for i in 0..n {
            let t = if (i as i64) < first { 0 } else { span / 3 + self.time(span) };
            let w = self.r.below(100);
            let kind = if (i as i64) < first || enqs.is_empty() {
                0
            } else {
                let (e, c, m, q, p) = match prop {
                    "C11" => (55, 10, 20, 5, 10),
                    "C12" => (55, 15, 20, 5, 5),
                    "C15" => (20, 10, 20, 5, 45),
                    _ => (20, 15, 25, 25, 15),
                };
                if w < e {
                    0
                } else if w < e + c {
                    1
                } else if w < e + c + m {
                    2
                } else if w < e + c + m + q {
                    3
                } else if w < e + c + m + q + p {
                    4
                } else {
                    5
                }
            };
            let k = match kind {
                0 => {
                    let ex = self.r.below(3) as usize;
                    let mut e = self.enq(ex, vec![]);
                    e.tags = self.tags();
                    e.delay_ms = match self.r.below(4) {
                        0 => None,
                        1 => Some(self.n(-50, 0)),
                        2 => Some(self.n(-5000, 5000) * 1000),
                        _ => Some(self.n(-20, 20) * 1000),
                    };
                    let unique = match prop {
                        "C11" | "C12" => 850,
                        "C15" => 0,
                        _ => 250,
                    };
                    if self.p(unique) {
                        let mut u = crit.clone();
                        if u.key.is_some() && self.p(250) {
                            u.key = Some(self.r.below(2) as u32);
                        }
                        if self.p(200) {
                            u = self.uniq(if prop == "C12" { 1000 } else { 200 });
                        }
                        if let Some(r) = &mut u.replace {
                            if !(r.scheduled_at || r.data || r.metadata || r.priority || r.max_attempts) && self.r.chance(700) {
                                r.priority = true;
                            }
                        }
                        e.uniq = Some(u);
                    }
                    OpK::Enq(e)
                }
                1 => OpK::Claim { ex: self.r.below(3) as usize, wait_ms: *self.r.pick(&[0, 5, 40]) },
                2 => {
                    let tgt = *self.r.pick(&enqs);
                    match self.r.below(8) {
                        0 => OpK::Rerun { tgt },
                        1 => OpK::Cancel { tgt, reason: self.text() },
                        2 | 3 => self.managed(&[(tgt, 0)], 0, false, false, true).unwrap(),
                        _ => OpK::Mark { tgt, kind: self.r.below(5) as u8, delay_ms: self.n(-10_000, 10_000), msg: self.text() },
                    }
                }
                3 => {
                    let e = enqs.clone();
                    OpK::Query(self.query(3, &e))
                }
                4 => OpK::Prune(self.prune()),
                _ => OpK::Missing { kind: self.r.below(3) as u8, id: self.r.below(4) as i32 },
            };
            let is_enq = matches!(k, OpK::Enq(_));
            let o = self.op(t, 0, k);
            if is_enq {
                enqs.push(o.id);
            }
            ops.push(o);
        }
        sc.clients = self.clients(ops, 4);
        if self.p(150) {
            sc.faults = Faults { until_ms: 5000, delay: 300, max_delay_ms: *self.r.pick(&[3, 40]), ..Default::default() };
        }
        sc
    }
}

#[allow(unused)]
fn _unused() {
    let _ = MAXATT;
}
