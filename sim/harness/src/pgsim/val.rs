//! Values and types of the simulated Postgres server.
use bytes::{Buf, BufMut};
use chrono::{DateTime, Datelike, NaiveDateTime, Utc};
use serde_json::Value as J;
use std::cmp::Ordering;

pub type Ty = u32;
pub const BOOL: Ty = 16;
pub const BYTEA: Ty = 17;
pub const CHAR: Ty = 18;
pub const NAME: Ty = 19;
pub const INT8: Ty = 20;
pub const INT2: Ty = 21;
pub const INT4: Ty = 23;
pub const TEXT: Ty = 25;
pub const OID: Ty = 26;
pub const JSON: Ty = 114;
pub const FLOAT8: Ty = 701;
pub const UNKNOWN: Ty = 705;
pub const VARCHAR: Ty = 1043;
pub const TIMESTAMP: Ty = 1114;
pub const TIMESTAMPTZ: Ty = 1184;
pub const INTERVAL: Ty = 1186;
pub const NUMERIC: Ty = 1700;
pub const REGTYPE: Ty = 2206;
pub const RECORD: Ty = 2249;
pub const VOID: Ty = 2278;
pub const UUID: Ty = 2950;
pub const JSONB: Ty = 3802;

const ARRAYS: &[(Ty, Ty)] = &[
    (BOOL, 1000),
    (BYTEA, 1001),
    (CHAR, 1002),
    (NAME, 1003),
    (INT2, 1005),
    (INT4, 1007),
    (TEXT, 1009),
    (VARCHAR, 1015),
    (INT8, 1016),
    (FLOAT8, 1022),
    (OID, 1028),
    (TIMESTAMP, 1115),
    (TIMESTAMPTZ, 1185),
    (INTERVAL, 1187),
    (JSON, 199),
    (JSONB, 3807),
    (UUID, 2951),
];
const NAMES: &[(&str, Ty)] = &[
    ("bool", BOOL),
    ("bytea", BYTEA),
    ("char", CHAR),
    ("name", NAME),
    ("int8", INT8),
    ("int2", INT2),
    ("int4", INT4),
    ("text", TEXT),
    ("oid", OID),
    ("json", JSON),
    ("float8", FLOAT8),
    ("varchar", VARCHAR),
    ("timestamp", TIMESTAMP),
    ("timestamptz", TIMESTAMPTZ),
    ("interval", INTERVAL),
    ("numeric", NUMERIC),
    ("regtype", REGTYPE),
    ("void", VOID),
    ("jsonb", JSONB),
    ("uuid", UUID),
    ("record", RECORD),
    ("trigger", VOID),
];

#[derive(Clone, Debug)]
pub struct EnumTy {
    pub name: String,
    pub oid: Ty,
    pub array: Ty,
    pub labels: Vec<String>,
}

/// The types known to the database.
#[derive(Clone, Debug, Default)]
pub struct Types {
    pub enums: Vec<EnumTy>,
}
impl Types {
    pub fn by_name(&self, n: &str, array: bool) -> Option<Ty> {
        let (n, array) = match n.strip_prefix('_') {
            Some(r) if !array && self.by_name(r, false).is_some() => (r, true),
            _ => (n, array),
        };
        let (n, array) = match n.strip_suffix("[]") {
            Some(r) => (r, true),
            None => (n, array),
        };
        let t = NAMES.iter().find(|(x, _)| *x == n).map(|x| x.1).or_else(|| self.enums.iter().find(|e| e.name == n).map(|e| e.oid))?;
        if array {
            self.array_of(t)
        } else {
            Some(t)
        }
    }
    pub fn array_of(&self, t: Ty) -> Option<Ty> {
        if t == UNKNOWN {
            return Some(1009);
        }
        ARRAYS.iter().find(|a| a.0 == t).map(|a| a.1).or_else(|| self.enums.iter().find(|e| e.oid == t).map(|e| e.array))
    }
    pub fn elem(&self, t: Ty) -> Option<Ty> {
        ARRAYS.iter().find(|a| a.1 == t).map(|a| a.0).or_else(|| self.enums.iter().find(|e| e.array == t).map(|e| e.oid))
    }
    pub fn en(&self, t: Ty) -> Option<&EnumTy> {
        self.enums.iter().find(|e| e.oid == t)
    }
    pub fn name(&self, t: Ty) -> String {
        if let Some(e) = self.elem(t) {
            return format!("{}[]", self.name(e));
        }
        match t {
            INT4 => "integer".into(),
            INT8 => "bigint".into(),
            INT2 => "smallint".into(),
            VARCHAR => "character varying".into(),
            BOOL => "boolean".into(),
            TIMESTAMPTZ => "timestamp with time zone".into(),
            TIMESTAMP => "timestamp without time zone".into(),
            FLOAT8 => "double precision".into(),
            _ => NAMES.iter().find(|x| x.1 == t).map(|x| x.0.to_string()).or_else(|| self.en(t).map(|e| e.name.clone())).unwrap_or_else(|| t.to_string()),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Null,
    Bool(bool),
    /// int2, int4, int8, oid, "char"
    Int(Ty, i64),
    Float(f64),
    Text(String),
    /// A literal whose type follows from its context.
    Unknown(String),
    Bytes(Vec<u8>),
    /// Microseconds since 2000-01-01; with or without time zone
    Ts(Ty, i64),
    Interval(i64),
    Json(Ty, J),
    Arr(Ty, Vec<V>),
    Enum(Ty, usize),
    Row(Vec<V>),
    Void,
}

#[derive(Clone, Debug)]
pub struct Err {
    pub code: &'static str,
    pub msg: String,
}
pub type R<T> = Result<T, Err>;
pub fn err<T>(code: &'static str, msg: impl Into<String>) -> R<T> {
    Result::Err(Err { code, msg: msg.into() })
}
/// Something the simulator does not know: not an answer Postgres would give.
pub fn unsupported<T>(msg: impl Into<String>) -> R<T> {
    Result::Err(Err { code: "XXSIM", msg: msg.into() })
}

pub const Y2000: i64 = 946_684_800;
pub const TS_MIN: i64 = -211_813_488_000_000_000;
pub const TS_MAX: i64 = 9_223_371_331_200_000_000;

pub fn ts_to_utc(us: i64) -> DateTime<Utc> {
    let s = us.div_euclid(1_000_000);
    let n = us.rem_euclid(1_000_000) * 1000;
    DateTime::from_timestamp(s + Y2000, n as u32).unwrap_or(DateTime::<Utc>::MAX_UTC)
}
pub fn utc_to_ts(t: DateTime<Utc>) -> i64 {
    (t.timestamp() - Y2000) * 1_000_000 + t.timestamp_subsec_micros() as i64
}
fn parse_ts(s: &str) -> Option<i64> {
    if let Ok(d) = DateTime::parse_from_rfc3339(s) {
        return Some(utc_to_ts(d.with_timezone(&Utc)));
    }
    for f in ["%Y-%m-%d %H:%M:%S%.f%#z", "%Y-%m-%dT%H:%M:%S%.f%#z"] {
        if let Ok(d) = DateTime::parse_from_str(s, f) {
            return Some(utc_to_ts(d.with_timezone(&Utc)));
        }
    }
    for f in ["%Y-%m-%d %H:%M:%S%.f", "%Y-%m-%dT%H:%M:%S%.f"] {
        if let Ok(d) = NaiveDateTime::parse_from_str(s, f) {
            return Some(utc_to_ts(d.and_utc()));
        }
    }
    chrono::NaiveDate::parse_from_str(s, "%Y-%m-%d").ok().map(|d| utc_to_ts(d.and_hms_opt(0, 0, 0).unwrap().and_utc()))
}
fn ts_text(us: i64, tz: bool, sep: char) -> String {
    let d = ts_to_utc(us);
    let y = d.year();
    let bc = y <= 0;
    let y = if bc { 1 - y } else { y };
    let frac = us.rem_euclid(1_000_000);
    let mut s = format!("{:04}-{}{}{}", y, d.format("%m-%d"), sep, d.format("%H:%M:%S"));
    if frac != 0 {
        let f = format!("{frac:06}");
        s.push('.');
        s.push_str(f.trim_end_matches('0'));
    }
    if tz {
        s.push_str(if sep == 'T' { "+00:00" } else { "+00" });
    }
    if bc {
        s.push_str(" BC");
    }
    s
}
pub fn parse_interval(s: &str) -> Option<i64> {
    // [N unit]... | [-]HH:MM[:SS[.f]]
    let mut total = 0i64;
    let mut it = s.split_whitespace().peekable();
    let mut any = false;
    while let Some(w) = it.next() {
        any = true;
        if w.contains(':') {
            let (neg, w) = match w.strip_prefix('-') {
                Some(r) => (true, r),
                None => (false, w),
            };
            let p: Vec<&str> = w.split(':').collect();
            let h: i64 = p.first()?.parse().ok()?;
            let m: i64 = p.get(1)?.parse().ok()?;
            let sec: f64 = p.get(2).unwrap_or(&"0").parse().ok()?;
            let v = h * 3_600_000_000 + m * 60_000_000 + (sec * 1e6).round() as i64;
            total += if neg { -v } else { v };
            continue;
        }
        let (num, unit) = match w.find(|c: char| c.is_alphabetic()) {
            Some(p) if p > 0 => (w[..p].to_string(), w[p..].to_string()),
            _ => match it.peek() {
                Some(u) if u.chars().all(|c| c.is_alphabetic()) => {
                    let u = it.next().unwrap().to_string();
                    (w.to_string(), u)
                }
                _ => (w.to_string(), "second".to_string()),
            },
        };
        let n: f64 = num.parse().ok()?;
        let k = match unit.trim_end_matches('s') {
            "microsecond" | "u" => 1.0,
            "millisecond" | "m" if unit != "m" => 1e3,
            "second" | "sec" | "" => 1e6,
            "minute" | "min" | "m" => 6e7,
            "hour" | "h" => 3.6e9,
            "day" | "d" => 8.64e10,
            "week" | "w" => 6.048e11,
            _ => return None,
        };
        total += (n * k).round() as i64;
    }
    any.then_some(total)
}
fn interval_text(us: i64) -> String {
    let neg = us < 0;
    let a = us.unsigned_abs();
    let (h, m, s, f) = (a / 3_600_000_000, a / 60_000_000 % 60, a / 1_000_000 % 60, a % 1_000_000);
    let mut t = format!("{}{:02}:{:02}:{:02}", if neg { "-" } else { "" }, h, m, s);
    if f != 0 {
        let x = format!("{f:06}");
        t.push('.');
        t.push_str(x.trim_end_matches('0'));
    }
    t
}

pub fn is_text(t: Ty) -> bool {
    matches!(t, TEXT | VARCHAR | NAME)
}
pub fn is_num(t: Ty) -> bool {
    matches!(t, INT2 | INT4 | INT8 | OID | FLOAT8 | NUMERIC | REGTYPE)
}

fn no_nul(s: &str) -> R<()> {
    if s.contains('\0') {
        return err("22021", "invalid byte sequence for encoding \"UTF8\": 0x00");
    }
    Ok(())
}
fn jsonb_ok(j: &J) -> R<()> {
    match j {
        J::String(s) if s.contains('\0') => err("22P05", "unsupported Unicode escape sequence"),
        J::Array(v) => v.iter().try_for_each(jsonb_ok),
        J::Object(m) => m.iter().try_for_each(|(k, v)| {
            if k.contains('\0') {
                return err("22P05", "unsupported Unicode escape sequence");
            }
            jsonb_ok(v)
        }),
        _ => Ok(()),
    }
}

impl V {
    pub fn ty(&self) -> Ty {
        match self {
            V::Null | V::Unknown(_) => UNKNOWN,
            V::Bool(_) => BOOL,
            V::Int(t, _) | V::Ts(t, _) | V::Json(t, _) | V::Enum(t, _) => *t,
            V::Float(_) => FLOAT8,
            V::Text(_) => TEXT,
            V::Bytes(_) => BYTEA,
            V::Interval(_) => INTERVAL,
            V::Arr(e, _) => ARRAYS.iter().find(|a| a.0 == *e).map(|a| a.1).unwrap_or(*e + 1),
            V::Row(_) => RECORD,
            V::Void => VOID,
        }
    }
    pub fn is_null(&self) -> bool {
        matches!(self, V::Null)
    }

    /// Output in text form.
    pub fn text(&self, ty: &Types) -> String {
        match self {
            V::Null => String::new(),
            V::Bool(b) => if *b { "t" } else { "f" }.into(),
            V::Int(t, i) if *t == REGTYPE => ty.name(*i as Ty),
            V::Int(t, i) if *t == CHAR => ((*i as u8) as char).to_string(),
            V::Int(_, i) => i.to_string(),
            V::Float(f) => f.to_string(),
            V::Text(s) | V::Unknown(s) => s.clone(),
            V::Bytes(b) => format!("\\x{}", b.iter().map(|x| format!("{x:02x}")).collect::<String>()),
            V::Ts(t, us) => ts_text(*us, *t == TIMESTAMPTZ, ' '),
            V::Interval(i) => interval_text(*i),
            V::Json(_, j) => j.to_string(),
            V::Arr(_, v) => {
                let el: Vec<String> = v
                    .iter()
                    .map(|x| match x {
                        V::Null => "NULL".into(),
                        x => {
                            let t = x.text(ty);
                            if t.is_empty() || t.eq_ignore_ascii_case("null") || t.chars().any(|c| c.is_whitespace() || "{}\",\\".contains(c)) {
                                format!("\"{}\"", t.replace('\\', "\\\\").replace('"', "\\\""))
                            } else {
                                t
                            }
                        }
                    })
                    .collect();
                format!("{{{}}}", el.join(","))
            }
            V::Enum(t, i) => ty.en(*t).map(|e| e.labels[*i].clone()).unwrap_or_default(),
            V::Row(v) => format!("({})", v.iter().map(|x| x.text(ty)).collect::<Vec<_>>().join(",")),
            V::Void => String::new(),
        }
    }
    pub fn json(&self, ty: &Types) -> J {
        match self {
            V::Null => J::Null,
            V::Bool(b) => J::Bool(*b),
            V::Int(t, i) if !matches!(*t, REGTYPE | CHAR) => J::from(*i),
            V::Float(f) => serde_json::Number::from_f64(*f).map(J::Number).unwrap_or(J::Null),
            V::Json(_, j) => j.clone(),
            V::Arr(_, v) => J::Array(v.iter().map(|x| x.json(ty)).collect()),
            V::Ts(t, us) => J::String(ts_text(*us, *t == TIMESTAMPTZ, 'T')),
            x => J::String(x.text(ty)),
        }
    }

    pub fn from_text(s: &str, t: Ty, ty: &Types) -> R<V> {
        let bad = |n: &str| err("22P02", format!("invalid input syntax for type {n}: \"{s}\""));
        no_nul(s)?;
        if let Some(e) = ty.en(t) {
            return match e.labels.iter().position(|l| l == s) {
                Some(i) => Ok(V::Enum(t, i)),
                None => err("22P02", format!("invalid input value for enum {}: \"{s}\"", e.name)),
            };
        }
        if let Some(el) = ty.elem(t) {
            let Some(b) = s.trim().strip_prefix('{').and_then(|x| x.strip_suffix('}')) else { return bad("array") };
            let mut out = vec![];
            let mut cur = String::new();
            let (mut quoted, mut inq, mut any) = (false, false, false);
            let mut it = b.chars();
            while let Some(c) = it.next() {
                any = true;
                match c {
                    '\\' => cur.extend(it.next()),
                    '"' => {
                        inq = !inq;
                        quoted = true;
                    }
                    ',' if !inq => {
                        out.push(if !quoted && cur.eq_ignore_ascii_case("null") { V::Null } else { V::from_text(&cur, el, ty)? });
                        cur.clear();
                        quoted = false;
                    }
                    c => cur.push(c),
                }
            }
            if any {
                out.push(if !quoted && cur.eq_ignore_ascii_case("null") { V::Null } else { V::from_text(&cur, el, ty)? });
            }
            return Ok(V::Arr(el, out));
        }
        match t {
            TEXT | VARCHAR | NAME => Ok(V::Text(s.into())),
            UNKNOWN => Ok(V::Unknown(s.into())),
            BOOL => match s.trim().to_lowercase().as_str() {
                "t" | "true" | "yes" | "on" | "1" => Ok(V::Bool(true)),
                "f" | "false" | "no" | "off" | "0" => Ok(V::Bool(false)),
                _ => bad("boolean"),
            },
            INT2 | INT4 | INT8 | OID => match s.trim().parse::<i64>() {
                Ok(i) => V::int(t, i as i128),
                _ => bad("integer"),
            },
            CHAR => Ok(V::Int(CHAR, s.bytes().next().unwrap_or(0) as i64)),
            FLOAT8 | NUMERIC => match s.trim().parse() {
                Ok(f) => Ok(V::Float(f)),
                _ => bad("double precision"),
            },
            TIMESTAMP | TIMESTAMPTZ => match parse_ts(s.trim()) {
                Some(i) => Ok(V::Ts(t, i)),
                None => bad("timestamp"),
            },
            INTERVAL => match parse_interval(s) {
                Some(i) => Ok(V::Interval(i)),
                None => bad("interval"),
            },
            JSON | JSONB => match serde_json::from_str::<J>(s) {
                Ok(j) => {
                    if t == JSONB {
                        jsonb_ok(&j)?;
                    }
                    Ok(V::Json(t, j))
                }
                _ => bad("json"),
            },
            REGTYPE => {
                let n = s.trim().trim_matches('"').to_lowercase();
                let n = n.rsplit('.').next().unwrap_or("").to_string();
                match ty.by_name(&n, false) {
                    Some(t) => Ok(V::Int(REGTYPE, t as i64)),
                    None => err("42704", format!("type \"{s}\" does not exist")),
                }
            }
            BYTEA => {
                let Some(h) = s.strip_prefix("\\x") else { return Ok(V::Bytes(s.as_bytes().to_vec())) };
                (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16)).collect::<Result<Vec<u8>, _>>().map(V::Bytes).or_else(|_| bad("bytea"))
            }
            VOID => Ok(V::Void),
            _ => unsupported(format!("text input of type {t}")),
        }
    }
    pub fn int(t: Ty, i: i128) -> R<V> {
        let ok = match t {
            INT2 => i16::try_from(i).is_ok(),
            INT4 => i32::try_from(i).is_ok(),
            OID => u32::try_from(i).is_ok(),
            _ => i64::try_from(i).is_ok(),
        };
        if !ok {
            return err("22003", "integer out of range");
        }
        Ok(V::Int(t, i as i64))
    }
    pub fn ts(t: Ty, us: Option<i64>) -> R<V> {
        match us {
            Some(us) if (TS_MIN..TS_MAX).contains(&us) => Ok(V::Ts(t, us)),
            _ => err("22008", "timestamp out of range"),
        }
    }

    /// Conversion to a type. `explicit`: a written cast, otherwise an assignment.
    pub fn cast(self, t: Ty, ty: &Types, explicit: bool) -> R<V> {
        let from = self.ty();
        let no = || err(if explicit { "42846" } else { "42804" }, format!("cannot convert type {} to {}", ty.name(from), ty.name(t)));
        match (self, t) {
            (V::Null, _) => Ok(V::Null),
            (V::Unknown(s), t) => V::from_text(&s, t, ty),
            (v, t) if v.ty() == t => Ok(v),
            (v @ V::Text(_), TEXT | VARCHAR | NAME) => Ok(v),
            (V::Text(s), t) if explicit => V::from_text(&s, t, ty),
            (V::Bool(b), INT4) if explicit => Ok(V::Int(INT4, b as i64)),
            (V::Int(_, i), BOOL) if explicit => Ok(V::Bool(i != 0)),
            (V::Int(_, i), INT2 | INT4 | INT8 | OID) => V::int(t, i as i128),
            (V::Int(OID, i), REGTYPE) => Ok(V::Int(REGTYPE, i)),
            (V::Int(_, i), FLOAT8 | NUMERIC) => Ok(V::Float(i as f64)),
            (V::Float(f), INT2 | INT4 | INT8) => V::int(t, f.round_ties_even() as i128),
            (V::Float(f), NUMERIC | FLOAT8) => Ok(V::Float(f)),
            (V::Ts(_, us), TIMESTAMP | TIMESTAMPTZ) => Ok(V::Ts(t, us)),
            (V::Json(_, j), JSON) => Ok(V::Json(JSON, j)),
            (V::Json(_, j), JSONB) => {
                jsonb_ok(&j)?;
                Ok(V::Json(JSONB, j))
            }
            (V::Arr(_, v), t) if ty.elem(t).is_some() => {
                let e = ty.elem(t).unwrap();
                Ok(V::Arr(e, v.into_iter().map(|x| x.cast(e, ty, explicit)).collect::<R<_>>()?))
            }
            (v, TEXT | VARCHAR | NAME) => Ok(V::Text(v.text(ty))),
            _ => no(),
        }
    }

    /// Assignment to a column.
    pub fn assign(self, t: Ty, ty: &Types) -> R<V> {
        self.cast(t, ty, false)
    }

    pub fn decode(b: &[u8], t: Ty, binary: bool, ty: &Types) -> R<V> {
        let short = || Err { code: "08P01", msg: "insufficient data left in message".into() };
        if !binary {
            let s = std::str::from_utf8(b).map_err(|_| Err { code: "22021", msg: "invalid byte sequence".into() })?;
            return V::from_text(s, t, ty);
        }
        let utf = |b: &[u8]| -> R<String> {
            let s = String::from_utf8(b.to_vec()).map_err(|_| Err { code: "22021", msg: "invalid byte sequence".into() })?;
            no_nul(&s)?;
            Ok(s)
        };
        if ty.en(t).is_some() {
            return V::from_text(&utf(b)?, t, ty);
        }
        if let Some(e) = ty.elem(t) {
            let mut c = b;
            if c.remaining() < 12 {
                return Result::Err(short());
            }
            let dims = c.get_i32();
            c.get_i32();
            let et = c.get_u32();
            if et != e {
                return err("42804", "binary data has wrong array element type");
            }
            if dims == 0 {
                return Ok(V::Arr(e, vec![]));
            }
            if dims != 1 {
                return unsupported("multidimensional arrays");
            }
            let n = c.get_i32();
            c.get_i32();
            let mut v = vec![];
            for _ in 0..n {
                let l = c.get_i32();
                if l < 0 {
                    v.push(V::Null);
                } else {
                    v.push(V::decode(&c[..l as usize], e, true, ty)?);
                    c.advance(l as usize);
                }
            }
            return Ok(V::Arr(e, v));
        }
        let need = |n: usize| if b.len() == n { Ok(()) } else { Result::Err(short()) };
        let mut c = b;
        match t {
            BOOL => {
                need(1)?;
                Ok(V::Bool(b[0] != 0))
            }
            INT2 => {
                need(2)?;
                Ok(V::Int(t, c.get_i16() as i64))
            }
            INT4 => {
                need(4)?;
                Ok(V::Int(t, c.get_i32() as i64))
            }
            OID | REGTYPE => {
                need(4)?;
                Ok(V::Int(t, c.get_u32() as i64))
            }
            INT8 => {
                need(8)?;
                Ok(V::Int(t, c.get_i64()))
            }
            CHAR => {
                need(1)?;
                Ok(V::Int(t, b[0] as i64))
            }
            FLOAT8 => {
                need(8)?;
                Ok(V::Float(c.get_f64()))
            }
            TEXT | VARCHAR | NAME => Ok(V::Text(utf(b)?)),
            UNKNOWN => Ok(V::Unknown(utf(b)?)),
            BYTEA => Ok(V::Bytes(b.to_vec())),
            TIMESTAMP | TIMESTAMPTZ => {
                need(8)?;
                V::ts(t, Some(c.get_i64()))
            }
            INTERVAL => {
                need(16)?;
                let us = c.get_i64();
                let d = c.get_i32() as i64;
                let m = c.get_i32() as i64;
                Ok(V::Interval(us + d * 86_400_000_000 + m * 30 * 86_400_000_000))
            }
            JSON => V::from_text(&utf(b)?, t, ty),
            JSONB => {
                if b.first() != Some(&1) {
                    return err("XX000", "unsupported jsonb version number");
                }
                V::from_text(&utf(&b[1..])?, t, ty)
            }
            _ => unsupported(format!("binary input of type {}", ty.name(t))),
        }
    }
    pub fn encode(&self, binary: bool, ty: &Types, out: &mut Vec<u8>) {
        if !binary {
            out.extend_from_slice(self.text(ty).as_bytes());
            return;
        }
        match self {
            V::Null | V::Void => {}
            V::Bool(b) => out.put_u8(*b as u8),
            V::Int(INT2, i) => out.put_i16(*i as i16),
            V::Int(INT8, i) => out.put_i64(*i),
            V::Int(CHAR, i) => out.put_i8(*i as i8),
            V::Int(OID | REGTYPE, i) => out.put_u32(*i as u32),
            V::Int(_, i) => out.put_i32(*i as i32),
            V::Float(f) => out.put_f64(*f),
            V::Bytes(b) => out.extend_from_slice(b),
            V::Ts(_, us) => out.put_i64(*us),
            V::Interval(us) => {
                out.put_i64(*us);
                out.put_i32(0);
                out.put_i32(0);
            }
            V::Json(t, j) => {
                if *t == JSONB {
                    out.put_u8(1);
                }
                out.extend_from_slice(j.to_string().as_bytes());
            }
            V::Arr(e, v) => {
                out.put_i32(if v.is_empty() { 0 } else { 1 });
                out.put_i32(v.iter().any(|x| x.is_null()) as i32);
                out.put_u32(*e);
                if !v.is_empty() {
                    out.put_i32(v.len() as i32);
                    out.put_i32(1);
                    for x in v {
                        if x.is_null() {
                            out.put_i32(-1);
                        } else {
                            let at = out.len();
                            out.put_i32(0);
                            x.encode(true, ty, out);
                            let l = (out.len() - at - 4) as i32;
                            out[at..at + 4].copy_from_slice(&l.to_be_bytes());
                        }
                    }
                }
            }
            V::Row(_) => {}
            V::Text(_) | V::Unknown(_) | V::Enum(..) => out.extend_from_slice(self.text(ty).as_bytes()),
        }
    }
}

fn jeq(a: &J, b: &J) -> bool {
    match (a, b) {
        (J::Number(x), J::Number(y)) => x == y || (x.as_f64().is_some() && x.as_f64() == y.as_f64() && (x.is_f64() || y.is_f64())),
        (J::Array(x), J::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| jeq(a, b)),
        (J::Object(x), J::Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).is_some_and(|w| jeq(v, w))),
        _ => a == b,
    }
}

/// Bring the two sides of an operator to one type, as Postgres does for comparisons.
pub fn unify(a: V, b: V, ty: &Types) -> R<(V, V)> {
    if a.is_null() || b.is_null() {
        return Ok((a, b));
    }
    match (&a, &b) {
        (V::Unknown(_), V::Unknown(_)) => Ok((a.cast(TEXT, ty, true)?, b.cast(TEXT, ty, true)?)),
        (V::Unknown(_), _) => {
            let t = b.ty();
            Ok((a.cast(t, ty, true)?, b))
        }
        (_, V::Unknown(_)) => {
            let t = a.ty();
            let b = b.cast(t, ty, true)?;
            Ok((a, b))
        }
        (V::Int(..), V::Float(_)) => Ok((a.cast(FLOAT8, ty, true)?, b)),
        (V::Float(_), V::Int(..)) => Ok((a, b.cast(FLOAT8, ty, true)?)),
        _ => Ok((a, b)),
    }
}

/// Comparison of two non-null values; None: not comparable.
pub fn cmp(a: &V, b: &V) -> Option<Ordering> {
    Some(match (a, b) {
        (V::Bool(x), V::Bool(y)) => x.cmp(y),
        (V::Int(_, x), V::Int(_, y)) => x.cmp(y),
        (V::Float(x), V::Float(y)) => x.total_cmp(y),
        (V::Int(_, x), V::Float(y)) => (*x as f64).total_cmp(y),
        (V::Float(x), V::Int(_, y)) => x.total_cmp(&(*y as f64)),
        (V::Text(x) | V::Unknown(x), V::Text(y) | V::Unknown(y)) => x.as_bytes().cmp(y.as_bytes()),
        (V::Bytes(x), V::Bytes(y)) => x.cmp(y),
        (V::Ts(_, x), V::Ts(_, y)) => x.cmp(y),
        (V::Interval(x), V::Interval(y)) => x.cmp(y),
        (V::Enum(t, x), V::Enum(u, y)) if t == u => x.cmp(y),
        (V::Json(JSONB, x), V::Json(JSONB, y)) => {
            if jeq(x, y) {
                Ordering::Equal
            } else {
                x.to_string().cmp(&y.to_string()).then(Ordering::Less)
            }
        }
        (V::Arr(_, x), V::Arr(_, y)) | (V::Row(x), V::Row(y)) => {
            for (a, b) in x.iter().zip(y) {
                let o = match (a.is_null(), b.is_null()) {
                    (true, true) => Ordering::Equal,
                    (true, false) => Ordering::Greater,
                    (false, true) => Ordering::Less,
                    _ => cmp(a, b)?,
                };
                if o != Ordering::Equal {
                    return Some(o);
                }
            }
            x.len().cmp(&y.len())
        }
        _ => return None,
    })
}
