//! The SQL dialect of the simulated Postgres server: lexer, syntax tree and parser.
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Id(String),
    /// A quoted identifier.
    Qid(String),
    Num(String),
    Str(String),
    Param(usize),
    Op(String),
    Eof,
}

#[derive(Clone, Debug, PartialEq)]
pub struct TypeName {
    pub name: String,
    pub array: bool,
}

pub type Bx = Box<E>;

#[derive(Clone, Debug)]
pub enum E {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Param(usize),
    Col(Option<String>, String),
    Star(Option<String>),
    Un(String, Bx),
    Bin(String, Bx, Bx),
    Cast(Bx, TypeName),
    Func { name: String, args: Vec<E>, star: bool, distinct: bool },
    Case { arg: Option<Bx>, arms: Vec<(E, E)>, other: Option<Bx> },
    InList(Bx, Vec<E>, bool),
    InSub(Bx, Arc<Select>, bool),
    /// expr op ANY/ALL (array)
    Quant { l: Bx, op: String, all: bool, r: Bx },
    QuantSub { l: Bx, op: String, all: bool, r: Arc<Select> },
    Between(Bx, Bx, Bx, bool),
    IsNull(Bx, bool),
    IsBool(Bx, Option<bool>, bool),
    Distinct(Bx, Bx, bool),
    Like(Bx, Bx, bool, bool),
    Array(Vec<E>),
    ArraySub(Arc<Select>),
    Row(Vec<E>),
    Sub(Arc<Select>),
    Exists(Arc<Select>),
    Index(Bx, Bx),
    Field(Bx, String),
    AtTz(Bx, Bx),
    Default,
}

#[derive(Clone, Debug)]
pub enum From {
    Table { name: String, alias: Option<String> },
    Sub { q: Arc<Select>, alias: String, cols: Vec<String> },
    Func { e: E, alias: String, cols: Vec<String> },
    Join { l: Box<From>, r: Box<From>, kind: Join, on: Option<E> },
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Join {
    Inner,
    Left,
    Cross,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum LockWait {
    Block,
    Skip,
    Nowait,
}
#[derive(Clone, Debug)]
pub struct Order {
    pub e: E,
    pub desc: bool,
    pub nulls_first: Option<bool>,
}
#[derive(Clone, Debug, Default)]
pub struct Select {
    pub ctes: Vec<(String, Stmt)>,
    pub distinct: bool,
    pub items: Vec<(E, Option<String>)>,
    pub from: Vec<From>,
    pub wher: Option<E>,
    pub group: Vec<E>,
    pub having: Option<E>,
    pub order: Vec<Order>,
    pub limit: Option<E>,
    pub offset: Option<E>,
    pub lock: Option<LockWait>,
    pub values: Option<Vec<Vec<E>>>,
    /// UNION [ALL] of this and another.
    pub union: Option<(Arc<Select>, bool)>,
}
#[derive(Clone, Debug)]
pub struct ColDef {
    pub name: String,
    pub ty: TypeName,
    pub not_null: bool,
    pub default: Option<E>,
    pub pk: bool,
}
#[derive(Clone, Debug)]
pub enum PlStmt {
    Assign(String, E),
    If(Vec<(E, Vec<PlStmt>)>, Vec<PlStmt>),
    Perform(Select),
    Return(Option<E>),
    Sql(Stmt),
    Nothing,
}
#[derive(Clone, Debug)]
pub struct PlBlock {
    pub vars: Vec<(String, TypeName, Option<E>)>,
    pub body: Vec<PlStmt>,
    pub handlers: Vec<(String, Vec<PlStmt>)>,
}
#[derive(Clone, Debug)]
pub struct Trigger {
    pub name: String,
    pub insert: bool,
    pub update: bool,
    pub delete: bool,
    pub func: String,
    pub when: Option<E>,
}
#[derive(Clone, Debug)]
pub enum Stmt {
    Select(Arc<Select>),
    Insert { ctes: Vec<(String, Stmt)>, table: String, cols: Vec<String>, src: Option<Arc<Select>>, nothing_on_conflict: bool, ret: Vec<(E, Option<String>)> },
    Update { ctes: Vec<(String, Stmt)>, table: String, alias: Option<String>, set: Vec<(String, E)>, from: Vec<From>, wher: Option<E>, ret: Vec<(E, Option<String>)> },
    Delete { ctes: Vec<(String, Stmt)>, table: String, alias: Option<String>, using: Vec<From>, wher: Option<E>, ret: Vec<(E, Option<String>)> },
    Begin,
    Commit,
    Rollback,
    Savepoint(String),
    Release,
    RollbackTo(String),
    Set,
    Listen(String),
    Unlisten(Option<String>),
    Notify(String, String),
    CreateType(String, Vec<String>),
    CreateTable { name: String, if_not_exists: bool, cols: Vec<ColDef> },
    AddColumn { table: String, if_not_exists: bool, col: ColDef },
    CreateIndex,
    CreateFunction { name: String, body: Arc<PlBlock> },
    CreateTrigger { table: String, trig: Trigger },
    DropTable(String),
    DropType(String),
    DropTrigger(String, String),
    DropOther,
    Do(Arc<PlBlock>),
}

pub type PResult<T> = Result<T, String>;

pub fn lex(s: &str) -> PResult<Vec<Tok>> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    while i < c.len() {
        let ch = c[i];
        if ch.is_whitespace() {
            i += 1;
        } else if ch == '-' && c.get(i + 1) == Some(&'-') {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if ch == '/' && c.get(i + 1) == Some(&'*') {
            i += 2;
            while i + 1 < c.len() && !(c[i] == '*' && c[i + 1] == '/') {
                i += 1;
            }
            i += 2;
        } else if ch == '\'' {
            let mut v = String::new();
            i += 1;
            loop {
                match c.get(i) {
                    None => return Err("!unterminated quoted string".into()),
                    Some('\'') if c.get(i + 1) == Some(&'\'') => {
                        v.push('\'');
                        i += 2;
                    }
                    Some('\'') => {
                        i += 1;
                        break;
                    }
                    Some(x) => {
                        v.push(*x);
                        i += 1;
                    }
                }
            }
            out.push(Tok::Str(v));
        } else if ch == '"' {
            let mut v = String::new();
            i += 1;
            loop {
                match c.get(i) {
                    None => return Err("!unterminated quoted identifier".into()),
                    Some('"') if c.get(i + 1) == Some(&'"') => {
                        v.push('"');
                        i += 2;
                    }
                    Some('"') => {
                        i += 1;
                        break;
                    }
                    Some(x) => {
                        v.push(*x);
                        i += 1;
                    }
                }
            }
            out.push(Tok::Qid(v));
        } else if ch == '$' && c.get(i + 1).is_some_and(|x| x.is_ascii_digit()) {
            i += 1;
            let st = i;
            while i < c.len() && c[i].is_ascii_digit() {
                i += 1;
            }
            out.push(Tok::Param(c[st..i].iter().collect::<String>().parse().map_err(|_| "bad parameter")?));
        } else if ch == '$' {
            // dollar quoting
            let st = i;
            i += 1;
            while i < c.len() && c[i] != '$' {
                i += 1;
            }
            let tag: String = c[st..=i.min(c.len() - 1)].iter().collect();
            i += 1;
            let rest: String = c[i.min(c.len())..].iter().collect();
            let Some(p) = rest.find(&tag) else { return Err("!unterminated dollar-quoted string".into()) };
            let body = &rest[..p];
            out.push(Tok::Str(body.to_string()));
            i += body.chars().count() + tag.chars().count();
        } else if ch.is_ascii_digit() || (ch == '.' && c.get(i + 1).is_some_and(|x| x.is_ascii_digit())) {
            let st = i;
            while i < c.len() && (c[i].is_ascii_digit() || c[i] == '.') {
                i += 1;
            }
            if i < c.len() && (c[i] == 'e' || c[i] == 'E') {
                i += 1;
                if i < c.len() && (c[i] == '-' || c[i] == '+') {
                    i += 1;
                }
                while i < c.len() && c[i].is_ascii_digit() {
                    i += 1;
                }
            }
            out.push(Tok::Num(c[st..i].iter().collect()));
        } else if ch.is_alphabetic() || ch == '_' {
            let st = i;
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_' || c[i] == '$') {
                i += 1;
            }
            let w: String = c[st..i].iter().collect::<String>().to_lowercase();
            if (w == "e" || w == "n") && c.get(i) == Some(&'\'') {
                continue;
            }
            out.push(Tok::Id(w));
        } else {
            let two: String = c[i..(i + 2).min(c.len())].iter().collect();
            let three: String = c[i..(i + 3).min(c.len())].iter().collect();
            let op = if ["->>", "#>>"].contains(&three.as_str()) {
                three
            } else if ["::", "<=", ">=", "<>", "!=", "||", "@>", "<@", "&&", "->", ":=", "#>", "~*", "!~"].contains(&two.as_str()) {
                two
            } else {
                ch.to_string()
            };
            i += op.chars().count();
            out.push(Tok::Op(op));
        }
    }
    out.push(Tok::Eof);
    Ok(out)
}

pub struct P {
    t: Vec<Tok>,
    i: usize,
    /// Highest parameter number seen.
    pub params: usize,
}

const RESERVED: &[&str] = &[
    "from", "where", "group", "having", "order", "limit", "offset", "for", "union", "returning", "set", "on", "using", "and", "or", "not", "as", "join", "inner", "left", "cross", "select", "values", "when", "then",
    "else", "end", "in", "is", "between", "like", "ilike", "asc", "desc", "nulls", "fetch", "with", "except", "intersect", "window", "case", "default",
];

impl P {
    pub fn new(s: &str) -> PResult<P> {
        Ok(P { t: lex(s)?, i: 0, params: 0 })
    }
    fn peek(&self) -> &Tok {
        &self.t[self.i.min(self.t.len() - 1)]
    }
    fn peek_at(&self, k: usize) -> &Tok {
        &self.t[(self.i + k).min(self.t.len() - 1)]
    }
    fn next(&mut self) -> Tok {
        let t = self.peek().clone();
        self.i += 1;
        t
    }
    fn is_kw(&self, k: &str) -> bool {
        matches!(self.peek(), Tok::Id(x) if x == k)
    }
    fn kw_at(&self, o: usize, k: &str) -> bool {
        matches!(self.peek_at(o), Tok::Id(x) if x == k)
    }
    fn kw(&mut self, k: &str) -> bool {
        let r = self.is_kw(k);
        if r {
            self.i += 1;
        }
        r
    }
    fn kws(&mut self, ks: &[&str]) -> bool {
        if ks.iter().enumerate().all(|(o, k)| self.kw_at(o, k)) {
            self.i += ks.len();
            return true;
        }
        false
    }
    fn need(&mut self, k: &str) -> PResult<()> {
        if self.kw(k) {
            Ok(())
        } else {
            Err(format!("syntax error at or near {:?}, expected {k}", self.peek()))
        }
    }
    fn is_op(&self, o: &str) -> bool {
        matches!(self.peek(), Tok::Op(x) if x == o)
    }
    fn op(&mut self, o: &str) -> bool {
        let r = self.is_op(o);
        if r {
            self.i += 1;
        }
        r
    }
    fn need_op(&mut self, o: &str) -> PResult<()> {
        if self.op(o) {
            Ok(())
        } else {
            let sure = *self.peek() == Tok::Eof || (o == ")" && self.is_op(";"));
            Err(format!("{}syntax error at or near {:?}, expected {o}", if sure { "!" } else { "" }, self.peek()))
        }
    }
    fn ident(&mut self) -> PResult<String> {
        match self.next() {
            Tok::Id(x) if x == "where" || x == "returning" => Err(format!("!syntax error at or near {x:?}")),
            Tok::Id(x) | Tok::Qid(x) => Ok(x),
            t => Err(format!("!syntax error at or near {t:?}, expected a name")),
        }
    }
    /// schema.name, of which the schema is dropped
    fn qname(&mut self) -> PResult<String> {
        let mut n = self.ident()?;
        while self.op(".") {
            n = self.ident()?;
        }
        Ok(n)
    }
    pub fn script(mut self) -> PResult<(Vec<Stmt>, usize)> {
        let mut v = vec![];
        loop {
            while self.op(";") {}
            if *self.peek() == Tok::Eof {
                break;
            }
            v.push(self.stmt()?);
            if *self.peek() != Tok::Eof && !self.is_op(";") {
                return Err(format!("{}syntax error at or near {:?}", if self.is_op(")") || self.is_op(",") { "!" } else { "" }, self.peek()));
            }
        }
        Ok((v, self.params))
    }
    fn skip_stmt(&mut self) {
        while *self.peek() != Tok::Eof && !self.is_op(";") {
            self.i += 1;
        }
    }
    pub fn stmt(&mut self) -> PResult<Stmt> {
        let ctes = self.ctes()?;
        if self.is_kw("select") || self.is_kw("values") || self.is_op("(") {
            let mut s = self.select()?;
            s.ctes = ctes;
            return Ok(Stmt::Select(Arc::new(s)));
        }
        if self.kw("insert") {
            self.need("into")?;
            let table = self.qname()?;
            if self.kw("as") {
                self.ident()?;
            }
            let mut cols = vec![];
            if self.is_op("(") && !self.kw_at(1, "select") {
                self.op("(");
                loop {
                    cols.push(self.ident()?);
                    if !self.op(",") {
                        break;
                    }
                }
                self.need_op(")")?;
            }
            let src = if self.kws(&["default", "values"]) { None } else { Some(Arc::new(self.select()?)) };
            let mut nothing = false;
            if self.kws(&["on", "conflict"]) {
                if self.op("(") {
                    while !self.op(")") {
                        self.next();
                    }
                }
                self.need("do")?;
                self.need("nothing")?;
                nothing = true;
            }
            let ret = self.returning()?;
            return Ok(Stmt::Insert { ctes, table, cols, src, nothing_on_conflict: nothing, ret });
        }
        if self.kw("update") {
            self.kw("only");
            let table = self.qname()?;
            let alias = self.alias()?;
            self.need("set")?;
            let mut set = vec![];
            loop {
                if self.op("(") {
                    let mut cs = vec![];
                    loop {
                        cs.push(self.ident()?);
                        if !self.op(",") {
                            break;
                        }
                    }
                    self.need_op(")")?;
                    self.need_op("=")?;
                    self.kw("row");
                    self.need_op("(")?;
                    for (k, c) in cs.iter().enumerate() {
                        if k > 0 {
                            self.need_op(",")?;
                        }
                        set.push((c.clone(), self.expr_or_default()?));
                    }
                    self.need_op(")")?;
                } else {
                    let c = self.ident()?;
                    self.need_op("=")?;
                    set.push((c, self.expr_or_default()?));
                }
                if !self.op(",") {
                    break;
                }
            }
            let from = if self.kw("from") { self.from_list()? } else { vec![] };
            let wher = if self.kw("where") { Some(self.expr()?) } else { None };
            let ret = self.returning()?;
            return Ok(Stmt::Update { ctes, table, alias, set, from, wher, ret });
        }
        if self.kw("delete") {
            self.need("from")?;
            self.kw("only");
            let table = self.qname()?;
            let alias = self.alias()?;
            let using = if self.kw("using") { self.from_list()? } else { vec![] };
            let wher = if self.kw("where") { Some(self.expr()?) } else { None };
            let ret = self.returning()?;
            return Ok(Stmt::Delete { ctes, table, alias, using, wher, ret });
        }
        if !ctes.is_empty() {
            return Err("syntax error after WITH".into());
        }
        if self.kw("begin") || self.kws(&["start", "transaction"]) {
            self.skip_stmt();
            return Ok(Stmt::Begin);
        }
        if self.kw("commit") || self.kw("end") {
            self.skip_stmt();
            return Ok(Stmt::Commit);
        }
        if self.kw("rollback") || self.kw("abort") {
            if self.kw("to") {
                self.kw("savepoint");
                return Ok(Stmt::RollbackTo(self.ident()?));
            }
            self.skip_stmt();
            return Ok(Stmt::Rollback);
        }
        if self.kw("savepoint") {
            return Ok(Stmt::Savepoint(self.ident()?));
        }
        if self.kw("release") {
            self.skip_stmt();
            return Ok(Stmt::Release);
        }
        if self.kw("set") || self.kw("reset") {
            self.skip_stmt();
            return Ok(Stmt::Set);
        }
        if self.kw("listen") {
            return Ok(Stmt::Listen(self.ident()?));
        }
        if self.kw("unlisten") {
            if self.op("*") {
                return Ok(Stmt::Unlisten(None));
            }
            return Ok(Stmt::Unlisten(Some(self.ident()?)));
        }
        if self.kw("notify") {
            let c = self.ident()?;
            let p = if self.op(",") {
                match self.next() {
                    Tok::Str(s) => s,
                    _ => return Err("syntax error in NOTIFY".into()),
                }
            } else {
                String::new()
            };
            return Ok(Stmt::Notify(c, p));
        }
        if self.kw("do") {
            if self.kw("language") {
                self.ident()?;
            }
            let Tok::Str(body) = self.next() else { return Err("syntax error in DO".into()) };
            self.skip_stmt();
            return Ok(Stmt::Do(Arc::new(P::new(&body)?.block()?)));
        }
        if self.kw("create") {
            let _ = self.kws(&["or", "replace"]);
            if self.kw("type") {
                let n = self.qname()?;
                self.need("as")?;
                self.need("enum")?;
                self.need_op("(")?;
                let mut v = vec![];
                loop {
                    match self.next() {
                        Tok::Str(s) => v.push(s),
                        t => return Err(format!("syntax error at or near {t:?}")),
                    }
                    if !self.op(",") {
                        break;
                    }
                }
                self.need_op(")")?;
                return Ok(Stmt::CreateType(n, v));
            }
            if self.kw("table") {
                let ine = self.kws(&["if", "not", "exists"]);
                let name = self.qname()?;
                self.need_op("(")?;
                let mut cols: Vec<ColDef> = vec![];
                loop {
                    if self.kws(&["primary", "key"]) {
                        self.need_op("(")?;
                        let c = self.ident()?;
                        self.need_op(")")?;
                        if let Some(d) = cols.iter_mut().find(|d| d.name == c) {
                            d.pk = true;
                            d.not_null = true;
                        }
                    } else {
                        cols.push(self.coldef()?);
                    }
                    if !self.op(",") {
                        break;
                    }
                }
                self.need_op(")")?;
                return Ok(Stmt::CreateTable { name, if_not_exists: ine, cols });
            }
            let unique = self.kw("unique");
            if self.kw("index") {
                if unique {
                    return Err("unique indexes are not simulated".into());
                }
                self.skip_stmt();
                return Ok(Stmt::CreateIndex);
            }
            if self.kw("function") {
                let name = self.qname()?;
                let mut body = None;
                while *self.peek() != Tok::Eof && !self.is_op(";") {
                    if let Tok::Str(s) = self.next() {
                        body = Some(s);
                    }
                }
                let body = body.ok_or("function without body")?;
                return Ok(Stmt::CreateFunction { name, body: Arc::new(P::new(&body)?.block()?) });
            }
            if self.kw("trigger") {
                let name = self.ident()?;
                self.need("after")?;
                let mut t = Trigger { name, insert: false, update: false, delete: false, func: String::new(), when: None };
                loop {
                    match self.ident()?.as_str() {
                        "insert" => t.insert = true,
                        "update" => t.update = true,
                        "delete" => t.delete = true,
                        x => return Err(format!("trigger event {x}")),
                    }
                    if !self.kw("or") {
                        break;
                    }
                }
                self.need("on")?;
                let table = self.qname()?;
                self.need("for")?;
                self.kw("each");
                self.need("row")?;
                if self.kw("when") {
                    self.need_op("(")?;
                    t.when = Some(self.expr()?);
                    self.need_op(")")?;
                }
                self.need("execute")?;
                if !self.kw("function") {
                    self.need("procedure")?;
                }
                t.func = self.qname()?;
                self.skip_stmt();
                return Ok(Stmt::CreateTrigger { table, trig: t });
            }
            return Err(format!("CREATE {:?} is not simulated", self.peek()));
        }
        if self.kws(&["alter", "table"]) {
            let _ = self.kws(&["if", "exists"]);
            let table = self.qname()?;
            if self.kw("add") {
                self.kw("column");
                let ine = self.kws(&["if", "not", "exists"]);
                let col = self.coldef()?;
                return Ok(Stmt::AddColumn { table, if_not_exists: ine, col });
            }
            return Err("ALTER TABLE is not simulated".into());
        }
        if self.kw("drop") {
            let what = self.ident()?;
            let _ = self.kws(&["if", "exists"]);
            let name = self.qname()?;
            let s = match what.as_str() {
                "table" => Stmt::DropTable(name),
                "type" => Stmt::DropType(name),
                "trigger" => {
                    self.need("on")?;
                    let t = self.qname()?;
                    Stmt::DropTrigger(name, t)
                }
                _ => Stmt::DropOther,
            };
            self.skip_stmt();
            return Ok(s);
        }
        Err(format!("syntax error at or near {:?}", self.peek()))
    }
    fn coldef(&mut self) -> PResult<ColDef> {
        let name = self.ident()?;
        let mut ty = self.type_name()?;
        let mut d = ColDef { name, ty: ty.clone(), not_null: false, default: None, pk: false };
        if ty.name == "serial" || ty.name == "bigserial" {
            ty.name = if ty.name == "serial" { "int4".into() } else { "int8".into() };
            d.ty = ty;
            d.not_null = true;
            d.default = Some(E::Func { name: "__nextval".into(), args: vec![], star: false, distinct: false });
        }
        loop {
            if self.kws(&["not", "null"]) {
                d.not_null = true;
            } else if self.kw("null") {
            } else if self.kws(&["primary", "key"]) {
                d.pk = true;
                d.not_null = true;
            } else if self.kw("default") {
                d.default = Some(self.binary(5)?);
            } else {
                break;
            }
        }
        Ok(d)
    }
    pub fn block(mut self) -> PResult<PlBlock> {
        let mut vars = vec![];
        if self.kw("declare") {
            while !self.is_kw("begin") {
                let n = self.ident()?;
                let t = self.type_name()?;
                let d = if self.op(":=") || self.op("=") || self.kw("default") { Some(self.expr()?) } else { None };
                self.need_op(";")?;
                vars.push((n, t, d));
            }
        }
        self.need("begin")?;
        let body = self.pl_stmts()?;
        let mut handlers = vec![];
        if self.kw("exception") {
            while self.kw("when") {
                let c = self.ident()?;
                self.need("then")?;
                handlers.push((c, self.pl_stmts()?));
            }
        }
        self.need("end")?;
        Ok(PlBlock { vars, body, handlers })
    }
    fn pl_stmts(&mut self) -> PResult<Vec<PlStmt>> {
        let mut v = vec![];
        loop {
            while self.op(";") {}
            if ["end", "exception", "elsif", "elseif", "else", "when"].iter().any(|k| self.is_kw(k)) || *self.peek() == Tok::Eof {
                return Ok(v);
            }
            if self.kw("null") {
                v.push(PlStmt::Nothing);
            } else if self.kw("return") {
                if self.is_op(";") {
                    v.push(PlStmt::Return(None));
                } else {
                    v.push(PlStmt::Return(Some(self.expr()?)));
                }
            } else if self.kw("perform") {
                v.push(PlStmt::Perform(self.select_body()?));
            } else if self.kw("if") {
                let mut arms = vec![];
                let c = self.expr()?;
                self.need("then")?;
                arms.push((c, self.pl_stmts()?));
                let mut other = vec![];
                loop {
                    if self.kw("elsif") || self.kw("elseif") {
                        let c = self.expr()?;
                        self.need("then")?;
                        arms.push((c, self.pl_stmts()?));
                    } else if self.kw("else") {
                        other = self.pl_stmts()?;
                    } else {
                        self.need("end")?;
                        self.need("if")?;
                        break;
                    }
                }
                v.push(PlStmt::If(arms, other));
            } else if matches!(self.peek_at(1), Tok::Op(o) if o == "=" || o == ":=") {
                let n = self.ident()?;
                self.next();
                v.push(PlStmt::Assign(n, self.expr()?));
            } else {
                v.push(PlStmt::Sql(self.stmt()?));
            }
            if !self.op(";") {
                return Err(format!("syntax error in function body at {:?}", self.peek()));
            }
        }
    }
    fn ctes(&mut self) -> PResult<Vec<(String, Stmt)>> {
        let mut v = vec![];
        if self.kw("with") {
            loop {
                let n = self.ident()?;
                self.need("as")?;
                let _ = self.kws(&["not", "materialized"]) || self.kw("materialized");
                self.need_op("(")?;
                let s = self.stmt()?;
                self.need_op(")")?;
                v.push((n, s));
                if !self.op(",") {
                    break;
                }
            }
        }
        Ok(v)
    }
    fn alias(&mut self) -> PResult<Option<String>> {
        if self.kw("as") {
            return Ok(Some(self.ident()?));
        }
        match self.peek() {
            Tok::Id(x) if !RESERVED.contains(&x.as_str()) => Ok(Some(self.ident()?)),
            Tok::Qid(_) => Ok(Some(self.ident()?)),
            _ => Ok(None),
        }
    }
    fn returning(&mut self) -> PResult<Vec<(E, Option<String>)>> {
        if self.kw("returning") {
            self.items()
        } else {
            Ok(vec![])
        }
    }
    fn items(&mut self) -> PResult<Vec<(E, Option<String>)>> {
        let mut v = vec![];
        loop {
            if self.op("*") {
                v.push((E::Star(None), None));
            } else {
                let e = self.expr()?;
                let a = self.alias()?;
                v.push((e, a));
            }
            if !self.op(",") {
                return Ok(v);
            }
        }
    }
    fn from_list(&mut self) -> PResult<Vec<From>> {
        let mut v = vec![self.from_item()?];
        while self.op(",") {
            v.push(self.from_item()?);
        }
        Ok(v)
    }
    fn from_item(&mut self) -> PResult<From> {
        let mut l = self.from_prim()?;
        loop {
            let kind = if self.kws(&["cross", "join"]) {
                Join::Cross
            } else if self.kw("join") || self.kws(&["inner", "join"]) {
                Join::Inner
            } else if self.kws(&["left", "join"]) || self.kws(&["left", "outer", "join"]) {
                Join::Left
            } else {
                return Ok(l);
            };
            let r = self.from_prim()?;
            let on = if kind != Join::Cross {
                self.need("on")?;
                Some(self.expr()?)
            } else {
                None
            };
            l = From::Join { l: Box::new(l), r: Box::new(r), kind, on };
        }
    }
    fn col_aliases(&mut self) -> PResult<Vec<String>> {
        let mut v = vec![];
        if self.op("(") {
            loop {
                v.push(self.ident()?);
                if !self.op(",") {
                    break;
                }
            }
            self.need_op(")")?;
        }
        Ok(v)
    }
    fn from_prim(&mut self) -> PResult<From> {
        self.kw("lateral");
        if self.op("(") {
            if self.is_kw("select") || self.is_kw("values") || self.is_kw("with") {
                let ctes = self.ctes()?;
                let mut q = self.select()?;
                q.ctes = ctes;
                self.need_op(")")?;
                let alias = self.alias()?.unwrap_or_else(|| "subquery".into());
                let cols = self.col_aliases()?;
                return Ok(From::Sub { q: Arc::new(q), alias, cols });
            }
            let f = self.from_item()?;
            self.need_op(")")?;
            return Ok(f);
        }
        self.kw("only");
        let save = self.i;
        let name = self.qname()?;
        if self.is_op("(") {
            self.i = save;
            let e = self.primary()?;
            let alias = self.alias()?.unwrap_or_else(|| name.clone());
            let cols = self.col_aliases()?;
            return Ok(From::Func { e, alias, cols });
        }
        let alias = self.alias()?;
        Ok(From::Table { name, alias })
    }
    fn select(&mut self) -> PResult<Select> {
        if self.op("(") {
            let ctes = self.ctes()?;
            let mut s = self.select()?;
            s.ctes = ctes;
            self.need_op(")")?;
            return Ok(s);
        }
        if self.kw("values") {
            let mut rows = vec![];
            loop {
                self.need_op("(")?;
                let mut r = vec![];
                loop {
                    r.push(self.expr_or_default()?);
                    if !self.op(",") {
                        break;
                    }
                }
                self.need_op(")")?;
                rows.push(r);
                if !self.op(",") {
                    break;
                }
            }
            return Ok(Select { values: Some(rows), ..Default::default() });
        }
        self.need("select")?;
        self.select_body()
    }
    /// After the SELECT keyword.
    fn select_body(&mut self) -> PResult<Select> {
        let mut s = Select { distinct: self.kw("distinct"), ..Default::default() };
        if s.distinct && self.is_kw("on") {
            return Err("DISTINCT ON is not simulated".into());
        }
        self.kw("all");
        if !self.is_kw("from") && !self.is_op(")") {
            s.items = self.items()?;
        }
        if self.kw("from") {
            s.from = self.from_list()?;
        }
        if self.kw("where") {
            s.wher = Some(self.expr()?);
        }
        if self.kws(&["group", "by"]) {
            loop {
                s.group.push(self.expr()?);
                if !self.op(",") {
                    break;
                }
            }
        }
        if self.kw("having") {
            s.having = Some(self.expr()?);
        }
        if self.kw("union") {
            let all = self.kw("all");
            let r = self.select()?;
            s.union = Some((Arc::new(r), all));
        }
        if self.kws(&["order", "by"]) {
            loop {
                let e = self.expr()?;
                let desc = if self.kw("desc") {
                    true
                } else {
                    self.kw("asc");
                    false
                };
                let nf = if self.kw("nulls") {
                    if self.kw("first") {
                        Some(true)
                    } else {
                        self.need("last")?;
                        Some(false)
                    }
                } else {
                    None
                };
                s.order.push(Order { e, desc, nulls_first: nf });
                if !self.op(",") {
                    break;
                }
            }
        }
        loop {
            if self.kw("limit") {
                if !self.kw("all") {
                    s.limit = Some(self.expr()?);
                }
            } else if self.kw("offset") {
                s.offset = Some(self.expr()?);
                let _ = self.kw("rows") || self.kw("row");
            } else if self.kw("fetch") {
                let _ = self.kw("first") || self.kw("next");
                s.limit = Some(if self.is_kw("row") || self.is_kw("rows") { E::Num("1".into()) } else { self.primary()? });
                let _ = self.kw("rows") || self.kw("row");
                self.need("only")?;
            } else if self.kw("for") {
                let _ = self.kws(&["no", "key"]) || self.kw("key");
                if !self.kw("update") {
                    self.need("share")?;
                }
                if self.kw("of") {
                    self.ident()?;
                }
                s.lock = Some(if self.kws(&["skip", "locked"]) {
                    LockWait::Skip
                } else if self.kw("nowait") {
                    LockWait::Nowait
                } else {
                    LockWait::Block
                });
            } else {
                break;
            }
        }
        Ok(s)
    }
    fn expr_or_default(&mut self) -> PResult<E> {
        if self.kw("default") {
            return Ok(E::Default);
        }
        self.expr()
    }
    pub fn expr(&mut self) -> PResult<E> {
        self.binary(0)
    }
    fn prefix(&mut self) -> PResult<E> {
        if self.kw("not") {
            let e = self.binary(3)?;
            return Ok(E::Un("not".into(), Box::new(e)));
        }
        if self.op("-") {
            let e = self.binary(9)?;
            return Ok(E::Un("-".into(), Box::new(e)));
        }
        if self.op("+") {
            return self.binary(9);
        }
        self.postfix()
    }
    /// Precedence climbing: 1 or, 2 and, 3 not, 4 is, 5 comparison, 6 between/in/like, 7 other
    /// operators, 8 additive, 9 multiplicative.
    fn binary(&mut self, min: u8) -> PResult<E> {
        let mut l = self.prefix()?;
        loop {
            let t = self.peek().clone();
            match &t {
                Tok::Id(k) => match k.as_str() {
                    "or" if min <= 1 => {
                        self.next();
                        let r = self.binary(2)?;
                        l = E::Bin("or".into(), Box::new(l), Box::new(r));
                    }
                    "and" if min <= 2 => {
                        self.next();
                        let r = self.binary(3)?;
                        l = E::Bin("and".into(), Box::new(l), Box::new(r));
                    }
                    "is" if min <= 4 => {
                        self.next();
                        let neg = self.kw("not");
                        if self.kw("null") {
                            l = E::IsNull(Box::new(l), neg);
                        } else if self.kw("true") {
                            l = E::IsBool(Box::new(l), Some(true), neg);
                        } else if self.kw("false") {
                            l = E::IsBool(Box::new(l), Some(false), neg);
                        } else if self.kw("unknown") {
                            l = E::IsBool(Box::new(l), None, neg);
                        } else if self.kw("distinct") {
                            self.need("from")?;
                            let r = self.binary(5)?;
                            l = E::Distinct(Box::new(l), Box::new(r), neg);
                        } else {
                            return Err(format!("syntax error after IS: {:?}", self.peek()));
                        }
                    }
                    "isnull" if min <= 4 => {
                        self.next();
                        l = E::IsNull(Box::new(l), false);
                    }
                    "notnull" if min <= 4 => {
                        self.next();
                        l = E::IsNull(Box::new(l), true);
                    }
                    "in" | "between" | "like" | "ilike" if min <= 6 => {
                        l = self.range_op(l, false)?;
                    }
                    "not" if min <= 6 && ["in", "between", "like", "ilike"].iter().any(|k| self.kw_at(1, k)) => {
                        self.next();
                        l = self.range_op(l, true)?;
                    }
                    "at" if self.kw_at(1, "time") && self.kw_at(2, "zone") => {
                        self.i += 3;
                        let z = self.binary(9)?;
                        l = E::AtTz(Box::new(l), Box::new(z));
                    }
                    _ => return Ok(l),
                },
                Tok::Op(o) => {
                    let p = match o.as_str() {
                        "=" | "<" | ">" | "<=" | ">=" | "<>" | "!=" => 5,
                        "+" | "-" => 8,
                        "*" | "/" | "%" => 9,
                        "||" | "@>" | "<@" | "&&" | "->" | "->>" | "#>" | "#>>" | "?" | "~" | "!~" | "~*" => 7,
                        _ => return Ok(l),
                    };
                    if p < min {
                        return Ok(l);
                    }
                    self.next();
                    let op = if o == "!=" { "<>".to_string() } else { o.clone() };
                    if p == 5 || p == 7 {
                        let q = if self.is_kw("any") || self.is_kw("some") {
                            Some(false)
                        } else if self.is_kw("all") {
                            Some(true)
                        } else {
                            None
                        };
                        if let Some(all) = q {
                            self.next();
                            self.need_op("(")?;
                            if self.is_kw("select") || self.is_kw("values") || self.is_kw("with") {
                                let ctes = self.ctes()?;
                                let mut s = self.select()?;
                                s.ctes = ctes;
                                self.need_op(")")?;
                                l = E::QuantSub { l: Box::new(l), op, all, r: Arc::new(s) };
                            } else {
                                let r = self.expr()?;
                                self.need_op(")")?;
                                l = E::Quant { l: Box::new(l), op, all, r: Box::new(r) };
                            }
                            continue;
                        }
                    }
                    let r = self.binary(p + 1)?;
                    l = E::Bin(op, Box::new(l), Box::new(r));
                }
                _ => return Ok(l),
            }
        }
    }
    fn range_op(&mut self, l: E, neg: bool) -> PResult<E> {
        let l = Box::new(l);
        if self.kw("in") {
            self.need_op("(")?;
            if self.is_kw("select") || self.is_kw("values") || self.is_kw("with") {
                let ctes = self.ctes()?;
                let mut s = self.select()?;
                s.ctes = ctes;
                self.need_op(")")?;
                return Ok(E::InSub(l, Arc::new(s), neg));
            }
            let mut v = vec![];
            loop {
                v.push(self.expr()?);
                if !self.op(",") {
                    break;
                }
            }
            self.need_op(")")?;
            return Ok(E::InList(l, v, neg));
        }
        if self.kw("between") {
            self.kw("symmetric");
            let a = self.binary(7)?;
            self.need("and")?;
            let b = self.binary(7)?;
            return Ok(E::Between(l, Box::new(a), Box::new(b), neg));
        }
        let i = self.is_kw("ilike");
        self.next();
        let r = self.binary(7)?;
        Ok(E::Like(l, Box::new(r), i, neg))
    }
    fn postfix(&mut self) -> PResult<E> {
        let mut e = self.primary()?;
        loop {
            if self.op("::") {
                let t = self.type_name()?;
                e = E::Cast(Box::new(e), t);
            } else if self.is_op("[") && !matches!(e, E::Array(_)) {
                self.op("[");
                let i = self.expr()?;
                self.need_op("]")?;
                e = E::Index(Box::new(e), Box::new(i));
            } else {
                return Ok(e);
            }
        }
    }
    pub fn type_name(&mut self) -> PResult<TypeName> {
        let mut n = self.ident()?;
        while self.op(".") {
            n = self.ident()?;
        }
        match n.as_str() {
            "character" => {
                n = if self.kw("varying") { "varchar".into() } else { "text".into() };
            }
            "double" => {
                self.need("precision")?;
                n = "float8".into();
            }
            "timestamp" | "time" => {
                if self.kws(&["with", "time", "zone"]) {
                    n = "timestamptz".into();
                } else {
                    let _ = self.kws(&["without", "time", "zone"]);
                }
            }
            "int" | "integer" => n = "int4".into(),
            "bigint" => n = "int8".into(),
            "smallint" => n = "int2".into(),
            "boolean" => n = "bool".into(),
            "decimal" => n = "numeric".into(),
            "real" => n = "float8".into(),
            _ => {}
        }
        if self.op("(") {
            while !self.op(")") {
                self.next();
            }
        }
        let mut array = false;
        while self.is_op("[") {
            self.op("[");
            if let Tok::Num(_) = self.peek() {
                self.next();
            }
            self.need_op("]")?;
            array = true;
        }
        Ok(TypeName { name: n, array })
    }
    fn primary(&mut self) -> PResult<E> {
        match self.next() {
            Tok::Num(n) => Ok(E::Num(n)),
            Tok::Str(s) => Ok(E::Str(s)),
            Tok::Param(n) => {
                self.params = self.params.max(n);
                Ok(E::Param(n))
            }
            Tok::Op(o) if o == "(" => {
                if self.is_kw("select") || self.is_kw("values") || self.is_kw("with") {
                    let ctes = self.ctes()?;
                    let mut s = self.select()?;
                    s.ctes = ctes;
                    self.need_op(")")?;
                    return Ok(E::Sub(Arc::new(s)));
                }
                let e = self.expr()?;
                if self.is_op(",") {
                    let mut v = vec![e];
                    while self.op(",") {
                        v.push(self.expr()?);
                    }
                    self.need_op(")")?;
                    return Ok(E::Row(v));
                }
                self.need_op(")")?;
                Ok(e)
            }
            Tok::Qid(n) => self.column(n),
            Tok::Id(k) => match k.as_str() {
                "null" => Ok(E::Null),
                "true" => Ok(E::Bool(true)),
                "false" => Ok(E::Bool(false)),
                "case" => {
                    let arg = if self.is_kw("when") { None } else { Some(Box::new(self.expr()?)) };
                    let mut arms = vec![];
                    while self.kw("when") {
                        let c = self.expr()?;
                        self.need("then")?;
                        arms.push((c, self.expr()?));
                    }
                    let other = if self.kw("else") { Some(Box::new(self.expr()?)) } else { None };
                    self.need("end")?;
                    Ok(E::Case { arg, arms, other })
                }
                "exists" if self.is_op("(") => {
                    self.op("(");
                    let ctes = self.ctes()?;
                    let mut s = self.select()?;
                    s.ctes = ctes;
                    self.need_op(")")?;
                    Ok(E::Exists(Arc::new(s)))
                }
                "cast" if self.is_op("(") => {
                    self.op("(");
                    let e = self.expr()?;
                    self.need("as")?;
                    let t = self.type_name()?;
                    self.need_op(")")?;
                    Ok(E::Cast(Box::new(e), t))
                }
                "array" if self.is_op("[") || self.is_op("(") => {
                    if self.op("(") {
                        let s = self.select()?;
                        self.need_op(")")?;
                        return Ok(E::ArraySub(Arc::new(s)));
                    }
                    self.op("[");
                    let mut v = vec![];
                    if !self.op("]") {
                        loop {
                            v.push(self.expr()?);
                            if !self.op(",") {
                                break;
                            }
                        }
                        self.need_op("]")?;
                    }
                    Ok(E::Array(v))
                }
                "row" if self.is_op("(") => {
                    self.op("(");
                    let mut v = vec![];
                    loop {
                        v.push(self.expr()?);
                        if !self.op(",") {
                            break;
                        }
                    }
                    self.need_op(")")?;
                    Ok(E::Row(v))
                }
                "interval" if matches!(self.peek(), Tok::Str(_)) => {
                    let Tok::Str(s) = self.next() else { unreachable!() };
                    Ok(E::Cast(Box::new(E::Str(s)), TypeName { name: "interval".into(), array: false }))
                }
                "timestamptz" | "timestamp" | "jsonb" | "json" if matches!(self.peek(), Tok::Str(_)) => {
                    let Tok::Str(s) = self.next() else { unreachable!() };
                    Ok(E::Cast(Box::new(E::Str(s)), TypeName { name: k, array: false }))
                }
                "current_timestamp" | "localtimestamp" => Ok(E::Func { name: k, args: vec![], star: false, distinct: false }),
                x if RESERVED.contains(&x) => Err(format!("!syntax error at or near \"{x}\"")),
                _ => self.column(k),
            },
            Tok::Eof => Err("!syntax error at end of input".into()),
            Tok::Op(o) if [")", ",", ";", "=", "]"].contains(&o.as_str()) => Err(format!("!syntax error at or near {o:?}")),
            t => Err(format!("syntax error at or near {t:?}")),
        }
    }
    fn column(&mut self, first: String) -> PResult<E> {
        let mut parts = vec![first];
        while self.is_op(".") {
            self.op(".");
            if self.op("*") {
                return Ok(E::Star(parts.pop()));
            }
            parts.push(self.ident()?);
        }
        if self.is_op("(") {
            self.op("(");
            let name = parts.pop().unwrap();
            if self.op("*") {
                self.need_op(")")?;
                return Ok(E::Func { name, args: vec![], star: true, distinct: false });
            }
            let distinct = self.kw("distinct");
            let mut args = vec![];
            if !self.op(")") {
                loop {
                    args.push(self.expr()?);
                    if !self.op(",") {
                        break;
                    }
                }
                self.need_op(")")?;
            }
            if self.is_kw("over") {
                return Err("window functions are not simulated".into());
            }
            return Ok(E::Func { name, args, star: false, distinct });
        }
        let c = parts.pop().unwrap();
        Ok(E::Col(parts.pop(), c))
    }
}

pub fn parse(sql: &str) -> PResult<(Vec<Stmt>, usize)> {
    P::new(sql)?.script()
}
