//! Random filter expressions, an independent reader of SQL conditions (SQL's own precedence), and
//! an independent evaluator (three-valued logic).
use crate::common::*;
use butane_core::query::{BoolExpr, Column, Expr, Join};
use butane_core::SqlVal;
use std::borrow::Cow;

#[derive(Clone, Debug, PartialEq)]
pub enum N {
    True,
    False,
    And(Vec<N>),
    Or(Vec<N>),
    Not(Box<N>),
    Null(String),
    NotNull(String),
    Cmp(String, String, O),
    In(String, Vec<O>),
    Sub { col: String, sel: String, from: String, joins: Vec<(String, String, String)>, cond: Box<N> },
}
#[derive(Clone, Debug, PartialEq)]
pub enum O {
    Col(String),
    Marker(usize), // n-th marker in the text (its number, on numbered backends)
    Val(String),   // a value, once markers are resolved
    Int(i64),
}
pub fn and(v: Vec<N>) -> N {
    let mut o = vec![];
    for x in v {
        match x {
            N::And(w) => o.extend(w),
            x => o.push(x),
        }
    }
    match o.len() {
        0 => N::True,
        1 => o.pop().unwrap(),
        _ => N::And(o),
    }
}
pub fn or(v: Vec<N>) -> N {
    let mut o = vec![];
    for x in v {
        match x {
            N::Or(w) => o.extend(w),
            x => o.push(x),
        }
    }
    if o.len() == 1 {
        o.pop().unwrap()
    } else {
        N::Or(o)
    }
}
pub fn vkey(v: &SqlVal) -> String {
    match v {
        SqlVal::Int(i) => format!("int:{i}"),
        SqlVal::BigInt(i) => format!("int:{i}"),
        SqlVal::Bool(b) => format!("bool:{b}"),
        SqlVal::Real(r) => format!("real:{r:?}"),
        SqlVal::Text(t) => format!("text:{t:?}"),
        SqlVal::Blob(b) => format!("blob:{b:?}"),
        SqlVal::Null => "NULL".into(),
        x => format!("{x:?}"),
    }
}
fn op_of(e: &Expr) -> O {
    match e {
        Expr::Column(c) => O::Col(c.to_string()),
        Expr::Val(SqlVal::Int(i)) => O::Int(*i as i64),
        Expr::Val(SqlVal::BigInt(i)) => O::Int(*i),
        Expr::Val(v) => O::Val(vkey(v)),
        Expr::Placeholder => O::Val("?".into()),
        Expr::Condition(_) => O::Val("<condition>".into()),
    }
}
fn qc(c: &Column) -> String {
    match c.table() {
        Some(t) => format!("{t}.{}", c.name()),
        None => c.name().to_string(),
    }
}
pub fn norm(c: &BoolExpr) -> N {
    use BoolExpr::*;
    match c {
        True => N::True,
        Eq(c, Expr::Val(SqlVal::Null)) => N::Null(c.to_string()),
        Ne(c, Expr::Val(SqlVal::Null)) => N::NotNull(c.to_string()),
        Eq(c, e) => N::Cmp(c.to_string(), "=".into(), op_of(e)),
        Ne(c, e) => N::Cmp(c.to_string(), "<>".into(), op_of(e)),
        Lt(c, e) => N::Cmp(c.to_string(), "<".into(), op_of(e)),
        Gt(c, e) => N::Cmp(c.to_string(), ">".into(), op_of(e)),
        Le(c, e) => N::Cmp(c.to_string(), "<=".into(), op_of(e)),
        Ge(c, e) => N::Cmp(c.to_string(), ">=".into(), op_of(e)),
        Like(c, e) => N::Cmp(c.to_string(), "LIKE".into(), op_of(e)),
        AllOf(v) => and(v.iter().map(norm).collect()),
        And(a, b) => and(vec![norm(a), norm(b)]),
        Or(a, b) => or(vec![norm(a), norm(b)]),
        Not(a) => N::Not(Box::new(norm(a))),
        In(_, v) if v.is_empty() => N::False,
        In(c, v) => N::In(c.to_string(), v.iter().map(|x| op_of(&Expr::Val(x.clone()))).collect()),
        Subquery { col, tbl2, tbl2_col, expr } => N::Sub { col: col.to_string(), sel: tbl2_col.to_string(), from: tbl2.to_string(), joins: vec![], cond: Box::new(norm(expr)) },
        SubqueryJoin { col, tbl2, col2, joins, expr } => N::Sub {
            col: col.to_string(),
            sel: qc(col2),
            from: tbl2.to_string(),
            joins: joins.iter().map(|j| match j { Join::Inner { join_table, col1, col2 } => (join_table.to_string(), qc(col1), qc(col2)) }).collect(),
            cond: Box::new(norm(expr)),
        },
    }
}
/// the non-inline values in left-to-right order
pub fn values_of(c: &BoolExpr, out: &mut Vec<String>) {
    use BoolExpr::*;
    let mut e1 = |e: &Expr, nulltest: bool| match e {
        Expr::Val(SqlVal::Int(_)) | Expr::Val(SqlVal::BigInt(_)) => {}
        Expr::Val(SqlVal::Null) if nulltest => {}
        Expr::Val(v) => out.push(vkey(v)),
        _ => {}
    };
    match c {
        Eq(_, e) | Ne(_, e) => e1(e, true),
        Lt(_, e) | Gt(_, e) | Le(_, e) | Ge(_, e) | Like(_, e) => e1(e, false),
        In(_, v) => v.iter().for_each(|v| e1(&Expr::Val(v.clone()), false)),
        AllOf(v) => v.iter().for_each(|x| values_of(x, out)),
        And(a, b) | Or(a, b) => {
            values_of(a, out);
            values_of(b, out)
        }
        Not(a) => values_of(a, out),
        Subquery { expr, .. } | SubqueryJoin { expr, .. } => values_of(expr, out),
        True => {}
    }
}

// ---------- reader ----------
pub const RESERVED: &[&str] = &[
    "ALL", "AND", "ANY", "AS", "ASC", "CASE", "CHECK", "COLUMN", "CREATE", "DEFAULT", "DESC", "DISTINCT", "ELSE", "END", "FALSE", "FOR", "FOREIGN", "FROM",
    "GRANT", "GROUP", "HAVING", "IN", "INTO", "LIMIT", "NOT", "NULL", "OFFSET", "ON", "OR", "ORDER", "PRIMARY", "REFERENCES", "SELECT", "TABLE", "THEN", "TO",
    "TRUE", "UNION", "UNIQUE", "USER", "USING", "WHEN", "WHERE", "WITH", "INNER", "JOIN", "IS", "LIKE", "INSERT", "UPDATE", "DELETE", "SET", "VALUES",
];
#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Id(String),
    Q(String),
    Num(i64),
    Mark(usize),
    P(String),
    Str(String),
}
pub fn lex(s: &str) -> Result<Vec<T>, String> {
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut v = vec![];
    let mut marks = 0;
    while i < b.len() {
        let c = b[i];
        if c.is_whitespace() {
            i += 1;
        } else if c == '"' {
            let mut w = String::new();
            i += 1;
            loop {
                if i >= b.len() {
                    return Err("unterminated identifier".into());
                }
                if b[i] == '"' {
                    if b.get(i + 1) == Some(&'"') {
                        w.push('"');
                        i += 2;
                        continue;
                    }
                    i += 1;
                    break;
                }
                w.push(b[i]);
                i += 1;
            }
            v.push(T::Q(w));
        } else if c == '\'' {
            let mut w = String::new();
            i += 1;
            loop {
                if i >= b.len() {
                    return Err("unterminated string".into());
                }
                if b[i] == '\'' {
                    if b.get(i + 1) == Some(&'\'') {
                        w.push('\'');
                        i += 2;
                        continue;
                    }
                    i += 1;
                    break;
                }
                w.push(b[i]);
                i += 1;
            }
            v.push(T::Str(w));
        } else if c == '?' {
            marks += 1;
            v.push(T::Mark(marks));
            i += 1;
        } else if c == '$' {
            let mut n = String::new();
            i += 1;
            while i < b.len() && b[i].is_ascii_digit() {
                n.push(b[i]);
                i += 1;
            }
            v.push(T::Mark(n.parse().map_err(|_| "bad marker")?));
        } else if c.is_alphabetic() || c == '_' {
            let mut w = String::new();
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                w.push(b[i]);
                i += 1;
            }
            v.push(T::Id(w));
        } else if c.is_ascii_digit() || (c == '-' && b.get(i + 1).map(|x| x.is_ascii_digit()).unwrap_or(false)) {
            let mut w = String::new();
            w.push(c);
            i += 1;
            while i < b.len() && b[i].is_ascii_digit() {
                w.push(b[i]);
                i += 1;
            }
            if i < b.len() && (b[i].is_alphabetic() || b[i] == '_') {
                return Err(format!("junk after number near {w}"));
            }
            v.push(T::Num(w.parse().map_err(|_| format!("bad number {w}"))?));
        } else {
            let two: String = b[i..(i + 2).min(b.len())].iter().collect();
            if ["<=", ">=", "<>", "!="].contains(&two.as_str()) {
                v.push(T::P(two));
                i += 2;
            } else {
                v.push(T::P(c.to_string()));
                i += 1;
            }
        }
    }
    Ok(v)
}
pub struct Parser {
    pub t: Vec<T>,
    pub i: usize,
}
type PR<X> = Result<X, String>;
impl Parser {
    pub fn new(s: &str) -> PR<Parser> {
        Ok(Parser { t: lex(s)?, i: 0 })
    }
    pub fn peek(&self) -> Option<&T> {
        self.t.get(self.i)
    }
    pub fn kw(&mut self, k: &str) -> bool {
        if let Some(T::Id(w)) = self.peek() {
            if w.eq_ignore_ascii_case(k) {
                self.i += 1;
                return true;
            }
        }
        false
    }
    pub fn p(&mut self, k: &str) -> bool {
        if self.peek() == Some(&T::P(k.into())) {
            self.i += 1;
            return true;
        }
        false
    }
    pub fn need(&mut self, k: &str) -> PR<()> {
        if self.p(k) || self.kw(k) {
            Ok(())
        } else {
            Err(format!("expected {k} at token {}: {:?}", self.i, self.peek()))
        }
    }
    pub fn name(&mut self) -> PR<String> {
        let t = self.peek().cloned();
        self.i += 1;
        match t {
            Some(T::Q(s)) => Ok(s),
            Some(T::Id(s)) => {
                if RESERVED.contains(&s.to_uppercase().as_str()) {
                    Err(format!("reserved word {s} used as a name without quotes"))
                } else {
                    Ok(s)
                }
            }
            t => Err(format!("expected a name, found {t:?}")),
        }
    }
    pub fn qname(&mut self) -> PR<String> {
        let a = self.name()?;
        if self.p(".") {
            let b = self.name()?;
            return Ok(format!("{a}.{b}"));
        }
        Ok(a)
    }
    pub fn cond(&mut self) -> PR<N> {
        let mut v = vec![self.conj()?];
        while self.kw("OR") {
            v.push(self.conj()?);
        }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { or(v) })
    }
    fn conj(&mut self) -> PR<N> {
        let mut v = vec![self.neg()?];
        while self.kw("AND") {
            v.push(self.neg()?);
        }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { and(v) })
    }
    fn neg(&mut self) -> PR<N> {
        if self.kw("NOT") {
            return Ok(N::Not(Box::new(self.neg()?)));
        }
        self.pred()
    }
    fn operand(&mut self) -> PR<O> {
        match self.peek().cloned() {
            Some(T::Mark(n)) => {
                self.i += 1;
                Ok(O::Marker(n))
            }
            Some(T::Num(n)) => {
                self.i += 1;
                Ok(O::Int(n))
            }
            Some(T::Str(s)) => {
                self.i += 1;
                Ok(O::Val(format!("literal {s:?}")))
            }
            _ => Ok(O::Col(self.qname()?)),
        }
    }
    fn pred(&mut self) -> PR<N> {
        if self.kw("TRUE") {
            return Ok(N::True);
        }
        if self.kw("FALSE") {
            return Ok(N::False);
        }
        if self.p("(") {
            let c = self.cond()?;
            self.need(")")?;
            return Ok(c);
        }
        let col = self.qname()?;
        for op in ["=", "<>", "!=", "<=", ">=", "<", ">"] {
            if self.p(op) {
                let o = self.operand()?;
                return Ok(N::Cmp(col, if op == "!=" { "<>".into() } else { op.into() }, o));
            }
        }
        if self.kw("LIKE") {
            let o = self.operand()?;
            return Ok(N::Cmp(col, "LIKE".into(), o));
        }
        if self.kw("IS") {
            let n = self.kw("NOT");
            self.need("NULL")?;
            return Ok(if n { N::NotNull(col) } else { N::Null(col) });
        }
        if self.kw("IN") {
            self.need("(")?;
            if self.kw("SELECT") {
                let sel = self.qname()?;
                self.need("FROM")?;
                let from = self.name()?;
                let mut joins = vec![];
                while self.kw("INNER") {
                    self.need("JOIN")?;
                    let jt = self.name()?;
                    self.need("ON")?;
                    let a = self.qname()?;
                    self.need("=")?;
                    let b = self.qname()?;
                    joins.push((jt, a, b));
                }
                self.need("WHERE")?;
                let c = self.cond()?;
                self.need(")")?;
                return Ok(N::Sub { col, sel, from, joins, cond: Box::new(c) });
            }
            let mut v = vec![];
            if !self.p(")") {
                v.push(self.operand()?);
                while self.p(",") {
                    v.push(self.operand()?);
                }
                self.need(")")?;
            }
            return Ok(N::In(col, v));
        }
        Err(format!("unexpected token {:?} after column {col}", self.peek()))
    }
    pub fn end(&self) -> PR<()> {
        if self.i == self.t.len() {
            Ok(())
        } else {
            Err(format!("trailing tokens {:?}", &self.t[self.i..]))
        }
    }
}
/// markers in order of appearance
pub fn marker_seq(toks: &[T]) -> Vec<usize> {
    toks.iter().filter_map(|t| if let T::Mark(n) = t { Some(*n) } else { None }).collect()
}
/// same shape; an operand that is a value matches any marker
pub fn same_shape(a: &N, b: &N) -> bool {
    let so = |x: &O, y: &O| match (x, y) {
        (O::Val(_), O::Marker(_)) => true,
        (x, y) => x == y,
    };
    match (a, b) {
        (N::And(x), N::And(y)) | (N::Or(x), N::Or(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same_shape(p, q)),
        (N::Not(x), N::Not(y)) => same_shape(x, y),
        (N::Cmp(c, o, x), N::Cmp(d, p, y)) => c == d && o == p && so(x, y),
        (N::In(c, x), N::In(d, y)) => c == d && x.len() == y.len() && x.iter().zip(y).all(|(p, q)| so(p, q)),
        (N::Sub { col, sel, from, joins, cond }, N::Sub { col: c2, sel: s2, from: f2, joins: j2, cond: d2 }) => col == c2 && sel == s2 && from == f2 && joins == j2 && same_shape(cond, d2),
        (x, y) => x == y,
    }
}
/// replaces markers by the values they stand for
pub fn resolve(n: &N, vals: &[String]) -> N {
    let o = |x: &O| match x {
        O::Marker(k) => O::Val(vals.get(k.wrapping_sub(1)).cloned().unwrap_or("<no value>".into())),
        x => x.clone(),
    };
    match n {
        N::And(v) => N::And(v.iter().map(|x| resolve(x, vals)).collect()),
        N::Or(v) => N::Or(v.iter().map(|x| resolve(x, vals)).collect()),
        N::Not(x) => N::Not(Box::new(resolve(x, vals))),
        N::Cmp(c, p, x) => N::Cmp(c.clone(), p.clone(), o(x)),
        N::In(c, v) => N::In(c.clone(), v.iter().map(o).collect()),
        N::Sub { col, sel, from, joins, cond } => N::Sub { col: col.clone(), sel: sel.clone(), from: from.clone(), joins: joins.clone(), cond: Box::new(resolve(cond, vals)) },
        x => x.clone(),
    }
}

// ---------- generator ----------
const COLS: &[&str] = &["a", "b", "order", "group", "name", "select", "x1", "user", "Table"];
const TBLS: &[&str] = &["foo", "order", "bar_baz", "table", "group"];
pub fn gen_val(r: &mut Rng) -> SqlVal {
    match r.below(10) {
        0 => SqlVal::Null,
        1 => SqlVal::Bool(r.chance(1, 2)),
        2 => SqlVal::Int(*r.pick(&[0, 1, -1, 7, i32::MAX, i32::MIN])),
        3 => SqlVal::BigInt(*r.pick(&[0, 5, -9, i64::MAX, i64::MIN])),
        4 => SqlVal::Real(*r.pick(&[0.0, -1.5, 1e300])),
        5 => SqlVal::Blob(vec![r.below(256) as u8, 0]),
        6 => SqlVal::Int(r.below(100) as i32),
        _ => SqlVal::Text(r.pick(&["", "x", "O'Brien", "$1", "?", "a\" OR 1=1 --", "50%", "_"]).to_string() + &r.below(50).to_string()),
    }
}
pub fn gen_operand(r: &mut Rng) -> Expr {
    match r.below(8) {
        0 => Expr::Column(r.pick(COLS)),
        _ => Expr::Val(gen_val(r)),
    }
}
fn gen_qc(r: &mut Rng) -> Column {
    if r.chance(1, 4) {
        Column::unqualified(r.pick(COLS))
    } else {
        Column::new(r.pick(TBLS), r.pick(COLS))
    }
}
pub fn gen_expr(r: &mut Rng, depth: usize) -> BoolExpr {
    use BoolExpr::*;
    let c: &'static str = r.pick(COLS);
    let leaf = depth == 0 || r.chance(1, 4);
    if leaf {
        return match r.below(11) {
            0 => True,
            1 => Eq(c, gen_operand(r)),
            2 => Ne(c, gen_operand(r)),
            3 => Lt(c, gen_operand(r)),
            4 => Gt(c, gen_operand(r)),
            5 => Le(c, gen_operand(r)),
            6 => Ge(c, gen_operand(r)),
            7 => Like(c, Expr::Val(SqlVal::Text("%a_".into()))),
            8 => Eq(c, Expr::Val(SqlVal::Null)),
            9 => Ne(c, Expr::Val(SqlVal::Null)),
            _ => {
                let n = r.below(5);
                In(c, (0..n).map(|_| gen_val(r)).collect())
            }
        };
    }
    match r.below(7) {
        0 => {
            let n = r.below(4);
            AllOf((0..n).map(|_| gen_expr(r, depth - 1)).collect())
        }
        1 | 2 => And(Box::new(gen_expr(r, depth - 1)), Box::new(gen_expr(r, depth - 1))),
        3 => Or(Box::new(gen_expr(r, depth - 1)), Box::new(gen_expr(r, depth - 1))),
        4 => Not(Box::new(gen_expr(r, depth - 1))),
        5 => Subquery { col: c, tbl2: Cow::Borrowed(r.pick(TBLS)), tbl2_col: r.pick(COLS), expr: Box::new(gen_expr(r, depth - 1)) },
        _ => {
            let n = r.below(4);
            SubqueryJoin {
                col: c,
                tbl2: Cow::Borrowed(r.pick(TBLS)),
                col2: gen_qc(r),
                joins: (0..n).map(|_| Join::Inner { join_table: r.pick(TBLS), col1: gen_qc(r), col2: gen_qc(r) }).collect(),
                expr: Box::new(gen_expr(r, depth - 1)),
            }
        }
    }
}
/// systematic small expressions: every connective over every pair of connectives and leaves
pub fn enumerated() -> Vec<BoolExpr> {
    use BoolExpr::*;
    let t = |s: &str| Expr::Val(SqlVal::Text(s.into()));
    let leaves: Vec<BoolExpr> = vec![
        True,
        Eq("a", t("v1")),
        Ne("b", t("v2")),
        Lt("order", Expr::Val(SqlVal::Real(1.5))),
        Gt("a", Expr::Val(SqlVal::Int(-3))),
        Le("a", Expr::Val(SqlVal::BigInt(i64::MIN))),
        Ge("group", Expr::Column("order")),
        Like("name", t("x%")),
        Eq("a", Expr::Val(SqlVal::Null)),
        Ne("order", Expr::Val(SqlVal::Null)),
        Lt("a", Expr::Val(SqlVal::Null)),
        In("a", vec![]),
        In("a", vec![SqlVal::Int(1)]),
        In("order", vec![SqlVal::Text("p".into()), SqlVal::Int(2), SqlVal::Text("q".into()), SqlVal::Null]),
        AllOf(vec![]),
    ];
    // long lists, deep nesting, the same value again and again
    let mut long = vec![
        In("a", (0..1500).map(SqlVal::Int).collect()),
        In("a", (0..1200).map(|i| SqlVal::Text(format!("v{i}"))).collect()),
        In("a", vec![SqlVal::Text("same".into()); 20]),
        AllOf((0..300).map(|i| Eq("b", t(&format!("v{i}")))).collect()),
        AllOf((0..40).map(|i| Eq(if i % 2 == 0 { "a" } else { "b" }, t("same"))).collect()),
    ];
    let mut deep = Eq("a", t("x"));
    for i in 0..40 {
        deep = match i % 4 {
            0 => Or(Box::new(deep), Box::new(Eq("b", t("y")))),
            1 => And(Box::new(Eq("order", t("x"))), Box::new(deep)),
            2 => Not(Box::new(deep)),
            _ => AllOf(vec![Ne("a", t("x")), deep, Ne("b", Expr::Val(SqlVal::Null))]),
        };
    }
    long.push(deep);
    let wrap = |x: BoolExpr, y: BoolExpr, k: usize| match k {
        0 => And(Box::new(x), Box::new(y)),
        1 => Or(Box::new(x), Box::new(y)),
        2 => AllOf(vec![x, y]),
        3 => Not(Box::new(x)),
        4 => AllOf(vec![x]),
        5 => Subquery { col: "a", tbl2: "order".into(), tbl2_col: "group", expr: Box::new(x) },
        6 => SubqueryJoin { col: "order", tbl2: "bar".into(), col2: Column::new("order", "group"), joins: vec![], expr: Box::new(x) },
        7 => SubqueryJoin {
            col: "a",
            tbl2: "foo".into(),
            col2: Column::unqualified("order"),
            joins: vec![
                Join::Inner { join_table: "table", col1: Column::new("foo", "id"), col2: Column::new("table", "has") },
                Join::Inner { join_table: "third", col1: Column::new("third", "order"), col2: Column::unqualified("has") },
            ],
            expr: Box::new(x),
        },
        _ => AllOf(vec![x.clone(), y, x]),
    };
    let mut out = leaves.clone();
    let mut lvl1 = vec![];
    for k in 0..9 {
        for (i, l) in leaves.iter().enumerate() {
            lvl1.push(wrap(l.clone(), leaves[(i + 3) % leaves.len()].clone(), k));
        }
    }
    out.extend(lvl1.clone());
    for k in 0..9 {
        for i in 0..lvl1.len() {
            if i % 4 == k % 4 {
                out.push(wrap(lvl1[i].clone(), lvl1[(i * 7 + 5) % lvl1.len()].clone(), k));
            }
        }
    }
    out.append(&mut long);
    // far more parameters than fit in a byte
    out.push(AllOf((0..400).map(|i| Eq("a", t(&format!("p{i}")))).collect()));
    out.push(In("a", (0..300).map(|i| SqlVal::Text(format!("p{i}"))).collect()));
    out
}
