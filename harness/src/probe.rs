//! A connection that records every call, can be told to fail one, and otherwise works on a real SQLite database.
use async_trait::async_trait;
use butane_core::db::*;
use butane_core::query::{BoolExpr, Order};
use butane_core::{Error, Result, SqlType, SqlVal, SqlValRef};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug)]
pub struct Probe {
    pub inner: Arc<Mutex<Connection>>,
    pub log: Arc<Mutex<Vec<(String, bool)>>>,
    /// fail the call with this number (counted from now), before it reaches the database
    pub fail: Arc<Mutex<Option<usize>>>,
    /// fail at the row with this number of every query
    pub bad_row: Arc<Mutex<Option<usize>>>,
}
#[derive(Debug)]
pub struct Buf {
    rows: Vec<BufRow>,
    next: usize,
    bad: Option<usize>,
}
#[derive(Debug)]
pub struct BufRow(pub Vec<SqlVal>);
impl BackendRow for BufRow {
    fn get(&self, i: usize, _ty: SqlType) -> Result<SqlValRef<'_>> {
        self.0.get(i).map(|v| v.as_ref()).ok_or(Error::BoundsError("x".into()))
    }
    fn len(&self) -> usize {
        self.0.len()
    }
}
impl BackendRows for Buf {
    fn next<'a>(&'a mut self) -> Result<Option<&'a (dyn BackendRow + 'a)>> {
        if self.bad == Some(self.next) {
            return Err(Error::Internal("injected row failure".into()));
        }
        self.next += 1;
        Ok(self.rows.get(self.next - 1).map(|r| r as &dyn BackendRow))
    }
    fn current<'a>(&'a self) -> Option<&'a (dyn BackendRow + 'a)> {
        self.next.checked_sub(1).and_then(|i| self.rows.get(i)).map(|r| r as &dyn BackendRow)
    }
}
pub fn cols(c: &[Column]) -> String {
    format!("[{}]", c.iter().map(|c| format!("{}:{:?}", c.name(), c.ty())).collect::<Vec<_>>().join(","))
}
pub fn vals(v: &[SqlValRef<'_>]) -> String {
    format!("[{}]", v.iter().map(|v| format!("{:?}", SqlVal::from(v.clone()))).collect::<Vec<_>>().join(","))
}
pub fn ev_query(table: &str, columns: &[Column], expr: &Option<BoolExpr>, limit: Option<i32>, offset: Option<i32>, sort: Option<&[Order]>) -> String {
    let sort = sort.map(|s| s.iter().map(|o| format!("{} {:?}", o.column, o.direction)).collect::<Vec<_>>()).filter(|s| !s.is_empty());
    format!("query {table} {} {expr:?} limit {limit:?} offset {offset:?} sort {sort:?}", cols(columns))
}
impl Probe {
    pub fn new(inner: Connection) -> Self {
        Probe { inner: Arc::new(Mutex::new(inner)), log: Default::default(), fail: Default::default(), bad_row: Default::default() }
    }
    pub fn sqlite(ddl: &str) -> Self {
        let c = butane_core::db::connect(&ConnectionSpec::new("sqlite", ":memory:")).unwrap();
        for s in ddl.split(';').filter(|s| !s.trim().is_empty()) {
            ConnectionMethods::execute(&c, s).unwrap();
        }
        Probe::new(c)
    }
    pub fn take(&self) -> Vec<(String, bool)> {
        std::mem::take(&mut *self.log.lock().unwrap())
    }
    pub fn fail_at(&self, n: Option<usize>) {
        *self.fail.lock().unwrap() = n;
    }
    /// run SQL behind the recorder's back
    pub fn raw(&self, sql: &str) {
        ConnectionMethods::execute(&*self.inner.lock().unwrap(), sql).unwrap()
    }
    pub fn rows(&self, table: &str, columns: &[Column]) -> Vec<Vec<SqlVal>> {
        let g = self.inner.lock().unwrap();
        let mut v: Vec<Vec<SqlVal>> = copy(ConnectionMethods::query(&*g, table, columns, None, None, None, None).unwrap(), columns).unwrap().rows.into_iter().map(|r| r.0).collect();
        v.sort_by_key(|r| format!("{r:?}"));
        v
    }
    fn call<T>(&self, what: String, f: impl FnOnce(&Connection) -> Result<T>) -> Result<T> {
        let due = {
            let mut g = self.fail.lock().unwrap();
            match *g {
                Some(0) => {
                    *g = None;
                    true
                }
                Some(n) => {
                    *g = Some(n - 1);
                    false
                }
                None => false,
            }
        };
        let r = if due { Err(Error::Internal("injected failure".into())) } else { f(&self.inner.lock().unwrap()) };
        self.log.lock().unwrap().push((what, r.is_ok()));
        r
    }
}
fn copy(mut rows: RawQueryResult<'_>, columns: &[Column]) -> Result<Buf> {
    let mut out = vec![];
    while let Some(r) = rows.next()? {
        let mut v = vec![];
        for (i, c) in columns.iter().enumerate() {
            v.push(r.get(i, c.ty().clone())?.into());
        }
        out.push(BufRow(v));
    }
    Ok(Buf { rows: out, next: 0, bad: None })
}
macro_rules! probe_conn {
    ($tr:ident, ($($asy:tt)?), ($($attr:tt)*)) => {
        $($attr)*
        impl $tr for Probe {
            $($asy)? fn execute(&self, sql: &str) -> Result<()> {
                self.call(format!("execute {sql}"), |c| ConnectionMethods::execute(c, sql))
            }
            $($asy)? fn query<'c>(&'c self, table: &str, columns: &[Column], expr: Option<BoolExpr>, limit: Option<i32>, offset: Option<i32>, sort: Option<&[Order]>) -> Result<RawQueryResult<'c>> {
                let mut b = self.call(ev_query(table, columns, &expr, limit, offset, sort), |c| copy(ConnectionMethods::query(c, table, columns, expr, limit, offset, sort)?, columns))?;
                b.bad = *self.bad_row.lock().unwrap();
                Ok(Box::new(b))
            }
            $($asy)? fn insert_returning_pk(&self, table: &str, columns: &[Column], pkcol: &Column, values: &[SqlValRef<'_>]) -> Result<SqlVal> {
                self.call(format!("insert_returning_pk {table} {} {} {}", cols(columns), cols(&[pkcol.clone()]), vals(values)), |c| ConnectionMethods::insert_returning_pk(c, table, columns, pkcol, values))
            }
            $($asy)? fn insert_only(&self, table: &str, columns: &[Column], values: &[SqlValRef<'_>]) -> Result<()> {
                self.call(format!("insert_only {table} {} {}", cols(columns), vals(values)), |c| ConnectionMethods::insert_only(c, table, columns, values))
            }
            $($asy)? fn insert_or_replace(&self, table: &str, columns: &[Column], pkcol: &Column, values: &[SqlValRef<'_>]) -> Result<()> {
                self.call(format!("insert_or_replace {table} {} {} {}", cols(columns), cols(&[pkcol.clone()]), vals(values)), |c| ConnectionMethods::insert_or_replace(c, table, columns, pkcol, values))
            }
            $($asy)? fn update(&self, table: &str, pkcol: Column, pk: SqlValRef<'_>, columns: &[Column], values: &[SqlValRef<'_>]) -> Result<()> {
                self.call(format!("update {table} {} {} {} {}", cols(&[pkcol.clone()]), vals(&[pk.clone()]), cols(columns), vals(values)), |c| ConnectionMethods::update(c, table, pkcol, pk, columns, values))
            }
            $($asy)? fn delete_where(&self, table: &str, expr: BoolExpr) -> Result<usize> {
                self.call(format!("delete_where {table} {expr:?}"), |c| ConnectionMethods::delete_where(c, table, expr))
            }
            $($asy)? fn has_table(&self, table: &str) -> Result<bool> {
                self.call(format!("has_table {table}"), |c| ConnectionMethods::has_table(c, table))
            }
        }
    };
}
probe_conn!(ConnectionMethods, (), ());
probe_conn!(ConnectionMethodsAsync, (async), (#[async_trait]));

/// the answers never wait, so polling once is enough
pub fn now<T>(f: impl std::future::Future<Output = T>) -> T {
    let mut f = Box::pin(f);
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    for _ in 0..1000 {
        if let std::task::Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
    }
    panic!("a future over a synchronous connection does not finish")
}

/// a future that waits for another thread only
pub fn now_waiting<T>(f: impl std::future::Future<Output = T>) -> T {
    struct W(std::thread::Thread);
    impl std::task::Wake for W {
        fn wake(self: Arc<Self>) {
            self.0.unpark()
        }
    }
    let w = std::task::Waker::from(Arc::new(W(std::thread::current())));
    let mut cx = std::task::Context::from_waker(&w);
    let mut f = Box::pin(f);
    loop {
        if let std::task::Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
        std::thread::park();
    }
}
