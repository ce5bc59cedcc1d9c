//! C17: wrappers pass every call on once, unchanged, and give back the answer.
use crate::check;
use crate::common::*;
use crate::ops::*;
use crate::probe::*;
use async_trait::async_trait;
use butane_core::db::*;
use butane_core::migrations::adb::{Operation, ADB};
use butane_core::{Error, Result};
use std::sync::OnceLock;

#[derive(Clone, Debug)]
struct ProbeBackend(Probe);
#[async_trait]
impl Backend for ProbeBackend {
    fn name(&self) -> &'static str {
        "probe"
    }
    fn row_id_column(&self) -> Option<&'static str> {
        None
    }
    fn create_migration_sql(&self, _: &ADB, _: Vec<Operation>) -> Result<String> {
        Err(Error::Internal("none".into()))
    }
    fn connect(&self, s: &str) -> Result<Connection> {
        if s == "no" {
            return Err(Error::Internal("refused".into()));
        }
        Ok(Connection::new(Box::new(self.0.clone())))
    }
    async fn connect_async(&self, _: &str) -> Result<ConnectionAsync> {
        Ok(ConnectionAsync::new(Box::new(self.0.clone())))
    }
}
impl BackendConnection for Probe {
    fn transaction(&mut self) -> Result<Transaction<'_>> {
        Err(Error::Internal("no transactions here".into()))
    }
    fn backend(&self) -> Box<dyn Backend> {
        Box::new(ProbeBackend(self.clone()))
    }
    fn backend_name(&self) -> &'static str {
        "probe"
    }
    fn is_closed(&self) -> bool {
        self.rows("t", &all()).len() % 2 == 1
    }
}
#[async_trait]
impl BackendConnectionAsync for Probe {
    async fn transaction(&mut self) -> Result<TransactionAsync<'_>> {
        Err(Error::Internal("no transactions here".into()))
    }
    fn backend(&self) -> Box<dyn Backend> {
        Box::new(ProbeBackend(self.clone()))
    }
    fn backend_name(&self) -> &'static str {
        "probe"
    }
    fn is_closed(&self) -> bool {
        self.rows("t", &all()).len() % 2 == 1
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Conn,
    Boxed,
    Nested,
    ConnAsync,
    BoxedAsync,
    IntoAsync,
    IntoSync,
    Round,
    WithSync,
    ViaSync,
    Bare,
    Poisoned,
    /// no transaction at all
    TxNone,
    TxSqlite,
    TxSqliteNested,
    TxAsync,
    TxRound,
    #[cfg(feature = "turso")]
    TxTurso,
    #[cfg(feature = "turso")]
    TxTursoSync,
}
const KINDS: &[Kind] = &[
    Kind::Conn, Kind::Boxed, Kind::Nested, Kind::ConnAsync, Kind::BoxedAsync, Kind::IntoAsync, Kind::IntoSync, Kind::Round, Kind::WithSync, Kind::ViaSync, Kind::Bare, Kind::Poisoned,
    Kind::TxNone, Kind::TxSqlite, Kind::TxSqliteNested, Kind::TxAsync, Kind::TxRound,
    #[cfg(feature = "turso")]
    Kind::TxTurso,
    #[cfg(feature = "turso")]
    Kind::TxTursoSync,
];
fn rt() -> &'static tokio::runtime::Runtime {
    static R: OnceLock<tokio::runtime::Runtime> = OnceLock::new();
    R.get_or_init(|| tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap())
}
const FILL: &str = "INSERT INTO t (a, b) VALUES (1, 'x'), (2, 'y'), (3, NULL), (3, 'z')";
fn probe() -> Probe {
    Probe::sqlite(&format!("{DDL}; {FILL}"))
}
fn sqlite() -> Connection {
    let c = butane_core::db::connect(&ConnectionSpec::new("sqlite", ":memory:")).unwrap();
    ConnectionMethods::execute(&c, DDL).unwrap();
    ConnectionMethods::execute(&c, FILL).unwrap();
    c
}
fn about<C: BackendConnection>(c: &C) -> String {
    format!("{} {} {}", c.backend_name(), c.backend().name(), c.is_closed())
}
fn about_async<C: BackendConnectionAsync>(c: &C) -> String {
    format!("{} {} {}", c.backend_name(), c.backend().name(), c.is_closed())
}
fn sync<C: BackendConnection>(mut c: C, ops: &[Op]) -> Vec<String> {
    let mut v = vec![about(&c)];
    v.extend(ops.iter().map(|o| apply(&c, o)));
    v.push(about(&c));
    v.push(format!("{:?}", c.transaction().map(|_| ())));
    v
}
async fn asy<C: BackendConnectionAsync>(mut c: C, ops: &[Op]) -> Vec<String> {
    let mut v = vec![about_async(&c)];
    for o in ops {
        v.push(apply_async(&c, o).await);
    }
    v.push(about_async(&c));
    v.push(format!("{:?}", c.transaction().await.map(|_| ())));
    v
}
fn through(kind: Kind, p: &Probe, ops: &[Op]) -> Vec<String> {
    let p = p.clone();
    match kind {
        Kind::Conn => sync(Connection::new(Box::new(p)), ops),
        Kind::Boxed => sync::<Box<dyn BackendConnection>>(Box::new(p), ops),
        Kind::Nested => sync(Connection::new(Box::new(Box::new(Connection::new(Box::new(p))) as Box<dyn BackendConnection>)), ops),
        Kind::ConnAsync => now(asy(ConnectionAsync::new(Box::new(p)), ops)),
        Kind::BoxedAsync => now(asy::<Box<dyn BackendConnectionAsync>>(Box::new(p), ops)),
        Kind::IntoAsync => now_waiting(asy(Connection::new(Box::new(p)).into_async().unwrap(), ops)),
        Kind::IntoSync => sync(ConnectionAsync::new(Box::new(p)).into_sync().unwrap(), ops),
        Kind::Round => sync(Connection::new(Box::new(p)).into_async().unwrap().into_sync().unwrap(), ops),
        Kind::Bare => sync(SyncAdapter::new(p).unwrap(), ops),
        Kind::ViaSync => rt().block_on(async move {
            let b = ProbeBackend(p);
            assert!(connect_async_via_sync(&b, "no").await.is_err());
            asy(connect_async_via_sync(&b, "yes").await.unwrap(), ops).await
        }),
        Kind::WithSync => {
            let ops = ops.to_vec();
            rt().block_on(async move {
                let mut c = ConnectionAsync::new(Box::new(p));
                let half = ops.len() / 2;
                let (first, rest) = (ops[..half].to_vec(), ops[half..].to_vec());
                let mut v = c.with_sync(move |c| {
                    let mut v = vec![about(c)];
                    v.extend(first.iter().map(|o| apply(c, o)));
                    Ok(v)
                }).await.unwrap();
                // the connection is the same again afterwards, also after a failure
                let e = c.with_sync(|_| Err::<(), _>(Error::Internal("mine".into()))).await;
                assert!(matches!(&e, Err(Error::Internal(m)) if m == "mine"), "with_sync gives {e:?} for the function's error");
                v.extend(asy(c, &rest).await.into_iter().skip(1));
                v
            })
        }
        Kind::Poisoned => rt().block_on(async move {
            let mut c = ConnectionAsync::new(Box::new(p));
            let r = c.with_sync(|_| -> Result<()> { std::panic::panic_any(1) }).await;
            assert!(r.is_err());
            asy(c, ops).await
        }),
        _ => unreachable!(),
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
    Commit,
    Rollback,
    Drop,
    /// the database has ended the transaction by itself before the call, which therefore fails
    BrokenCommit,
    BrokenRollback,
}
macro_rules! finish {
    ($t:ident, $end:ident, $what:expr, ($($aw:tt)*)) => {
        match $end {
            End::Commit => $t.commit()$($aw)*.unwrap_or_else(|e| panic!("commit after {:?}: {e:?}", $what)),
            End::Rollback => $t.rollback()$($aw)*.unwrap_or_else(|e| panic!("rollback after {:?}: {e:?}", $what)),
            End::Drop => drop($t),
            End::BrokenCommit | End::BrokenRollback => {
                $t.execute("COMMIT")$($aw)*.unwrap_or_else(|e| panic!("COMMIT after {:?}: {e:?}", $what));
                let r = if $end == End::BrokenCommit { $t.commit()$($aw)* } else { $t.rollback()$($aw)* };
                assert!(r.is_err(), "{:?} after {:?}: the database refuses to end the transaction, the answer is {r:?}", $end, $what);
            }
        }
    };
}
#[cfg(feature = "turso")]
async fn turso() -> ConnectionAsync {
    let c = butane_core::db::turso::TursoBackend::new().connect_async(":memory:").await.unwrap();
    ConnectionMethodsAsync::execute(&c, DDL).await.unwrap();
    ConnectionMethodsAsync::execute(&c, FILL).await.unwrap();
    c
}
/// the answers in a transaction, and what is left in the end
fn in_tx(kind: Kind, ops: &[Op], end: End) -> (Vec<String>, String) {
    let load = Op::Query { expr: None, limit: None, offset: None, sort: None };
    match kind {
        Kind::TxNone => {
            let c = sqlite();
            (ops.iter().map(|o| apply(&c, o)).collect(), apply(&c, &load))
        }
        Kind::TxSqlite | Kind::TxRound | Kind::TxSqliteNested => {
            let mut c = sqlite();
            if kind == Kind::TxRound {
                c = c.into_async().unwrap().into_sync().unwrap();
            }
            if kind == Kind::TxSqliteNested {
                c = Connection::new(Box::new(Box::new(c) as Box<dyn BackendConnection>));
            }
            let v = {
                let t = BackendConnection::transaction(&mut c).unwrap();
                let v = ops.iter().map(|o| apply(&t, o)).collect();
                finish!(t, end, ops, ());
                v
            };
            (v, apply(&c, &load))
        }
        Kind::TxAsync => now_waiting(async {
            let mut c = sqlite().into_async().unwrap();
            let mut v = vec![];
            {
                let t = BackendConnectionAsync::transaction(&mut c).await.unwrap();
                for o in ops {
                    v.push(apply_async(&t, o).await);
                }
                finish!(t, end, ops, (.await));
            }
            (v, apply_async(&c, &load).await)
        }),
        #[cfg(feature = "turso")]
        Kind::TxTurso | Kind::TxTursoSync => {
            let open = turso();
            if kind == Kind::TxTurso {
                rt().block_on(async {
                    let mut c = open.await;
                    let mut v = vec![];
                    {
                        let t = BackendConnectionAsync::transaction(&mut c).await.unwrap();
                        for o in ops {
                            v.push(apply_async(&t, o).await);
                        }
                        finish!(t, end, (ops, &v), (.await));
                    }
                    (v, apply_async(&c, &load).await)
                })
            } else {
                let mut c = rt().block_on(open).into_sync().unwrap();
                let v = {
                    let t = BackendConnection::transaction(&mut c).unwrap();
                    let v = ops.iter().map(|o| apply(&t, o)).collect();
                    finish!(t, end, (ops, &v), ());
                    v
                };
                (v, apply(&c, &load))
            }
        }
        _ => unreachable!(),
    }
}
fn case(c: Case) -> R {
    let (seed, kind) = match c {
        Case::Enum(i) => (i as u64 + 1700, KINDS[i % KINDS.len()]),
        Case::Rand(s) => (s, KINDS[(s % KINDS.len() as u64) as usize]),
    };
    let mut r = Rng::new(seed);
    let ops: Vec<Op> = (0..3 + r.below(12)).map(|_| Op::random(&mut r)).collect();
    let name = format!("{kind:?}");
    if name.starts_with("Tx") {
        // SQLite's own connection, with nothing around it
        let c = rusqlite::Connection::open_in_memory().unwrap();
        ConnectionMethods::execute(&c, DDL).unwrap();
        ConnectionMethods::execute(&c, FILL).unwrap();
        let mut tx_end = *r.pick(&[End::Commit, End::Commit, End::Rollback, End::Drop, End::BrokenCommit, End::BrokenRollback]);
        if kind == Kind::TxNone || name.contains("Turso") {
            tx_end = *r.pick(&[End::Commit, End::Rollback, End::Drop]);
        }
        if kind == Kind::TxNone {
            tx_end = End::Commit;
        }
        let start = apply(&c, &Op::Query { expr: None, limit: None, offset: None, sort: None });
        let mut want: Vec<String> = ops.iter().map(|o| apply(&c, o)).collect();
        let end = apply(&c, &Op::Query { expr: None, limit: None, offset: None, sort: None });
        let end = if matches!(tx_end, End::Rollback | End::Drop) { start } else { end };
        let (got, left) = in_tx(kind, &ops, tx_end);
        #[cfg(feature = "turso")]
        if name.contains("Turso") {
            want = rt().block_on(async {
                let c = turso().await;
                let mut v = vec![];
                for o in &ops {
                    v.push(apply_async(&c, o).await);
                }
                v
            });
        }
        for (i, o) in ops.iter().enumerate() {
            check!(got[i] == want[i], "answer", "{name}: {o:?} (after {:?}) answers {}, expected {}", &ops[..i], got[i], want[i]);
        }
        check!(left == end, "effect", "{name}: {ops:?} and {tx_end:?} leave {left}, expected {end}");
        return Ok(format!("{name} {tx_end:?} {ops:?}"));
    }
    let (direct, inner) = (probe(), probe());
    let broken = if r.chance(1, 3) { Some(r.below(ops.len())) } else { None };
    direct.fail_at(broken);
    inner.fail_at(broken);
    let bad_row = if r.chance(1, 3) { Some(r.below(4)) } else { None };
    *direct.bad_row.lock().unwrap() = bad_row;
    *inner.bad_row.lock().unwrap() = bad_row;
    let want = sync(direct.clone(), &ops);
    let got = through(kind, &inner, &ops);
    let (wl, gl) = (direct.take(), inner.take());
    if kind == Kind::Poisoned {
        check!(gl.is_empty(), "unusable", "{name}: {ops:?}: passed on {gl:?}");
        for (i, o) in ops.iter().enumerate() {
            check!(got[i + 1].starts_with("Err"), "unusable", "{name}: {o:?} answers {}", got[i + 1]);
        }
        return Ok(format!("{name} {ops:?}"));
    }
    for (i, (w, _)) in wl.iter().enumerate() {
        check!(gl.get(i).map(|g| &g.0) == Some(w), "forward", "{name}: {:?}: passed on {:?}, expected {w}", ops.get(i), gl.get(i));
    }
    check!(gl.len() == wl.len(), "forward", "{name}: {ops:?}: passed on {} calls, expected {}: {gl:?}", gl.len(), wl.len());
    for (i, w) in want.iter().enumerate() {
        check!(got.get(i) == Some(w), "answer", "{name}: {:?} (failing: call {broken:?}, row {bad_row:?}) answers {:?}, expected {w}", i.checked_sub(1).and_then(|i| ops.get(i)), got.get(i));
    }
    Ok(format!("{name} {broken:?} {bad_row:?} {ops:?}"))
}
pub fn prop() -> Prop {
    Prop {
        id: "C17",
        rule: "three to fourteen random calls through every wrapper in turn (connections and boxed connections, both adapters, there and back, with_sync, a poisoned connection, transactions) against the same calls made directly on a recording connection, a call or a row failing in a third of the cases each; distinct by wrapper and calls",
        enumerated: 200,
        run: Box::new(|c, _| case(c)),
    }
}
