//! C12: a transaction takes effect at commit, all of it, and otherwise leaves nothing.
use crate::check;
use crate::common::*;
use crate::ops::*;
use crate::pgsrv::Pg;
use butane_core::db::*;
use std::sync::{Mutex, OnceLock};

#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
    Commit,
    Rollback,
    Drop,
    /// dropped by a panic
    Unwind,
    /// commit that the database refuses: a deferred constraint is violated
    BadCommit,
}
const ENDS: [End; 6] = [End::Commit, End::Rollback, End::Drop, End::Unwind, End::Commit, End::BadCommit];
#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Sqlite,
    SqliteAsync,
    SqliteRound,
    TursoMany,
    TursoOne,
    TursoSync,
    TursoSyncIn,
    Pg,
}
#[cfg(feature = "turso")]
const KINDS: [Kind; 8] = [Kind::Sqlite, Kind::SqliteAsync, Kind::SqliteRound, Kind::Pg, Kind::TursoMany, Kind::TursoOne, Kind::TursoSync, Kind::TursoSyncIn];
#[cfg(not(feature = "turso"))]
const KINDS: [Kind; 4] = [Kind::Sqlite, Kind::SqliteAsync, Kind::SqliteRound, Kind::Pg];
fn many() -> &'static tokio::runtime::Runtime {
    static R: OnceLock<tokio::runtime::Runtime> = OnceLock::new();
    R.get_or_init(|| tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap())
}
fn one() -> &'static tokio::runtime::Runtime {
    static R: OnceLock<tokio::runtime::Runtime> = OnceLock::new();
    R.get_or_init(|| tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap())
}
const SETUP: [&str; 4] = [
    DDL,
    "CREATE TABLE par (id INTEGER PRIMARY KEY)",
    "CREATE TABLE child (p INTEGER REFERENCES par(id) DEFERRABLE INITIALLY DEFERRED)",
    "INSERT INTO t (a, b) VALUES (1, 'x'), (2, 'y'), (3, NULL)",
];
const LOAD: Op = Op::Query { expr: None, limit: None, offset: None, sort: None };
const BREAK: &str = "INSERT INTO child VALUES (99)";
fn sqlite(path: &str) -> Connection {
    butane_core::db::connect(&ConnectionSpec::new("sqlite", path)).unwrap()
}
/// the transactions of a case: what is done in each and how it ends
type Script = Vec<(Vec<Op>, End)>;
/// what happened: the answers in the transactions, how ending them went, what was there during and after each
#[derive(Debug, PartialEq, Default)]
struct Seen {
    answers: Vec<Vec<String>>,
    ends: Vec<bool>,
    during: Vec<Option<String>>,
    after: Vec<String>,
}
struct Case1<'a> {
    script: &'a Script,
    other: Option<&'a Mutex<Connection>>,
}
macro_rules! run {
    ($name:ident, $ctr:ident, $tr:ident, $apply:ident, ($($asy:tt)?), ($($aw:tt)*)) => {
        $($asy)? fn $name<C: $tr>(c: &mut C, case: &Case1<'_>) -> Result<Seen, Fail> {
            let mut s = Seen::default();
            for (n, (ops, end)) in case.script.iter().enumerate() {
                {
                let t = $tr::transaction(&mut *c)$($aw)*;
                let t = match t { Ok(t) => t, Err(e) => return fail("begin", format!("transaction {n} (after {:?}) does not begin: {e:?}", if n > 0 { Some(case.script[n - 1].1) } else { None })) };
                let mut a = vec![];
                for op in ops {
                    a.push(plain($apply(&t, op)$($aw)*));
                }
                if *end == End::BadCommit {
                    a.push(plain(format!("{:?}", $ctr::execute(&t, BREAK)$($aw)*)));
                }
                s.answers.push(a);
                s.during.push(case.other.map(|o| apply(&*o.lock().unwrap(), &LOAD)));
                match end {
                    End::Commit | End::BadCommit => s.ends.push(t.commit()$($aw)*.is_ok()),
                    End::Rollback => s.ends.push(t.rollback()$($aw)*.is_ok()),
                    End::Drop => {
                        drop(t);
                        s.ends.push(true);
                    }
                    End::Unwind => {
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                            let _t = t;
                            std::panic::panic_any("unwound");
                        }));
                        check!(matches!(r, Err(p) if p.downcast_ref::<&str>() == Some(&"unwound")), "drop", "dropping the transaction panics");
                        s.ends.push(true);
                    }
                }
                }
                s.after.push(match case.other { Some(o) => apply(&*o.lock().unwrap(), &LOAD), None => $apply(&*c, &LOAD)$($aw)* });
            }
            // the connection is usable
            match $tr::transaction(c)$($aw)* {
                Ok(t) => { check!(t.rollback()$($aw)*.is_ok(), "begin", "an empty transaction after {:?} does not end", case.script.last()); }
                Err(e) => return fail("begin", format!("no transaction begins after {:?}: {e:?}", case.script.last().map(|x| x.1))),
            }
            Ok(s)
        }
    };
}
run!(run_sync, ConnectionMethods, BackendConnection, apply, (), ());
run!(run_async, ConnectionMethodsAsync, BackendConnectionAsync, apply_async, (async), (.await));

/// Turso counts and finds rows wrongly through an index (its own, not butane's, doing): no index there
fn setup(kind: Kind) -> Vec<String> {
    SETUP.iter().map(|d| if format!("{kind:?}").starts_with("Turso") { d.replace(" UNIQUE", "") } else { d.to_string() }).collect()
}
/// the same on a database kept in memory, without transactions: a copy of the table stands for the state to go back to
fn expected(kind: Kind, script: &Script) -> Seen {
    let mut s = Seen::default();
    let c = sqlite(":memory:");
    for d in setup(kind) {
        ConnectionMethods::execute(&c, &d).unwrap();
    }
    for (ops, end) in script {
        let before = apply(&c, &LOAD);
        ConnectionMethods::execute(&c, "CREATE TABLE keep AS SELECT * FROM t; CREATE TABLE keepseq AS SELECT * FROM sqlite_sequence").unwrap();
        let mut a: Vec<String> = ops.iter().map(|o| plain(apply(&c, o))).collect();
        if *end == End::BadCommit {
            a.push("Ok(())".into());
        }
        s.answers.push(a);
        s.during.push(Some(before));
        if *end != End::Commit {
            ConnectionMethods::execute(&c, "DELETE FROM t; INSERT INTO t SELECT * FROM keep; DELETE FROM sqlite_sequence; INSERT INTO sqlite_sequence SELECT * FROM keepseq").unwrap();
        }
        ConnectionMethods::execute(&c, "DROP TABLE keep; DROP TABLE keepseq").unwrap();
        s.ends.push(*end != End::BadCommit);
        s.after.push(apply(&c, &LOAD));
    }
    s
}
#[derive(Default)]
struct C12 {
    pg: Option<Pg>,
    n: usize,
}
impl C12 {
    fn on(&mut self, kind: Kind, script: &Script, dir: &str) -> Result<Seen, Fail> {
        self.n += 1;
        let path = format!("{dir}/c12-{}-{}.db", std::process::id(), self.n);
        let plain_case = Case1 { script, other: None };
        let r = match kind {
            Kind::Sqlite | Kind::SqliteAsync | Kind::SqliteRound => {
                let _ = std::fs::remove_file(&path);
                let c = sqlite(&path);
                let other = Mutex::new(sqlite(&path));
                for d in SETUP.iter().chain(&["PRAGMA foreign_keys = ON", "PRAGMA synchronous = OFF"]) {
                    ConnectionMethods::execute(&c, d).unwrap();
                }
                let case = Case1 { script, other: Some(&other) };
                match kind {
                    Kind::Sqlite => {
                        let mut c = c;
                        run_sync(&mut c, &case)
                    }
                    Kind::SqliteAsync => {
                        let mut c = c.into_async().unwrap();
                        crate::probe::now_waiting(run_async(&mut c, &case))
                    }
                    _ => {
                        let mut c = c.into_async().unwrap().into_sync().unwrap();
                        run_sync(&mut c, &case)
                    }
                }
            }
            #[cfg(feature = "turso")]
            Kind::TursoMany | Kind::TursoOne | Kind::TursoSync | Kind::TursoSyncIn => {
                let rt = if kind == Kind::TursoOne { one() } else { many() };
                let ddl: Vec<String> = setup(kind).into_iter().chain(["PRAGMA foreign_keys = ON".into()]).collect();
                let open = async move {
                    let c = butane_core::db::turso::TursoBackend::new().connect_async(":memory:").await.unwrap();
                    for d in &ddl {
                        ConnectionMethodsAsync::execute(&c, d).await.unwrap();
                    }
                    c
                };
                match kind {
                    Kind::TursoSync => {
                        let mut c = rt.block_on(open).into_sync().unwrap();
                        run_sync(&mut c, &plain_case)
                    }
                    Kind::TursoSyncIn => {
                        let script = script.clone();
                        rt.block_on(async move {
                            let mut c = open.await;
                            let out = c.with_sync(move |c| Ok(run_sync(c, &Case1 { script: &script, other: None }).map_err(|f| (f.id, f.what)))).await.unwrap();
                            out.map_err(|(id, what)| Fail { id, what })
                        })
                    }
                    Kind::TursoMany => {
                        let script = script.clone();
                        rt.block_on(async move {
                            tokio::spawn(async move {
                                let mut c = open.await;
                                run_async(&mut c, &Case1 { script: &script, other: None }).await
                            })
                            .await
                            .unwrap()
                        })
                    }
                    _ => rt.block_on(async move {
                        let mut c = open.await;
                        run_async(&mut c, &plain_case).await
                    }),
                }
            }
            _ => unreachable!(),
        };
        let _ = std::fs::remove_file(&path);
        let _ = std::fs::remove_file(format!("{path}-journal"));
        r
    }
    /// on PostgreSQL: the statements of the transaction, between its beginning and its end
    fn wire(&mut self, script: &Script) -> Result<(), Fail> {
        let pg = self.pg.get_or_insert_with(Pg::new);
        for (i, (ops, end)) in script.iter().enumerate() {
            pg.stmts();
            // the server refuses to end it
            let refused = *end == End::BadCommit || *end == End::Rollback && (i + ops.len()) % 3 == 0;
            let mut want = vec![];
            for o in ops {
                pg.rt.block_on(apply_async(&pg.conn, o));
                want.extend(pg.stmts());
            }
            let mut before = 0;
            let r: Result<bool, butane_core::Error> = pg.rt.block_on(async {
                let t = BackendConnectionAsync::transaction(&mut pg.conn).await?;
                for o in ops {
                    apply_async(&t, o).await;
                }
                {
                    let mut g = pg.srv.st.lock().unwrap();
                    before = g.log.len();
                    if refused {
                        g.fail = Some(if *end == End::Rollback { "ROLLBACK".into() } else { "COMMIT".into() });
                    }
                }
                Ok(match end {
                    End::Commit | End::BadCommit => t.commit().await.is_ok(),
                    End::Rollback => t.rollback().await.is_ok(),
                    _ => {
                        drop(t);
                        true
                    }
                })
            });
            pg.srv.st.lock().unwrap().fail = None;
            check!(matches!(r, Ok(x) if x != refused), "pg", "{ops:?} {end:?} (refused by the server: {refused}): {r:?}");
            // something after it, so that what a drop left to be sent has been
            let _ = pg.rt.block_on(apply_async(&pg.conn, &Op::Execute("SELECT 'after'".into())));
            let got = pg.stmts();
            let last = if matches!(end, End::Commit | End::BadCommit) { "COMMIT" } else { "ROLLBACK" };
            let head = got.first().map(|s| s.0.to_uppercase()).unwrap_or_default();
            check!(head.starts_with("BEGIN") || head.starts_with("START TRANSACTION"), "pg", "{ops:?} {end:?}: begins with {head:?}");
            check!(got.len() == want.len() + 3 && got[1..1 + want.len()] == want[..], "pg", "{ops:?} {end:?}: sent {got:?}, expected {want:?} in a transaction");
            check!(got[want.len() + 1].0.trim().trim_end_matches(';').to_uppercase() == last && before == want.len() + 1, "pg", "{ops:?}: ended ({end:?}) by {:?}", got[want.len() + 1]);
        }
        Ok(())
    }
    fn case(&mut self, c: Case, dir: &str) -> R {
        let (seed, kind) = match c {
            Case::Enum(i) => (i as u64 + 1200, Some(KINDS[i % KINDS.len()])),
            Case::Rand(s) => (s, None),
        };
        let mut r = Rng::new(seed);
        let kind = kind.unwrap_or_else(|| *r.pick(&KINDS));
        let script: Script = (0..1 + r.below(3)).map(|_| ((0..r.below(6)).map(|_| Op::random(&mut r)).collect(), *r.pick(&ENDS))).collect();
        if kind == Kind::Pg {
            self.wire(&script)?;
            return Ok(format!("{kind:?} {script:?}"));
        }
        let want = expected(kind, &script);
        let got = self.on(kind, &script, dir)?;
        for i in 0..script.len() {
            let (ops, end) = &script[i];
            let at = format!("{kind:?}, transaction {i} of {:?}: {ops:?}", script.iter().map(|s| s.1).collect::<Vec<_>>());
            check!(got.answers[i] == want.answers[i], "answers", "{at}: answered {:?}, expected {:?}", got.answers[i], want.answers[i]);
            if let Some(d) = &got.during[i] {
                check!(Some(d) == want.during[i].as_ref(), "isolation", "{at}: before its end another connection sees {d}, expected {:?}", want.during[i]);
            }
            check!(got.ends[i] == want.ends[i], "end", "{at}: {end:?} succeeds: {}, expected {}", got.ends[i], want.ends[i]);
            check!(got.after[i] == want.after[i], "effect", "{at}: after {end:?} there is {}, expected {}", got.after[i], want.after[i]);
        }
        Ok(format!("{kind:?} {script:?}"))
    }
}
pub fn prop() -> Prop {
    let mut s = C12::default();
    Prop {
        id: "C12",
        rule: "one to three transactions of up to five random statements on one connection (SQLite, the same through the asynchronous and back through the synchronous adapter, Turso in three ways, PostgreSQL on the wire), ended by commit, rollback, drop, a panic or a commit the database refuses, against the same statements on a database without transactions; a second SQLite connection looks before and after each end; distinct by configuration",
        enumerated: 120,
        run: Box::new(move |c, ctx| s.case(c, &ctx.scratch)),
    }
}
