//! A butane PostgreSQL connection to the recording server.
use crate::fakepg::*;
use butane_core::db::{Backend, ConnectionAsync};
pub struct Pg {
    pub rt: tokio::runtime::Runtime,
    pub srv: FakePg,
    pub conn: ConnectionAsync,
}
impl Pg {
    pub fn new() -> Pg {
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
        let srv = FakePg::start();
        let url = srv.url();
        let conn = rt.block_on(async move { butane_core::db::pg::PgBackend::new().connect_async(&url).await }).expect("fake pg connection");
        Pg { rt, srv, conn }
    }
    pub fn oids(&self, v: Vec<u32>) {
        self.srv.st.lock().unwrap().param_oids = v;
    }
    pub fn rows(&self, columns: Vec<(String, u32)>, rows: Vec<Vec<Option<Vec<u8>>>>) {
        let mut g = self.srv.st.lock().unwrap();
        g.columns = columns;
        g.rows = rows;
    }
    /// statements executed since the last call: text and decoded parameters
    pub fn stmts(&self) -> Vec<(String, Vec<String>)> {
        self.srv
            .take()
            .into_iter()
            .map(|e| match e {
                Ev::Simple(s) => (s, vec![]),
                Ev::Exec { sql, oids, params } => (sql, params.iter().enumerate().map(|(i, p)| decode(oids.get(i).copied().unwrap_or(0), p)).collect()),
            })
            .collect()
    }
}
/// type oid of a value as printed by `exprs::vkey`
pub fn oid_of(k: &str) -> u32 {
    match k.split(':').next().unwrap() {
        "bool" => 16,
        "int" => 20,
        "real" => 701,
        "blob" => 17,
        _ => 25,
    }
}
