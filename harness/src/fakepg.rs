//! A minimal PostgreSQL server on the loopback interface: records every statement, its bound
//! parameters and transaction commands, and answers with canned rows.
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::{Arc, Mutex};

#[derive(Debug, Clone, PartialEq)]
pub enum Ev {
    Simple(String),
    Exec { sql: String, oids: Vec<u32>, params: Vec<Option<Vec<u8>>> },
}
#[derive(Default)]
pub struct State {
    pub log: Vec<Ev>,
    pub param_oids: Vec<u32>, // used where the client leaves types open
    pub columns: Vec<(String, u32)>,
    pub rows: Vec<Vec<Option<Vec<u8>>>>,
    pub affected: u64,
    /// fail statements whose text contains this
    pub fail: Option<String>,
}
#[derive(Clone)]
pub struct FakePg {
    pub port: u16,
    pub st: Arc<Mutex<State>>,
}
fn rd(s: &mut TcpStream, n: usize) -> std::io::Result<Vec<u8>> {
    let mut b = vec![0; n];
    s.read_exact(&mut b)?;
    Ok(b)
}
fn msg(out: &mut Vec<u8>, t: u8, body: &[u8]) {
    out.push(t);
    out.extend(((body.len() + 4) as i32).to_be_bytes());
    out.extend(body);
}
struct Cur<'a>(&'a [u8], usize);
impl Cur<'_> {
    fn cstr(&mut self) -> String {
        let e = self.0[self.1..].iter().position(|b| *b == 0).unwrap() + self.1;
        let s = String::from_utf8_lossy(&self.0[self.1..e]).to_string();
        self.1 = e + 1;
        s
    }
    fn i16(&mut self) -> i16 {
        let v = i16::from_be_bytes(self.0[self.1..self.1 + 2].try_into().unwrap());
        self.1 += 2;
        v
    }
    fn i32(&mut self) -> i32 {
        let v = i32::from_be_bytes(self.0[self.1..self.1 + 4].try_into().unwrap());
        self.1 += 4;
        v
    }
}
pub fn markers(sql: &str) -> Vec<usize> {
    let mut v = vec![];
    let b: Vec<char> = sql.chars().collect();
    let mut i = 0;
    let (mut q, mut dq) = (false, false);
    while i < b.len() {
        if b[i] == '\'' && !dq {
            q = !q;
        }
        if b[i] == '"' && !q {
            dq = !dq;
        }
        if b[i] == '$' && !q && !dq {
            let mut j = i + 1;
            let mut n = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                n = n * 10 + b[j].to_digit(10).unwrap() as usize;
                j += 1;
            }
            v.push(n);
            i = j;
            continue;
        }
        i += 1;
    }
    v
}
fn error(out: &mut Vec<u8>, m: &str) {
    let mut b = vec![];
    for (t, v) in [(b'S', "ERROR"), (b'V', "ERROR"), (b'C', "42601"), (b'M', m)] {
        b.push(t);
        b.extend(v.as_bytes());
        b.push(0);
    }
    b.push(0);
    msg(out, b'E', &b);
}
impl FakePg {
    pub fn start() -> FakePg {
        let l = TcpListener::bind("127.0.0.1:0").unwrap();
        let port = l.local_addr().unwrap().port();
        let st = Arc::new(Mutex::new(State::default()));
        let st2 = st.clone();
        std::thread::spawn(move || {
            for s in l.incoming() {
                let Ok(s) = s else { continue };
                let st = st2.clone();
                std::thread::spawn(move || {
                    let _ = serve(s, st);
                });
            }
        });
        FakePg { port, st }
    }
    pub fn url(&self) -> String {
        format!("host=127.0.0.1 port={} user=x dbname=x sslmode=disable", self.port)
    }
    pub fn take(&self) -> Vec<Ev> {
        std::mem::take(&mut self.st.lock().unwrap().log)
    }
}
fn serve(mut s: TcpStream, st: Arc<Mutex<State>>) -> std::io::Result<()> {
    s.set_nodelay(true)?;
    let n = i32::from_be_bytes(rd(&mut s, 4)?.try_into().unwrap()) as usize;
    rd(&mut s, n - 4)?;
    let mut out = vec![];
    msg(&mut out, b'R', &0i32.to_be_bytes());
    msg(&mut out, b'Z', b"I");
    s.write_all(&out)?;
    let mut stmts: std::collections::HashMap<String, (String, Vec<u32>)> = Default::default();
    let mut bound: (String, Vec<u32>, Vec<Option<Vec<u8>>>) = Default::default();
    let mut out = vec![];
    let mut skip = false;
    loop {
        let t = rd(&mut s, 1)?[0];
        let n = i32::from_be_bytes(rd(&mut s, 4)?.try_into().unwrap()) as usize;
        let body = rd(&mut s, n - 4)?;
        let mut c = Cur(&body, 0);
        if skip && t != b'S' {
            continue;
        }
        match t {
            b'Q' => {
                let q = c.cstr();
                let mut g = st.lock().unwrap();
                let fail = g.fail.as_ref().map(|f| q.contains(f.as_str())).unwrap_or(false);
                g.log.push(Ev::Simple(q));
                if fail {
                    error(&mut out, "planted failure");
                } else {
                    msg(&mut out, b'C', b"OK\0");
                }
                msg(&mut out, b'Z', b"I");
            }
            b'P' => {
                let name = c.cstr();
                let sql = c.cstr();
                let k = c.i16();
                let mut oids: Vec<u32> = (0..k).map(|_| c.i32() as u32).collect();
                let g = st.lock().unwrap();
                let want = markers(&sql).into_iter().max().unwrap_or(0);
                for i in oids.len()..want {
                    oids.push(g.param_oids.get(i).copied().unwrap_or(25));
                }
                for (i, o) in oids.iter_mut().enumerate() {
                    if *o == 0 {
                        *o = g.param_oids.get(i).copied().unwrap_or(25);
                    }
                }
                oids.truncate(want.max(k as usize));
                if g.fail.as_ref().map(|f| sql.contains(f.as_str())).unwrap_or(false) {
                    error(&mut out, "planted failure");
                    skip = true;
                } else {
                    stmts.insert(name, (sql, oids));
                    msg(&mut out, b'1', b"");
                }
            }
            b'D' => {
                c.1 = 1;
                let name = c.cstr();
                let g = st.lock().unwrap();
                let (sql, oids) = stmts.get(&name).cloned().unwrap_or_default();
                let mut b = vec![];
                b.extend((oids.len() as i16).to_be_bytes());
                for o in &oids {
                    b.extend((*o as i32).to_be_bytes());
                }
                msg(&mut out, b't', &b);
                let u = sql.trim_start().to_uppercase();
                if u.starts_with("SELECT") || u.contains("RETURNING") {
                    let mut b = vec![];
                    b.extend((g.columns.len() as i16).to_be_bytes());
                    for (n, o) in &g.columns {
                        b.extend(n.as_bytes());
                        b.push(0);
                        b.extend(0i32.to_be_bytes());
                        b.extend(0i16.to_be_bytes());
                        b.extend((*o as i32).to_be_bytes());
                        b.extend((-1i16).to_be_bytes());
                        b.extend((-1i32).to_be_bytes());
                        b.extend(1i16.to_be_bytes());
                    }
                    msg(&mut out, b'T', &b);
                } else {
                    msg(&mut out, b'n', b"");
                }
            }
            b'B' => {
                let _portal = c.cstr();
                let name = c.cstr();
                let nf = c.i16();
                for _ in 0..nf {
                    c.i16();
                }
                let np = c.i16() as u16;
                let mut ps = vec![];
                for _ in 0..np {
                    let l = c.i32();
                    if l < 0 {
                        ps.push(None);
                    } else {
                        ps.push(Some(c.0[c.1..c.1 + l as usize].to_vec()));
                        c.1 += l as usize;
                    }
                }
                let (sql, oids) = stmts.get(&name).cloned().unwrap_or_default();
                bound = (sql, oids, ps);
                msg(&mut out, b'2', b"");
            }
            b'E' => {
                let mut g = st.lock().unwrap();
                let (sql, oids, params) = bound.clone();
                let u = sql.trim_start().to_uppercase();
                let rows = if u.starts_with("SELECT") || u.contains("RETURNING") { g.rows.clone() } else { vec![] };
                g.log.push(Ev::Exec { sql: sql.clone(), oids, params });
                for r in &rows {
                    let mut b = vec![];
                    b.extend((r.len() as i16).to_be_bytes());
                    for v in r {
                        match v {
                            None => b.extend((-1i32).to_be_bytes()),
                            Some(x) => {
                                b.extend((x.len() as i32).to_be_bytes());
                                b.extend(x)
                            }
                        }
                    }
                    msg(&mut out, b'D', &b);
                }
                let verb = u.split_whitespace().next().unwrap_or("OK").to_string();
                let tag = match verb.as_str() {
                    "INSERT" => format!("INSERT 0 {}\0", g.affected),
                    v => format!("{v} {}\0", g.affected),
                };
                msg(&mut out, b'C', tag.as_bytes());
            }
            b'C' => msg(&mut out, b'3', b""),
            b'S' => {
                skip = false;
                msg(&mut out, b'Z', b"I");
                s.write_all(&out)?;
                out.clear();
            }
            b'X' => return Ok(()),
            b'H' => {}
            _ => {}
        }
        if t == b'Q' {
            s.write_all(&out)?;
            out.clear();
        }
    }
}
/// decode a binary parameter
pub fn decode(oid: u32, p: &Option<Vec<u8>>) -> String {
    let Some(b) = p else { return "NULL".into() };
    match oid {
        16 => format!("bool:{}", b[0] != 0),
        21 => format!("int2:{}", i16::from_be_bytes(b[..].try_into().unwrap())),
        23 => format!("int:{}", i32::from_be_bytes(b[..].try_into().unwrap())),
        20 => format!("int:{}", i64::from_be_bytes(b[..].try_into().unwrap())),
        701 => format!("real:{:?}", f64::from_be_bytes(b[..].try_into().unwrap())),
        25 => format!("text:{:?}", String::from_utf8_lossy(b)),
        17 => format!("blob:{b:?}"),
        1082 => format!("date:{}", i32::from_be_bytes(b[..].try_into().unwrap())),
        1114 => format!("ts:{}", i64::from_be_bytes(b[..].try_into().unwrap())),
        _ => format!("oid{oid}:{b:?}"),
    }
}
