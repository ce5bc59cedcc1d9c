use serde_json::{json, Value};
use std::collections::{BTreeSet, HashSet};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Self {
        let mut r = Rng(s ^ 0x9E3779B97F4A7C15);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn chance(&mut self, n: usize, d: usize) -> bool {
        self.below(d) < n
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}
#[derive(Clone, Copy, Debug)]
pub enum Case {
    Enum(usize),
    Rand(u64),
}
/// why a case fails: an identifier for the kind of failure (used by the known-findings file) and a description
pub struct Fail {
    pub id: String,
    pub what: String,
}
pub type R = Result<String, Fail>;
pub fn fail<T>(id: &str, what: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { id: id.into(), what: what.into() })
}
#[macro_export]
macro_rules! check {
    ($c:expr, $id:expr, $($a:tt)*) => { if !($c) { return $crate::common::fail($id, format!($($a)*)); } };
}
pub struct Ctx {
    pub scratch: String,
    pub thorough: bool,
}
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub enumerated: usize,
    pub run: Box<dyn FnMut(Case, &Ctx) -> R>,
}
/// seconds a single case may take
const HANG: u64 = 25;
thread_local! { pub static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }
pub fn drive(mut p: Prop, seed: u64, secs: u64, replay: Option<Value>, ctx: Ctx, known: Vec<String>) -> i32 {
    std::panic::set_hook(Box::new(|i| {
        LAST_PANIC.with(|l| *l.borrow_mut() = i.to_string());
    }));
    let one = |p: &mut Prop, c: Case| -> R {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(c, &ctx))) {
            Ok(r) => r,
            Err(_) => fail("panic", format!("panic: {}", LAST_PANIC.with(|l| l.borrow().clone()))),
        }
    };
    if let Some(w) = replay {
        let c = if let Some(i) = w["case"]["enum"].as_u64() { Case::Enum(i as usize) } else { Case::Rand(w["case"]["rand"].as_str().unwrap().parse().unwrap()) };
        return match one(&mut p, c) {
            Ok(s) => {
                println!("case passes: {s}");
                0
            }
            Err(f) => {
                println!("case fails: [{}] {}", f.id, f.what);
                1
            }
        };
    }
    let t0 = Instant::now();
    let dl = Duration::from_secs(secs);
    // a case that does not come back is a failing case
    let cur: std::sync::Arc<std::sync::Mutex<(Instant, Value)>> = std::sync::Arc::new(std::sync::Mutex::new((Instant::now(), Value::Null)));
    {
        let cur = cur.clone();
        let rule = p.rule;
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let g = cur.lock().unwrap();
            if !g.1.is_null() && g.0.elapsed() > Duration::from_secs(HANG) {
                println!("STATS {}", json!({"evaluations": 1, "distinct_nontrivial": 0, "rule": rule, "samples": [], "known_hit": [], "enumerated": 0, "bound_secs": secs}));
                println!("WITNESS {}", json!({"case": g.1, "kind": "hang", "what": format!("no answer within {HANG} s")}));
                std::process::exit(1);
            }
        });
    }
    let mut evals = 0u64;
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut hit: BTreeSet<String> = BTreeSet::new();
    let mut i = 0usize;
    let mut rng = Rng::new(seed);
    let n = p.enumerated;
    let mut wit = None;
    loop {
        let c = if i < n { Case::Enum(i) } else { Case::Rand(rng.next()) };
        i += 1;
        if i > n && t0.elapsed() > dl {
            break;
        }
        if t0.elapsed() > dl * 2 {
            break;
        }
        evals += 1;
        if std::env::var("VTRACE").is_ok() {
            eprintln!("{c:?} {:?}", t0.elapsed());
        }
        *cur.lock().unwrap() = (Instant::now(), match c { Case::Enum(i) => json!({"enum": i}), Case::Rand(s) => json!({"rand": s.to_string()}) });
        match one(&mut p, c) {
            Ok(s) => {
                use std::hash::{Hash, Hasher};
                let mut h = std::collections::hash_map::DefaultHasher::new();
                s.hash(&mut h);
                if s != "trivial" && distinct.insert(h.finish()) && samples.len() < 5 {
                    samples.push(s.chars().take(400).collect());
                }
            }
            Err(f) => {
                if known.contains(&f.id) {
                    hit.insert(f.id);
                    continue;
                }
                let cj = match c {
                    Case::Enum(i) => json!({"enum": i}),
                    Case::Rand(s) => json!({"rand": s.to_string()}),
                };
                wit = Some(json!({"case": cj, "kind": f.id, "what": f.what}));
                break;
            }
        }
        if n > 0 && i >= n && distinct.len() == 0 && evals > 100000 {
            break;
        }
    }
    cur.lock().unwrap().1 = Value::Null;
    println!("STATS {}", json!({"evaluations": evals, "distinct_nontrivial": distinct.len(), "rule": p.rule, "samples": samples, "known_hit": hit, "enumerated": n.min(i), "bound_secs": secs}));
    if let Some(w) = wit {
        println!("WITNESS {w}");
        return 1;
    }
    0
}
