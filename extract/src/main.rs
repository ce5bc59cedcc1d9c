//! vextract: mechanical extraction of Rust functions and types from /repo into Verus units.
//!
//! usage: vextract <template> <out.rs> <report.json> --repo DIR [--probe] [--prelude FILE]...
//!
//! A template is Verus text with directives.  `//@@ fn ...` / `//@@ type ...` blocks are
//! replaced by the current source of the named item, after the purely mechanical rewrites in
//! `rewrite.rs`.  Contracts, loop invariants and proof text come from the template; executable
//! code comes from /repo only.
mod locate;
mod print;
mod rewrite;

use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fs;

pub struct Lost(pub String);
pub type Res<T> = Result<T, Lost>;
pub fn lost<T>(s: impl Into<String>) -> Res<T> {
    Err(Lost(s.into()))
}

#[derive(Default, Clone, Debug)]
pub struct FnDirective {
    pub kind: String, // fn | type
    pub attrs: HashMap<String, String>,
    pub flags: BTreeSet<String>,
    pub sig: String,
    pub spec: String,
    pub entry: String,
    pub exit: String,
    pub loops: BTreeMap<usize, String>,
    pub loop_entry: BTreeMap<usize, String>, // proof text at the top of the loop body
    pub loop_exit: BTreeMap<usize, String>,
    pub loop_after: BTreeMap<usize, String>,
    pub hints: Vec<(String, String)>,
    pub subst: Vec<(String, String)>,
    pub before: Vec<(String, String)>, // proof text before a call of the named function
    pub after: Vec<(String, String)>,
    pub closures: BTreeMap<usize, String>,
    pub attrtext: String,
    pub line: usize,
}

fn parse_kv(rest: &str) -> (HashMap<String, String>, BTreeSet<String>) {
    let mut m = HashMap::new();
    let mut flags = BTreeSet::new();
    let mut cs = rest.trim().chars().peekable();
    let mut cur = String::new();
    let mut inq = false;
    let mut items = vec![];
    while let Some(c) = cs.next() {
        if c == '"' {
            inq = !inq;
            continue;
        }
        if c.is_whitespace() && !inq {
            if !cur.is_empty() {
                items.push(std::mem::take(&mut cur));
            }
        } else {
            cur.push(c);
        }
    }
    if !cur.is_empty() {
        items.push(cur);
    }
    for it in items {
        if let Some((k, v)) = it.split_once('=') {
            m.insert(k.to_string(), v.to_string());
        } else {
            flags.insert(it);
        }
    }
    (m, flags)
}

enum Piece {
    Text(String),
    Dir(FnDirective),
}

fn parse_template(text: &str, vars: &HashMap<String, String>) -> Vec<Piece> {
    let mut out = vec![];
    let mut buf = String::new();
    let mut lines = text.lines().enumerate().peekable();
    while let Some((no, line)) = lines.next() {
        let t = line.trim_start();
        if let Some(rest) = t.strip_prefix("//@@ ") {
            let mut rest = rest.to_string();
            for (k, v) in vars {
                rest = rest.replace(&format!("%{k}%"), v);
            }
            let (kind, args) = match rest.split_once(' ') {
                Some((a, b)) => (a.to_string(), b.to_string()),
                None => (rest.clone(), String::new()),
            };
            if kind == "fn" || kind == "type" {
                if !buf.is_empty() {
                    out.push(Piece::Text(std::mem::take(&mut buf)));
                }
                let (attrs, flags) = parse_kv(&args);
                let mut d = FnDirective { kind: kind.clone(), attrs, flags, line: no + 1, ..Default::default() };
                if let Some(x) = d.attrs.get("subst").cloned() {
                    for kv in x.split(';') {
                        let (a, b) = kv.split_once("=>").expect("subst a=>b");
                        d.subst.push((a.trim().into(), b.trim().into()));
                    }
                }
                let single = d.flags.contains("one") || kind == "type";
                if !single {
                    let mut sect = String::from("spec");
                    loop {
                        let Some((no2, l2)) = lines.next() else { panic!("unterminated directive at line {}", no + 1) };
                        let t2 = l2.trim_start();
                        let Some(r2) = t2.strip_prefix("//@") else {
                            panic!("line {} inside directive must start with //@", no2 + 1)
                        };
                        let mut r2 = r2.to_string();
                        for (k, v) in vars {
                            r2 = r2.replace(&format!("%{k}%"), v);
                        }
                        if let Some(cmd) = r2.strip_prefix("@ ") {
                            let cmd = cmd.trim();
                            if cmd == "end" {
                                break;
                            }
                            let mut w = cmd.splitn(2, ' ');
                            let c = w.next().unwrap();
                            let a = w.next().unwrap_or("").to_string();
                            match c {
                                "hint" => {
                                    let (x, y) = a.rsplit_once("=>").expect("hint a => b");
                                    d.hints.push((x.trim().into(), y.trim().into()));
                                }
                                "subst" => {
                                    let (x, y) = a.split_once("=>").expect("subst a => b");
                                    d.subst.push((x.trim().into(), y.trim().into()));
                                }
                                _ => {
                                    sect = cmd.to_string();
                                }
                            }
                        } else {
                            let line = format!("{}\n", r2);
                            let mut w = sect.splitn(2, ' ');
                            let c = w.next().unwrap();
                            let a = w.next().unwrap_or("").to_string();
                            match c {
                                "spec" => d.spec += &line,
                                "sig" => d.sig += &line,
                                "attr" => d.attrtext += &line,
                                "entry" => d.entry += &line,
                                "exit" => d.exit += &line,
                                "loop" => *d.loops.entry(a.parse().unwrap()).or_default() += &line,
                                "loop_entry" => *d.loop_entry.entry(a.parse().unwrap()).or_default() += &line,
                                "loop_exit" => *d.loop_exit.entry(a.parse().unwrap()).or_default() += &line,
                                "loop_after" => *d.loop_after.entry(a.parse().unwrap()).or_default() += &line,
                                "closure" => *d.closures.entry(a.parse().unwrap()).or_default() += &line,
                                "before" => {
                                    if let Some(e) = d.before.iter_mut().find(|e| e.0 == a) { e.1 += &line } else { d.before.push((a, line)) }
                                }
                                "after" => {
                                    if let Some(e) = d.after.iter_mut().find(|e| e.0 == a) { e.1 += &line } else { d.after.push((a, line)) }
                                }
                                _ => panic!("unknown section {sect} line {}", no2 + 1),
                            }
                        }
                    }
                }
                out.push(Piece::Dir(d));
                continue;
            }
            panic!("unknown directive {kind} at line {}", no + 1);
        }
        let mut l = line.to_string();
        for (k, v) in vars {
            l = l.replace(&format!("%{k}%"), v);
        }
        buf.push_str(&l);
        buf.push('\n');
    }
    if !buf.is_empty() {
        out.push(Piece::Text(buf));
    }
    out
}

/// `//@for X in a b c` ... `//@endfor` with `%X%` substitution; `//@include file`
fn preprocess(text: &str, dir: &std::path::Path) -> String {
    let mut out = String::new();
    let mut it = text.lines();
    while let Some(l) = it.next() {
        let t = l.trim_start();
        if let Some(f) = t.strip_prefix("//@include ") {
            let p = dir.join(f.trim());
            let inc = fs::read_to_string(&p).unwrap_or_else(|e| panic!("{p:?}: {e}"));
            out += &preprocess(&inc, dir);
        } else if let Some(r) = t.strip_prefix("//@for ") {
            // //@for A,B in a:b c:d
            let (vars, vals) = r.split_once(" in ").unwrap();
            let vars: Vec<&str> = vars.trim().split([',', '|']).collect();
            let mut body = String::new();
            for l2 in it.by_ref() {
                if l2.trim() == "//@endfor" {
                    break;
                }
                body += l2;
                body.push('\n');
            }
            for v in vals.split_whitespace() {
                let vs: Vec<&str> = if vars.len() > 1 && v.contains('|') { v.split('|').collect() } else { v.split(':').collect() };
                let mut b = body.clone();
                for (k, x) in vars.iter().zip(vs) {
                    b = b.replace(&format!("%{k}%"), x);
                }
                out += &preprocess(&b, dir);
            }
        } else {
            out += l;
            out.push('\n');
        }
    }
    out
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut pos = vec![];
    let mut repo = String::from("/repo");
    let mut probe = false;
    let mut assoc = false;
    let mut externals: BTreeSet<String> = BTreeSet::new();
    let mut features: BTreeSet<String> = [
        "async", "async-adapter", "datetime", "json", "pg", "sqlite", "sqlite-bundled", "turso", "uuid", "fs", "default",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--repo" => {
                i += 1;
                repo = args[i].clone();
            }
            "--probe" => probe = true,
            "--assoc" => assoc = true,
            "--external" => {
                i += 1;
                externals.insert(args[i].clone());
            }
            "--features" => {
                i += 1;
                features = args[i].split(',').map(|s| s.to_string()).collect();
            }
            _ => pos.push(args[i].clone()),
        }
        i += 1;
    }
    let tpath = std::path::PathBuf::from(&pos[0]);
    let raw = fs::read_to_string(&tpath).unwrap();
    let mut text = preprocess(&raw, tpath.parent().unwrap());
    if assoc {
        text = text.replace("broadcast use prelude::valg::vtext;", "broadcast use prelude::valg::vtext; broadcast use prelude::valg::vassoc;");
    }
    // lines marked /*?X*/ are kept only in units that `//@define X`
    let defs: BTreeSet<String> = text.lines().filter_map(|l| l.trim().strip_prefix("//@define ").map(|x| x.trim().to_string())).collect();
    text = text
        .lines()
        .filter(|l| match (l.find("/*?"), l.find("*/")) {
            (Some(a), Some(b)) if a < b => l[a + 3..b].split('|').any(|x| match x.strip_prefix('!') { Some(n) => !defs.contains(n), None => defs.contains(x) }),
            _ => true,
        })
        .map(|l| format!("{l}\n"))
        .collect();
    // options: //@opt key value
    let mut opts: HashMap<String, String> = HashMap::new();
    for l in text.lines() {
        if let Some(r) = l.trim_start().strip_prefix("//@opt ") {
            let (k, v) = r.split_once(' ').unwrap_or((r, "1"));
            opts.insert(k.trim().into(), v.trim().into());
        }
    }
    if let Some(f) = opts.get("features_off") {
        for x in f.split(',') {
            features.remove(x.trim());
        }
    }
    let pieces = parse_template(&text, &HashMap::new());

    // names that have a contract or definition in the unit: never inlined
    let mut known: BTreeSet<String> = BTreeSet::new();
    for p in &pieces {
        match p {
            Piece::Text(t) => {
                let toks: Vec<&str> = t.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|s| !s.is_empty()).collect();
                for w in toks.windows(2) {
                    if w[0] == "fn" || w[0] == "struct" || w[0] == "enum" {
                        known.insert(w[1].to_string());
                    }
                }
            }
            Piece::Dir(d) => {
                if let Some(n) = d.attrs.get("name") {
                    known.insert(n.clone());
                }
                if let Some(n) = d.attrs.get("as") {
                    known.insert(n.clone());
                }
            }
        }
    }

    let mut src = locate::Sources::new(repo.clone(), features.clone());
    let mut out = String::new();
    let mut report_fns = vec![];
    let mut lostv: Vec<serde_json::Value> = vec![];
    let mut dropped: BTreeSet<String> = BTreeSet::new();
    let mut probes = 0usize;
    for p in &pieces {
        match p {
            Piece::Text(t) => out += t,
            Piece::Dir(d) => {
                let start = out.matches('\n').count() + 1;
                let key = format!(
                    "{}::{}",
                    d.attrs.get("path").cloned().unwrap_or_default(),
                    d.attrs.get("as").or(d.attrs.get("name")).cloned().unwrap_or_default()
                );
                let mut ext_why: Option<String> = None;
                let mut r = if d.kind == "type" {
                    rewrite::emit_type(&mut src, d, &mut dropped)
                } else if externals.contains(&key) {
                    ext_why = Some("set aside: outside the verifier's subset on this tree".into());
                    rewrite::emit_fn(&mut src, d, &known, &opts, probe, &mut probes, &mut dropped, true)
                } else {
                    rewrite::emit_fn(&mut src, d, &known, &opts, probe, &mut probes, &mut dropped, false)
                };
                if let (Err(Lost(m)), "fn", false) = (&r, d.kind.as_str(), d.flags.contains("optional")) {
                    let m = m.clone();
                    let r2 = rewrite::emit_fn(&mut src, d, &known, &opts, false, &mut probes, &mut dropped, true);
                    if r2.is_ok() {
                        r = r2;
                        ext_why = Some(m);
                    } else if !d.sig.trim().is_empty() {
                        r = Ok(rewrite::Emitted {
                            text: format!("#[verifier::external_body]\n{}{}\n{}\n{{ unimplemented!() }}\n", d.attrtext, d.sig.trim_end(), d.spec.trim_end()),
                            src_line: 0,
                            loops_src: 0,
                            loops_tpl: 0,
                            inlined: vec![],
                        });
                        ext_why = Some(m);
                    }
                }
                if let Some(m) = ext_why.clone() {
                    lostv.push(serde_json::json!({"kind": d.kind, "name": d.attrs.get("name"), "path": d.attrs.get("path"), "impl": d.attrs.get("impl"), "why": m, "contract_kept": true}));
                }
                match r {
                    Ok(em) => {
                        out += &em.text;
                        out.push('\n');
                        let end = out.matches('\n').count();
                        report_fns.push(serde_json::json!({
                            "kind": d.kind, "name": d.attrs.get("name"), "as": d.attrs.get("as").or(d.attrs.get("name")),
                            "path": d.attrs.get("path"), "impl": d.attrs.get("impl"), "src_line": em.src_line,
                            "out_start": start, "out_end": end, "loops_src": em.loops_src, "loops_tpl": em.loops_tpl,
                            "inlined": em.inlined, "has_contract": !d.spec.trim().is_empty() || d.flags.contains("traitspec"),
                            "optional": d.flags.contains("optional"), "external": ext_why.is_some(), "key": key,
                        }));
                    }
                    Err(Lost(m)) => {
                        if !d.flags.contains("optional") {
                            lostv.push(serde_json::json!({"kind": d.kind, "name": d.attrs.get("name"), "path": d.attrs.get("path"), "impl": d.attrs.get("impl"), "why": m}));
                        }
                        out += &format!("// LOST {} {:?}: {}\n", d.kind, d.attrs.get("name"), m.replace('\n', " "));
                    }
                }
            }
        }
    }
    fs::write(&pos[1], &out).unwrap();
    let rep = serde_json::json!({
        "functions": report_fns, "lost": lostv, "probes": probes,
        "dropped": dropped.into_iter().collect::<Vec<_>>(),
        "opts": opts,
    });
    fs::write(&pos[2], serde_json::to_string_pretty(&rep).unwrap()).unwrap();
    if !lostv_empty(&rep) {
        for l in rep["lost"].as_array().unwrap() {
            eprintln!("LOST {l}");
        }
        std::process::exit(3);
    }
}
fn lostv_empty(r: &serde_json::Value) -> bool {
    r["lost"].as_array().map(|a| a.is_empty()).unwrap_or(true)
}
