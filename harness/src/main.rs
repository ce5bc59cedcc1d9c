mod common;
mod fakepg;
mod exprs;
mod pgsrv;
mod evaldb;
mod c01;
mod c03;
mod c04;
mod c05;
mod c09;
mod c13;
mod c14;
mod c19;
mod c21;
mod c18;
mod schemas;
mod probe;
mod models;
mod c15;
mod c16;
mod c06;
mod c08;
mod c10;
mod ops;
mod c12;
mod c17;
mod c07;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned());
    let prop = match a[1].as_str() {
        "C01" => c03::also(c01::prop("C01"), |o| matches!(o, c03::Op::DeleteWhere { .. } | c03::Op::Query { .. })),
        "C02" => c03::also(c01::prop("C02"), |_| true),
        "C03" => c03::prop(),
        "C04" => c04::prop(),
        "C05" => c05::prop(),
        "C07" => c03::also(c07::prop(), |o| matches!(o, c03::Op::Insert { ret: false, .. } | c03::Op::DeleteWhere { .. } | c03::Op::Query { .. })),
        "C08" => c08::prop(),
        "C06" => c03::also(c06::prop(), |o| !matches!(o, c03::Op::DeleteWhere { .. } | c03::Op::Query { .. })),
        "C09" => c09::prop(),
        "C10" => c10::prop(false),
        "C11" => c10::prop(true),
        "C12" => c12::prop(),
        "C13" => c03::also(c13::prop(), |o| matches!(o, c03::Op::Query { .. })),
        "C14" => c14::prop(),
        "C19" => c19::prop(),
        "C15" => c03::also(c15::prop(), |o| matches!(o, c03::Op::DeleteWhere { .. } | c03::Op::Query { .. })),
        "C16" => c16::prop(),
        "C17" => c17::prop(),
        "C18" => c18::prop(),
        "C21" => c21::prop(),
        p => {
            eprintln!("unknown property {p}");
            std::process::exit(2);
        }
    };
    let replay = get("--replay").map(|f| {
        let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(f).unwrap()).unwrap();
        v["witness"].clone()
    });
    let known = get("--known")
        .and_then(|f| std::fs::read_to_string(f).ok())
        .and_then(|s| serde_json::from_str::<serde_json::Value>(&s).ok())
        .map(|v| v["findings"].as_array().cloned().unwrap_or_default().iter().filter(|f| f["property"] == a[1].as_str()).filter_map(|f| f["id"].as_str().map(String::from)).collect())
        .unwrap_or_default();
    let ctx = common::Ctx { scratch: get("--scratch").unwrap_or("/tmp".into()), thorough: get("--tier").as_deref() == Some("thorough") };
    let rc = common::drive(prop, get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1), get("--secs").and_then(|s| s.parse().ok()).unwrap_or(10), replay, ctx, known);
    std::process::exit(rc);
}
