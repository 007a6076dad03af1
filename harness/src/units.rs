//! Creates and shows presentable measurements -- see spec/Units.tla

use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Duration;
use serde_json::{json, Value};
use big_o_test::verif_hooks::presentable_measurements::*;

fn nudge(v: f64, eps: i64) -> f64 {
    if v == 0.0 { v } else { f64::from_bits((v.to_bits() as i64 + eps) as u64) }
}

fn value(v: &Value) -> f64 {
    let (a, d, k, eps) = (v["a"].as_u64().unwrap(), v["d"].as_u64().unwrap(), v["k"].as_i64().unwrap(), v["eps"].as_i64().unwrap());
    let r = match v["b"].as_str().unwrap() {
        "p2" => a as f64 / d as f64 * (1u64 << (10 * k)) as f64,
        "hr" => a as f64 / 360_000.0,
        "p10" => format!("{a}e{k}").parse().unwrap(),
        b => panic!("harness: base {b}"),
    };
    nudge(r, eps)
}

/// units live as long as the program does
fn unit(name: &str, names: &mut HashMap<String, &'static str>) -> &'static str {
    names.entry(name.to_string()).or_insert_with(|| Box::leak(name.to_string().into_boxed_str()))
}

use crate::report::parse;

pub fn run(scn: &Value) -> Value {
    let mut names = HashMap::new();
    let mut items: Vec<PresentableMeasurement> = vec![];
    let mut ev = vec![];
    for op in scn["ops"].as_array().unwrap() {
        if op["o"] == "new" {
            let v = &op["v"];
            let u = unit(op["unit"].as_str().unwrap(), &mut names);
            items.push(match op["kind"].as_str().unwrap() {
                "bytes" => bytes_measurement(value(v)),
                "rate" => bytes_per_second_measurement(value(v)),
                "custom" => custom_unit_measurement(value(v), u),
                "customrate" => verif_custom_unit_per_second_measurement(value(v), u),
                "duration" => duration_measurement(Duration::new(v["a"].as_u64().unwrap(), v["d"].as_u64().unwrap() as u32)),
                k => panic!("harness: kind {k}"),
            });
            ev.push(json!({"e": "new", "kind": op["kind"], "unit": op["unit"], "v": v}));
        } else {
            let h = op["h"].as_u64().unwrap() as usize;
            let text = catch_unwind(AssertUnwindSafe(|| items[h - 1].to_string())).unwrap_or_else(|_| "failed".to_string());
            ev.push(json!({"e": "show", "h": h, "s": parse(&text), "text": text.replace('µ', "u")}));
        }
    }
    json!({"id": scn["id"], "ev": ev, "out": "ok"})
}
