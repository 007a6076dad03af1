//! Drives custom measurers -- see spec/Measurers.tla

use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
use serde_json::{json, Value};
use big_o_test::RegularAsyncAnalyzerBuilder;
use big_o_test::verif_hooks::measurer::*;
use big_o_test::verif_hooks::presentable_measurements::{custom_unit_measurement, PresentableMeasurement};
use crate::script::complexity;

#[derive(Debug)]
struct Data(u64);

static LOG: Mutex<(Vec<Value>, u64)> = Mutex::new((Vec::new(), 0));
fn log(v: Value) { LOG.lock().unwrap_or_else(|e| e.into_inner()).0.push(v) }
fn fresh() -> u64 { let mut l = LOG.lock().unwrap_or_else(|e| e.into_inner()); l.1 += 1; l.1 }

struct Suspend(u64);
impl Future for Suspend {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 { Poll::Ready(()) } else { self.0 -= 1; cx.waker().wake_by_ref(); Poll::Pending }
    }
}

/// what a 'before' step yields: can't be copied
struct Token(u64);

fn waits(pattern: u64, k: u64) -> u64 { match pattern { 0 => 0, 1 => 1, 2 => k % 3, _ => (7 - k.min(7)) % 4 } }

async fn before(k: u64, d: u64, w: u64) -> Token {
    log(json!({"e":"bb","m":k,"d":d}));
    Suspend(w).await;
    let v = fresh();
    log(json!({"e":"be","m":k,"v":v}));
    Token(v)
}
async fn after(k: u64, d: u64, t: Token, w: u64) -> PresentableMeasurement {
    log(json!({"e":"ab","m":k,"v":t.0,"d":d}));
    Suspend(w).await;
    let v = fresh();
    log(json!({"e":"ae","m":k,"v":v}));
    custom_unit_measurement(v as f64, "things")
}
/// the number a rendered measurement starts with
fn leading(s: &str) -> i64 { s.chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(-1) }
/// some have no name; others, no description -- or neither
fn name(k: u64) -> String { if k % 5 == 0 { String::new() } else { format!("m{k}") } }
fn description(k: u64) -> String { if k % 4 == 2 || k == 5 { String::new() } else { format!("d{k}") } }
fn data(d: Option<&Data>) -> u64 { d.map(|d| d.0).unwrap_or(0) }

async fn pass(d: Option<Data>) -> Data {
    let returned = fresh();
    log(json!({"e":"p","g":data(d.as_ref()),"d":returned}));
    Suspend(1).await;
    Data(returned)
}

pub fn run(scn: &Value) -> Value {
    let m = scn["m"].as_u64().unwrap();
    let w = scn["waits"].as_u64().unwrap();
    *LOG.lock().unwrap_or_else(|e| e.into_inner()) = (Vec::new(), 0);
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
    let res = catch_unwind(AssertUnwindSafe(|| rt.block_on(async {
        if scn["builder"] == 1 {
            let mut b = RegularAsyncAnalyzerBuilder::new("measured");
            // the passes come first, last or in the middle
            let at = |k: u64| k == [0, m, m / 2, m.min(1)][(w % 4) as usize];
            if at(0) { b = b.first_pass(4, pass).second_pass(8, pass); }
            // with any of the other stages
            let stages = m * 7 + w * 5 + if scn["rounds"].as_array().unwrap().len() % 2 == 0 { 0 } else { 3 };
            if stages % 3 != 0 { b = b.with_reset_fn(|_: Option<Data>| async { Data(fresh()) }); }
            if stages % 2 == 0 { b = b.warmup_pass(|_: Option<Data>| async { Data(fresh()) }); }
            if stages % 5 < 2 { b = b.first_pass_assertion(|_: &Data| async {}); }
            if stages % 5 > 2 { b = b.second_pass_assertion(|_: &Data| async {}); }
            for k in 1..=m {
                let before = move |d: Option<&Data>| before(k, data(d), waits(w, k));
                let after = move |d: Option<&Data>, t: Token| after(k, data(d), t, waits(w, k + 1));
                // there are two ways of adding them
                b = if (k + w) % 2 == 0 { b.add_custom_measurement(name(k), complexity((k * 5) % 17), description(k), before, after) }
                    else { b.add_custom_measurement_with_averages(&name(k), complexity((k * 5) % 17), &description(k), before, after) };
                if at(k) && k > 0 { b = b.second_pass(8, pass).first_pass(4, pass); }
            }
            b.verif_test_run().await;
        } else {
            let mut v: Vec<Box<dyn CustomMeasurerExecutor<Data> + Send>> = vec![];
            for k in 1..=m {
                v.push(Box::new(CustomMeasurer::new(name(k), complexity((k * 5) % 17), description(k),
                                                    move |d: Option<&Data>| before(k, data(d), waits(w, k)),
                                                    move |d: Option<&Data>, t: Token| after(k, data(d), t, waits(w, k + 1)))));
            }
            for (i, r) in scn["rounds"].as_array().unwrap().iter().enumerate() {
                // no data at all on every other round
                let d = if i % 2 == 0 { Some(Data(100 + i as u64)) } else { None };
                log(json!({"e":"rb","k":r,"d":data(d.as_ref())}));
                if r == "before" {
                    measure_all_before_event(d.as_ref(), &mut v).await;
                    log(json!({"e":"re","r":[]}));
                } else {
                    let results = measure_all_after_event(d.as_ref(), &mut v).await;
                    let n = |s: &str| if s.is_empty() { 0 } else { s.get(1..).and_then(|s| s.parse::<i64>().ok()).unwrap_or(-1) };
                    log(json!({"e":"re","r": results.iter().map(|r| json!({
                        "v": leading(&r.measured_data.to_string()), "name": n(&r.name), "descr": n(&r.description), "cls": r.expected_complexity as u32})).collect::<Vec<_>>()}));
                }
            }
        }
    })));
    let ev = std::mem::take(&mut LOG.lock().unwrap_or_else(|e| e.into_inner()).0);
    json!({"id": scn["id"], "m": m, "builder": scn["builder"], "ev": ev, "out": if res.is_ok() {"ok"} else {"panic"}})
}
