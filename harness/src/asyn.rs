//! Drives `RegularAsyncAnalyzerBuilder::test_algorithm()` with scripted closures -- see spec/AsyncRunner.tla.

use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::Mutex;
use std::task::{Context, Poll};
use serde_json::{json, Value};
use big_o_test::RegularAsyncAnalyzerBuilder;
use crate::script::*;
use crate::vclock;

#[derive(Debug)]
pub struct Tok(u64);

#[derive(Clone, Copy)]
enum Ev { Begin(&'static str, u64), End(&'static str, Option<usize>, u64) }

struct Ctx { calls: Vec<(String, Vec<Op>, bool)>, log: Vec<Ev>, kept: Kept, units: Units, next_token: u64, eager: bool }
static CTX: Mutex<Ctx> = Mutex::new(Ctx { calls: Vec::new(), log: Vec::new(), kept: Kept::none(), units: (1, 1), next_token: 0, eager: false });

fn ctx() -> std::sync::MutexGuard<'static, Ctx> { CTX.lock().unwrap_or_else(|e| e.into_inner()) }

/// suspends once
struct Suspend(bool);
impl Future for Suspend {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 { Poll::Ready(()) } else { self.0 = true; cx.waker().wake_by_ref(); Poll::Pending }
    }
}

fn push(c: &mut Ctx, e: Ev) { if c.log.len() < c.log.capacity() { c.log.push(e) } }

/// runs the closure of a stage up to where it first suspends: returns the script it follows and where it stopped
fn start(s: &'static str, data_in: u64) -> (Option<usize>, usize) {
    let found = {
        let mut c = ctx();
        push(&mut c, Ev::Begin(s, data_in));
        let i = c.calls.iter().position(|(name, _, used)| name == s && !used);
        if let Some(i) = i { c.calls[i].2 = true }
        i
    };
    (found, found.map(|i| go_on(s, i, 0)).unwrap_or(0))
}
/// from the k-th operation on
fn go_on(s: &'static str, i: usize, mut k: usize) -> usize {
    loop {
        let op = {
            let mut c = ctx();
            if k >= c.calls[i].1.len() { return k }
            let op = c.calls[i].1[k];
            if op == Op::Panic { push(&mut c, Ev::End(s, Some(i), 0)); }
            let units = c.units;
            c.kept.run(op, units);
            op
        };
        match op {
            Op::Wait => return k,
            Op::Panic => boom(),
            _ => k += 1,
        }
    }
}

/// either lazy -- nothing is done until the future is polled -- or eager -- starting before it even exists
fn stage(s: &'static str, data_in: u64) -> impl Future<Output=Tok> + Send + 'static {
    let eager = ctx().eager;
    let started = if eager { Some(start(s, data_in)) } else { None };
    async move {
        let (found, mut k) = started.unwrap_or_else(|| start(s, data_in));
        if let Some(i) = found {
            loop {
                { if k >= ctx().calls[i].1.len() { break } }
                Suspend(false).await;
                k = go_on(s, i, k + 1);
            }
        }
        let mut c = ctx();
        let tok = if s.starts_with("assert") { 0 } else { c.next_token += 1; c.next_token };
        push(&mut c, Ev::End(s, found, tok));
        Tok(tok)
    }
}

fn token(t: Option<Tok>) -> u64 { t.map(|t| t.0).unwrap_or(0) }

pub fn run(scn: &Value) -> Value {
    let cfg = &scn["cfg"];
    let has = |k: &str| cfg[k].as_i64().unwrap_or(0) == 1;
    let calls: Vec<(String, Vec<Op>, bool)> = scn["calls"].as_array().unwrap().iter()
        .map(|c| (c["s"].as_str().unwrap().to_string(), parse_ops(&c["ops"]), false)).collect();
    let ops = calls.iter().map(|c| c.1.len()).sum::<usize>();
    *ctx() = Ctx { log: Vec::with_capacity(2 * calls.len() + 64), kept: Kept::with_capacity(ops + 1), units: units(scn, 1), next_token: 0, eager: has("flip"), calls };
    let limit = |k: &str| cfg[k].as_i64().filter(|l| *l >= 0).map(|l| complexity(l as u64));
    vclock::enable(0);
    let res = catch_unwind(AssertUnwindSafe(|| {
        let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
        rt.block_on(async {
            let mut b = RegularAsyncAnalyzerBuilder::new(test_name(scn));
            // the order of the builder's calls is irrelevant -- and the last one of each kind counts
            let flip = has("flip");
            let decoy = complexity(if has("assert1") { 0 } else { 16 });
            if flip {
                if let Some(l) = limit("tl") { b = b.with_time_measurements(decoy).with_time_measurements(l) }
                if let Some(l) = limit("sl") { b = b.with_space_measurements(decoy).with_space_measurements(l) }
            }
            if let Some(r) = cfg["retries"].as_i64().filter(|r| *r >= 0) {
                if flip { b = b.with_max_reattempts(if has("assert2") { 0 } else { r as u32 + 3 }) }
                b = b.with_max_reattempts(r as u32)
            }
            let n = |k: &str| cfg[k].as_u64().unwrap() as u32;
            let pass = |s: &'static str| move |d: Option<Tok>| stage(s, token(d));
            let decoy_stage = |d: Option<Tok>| stage("decoy", token(d));
            let decoy_assertion = |d: &Tok| { let f = stage("decoy", d.0); async move { f.await; } };
            if flip { b = b.second_pass(3, pass("decoy")).first_pass(7, pass("decoy")).second_pass(n("n2"), pass("pass2")) }
            if has("reset") {
                if flip { b = b.with_reset_fn(decoy_stage) }
                b = b.with_reset_fn(|d: Option<Tok>| stage("reset", token(d)))
            }
            if has("warmup") {
                if flip { b = b.warmup_pass(decoy_stage) }
                b = b.warmup_pass(|d: Option<Tok>| stage("warmup", token(d)))
            }
            b = b.first_pass(n("n1"), pass("pass1"));
            if has("assert1") {
                if flip { b = b.first_pass_assertion(decoy_assertion) }
                b = b.first_pass_assertion(|d: &Tok| { let f = stage("assert1", d.0); async move { f.await; } })
            }
            if !flip { b = b.second_pass(n("n2"), pass("pass2")) }
            if has("assert2") {
                if flip { b = b.second_pass_assertion(decoy_assertion) }
                b = b.second_pass_assertion(|d: &Tok| { let f = stage("assert2", d.0); async move { f.await; } })
            }
            if !flip {
                if let Some(l) = limit("tl") { b = b.with_time_measurements(l) }
                if let Some(l) = limit("sl") { b = b.with_space_measurements(l) }
            }
            if let Some(l) = limit("al") { b = b.with_auxiliary_space_measurements(l) }
            #[cfg(feature = "hooks")]
            if let Some(l) = limit("cl") {
                // a custom measurement that takes the elapsed time as well
                b = b.add_custom_measurement("spent", l, "time spent", |_: Option<&Tok>| std::future::ready(vclock::now()),
                        |_: Option<&Tok>, t0: u64| std::future::ready(
                            big_o_test::verif_hooks::presentable_measurements::duration_measurement(std::time::Duration::from_nanos(vclock::now() - t0))));
            }
            b.test_algorithm().await
        });
    }));
    vclock::disable();
    let mut c = ctx();
    c.kept.free();
    let ev: Vec<Value> = c.log.iter().map(|e| match e {
        Ev::Begin(s, d) => json!({"e":"begin","s":s,"d":d,"ops":[]}),
        Ev::End(s, i, d) => json!({"e":"end","s":s,"d":d,
                                   "ops": i.map(|i| c.calls[i].1.iter().map(Op::json).collect::<Vec<_>>()).unwrap_or_default()}),
    }).collect();
    json!({"id": scn["id"], "cfg": cfg, "ev": ev, "out": if res.is_ok() {"ok"} else {"panic"}})
}
