//! Drives `test_algorithm()` with scripted closures -- see spec/StandardRunner.tla.

use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use serde_json::{json, Value};
use crate::script::*;
use crate::vclock;

struct Ctx { calls: Vec<(String, Vec<Op>, bool)>, log: Vec<usize>, kept: Kept, units: Units, extra: Vec<(&'static str, usize)> }

/// runs the closure for the stage `s`: the first unused scripted call to it
fn stage(ctx: &RefCell<Ctx>, s: &'static str) -> u32 {
    let mut c = ctx.borrow_mut();
    let c = &mut *c;
    let Some(i) = c.calls.iter().position(|(name, _, used)| name == s && !used) else {
        if c.extra.len() < c.extra.capacity() {
            c.extra.push((s, c.log.len()));
        }
        return 0;
    };
    c.calls[i].2 = true;
    c.log.push(i);
    for k in 0..c.calls[i].1.len() {
        let op = c.calls[i].1[k];
        if op == Op::Panic { boom() }
        c.kept.run(op, c.units);
    }
    returned((i + c.calls.len() * 3) as u64)
}

pub fn run(scn: &Value) -> Value {
    let cfg = &scn["cfg"];
    let calls: Vec<(String, Vec<Op>, bool)> = scn["calls"].as_array().unwrap().iter()
        .map(|c| (c["s"].as_str().unwrap().to_string(), parse_ops(&c["ops"]), false)).collect();
    let n = calls.len();
    let ops = calls.iter().map(|c| c.1.len()).sum::<usize>();
    let ctx = RefCell::new(Ctx { calls, log: Vec::with_capacity(n), kept: Kept::with_capacity(ops + 1), units: units(scn, 1), extra: Vec::with_capacity(64) });
    vclock::enable(0);
    let res = catch_unwind(AssertUnwindSafe(|| {
        big_o_test::test_algorithm(test_name(scn), cfg["retries"].as_u64().unwrap() as u32,
            || { stage(&ctx, "reset"); },
            cfg["n1"].as_u64().unwrap() as u32, || stage(&ctx, "pass1"),
            cfg["n2"].as_u64().unwrap() as u32, || stage(&ctx, "pass2"),
            complexity(cfg["tl"].as_u64().unwrap()), complexity(cfg["sl"].as_u64().unwrap()));
    }));
    vclock::disable();
    let mut c = ctx.into_inner();
    c.kept.free();
    let mut ev: Vec<Value> = vec![];
    for (k, i) in c.log.iter().enumerate() {
        for (s, at) in &c.extra { if *at == k { ev.push(json!({"s":s,"ops":[]})); } }
        ev.push(json!({"s": c.calls[*i].0, "ops": c.calls[*i].1.iter().map(Op::json).collect::<Vec<_>>()}));
    }
    for (s, at) in &c.extra { if *at == c.log.len() { ev.push(json!({"s":s,"ops":[]})); } }
    json!({"id": scn["id"], "cfg": cfg, "ev": ev, "out": if res.is_ok() {"ok"} else {"panic"}})
}
