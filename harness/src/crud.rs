//! Drives `test_crud_algorithms()` & `analyse_crud_algorithms()` with scripted closures -- see spec/CrudRunner.tla.

use std::cell::{Cell, UnsafeCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, AtomicU32, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use serde_json::{json, Value};
use big_o_test::low_level_analysis::types::*;
use big_o_test::runners::crud::analyse_crud_algorithms;
use crate::script::*;
use crate::vclock;

/// default memory unit
const UNIT: usize = 4096;

/// what a call costs
#[derive(Clone, Copy)]
enum Cost {
    /// the same amount on each call of the 1st and 2nd passes
    Flat(u64, u64),
    /// grows very steeply with the element
    Boom(u64),
    /// different for each element, as given by a small table, on the 1st & 2nd passes -- to have threads spending different times
    Uneven(u64, u64),
    /// gives one of the blocks kept back (for memory)
    Release,
}
fn parse_cost(v: &Value) -> Cost {
    let a = v.as_array().cloned().unwrap_or_default();
    let n = |i: usize| a.get(i).and_then(|x| x.as_u64()).unwrap_or(0);
    match a.first().and_then(|x| x.as_str()).unwrap_or("flat") {
        "flat" => Cost::Flat(n(1), n(2)),
        "boom" => Cost::Boom(n(1)),
        "uneven" => Cost::Uneven(n(1), n(2)),
        "release" => Cost::Release,
        x => panic!("harness: unknown cost {x}"),
    }
}
impl Cost {
    fn of(&self, n: u32, iterations: u32, exponent: u32) -> u64 {
        match self {
            Cost::Flat(a, b) => if n < iterations { *a } else { *b },
            Cost::Boom(a) => a * (n as u64 + 1).pow(exponent),
            Cost::Uneven(a, b) => (if n < iterations { *a } else { *b }) * ((n as u64 * 7 + 3) % 11),
            Cost::Release => 0,
        }
    }
}

struct Style { t: Cost, m: Cost, tmp: u64, panic_at: Option<(u32, i64)>, slow: u64 }
fn parse_style(v: &Value) -> Style {
    Style {
        t: parse_cost(&v["t"]), m: parse_cost(&v["m"]), tmp: v["tmp"].as_u64().unwrap_or(0),
        // [0 = on the warm up, 1 = on the passes ; element]
        panic_at: v["panic"].as_array().filter(|a| a.len() == 2).map(|a| (a[0].as_u64().unwrap() as u32, a[1].as_i64().unwrap())),
        slow: v["slow"].as_u64().unwrap_or(0),
    }
}

#[derive(Clone, Copy, Default)]
struct Ev { o: u32, n: u32, th: u32, s: u64, e: u64, t: u64, d: i64, pl: i64, ph: i64, ml: i64, mh: i64, x: u32 }

struct Ctx {
    log: Vec<UnsafeCell<Ev>>, used: AtomicUsize, seq: AtomicU64, lo: AtomicI64, hi: AtomicI64, resets: AtomicU32, threads: AtomicU32,
    kept: Mutex<Kept>, styles: [Vec<Style>; 5], warm: bool, n: [u32; 5], run: u32, unit: u64, mu: usize,
}
unsafe impl Sync for Ctx {}

thread_local! { static ME: Cell<(u32, u32)> = const { Cell::new((0, 0)) }; }

impl Ctx {
    fn thread(&self) -> u32 {
        ME.with(|m| {
            if m.get().0 != self.run { m.set((self.run, 1 + self.threads.fetch_add(1, SeqCst))); }
            m.get().1
        })
    }
    fn attempt(&self) -> usize {
        let r = self.resets.load(SeqCst);
        (if self.warm { r / 2 } else { r }) as usize
    }
    /// a call of the closure for the operation `o` (0 = reset, 1..4 = CRUD)
    fn call(&self, o: usize, n: u32) -> u32 {
        let s = self.seq.fetch_add(1, SeqCst);
        let i = self.used.fetch_add(1, SeqCst);
        let mut ev = Ev { o: o as u32, n, th: self.thread(), s, e: 0, t: 0, d: 0, pl: i64::MIN, ph: i64::MIN, ml: i64::MAX, mh: i64::MAX, x: 0 };
        if i < self.log.len() { unsafe { *self.log[i].get() = ev; } }
        let attempt = self.attempt();
        let style = &self.styles[o];
        let mut will_panic = false;
        if !style.is_empty() {
            let st = &style[attempt.min(style.len() - 1)];
            let warming = self.warm && self.resets.load(SeqCst) % 2 == 0;
            if let Some((w, at)) = st.panic_at {
                will_panic = (w == 0) == warming && (o == 0 || at == n as i64);
            }
            if st.slow > 0 && !will_panic { vclock::real_sleep_ms(st.slow) }
            ev.t = st.t.of(n, self.n[o], 4);
            vclock::advance(ev.t * self.unit);
            if st.tmp > 0 { 
                let u = st.tmp as i64;
                ev.ph = ev.ph.max(self.hi.fetch_add(u, SeqCst) + u);
                let l = std::alloc::Layout::from_size_align(st.tmp as usize * self.mu, 1).unwrap();
                let p = unsafe { std::alloc::alloc(l) };
                std::hint::black_box(p);
                ev.pl = ev.pl.max(self.lo.fetch_add(u, SeqCst) + u);
                ev.ml = ev.ml.min(self.lo.fetch_sub(u, SeqCst) - u);
                unsafe { std::alloc::dealloc(p, l) };
                ev.mh = ev.mh.min(self.hi.fetch_sub(u, SeqCst) - u);
            }
            if let Cost::Release = st.m {
                let mut kept = self.kept.lock().unwrap();
                if let Some(Block(p, l)) = kept.0.pop() {
                    let u = (l.size() / self.mu) as i64;
                    ev.ml = ev.ml.min(self.lo.fetch_sub(u, SeqCst) - u);
                    unsafe { std::alloc::dealloc(p, l) };
                    ev.mh = ev.mh.min(self.hi.fetch_sub(u, SeqCst) - u);
                    ev.d = -u;
                }
            }
            let m = st.m.of(n, self.n[o], 2);
            if m > 0 && !will_panic {
                let u = m as i64;
                let mut kept = self.kept.lock().unwrap();
                ev.ph = ev.ph.max(self.hi.fetch_add(u, SeqCst) + u);
                kept.keep(m as usize * self.mu);
                ev.pl = ev.pl.max(self.lo.fetch_add(u, SeqCst) + u);
                ev.d += u;
            }
        }
        if o == 0 {
            let mut kept = self.kept.lock().unwrap();
            let u: i64 = kept.0.iter().map(|b| (b.1.size() / self.mu) as i64).sum();
            self.lo.fetch_sub(u, SeqCst);
            kept.free();
            self.hi.fetch_sub(u, SeqCst);
            ev.d -= u;
            self.resets.fetch_add(1, SeqCst);
        }
        ev.x = will_panic as u32;
        ev.e = self.seq.fetch_add(1, SeqCst);
        if i < self.log.len() { unsafe { *self.log[i].get() = ev; } }
        if will_panic { boom() }
        returned(n as u64 + o as u64 * 3 + self.run as u64)
    }
}

/// fits TLC's integers
fn small(v: i64) -> i64 { v.clamp(-2_000_000_000, 2_000_000_000) }

fn micros(d: std::time::Duration, unit: u64) -> i64 { small(((d.as_nanos() as f64 / (unit as f64 / 1000.0)).round()) as i64) }

fn pass(t: std::time::Duration, m: &BigOSpacePassMeasurements, (unit, mu): Units) -> Value {
    // time in thousandths of the unit; memory in units, relative to what was in use before, both rounded towards the closest
    let rel = |x: usize| small(((x as i64 as f64 - m.used_memory_before as i64 as f64) / mu as f64).round() as i64);
    json!({"t": micros(t, unit), "a": rel(m.used_memory_after), "x": rel(m.max_used_memory), "i": rel(m.min_used_memory)})
}

pub fn run(scn: &Value) -> Value {
    static RUN: AtomicU32 = AtomicU32::new(0);
    let cfg = &scn["cfg"];
    let arr = |k: &str, i: usize| cfg[k][i].as_u64().unwrap() as u32;
    let styles_of = |k: &str| scn["styles"][k].as_array().map(|a| a.iter().map(parse_style).collect::<Vec<_>>()).unwrap_or_default();
    let capacity = cfg["log"].as_u64().unwrap_or(16_000) as usize;
    let (unit, mu) = units(scn, UNIT);
    let ctx = Ctx {
        log: (0..capacity).map(|_| UnsafeCell::new(Ev::default())).collect(), used: AtomicUsize::new(0), seq: AtomicU64::new(1),
        lo: AtomicI64::new(0), hi: AtomicI64::new(0), resets: AtomicU32::new(0), threads: AtomicU32::new(0), kept: Mutex::new(Kept::with_capacity(capacity)),
        styles: [styles_of("reset"), styles_of("C"), styles_of("R"), styles_of("U"), styles_of("D")],
        warm: cfg["w"].as_u64().unwrap() > 0, n: [0, arr("n", 0), arr("n", 1), arr("n", 2), arr("n", 3)], run: 1 + RUN.fetch_add(1, SeqCst), unit, mu,
    };
    let w = cfg["w"].as_u64().unwrap() as u32;
    let c = &ctx;
    let name = test_name(scn);
    let l = |k: &str, i: usize| complexity(cfg[k][i].as_u64().unwrap());
    vclock::enable(3_000_000_000);
    ctx.thread();
    let res = catch_unwind(AssertUnwindSafe(|| {
        if cfg["api"] == "test" {
            big_o_test::test_crud_algorithms(name, cfg["max"].as_u64().unwrap() as u32,
                |n| c.call(0, n),
                |n| c.call(1, n), l("tl", 0), l("sl", 0), |n| c.call(2, n), l("tl", 1), l("sl", 1),
                |n| c.call(3, n), l("tl", 2), l("sl", 2), |n| c.call(4, n), l("tl", 3), l("sl", 3),
                w, arr("n", 0), arr("n", 1), arr("n", 2), arr("n", 3), arr("th", 0), arr("th", 1), arr("th", 2), arr("th", 3));
            None
        } else {
            Some(analyse_crud_algorithms(name, |n| c.call(0, n), |n| c.call(1, n), |n| c.call(2, n), |n| c.call(3, n), |n| c.call(4, n),
                w, arr("n", 0), arr("n", 1), arr("n", 2), arr("n", 3), arr("th", 0), arr("th", 1), arr("th", 2), arr("th", 3)))
        }
    }));
    let end = ctx.seq.fetch_add(1, SeqCst);
    // should any user code still be running, let it end
    if ctx.styles.iter().flatten().any(|s| s.slow > 0) { vclock::real_sleep_ms(120) }
    vclock::disable();
    let n_calls = ctx.used.load(SeqCst).min(capacity);
    let mut evs: Vec<Ev> = ctx.log[..n_calls].iter().map(|c| unsafe { *c.get() }).collect();
    evs.sort_by_key(|e| e.s);
    let ev: Vec<Value> = evs.iter().map(|e| json!({
        "o": e.o, "n": small(e.n as i64), "th": e.th, "s": e.s, "e": if e.e == 0 { 1_000_000_000 } else { e.e }, "t": small(e.t as i64), "d": e.d,
        "pl": e.pl.max(-1_000_000_000), "ph": e.ph.max(-1_000_000_000), "ml": e.ml.min(1_000_000_000), "mh": e.mh.min(1_000_000_000), "x": e.x })).collect();
    let mut analyses = json!([]);
    if let Ok(Some((ca, ra, ua, da, report))) = &res {
        crate::tale::report_returned(report);
        let none = json!({"p": 0, "m": [], "tc": 0, "sc": 0});
        let sr = |a: &Option<BigOAlgorithmAnalysis<SetResizingIteratorAlgorithmMeasurements>>| a.as_ref().map(|a| {
            let m = &a.algorithm_measurements;
            json!({"p": 1, "tc": a.time_complexity as u32, "sc": a.space_complexity as u32,
                   "m": [pass(m.time_measurements.pass_1_measurements, &m.space_measurements.pass_1_measurements, (unit, mu)),
                         pass(m.time_measurements.pass_2_measurements, &m.space_measurements.pass_2_measurements, (unit, mu))]}) }).unwrap_or(none.clone());
        let cs = |a: &Option<BigOAlgorithmAnalysis<ConstantSetIteratorAlgorithmMeasurements>>| a.as_ref().map(|a| {
            let m = &a.algorithm_measurements;
            json!({"p": 1, "tc": a.time_complexity as u32, "sc": a.space_complexity as u32,
                   "m": [pass(m.time_measurements.pass_1_measurements, &m.space_measurements.pass_1_measurements, (unit, mu)),
                         pass(m.time_measurements.pass_2_measurements, &m.space_measurements.pass_2_measurements, (unit, mu))]}) }).unwrap_or(none.clone());
        analyses = json!([sr(ca), cs(ra), cs(ua), sr(da)]);
    }
    ctx.kept.lock().unwrap_or_else(|e| e.into_inner()).free();
    json!({"id": scn["id"], "cfg": cfg, "ev": ev, "end": end, "overflow": (ctx.used.load(SeqCst) > capacity) as u32,
           "out": if res.is_ok() {"ok"} else {"panic"}, "an": analyses})
}

/// per thread figures of the aggregated mode
#[repr(align(128))]
#[derive(Default)]
struct Agg { calls: AtomicU64, sum: AtomicU64, lo: AtomicU64, hi: AtomicU64 }
static NEXT_AGG: AtomicUsize = AtomicUsize::new(0);
thread_local! { static MY_AGG: Cell<usize> = const { Cell::new(usize::MAX) }; }

/// A create operation with a warm up of too many elements to have its calls logged one by one: only their number, sum and extremes are.
/// The analysis is ended, by panicking, on the 1st call after the reset.
pub fn run_big_warm_up(scn: &Value) -> Value {
    use std::sync::atomic::Ordering::Relaxed;
    let cfg = &scn["cfg"];
    let (n, w, th) = (cfg["n"].as_u64().unwrap() as u32, cfg["w"].as_u64().unwrap() as u32, cfg["th"].as_u64().unwrap() as u32);
    let aggs: Vec<Agg> = (0..256).map(|_| Agg { lo: AtomicU64::new(u64::MAX), ..Agg::default() }).collect();
    let (resets, told, late) = (AtomicU32::new(0), AtomicI64::new(-1), AtomicU32::new(0));
    vclock::enable(0);
    let res = catch_unwind(AssertUnwindSafe(|| {
        analyse_crud_algorithms("big warm up",
            |n| { resets.fetch_add(1, SeqCst); told.store(n as i64, SeqCst); n },
            |n| {
                if resets.load(Relaxed) > 0 { late.fetch_add(1, SeqCst); boom() }
                let i = MY_AGG.with(|m| { if m.get() == usize::MAX { m.set(NEXT_AGG.fetch_add(1, SeqCst)) } m.get() });
                let a = &aggs[i % aggs.len()];
                let n64 = n as u64;
                a.calls.store(a.calls.load(Relaxed) + 1, Relaxed);
                a.sum.store(a.sum.load(Relaxed) + n64, Relaxed);
                if n64 < a.lo.load(Relaxed) { a.lo.store(n64, Relaxed) }
                if n64 > a.hi.load(Relaxed) { a.hi.store(n64, Relaxed) }
                n
            },
            |n| n, |n| n, |n| n, w, n, 0, 0, 0, th, 0, 0, 0);
    }));
    vclock::disable();
    let sum: u64 = aggs.iter().map(|a| a.sum.load(SeqCst)).sum();
    json!({"id": scn["id"], "cfg": cfg,
           "calls": small(aggs.iter().map(|a| a.calls.load(SeqCst)).sum::<u64>() as i64),
           "lo": small(aggs.iter().map(|a| a.lo.load(SeqCst)).min().unwrap().min(i64::MAX as u64) as i64), "hi": small(aggs.iter().map(|a| a.hi.load(SeqCst)).max().unwrap() as i64),
           // modulo a prime: fits the arithmetics of TLC
           "sum2": (2 * (sum % 46337)) % 46337,
           "resets": resets.load(SeqCst), "told": small(told.load(SeqCst)), "out": if res.is_ok() {"ok"} else {"panic"}, "ev": []})
}

/// consecutive elements processed by a thread
#[derive(Clone, Copy, Default)]
struct Run { o: u32, p: u32, a: u32, b: u32, step: i32, s: u64 }
const RUNS: usize = 10;
#[repr(align(128))]
#[derive(Clone, Copy, Default)]
struct Runs { count: usize, runs: [Run; RUNS] }
struct Logs(Vec<UnsafeCell<Runs>>);
unsafe impl Sync for Logs {}
thread_local! { static MY_RUNS: Cell<(u32, usize)> = const { Cell::new((0, 0)) }; }

/// Passes over too many elements -- or with too many threads -- to have their calls logged one by one: sequences of consecutive elements are
pub fn run_big_passes(scn: &Value) -> Value {
    static RUN: AtomicU32 = AtomicU32::new(0);
    let run = 1 + RUN.fetch_add(1, SeqCst);
    let cfg = &scn["cfg"];
    let arr = |k: &str, i: usize| cfg[k][i].as_u64().unwrap() as u32;
    let sizes: Vec<u32> = (0..4).map(|i| arr("n", i)).collect();
    let threads: usize = 16 + 2 * (0..4).map(|i| arr("th", i) as usize).sum::<usize>();
    let logs = Logs((0..threads).map(|_| UnsafeCell::new(Runs::default())).collect());
    let (logs, sizes) = (&logs, &sizes);
    let (next, seq, excess) = (AtomicUsize::new(0), AtomicU64::new(0), AtomicU32::new(0));
    let call = |o: u32, n: u32| -> u32 {
        let i = MY_RUNS.with(|m| { if m.get().0 != run { m.set((run, next.fetch_add(1, SeqCst))) } m.get().1 });
        if i >= logs.0.len() { excess.store(1, SeqCst); return n }
        let l = unsafe { &mut *logs.0[i].get() };
        let p = 1 + (n >= sizes[o as usize - 1]) as u32;
        if l.count > 0 {
            let r = &mut l.runs[l.count - 1];
            let step = n as i64 - r.b as i64;
            if r.o == o && r.p == p && (step == 1 || step == -1) && (r.step == 0 || r.step as i64 == step) {
                r.b = n;
                r.step = step as i32;
                return n;
            }
        }
        if l.count == RUNS { excess.store(1, SeqCst); return n }
        l.runs[l.count] = Run { o, p, a: n, b: n, step: 0, s: seq.fetch_add(1, SeqCst) };
        l.count += 1;
        n
    };
    vclock::enable(0);
    let res = catch_unwind(AssertUnwindSafe(|| {
        analyse_crud_algorithms("big passes", |n| n, |n| call(1, n), |n| call(2, n), |n| call(3, n), |n| call(4, n),
            0, arr("n", 0), arr("n", 1), arr("n", 2), arr("n", 3), arr("th", 0), arr("th", 1), arr("th", 2), arr("th", 3));
    }));
    vclock::disable();
    let mut runs: Vec<(usize, Run)> = vec![];
    for (t, l) in logs.0.iter().enumerate() { let l = unsafe { *l.get() }; for r in &l.runs[..l.count] { runs.push((t, *r)) } }
    runs.sort_by_key(|(_, r)| r.s);
    json!({"id": scn["id"], "cfg": cfg, "excess": excess.load(SeqCst), "out": if res.is_ok() {"ok"} else {"panic"},
           "ev": runs.iter().map(|(t, r)| json!({"o": r.o, "p": r.p, "a": small(r.a as i64), "b": small(r.b as i64), "th": t})).collect::<Vec<_>>()})
}
