//! Runs concurrent programs on metered allocators under the control of [crate::sched] -- see spec/AllocHistory.tla

use std::alloc::{GlobalAlloc, Layout};
use std::cell::UnsafeCell;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex, MutexGuard};
use serde_json::{json, Value};
use big_o_test::metrics_allocator::{MetricsAllocator, MetricsAllocatorSavePoint};
use crate::sched::{self, Explorer, Step};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Ev {
    Call { t: usize, op: Operation },
    Ret { t: usize, ok: bool, used: u64, lo: u64, hi: u64, ct: Vec<u64> },
    /// the memory in use became `u`
    Use { t: usize, u: u64 },
    Panic { t: usize },
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Operation { o: u8, b: usize, n: usize, s: usize }
const OPS: [&str; 6] = ["alloc", "zalloc", "free", "realloc", "save", "query"];
impl Ev {
    fn json(&self) -> Value {
        match self {
            Ev::Call { t, op } => json!({"e":"call", "t":t, "o":OPS[op.o as usize], "b":op.b, "n":op.n, "s":op.s}),
            Ev::Ret { t, ok, used, lo, hi, ct } => json!({"e":"ret", "t":t, "ok":ok, "used":used, "lo":lo, "hi":hi, "ct":ct}),
            Ev::Use { t, u } => json!({"e":"use", "t":t, "u":u}),
            Ev::Panic { t } => json!({"e":"panic", "t":t}),
        }
    }
}

struct Log { ev: Vec<Ev>, base: usize, used_at: Option<usize>, writes: Vec<(usize, u64)>, calibrating: bool }
static LOG: Mutex<Log> = Mutex::new(Log { ev: vec![], base: 0, used_at: None, writes: vec![], calibrating: false });
fn lock() -> MutexGuard<'static, Log> { LOG.lock().unwrap_or_else(|e| e.into_inner()) }
fn small(x: u64) -> u64 { x.min(2_000_000_000) }
fn observer(_: usize, step: Option<&Step>) {
    let Some(s) = step else { return };
    let Some(w) = s.written else { return };
    let mut l = lock();
    let at = s.addr.wrapping_sub(l.base);
    if l.calibrating { l.writes.push((at, w)) }
    else if l.used_at == Some(at) { l.ev.push(Ev::Use { t: s.t, u: small(w) }) }
}

const SAVES: usize = 6;
const BLOCKS: usize = 13;
struct Shared<const N: usize> {
    allocator: MetricsAllocator<'static, N>,
    saves: [UnsafeCell<Option<MetricsAllocatorSavePoint<'static, N>>>; SAVES],
    blocks: [UnsafeCell<Option<(*mut u8, Layout)>>; BLOCKS],
}
unsafe impl<const N: usize> Sync for Shared<N> {}
unsafe impl<const N: usize> Send for Shared<N> {}
impl<const N: usize> Drop for Shared<N> {
    fn drop(&mut self) { for b in &mut self.blocks { if let Some((p, layout)) = b.get_mut().take() { let _ = catch_unwind(AssertUnwindSafe(|| unsafe { self.allocator.dealloc(p, layout) })); } } }
}

fn parse(v: &Value) -> Vec<Operation> {
    let u = |o: &Value, k: &str| o[k].as_u64().unwrap() as usize;
    v.as_array().expect("harness: operations").iter().map(|o| Operation {
        o: OPS.iter().position(|y| *y == o["o"].as_str().unwrap()).expect("harness: operation") as u8, b: u(o, "b"), n: u(o, "n"), s: u(o, "s") }).collect()
}

impl<const N: usize> Shared<N> {
    fn new() -> Self { Self { allocator: MetricsAllocator::new(), saves: [const { UnsafeCell::new(None) }; SAVES], blocks: [const { UnsafeCell::new(None) }; BLOCKS] } }
    #[allow(clippy::mut_from_ref)]
    unsafe fn block(&self, b: usize) -> &mut Option<(*mut u8, Layout)> { &mut *self.blocks[b].get() }
    /// the block -- the operation before, on it, may have panicked
    unsafe fn taken(&self, b: usize) -> (*mut u8, Layout) {
        self.block(b).take().unwrap_or_else(|| {
            let explained = lock().ev.iter().any(|e| matches!(e, Ev::Panic { .. }));
            if explained { panic!("the block was lost by an operation that panicked") } else { panic!("harness: block") }
        })
    }
    fn exec(&self, t: usize, op: Operation) {
        sched::operation_starts();
        lock().ev.push(Ev::Call { t, op });
        let layout = Layout::from_size_align(op.n, 8).expect("harness: layout");
        let plain = |ok: bool| Ev::Ret { t, ok, used: 0, lo: 0, hi: 0, ct: vec![] };
        let res = catch_unwind(AssertUnwindSafe(|| unsafe {
            match op.o {
                0 | 1 => {
                    let p = if op.o == 0 { self.allocator.alloc(layout) } else { self.allocator.alloc_zeroed(layout) };
                    if !p.is_null() { *self.block(op.b) = Some((p, layout)) }
                    plain(!p.is_null())
                }
                2 => {
                    let (p, layout) = self.taken(op.b);
                    self.allocator.dealloc(p, layout);
                    plain(true)
                }
                3 => {
                    let (p, old) = self.taken(op.b);
                    let q = self.allocator.realloc(p, old, op.n);
                    *self.block(op.b) = if q.is_null() { Some((p, old)) } else { Some((q, layout)) };
                    plain(!q.is_null())
                }
                4 => {
                    let save = self.allocator.save_point();
                    let used = small(save.metrics.current_used_memory as u64);
                    *self.saves[op.s].get() = Some(std::mem::transmute::<MetricsAllocatorSavePoint<'_, N>, MetricsAllocatorSavePoint<'static, N>>(save));
                    Ev::Ret { t, ok: true, used, lo: 0, hi: 0, ct: vec![] }
                }
                _ => match self.allocator.delta_statistics((*self.saves[op.s].get()).as_ref().expect("harness: save point")) {
                    Ok(m) => Ev::Ret { t, ok: true, used: small(m.current_used_memory as u64), lo: small(m.min_used_memory as u64), hi: small(m.max_used_memory as u64), ct: crate::alloc::ct(&m) },
                    Err(_) => plain(false),
                },
            }
        }));
        lock().ev.push(res.unwrap_or(Ev::Panic { t }));
    }
}

/// finds out where the memory in use is kept -- if it's possible to tell
fn calibrate<const N: usize>() -> Option<usize> {
    let shared: Arc<Shared<N>> = Arc::new(Shared::new());
    let lo = Arc::as_ptr(&shared) as usize;
    { let mut l = lock(); l.calibrating = true; l.base = lo; l.writes.clear(); }
    sched::watch(Some((lo, lo + std::mem::size_of::<Shared<N>>())), Some(observer));
    for (o, n) in [(0, 1000), (2, 0), (0, 500), (3, 300), (3, 800)] { shared.exec(0, Operation { o, b: 0, n, s: 0 }) }
    sched::watch(None, None);
    let mut l = lock();
    l.calibrating = false;
    let mut by_address: HashMap<usize, Vec<u64>> = HashMap::new();
    for (a, w) in l.writes.drain(..) { by_address.entry(a).or_default().push(w) }
    l.ev.clear();
    let matching: Vec<usize> = by_address.into_iter().filter(|(_, w)| w == &[1000, 0, 500, 300, 800]).map(|(a, _)| a).collect();
    if matching.len() == 1 { Some(matching[0]) } else { None }
}

fn drive<const N: usize>(scn: &Value) -> Value {
    let (setup, fin) = (parse(&scn["setup"]), parse(&scn["final"]));
    let threads: Vec<Vec<Operation>> = scn["threads"].as_array().unwrap().iter().map(parse).collect();
    let u = |k: &str, d: u64| scn[k].as_u64().unwrap_or(d);
    let explorer = Explorer { max_executions: u("max", 5000), preemptions: u("preemptions", 2) as u32, spurious: u("spurious", 0) as u32, random: u("random", 0), after_writes: u("after", 0) == 1,
                              seed: u("seed", 1), budget_ms: u("budget", 3000), patience_ms: 1000 * u("patience", 120) };
    let used_at = if u("blackbox", 0) == 1 { None } else { calibrate::<N>() };
    let mut distinct: HashMap<Vec<Ev>, u64> = HashMap::new();
    let cap = u("histories", 3000) as usize;
    let mut order = vec![];
    let explored = explorer.run(threads.len(), |run| {
        let shared: Arc<Shared<N>> = Arc::new(Shared::new());
        let lo = Arc::as_ptr(&shared) as usize;
        { let mut l = lock(); l.ev = vec![]; l.base = lo; l.used_at = used_at; }
        sched::watch(Some((lo, lo + std::mem::size_of::<Shared<N>>())), Some(observer));
        for op in &setup { shared.exec(0, *op) }
        let job = { let (shared, threads) = (shared.clone(), threads.clone()); Arc::new(move |t: usize| for op in &threads[t - 1] { shared.exec(t, *op) }) };
        run(job);
        for op in &fin { shared.exec(0, *op) }
        sched::watch(None, None);
        let ev = std::mem::take(&mut lock().ev);
        if let Some(c) = distinct.get_mut(&ev) { *c += 1 }
        else if distinct.len() < cap { order.push(ev.clone()); distinct.insert(ev, 1); }
    });
    json!({"id": scn["id"], "n": N, "threads": threads.len(), "levels": used_at.is_some(), "executions": explored.executions, "complete": explored.complete,
           "histories": order.iter().map(|ev| ev.iter().map(|e| e.json()).collect::<Vec<_>>()).collect::<Vec<_>>(), "out": "ok"})
}

pub fn run(scn: &Value) -> Value {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(sched::start_workers);
    match scn["n"].as_u64().unwrap() {
        1 => drive::<1>(scn), 2 => drive::<2>(scn), 3 => drive::<3>(scn), 4 => drive::<4>(scn),
        n => panic!("harness: save points {n}"),
    }
}
