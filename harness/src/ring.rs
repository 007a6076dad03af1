//! Runs concurrent programs on ring buffers under the control of [crate::sched] -- see spec/RingHistory.tla & spec/HappensBefore.tla

use std::cell::UnsafeCell;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex, MutexGuard};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use serde_json::{json, Value};
use big_o_test::metrics_allocator::ring_buffer::{RingBuffer, RingBufferConsumer};
use big_o_test::verif_hooks::atomic::{OpKind, Ordering as MemOrdering};
use crate::sched::{self, Explorer, Step};

const MAGIC: u64 = 0x5EED_F00D_0DDB_A115;
const DEAD:  u64 = 0xDEAD_DEAD_DEAD_DEAD;

/// an element that knows if it is one
#[repr(C)]
pub struct Item { magic: u64, id: u64 }
impl Item {
    fn new(v: u64) -> Self { Self { magic: MAGIC, id: EXECUTION.load(Ordering::Relaxed) << 16 | v } }
    fn check(&self) -> i64 { check(&self.magic).map(|v| v as i64).unwrap_or(-1) }
}
/// what the element at that place is, if one of the current execution
fn check(at: *const u64) -> Option<u64> {
    let (magic, id) = unsafe { (std::ptr::read_volatile(at), std::ptr::read_volatile(at.add(1))) };
    if magic == MAGIC && id >> 16 == EXECUTION.load(Ordering::Relaxed) { Some(id & 0xFFFF) } else { None }
}
static EXECUTION: AtomicU64 = AtomicU64::new(0);
impl Drop for Item {
    fn drop(&mut self) {
        if !RECORDING.load(Ordering::Relaxed) { return }
        let id = self.check();
        unsafe { std::ptr::write_volatile(&mut self.magic, DEAD) };
        log(Ev::Drop { t: sched::me(), id });
        sched::point();
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Ev {
    Call { t: usize, o: u8, c: usize, v: u64 },
    Ret { t: usize, o: u8, r: u8, vs: Vec<i64> },
    /// atomic operation: location, kind, whether it acquires and releases
    Atomic { t: usize, a: usize, k: u8, acq: bool, rel: bool },
    /// an element showed up in the memory of the ring
    Write { t: usize, id: u64, s: usize },
    Read { t: usize, id: i64 },
    Drop { t: usize, id: i64 },
    Fork,
    Join,
}
const OPS: [&str; 4] = ["enq", "deq", "peek", "cons"];
const RESULTS: [&str; 5] = ["ok", "none", "err", "unit", "panic"];

impl Ev {
    fn json(&self) -> Value {
        match self {
            Ev::Call { t, o, c, v } => json!({"e":"call", "t":t, "o":OPS[*o as usize], "c":c, "v":v}),
            Ev::Ret { t, o, r, vs } => json!({"e":"ret", "t":t, "o":OPS[*o as usize], "r":RESULTS[*r as usize], "vs":vs}),
            Ev::Atomic { t, a, k, acq, rel } => json!({"e":"atomic", "t":t, "a":a, "k":(["load","store","rmw","fence"][*k as usize]), "acq":acq, "rel":rel}),
            Ev::Write { t, id, s } => json!({"e":"write", "t":t, "id":id, "s":s}),
            Ev::Read { t, id } => json!({"e":"read", "t":t, "id":id}),
            Ev::Drop { t, id } => json!({"e":"drop", "t":t, "id":id}),
            Ev::Fork => json!({"e":"fork"}),
            Ev::Join => json!({"e":"join"}),
        }
    }
    fn thread(&self) -> usize { match self { Ev::Call { t, .. } | Ev::Ret { t, .. } => *t, _ => 0 } }
}

struct Log { ev: Vec<Ev>, deep: bool, base: usize, lo: usize, words: Vec<u64>, written: Vec<u64>, owners: Vec<(u64, usize)> }
static LOG: Mutex<Log> = Mutex::new(Log { ev: vec![], deep: false, base: 0, lo: 0, words: vec![], written: vec![], owners: vec![] });
static RECORDING: AtomicBool = AtomicBool::new(false);
fn lock() -> MutexGuard<'static, Log> { LOG.lock().unwrap_or_else(|e| e.into_inner()) }
fn log(e: Ev) {
    let mut l = lock();
    if l.deep { l.scan(sched::me()) }
    if let Ev::Call { t, o: 0, v, .. } = e { l.owners.push((v, t)) }
    l.ev.push(e)
}

impl Log {
    /// finds out about elements that got written in the memory of the ring since the last time
    fn scan(&mut self, t: usize) {
        for i in 0..self.words.len().saturating_sub(1) {
            if let Some(id) = check((self.lo + i * 8) as *const u64) {
                if self.words[i] != id { 
                    self.words[i] = id;
                    self.written.push(id);
                    // (whoever notices it isn't necessarily the one that is enqueueing it)
                    let t = self.owners.iter().rev().find(|o| o.0 == id).map_or(t, |o| o.1);
                    self.ev.push(Ev::Write { t, id, s: i })
                }
            }
        }
    }
}
fn observer(t: usize, step: Option<&Step>) {
    let mut l = lock();
    if !l.deep { return }
    l.scan(t);
    if let Some(s) = step {
        let wrote = s.written.is_some();
        let k = match s.op { OpKind::Fence => 3, OpKind::Load => 0, OpKind::Store => 1, _ => if wrote { 2 } else { 0 } };
        let order = if matches!(s.op, OpKind::Cas | OpKind::CasWeak) && !wrote { s.failure_order } else { s.order };
        let acq = matches!(order, MemOrdering::Acquire | MemOrdering::AcqRel | MemOrdering::SeqCst) && k != 1;
        let rel = matches!(order, MemOrdering::Release | MemOrdering::AcqRel | MemOrdering::SeqCst) && k != 0;
        let a = if s.addr == 0 { 0 } else { (s.addr - l.base) + 1 };
        l.ev.push(Ev::Atomic { t: s.t, a, k, acq, rel });
    }
}

const CONSUMERS: usize = 4;
struct Shared<const N: usize> { ring: RingBuffer<Item, N>, cons: [UnsafeCell<Option<RingBufferConsumer<'static, Item, N>>>; CONSUMERS] }
unsafe impl<const N: usize> Sync for Shared<N> {}
unsafe impl<const N: usize> Send for Shared<N> {}

#[derive(Clone, Copy)]
struct Operation { o: u8, c: usize, v: u64 }
fn parse(v: &Value) -> Vec<Operation> {
    v.as_array().expect("harness: operations").iter().map(|o| Operation {
        o: match o["o"].as_str().unwrap() { "drain" => 9, x => OPS.iter().position(|y| *y == x).expect("harness: operation") as u8 },
        c: o["c"].as_u64().unwrap() as usize, v: o["v"].as_u64().unwrap(),
    }).collect()
}

impl<const N: usize> Shared<N> {
    fn cons(&self, c: usize) -> &RingBufferConsumer<'static, Item, N> { unsafe { (*self.cons[c].get()).as_ref().expect("harness: consumer") } }
    /// returns whether anything may follow
    fn exec(&self, t: usize, op: Operation) -> bool {
        if op.o == 9 {
            for _ in 0..40 { if !self.exec(t, Operation { o: 1, ..op }) { break } }
            return true;
        }
        sched::operation_starts();
        log(Ev::Call { t, o: op.o, c: op.c, v: op.v });
        let res = catch_unwind(AssertUnwindSafe(|| -> (u8, Vec<i64>) {
            match op.o {
                0 => { self.ring.enqueue(Item::new(op.v)); (3, vec![]) }
                1 => match self.cons(op.c).dequeue() { Ok(Some(item)) => (0, vec![item.check()]), Ok(None) => (1, vec![]), Err(_) => (2, vec![]) },
                2 => match self.cons(op.c).peek_all() { Ok(slices) => (0, slices.iter().flat_map(|s| s.iter()).map(|i| i.check()).collect()), Err(_) => (2, vec![]) },
                _ => {
                    let consumer = self.ring.consumer();
                    unsafe { *self.cons[op.c].get() = Some(std::mem::transmute::<RingBufferConsumer<'_, Item, N>, RingBufferConsumer<'static, Item, N>>(consumer)) };
                    (3, vec![])
                }
            }
        }));
        let (r, vs) = res.unwrap_or((4, vec![]));
        let mut l = lock();
        if l.deep {
            l.scan(t);
            for &id in &vs { l.ev.push(Ev::Read { t, id }) }
        }
        l.ev.push(Ev::Ret { t, o: op.o, r, vs });
        r == 0
    }
}

/// executions that differ only on the order of simultaneous calls (or returns) say the same
fn normalize(ev: &mut [Ev]) {
    let mut i = 0;
    while i < ev.len() {
        let call = matches!(ev[i], Ev::Call { .. });
        let mut j = i;
        while j < ev.len() && matches!(ev[j], Ev::Call { .. }) == call { j += 1 }
        ev[i..j].sort_by_key(|e| e.thread());
        i = j;
    }
}

fn drive<const N: usize>(scn: &Value, deep: bool, seed: u64) -> Value {
    let (setup, fin) = (parse(&scn["setup"]), parse(&scn["final"]));
    let threads: Vec<Vec<Operation>> = scn["threads"].as_array().unwrap().iter().map(parse).collect();
    let u = |k: &str, d: u64| scn[k].as_u64().unwrap_or(d);
    let explorer = Explorer { max_executions: u("max", 5000), preemptions: u("preemptions", 2) as u32, spurious: u("spurious", 0) as u32, random: u("random", 0), after_writes: u("after", 0) == 1,
                              seed, budget_ms: u("budget", 3000), patience_ms: 1000 * u("patience", 120) };
    let mut distinct: HashMap<Vec<Ev>, u64> = HashMap::new();
    let cap = u("histories", 3000) as usize;
    let mut order = vec![];
    let near = u("near", 0);
    let mut executed = 0;
    let explored = explorer.run(threads.len(), |run| {
        let shared: Arc<Shared<N>> = Arc::new(Shared { ring: RingBuffer::new(), cons: [const { UnsafeCell::new(None) }; CONSUMERS] });
        if near > 0 {
            // everything happens as the counters of the ring go through `near`
            for _ in 0..N { shared.ring.enqueue(Item::new(0xFFFF)) }
            shared.ring.verif_skip_laps((near / N as u64).saturating_sub(1 + executed % 2));
            executed += 1;
        }
        let lo = Arc::as_ptr(&shared) as usize;
        let size = std::mem::size_of::<Shared<N>>();
        EXECUTION.fetch_add(1, Ordering::Relaxed);
        {
            let mut l = lock();
            *l = Log { ev: vec![], deep, base: lo, lo, words: vec![u64::MAX; if deep { std::mem::size_of::<RingBuffer<Item, N>>() / 8 } else { 0 }], written: vec![], owners: vec![] };
            if deep { l.lo = &shared.ring as *const RingBuffer<Item, N> as usize; }
        }
        sched::watch(Some((lo, lo + size)), Some(observer));
        RECORDING.store(true, Ordering::Relaxed);
        for op in &setup { shared.exec(0, *op); }
        if deep { log(Ev::Fork) }
        let job = { let (shared, threads) = (shared.clone(), threads.clone()); Arc::new(move |t: usize| { for op in &threads[t - 1] { shared.exec(t, *op); } }) };
        if !threads.is_empty() { run(job) }
        if deep { log(Ev::Join) }
        for op in &fin { shared.exec(0, *op); }
        RECORDING.store(false, Ordering::Relaxed);
        sched::watch(None, None);
        let mut l = lock();
        let mut ev = std::mem::take(&mut l.ev);
        let written = std::mem::take(&mut l.written);
        l.deep = false;
        l.words.clear();
        drop(l);
        if deep {
            // elements that were never seen in the memory of the ring: written when the enqueueing started, at best
            let unseen: Vec<(usize, Ev)> = ev.iter().enumerate().filter_map(|(i, e)| match e { Ev::Call { t, o: 0, v, .. } if !written.contains(v) => Some((i, Ev::Write { t: *t, id: *v, s: 100_000 + *v as usize })), _ => None }).collect();
            for (i, e) in unseen.into_iter().rev() { ev.insert(i + 1, e) }
        } else {
            ev.retain(|e| matches!(e, Ev::Call { .. } | Ev::Ret { .. }));
            normalize(&mut ev);
        }
        if let Some(c) = distinct.get_mut(&ev) { *c += 1 }
        else if distinct.len() < cap { order.push(ev.clone()); distinct.insert(ev, 1); }
    });
    json!({"id": scn["id"], "n": N, "threads": threads.len(), "executions": explored.executions, "complete": explored.complete,
           "histories": order.iter().map(|ev| ev.iter().map(|e| e.json()).collect::<Vec<_>>()).collect::<Vec<_>>(), "out": "ok"})
}

pub fn run(scn: &Value) -> Value {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(sched::start_workers);
    let deep = scn["deep"] == 1;
    let seed = scn["seed"].as_u64().unwrap_or(1);
    match scn["n"].as_u64().unwrap() {
        1 => drive::<1>(scn, deep, seed), 2 => drive::<2>(scn, deep, seed), 3 => drive::<3>(scn, deep, seed), 4 => drive::<4>(scn, deep, seed),
        5 => drive::<5>(scn, deep, seed), 8 => drive::<8>(scn, deep, seed),
        n => panic!("harness: ring size {n}"),
    }
}
