//! Drives instances of the metered allocator -- see spec/Allocator.tla

use std::alloc::{GlobalAlloc, Layout};
use std::panic::{catch_unwind, AssertUnwindSafe};
use serde_json::{json, Value};
use big_o_test::metrics_allocator::{MetricsAllocator, MetricsAllocatorStatistics};

struct Block { ptr: *mut u8, layout: Layout, seed: u8 }
fn pattern(seed: u8, i: usize) -> u8 { seed.wrapping_mul(31).wrapping_add((i as u8) ^ ((i >> 8) as u8)).wrapping_add(1) }
/// of big blocks, just the first and the last bytes are looked at
fn looked_at(from: usize, to: usize) -> impl Iterator<Item = usize> {
    const EDGE: usize = 1 << 16;
    let split = if to > from + (1 << 20) { (from + EDGE, to - EDGE) } else { (to, to) };
    (from..split.0).chain(split.1..to)
}
impl Block {
    fn fill(&self, from: usize) { for i in looked_at(from, self.layout.size()) { unsafe { self.ptr.add(i).write(pattern(self.seed, i)) } } }
    fn intact(&self, n: usize, filled: usize) -> bool { let n = n.min(self.layout.size()); looked_at(0, filled).filter(|i| *i < n).all(|i| unsafe { self.ptr.add(i).read() } == pattern(self.seed, i)) }
}


fn figures(m: &MetricsAllocatorStatistics<usize>) -> [usize; 12] {
    [m.allocations_count, m.deallocations_count, m.zeroed_allocations_count, m.reallocations_count, m.allocated_bytes, m.deallocated_bytes,
     m.zeroed_allocated_bytes, m.reallocated_originals_bytes, m.reallocated_news_bytes, m.current_used_memory, m.min_used_memory, m.max_used_memory]
}
pub fn ct(m: &MetricsAllocatorStatistics<usize>) -> Vec<u64> { figures(m)[..9].iter().map(|&x| (x as u64).min(2_000_000_000)).collect() }
/// bytes, in the unit of the scenario
fn small(x: usize, unit: usize) -> i64 { if x % unit == 0 { (x / unit).min(2_000_000_000) as i64 } else { -1 } }
fn counters(f: &[usize; 12], unit: usize) -> Vec<i64> { f[..4].iter().map(|x| small(*x, 1)).chain(f[4..9].iter().map(|x| small(*x, unit))).collect() }
/// the figures in the textual form of the statistics
fn shown(text: &str) -> [usize; 12] {
    let words: Vec<&str> = text.split(|c: char| !c.is_ascii_alphanumeric() && c != '_').filter(|w| !w.is_empty()).collect();
    let mut of: Vec<(&str, usize)> = vec![];
    for w in words.windows(2) { if let Ok(n) = w[1].parse() { of.push((w[0], n)) } }
    ["allocations", "deallocations", "zeroed_allocations", "reallocations", "allocated", "deallocated", "zeroed", "originals", "news",
     "current_used_memory", "min_used_memory", "max_used_memory"].map(|name| of.iter().find(|(n, _)| *n == name).map(|(_, x)| *x).unwrap_or(usize::MAX))
}

fn drive<const N: usize>(scn: &Value, ev: &mut Vec<Value>) {
    let allocator = MetricsAllocator::<N>::new();
    let mut blocks: Vec<Block> = vec![];
    let mut saves = vec![];
    let ops = scn["ops"].as_array().unwrap();
    let unit = scn["unit"].as_u64().unwrap_or(1) as usize;
    let auto = scn["auto"].as_u64().unwrap_or(0);
    for (at, op) in ops.iter().enumerate() {
        let (n, al, b, s) = (op["n"].as_i64().unwrap(), op["al"].as_u64().unwrap(), op["b"].as_u64().unwrap() as usize, op["s"].as_u64().unwrap() as usize);
        let align = 1usize << al;
        let bytes = if n < 0 { (isize::MAX as usize) - align - 4096 } else { n as usize * unit };
        match op["o"].as_str().unwrap() {
            o @ ("alloc" | "zalloc") => {
                let layout = Layout::from_size_align(bytes, align).expect("harness: layout");
                let ptr = unsafe { if o == "alloc" { allocator.alloc(layout) } else { allocator.alloc_zeroed(layout) } };
                let mut good = true;
                if ptr.is_null() && n >= 0 && refused(layout) { return }
                if !ptr.is_null() {
                    good = ptr as usize % align == 0 && (o == "alloc" || looked_at(0, bytes).all(|i| unsafe { ptr.add(i).read() } == 0));
                    if n >= 0 {
                        let block = Block { ptr, layout, seed: blocks.len() as u8 };
                        block.fill(0);
                        blocks.push(block);
                    }
                }
                ev.push(json!({"e":"alloc", "z": (o == "zalloc") as u8, "n": n, "ok": !ptr.is_null(), "good": good}));
            }
            "free" => {
                let block = &blocks[b - 1];
                let good = block.intact(usize::MAX, block.layout.size());
                unsafe { allocator.dealloc(block.ptr, block.layout) };
                ev.push(json!({"e":"free", "b": b, "good": good}));
            }
            "realloc" => {
                let block = &mut blocks[b - 1];
                let filled = block.layout.size();
                let mut good = block.intact(usize::MAX, filled);
                let bytes = if n < 0 { (isize::MAX as usize) - block.layout.align() - 4096 } else { bytes };
                let ptr = unsafe { allocator.realloc(block.ptr, block.layout, bytes) };
                if ptr.is_null() && n >= 0 && refused(Layout::from_size_align(bytes, block.layout.align()).expect("harness: layout")) { return }
                if !ptr.is_null() {
                    let old = block.layout.size();
                    block.ptr = ptr;
                    block.layout = Layout::from_size_align(bytes, block.layout.align()).expect("harness: layout");
                    good &= ptr as usize % block.layout.align() == 0 && block.intact(old.min(bytes), filled);
                    block.fill(0);
                } else {
                    good &= block.intact(usize::MAX, filled);
                }
                ev.push(json!({"e":"realloc", "b": b, "n": n, "ok": !ptr.is_null(), "good": good}));
            }
            "save" => {
                let save = allocator.save_point();
                ev.push(json!({"e":"save", "ct": counters(&figures(&save.metrics), unit), "used": small(save.metrics.current_used_memory, unit)}));
                saves.push(save);
            }
            "churn" => {
                let layout = Layout::from_size_align(bytes, 8).expect("harness: layout");
                for _ in 0..s {
                    unsafe { let p = allocator.alloc(layout); allocator.dealloc(p, layout) };
                    drop(allocator.save_point());
                }
                ev.push(json!({"e":"churn", "k": s, "n": n}));
            }
            "query" => ev.push(query(&allocator, s, &saves[s - 1], unit)),
            _ => panic!("harness: unknown operation {op}"),
        }
        if auto == 1 || (auto == 2 && at + 1 == ops.len()) {
            // the newest ones first and then again the other way around
            for i in (0..saves.len()).rev().chain(0..saves.len()) { ev.push(query(&allocator, i + 1, &saves[i], unit)) }
        }
    }
    for (i, block) in blocks.iter().enumerate() {
        if !ops.iter().any(|o| o["o"] == "free" && o["b"].as_u64() == Some(i as u64 + 1)) { unsafe { allocator.dealloc(block.ptr, block.layout) } }
    }
}

fn query<const N: usize>(allocator: &MetricsAllocator<N>, s: usize, save: &big_o_test::metrics_allocator::MetricsAllocatorSavePoint<N>, unit: usize) -> Value {
    match allocator.delta_statistics(save) {
        Ok(m)  => {
            let (f, text) = (figures(&m), shown(&m.to_string()));
            json!({"e":"query", "s": s, "ok": true, "ct": counters(&f, unit), "used": small(f[9], unit), "lo": small(f[10], unit), "hi": small(f[11], unit),
                   "text": {"ct": counters(&text, unit), "used": small(text[9], unit), "lo": small(text[10], unit), "hi": small(text[11], unit)}})
        }
        Err(_) => json!({"e":"query", "s": s, "ok": false, "ct": [0,0,0,0,0,0,0,0,0], "used": 0, "lo": 0, "hi": 0, "text": {}}),
    }
}

/// does the system refuse it?
fn refused(layout: Layout) -> bool { unsafe { let p = std::alloc::System.alloc(layout); if !p.is_null() { std::alloc::System.dealloc(p, layout) } p.is_null() } }

pub fn run(scn: &Value) -> Value {
    let mut ev = vec![];
    let res = catch_unwind(AssertUnwindSafe(|| match scn["capacity"].as_u64().unwrap() {
        1 => drive::<1>(scn, &mut ev), 2 => drive::<2>(scn, &mut ev), 3 => drive::<3>(scn, &mut ev), 4 => drive::<4>(scn, &mut ev),
        5 => drive::<5>(scn, &mut ev), 8 => drive::<8>(scn, &mut ev), 16 => drive::<16>(scn, &mut ev), 1024 => drive::<1024>(scn, &mut ev),
        c => panic!("harness: capacity {c}"),
    }));
    json!({"id": scn["id"], "capacity": scn["capacity"], "ev": ev, "out": if res.is_ok() {"ok"} else {"panic"}})
}
