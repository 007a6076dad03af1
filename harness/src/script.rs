//! User closures, as scripts -- see spec/Stage.tla.
//! Nothing here allocates while a script runs, other than what the script says.

use serde_json::{json, Value};
use std::alloc::Layout;
use crate::vclock;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op { Time(u64), Keep(usize), Tmp(usize), Free, Save(u32), Wait, Panic }

impl Op {
    pub fn parse(v: &Value) -> Op {
        let n = v["n"].as_u64().unwrap_or(0);
        match v["o"].as_str().expect("op") {
            "time" => Op::Time(n),
            "keep" => Op::Keep(n as usize),
            "tmp" => Op::Tmp(n as usize),
            "free" => Op::Free,
            "save" => Op::Save(n as u32),
            "wait" => Op::Wait,
            "panic" => Op::Panic,
            o => panic!("unknown op {o}"),
        }
    }
    pub fn json(&self) -> Value {
        match self {
            Op::Time(n) => json!({"o":"time","n":n}),
            Op::Keep(n) => json!({"o":"keep","n":n}),
            Op::Tmp(n)  => json!({"o":"tmp","n":n}),
            Op::Free    => json!({"o":"free","n":0}),
            Op::Save(n) => json!({"o":"save","n":n}),
            Op::Wait    => json!({"o":"wait","n":0}),
            Op::Panic   => json!({"o":"panic","n":0}),
        }
    }
}

pub fn parse_ops(v: &Value) -> Vec<Op> {
    v.as_array().map(|a| a.iter().map(Op::parse).collect()).unwrap_or_default()
}

pub struct Block(pub *mut u8, pub Layout);
unsafe impl Send for Block {}

/// memory kept by the user code
pub struct Kept(pub Vec<Block>);
impl Kept {
    pub const fn none() -> Self { Kept(Vec::new()) }
    pub fn with_capacity(n: usize) -> Self { Kept(Vec::with_capacity(n)) }
    pub fn keep(&mut self, n: usize) {
        if n == 0 { return }
        assert!(self.0.len() < self.0.capacity(), "harness: no room for kept blocks");
        let layout = Layout::from_size_align(n, 1).unwrap();
        let p = unsafe { std::alloc::alloc(layout) };
        assert!(!p.is_null(), "harness: out of memory");
        std::hint::black_box(p);
        self.0.push(Block(p, layout));
    }
    pub fn tmp(n: usize) {
        if n == 0 { return }
        let layout = Layout::from_size_align(n, 1).unwrap();
        let p = unsafe { std::alloc::alloc(layout) };
        assert!(!p.is_null(), "harness: out of memory");
        std::hint::black_box(p);
        unsafe { std::alloc::dealloc(p, layout) };
    }
    pub fn free(&mut self) {
        while let Some(Block(p, l)) = self.0.pop() {
            unsafe { std::alloc::dealloc(p, l) };
        }
    }
    /// runs all ops but `Wait` & `Panic`
    pub fn run(&mut self, op: Op, (time_unit, memory_unit): Units) {
        match op {
            Op::Time(n) => vclock::advance(n * time_unit),
            Op::Keep(n) => self.keep(n * memory_unit),
            Op::Tmp(n)  => Self::tmp(n * memory_unit),
            Op::Free    => self.free(),
            Op::Save(n) => for _ in 0..n { std::hint::black_box(big_o_test::ALLOC.save_point()); },
            Op::Wait | Op::Panic => {}
        }
    }
}

/// nanoseconds & bytes that the units of time & memory of a scenario stand for
pub type Units = (u64, usize);
pub fn units(scn: &Value, memory_unit: usize) -> Units {
    (scn["tu"].as_u64().unwrap_or(1_000_000_000), scn["mu"].as_u64().map(|u| u as usize).unwrap_or(memory_unit))
}

pub fn complexity(n: u64) -> big_o_test::BigOAlgorithmComplexity {
    use big_o_test::BigOAlgorithmComplexity::*;
    [BetterThanO1, O1, BetweenO1AndOLogN, OLogN, BetweenOLogNAndON, ON, BetweenONAndONLogN, ONLogN, BetweenONLogNAndON2,
     ON2, BetweenON2AndON3, ON3, BetweenON3AndON4, ON4, BetweenON4AndOkN, OkN, WorseThanExponential][n as usize]
}

/// what a test is called
pub const NAMES: [&str; 8] = ["scripted", "", "{}", "100% of it's: {0}", "sçripted ☃ ²", "a\tname\\n, with 'quotes' \"of all sorts\"", "fn_₁",
    "a_name_that_goes_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on"];
pub fn test_name(scn: &Value) -> &'static str {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in scn["cfg"].to_string().bytes().chain(scn["an"].to_string().bytes()).chain(scn["n"].to_string().bytes()) { h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3) }
    // (mostly a plain one)
    NAMES[((h >> 20) % (2 * NAMES.len() as u64)) as usize % NAMES.len() * ((h >> 40) % 2) as usize]
}

/// a user closure panicking on purpose
pub const BOOM: &str = "VERIF-USER-PANIC";

/// what user closures return: any number
pub fn returned(k: u64) -> u32 {
    match k % 7 { 0 => u32::MAX, 1 => 1, 2 => 0, 3 => 0x8000_0000, 4 => k as u32, _ => (k.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 32) as u32 }
}

/// what closures of the running scenario panic with
static PAYLOAD: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
pub fn set_payload(scn: &Value) { PAYLOAD.store(scn["boom"].as_u64().unwrap_or(0), std::sync::atomic::Ordering::SeqCst) }

/// users fail in many ways
pub fn boom() -> ! {
    match PAYLOAD.load(std::sync::atomic::Ordering::SeqCst) {
        0 => panic!("{}", BOOM),
        1 => panic!("VERIF-USER-PANIC"),
        2 => std::panic::panic_any(7i32),
        3 => std::panic::resume_unwind(Box::new(std::io::Error::from(std::io::ErrorKind::TimedOut))),
        // as the library itself would say
        4 => panic!("\n ** Aborted AFTER 3 retries due to TIME complexity mismatch: maximum: BigOAlgorithmComplexity::O1, measured: BigOAlgorithmComplexity::ON"),
        5 => panic!("\n ** Aborted due to SPACE complexity mismatch"),
        6 => { let v: Vec<u32> = std::hint::black_box(vec![]); let _ = std::hint::black_box(v[PAYLOAD.load(std::sync::atomic::Ordering::SeqCst) as usize]); unreachable!() }
        _ => { Result::<(), std::fmt::Error>::Err(std::fmt::Error).expect("measured time is too noisy: retry"); unreachable!() }
    }
}
