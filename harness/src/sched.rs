//! Takes control of the interleaving of threads: one runs at a time and others take over only right before an atomic operation of
//! the object under test (or between operations, or when an element is dropped). Schedules are either enumerated -- with bounded
//! preemptions and spurious failures of weak compare & exchanges -- or random.

use std::cell::Cell;
use std::sync::{Condvar, Mutex, MutexGuard, Arc};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::Duration;
use big_o_test::verif_hooks::atomic::{self, Effect, Op, OpKind};

pub const MAX_THREADS: usize = 6;      // the first one is the main thread, which isn't scheduled

#[derive(Clone, Copy, PartialEq, Debug)]
enum Status { Idle, Ready, Blocked, Done }

#[derive(Clone, Copy, PartialEq)]
pub enum Mode { Systematic, Random }

/// an atomic operation on the object
#[derive(Clone, Copy, Debug)]
pub struct Step { pub t: usize, pub addr: usize, pub op: OpKind, pub order: Ordering, pub failure_order: Ordering, pub written: Option<u64> }

struct State {
    cur: usize,
    status: [Status; MAX_THREADS],
    threads: usize,
    mode: Mode,
    preemptions: u32,
    spurious: u32,
    after_writes: bool,
    path: Vec<(u32, u32)>,
    pos: usize,
    rng: u64,
    steps: u64,
    // spin detection: reads since the own latest write, as of the latest write of the others
    seen: [Vec<(usize, u64, u32)>; MAX_THREADS],
    waiting: [bool; MAX_THREADS],
    fresh_op: [bool; MAX_THREADS],
    livelock: bool,
    rescues: u32,
    job: Option<Arc<dyn Fn(usize) + Send + Sync>>,
    generation: u64,
    /// waiting for its turn (so, not for anything else)
    parked: [bool; MAX_THREADS],
    tids: [u32; MAX_THREADS],
}

static STATE: Mutex<State> = Mutex::new(State {
    cur: usize::MAX, status: [Status::Idle; MAX_THREADS], threads: 0, mode: Mode::Systematic, preemptions: 0, spurious: 0, after_writes: false,
    path: Vec::new(), pos: 0, rng: 1, steps: 0, seen: [const { Vec::new() }; MAX_THREADS], waiting: [false; MAX_THREADS], fresh_op: [false; MAX_THREADS],
    livelock: false, rescues: 0, job: None, generation: 0, parked: [false; MAX_THREADS], tids: [0; MAX_THREADS],
});
static TURN: [Condvar; MAX_THREADS] = [const { Condvar::new() }; MAX_THREADS];
static MAIN: Condvar = Condvar::new();
static BORN: std::sync::OnceLock<std::time::Instant> = std::sync::OnceLock::new();
static START: Condvar = Condvar::new();
static LO: AtomicUsize = AtomicUsize::new(0);
static HI: AtomicUsize = AtomicUsize::new(0);
/// what else to do before each operation, and upon each one done
static OBSERVER: Mutex<Option<fn(usize, Option<&Step>)>> = Mutex::new(None);

thread_local! { static ME: Cell<usize> = const { Cell::new(usize::MAX) } }

fn lock() -> MutexGuard<'static, State> { STATE.lock().unwrap_or_else(|e| e.into_inner()) }
pub fn me() -> usize { ME.with(|m| m.get()) }
fn in_range(addr: usize) -> bool { addr == 0 || (addr >= LO.load(Ordering::Relaxed) && addr < HI.load(Ordering::Relaxed)) }

impl State {
    fn next_random(&mut self) -> u64 {
        self.rng ^= self.rng << 13; self.rng ^= self.rng >> 7; self.rng ^= self.rng << 17;
        self.rng
    }
    /// one of `n` options, the first one being the default
    fn choose(&mut self, n: usize, switch: bool) -> usize {
        if n <= 1 { return 0 }
        if self.mode == Mode::Random {
            let r = self.next_random();
            // stay, most of the time
            if switch && r % 100 < 70 { return 0 }
            return (self.next_random() % n as u64) as usize;
        }
        if self.pos < self.path.len() {
            let c = self.path[self.pos].0 as usize;
            self.path[self.pos].1 = n as u32;
            self.pos += 1;
            if c < n { c } else { 0 }
        } else {
            self.path.push((0, n as u32));
            self.pos += 1;
            0
        }
    }
    /// who runs next, at a choice point of `t`
    fn pick(&mut self, t: usize) -> usize {
        let mut options = [0usize; MAX_THREADS];
        let mut n = 0;
        let stays = self.status[t] == Status::Ready && !self.waiting[t];
        if stays { options[n] = t; n += 1 }
        if !stays || self.preemptions > 0 || self.mode == Mode::Random {
            for o in 1..=self.threads {
                if o != t && self.status[o] == Status::Ready && !self.waiting[o] { options[n] = o; n += 1 }
            }
        }
        if n == 0 {
            // everyone left seems to wait for everyone else: let them all have another go
            let ready = (1..=self.threads).any(|o| self.status[o] == Status::Ready);
            if !ready { return usize::MAX }
            self.rescues += 1;
            if self.rescues > 500 {
                if !(1..=self.threads).any(|o| self.status[o] == Status::Blocked) { self.livelock = true }
                return usize::MAX;
            }
            for o in 1..=self.threads {
                self.waiting[o] = false;
                self.seen[o].clear();
                if o != t && self.status[o] == Status::Ready { options[n] = o; n += 1 }
            }
            if n == 0 { options[0] = t }
            return options[0];
        }
        let chosen = options[self.choose(n, stays)];
        if stays && chosen != t { self.preemptions = self.preemptions.saturating_sub(1) }
        chosen
    }
}

fn await_turn(mut st: MutexGuard<'static, State>, t: usize) -> MutexGuard<'static, State> {
    st.parked[t] = true;
    while st.cur != t { st = TURN[t].wait(st).unwrap_or_else(|e| e.into_inner()) }
    st.parked[t] = false;
    st
}

fn hand_over(mut st: MutexGuard<'static, State>, t: usize, next: usize, until_back: bool) {
    if next == t { return }
    st.cur = next;
    if next != usize::MAX { TURN[next].notify_one() } else { MAIN.notify_one() }
    if until_back { drop(await_turn(st, t)) }
}

/// a point in which other threads may take over
pub fn point() {
    let t = me();
    if t == usize::MAX || t == 0 { return }
    let mut st = lock();
    if st.cur != t {
        // was blocked on something else, and released by other threads
        st.status[t] = Status::Ready;
        st = await_turn(st, t);
    }
    st.steps += 1;
    let next = st.pick(t);
    hand_over(st, t, next, true);
}

/// to be called when starting an operation -- before anything else is recorded
pub fn operation_starts() {
    point();
    let t = me();
    if t != usize::MAX && t != 0 { let mut st = lock(); st.fresh_op[t] = true; st.seen[t].clear() }
}

fn before(op: &Op) -> bool {
    let t = ME.try_with(|m| m.get()).unwrap_or(usize::MAX);
    if t == usize::MAX || !in_range(op.addr) { return false }
    if t == 0 { observe(0, None); return false }
    let fresh = {
        let mut st = lock();
        // was blocked on something else, and released by other threads
        if st.cur != t { st.status[t] = Status::Ready; st = await_turn(st, t) }
        std::mem::replace(&mut st.fresh_op[t], false)
    };
    observe(t, None);
    if !fresh { point() }
    if op.kind == OpKind::CasWeak {
        let mut st = lock();
        if st.spurious > 0 {
            if st.mode == Mode::Random { if st.next_random() % 100 < 90 { return false } }
            if st.choose(2, true) == 1 { st.spurious -= 1; return true }
        }
    }
    false
}

fn after(op: &Op, effect: &Effect) {
    let t = ME.try_with(|m| m.get()).unwrap_or(usize::MAX);
    if t == usize::MAX || !in_range(op.addr) { return }
    let step = Step { t, addr: op.addr, op: op.kind, order: op.order, failure_order: op.failure_order, written: effect.written };
    observe(t, Some(&step));
    if t == 0 { return }
    let mut st = lock();
    if effect.written.is_some() {
        for o in 0..MAX_THREADS { if o == t || effect.written != Some(effect.read) || op.kind == OpKind::Store { st.waiting[o] = false; if o != t { st.seen[o].clear() } } }
        st.seen[t].clear();
        st.rescues = 0;
        let after_writes = st.after_writes;
        drop(st);
        if after_writes { point() }
    } else {
        match st.seen[t].iter_mut().find(|s| s.0 == op.addr && s.1 == effect.read) {
            Some(s) => { s.2 += 1; if s.2 >= 4 { st.waiting[t] = true } }
            None => st.seen[t].push((op.addr, effect.read, 1)),
        }
    }
}

fn observe(t: usize, step: Option<&Step>) {
    let f = *OBSERVER.lock().unwrap_or_else(|e| e.into_inner());
    if let Some(f) = f { f(t, step) }
}

fn worker(t: usize) {
    ME.with(|m| m.set(t));
    lock().tids[t] = std::fs::read_link("/proc/thread-self").ok()
        .and_then(|p| p.file_name().and_then(|f| f.to_str()).and_then(|f| f.parse().ok())).expect("harness: /proc/thread-self");
    let mut generation = 0;
    loop {
        let job = {
            let mut st = lock();
            while st.generation == generation || st.job.is_none() || t > st.threads { 
                if t > st.threads { generation = st.generation }
                st = START.wait(st).unwrap_or_else(|e| e.into_inner());
            }
            generation = st.generation;
            st = await_turn(st, t);
            st.job.clone().unwrap()
        };
        job(t);
        drop(job);
        let mut st = lock();
        st.status[t] = Status::Done;
        if st.cur == t || st.cur == usize::MAX {
            let next = st.pick(t);
            hand_over(st, t, next, false);
        } else {
            MAIN.notify_one();
        }
    }
}

pub fn start_workers() {
    ME.with(|m| m.set(0));
    atomic::observe(before, after);
    for t in 1..MAX_THREADS { std::thread::Builder::new().stack_size(256 * 1024).spawn(move || worker(t)).expect("harness: threads"); }
}

pub fn watch(range: Option<(usize, usize)>, observer: Option<fn(usize, Option<&Step>)>) {
    *OBSERVER.lock().unwrap_or_else(|e| e.into_inner()) = None;
    let (lo, hi) = range.unwrap_or((1, 1));
    LO.store(lo, Ordering::Relaxed);
    HI.store(hi, Ordering::Relaxed);
    *OBSERVER.lock().unwrap_or_else(|e| e.into_inner()) = observer;
}

/// state and CPU ticks consumed by a thread of this process
fn os_state(tid: u32) -> Option<(char, u64)> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let mut f = s[s.rfind(')')? + 1..].split_ascii_whitespace();
    let state = f.next()?.chars().next()?;
    let mut f = f.skip(10);
    Some((state, f.next()?.parse::<u64>().ok()? + f.next()?.parse::<u64>().ok()?))
}

/// whether the running thread, which made no steps for a while, waits for something that isn't under control -- rather than just not
/// being given a CPU. Busy waiting (on things out of control) is told by the CPU it consumes
fn blocked(mut st: MutexGuard<'static, State>, t: usize, spent_since: &mut Option<u64>) -> (MutexGuard<'static, State>, bool) {
    let (steps, tid) = (st.steps, st.tids[t]);
    for _ in 0..4 {
        drop(st);
        std::thread::sleep(Duration::from_millis(1));
        let seen = os_state(tid);
        st = lock();
        if st.steps != steps || st.cur != t || st.parked[t] || st.status[t] != Status::Ready { return (st, false) }
        match seen {
            Some(('S', _)) => (),
            Some((_, ticks)) => { let since = *spent_since.get_or_insert(ticks); return (st, ticks >= since + 3) }
            None => return (st, false),
        }
    }
    (st, true)
}

/// one execution: threads 1..=n run `job` under the schedule set up by [Explorer]
fn execute(n: usize, job: Arc<dyn Fn(usize) + Send + Sync>) {
    let mut st = lock();
    st.threads = n;
    for t in 0..MAX_THREADS {
        st.status[t] = if t >= 1 && t <= n { Status::Ready } else { Status::Idle };
        st.waiting[t] = false;
        st.seen[t].clear();
        st.fresh_op[t] = false;
        st.parked[t] = true;
    }
    st.livelock = false;
    st.rescues = 0;
    st.steps = 0;
    st.job = Some(job);
    st.generation += 1;
    st.cur = usize::MAX;
    START.notify_all();
    // thread 0 isn't ready: anyone may start
    let first = st.pick(0);
    st.cur = first;
    TURN[first].notify_one();
    let (mut last, mut idle, mut starved, mut spent) = (0, 0, 0, None);
    loop {
        if (1..=n).all(|t| st.status[t] == Status::Done) { break }
        if st.livelock || st.steps > 100_000 { drop(st); eprintln!("threads wait for each other forever"); std::process::exit(4) }
        let (guard, timeout) = MAIN.wait_timeout(st, Duration::from_millis(4)).unwrap_or_else(|e| e.into_inner());
        st = guard;
        if !timeout.timed_out() && st.cur != usize::MAX { continue }
        if st.steps != last { last = st.steps; idle = 0; starved = 0; spent = None; if st.cur != usize::MAX { continue } }
        let cur = st.cur;
        if cur != usize::MAX && st.status[cur] == Status::Ready {
            let is_blocked;
            if st.parked[cur] { TURN[cur].notify_one(); is_blocked = false } else { (st, is_blocked) = blocked(st, cur, &mut spent) }
            if !is_blocked {
                starved += 1;
                if starved > 40_000 { drop(st); eprintln!("threads got no CPU"); std::process::exit(3) }
                continue
            }
            // let others run
            st.status[cur] = Status::Blocked;
            spent = None;
        }
        idle += 1;
        if idle > 4000 { eprintln!("threads got stuck"); std::process::exit(4) }
        let next = st.pick(0);
        if next != usize::MAX { st.cur = next; TURN[next].notify_one() }
    }
    st.job = None;
    st.cur = usize::MAX;
}

/// goes through the schedules of a program
pub struct Explorer { pub max_executions: u64, pub preemptions: u32, pub spurious: u32, pub random: u64, pub after_writes: bool, pub seed: u64, pub budget_ms: u64,
    /// once the process runs for so long, programs are just explored for a short while
    pub patience_ms: u64 }

#[derive(Default)]
pub struct Explored { pub executions: u64, pub complete: u32 }

impl Explorer {
    pub fn run(&self, n: usize, mut each: impl FnMut(&mut dyn FnMut(Arc<dyn Fn(usize) + Send + Sync>))) -> Explored {
        let mut r = Explored::default();
        let start = std::time::Instant::now();
        let budget_ms = if BORN.get_or_init(|| start).elapsed().as_millis() as u64 > self.patience_ms { self.budget_ms / 20 } else { self.budget_ms };
        let left = || (start.elapsed().as_millis() as u64) < budget_ms;
        let once = |path: Vec<(u32, u32)>, mode: Mode, bound: u32, rng: u64, each: &mut dyn FnMut(&mut dyn FnMut(Arc<dyn Fn(usize) + Send + Sync>))| {
            {
                let mut st = lock();
                st.path = path; st.pos = 0; st.mode = mode; st.preemptions = bound; st.spurious = self.spurious; st.after_writes = self.after_writes; st.rng = rng;
            }
            each(&mut |job| execute(n, job));
            std::mem::take(&mut lock().path)
        };
        'bounds: for bound in 0..=self.preemptions {
            let mut path = vec![];
            loop {
                if r.executions >= self.max_executions || !left() { break 'bounds }
                path = once(path, Mode::Systematic, bound, 1, &mut each);
                r.executions += 1;
                while let Some(&(c, n)) = path.last() { if c + 1 < n { break } path.pop(); }
                match path.last_mut() { Some(l) => l.0 += 1, None => break }
            }
            r.complete = bound + 1;
        }
        for i in 0..self.random {
            if start.elapsed().as_millis() as u64 > 2 * budget_ms { break }
            once(vec![], Mode::Random, 0, (self.seed.wrapping_mul(0x9E3779B97F4A7C15) ^ (i + 1).wrapping_mul(0xD1B54A32D192ED03)) | 1, &mut each);
            r.executions += 1;
        }
        r
    }
}
