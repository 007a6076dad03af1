//! Gets reports and splits them into their figures -- see spec/Report.tla

use std::fs::File;
use std::os::fd::AsRawFd;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::Duration;
use serde_json::{json, Value};
use big_o_test::low_level_analysis::{space_analysis::*, time_analysis::*, types::*};
use big_o_test::runners::crud::analyse_crud_algorithms;
#[cfg(feature = "asy")]
use big_o_test::RegularAsyncAnalyzerBuilder;
use crate::script::*;
use crate::vclock;

extern "C" { fn dup(fd: i32) -> i32; fn dup2(a: i32, b: i32) -> i32; fn close(fd: i32) -> i32; }

/// gives what `f` outputs to the standard output
fn captured<R>(f: impl FnOnce() -> R) -> (R, String) { captured_from(1, f) }
/// gives what `f` outputs to a file descriptor
pub fn captured_from<R>(fd: i32, f: impl FnOnce() -> R) -> (R, String) {
    let path = std::env::temp_dir().join(format!("verif-report-{}-{}", std::process::id(), fd));
    let file = File::create(&path).expect("harness: capturing");
    let saved = unsafe { dup(fd) };
    unsafe { dup2(file.as_raw_fd(), fd) };
    let r = f();
    { use std::io::Write; let _ = std::io::stdout().flush(); }
    unsafe { dup2(saved, fd); close(saved); }
    let text = std::fs::read_to_string(&path).expect("harness: capturing");
    let _ = std::fs::remove_file(&path);
    (r, text)
}

/// a figure, signed or not
fn figure(text: &str) -> Value {
    let (sign, rest) = match text.chars().next() { Some('+') => ("+", &text[1..]), Some('-') => ("-", &text[1..]), _ => ("", text) };
    let mut f = parse(rest);
    f["sign"] = json!(sign);
    // whole thousands of millions
    f["z"] = json!(0);
    if rest.len() == 10 && rest.ends_with("000000000") && rest.as_bytes()[0].is_ascii_digit() { f["ip"] = json!(rest.as_bytes()[0] - b'0'); f["suf"] = json!(""); f["z"] = json!(9) }
    f
}
pub fn description(text: &str) -> String {
    text.split(" -- ").next().unwrap().trim().replace('²', "^2").replace('³', "^3").replace('⁴', "^4").replace('ⁿ', "^n")
}

/// the events of a report
fn split(report: &str) -> Vec<Value> {
    let mut ev = vec![];
    for line in report.lines() {
        let t = line.trim_start();
        if let Some((name, kind)) = t.strip_suffix(" measurements:").and_then(|t| t.strip_prefix('\'')).and_then(|t| t.rsplit_once("' ")) {
            ev.push(json!({"e": "title", "name": name, "kind": kind}));
        } else if t.starts_with("1) ") || t.starts_with("2) ") {
            let tokens: Vec<Value> = t[3..].split_whitespace().map(figure).collect();
            ev.push(json!({"e": "row", "i": if t.starts_with('1') {1} else {2}, "t": tokens, "text": t}));
        } else if let Some(r) = t.strip_prefix("--> Algorithm  Time Analysis: ") {
            ev.push(json!({"e": "time", "c": description(r)}));
        } else if let Some(r) = t.strip_prefix("--> Algorithm Space Analysis: ") {
            let (class, rest) = r.rsplit_once(" (").unwrap_or((r, ""));
            let rest = rest.trim_end_matches(')');
            let (net, aux) = rest.split_once("; auxiliary used space: ").unwrap_or((rest, "?"));
            let (what, net) = net.split_once(": ").unwrap_or((net, "?"));
            ev.push(json!({"e": "space", "c": description(class), "what": what, "net": figure(net), "aux": figure(aux)}));
        }
    }
    ev
}
/// figures of the passes, given while running: "<label>: <time>/<memory>"
fn intermediate(text: &str, labels: &[(&str, &str, u32)]) -> Vec<Value> {
    let mut ev = vec![];
    for (label, op, pass) in labels {
        for (at, _) in text.match_indices(label) {
            let rest = &text[at + label.len()..];
            let end = rest.find(|c: char| c.is_whitespace() || [',', ';', ')'].contains(&c)).unwrap_or(rest.len());
            let (dt, ds) = rest[..end].split_once('/').unwrap_or((&rest[..end], "?"));
            ev.push(json!({"e": "mid", "op": op, "pass": pass, "dt": figure(dt), "ds": figure(ds)}));
        }
    }
    ev
}

/// the 'b' bytes of a pass, from a scripted one
fn scale(p: &Value) -> usize { 1usize << (10 * p["k"].as_u64().unwrap()) }
fn duration(p: &Value) -> Duration { Duration::new(p["s"].as_u64().unwrap(), p["ns"].as_u64().unwrap() as u32) }
fn space(p: &Value, base: u64) -> BigOSpacePassMeasurements {
    if p["lost"] == 1 {
        return BigOSpacePassMeasurements { used_memory_before: usize::MIN, used_memory_after: usize::MAX, min_used_memory: usize::MIN, max_used_memory: usize::MAX }
    }
    let u = scale(p);
    let (x, y, z) = (p["x"].as_u64().unwrap() as usize * u, p["y"].as_u64().unwrap() as usize * u, p["z"].as_i64().unwrap() as isize * u as isize);
    let before = y + match base { 0 => 0, 1 => 12_345, _ => (1usize << 45) + 987_654_321 };
    BigOSpacePassMeasurements { used_memory_before: before, used_memory_after: (before as isize + z) as usize, max_used_memory: before + x, min_used_memory: before - y }
}
fn pass_measurements() -> BigOPassMeasurements {
    BigOPassMeasurements { time_measurements: Duration::ZERO, space_measurements: BigOSpacePassMeasurements::default(), custom_measurements: vec![] }
}
fn analysis_text(an: &Value, base: u64) -> String {
    let n = |k: &str| an[k].as_u64().unwrap() as u32 * 10u32.pow(an["nz"].as_u64().unwrap() as u32);
    let (p1, p2) = (&an["p"][0], &an["p"][1]);
    let t = BigOTimeMeasurements { pass_1_measurements: duration(p1), pass_2_measurements: duration(p2) };
    let s = BigOSpaceMeasurements { pass_1_measurements: space(p1, base), pass_2_measurements: space(p2, (base + 1) % 3) };
    let (tc, sc) = (complexity(an["tc"].as_u64().unwrap()), complexity(an["sc"].as_u64().unwrap()));
    let name = an["name"].as_str().unwrap();
    match an["kind"].as_str().unwrap() {
        "regular" => BigOAlgorithmAnalysis { time_complexity: tc, space_complexity: sc, algorithm_measurements: AlgorithmMeasurements {
            measurement_name: name, passes_info: AlgorithmPassesInfo { pass1_n: n("n1"), pass2_n: n("n2") }, time_measurements: t, space_measurements: s,
            pass1_measurements: pass_measurements(), pass2_measurements: pass_measurements() } }.to_string(),
        "constant" => BigOAlgorithmAnalysis { time_complexity: tc, space_complexity: sc, algorithm_measurements: ConstantSetIteratorAlgorithmMeasurements {
            measurement_name: name, passes_info: ConstantSetIteratorAlgorithmPassesInfo { pass_1_set_size: n("n1"), pass_2_set_size: n("n2"), repetitions: n("rep") },
            time_measurements: t, space_measurements: s, pass1_measurements: pass_measurements(), pass2_measurements: pass_measurements() } }.to_string(),
        "resizing" => BigOAlgorithmAnalysis { time_complexity: tc, space_complexity: sc, algorithm_measurements: SetResizingIteratorAlgorithmMeasurements {
            measurement_name: name, passes_info: SetResizingIteratorAlgorithmPassesInfo { delta_set_size: n("n1") }, time_measurements: t, space_measurements: s } }.to_string(),
        k => panic!("harness: kind {k}"),
    }
}

/// a pass that consumes exactly what's scripted: `y` bytes, kept beforehand, are the first to be released
struct Scripted { kept: Kept, blocks: [Option<Block>; 2] }
static S: Mutex<Scripted> = Mutex::new(Scripted { kept: Kept::none(), blocks: [None, None] });
fn block(n: usize) -> Option<Block> {
    if n == 0 { return None }
    let l = std::alloc::Layout::from_size_align(n, 1).unwrap();
    Some(Block(unsafe { std::alloc::alloc(l) }, l))
}
fn play(i: usize, p: &[(usize, usize, isize, u64); 2]) {
    let (x, y, z, ns) = p[i];
    let mut s = S.lock().unwrap_or_else(|e| e.into_inner());
    Kept::tmp(x);
    if let Some(Block(p, l)) = s.blocks[i].take() { unsafe { std::alloc::dealloc(p, l) } }
    s.kept.keep((y as isize + z) as usize);
    vclock::advance(ns);
}
fn scripted(an: &Value) -> [(usize, usize, isize, u64); 2] {
    let f = |p: &Value| (p["x"].as_u64().unwrap() as usize * scale(p), p["y"].as_u64().unwrap() as usize * scale(p), p["z"].as_i64().unwrap() as isize * scale(p) as isize, duration(p).as_nanos() as u64);
    [f(&an["p"][0]), f(&an["p"][1])]
}

/// times that fit the arithmetics of TLC, with no less than 8 digits
fn time_json(d: Duration) -> (u64, u32, u64, u32) {
    let (mut ta, mut tx) = (d.as_nanos() as u64, 0);
    while ta >= 100_000_000 { ta = (ta + 5) / 10; tx += 1 }
    (d.as_secs(), d.subsec_nanos(), ta, tx)
}
fn pass_json(t: Duration, m: &BigOSpacePassMeasurements) -> Value {
    let (s, ns, ta, tx) = time_json(t);
    let rel = |x: usize| (x as i64 - m.used_memory_before as i64).clamp(-1_000_000_000, 1_000_000_000);
    json!({"s": s, "ns": ns, "ta": ta, "tx": tx, "x": rel(m.max_used_memory), "y": -rel(m.min_used_memory), "z": rel(m.used_memory_after), "k": 0, "lost": 0})
}

pub fn run(scn: &Value) -> Value {
    let via = scn["via"].as_str().unwrap();
    let mut an = scn["an"].clone();
    let name = test_name(scn);
    if matches!(via, "std" | "async") { an[0]["name"] = json!(name) }
    let mut ev = vec![];
    let mut out = "ok";
    let mut requested: Vec<Value> = an.as_array().map(|a| a.iter().map(|a| a["name"].clone()).collect()).unwrap_or_default();
    match via {
        "built" => match catch_unwind(AssertUnwindSafe(|| analysis_text(&an[0], scn["base"].as_u64().unwrap()))) {
            Ok(text) => ev = split(&text),
            Err(_) => out = "panic",
        },
        "std" | "async" => {
            let p = scripted(&an[0]);
            *S.lock().unwrap_or_else(|e| e.into_inner()) = Scripted { kept: Kept::with_capacity(4), blocks: [block(p[0].1), block(p[1].1)] };
            let (n1, n2) = (an[0]["n1"].as_u64().unwrap() as u32, an[0]["n2"].as_u64().unwrap() as u32);
            let (res, text) = captured(|| {
                vclock::enable(0);
                let r = catch_unwind(AssertUnwindSafe(|| if via == "std" {
                    big_o_test::test_algorithm(name, 0, || {}, n1, || { play(0, &p); 0 }, n2, || { play(1, &p); 0 }, complexity(16), complexity(16));
                } else {
                    #[cfg(feature = "asy")]
                    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
                    #[cfg(feature = "asy")]
                    rt.block_on(RegularAsyncAnalyzerBuilder::new(name)
                        .first_pass(n1, |_: Option<()>| async { play(0, &p) })
                        .second_pass(n2, |_: Option<()>| async { play(1, &p) })
                        .with_time_measurements(complexity(16)).with_space_measurements(complexity(16)).test_algorithm());
                }));
                vclock::disable();
                r
            });
            S.lock().unwrap_or_else(|e| e.into_inner()).kept.free();
            if res.is_err() { out = "panic" }
            // the classes it should state are those of the analysis functions for what was consumed
            let info = AlgorithmPassesInfo { pass1_n: n1, pass2_n: n2 };
            an[0]["tc"] = json!(analyse_time_complexity(&info, &BigOTimeMeasurements { pass_1_measurements: duration(&an[0]["p"][0]), pass_2_measurements: duration(&an[0]["p"][1]) }) as u32);
            an[0]["sc"] = json!(analyse_space_complexity(&info, &BigOSpaceMeasurements { pass_1_measurements: space(&an[0]["p"][0], 0), pass_2_measurements: space(&an[0]["p"][1], 0) }) as u32);
            ev = intermediate(&text, &[("Pass 1: ", name, 1), ("Pass 2: ", name, 2)]);
            ev.extend(split(&text));
        }
        "crud" => {
            let arr = |k: &str, i: usize| scn[k][i].as_u64().unwrap() as u32;
            let (t, m) = (scn["t"].as_u64().unwrap(), scn["m"].as_u64().unwrap() as usize);
            let kept = Mutex::new(Kept::with_capacity(400));
            let spend = |o: u64, n: u32| vclock::advance(t * o + t / 7 * (n as u64 % 3));
            let (res, text) = captured(|| {
                vclock::enable(3_000);
                let r = catch_unwind(AssertUnwindSafe(|| analyse_crud_algorithms(name,
                    |n| { kept.lock().unwrap().free(); n },
                    |n| { spend(1, n); kept.lock().unwrap().keep(m + n as usize * 8); n },
                    |n| { spend(2, n); Kept::tmp(m * (n as usize + 1)); n },
                    |n| { spend(3, n); if let Some(Block(p, l)) = kept.lock().unwrap().0.pop() { unsafe { std::alloc::dealloc(p, l) } } n },
                    |n| { spend(5, n); if let Some(Block(p, l)) = kept.lock().unwrap().0.pop() { unsafe { std::alloc::dealloc(p, l) } } n },
                    scn["w"].as_u64().unwrap() as u32, arr("n", 0), arr("n", 1), arr("n", 2), arr("n", 3), arr("th", 0), arr("th", 1), arr("th", 2), arr("th", 3))));
                vclock::disable();
                r
            });
            kept.lock().unwrap_or_else(|e| e.into_inner()).free();
            requested = ["Create", "Read", "Update", "Delete"].iter().enumerate().filter(|(i, _)| arr("n", *i) > 0 && arr("th", *i) > 0).map(|(_, n)| json!(n)).collect();
            an = json!([]);
            match res {
                Ok((c, r, u, d, report)) => {
                    let mut ans = vec![];
                    let sr = |a: &BigOAlgorithmAnalysis<SetResizingIteratorAlgorithmMeasurements>| {
                        let m = &a.algorithm_measurements;
                        json!({"name": m.measurement_name, "kind": "resizing", "n1": m.passes_info.delta_set_size, "n2": m.passes_info.delta_set_size * 2, "rep": 1, "nz": 0,
                               "tc": a.time_complexity as u32, "sc": a.space_complexity as u32,
                               "p": [pass_json(m.time_measurements.pass_1_measurements, &m.space_measurements.pass_1_measurements), pass_json(m.time_measurements.pass_2_measurements, &m.space_measurements.pass_2_measurements)]})
                    };
                    let cs = |a: &BigOAlgorithmAnalysis<ConstantSetIteratorAlgorithmMeasurements>| {
                        let m = &a.algorithm_measurements;
                        json!({"name": m.measurement_name, "kind": "constant", "n1": m.passes_info.pass_1_set_size, "n2": m.passes_info.pass_2_set_size, "rep": m.passes_info.repetitions, "nz": 0,
                               "tc": a.time_complexity as u32, "sc": a.space_complexity as u32,
                               "p": [pass_json(m.time_measurements.pass_1_measurements, &m.space_measurements.pass_1_measurements), pass_json(m.time_measurements.pass_2_measurements, &m.space_measurements.pass_2_measurements)]})
                    };
                    c.iter().for_each(|a| ans.push(sr(a)));
                    r.iter().for_each(|a| ans.push(cs(a)));
                    u.iter().for_each(|a| ans.push(cs(a)));
                    d.iter().for_each(|a| ans.push(sr(a)));
                    an = json!(ans);
                    let (first, rest) = report.split_once("); Second Pass (").unwrap_or((&report, ""));
                    ev = intermediate(first, &[("create: ", "Create", 1), ("read: ", "Read", 1), ("update: ", "Update", 1)]);
                    ev.extend(intermediate(rest, &[("create: ", "Create", 2), ("read: ", "Read", 2), ("update: ", "Update", 2), ("1st: ", "Delete", 1), ("2nd: ", "Delete", 2)]));
                    ev.extend(split(&report));
                    ev.push(json!({"e": "same", "v": (text == report) as u32}));
                }
                Err(_) => out = "panic",
            }
        }
        v => panic!("harness: via {v}"),
    }
    json!({"id": scn["id"], "via": via, "an": an, "requested": requested, "asked": if scn["n"].is_null() {json!([])} else {scn["n"].clone()}, "ev": ev, "out": out})
}

/// splits "12.34e5unit" -- or gives `ip` -1 if it isn't so
pub fn parse(text: &str) -> Value {
    let suffix_at = text.find(|c: char| !c.is_ascii_digit()).unwrap_or(text.len());
    let (ip, mut rest) = text.split_at(suffix_at);
    let mut fp = "";
    if let Some(r) = rest.strip_prefix('.') {
        let n = r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len());
        fp = &r[..n];
        rest = &r[n..];
    }
    let mut x = -1;
    if let Some(r) = rest.strip_prefix('e') {
        let n = r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len());
        if n > 0 && n <= 4 {
            x = r[..n].parse::<i64>().unwrap();
            rest = &r[n..];
        }
    }
    let ip_n = if ip.len() <= 9 { ip.parse::<i64>().unwrap_or(-1) } else { -1 };
    if fp.len() > 9 || ip_n < 0 { return json!({"ip": -1, "fp": 0, "fl": 0, "x": -1, "suf": text}) }
    json!({"ip": ip_n, "fp": fp.parse::<i64>().unwrap_or(0), "fl": fp.len(), "x": x, "suf": rest.replace('µ', "u")})
}
