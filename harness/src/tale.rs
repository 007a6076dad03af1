//! What is told to the user while a test runs, and when it fails -- see spec/Tale.tla

use std::panic::PanicHookInfo;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::Mutex;
use serde_json::{json, Value};
use crate::report::{captured_from, description};
use crate::script::{test_name, BOOM};

static LISTENING: AtomicBool = AtomicBool::new(false);
static REPORT: Mutex<String> = Mutex::new(String::new());
static PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());

pub fn heard_panic(info: &PanicHookInfo) {
    if LISTENING.load(SeqCst) {
        let text = info.payload().downcast_ref::<String>().cloned().or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        PANICS.lock().unwrap_or_else(|e| e.into_inner()).push(text);
    }
}

/// by the analyses that do return one
pub fn report_returned(text: &str) {
    if LISTENING.load(SeqCst) { *REPORT.lock().unwrap_or_else(|e| e.into_inner()) = text.to_string(); }
}

const NAMES: [&str; 17] = ["BetterThanO1", "O1", "BetweenO1AndOLogN", "OLogN", "BetweenOLogNAndON", "ON", "BetweenONAndONLogN", "ONLogN", "BetweenONLogNAndON2",
                           "ON2", "BetweenON2AndON3", "ON3", "BetweenON3AndON4", "ON4", "BetweenON4AndOkN", "OkN", "WorseThanExponential"];
const DESCRIPTIONS: [&str; 17] = ["Better than O(1)", "O(1)", "Worse than O(1), but better than O(log(n))", "O(log(n))", "Worse than O(log(n)), but better than O(n)", "O(n)",
    "Worse than O(n), but better than O(n.log(n))", "O(n.log(n))", "Worse than O(n.log(n)), but better than O(n^2)", "O(n^2)",
    "Worse than O(n^2), but better than O(n^3)", "O(n^3)", "Worse than O(n^3), but better than O(n^4)", "O(n^4)",
    "Worse than O(n^4), but better than O(k^n)", "O(k^n)", "Worse than Exponential!!"];
fn named(text: &str) -> i64 { NAMES.iter().position(|n| *n == text.trim().trim_matches('\'')).map(|i| i as i64).unwrap_or(-1) }
fn described(text: &str) -> i64 { let d = description(text); DESCRIPTIONS.iter().position(|n| *n == d).map(|i| i as i64).unwrap_or(-1) }

/// "<op>' operation: maximum: <class>, measured: <class>..."
fn excess(kind: &str, rest: &str) -> String {
    let (op, rest) = rest.split_once("' operation: maximum: ").unwrap_or((rest, ""));
    let (max, rest) = rest.split_once(", measured: ").unwrap_or((rest, ""));
    let got = rest.split(|c: char| !c.is_ascii_alphanumeric()).next().unwrap_or("");
    format!("{kind} {op} {} {}", named(max), named(got))
}
/// "'<op>' algorithm was expected to match a maximum <kind> complexity of '<class>', but '<class>' was measured"
fn expectation(text: &str) -> String {
    let f = || {
        let text = text.split_once(": '").map(|x| x.1)?;
        let (op, rest) = text.split_once("' algorithm was expected to match a maximum ")?;
        let (kind, rest) = rest.split_once(" complexity of '")?;
        let (max, rest) = rest.split_once("', but '")?;
        let (got, _) = rest.split_once("' was measured")?;
        Some(format!("{kind} {op} {} {}", named(max), named(got)))
    };
    f().unwrap_or_else(|| format!("? {text}"))
}
fn mismatch(text: &str) -> String {
    for (mark, kind) in [("SPACE complexity mismatch on '", "SPACE"), ("TIME complexity mismatch on '", "TIME")] {
        if let Some((_, rest)) = text.split_once(mark) { return excess(kind, rest) }
    }
    format!("? {text}")
}

/// the relevant bits of an output, in order
fn tokens(text: &str) -> Vec<String> {
    const MARKS: [&str; 30] = ["Running '", " CRUD Algorithm Complexity Analysis:", "Resetting: ", "Warming up: ", "Resetting again: ", "In-between-passes Reset: ",
        "Pass 1: ", "Pass 2: ", "warming up [", "First Pass (", "Second Pass (", "create: ", "read: ", "update: ", "Delete Passes (", "2nd: ", "1st: ",
        " measurements:", "\n1) ", "\n2) ", "Algorithm  Time Analysis: ", "Algorithm Space Analysis: ",
        "SPACE complexity mismatch on '", "TIME complexity mismatch on '", "retrying...", " failed. Resetting before retrying",
        "delete: ", "reset: ", "warmup: ", "Pass 3: "];
    let mut out = vec![];
    let mut at = 0;
    while let Some((i, mark)) = MARKS.iter().filter_map(|m| text[at..].find(m).map(|i| (at + i, *m))).min_by_key(|(i, m)| (*i, usize::MAX - m.len())) {
        let rest = &text[i + mark.len()..];
        let line = rest.lines().next().unwrap_or("");
        let before = text[..i].rsplit('\n').next().unwrap_or("");
        match mark {
            "Running '" => {
                let (name, kind) = line.split_once("' ").unwrap_or((line, ""));
                out.push(format!("{}:{}", if kind.starts_with("async") {"async"} else {"sync"}, name));
            }
            " CRUD Algorithm Complexity Analysis:" => out.push(format!("crud:{}", before.trim())),
            "warming up [" => {
                out.push("warming up".into());
                for c in rest.chars().take_while(|c| c.is_ascii_alphabetic()) { out.push(c.to_string()) }
            }
            " measurements:" => {
                let (name, kind) = before.trim().trim_start_matches('\'').split_once("' ").unwrap_or((before, ""));
                out.push(format!("title:{name} {}", kind.split([' ', '-']).next().unwrap_or("")));
            }
            "Algorithm  Time Analysis: " => out.push(format!("time:{}", described(line))),
            "Algorithm Space Analysis: " => out.push(format!("space:{}", described(line.rsplit_once(" (").map(|x| x.0).unwrap_or(line)))),
            "SPACE complexity mismatch on '" => out.push(excess("SPACE", line)),
            "TIME complexity mismatch on '" => out.push(excess("TIME", line)),
            " failed. Resetting before retrying" => out.push(format!("failed:{}", before.trim_start_matches("Attempt ").trim())),
            _ => out.push(mark.trim_matches(|c: char| !c.is_ascii_alphanumeric()).to_string()),
        }
        at = i + mark.len();
    }
    out
}

/// is there any memory figure other than zero?
fn memory_seen(text: &str) -> bool {
    let figure = |s: &str| s.chars().take_while(|c| !c.is_whitespace() && !",;)".contains(*c)).any(|c| ('1'..='9').contains(&c));
    text.match_indices('/').any(|(i, _)| figure(&text[i + 1..])) || ["allocated: ", "freed: ", "auxiliary used space: "].iter().any(|m| text.match_indices(m).any(|(i, _)| figure(&text[i + m.len()..])))
}

/// "<n>x: '<error>'[, ]..." or " - <op> with <class> (<n> time[s])" -- each with its count
fn previous(text: &str) -> Vec<(String, i64)> {
    let mut out = vec![];
    if text.contains("x: '") {
        let parts: Vec<&str> = text.split("x: '").collect();
        for k in 1..parts.len() {
            let count = parts[k - 1].rsplit(|c: char| !c.is_ascii_digit()).next().unwrap_or("").parse().unwrap_or(-1);
            out.push((mismatch(parts[k]), count));
        }
    } else {
        for line in text.lines().filter_map(|l| l.trim().strip_prefix("- ")) {
            let (what, count) = line.rsplit_once(" (").unwrap_or((line, ""));
            let (op, class) = what.split_once(" with ").unwrap_or((what, ""));
            let mut words = count.trim_end_matches(')').split(' ');
            let n: i64 = words.next().and_then(|n| n.parse().ok()).unwrap_or(-1);
            out.push((format!("{op} {}", named(class)), if words.next() == Some(if n == 1 {"time"} else {"times"}) { n } else { -1 }));
        }
    }
    out.sort();
    out
}
fn message(panics: &[String]) -> Value {
    let none = |k: &str| json!({"k": k, "n": 0, "last": "", "prev": []});
    if panics.iter().any(|p| p == BOOM) { return none("user") }
    let Some(text) = panics.last() else { return none("none") };
    let number = |before: &str, after: &str| text.split_once(before).and_then(|x| x.1.split_once(after)).and_then(|x| x.0.trim().parse::<i64>().ok()).unwrap_or(-1);
    let (k, n, last, prev) = if text.starts_with("Given up with '") {
        ("gave up", number("' after ", " attempts. Previous"), mismatch(text), text.split_once("Previous transient errors: ").map(|x| x.1).unwrap_or("?"))
    } else if text.starts_with("Stopped after retrying for ") {
        ("stopped", number("retrying for ", " attempts due to"), mismatch(text), text.split_once("Previous transient errors: ").map(|x| x.1).unwrap_or("?"))
    } else if text.starts_with("After ") {
        ("gave up", number("After ", " attempts, gave up"), expectation(text), text.split_once("Previous attempts failed at:\n").map(|x| x.1).unwrap_or("?"))
    } else if text.starts_with("At attempt #") {
        ("stopped", number("#", ", SPACE"), expectation(text), "")
    } else if text.contains("** Aborted due to ") {
        ("aborted", 0, mismatch(text), "")
    } else {
        return json!({"k": "?", "n": -1, "last": text, "prev": []})
    };
    json!({"k": k, "n": n, "last": last, "prev": previous(prev).into_iter().map(|(e, n)| json!([e, n])).collect::<Vec<_>>()})
}

pub fn run(scn: &Value) -> Value {
    PANICS.lock().unwrap_or_else(|e| e.into_inner()).clear();
    REPORT.lock().unwrap_or_else(|e| e.into_inner()).clear();
    LISTENING.store(true, SeqCst);
    let ((mut t, stderr), stdout) = captured_from(1, || captured_from(2, || match scn["kind"].as_str().unwrap() {
        "sync" => crate::sync::run(scn),
        #[cfg(feature = "asy")]
        "async" => crate::asyn::run(scn),
        "crud" => crate::crud::run(scn),
        k => panic!("harness: kind {k}"),
    }));
    LISTENING.store(false, SeqCst);
    let panics = std::mem::take(&mut *PANICS.lock().unwrap_or_else(|e| e.into_inner()));
    // names come out as they were given
    let name = test_name(scn);
    let plain = |text: String| if name.is_empty() { text.replace("''", "'scripted'").replace("\"\"", "\"scripted\"").replace("\n CRUD Algorithm", "\nscripted CRUD Algorithm")
            .replacen(" CRUD Algorithm", "scripted CRUD Algorithm", text.starts_with(" CRUD Algorithm") as usize) }
        else { text.replace(name, "scripted").replace(format!("{name:?}").strip_prefix('"').and_then(|n| n.strip_suffix('"')).unwrap(), "scripted") };
    let (stdout, stderr, panics) = (plain(stdout), plain(stderr), panics.into_iter().map(plain).collect::<Vec<_>>());
    t["stdout"] = json!(tokens(&stdout));
    t["stderr"] = json!(tokens(&stderr));
    t["report"] = json!(tokens(&plain(REPORT.lock().unwrap_or_else(|e| e.into_inner()).clone())));
    t["bytes"] = json!({"stdout": stdout.len().min(1_000_000), "stderr": stderr.len().min(1_000_000)});
    t["mem"] = json!(memory_seen(&stdout) as u32 + memory_seen(&stderr) as u32);
    t["msg"] = message(&panics);
    if std::env::var("VERIF_RAW").is_ok() { t["raw"] = json!([stdout, stderr, panics]); }
    t
}
