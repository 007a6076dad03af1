//! Evaluates the analysis functions, through all their entry points, along series of measurements -- see spec/ClassifierTrace.tla.

use std::time::Duration;
use serde_json::{json, Value};
use big_o_test::low_level_analysis::{analyse_complexity, analyse_set_resizing_iterator_complexity, space_analysis::*, time_analysis::*, types::*};

fn times(u1: u64, u2: u64, unit_ns: u64) -> BigOTimeMeasurements {
    BigOTimeMeasurements { pass_1_measurements: Duration::from_nanos(u1 * unit_ns), pass_2_measurements: Duration::from_nanos(u2 * unit_ns) }
}

/// the peaks are what matters: whatever remains in use, or the lowest usage, must not
fn space(u: u64, unit: u64, base: u64, variant: usize) -> BigOSpacePassMeasurements {
    let peak = (base + u * unit) as usize;
    let (after, min) = match variant % 3 {
        0 => (base as usize, base as usize),
        1 => (peak, base as usize),
        _ => (base as usize / 2, base as usize / 3),
    };
    BigOSpacePassMeasurements { used_memory_before: base as usize, used_memory_after: after, max_used_memory: peak, min_used_memory: min }
}
fn spaces(u1: u64, u2: u64, unit: u64, base: u64, variant: usize) -> BigOSpaceMeasurements {
    BigOSpaceMeasurements { pass_1_measurements: space(u1, unit, base, variant), pass_2_measurements: space(u2, unit, base * 2 + 5 * (base > 0) as u64, variant + 1) }
}
fn lost_space(which: u32) -> BigOSpaceMeasurements {
    let lost = BigOSpacePassMeasurements { used_memory_before: usize::MIN, used_memory_after: usize::MAX, min_used_memory: usize::MIN, max_used_memory: usize::MAX };
    BigOSpaceMeasurements {
        pass_1_measurements: if which & 1 != 0 { lost } else { space(1000, 1, 50_000, 0) },
        pass_2_measurements: if which & 2 != 0 { lost } else { space(1000, 1, 50_000, 0) },
    }
}

const S: u64 = 1_000_000_000;

pub fn run(scn: &Value) -> Value {
    // (sizes that TLC's integers can't represent are powers of two)
    let size = |k: &str| { let n = scn[k].as_i64().unwrap(); if n < 0 { 1u32 << -n } else { n as u32 } };
    let (n1, n2) = (size("n1"), size("n2"));
    let regular = scn["kind"] == "regular";
    let p  = AlgorithmPassesInfo { pass1_n: n1, pass2_n: n2 };
    let cs = |repetitions| ConstantSetIteratorAlgorithmPassesInfo { pass_1_set_size: n1, pass_2_set_size: n2, repetitions };
    let sr = SetResizingIteratorAlgorithmPassesInfo { delta_set_size: n1 };
    let mut r = vec![];
    let mut abs: Vec<u32> = vec![];
    for (i, pt) in scn["pts"].as_array().unwrap().iter().enumerate() {
        let (u1, u2) = (pt[0].as_u64().unwrap(), pt[1].as_u64().unwrap());
        let mut c: Vec<(BigOAlgorithmComplexity, u32)> = vec![];
        if regular {
            c.push((analyse_complexity(u1 as f64, u2 as f64, n1 as f64, n2 as f64), 1));
            for (unit, a) in [(S, 1), (1_000_000, 0), (1_000, 0), (1, 0), (60 * S, 0)] {
                c.push((analyse_time_complexity(&p, &times(u1, u2, unit)), a));
                c.push((analyse_time_complexity_for_constant_set_iterator_algorithm(&cs(1 + 77 * a), &times(u1, u2, unit)), a));
            }
            for (unit, base, a) in [(1, 0, 1), (1, 12_345, 1), (1, (1 << 40) + 12_347, 1), (4096, 1 << 33, 0), (1 << 30, 3, 0)] {
                c.push((analyse_space_complexity(&p, &spaces(u1, u2, unit, base, i)), a));
                c.push((analyse_space_complexity_for_constant_set_iterator_algorithm(&cs(5), &spaces(u1, u2, unit, base, i + 2)), a));
            }
        } else {
            c.push((analyse_set_resizing_iterator_complexity(u1 as f64, u2 as f64, n1 as f64), 1));
            for unit in [S, 1_000_000, 1_000, 1, 60 * S] {
                c.push((analyse_time_complexity_for_set_resizing_iterator_algorithm(&sr, &times(u1, u2, unit)), 1));
            }
            for (unit, base) in [(1, 0), (1, 12_345), (1, (1 << 40) + 12_347), (4096, 1 << 33), (1 << 30, 3)] {
                c.push((analyse_space_complexity_for_set_resizing_iterator_algorithm(&sr, &spaces(u1, u2, unit, base, i)), 1));
            }
        }
        abs = c.iter().map(|c| c.1).collect();
        r.push(json!(c.iter().map(|c| c.0 as u32).collect::<Vec<_>>()));
    }
    let lost: Vec<u32> = (1..=3).flat_map(|w| if regular {
        vec![analyse_space_complexity(&p, &lost_space(w)) as u32, analyse_space_complexity_for_constant_set_iterator_algorithm(&cs(9), &lost_space(w)) as u32]
    } else {
        vec![analyse_space_complexity_for_set_resizing_iterator_algorithm(&sr, &lost_space(w)) as u32]
    }).collect();
    json!({"id": scn["id"], "kind": scn["kind"], "n1": scn["n1"], "n2": scn["n2"], "pts": scn["pts"], "r": r, "abs": abs, "lost": lost})
}
