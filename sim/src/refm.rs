//! Reference models (small, sequential, written from the documentation) and model signatures.
use crate::gen::*;
use forust_ml::gradientbooster::{ContributionsMethod, ImportanceMethod};
use forust_ml::tree::Tree;
use forust_ml::GradientBooster;
use std::collections::BTreeMap;
use std::fmt::Write;

pub fn is_miss(v: f64, missing: f64) -> bool {
    if missing.is_nan() {
        v.is_nan()
    } else {
        v == missing
    }
}
/// the node of `t` that a row ends in
pub fn route(t: &Tree, row: &[f64], missing: f64) -> usize {
    let mut i = 0;
    for _ in 0..100_000 {
        let n = &t.nodes[i];
        if n.is_leaf {
            return i;
        }
        let v = row[n.split_feature];
        i = if is_miss(v, missing) {
            n.missing_node
        } else if v < n.split_value {
            n.left_child
        } else {
            n.right_child
        };
    }
    panic!("cycle in tree")
}
pub fn path(t: &Tree, row: &[f64], missing: f64) -> Vec<usize> {
    let mut i = 0;
    let mut p = vec![0];
    while !t.nodes[i].is_leaf {
        let n = &t.nodes[i];
        let v = row[n.split_feature];
        i = if is_miss(v, missing) {
            n.missing_node
        } else if v < n.split_value {
            n.left_child
        } else {
            n.right_child
        };
        p.push(i);
        assert!(p.len() < 100_000);
    }
    p
}
pub fn n_pred(b: &GradientBooster) -> usize {
    b.prediction_iteration.unwrap_or(b.trees.len())
}
/// predictions of base score plus the first k trees, added in order
pub fn ref_predict(b: &GradientBooster, base: f64, s: &Set, k: usize) -> Vec<f64> {
    (0..s.rows)
        .map(|i| {
            let row = s.row(i);
            let mut p = base;
            for t in &b.trees[..k] {
                p += t.nodes[route(t, &row, b.missing)].weight_value as f64;
            }
            p
        })
        .collect()
}
pub fn sigmoid(v: f64) -> f64 {
    1.0 / (1.0 + (-v).exp())
}
pub fn ref_metric(id: u8, y: &[f64], p: &[f64], w: &[f64]) -> f64 {
    let sw: f64 = w.iter().sum();
    match id {
        0 => {
            // probability that a random positive outranks a random negative, ties half
            let (mut num, mut pos, mut neg) = (0.0, 0.0, 0.0);
            for i in 0..y.len() {
                pos += y[i] * w[i];
                neg += (1.0 - y[i]) * w[i];
                for j in 0..y.len() {
                    let c = if p[i] > p[j] {
                        1.0
                    } else if p[i] == p[j] {
                        0.5
                    } else {
                        0.0
                    };
                    num += c * y[i] * w[i] * (1.0 - y[j]) * w[j];
                }
            }
            if pos <= 0.0 || neg <= 0.0 {
                f64::NAN
            } else {
                num / (pos * neg)
            }
        }
        1 => y.iter().zip(p).zip(w).map(|((y, p), w)| { let q = sigmoid(*p); -(y * q.ln() + (1.0 - y) * (1.0 - q).ln()) * w }).sum::<f64>() / sw,
        2 => (y.iter().zip(p).zip(w).map(|((y, p), w)| (y.ln_1p() - p.ln_1p()).powi(2) * w).sum::<f64>() / sw).sqrt(),
        _ => (y.iter().zip(p).zip(w).map(|((y, p), w)| (y - p).powi(2) * w).sum::<f64>() / sw).sqrt(),
    }
}
pub fn close(a: f64, b: f64, rel: f64, abs: f64) -> bool {
    if a.is_nan() || b.is_nan() {
        return a.is_nan() && b.is_nan();
    }
    if a == b {
        return true;
    }
    (a - b).abs() <= abs + rel * a.abs().max(b.abs())
}

// ------------------------------------------------------------------ signatures
pub fn sig_params(b: &GradientBooster) -> String {
    let mut s = String::new();
    let e = |x: &serde_json::Value| x.to_string();
    let j = |v: Result<serde_json::Value, serde_json::Error>| v.map(|x| e(&x)).unwrap_or_default();
    write!(s, "objective={} ", j(serde_json::to_value(&b.objective_type))).unwrap();
    write!(s, "iterations={} lr={:08x} depth={} leaves={} ", b.iterations, b.learning_rate.to_bits(), b.max_depth, b.max_leaves).unwrap();
    write!(s, "l1={:08x} l2={:08x} gamma={:08x} mds={:08x} mlw={:08x} ", b.l1.to_bits(), b.l2.to_bits(), b.gamma.to_bits(), b.max_delta_step.to_bits(), b.min_leaf_weight.to_bits()).unwrap();
    write!(s, "nbins={} allow={} ", b.nbins, b.allow_missing_splits).unwrap();
    let m: BTreeMap<usize, String> = b.monotone_constraints.as_ref().map(|m| m.iter().map(|(k, v)| (*k, format!("{:?}", v))).collect()).unwrap_or_default();
    write!(s, "constraints={}{:?} ", b.monotone_constraints.is_some(), m).unwrap();
    write!(s, "subsample={:08x} top={:016x} other={:016x} col={:016x} seed={} ", b.subsample.to_bits(), b.top_rate.to_bits(), b.other_rate.to_bits(), b.colsample_bytree.to_bits(), b.seed).unwrap();
    let miss = if b.missing.is_nan() { "nan".to_string() } else { format!("{:016x}", b.missing.to_bits()) };
    write!(s, "missing={} cmb={} sample={} grow={} metric={} esr={:?} init={} ", miss, b.create_missing_branch, j(serde_json::to_value(&b.sample_method)), j(serde_json::to_value(&b.grow_policy)), j(serde_json::to_value(b.evaluation_metric)), b.early_stopping_rounds, b.initialize_base_score).unwrap();
    let mut t: Vec<usize> = b.terminate_missing_features.iter().copied().collect();
    t.sort();
    write!(s, "term={:?} mnt={} force={}", t, j(serde_json::to_value(b.missing_node_treatment)), b.force_children_to_bound_parent).unwrap();
    s
}
pub fn sig_flags(b: &GradientBooster) -> String {
    format!("parallel={} log_iterations={}", b.parallel, b.log_iterations)
}
fn fb(v: f64) -> String {
    if v.is_nan() {
        "nan".into()
    } else {
        format!("{:016x}", v.to_bits())
    }
}
pub fn sig_state(b: &GradientBooster) -> String {
    let mut s = String::new();
    writeln!(s, "base={} best={:?} pred={:?} trees={}", fb(b.base_score), b.best_iteration, b.prediction_iteration, b.trees.len()).unwrap();
    match &b.evaluation_history {
        None => writeln!(s, "history none").unwrap(),
        Some(h) => {
            write!(s, "history {}x{}:", h.rows, h.cols).unwrap();
            for v in &h.data {
                write!(s, " {}", fb(*v)).unwrap();
            }
            for i in 0..h.rows {
                for k in 0..h.cols {
                    write!(s, ",{}", fb(*h.get(i, k))).unwrap();
                }
            }
            writeln!(s).unwrap()
        }
    }
    for (i, t) in b.trees.iter().enumerate() {
        for n in &t.nodes {
            writeln!(
                s,
                "t{} n{} w={:08x} h={:08x} d={} sv={} sf={} sg={:08x} m={} l={} r={} leaf={}",
                i,
                n.num,
                n.weight_value.to_bits(),
                n.hessian_sum.to_bits(),
                n.depth,
                fb(n.split_value),
                n.split_feature,
                n.split_gain.to_bits(),
                n.missing_node,
                n.left_child,
                n.right_child,
                n.is_leaf
            )
            .unwrap();
        }
    }
    s
}
pub fn sig_full(b: &GradientBooster) -> String {
    format!("{}\n{}\n{}", sig_params(b), sig_flags(b), sig_state(b))
}
pub const METHODS: [&str; 7] = ["Weight", "Average", "BranchDifference", "MidpointDifference", "ModeDifference", "ProbabilityChange", "Shapley"];
pub fn method(k: &str) -> ContributionsMethod {
    match k {
        "Weight" => ContributionsMethod::Weight,
        "Average" => ContributionsMethod::Average,
        "BranchDifference" => ContributionsMethod::BranchDifference,
        "MidpointDifference" => ContributionsMethod::MidpointDifference,
        "ModeDifference" => ContributionsMethod::ModeDifference,
        "ProbabilityChange" => ContributionsMethod::ProbabilityChange,
        _ => ContributionsMethod::Shapley,
    }
}
pub const IMPS: [&str; 5] = ["Weight", "Gain", "Cover", "TotalGain", "TotalCover"];
pub fn imp(k: &str) -> ImportanceMethod {
    match k {
        "Weight" => ImportanceMethod::Weight,
        "Gain" => ImportanceMethod::Gain,
        "Cover" => ImportanceMethod::Cover,
        "TotalGain" => ImportanceMethod::TotalGain,
        _ => ImportanceMethod::TotalCover,
    }
}
pub fn bits(v: &[f64]) -> Vec<u64> {
    v.iter().map(|x| if x.is_nan() { u64::MAX } else { x.to_bits() }).collect()
}
pub fn importance_bits(b: &GradientBooster, k: &str, norm: bool) -> Vec<(usize, u32)> {
    let mut v: Vec<(usize, u32)> = b.calculate_feature_importance(imp(k), norm).iter().map(|(k, v)| (*k, if v.is_nan() { u32::MAX } else { v.to_bits() })).collect();
    v.sort();
    v
}
/// everything a user can read from a model for the rows of `s`, as one comparable text
pub fn sig_views(b: &GradientBooster, s: &Set, parallel: bool, full: bool) -> String {
    let mut o = String::new();
    let m = s.m();
    writeln!(o, "predict {:x?}", bits(&b.predict(&m, parallel))).unwrap();
    writeln!(o, "leaves {:?}", b.predict_leaf_indices(&m)).unwrap();
    if full {
        for k in METHODS {
            if k == "ProbabilityChange" && !matches!(b.objective_type, forust_ml::objective::ObjectiveType::LogLoss) {
                continue;
            }
            writeln!(o, "{} {:x?}", k, bits(&b.predict_contributions(&m, method(k), parallel))).unwrap();
        }
        for f in 0..s.cols.min(3) {
            for i in 0..s.rows.min(3) {
                let v = s.at(i, f);
                writeln!(o, "pd {} {:x?}", f, bits(&[b.value_partial_dependence(f, v)])).unwrap();
            }
        }
        for k in IMPS {
            writeln!(o, "imp {} {:x?} {:x?}", k, importance_bits(b, k, false), importance_bits(b, k, true)).unwrap();
        }
    }
    o
}
/// first differing line of two texts
pub fn diff(a: &str, b: &str) -> Option<String> {
    if a == b {
        return None;
    }
    let cut = |s: &str| if s.len() > 160 { format!("{}...", s.chars().take(160).collect::<String>()) } else { s.to_string() };
    let (mut x, mut y) = (a.lines(), b.lines());
    let mut n = 0;
    loop {
        match (x.next(), y.next()) {
            (Some(p), Some(q)) if p == q => n += 1,
            (None, None) => return Some("texts differ".into()),
            (p, q) => return Some(format!("line {}: `{}` vs `{}`", n, cut(p.unwrap_or("<end>")), cut(q.unwrap_or("<end>")))),
        }
    }
}
