//! Case generation: data sets and parameter combinations, a pure function of a seed and overrides.
use crate::rt::*;
use forust_ml::constraints::{Constraint, ConstraintMap};
use forust_ml::gradientbooster::{EvaluationData, GrowPolicy, MissingNodeTreatment};
use forust_ml::metric::Metric;
use forust_ml::objective::ObjectiveType;
use forust_ml::sampler::SampleMethod;
use forust_ml::{GradientBooster, Matrix};
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};

#[derive(Clone, Debug, Default)]
pub struct Ov {
    pub rows: Option<usize>,
    pub cols: Option<usize>,
    pub iters: Option<usize>,
    pub threads: Option<usize>,
    pub simp: Vec<String>,
    pub drop: Vec<usize>,
}
impl Ov {
    pub fn to_json(&self) -> Value {
        json!({"rows": self.rows, "cols": self.cols, "iters": self.iters, "threads": self.threads, "simp": self.simp, "drop": self.drop})
    }
    pub fn from_json(v: &Value) -> Ov {
        let u = |k: &str| v[k].as_u64().map(|x| x as usize);
        Ov {
            rows: u("rows"),
            cols: u("cols"),
            iters: u("iters"),
            threads: u("threads"),
            simp: v["simp"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default(),
            drop: v["drop"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as usize).collect()).unwrap_or_default(),
        }
    }
    pub fn has(&self, s: &str) -> bool {
        self.simp.iter().any(|x| x == s)
    }
}
pub const SIMPS: [&str; 12] = [
    "no_sampling", "no_colsample", "no_missing", "no_constraints", "no_eval", "unit_weights", "depthwise", "no_reg", "no_branch",
    "no_force", "shallow", "no_stop",
];

#[derive(Clone, Debug)]
pub struct Par {
    pub logloss: bool,
    pub iterations: usize,
    pub lr: f32,
    pub max_depth: usize,
    pub max_leaves: usize,
    pub l1: f32,
    pub l2: f32,
    pub gamma: f32,
    pub mds: f32,
    pub mlw: f32,
    pub base_score: f64,
    pub nbins: u16,
    pub parallel: bool,
    pub allow_missing_splits: bool,
    pub constraints: Vec<(usize, i8)>,
    pub subsample: f32,
    pub top: f64,
    pub other: f64,
    pub colsample: f64,
    pub seed: u64,
    pub missing: f64,
    pub cmb: bool,
    pub sample: u8, // 0 none 1 random 2 goss
    pub lossguide: bool,
    pub metric: Option<u8>, // 0 auc 1 logloss 2 rmsle 3 rmse
    pub esr: Option<usize>,
    pub init_bs: bool,
    pub term: Vec<usize>,
    pub mnt: u8, // 0 none 1 parent 2 avgleaf 3 avgnode
    pub log_it: usize,
    pub force: bool,
    /// build through the set_ methods
    pub setters: bool,
}
impl Par {
    pub fn build(&self) -> GradientBooster {
        if !self.setters {
            return self.build_new();
        }
        let all = self.build_new();
        let mut b = GradientBooster::default()
            .set_objective_type(all.objective_type)
            .set_iterations(self.iterations)
            .set_learning_rate(self.lr)
            .set_max_depth(self.max_depth)
            .set_max_leaves(self.max_leaves)
            .set_nbins(self.nbins)
            .set_l1(self.l1)
            .set_l2(self.l2)
            .set_gamma(self.gamma)
            .set_max_delta_step(self.mds)
            .set_min_leaf_weight(self.mlw)
            .set_base_score(self.base_score)
            .set_initialize_base_score(self.init_bs)
            .set_parallel(self.parallel)
            .set_allow_missing_splits(self.allow_missing_splits)
            .set_monotone_constraints(all.monotone_constraints)
            .set_subsample(self.subsample)
            .set_colsample_bytree(self.colsample)
            .set_seed(self.seed)
            .set_missing(self.missing)
            .set_create_missing_branch(self.cmb)
            .set_sample_method(all.sample_method)
            .set_evaluation_metric(all.evaluation_metric)
            .set_early_stopping_rounds(self.esr)
            .set_terminate_missing_features(all.terminate_missing_features);
        b.grow_policy = all.grow_policy;
        b.top_rate = self.top;
        b.other_rate = self.other;
        b.missing_node_treatment = all.missing_node_treatment;
        b.log_iterations = self.log_it;
        b.force_children_to_bound_parent = self.force;
        b
    }
    fn build_new(&self) -> GradientBooster {
        let cm: Option<ConstraintMap> = if self.constraints.is_empty() {
            None
        } else {
            let mut m = HashMap::new();
            for (f, c) in &self.constraints {
                m.insert(*f, if *c > 0 { Constraint::Positive } else if *c < 0 { Constraint::Negative } else { Constraint::Unconstrained });
            }
            Some(m)
        };
        GradientBooster::new(
            if self.logloss { ObjectiveType::LogLoss } else { ObjectiveType::SquaredLoss },
            self.iterations,
            self.lr,
            self.max_depth,
            self.max_leaves,
            self.l1,
            self.l2,
            self.gamma,
            self.mds,
            self.mlw,
            self.base_score,
            self.nbins,
            self.parallel,
            self.allow_missing_splits,
            cm,
            self.subsample,
            self.top,
            self.other,
            self.colsample,
            self.seed,
            self.missing,
            self.cmb,
            match self.sample {
                0 => SampleMethod::None,
                1 => SampleMethod::Random,
                _ => SampleMethod::Goss,
            },
            if self.lossguide { GrowPolicy::LossGuide } else { GrowPolicy::DepthWise },
            self.metric.map(|m| match m {
                0 => Metric::AUC,
                1 => Metric::LogLoss,
                2 => Metric::RootMeanSquaredLogError,
                _ => Metric::RootMeanSquaredError,
            }),
            self.esr,
            self.init_bs,
            self.term.iter().copied().collect::<HashSet<usize>>(),
            match self.mnt {
                0 => MissingNodeTreatment::None,
                1 => MissingNodeTreatment::AssignToParent,
                2 => MissingNodeTreatment::AverageLeafWeight,
                _ => MissingNodeTreatment::AverageNodeWeight,
            },
            self.log_it,
            self.force,
        )
        .expect("generated parameters are valid")
    }
    pub fn metric_id(&self) -> u8 {
        self.metric.unwrap_or(if self.logloss { 1 } else { 2 })
    }
}

#[derive(Clone)]
pub struct Set {
    pub x: Vec<f64>, // column major
    pub rows: usize,
    pub cols: usize,
    pub y: Vec<f64>,
    pub w: Vec<f64>,
}
impl Set {
    pub fn m(&self) -> Matrix<'_, f64> {
        Matrix::new(&self.x, self.rows, self.cols)
    }
    pub fn row(&self, i: usize) -> Vec<f64> {
        (0..self.cols).map(|j| self.x[j * self.rows + i]).collect()
    }
    pub fn at(&self, i: usize, j: usize) -> f64 {
        self.x[j * self.rows + i]
    }
    /// the rows `idx`, in that order
    pub fn take(&self, idx: &[usize]) -> Set {
        let mut x = Vec::with_capacity(idx.len() * self.cols);
        for j in 0..self.cols {
            for i in idx {
                x.push(self.x[j * self.rows + i]);
            }
        }
        Set { x, rows: idx.len(), cols: self.cols, y: idx.iter().map(|i| self.y[*i]).collect(), w: idx.iter().map(|i| self.w[*i]).collect() }
    }
}
pub fn evals<'a>(e: &'a [Set]) -> Option<Vec<EvaluationData<'a>>> {
    if e.is_empty() {
        None
    } else {
        Some(e.iter().map(|s| (s.m(), s.y.as_slice(), s.w.as_slice())).collect())
    }
}
pub fn fit(b: &mut GradientBooster, s: &Set, e: &[Set]) -> Result<(), forust_ml::errors::ForustError> {
    if s.rows % 2 == 0 && s.w.len() == s.rows && s.w.iter().all(|v| *v == 1.0) {
        return b.fit_unweighted(&s.m(), &s.y, evals(e));
    }
    b.fit(&s.m(), &s.y, &s.w, evals(e))
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    General,
    /// squared loss, weights 2^k: covers decode to row sets exactly
    Exact,
    /// same for GOSS (weights 4^k, amplification exactly 2)
    ExactGoss,
    /// small integer weights, squared loss: covers are exact counts for any number of rows
    Counts,
    /// sampling at scale: unit weights, and six rows whose weights 4096 * 4^k show in every cover
    /// how often each of them was drawn, next to the number of all the others
    Probe,
    Mono,
    Stop,
    Small,
}

pub struct Case {
    pub seed: u64,
    pub kind: Kind,
    pub par: Par,
    pub rows: usize,
    pub cols: usize,
    pub n_eval: usize,
    pub threads: usize,
    pub unit_w: bool,
    pub miss_rate: f64,
    pub ov: Ov,
    pub shape: &'static str,
}

impl Case {
    pub fn gen(seed: u64, kind: Kind, ov: &Ov) -> Case {
        let mut r = R::new(h3(seed, 1, 1));
        let (mut rows, mut cols, mut iters, shape): (u64, u64, u64, &'static str) = match kind {
            Kind::Exact => (r.r(2, 24), r.r(1, 6), r.r(1, 8), "exact"),
            Kind::ExactGoss => (r.r(4, 11), r.r(1, 5), r.r(1, 8), "exact"),
            Kind::Probe => (if r.p(0.5) { r.r(14, 150) } else { r.r(150, 1900) }, r.r(1, 4), r.r(1, 4), "probe"),
            Kind::Small => (r.r(4, 40), r.r(1, 5), r.r(1, 6), "small"),
            Kind::Stop => match r.n(30) {
                0 => (r.r(8, 40), r.r(1, 3), r.r(60, 200), "stop_long"),
                1 => (r.r(200, 1500), r.r(1, 3), r.r(1, 6), "stop_medium"),
                _ => (r.r(8, 60), r.r(1, 4), r.r(1, 30), "stop"),
            },
            Kind::Counts => match r.n(10) {
                0 if r.p(0.1) => (if r.p(0.5) { r.r(10_000, 140_000) } else { r.r(80_000, 160_000) }, 1, 1, "huge"),
                0 => (r.r(2000, 6000), r.r(1, 3), r.r(1, 2), "tall"),
                1 => (r.r(20, 60), r.r(40, 130), r.r(1, 2), "wide"),
                2 | 3 => (r.r(200, 900), r.r(1, 5), r.r(1, 3), "medium"),
                _ => (r.r(2, 120), r.r(1, 6), r.r(1, 8), "small"),
            },
            _ => match r.n(20) {
                0 if r.p(0.08) => (r.r(10_000, 140_000), r.r(1, 2), r.r(1, 2), "huge"),
                0 => (r.r(2000, 8000), r.r(1, 3), r.r(1, 2), "tall"),
                1 => (r.r(20, 60), r.r(40, 140), r.r(1, 2), "wide"),
                2 => (r.r(10, 40), r.r(1, 3), r.r(60, 220), "long"),
                3 | 4 => (r.r(200, 1200), r.r(1, 5), r.r(1, 4), "medium"),
                _ => (r.r(2, 70), r.r(1, 7), r.r(1, 12), "small"),
            },
        };
        if let Some(v) = ov.rows {
            rows = rows.min(v as u64)
        }
        if let Some(v) = ov.cols {
            cols = cols.min(v as u64)
        }
        let iters0 = iters;
        if let Some(v) = ov.iters {
            iters = iters.min(v as u64)
        }
        let _ = iters0;
        let mut r = R::new(h3(seed, 2, 2));
        let exact = matches!(kind, Kind::Exact | Kind::ExactGoss | Kind::Counts | Kind::Probe);
        let logloss = if exact { false } else { r.p(0.55) };
        let sample = match kind {
            Kind::ExactGoss => 2,
            Kind::Exact => r.pick(&[0, 1, 1]),
            Kind::Probe => r.pick(&[1, 2, 2]),
            Kind::Counts => 0,
            _ => r.pick(&[0, 0, 1, 1, 2]),
        };
        let cmb = r.p(0.45);
        let miss_rate = r.pick(&[0.0, 0.0, 0.1, 0.3, 0.6]);
        let missing = r.pick(&[f64::NAN, f64::NAN, f64::NAN, -999.0, 0.0, 1.0]);
        let mut constraints = vec![];
        if kind == Kind::Mono || r.p(0.2) {
            for j in 0..cols {
                let c = h3(seed, 3, j) % 10;
                if c < 3 {
                    constraints.push((j as usize, 1i8))
                } else if c < 6 {
                    constraints.push((j as usize, -1i8))
                } else if c == 6 {
                    constraints.push((j as usize, 0))
                }
            }
            if kind == Kind::Mono && constraints.iter().all(|c| c.1 == 0) {
                constraints.retain(|c| c.0 != 0);
                constraints.push((0, if r.p(0.5) { 1 } else { -1 }));
            }
        }
        let mut term = vec![];
        if cmb && r.p(0.4) {
            for j in 0..cols {
                if h3(seed, 4, j) % 3 == 0 {
                    term.push(j as usize)
                }
            }
        }
        let goss = matches!(kind, Kind::ExactGoss | Kind::Probe);
        let par = Par {
            logloss,
            iterations: iters as usize,
            lr: r.pick(&[0.3, 0.1, 1.0, 0.05, 0.7]),
            max_depth: if h3(seed, 5, 4) % 40 == 0 { 0 } else if h3(seed, 5, 6) % 14 == 0 && rows <= 300 { 40 } else { r.pick(&[1, 2, 3, 5, 5, 8, 12]) },
            max_leaves: if r.p(0.35) { r.r(0, 12) as usize } else { usize::MAX },
            l1: if r.p(0.2) { r.pick(&[0.1, 1.0, 0.01]) } else { 0.0 },
            // without l2, log loss can diverge to infinite weights
            l2: if !logloss && h3(seed, 5, 5) % 7 == 0 { 0.0 } else { r.pick(&[1.0, 1.0, 0.5, 3.0, 0.1]) },
            gamma: if r.p(0.3) { r.pick(&[0.01, 0.5, 0.1]) } else { 0.0 },
            mds: if r.p(0.2) { r.pick(&[0.05, 0.5, 2.0]) } else { 0.0 },
            mlw: if exact {
                r.pick(&[0.5, 1.0, 1.0, 2.0, 5.0])
            } else {
                r.pick(&[0.1, 0.5, 1.0, 1.0, 2.0])
            },
            base_score: r.pick(&[0.5, 0.0, -0.7, 2.25]),
            nbins: r.pick(&[256, 256, 256, 2, 3, 10, 50, 1000]),
            parallel: r.p(0.5),
            allow_missing_splits: r.p(0.6),
            constraints,
            subsample: r.pick(&[0.5, 0.5, 0.8, 0.3]),
            top: if goss { 0.5 } else { r.pick(&[0.1, 0.2, 0.5]) },
            other: if goss { 0.25 } else { r.pick(&[0.2, 0.1, 0.4]) },
            colsample: if r.p(0.3) { r.pick(&[0.5, 0.7, 0.9, 0.34]) } else { 1.0 },
            seed: r.pick(&[0, 1, 42, r.clone().u()]),
            missing,
            cmb,
            sample,
            lossguide: r.p(0.4),
            metric: r.pick(&[None, None, Some(0), Some(1), Some(2), Some(3), Some(3)]),
            esr: if kind == Kind::Stop || r.p(0.3) { Some(r.r(1, 5) as usize * if h3(seed, 5, 7) % 9 == 0 { 6 } else { 1 }) } else { None },
            init_bs: r.p(0.6) && kind != Kind::Probe,
            term,
            mnt: r.pick(&[0, 1, 1, 2, 3]),
            log_it: if h3(seed, 5, 1) % 4 == 0 { 1 + (h3(seed, 5, 2) % 3) as usize } else { 0 },
            force: r.p(0.15),
            setters: h3(seed, 5, 3) % 3 == 0,
        };
        let n_eval = match kind {
            Kind::Stop => r.r(1, 3) as usize,
            _ => r.pick(&[0, 0, 1, 2]),
        };
        let threads = r.pick(&[1, 2, 2, 3, 4, 4, 6]);
        let unit_w = r.p(0.45);
        let mut c = Case {
            seed,
            kind,
            par,
            rows: rows as usize,
            cols: cols as usize,
            n_eval,
            threads: ov.threads.unwrap_or(threads),
            unit_w,
            miss_rate,
            ov: ov.clone(),
            shape,
        };
        c.simplify();
        c
    }
    fn simplify(&mut self) {
        let p = &mut self.par;
        for s in &self.ov.simp {
            match s.as_str() {
                "no_sampling" if !matches!(self.kind, Kind::ExactGoss | Kind::Probe) => p.sample = 0,
                "no_colsample" => p.colsample = 1.0,
                "no_missing" => self.miss_rate = 0.0,
                "no_constraints" if self.kind != Kind::Mono => p.constraints.clear(),
                "no_eval" if self.kind != Kind::Stop => self.n_eval = 0,
                "unit_weights" => self.unit_w = true,
                "depthwise" => p.lossguide = false,
                "no_reg" => {
                    p.l1 = 0.0;
                    p.mds = 0.0;
                    p.gamma = 0.0;
                    p.l2 = 1.0;
                }
                "no_branch" => {
                    p.cmb = false;
                    p.term.clear()
                }
                "no_force" => p.force = false,
                "shallow" => p.max_depth = p.max_depth.min(2),
                "no_stop" if self.kind != Kind::Stop => p.esr = None,
                _ => {}
            }
        }
    }
    pub fn describe(&self) -> Value {
        let p = &self.par;
        json!({"rows": self.rows, "cols": self.cols, "shape": self.shape, "threads": self.threads, "evals": self.n_eval, "miss_rate": self.miss_rate,
          "unit_w": self.unit_w, "kind": format!("{:?}", self.kind), "params": format!("{:?}", p)})
    }
    fn col_type(&self, j: usize) -> u64 {
        h3(self.seed, 10, j as u64) % 12
    }
    fn value(&self, ds: u64, i: usize, j: usize) -> f64 {
        let u = hf(h3(self.seed, 20 + ds, j as u64), i as u64, 3);
        match self.col_type(j) {
            0 | 1 | 2 => u * 10.0 - 5.0,
            3 => (u * 5.0).floor(),
            4 => (u * 2.0).floor(),
            5 => (u * 40.0).floor() / 7.0 - 2.0,
            6 => (1e-9 + u).ln().exp2() * 1e6,
            7 => i as f64,
            8 => 3.5,
            9 => {
                if j > 0 {
                    self.value(ds, i, j - 1)
                } else {
                    u
                }
            }
            10 => u * 1e-300,
            _ => {
                if u < 0.3 {
                    -0.0
                } else {
                    (u * 3.0).floor() - 1.0
                }
            }
        }
    }
    /// data set `ds` (0 = training). `n` overrides the number of rows.
    pub fn set(&self, ds: u64, n: Option<usize>) -> Set {
        let rows = n.unwrap_or(self.rows);
        let cols = self.cols;
        let mut x = vec![0.0; rows * cols];
        for j in 0..cols {
            let colmiss = match h3(self.seed, 30, j as u64) % 6 {
                0 | 1 => 0.0,
                5 if cols > 1 => 1.5 * self.miss_rate,
                _ => self.miss_rate,
            };
            let all_missing = self.miss_rate > 0.0 && h3(self.seed, 31, j as u64) % 17 == 0;
            for i in 0..rows {
                let mut v = self.value(ds, i, j);
                if all_missing || hf(h3(self.seed, 40 + ds, j as u64), i as u64, 5) < colmiss {
                    v = self.par.missing;
                } else if self.miss_rate == 0.0 && v == self.par.missing {
                    v += 0.5;
                }
                x[j * rows + i] = v;
            }
        }
        let mut y = vec![0.0; rows];
        let mut w = vec![1.0; rows];
        let noise = match h3(self.seed, 50, 0) % 4 {
            0 => 0.0,
            1 => 3.0,
            _ => 0.8,
        };
        let neg = h3(self.seed, 51, 0) % 4 == 0;
        for i in 0..rows {
            let mut s = 0.0;
            for j in 0..cols.min(6) {
                let c = hf(self.seed, 60, j as u64) * 4.0 - 2.0;
                let v = x[j * rows + i];
                let v = if v.is_nan() || (v == self.par.missing) { hf(self.seed, 61, j as u64) * 6.0 - 3.0 } else { v.clamp(-5.0, 5.0) };
                let t = match h3(self.seed, 62, j as u64) % 3 {
                    0 => v,
                    1 => {
                        if v > 1.0 {
                            2.0
                        } else {
                            -1.0
                        }
                    }
                    _ => v * v / 5.0,
                };
                s += c * t;
            }
            s += noise * (hf(h3(self.seed, 70 + ds, 0), i as u64, 1) * 2.0 - 1.0) * 2.0;
            if self.par.logloss {
                y[i] = if s > 0.0 { 1.0 } else { 0.0 };
                if i < 2 {
                    y[i] = i as f64; // both classes present
                }
            } else {
                y[i] = if neg { s } else { s.abs() };
            }
            let u = hf(h3(self.seed, 80 + ds, 0), i as u64, 2);
            match self.kind {
                Kind::Exact => w[i] = (1u64 << i.min(23)) as f64,
                Kind::ExactGoss => w[i] = (1u64 << (2 * i).min(22)) as f64,
                Kind::Probe => {
                    if let Some(k) = self.probe_of(i) {
                        w[i] = (4096u64 << (2 * k)) as f64;
                        // a gradient of the size of the others' when the first tree is grown
                        y[i] = self.par.base_score + (u * 2.0 - 1.0) * 6.0 / w[i];
                    }
                }
                Kind::Counts => w[i] = if self.unit_w { 1.0 } else { 1.0 + (u * 3.0).floor() },
                _ => {
                    if !self.unit_w {
                        w[i] = match h3(self.seed, 52, 0) % 3 {
                            0 => 0.1 + u * 5.0,
                            1 => 1.0 + (u * 3.0).floor(),
                            _ => {
                                if u < 0.1 && i >= 2 {
                                    0.0
                                } else {
                                    0.5 + u
                                }
                            }
                        }
                    }
                }
            }
            if matches!(self.kind, Kind::Exact | Kind::ExactGoss) {
                // keep gradients comparable between rows in spite of the weights
                y[i] = (y[i] + 1.0) * 8.0 / w[i].sqrt() * (0.2 + hf(self.seed, 90 + ds, i as u64));
            }
        }
        Set { x, rows, cols, y, w }
    }
    /// Kind::Probe: which of the six heavy rows this is
    pub fn probe_of(&self, i: usize) -> Option<usize> {
        (0..6).find(|k| {
            let part = self.rows / 6;
            *k * part + (h3(self.seed, 35, *k as u64) % part.max(1) as u64) as usize == i
        })
    }
    pub fn train(&self) -> Set {
        self.set(0, None)
    }
    pub fn eval_sets(&self) -> Vec<Set> {
        (0..self.n_eval)
            .map(|k| {
                let n = (3 + h3(self.seed, 33, k as u64) % 40) as usize;
                let n = if self.ov.rows.is_some() { n.min(self.rows.max(2)) } else { n };
                let mut s = self.set(1 + k as u64, Some(n));
                // an evaluation set of a single class gives NaN AUC
                if h3(self.seed, 34, k as u64) % 9 == 0 {
                    for v in s.y.iter_mut() {
                        *v = if self.par.logloss { 1.0 } else { *v };
                    }
                }
                s
            })
            .collect()
    }
    /// rows to score: fresh values, training rows, boundary values, missing
    pub fn probe(&self, ds: u64, n: usize) -> Set {
        let mut s = self.set(10 + ds, Some(n));
        for j in 0..s.cols {
            for i in 0..s.rows {
                let u = h3(h3(self.seed, 95 + ds, j as u64), i as u64, 7) % 12;
                let cell = &mut s.x[j * n + i];
                match u {
                    0 => *cell = self.par.missing,
                    1 => *cell = 1e30,
                    2 => *cell = -1e30,
                    4 if i % 3 == 0 => *cell = f64::INFINITY,
                    5 if i % 3 == 0 => *cell = f64::NEG_INFINITY,
                    3 if self.rows > 0 => *cell = self.value(0, i % self.rows, j),
                    _ => {}
                }
            }
        }
        s
    }
}
