//! The scenarios: one function per property. A scenario drives the real library through its
//! public API inside the simulator and judges what it observes against a reference model.
use crate::gen::*;
use crate::refm::*;
use crate::rt::{self, h3, hash_bytes, R};
use forust_ml::tree::Tree;
use forust_ml::{GradientBooster, Matrix};
use rayon::prelude::*;
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};

#[derive(Debug, Clone)]
pub struct Viol {
    pub class: String,
    pub msg: String,
}
pub type VR = Result<(), Viol>;
pub fn viol<T>(class: &str, msg: String) -> Result<T, Viol> {
    Err(Viol { class: class.to_string(), msg })
}
macro_rules! ensure {
    ($c:expr, $class:expr, $($a:tt)*) => { if !($c) { return viol($class, format!($($a)*)); } };
}

pub struct Ctx {
    pub seed: u64,
    pub ov: Ov,
    pub proc: usize,
    pub board: String,
    pub dir: String,
    pub cnt: BTreeMap<String, u64>,
    pub desc: Value,
    /// hash of what this run exercised, for counting distinct runs
    pub shape_hash: u64,
    pub nontrivial: bool,
}
impl Ctx {
    pub fn c(&mut self, k: &str, n: u64) {
        *self.cnt.entry(k.to_string()).or_insert(0) += n;
    }
    fn case(&mut self, kind: Kind) -> Case {
        let c = Case::gen(self.seed, kind, &self.ov);
        self.desc = c.describe();
        self.c(&format!("shape_{}", c.shape), 1);
        self.c(["sample_none", "sample_random", "sample_goss"][c.par.sample as usize], 1);
        if c.par.cmb {
            self.c("missing_branch", 1);
        }
        self.shape_hash = hash_bytes(format!("{:?}{}{}{}", c.par, c.rows, c.cols, c.n_eval).as_bytes());
        c
    }
    fn seen(&mut self, b: &GradientBooster) {
        let splits: usize = b.trees.iter().map(|t| t.nodes.iter().filter(|n| !n.is_leaf).count()).sum();
        self.c("trees", b.trees.len() as u64);
        self.c("splits", splits as u64);
        if splits > 0 {
            self.nontrivial = true;
        }
    }
    fn r(&self, salt: u64) -> R {
        R::new(h3(self.seed, 1000 + salt, self.proc as u64))
    }
    fn path(&self, name: &str) -> String {
        format!("{}/{}", self.dir, name)
    }
    fn drop_op(&self, i: usize) -> bool {
        self.ov.drop.contains(&i)
    }
}

// ------------------------------------------------------------------ helpers
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}
pub fn payload(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "<non-string panic>".to_string()
    }
}
fn call<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(payload)
}

/// the log sink of the simulated process: counts, and may fail (panic) at the nth record
struct Sink;
static SINK: Sink = Sink;
static LOG_N: AtomicU64 = AtomicU64::new(0);
static LOG_FAIL_AT: AtomicI64 = AtomicI64::new(-1);
static LOG_ON: AtomicBool = AtomicBool::new(false);
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        if !LOG_ON.load(Ordering::SeqCst) {
            return;
        }
        let _ = format!("{}", r.args());
        LOG_N.fetch_add(1, Ordering::SeqCst);
        if LOG_FAIL_AT.load(Ordering::SeqCst) >= 0 && LOG_FAIL_AT.fetch_sub(1, Ordering::SeqCst) == 0 {
            panic!("simulated log sink failure");
        }
    }
    fn flush(&self) {}
}
pub fn install_logger() {
    let _ = log::set_logger(&SINK);
    log::set_max_level(log::LevelFilter::Trace);
    LOG_ON.store(true, Ordering::SeqCst);
}

fn pool(n: usize) -> rayon::ThreadPool {
    rayon::ThreadPoolBuilder::new().num_threads(n).build().expect("pool")
}
/// run `f` directly, in a caller-supplied pool, or from inside a worker of a pool
fn in_mode<T: Send>(mode: u64, n: usize, f: impl FnOnce() -> T + Send) -> T {
    match mode {
        0 => f(),
        1 => pool(n).install(f),
        2 => rayon::join(f, || (0..64u64).into_par_iter().map(|x| x ^ 3).sum::<u64>()).0,
        _ => {
            let p = pool(n);
            p.install(|| {
                let mut out = None;
                rayon::scope(|s| {
                    s.spawn(|_| {
                        let _ = (0..32u64).into_par_iter().map(|x| x + 1).max();
                    });
                    out = Some(f());
                });
                out.unwrap()
            })
        }
    }
}
fn fitted(c: &Case, parallel: bool) -> GradientBooster {
    let mut b = c.par.build();
    b.parallel = parallel;
    fit(&mut b, &c.train(), &c.eval_sets()).expect("fit of valid data");
    b
}
/// let the booster predict with its first `k` trees (the setter takes the index of the last one)
fn use_trees(mut b: GradientBooster, k: usize) -> GradientBooster {
    if k == 0 || k % 2 == 0 {
        b.prediction_iteration = Some(k);
        b
    } else {
        b.set_prediction_iteration(Some(k - 1))
    }
}
fn err_s<T>(r: &Result<T, forust_ml::errors::ForustError>) -> String {
    match r {
        Ok(_) => "Ok".into(),
        Err(e) => format!("Err({e})"),
    }
}

// ------------------------------------------------------------------ C01
pub fn c01(x: &mut Ctx) -> VR {
    let c = x.case(Kind::General);
    let mut r = x.r(1);
    let tr = c.train();
    let ev = c.eval_sets();
    let (mode, n) = (r.n(4), 1 + r.n(8) as usize);
    x.c(&format!("mode_{mode}"), 1);
    let serial = fitted(&c, false);
    x.seen(&serial);
    let par = in_mode(mode, n, || {
        let mut b = c.par.build();
        b.parallel = true;
        fit(&mut b, &tr, &ev).map(|_| b)
    });
    let par = match par {
        Ok(b) => b,
        Err(e) => return viol("fit-error", format!("parallel fit failed: {e}")),
    };
    if let Some(d) = diff(&sig_state(&serial), &sig_state(&par)) {
        return viol("fit-differs", format!("parallel and serial fit differ: {d}"));
    }
    if c.rows * c.par.iterations < 1500 && r.p(0.3) {
        // several parallel fits and reads at once inside one pool: workers pick up each other's work while they wait
        let k = 2 + r.n(3) as usize;
        let pr = c.probe(1, 1 + r.n(12) as usize);
        let want = sig_views(&serial, &pr, false, true);
        let own = pool(n);
        x.c("mode_crowd", 1);
        let got: Result<Vec<(String, String)>, String> = call(|| {
            own.install(|| {
                (0..k)
                    .into_par_iter()
                    .map(|_| {
                        let mut b = c.par.build();
                        b.parallel = true;
                        fit(&mut b, &tr, &ev).expect("fit of valid data");
                        let v = sig_views(&b, &pr, true, true);
                        (sig_state(&b), v)
                    })
                    .collect()
            })
        });
        match got {
            Err(e) => return viol("crowd-panic", format!("{k} fits at once inside one pool of {n}: panic: {e}")),
            Ok(v) => {
                for (st, vw) in v {
                    if let Some(d) = diff(&sig_state(&serial), &st).or_else(|| diff(&want, &vw)) {
                        return viol("crowd-differs", format!("{k} fits at once inside one pool of {n}: {d}"));
                    }
                }
            }
        }
    }
    let big = c.rows > 1500;
    let probe = if r.p(0.3) { tr.clone() } else { c.probe(0, if big { 600 } else { 1 + r.n(90) as usize }) };
    x.c("rows_scored", probe.rows as u64);
    let m = probe.m();
    let ps = serial.predict(&m, false);
    let leaves0: Vec<usize> = serial.trees[..n_pred(&serial)]
        .iter()
        .flat_map(|t| (0..probe.rows).map(|i| t.nodes[route(t, &probe.row(i), c.par.missing)].num).collect::<Vec<_>>())
        .collect();
    let (pp, lv) = in_mode(mode, n, || (par.predict(&m, true), par.predict_leaf_indices(&m)));
    ensure!(bits(&ps) == bits(&pp), "predict-differs", "parallel predict differs from serial at row {:?}", bits(&ps).iter().zip(bits(&pp)).position(|(a, b)| *a != b));
    ensure!(lv == leaves0, "leaves-differ", "predict_leaf_indices is not what serial routing gives: first difference at {:?}", lv.iter().zip(&leaves0).position(|(a, b)| a != b));
    for k in METHODS {
        if k == "ProbabilityChange" && !c.par.logloss {
            continue;
        }
        if big && r.p(0.5) {
            continue;
        }
        let s = serial.predict_contributions(&m, method(k), false);
        let p = in_mode(if r.p(0.5) { 0 } else { mode }, n, || par.predict_contributions(&m, method(k), true));
        x.c("contrib_calls", 1);
        ensure!(bits(&s) == bits(&p), "contributions-differ", "parallel {k} contributions differ from serial at {:?}", bits(&s).iter().zip(bits(&p)).position(|(a, b)| *a != b));
    }
    // partial dependence: the same booster, `parallel` on and off
    for _ in 0..4 {
        let f = r.n(c.cols as u64) as usize;
        let v = if probe.rows > 0 { probe.at(r.n(probe.rows as u64) as usize, f) } else { 0.0 };
        let a = serial.value_partial_dependence(f, v);
        let b = in_mode(mode, n, || par.value_partial_dependence(f, v));
        x.c("pd_calls", 1);
        ensure!(bits(&[a]) == bits(&[b]), "pd-differs", "value_partial_dependence({f}, {v}) is {a:?} serially and {b:?} in parallel over {} trees", n_pred(&serial));
    }
    Ok(())
}

// ------------------------------------------------------------------ C02
fn other_work(r: &mut R, seed: u64, like: &Case) {
    // something else the process did before
    for k in 0..r.n(3) {
        let mut c = Case::gen(h3(seed, 777, k), Kind::Small, &Ov::default());
        if r.p(0.5) && like.rows * like.par.iterations < 3000 {
            // same shape as the case under test, other target, seed and weights
            c = Case::gen(like.seed, like.kind, &like.ov);
            c.par.seed ^= 77;
        }
        let mut s = c.train();
        s.y.rotate_left(1);
        if r.p(0.5) {
            // other values as well, in memory the case under test may get next
            let y = std::mem::take(&mut s.y);
            drop(s);
            s = c.set(5 + k, None);
            s.y = y;
        }
        let mut b = c.par.build();
        b.parallel = r.p(0.5);
        let _ = call(|| fit(&mut b, &s, &c.eval_sets()));
        if !b.trees.is_empty() {
            let p = c.probe(0, 5);
            let par = r.p(0.5);
            let _ = call(|| sig_views(&b, &p, par, true));
        }
        let _ = b.json_dump();
        if r.p(0.3) {
            let mut bad = s.y.clone();
            bad[0] = f64::NAN;
            let _ = call(|| b.fit(&s.m(), &bad, &s.w, None).is_err());
        }
    }
    if r.p(0.25) {
        // many small models: a long-lived process
        let n = 4 + r.n(60);
        let mut q = Case::gen(h3(seed, 778, 0), Kind::Small, &Ov::default());
        q.par.iterations = 1 + r.n(3) as usize;
        let s = q.set(0, Some(12));
        for k in 0..n {
            q.par.seed = r.u();
            let mut b = q.par.build();
            b.parallel = r.p(0.2);
            let _ = call(|| fit(&mut b, &s, &[]));
            if k % 4 == 0 {
                let _ = call(|| b.predict(&s.m(), k % 8 == 0).len());
            }
        }
    }
    let mut m: HashMap<u64, u64> = HashMap::new();
    for i in 0..r.n(20) {
        m.insert(i, i);
    }
    let _ = std::time::Instant::now();
    let _ = std::time::SystemTime::now();
}
pub fn c02(x: &mut Ctx) -> VR {
    let kind = if x.seed % 3 == 0 { Kind::Stop } else { Kind::General };
    let c = x.case(kind);
    let mut r = x.r(2);
    let run = |log_it: usize, parallel: bool, churn: u64| -> Result<(GradientBooster, String), Viol> {
        let mut b = c.par.build();
        b.parallel = parallel;
        b.log_iterations = log_it;
        if let Err(e) = fit(&mut b, &c.train(), &c.eval_sets()) {
            return viol("fit-error", format!("{e}"));
        }
        for k in 0..churn {
            // the same reads on other rows, which are gone afterwards
            let other = c.probe(1 + k % 2, 8);
            sig_views(&b, &other, parallel || k % 2 == 0, true);
        }
        let probe = c.probe(0, 8);
        let s = format!("{}\n{}", sig_state(&b), sig_views(&b, &probe, parallel, true));
        Ok((b, s))
    };
    if r.p(0.5) {
        other_work(&mut r, x.seed, &c);
    }
    if r.p(0.5) {
        install_logger();
    }
    let par = r.p(0.4);
    let churn = if r.p(0.4) { 1 + r.n(3) } else { 0 };
    let (b, s) = run(if r.p(0.5) { 1 + r.n(3) as usize } else { 0 }, par, churn)?;
    x.seen(&b);
    if x.proc == 0 {
        x.board = s;
    } else {
        if let Some(d) = diff(&x.board, &s) {
            return viol("process-differs", format!("the same fit in another process (other hash keys, clock, threads, logging) differs: {d}"));
        }
        // again, later in the same process and on another thread
        other_work(&mut r, x.seed ^ 5, &c);
        let s2 = std::thread::scope(|sc| sc.spawn(|| run(0, !par, 0).map(|v| v.1)).join()).map_err(|e| Viol { class: "panic".into(), msg: payload(e) })??;
        if let Some(d) = diff(&s, &s2) {
            return viol("history-differs", format!("the same fit later in the process differs: {d}"));
        }
        // only the seed decides the draws: another seed draws something else
        if c.par.sample == 1 && c.rows >= 24 && c.par.iterations >= 3 && c.par.esr.is_none() && !c.unit_w && h3(c.seed, 52, 0) % 3 == 0 && c.par.subsample < 0.85 {
            let mut p2 = c.par.clone();
            p2.seed = c.par.seed.wrapping_add(12345);
            let mut b2 = p2.build();
            fit(&mut b2, &c.train(), &[]).expect("fit");
            let cov = |b: &GradientBooster| b.trees.iter().map(|t| t.nodes[0].hessian_sum.to_bits()).collect::<Vec<_>>();
            x.c("seed_change_checked", 1);
            ensure!(cov(&b) != cov(&b2), "seed-ignored", "two different seeds drew rows of identical total weight in all {} trees", b.trees.len());
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C03
#[derive(Clone, Debug)]
enum ROp {
    Predict(bool),
    Contrib(usize, bool),
    Leaves,
    Pd(usize, f64),
    Imp(usize, bool),
    Dump,
    Save,
    FitOwn(u64),
    LoadOwn,
}
fn sorted_json(s: &str) -> String {
    // serde_json's map is a BTreeMap: keys come out sorted
    serde_json::from_str::<Value>(s).map(|v| v.to_string()).unwrap_or_else(|_| s.to_string())
}
pub fn c03(x: &mut Ctx) -> VR {
    let c = x.case(if x.seed % 2 == 0 { Kind::General } else { Kind::Small });
    let mut r = x.r(3);
    let nthr = 2 + r.n(3) as usize;
    let mut shared = fitted(&c, false);
    shared.parallel = r.p(0.7);
    x.seen(&shared);
    let before = sig_full(&shared);
    let own_seed = x.seed;
    let probes: Vec<Set> = (0..3).map(|k| c.probe(k, [3usize, 17, 64][k as usize])).collect();
    let file = x.path("m.json");
    rt::fs::root(Some(&x.dir)); // file calls are scheduling points as well
    rt::fs::clear();
    if r.p(0.3) {
        transient(&mut r);
    }
    ensure!(shared.save_booster(&file).is_ok(), "save", "save without faults failed");
    let dir = x.dir.clone();
    (0..nthr).for_each(|t| {
        let _ = std::fs::create_dir_all(x.path(&format!("d{t}")));
        let _ = std::fs::create_dir_all(x.path(&format!("d{}", 100 + t)));
    });
    let fresh_rows = r.p(0.4);
    let one_dir = r.p(0.5);
    // what the odd callers save: another model
    let mut other = GradientBooster::from_json(&shared.json_dump().unwrap()).expect("reload");
    other.insert_metadata("other".into(), "x".repeat(r.n(200) as usize));
    let exec = |op: &ROp, pr: usize, tid: usize| -> u64 {
        // the callers share the rows, or each call brings its own copy, gone afterwards
        let own;
        let probe = if fresh_rows {
            own = c.probe(pr as u64, 17);
            &own
        } else {
            &probes[pr]
        };
        let s = match op {
            ROp::Predict(p) => format!("{:x?}", bits(&shared.predict(&probe.m(), *p))),
            ROp::Contrib(k, p) => format!("{:x?}", bits(&shared.predict_contributions(&probe.m(), method(METHODS[*k]), *p))),
            ROp::Leaves => format!("{:?}", shared.predict_leaf_indices(&probe.m())),
            ROp::Pd(f, v) => format!("{:x?}", bits(&[shared.value_partial_dependence(*f, *v)])),
            ROp::Imp(k, n) => format!("{:?}", importance_bits(&shared, IMPS[*k], *n)),
            ROp::Dump => shared.json_dump().map(|s| sorted_json(&s)).unwrap_or_else(|e| e.to_string()),
            ROp::Save => {
                // every caller has a directory of its own, or a file of its own in a common one
                let p = if one_dir { format!("{dir}/d0/own{tid}.json") } else { format!("{}/d{}/own{}.json", dir, tid, tid % 2) };
                match if tid % 2 == 1 { &other } else { &shared }.save_booster(&p) {
                    Ok(()) => std::fs::read_to_string(&p).map(|s| sorted_json(&s)).unwrap_or_else(|e| e.to_string()),
                    Err(e) => e.to_string(),
                }
            }
            ROp::FitOwn(k) => {
                // boosters of the same shape come and go
                let cc = Case::gen(h3(own_seed, 555, *k % 3), Kind::Small, &Ov::default());
                let pr = cc.probe(1, 6);
                let mut tr = cc.set(k % 2 * 5, None);
                tr.y.rotate_left((*k as usize) % cc.rows);
                let mut out = String::new();
                for _ in 0..1 + k % 2 {
                    tr.y.rotate_left(1);
                    let mut b = cc.par.build();
                    b.parallel = k % 2 == 0;
                    fit(&mut b, &tr, &cc.eval_sets()).expect("fit of valid data");
                    out += &format!("{}{}", sig_full(&b), sig_views(&b, &pr, k % 3 == 0, true));
                }
                out
            }
            ROp::LoadOwn => match GradientBooster::load_booster(&file) {
                Ok(b) => format!("{}{}", sig_full(&b), sig_views(&b, probe, false, false)),
                Err(e) => e.to_string(),
            },
        };
        hash_bytes(s.as_bytes())
    };
    let mut plans: Vec<Vec<(ROp, usize)>> = vec![];
    let mut opi = 0;
    let own_heavy = r.p(0.3);
    let save_heavy = r.p(0.3);
    for _ in 0..nthr {
        let mut v = vec![];
        for _ in 0..1 + r.n(5) {
            let op = match r.n(14) {
                0 | 2 | 12 | 13 if save_heavy => r.pick(&[ROp::Save, ROp::Save, ROp::LoadOwn]),
                12 | 13 if own_heavy => ROp::FitOwn(r.n(6)),
                0 | 1 | 12 | 13 => ROp::Predict(r.p(0.7)),
                2 | 3 | 4 => {
                    let mut k = r.n(7) as usize;
                    if METHODS[k] == "ProbabilityChange" && !c.par.logloss {
                        k = 1
                    }
                    ROp::Contrib(k, r.p(0.7))
                }
                5 => ROp::Leaves,
                6 => ROp::Pd(r.n(c.cols as u64) as usize, r.f() * 4.0),
                7 => ROp::Imp(r.n(5) as usize, r.p(0.5)),
                8 => ROp::Dump,
                9 => ROp::Save,
                10 => ROp::FitOwn(r.n(6)),
                _ => ROp::LoadOwn,
            };
            let pr = r.n(3) as usize;
            if !x.drop_op(opi) {
                v.push((op, pr));
            }
            opi += 1;
        }
        plans.push(v);
    }
    x.c("caller_threads", nthr as u64);
    x.c("ops", plans.iter().map(|p| p.len() as u64).sum());
    // what each call returns alone (expectations first, then concurrently; or the other way round)
    let alone = |plans: &Vec<Vec<(ROp, usize)>>| -> Vec<Vec<u64>> { plans.iter().enumerate().map(|(t, p)| p.iter().map(|(o, pr)| exec(o, *pr, 100 + t)).collect()).collect() };
    let first = r.p(0.5);
    let mut exp = if first { alone(&plans) } else { vec![] };
    let in_pool = r.p(0.3);
    let pool_n = 1 + r.n(4) as usize;
    let got: Vec<Result<Vec<u64>, String>> = if in_pool {
        // the callers are tasks of one worker pool
        x.c("callers_in_pool", 1);
        let p = pool(pool_n);
        let run = |t: usize| call(|| plans[t].iter().map(|(o, pr)| exec(o, *pr, t)).collect::<Vec<u64>>());
        p.install(|| (0..plans.len()).into_par_iter().map(run).collect())
    } else {
        std::thread::scope(|s| {
        let hs: Vec<_> = plans
            .iter()
            .enumerate()
            .map(|(t, p)| {
                let exec = &exec;
                s.spawn(move || p.iter().map(|(o, pr)| exec(o, *pr, t)).collect::<Vec<u64>>())
            })
            .collect();
        hs.into_iter().map(|h| h.join().map_err(payload)).collect()
        })
    };
    if !first {
        exp = alone(&plans);
    }
    for (t, g) in got.iter().enumerate() {
        match g {
            Err(e) => return viol("caller-panic", format!("caller {t} panicked: {e}")),
            Ok(v) => {
                for (i, h) in v.iter().enumerate() {
                    ensure!(*h == exp[t][i], "concurrent-differs", "caller {t} operation {i} {:?} returned something else than alone", plans[t][i].0);
                }
            }
        }
    }
    if let Some(d) = diff(&before, &sig_full(&shared)) {
        return viol("shared-changed", format!("the shared booster changed: {d}"));
    }
    Ok(())
}

// ------------------------------------------------------------------ C04
fn meta_values(seed: u64) -> Vec<(String, String)> {
    let mut r = R::new(h3(seed, 4, 4));
    let pool = ["", "plain", "quote\" back\\slash", "new\nline\ttab", "\u{0}\u{1}\u{7f}", "ünïcödé 漢字 🦀", "{\"json\": [1,2,null]}", "null", "NaN"];
    (0..r.n(4)).map(|i| (format!("{}{}", r.pick(&pool), i), format!("{}{}", r.pick(&pool), "x".repeat(r.n(300) as usize)))).collect()
}
/// a model reached by some history; deterministic in the seed
fn some_model(x: &mut Ctx, salt: u64) -> (Case, GradientBooster) {
    let mut r = R::new(h3(x.seed, 44, salt));
    let kind = r.pick(&[Kind::Small, Kind::Small, Kind::Stop, Kind::Mono]);
    let mut c = Case::gen(h3(x.seed, 45, salt), kind, &x.ov);
    // unusual but legal values
    if r.p(0.2) {
        c.par.base_score = r.pick(&[1e-310, 5e-324, 1.7e8, -1e-5, 1.0 / 3.0, 123456789.12345678]);
        c.par.init_bs = false;
    }
    if r.p(0.2) {
        // with a rate above 2 the residuals grow each iteration: keep such models short of overflow
        c.par.lr = r.pick(&[1e-38, 1e-44, 0.1, 1.0 / 3.0, if c.par.iterations <= 25 { 3.0 } else { 1.5 }]);
    }
    if r.p(0.2) {
        c.par.seed = r.pick(&[u64::MAX, u64::MAX - 1, 1 << 53, (1 << 53) + 1]);
    }
    if r.p(0.2) {
        c.par.nbins = r.pick(&[1, 65535 / 8, 7]);
    }
    if r.p(0.2) {
        c.par.gamma = r.pick(&[1e-40, 0.0]);
        c.par.mlw = r.pick(&[f32::MIN_POSITIVE, 0.3]).max(0.05);
    }
    let mut b = c.par.build();
    x.desc = c.describe();
    x.shape_hash = hash_bytes(format!("{:?}{}{}", c.par, c.rows, c.cols).as_bytes());
    for (k, v) in meta_values(c.seed) {
        b.insert_metadata(k, v);
    }
    let hist = r.n(8);
    if hist != 0 {
        fit(&mut b, &c.train(), &c.eval_sets()).expect("fit");
        let fin = b.trees.iter().all(|t| t.nodes.iter().all(|n| n.weight_value.is_finite() && n.hessian_sum.is_finite() && n.split_gain.is_finite() && n.split_value.is_finite()));
        if !fin {
            // an absurd base score overflowed: JSON has no numbers for such a model
            x.c("overflowed_models_skipped", 1);
            b.base_score = 0.5;
            b.initialize_base_score = false;
            b.learning_rate = 0.1;
            fit(&mut b, &c.train(), &c.eval_sets()).expect("fit");
        }
    }
    if hist == 2 && !b.trees.is_empty() {
        let k = r.n(b.trees.len() as u64 + 1) as usize;
        b = use_trees(b, k);
    }
    if hist == 3 {
        let s = c.set(5, Some(c.rows.max(3) + 1));
        fit(&mut b, &s, &[]).expect("refit");
    }
    (c, b)
}
fn full_sig(c: &Case, b: &GradientBooster, with_views: bool) -> String {
    let mut s = sig_full(b);
    for (k, _) in meta_values(c.seed) {
        s += &format!("\nmeta {:?} = {:?}", k, b.get_metadata(&k));
    }
    if with_views {
        s += "\n";
        s += &sig_views(b, &c.probe(0, 9), false, true);
    }
    s
}
fn transient(r: &mut R) {
    rt::fs::transient(r.u(), r.pick(&[0, 200_000, 600_000, 950_000]), r.pick(&[0, 100_000, 400_000]));
}
fn fs_counts(x: &mut Ctx) {
    for (k, n) in [(1, "fault_short_read"), (2, "fault_short_write"), (3, "fault_eintr"), (4, "fault_io_error"), (5, "fault_disk_full"), (9, "fault_write_takes_nothing")] {
        let v = rt::fs::stat(k);
        let prev = *x.cnt.get(&format!("_{n}")).unwrap_or(&0);
        if v > prev {
            x.c(n, v - prev);
            x.cnt.insert(format!("_{n}"), v);
        }
    }
    let o = rt::fs::stat(0);
    x.cnt.insert("io_calls".into(), o);
}
/// where the model is kept: mostly an ordinary name, now and then an odd one
fn model_path(x: &Ctx) -> String {
    let mut r = R::new(h3(x.seed, 46, 1));
    let name = if r.p(0.6) {
        "model.json"
    } else {
        r.pick(&["model", " model.json", "model.json ", "my model.json", "модель-漢字.json", ".hidden", "a.b.c.json", "model.tmp", "sub/model.json", "-x", "model.json.tmp", "model.JSON", "\u{a0}m\n.json", "%20.json", "~m", "$HOME.json", "a\\b.json", "sub/deep er/m"])
    };
    let p = x.path(name);
    if let Some((d, _)) = name.rsplit_once('/') {
        let _ = std::fs::create_dir_all(x.path(d));
    }
    // now and then by a name relative to the working directory
    if r.p(0.15) && std::env::set_current_dir(&x.dir).is_ok() {
        return if r.p(0.7) { name.to_string() } else { format!("./{name}") };
    }
    p
}
fn absolute(x: &Ctx, path: &str) -> String {
    if path.starts_with('/') { path.to_string() } else { x.path(path.trim_start_matches("./")) }
}
pub fn c04(x: &mut Ctx) -> VR {
    let mut r = x.r(4);
    let path = model_path(x);
    rt::fs::root(Some(&x.dir));
    if x.proc == 0 {
        // whatever was at the path before
        match r.n(5) {
            0 => {
                let (_, old) = some_model(x, 99);
                let mut j = old.json_dump().unwrap();
                if r.p(0.5) {
                    j += &" ".repeat(20_000);
                }
                std::fs::write(&path, j).unwrap();
            }
            1 => std::fs::write(&path, "garbage ".repeat(5000)).unwrap(),
            2 => std::fs::write(&path, "").unwrap(),
            _ => {}
        }
        let (c, b) = some_model(x, 0);
        if r.p(0.2) {
            if let Ok(j) = b.json_dump() {
                std::fs::write(&path, twin(&j, &mut r)).unwrap();
            }
        }
        x.seen(&b);
        if b.trees.is_empty() {
            x.c("unfitted_models", 1);
        }
        if b.evaluation_history.as_ref().map(|h| h.data.iter().any(|v| !v.is_finite())).unwrap_or(false) {
            x.c("nonfinite_history", 1);
        }
        let want = full_sig(&c, &b, true);
        rt::fs::clear();
        transient(&mut r);
        let s = call(|| b.save_booster(&path));
        let io = rt::fs::stat(0);
        rt::fs::clear();
        fs_counts(x);
        match s {
            Err(p) => return viol("save-panic", format!("save_booster panicked: {p}")),
            Ok(Err(e)) => return viol("save-failed", format!("save_booster failed under nothing but short writes and EINTR ({io} calls): {e}")),
            Ok(Ok(())) => {}
        }
        // the text form
        let j = match b.json_dump() {
            Ok(j) => j,
            Err(e) => return viol("dump-failed", format!("json_dump failed: {e}")),
        };
        match call(|| GradientBooster::from_json(&j)) {
            Ok(Ok(b2)) => {
                if let Some(d) = diff(&want, &full_sig(&c, &b2, true)) {
                    return viol("json-differs", format!("from_json(json_dump()) is another model: {d}"));
                }
            }
            Ok(Err(e)) => return viol("json-unreadable", format!("from_json rejects json_dump output: {e}")),
            Err(p) => return viol("json-panic", p),
        }
        if let Some(d) = diff(&want, &full_sig(&c, &b, true)) {
            return viol("saved-model-changed", format!("saving changed the model: {d}"));
        }
        x.board = want;
        return Ok(());
    }
    // a later process
    let (c, _) = {
        let kind_case = some_model(x, 0);
        (kind_case.0, ())
    };
    let mut cur: Option<GradientBooster> = None;
    for k in 0..1 + r.n(3) {
        rt::fs::clear();
        transient(&mut r);
        let l = call(|| GradientBooster::load_booster(&path));
        rt::fs::clear();
        fs_counts(x);
        x.c("loads", 1);
        match l {
            Err(p) => return viol("load-panic", format!("load_booster panicked: {p}")),
            Ok(Err(e)) => return viol("load-failed", format!("a successfully saved model does not load (cycle {k}): {e}")),
            Ok(Ok(b)) => {
                if let Some(d) = diff(&x.board, &full_sig(&c, &b, true)) {
                    return viol("load-differs", format!("the loaded model differs from the saved one (cycle {k}): {d}"));
                }
                cur = Some(b);
            }
        }
        let b = cur.as_ref().unwrap();
        transient(&mut r);
        let s = call(|| b.save_booster(&path));
        rt::fs::clear();
        fs_counts(x);
        match s {
            Ok(Ok(())) => {}
            o => return viol("resave-failed", format!("saving the loaded model again failed: {:?}", o.map(|v| err_s(&v)))),
        }
    }
    x.nontrivial = true;
    Ok(())
}

// ------------------------------------------------------------------ C05
const ERRNOS: [i64; 13] = [5, 28, 13, 30, 24, 23, 12, 27, 122, 9, 110, 105, 11];
/// which file calls of a save to fail: all of them, or the first, the last and some between if the save makes many
fn call_positions(calls: u64, r: &mut R) -> Vec<u64> {
    if calls <= 12 {
        return (1..=calls).collect();
    }
    let mut v: BTreeSet<u64> = (1..=4).chain(calls - 3..=calls).collect();
    while v.len() < 12 {
        v.insert(1 + r.n(calls));
    }
    v.into_iter().collect()
}
pub fn c05(x: &mut Ctx) -> VR {
    let mut r = x.r(5);
    rt::fs::root(Some(&x.dir));
    let (c, b) = some_model(x, 0);
    x.seen(&b);
    let want = full_sig(&c, &b, true);
    let path = model_path(x);
    let (_, old) = some_model(x, 7);
    let near = neighbours(&mut r, &path);
    let near_bytes = old.json_dump().unwrap();
    near.iter().for_each(|p| std::fs::write(p, &near_bytes).unwrap());
    let len = b.json_dump().unwrap().len() as i64;
    // how many mutating calls a clean save makes
    rt::fs::clear();
    let clean = b.save_booster(&path);
    let calls = rt::fs::stat(8);
    ensure!(clean.is_ok(), "save", "save without faults failed");
    let mut trials: Vec<(String, Box<dyn Fn(&mut R)>)> = vec![];
    for k in call_positions(calls, &mut r) {
        for e in ERRNOS {
            trials.push((format!("call {k} fails with errno {e}"), Box::new(move |_| rt::fs::plan(0, k, rt::A_STICKY, e))));
        }
        let e = r.pick(&ERRNOS);
        trials.push((format!("call {k} fails once with errno {e}"), Box::new(move |_| rt::fs::plan(0, k, rt::A_ERR, e))));
    }
    // the system refuses to open anything for writing, and nothing else
    let refused = trials.len();
    for _ in 0..3 {
        let e = r.pick(&[13i64, 30, 24, 23, 1, 26, 40, 36]);
        trials.push((format!("opening for writing is refused with errno {e}"), Box::new(move |_| (1..6).for_each(|k| rt::fs::plan(rt::OP_OPEN_W, k, rt::A_ERR, e)))));
    }
    let refused = refused..trials.len();
    // writes that take nothing: the device swallows no more bytes and names no error
    for k in 0..3 {
        let after = [0, 1, len / 2][k];
        trials.push((format!("write takes {after} bytes and then none"), Box::new(move |_| {
            if after > 0 {
                rt::fs::plan(rt::OP_WRITE, 1, rt::A_SHORT, after);
            }
            for n in 1..60 {
                rt::fs::plan(rt::OP_WRITE, n + (after > 0) as u64, rt::A_ZERO, 0)
            }
        })));
    }
    // a write that fails after some short writes
    for _ in 0..3 {
        let nth = 2 + r.n(6);
        let e = r.pick(&ERRNOS);
        trials.push((
            format!("write {nth} fails with errno {e} after short writes"),
            Box::new(move |r| {
                rt::fs::transient(r.u(), 900_000, 200_000);
                rt::fs::plan(rt::OP_WRITE, nth, rt::A_STICKY, e)
            }),
        ));
    }
    let mut quotas = vec![0, 1, len / 2, len - 1, len];
    for _ in 0..5 {
        quotas.push(r.n(len.max(1) as u64) as i64);
    }
    for q in quotas {
        let short = r.p(0.5);
        trials.push((
            format!("disk full after {q} of {len} bytes"),
            Box::new(move |r| {
                if short {
                    rt::fs::transient(r.u(), 700_000, 100_000);
                }
                rt::fs::quota(q)
            }),
        ));
    }
    for (i, (name, arm)) in trials.iter().enumerate() {
        if x.drop_op(i) {
            continue;
        }
        // what was there before: nothing, an old model, or the same model
        match r.n(4) {
            0 => {
                let _ = std::fs::remove_file(&path);
            }
            1 => old.save_booster(&path).unwrap(),
            2 => std::fs::write(&path, twin(&b.json_dump().unwrap(), &mut r)).unwrap(),
            _ => {}
        }
        let was = std::fs::read(&path).ok();
        rt::fs::clear();
        arm(&mut r);
        let res = call(|| b.save_booster(&path));
        rt::fs::clear();
        fs_counts(x);
        x.c("trials", 1);
        match res {
            Err(p) => return viol("save-panic", format!("{name}: save_booster panicked: {p}")),
            Ok(Ok(())) => {
                x.c("fault_survived", 1);
                match call(|| GradientBooster::load_booster(&path)) {
                    Ok(Ok(l)) => {
                        if let Some(d) = diff(&want, &full_sig(&c, &l, false).as_str().to_string().chain_views(&c, &l)) {
                            return viol("false-success", format!("{name}: save reported success but the file holds another model: {d}"));
                        }
                    }
                    o => return viol("false-success", format!("{name}: save reported success but the file does not load: {:?}", o.map(|v| err_s(&v)))),
                }
            }
            Ok(Err(e)) => {
                x.c("fault_reported", 1);
                ensure!(matches!(e, forust_ml::errors::ForustError::UnableToWrite(_)), "wrong-error", "{name}: not reported as a write error: {e}");
                if refused.contains(&i) {
                    x.c("open_refused", 1);
                    ensure!(std::fs::read(&path).ok() == was, "refused-save-harms", "{name}: the file that was there is gone or changed although nothing could be opened");
                }
            }
        }
        if i % 7 == 0 {
            if let Some(d) = diff(&want, &full_sig(&c, &b, true)) {
                return viol("model-changed", format!("{name}: the booster changed: {d}"));
            }
        }
        // the fault is gone
        match call(|| b.save_booster(&path)) {
            Ok(Ok(())) => {}
            o => return viol("retry-failed", format!("after `{name}` a save without faults fails: {:?}", o.map(|v| err_s(&v)))),
        }
        match call(|| GradientBooster::load_booster(&path)) {
            Ok(Ok(l)) => {
                if let Some(d) = diff(&want, &full_sig(&c, &l, false).chain_views(&c, &l)) {
                    return viol("retry-differs", format!("after `{name}` a save without faults stored another model: {d}"));
                }
            }
            o => return viol("retry-unreadable", format!("after `{name}`: {:?}", o.map(|v| err_s(&v)))),
        }
    }
    if let Some(d) = diff(&want, &full_sig(&c, &b, true)) {
        return viol("model-changed", format!("the booster changed: {d}"));
    }
    near_intact(&near, &near_bytes)?;
    x.nontrivial = true;
    Ok(())
}
/// the text of another model, of the same length: one digit differs
fn twin(j: &str, r: &mut R) -> Vec<u8> {
    let mut v = j.as_bytes().to_vec();
    let at: Vec<usize> = (0..v.len()).filter(|i| (b'1'..=b'9').contains(&v[*i])).collect();
    if !at.is_empty() {
        let i = match r.n(3) {
            0 => at[0],
            1 => at[at.len() - 1],
            _ => at[r.n(at.len() as u64) as usize],
        };
        v[i] = if v[i] == b'9' { b'1' } else { v[i] + 1 };
    }
    v
}
/// models saved earlier under names like the ones a save might think of for itself
fn neighbours(r: &mut R, path: &str) -> Vec<String> {
    let (dir, name) = path.rsplit_once('/').unwrap_or((".", path));
    let stem = name.rsplit_once('.').map(|v| v.0).filter(|s| !s.is_empty()).unwrap_or("stem");
    let all = [
        format!("{dir}/{name}.tmp"), format!("{dir}/{stem}.tmp"), format!("{dir}/.{name}.tmp"), format!("{dir}/{name}.bak"), format!("{dir}/{name}~"),
        format!("{dir}/{name}.old"), format!("{dir}/.tmp"), format!("{dir}/tmp"), format!("{dir}/{name}.new"), format!("{dir}/{stem}"), format!("{dir}/{name}.json"),
        format!("{dir}/{name}.part"), format!("{dir}/.forust.tmp"), format!("{dir}/{name} "), format!("{dir}/{name}.lock"), format!("{dir}/{stem}.bak"), format!("{dir}/~{name}"), format!("{dir}/{name}.swp"),
    ];
    let k = 2 + r.n(17) as usize;
    let mut v: Vec<String> = all.iter().filter(|p| p.as_str() != path && p.strip_prefix("./") != Some(path)).cloned().collect();
    while v.len() > k {
        let i = r.n(v.len() as u64) as usize;
        v.remove(i);
    }
    v
}
fn near_intact(near: &[String], bytes: &str) -> VR {
    for p in near {
        match std::fs::read(p) {
            Ok(b) if b == bytes.as_bytes() => {}
            o => return viol("neighbour-harmed", format!("the model saved earlier as {:?} is {}", p.rsplit('/').next(), if o.is_ok() { "changed" } else { "gone" })),
        }
    }
    Ok(())
}
trait Chain {
    fn chain_views(self, c: &Case, b: &GradientBooster) -> String;
}
impl Chain for String {
    fn chain_views(self, c: &Case, b: &GradientBooster) -> String {
        format!("{}\n{}", self, sig_views(b, &c.probe(0, 9), false, true))
    }
}

// ------------------------------------------------------------------ C06
/// run f in a forked copy of this (single-threaded) simulated process; true if it died at the injected crash
fn crashed(f: impl FnOnce()) -> Result<bool, String> {
    let pid = rt::do_fork();
    if pid == 0 {
        rt::quiet();
        let r = catch_unwind(AssertUnwindSafe(f));
        rt::exit_now(if r.is_ok() { 0 } else { 77 });
    }
    let st = rt::wait(pid);
    if st & 0x7f == 0 {
        match (st >> 8) & 0xff {
            0 => Ok(false),
            91 => Ok(true),
            77 => Err("panicked".into()),
            o => Err(format!("exit {o}")),
        }
    } else {
        Err(format!("signal {}", st & 0x7f))
    }
}
fn judge_load(x: &mut Ctx, path: &str, what: &str, allowed: &[(&str, &String)], c: &Case, must: Option<&str>) -> VR {
    match call(|| GradientBooster::load_booster(path)) {
        Err(p) => viol("load-panic", format!("{what}: load_booster panicked: {p}")),
        Ok(Err(e)) => {
            x.c("load_error", 1);
            match must {
                Some(m) => viol("lost", format!("{what}: expected the {m} model but load fails: {e}")),
                None => Ok(()),
            }
        }
        Ok(Ok(b)) => {
            let got = full_sig(c, &b, false);
            for (name, s) in allowed {
                if **s == got && must.map(|m| m == *name).unwrap_or(true) {
                    x.c(&format!("load_{name}"), 1);
                    return Ok(());
                }
            }
            viol("mixture", format!("{what}: load returned a model that is neither of {:?}: {}", allowed.iter().map(|a| a.0).collect::<Vec<_>>(), diff(allowed[0].1, &got).unwrap_or("a model not allowed here".into())))
        }
    }
}
pub fn c06(x: &mut Ctx) -> VR {
    let mut r = x.r(6);
    rt::fs::root(Some(&x.dir));
    let (c, new) = some_model(x, 0);
    x.seen(&new);
    // the old model: same case (so that the signature comparison is like with like), other training
    let mut old = c.par.build();
    for (k, v) in meta_values(c.seed) {
        old.insert_metadata(k, v + "old");
    }
    match r.n(3) {
        0 => {
            old.iterations = (c.par.iterations / 2).max(1); // shorter
        }
        1 => {
            old.iterations = c.par.iterations * 3; // longer
        }
        _ => {}
    }
    fit(&mut old, &c.set(6, Some(c.rows.max(4))), &c.eval_sets()).expect("fit");
    let (snew, sold) = (full_sig(&c, &new, false), full_sig(&c, &old, false));
    let path = model_path(x);
    let key = absolute(x, &path);
    let other = x.path("other.json");
    let len = new.json_dump().unwrap().len() as i64;
    let near = neighbours(&mut r, &path);
    let near_bytes = old.json_dump().unwrap();
    near.iter().for_each(|p| std::fs::write(p, &near_bytes).unwrap());
    ensure!(old.save_booster(&other).is_ok(), "save", "save without faults failed");
    rt::fs::clear();
    ensure!(new.save_booster(&path).is_ok(), "save", "save without faults failed");
    let calls = rt::fs::stat(8);
    // ---- the process dies
    let mut points: Vec<(u64, i64)> = vec![];
    for k in call_positions(calls, &mut r) {
        points.push((k, 0));
        for b in [1, 2, len / 2, len - 2, len - 1, len] {
            points.push((k, b));
        }
        for _ in 0..3 {
            points.push((k, 1 + r.n(len.max(2) as u64) as i64));
        }
    }
    let has_old = r.p(0.7);
    for (i, (k, bytes)) in points.iter().enumerate() {
        if x.drop_op(i) {
            continue;
        }
        let _ = std::fs::remove_file(&path);
        if has_old {
            ensure!(old.save_booster(&path).is_ok(), "save", "save without faults failed");
        }
        let short = r.p(0.3);
        let tseed = r.u();
        rt::fs::clear();
        let died = crashed(|| {
            if short {
                rt::fs::transient(tseed, 500_000, 100_000);
            }
            rt::fs::plan(0, *k, rt::A_CRASH, *bytes);
            if new.save_booster(&path).is_err() {
                rt::exit_now(78);
            }
        });
        rt::fs::clear();
        x.c("crash_points", 1);
        let what = format!("process died in file call {k} after {bytes} bytes (old file: {has_old})");
        match died {
            Err(e) => return viol("save-died", format!("{what}: {e}")),
            Ok(false) => {
                judge_load(x, &path, &format!("{what} [save completed]"), &[("new", &snew)], &c, Some("new"))?;
            }
            Ok(true) => {
                x.c("fault_crash", 1);
                judge_load(x, &path, &what, &[("new", &snew), ("old", &sold)], &c, None)?;
            }
        }
    }
    judge_load(x, &other, "a file saved earlier, after crashes during saves to another path", &[("old", &sold)], &c, Some("old"))?;
    near_intact(&near, &near_bytes)?;
    // ---- the machine dies: images a crash could leave, rebuilt from the log of the calls
    let _ = std::fs::remove_file(&path);
    let mut pre: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    if has_old {
        old.save_booster(&path).unwrap();
        pre.insert(key.clone(), std::fs::read(&path).unwrap());
    }
    rt::fs::clear();
    if r.p(0.5) {
        rt::fs::transient(r.u(), 600_000, 0);
    }
    rt::fs::log(true);
    let ok = new.save_booster(&path);
    rt::fs::log(false);
    rt::fs::clear();
    ensure!(ok.is_ok(), "save-failed", "save under short writes failed: {}", err_s(&ok));
    let ops = rt::fs::ops();
    let n_img = 14;
    for i in 0..n_img {
        let sector = r.pick(&[512usize, 4096, 64]);
        let upto = if r.p(0.3) { ops.len() } else { r.n(ops.len() as u64 + 1) as usize };
        let meta_upto = if r.p(0.5) { upto } else { r.n(upto as u64 + 1) as usize };
        let p_lost = r.pick(&[0.0, 0.1, 0.5, 1.0]);
        // fsync makes everything before it durable
        let mut durable = 0;
        for (k, o) in ops[..upto].iter().enumerate() {
            if o.op == rt::OP_FSYNC {
                durable = k;
            }
        }
        let meta_upto = meta_upto.max(durable);
        let mut files = pre.clone();
        for (k, o) in ops[..meta_upto].iter().enumerate() {
            match o.op {
                rt::OP_OPEN_W => {
                    if o.off == 0 {
                        files.insert(o.path.clone(), vec![]);
                    } else {
                        files.entry(o.path.clone()).or_default();
                    }
                }
                rt::OP_WRITE => {
                    let f = files.entry(o.path.clone()).or_default();
                    let end = (o.off + o.len) as usize;
                    if f.len() < end {
                        f.resize(end, 0);
                    }
                    let mut p = 0usize;
                    while p < o.data.len() {
                        let abs = o.off as usize + p;
                        let n = (sector - abs % sector).min(o.data.len() - p);
                        let lost = k >= durable && r.p(p_lost);
                        if !lost {
                            // torn: only part of the sector made it
                            let keep = if k >= durable && r.p(0.05) { r.n(n as u64 + 1) as usize } else { n };
                            f[abs..abs + keep].copy_from_slice(&o.data[p..p + keep]);
                        }
                        p += n;
                    }
                }
                rt::OP_TRUNC => {
                    files.entry(o.path.clone()).or_default().resize(o.len as usize, 0);
                }
                rt::OP_RENAME => {
                    if let Some(v) = files.remove(&o.path) {
                        files.insert(o.path2.clone(), v);
                    }
                }
                rt::OP_UNLINK => {
                    files.remove(&o.path);
                }
                _ => {}
            }
        }
        let _ = std::fs::remove_file(&path);
        if let Some(v) = files.get(&key) {
            let mut v = v.clone();
            // the size may have made it to disk before the last data, or not
            if r.p(0.3) && !v.is_empty() && durable == 0 && meta_upto > 0 {
                let n = r.n(v.len() as u64 + 1) as usize;
                if files.get(&key) != pre.get(&key) {
                    v.truncate(n);
                }
            }
            rt::fs::root(None);
            std::fs::write(&path, v).unwrap();
            rt::fs::root(Some(&x.dir));
        }
        x.c("fault_power_loss", 1);
        judge_load(x, &path, &format!("power loss image {i} ({meta_upto} of {} calls applied, sector {sector}, loss {p_lost})", ops.len()), &[("new", &snew), ("old", &sold)], &c, None)?;
    }
    fs_counts(x);
    x.nontrivial = true;
    Ok(())
}

// ------------------------------------------------------------------ C07
pub fn c07(x: &mut Ctx) -> VR {
    let mut r = x.r(7);
    rt::fs::root(Some(&x.dir));
    let (c, b) = some_model(x, 0);
    x.seen(&b);
    let path = model_path(x);
    if r.p(0.5) {
        // other models were kept here before, and under names like this one
        let (_, old) = some_model(x, 7);
        for _ in 0..1 + r.n(2) {
            ensure!(old.save_booster(&path).is_ok(), "save", "save without faults failed");
        }
        let bytes = std::fs::read(&path).unwrap();
        neighbours(&mut r, &path).iter().for_each(|p| std::fs::write(p, &bytes).unwrap());
        x.c("saved_over_another", 1);
    }
    ensure!(b.save_booster(&path).is_ok(), "save", "save without faults failed");
    let want = full_sig(&c, &b, false);
    let views = sig_views(&b, &c.probe(0, 9), false, true);
    let orig = std::fs::read(&path).unwrap();
    let n = orig.len();
    let must_load = |x: &mut Ctx, what: &str| -> VR {
        match call(|| GradientBooster::load_booster(&path)) {
            Ok(Ok(l)) => {
                if let Some(d) = diff(&want, &full_sig(&c, &l, false)) {
                    return viol("load-differs", format!("{what}: {d}"));
                }
                if let Some(d) = diff(&views, &sig_views(&l, &c.probe(0, 9), false, true)) {
                    return viol("load-differs", format!("{what}: {d}"));
                }
                x.c("load_ok", 1);
                Ok(())
            }
            o => viol("load-failed", format!("{what}: {:?}", o.map(|v| err_s(&v)))),
        }
    };
    let judge = |x: &mut Ctx, what: &str, damaged: bool| -> VR {
        let l = call(|| GradientBooster::load_booster(&path));
        x.c("damaged_loads", 1);
        match l {
            Err(p) => viol("load-panic", format!("{what}: load_booster panicked: {p}")),
            Ok(Err(e)) => {
                x.c("load_error", 1);
                if !matches!(e, forust_ml::errors::ForustError::UnableToRead(_)) {
                    return viol("wrong-error", format!("{what}: not reported as a read error: {e}"));
                }
                Ok(())
            }
            Ok(Ok(l)) => {
                let d = diff(&want, &full_sig(&c, &l, false));
                if let Some(d) = d {
                    return viol("partial-model", format!("{what}: load returned an altered model: {d}"));
                }
                if damaged {
                    // the damage did not matter? only if the bytes were the same
                    return viol("damage-accepted", format!("{what}: load accepted a damaged file"));
                }
                Ok(())
            }
        }
    };
    // truncation
    let mut cuts: BTreeSet<usize> = [0, 1, 2, n / 2, n.saturating_sub(1), n.saturating_sub(2), n.saturating_sub(3)].into_iter().collect();
    for _ in 0..12 {
        cuts.insert(r.n(n as u64) as usize);
    }
    for _ in 0..6 {
        cuts.insert(n - 1 - r.n((n as u64 - 1).min(400)) as usize);
    }
    let mut op = 0;
    for k in cuts {
        op += 1;
        if x.drop_op(op) {
            continue;
        }
        std::fs::write(&path, &orig[..k]).unwrap();
        judge(x, &format!("file truncated to {k} of {n} bytes"), true)?;
        x.c("fault_truncated", 1);
    }
    // zeroed blocks, invalid UTF-8
    for _ in 0..8 {
        op += 1;
        let bs = r.pick(&[1usize, 16, 64, 512, 4096]);
        let a = (r.n(n as u64) as usize) / bs * bs;
        let e = (a + bs).min(n);
        let ff = r.p(0.3);
        if x.drop_op(op) {
            continue;
        }
        let mut v = orig.clone();
        v[a..e].iter_mut().for_each(|b| *b = if ff { 0xff } else { 0 });
        std::fs::write(&path, &v).unwrap();
        judge(x, &format!("bytes {a}..{e} of {n} overwritten with {}", if ff { "0xff" } else { "zero" }), true)?;
        x.c("fault_zeroed", 1);
    }
    // missing file, directory
    std::fs::remove_file(&path).unwrap();
    judge(x, "missing file", true)?;
    rt::fs::root(None);
    std::fs::create_dir(&path).unwrap();
    judge(x, "path is a directory", true)?;
    std::fs::remove_dir(&path).unwrap();
    rt::fs::root(Some(&x.dir));
    std::fs::write(&path, &orig).unwrap();
    must_load(x, "after the damage was repaired")?;
    // read faults
    for _ in 0..14 {
        op += 1;
        let kind = r.n(4);
        let nth = 1 + r.n(3);
        let e = r.pick(&ERRNOS);
        let ts = r.u();
        if x.drop_op(op) {
            continue;
        }
        rt::fs::clear();
        let before = rt::fs::stat(4);
        let what = match kind {
            0 => {
                rt::fs::plan(rt::OP_OPEN_R, 1, rt::A_ERR, e);
                format!("open fails with errno {e}")
            }
            1 => {
                rt::fs::plan(rt::OP_READ, nth, rt::A_ERR, e);
                format!("read {nth} fails with errno {e}")
            }
            2 => {
                rt::fs::transient(ts, 800_000, 300_000);
                rt::fs::plan(rt::OP_READ, nth + 1, rt::A_ERR, e);
                format!("read {} fails with errno {e} after short reads", nth + 1)
            }
            _ => {
                rt::fs::transient(ts, 900_000, 400_000);
                "short reads and EINTR only".to_string()
            }
        };
        if kind == 3 {
            must_load(x, &what)?;
        } else {
            judge(x, &what, false)?;
            if rt::fs::stat(4) > before {
                x.c("fault_read_error", 1);
            }
        }
        rt::fs::clear();
        must_load(x, &format!("after `{what}`"))?;
    }
    if let Some(d) = diff(&want, &full_sig(&c, &b, false)) {
        return viol("memory-changed", format!("failed loads changed a booster in memory: {d}"));
    }
    if let Some(d) = diff(&views, &sig_views(&b, &c.probe(0, 9), false, true)) {
        return viol("memory-changed", format!("failed loads changed a booster in memory: {d}"));
    }
    fs_counts(x);
    x.nontrivial = true;
    Ok(())
}

// ------------------------------------------------------------------ C08 / C09
/// a fit that dies half way. Returns true if it did.
fn interrupted_fit(b: &mut GradientBooster, c: &Case, r: &mut R) -> bool {
    let s = c.set(r.n(3), Some(c.rows.max(2)));
    let mut ev = c.eval_sets();
    let k = r.n(3);
    if k == 0 && !c.par.missing.is_nan() && !ev.is_empty() {
        let e = r.n(ev.len() as u64) as usize;
        let n = ev[e].x.len() as u64;
        for _ in 0..1 + r.n(4) {
            ev[e].x[r.n(n) as usize] = f64::NAN;
        }
        return call(|| fit(b, &s, &ev)).is_err();
    }
    if k == 1 && !c.par.missing.is_nan() {
        let mut s = s;
        let n = s.x.len() as u64;
        s.x[r.n(n) as usize] = f64::NAN;
        return call(|| fit(b, &s, &ev)).is_err();
    }
    install_logger();
    let li = b.log_iterations;
    b.log_iterations = 1;
    LOG_FAIL_AT.store(r.n(2 * c.par.iterations as u64 + 1) as i64, Ordering::SeqCst);
    let e = call(|| fit(b, &s, &ev)).is_err();
    LOG_FAIL_AT.store(-1, Ordering::SeqCst);
    b.log_iterations = li;
    e
}
/// a fit that must be rejected; returns a description
fn bad_fit(b: &mut GradientBooster, c: &Case, r: &mut R) -> (String, Result<Result<(), String>, String>) {
    let mut s = c.set(r.n(3), None);
    let mut ev = c.eval_sets();
    if ev.is_empty() || r.p(0.3) {
        for k in 0..1 + r.n(3) {
            ev.push(c.set(20 + k, Some(2 + r.n(20) as usize)));
        }
    }
    fn pos(r: &mut R, n: usize) -> usize {
        match r.n(4) {
            0 => 0,
            1 => n - 1,
            _ => r.n(n as u64) as usize,
        }
    }
    let bad_w = r.pick(&[f64::NAN, -1.0, -1e-300, f64::NEG_INFINITY]);
    let place = r.n(4);
    if place < 2 && r.p(0.4) {
        ev.clear();
    }
    let what = match place {
        0 => {
            let i = pos(r, s.y.len());
            s.y[i] = f64::NAN;
            format!("NaN in y[{i}] of {}", s.rows)
        }
        1 => {
            let i = pos(r, s.w.len());
            s.w[i] = bad_w;
            format!("{bad_w} in sample_weight[{i}] of {}", s.rows)
        }
        2 => {
            let e = r.n(ev.len() as u64) as usize;
            let i = pos(r, ev[e].rows);
            ev[e].y[i] = f64::NAN;
            format!("NaN in y[{i}] of evaluation set {e} of {}", ev.len())
        }
        _ => {
            let e = r.n(ev.len() as u64) as usize;
            let i = pos(r, ev[e].rows);
            ev[e].w[i] = bad_w;
            format!("{bad_w} in sample_weight[{i}] of evaluation set {e} of {}", ev.len())
        }
    };
    let res = call(|| fit(b, &s, &ev).map_err(|e| e.to_string()));
    (what, res)
}
pub fn c08(x: &mut Ctx) -> VR {
    let kind = [Kind::Small, Kind::Stop, Kind::General, Kind::Mono][(x.seed % 4) as usize];
    let c = x.case(kind);
    let mut r = x.r(8);
    let mut b = c.par.build();
    let mut hist: Vec<String> = vec![];
    let nops = 1 + r.n(6) as usize;
    for i in 0..nops {
        let mut q = R::new(r.u());
        let op = q.n(9);
        if x.drop_op(i) {
            continue;
        }
        match op {
            0 | 1 => {
                let like = q.p(0.3) && c.rows < 5000;
                let s = c.set(2 + q.n(3), Some(if like { c.rows } else { 2 + q.n(40) as usize }));
                let ev: Vec<Set> = (0..q.n(4)).map(|k| c.set(30 + k, Some(3 + q.n(10) as usize))).collect();
                b.parallel = q.p(0.3);
                let r = fit(&mut b, &s, &ev);
                hist.push(format!("fit({} rows, {} evals)={}", s.rows, ev.len(), err_s(&r)));
            }
            2 | 3 | 4 => {
                b.parallel = q.p(0.3);
                let d = interrupted_fit(&mut b, &c, &mut q);
                if d {
                    x.c("fault_fit_interrupted", 1);
                }
                hist.push(format!("interrupted_fit={d}"));
            }
            5 => {
                let (what, res) = bad_fit(&mut b, &c, &mut q);
                hist.push(format!("rejected({what})={:?}", res.is_ok()));
                x.c("fault_fit_rejected", 1);
            }
            6 if !b.trees.is_empty() => {
                let k = q.n(b.trees.len() as u64 + 1) as usize;
                b = use_trees(b, k);
                hist.push(format!("use {k} trees"));
            }
            7 => {
                let j = b.json_dump().unwrap();
                match GradientBooster::from_json(&j) {
                    Ok(n) => b = n,
                    Err(e) => return viol("reload-failed", format!("after {hist:?}: {e}")),
                }
                hist.push("save+load".into());
            }
            _ => {
                if n_pred(&b) <= b.trees.len() {
                    let p = c.probe(0, 4);
                    let par = q.p(0.3);
                    let _ = call(|| if q.p(0.5) { b.predict(&p.m(), par).len() } else { sig_views(&b, &p, par, true).len() });
                    hist.push("read".into());
                }
            }
        }
    }
    x.c("history_ops", hist.len() as u64);
    b.parallel = c.par.parallel;
    let (tr, ev) = (c.train(), c.eval_sets());
    let got = match call(|| fit(&mut b, &tr, &ev)) {
        Ok(Ok(())) => sig_full(&b),
        o => return viol("refit-fails", format!("after {hist:?} a valid fit fails: {:?}", o.map(|v| err_s(&v)))),
    };
    let mut fresh = c.par.build();
    let (tr2, ev2) = (c.train(), c.eval_sets());
    fit(&mut fresh, &tr2, &ev2).expect("fresh fit");
    x.seen(&fresh);
    if let Some(d) = diff(&sig_full(&fresh), &got) {
        return viol("refit-differs", format!("after {hist:?} the refit is not what a new booster gets: {d}"));
    }
    let p = c.probe(0, 6);
    let (va, vb) = (call(|| sig_views(&fresh, &p, false, true)), call(|| sig_views(&b, &p, false, true)));
    ensure!(va == vb, "refit-differs", "after {hist:?} predictions differ from a new booster's");
    Ok(())
}
pub fn c09(x: &mut Ctx) -> VR {
    let kind = [Kind::Small, Kind::Stop, Kind::General][(x.seed % 3) as usize];
    let c = x.case(kind);
    let mut r = x.r(9);
    let fitted_first = r.p(0.8);
    let mut b = c.par.build();
    b.insert_metadata("k".into(), "v".into());
    if fitted_first {
        fit(&mut b, &c.train(), &c.eval_sets()).expect("fit");
        if r.p(0.2) && !b.trees.is_empty() {
            let k = r.n(b.trees.len() as u64 + 1) as usize;
            b = use_trees(b, k);
        }
        x.seen(&b);
    }
    let p = c.probe(0, 7);
    let snap = |b: &GradientBooster, meta: Option<String>| format!("{}{:?}{}", sig_full(b), meta, sig_views(b, &p, false, true));
    let k = "k".to_string();
    let want = snap(&b, b.get_metadata(&k));
    rt::fs::root(Some(&x.dir));
    for i in 0..3 + r.n(6) as usize {
        let mut q = R::new(r.u());
        let op = q.n(8);
        if x.drop_op(i) {
            continue;
        }
        let what = match op {
            0..=4 => {
                let (what, res) = bad_fit(&mut b, &c, &mut q);
                x.c("fault_fit_rejected", 1);
                match res {
                    Err(p) => return viol("reject-panic", format!("fit with {what} panicked: {p}")),
                    Ok(Ok(())) => return viol("not-rejected", format!("fit with {what} was accepted")),
                    Ok(Err(_)) => {}
                }
                what
            }
            5 => {
                // reads, in parallel
                let big = c.probe(1, 40);
                let m = big.m();
                let _ = b.predict(&m, true);
                let _ = b.predict_leaf_indices(&m);
                let meth = q.pick(&METHODS);
                if meth != "ProbabilityChange" || c.par.logloss {
                    let _ = b.predict_contributions(&m, method(meth), true);
                }
                let _ = b.value_partial_dependence(0, 1.0);
                let _ = b.calculate_feature_importance(imp("Cover"), true);
                x.c("reads", 5);
                "reads".to_string()
            }
            6 => {
                rt::fs::clear();
                rt::fs::plan(0, 1 + q.n(2), rt::A_STICKY, 28);
                let path = x.path("f.json");
                let s = b.save_booster(&path);
                rt::fs::clear();
                format!("failed save {}", err_s(&s))
            }
            _ => {
                let _ = b.json_dump();
                let s = b.save_booster(&x.path("f.json"));
                format!("save {}", err_s(&s))
            }
        };
        let now = match call(|| snap(&b, b.get_metadata(&k))) {
            Ok(s) => s,
            Err(p) => return viol("model-broken", format!("after {what}: reading the model panics: {p}")),
        };
        if let Some(d) = diff(&want, &now) {
            return viol("model-changed", format!("after {what} (fitted before: {fitted_first}): {d}"));
        }
    }
    fs_counts(x);
    Ok(())
}

// ------------------------------------------------------------------ C10 / C18
/// For the exact kinds: how often each row was drawn for the tree rooted at `t`, from the root cover.
fn decode(kind: Kind, cover: f32, n: usize) -> Option<Vec<f64>> {
    if cover < 0.0 || cover.fract() != 0.0 {
        return None;
    }
    let v = cover as u64;
    let (bits, base) = if kind == Kind::Exact { (1, 2u64) } else { (2, 4u64) };
    if n < 12 * (3 - bits) as usize && v >= base.pow(n as u32) {
        return None;
    }
    Some((0..n).map(|i| ((v >> (bits as usize * i)) & (base - 1)) as f64).collect())
}
fn grads(logloss: bool, y: &[f64], p: &[f64], w: &[f64]) -> (Vec<f32>, Vec<f32>) {
    let mut g = vec![];
    let mut h = vec![];
    for i in 0..y.len() {
        if logloss {
            let q = sigmoid(p[i]);
            g.push(((q - y[i]) * w[i]) as f32);
            h.push((q * (1.0 - q) * w[i]) as f32);
        } else {
            g.push(((p[i] - y[i]) * w[i]) as f32);
            h.push(w[i] as f32);
        }
    }
    (g, h)
}
fn node_rows(t: &Tree, s: &Set, missing: f64) -> Vec<Vec<usize>> {
    let mut v = vec![vec![]; t.nodes.len()];
    for i in 0..s.rows {
        for n in path(t, &s.row(i), missing) {
            v[n].push(i);
        }
    }
    v
}
fn kind_for(x: &Ctx, opts: &[Kind]) -> Kind {
    opts[(h3(x.seed, 8, 8) % opts.len() as u64) as usize]
}
/// Kind::Probe: every cover is (number of light rows) + 4096 * (heavy rows, in base 4)
fn probe_covers(x: &mut Ctx, c: &Case, tr: &Set, k: usize, t: &Tree, rows: &[Vec<usize>], g: &[f32]) -> VR {
    let n = tr.rows;
    let goss = c.par.sample == 2;
    let top_n = (c.par.top * n as f64) as usize;
    let mut ord: Vec<f32> = g.iter().map(|v| v.abs()).collect();
    ord.sort_by(|a, b| b.total_cmp(a));
    // 1: surely in the top share, 0: surely not, 2: tied with its end
    let top: Vec<u8> = (0..n)
        .map(|i| if !goss || top_n == 0 { 0 } else if top_n >= n || g[i].abs() > ord[top_n] { 1 } else if g[i].abs() < ord[top_n - 1] { 0 } else { 2 })
        .collect();
    let ties = top.contains(&2);
    let (unit, most) = if goss { (2.0, 2.0) } else { (1.0, 1.0) };
    for (ni, node) in t.nodes.iter().enumerate() {
        let cover = node.hessian_sum;
        ensure!(cover >= 0.0 && cover.fract() == 0.0, "cover", "tree {k} node {ni}: cover {cover} is not a sum of row weights");
        let v = cover as u64;
        let light = (v % 4096) as f64;
        let mut routed = 0.0;
        let mut tops = 0.0;
        for i in &rows[ni] {
            match c.probe_of(*i) {
                None => {
                    routed += 1.0;
                    tops += (top[*i] == 1) as u64 as f64;
                }
                Some(p) => {
                    let m = ((v >> (12 + 2 * p)) & 3) as f64;
                    ensure!(m <= most, "cover", "tree {k} node {ni}: heavy row {i} counted {m} times (cover {cover})");
                    if goss && top[*i] == 1 {
                        ensure!(m == 1.0, "goss-top", "tree {k} node {ni}: row {i} is among the {top_n} largest gradients but has multiplicity {m}");
                        x.c("goss_top", 1);
                    } else if goss && top[*i] == 0 {
                        ensure!(m != 1.0, "goss-rest", "tree {k} node {ni}: row {i} is not among the {top_n} largest gradients but counts once");
                        x.c("goss_rest", 1);
                    }
                }
            }
        }
        for p in 0..6 {
            let here = rows[ni].iter().any(|i| c.probe_of(*i) == Some(p));
            ensure!(here || (v >> (12 + 2 * p)) & 3 == 0, "cover", "tree {k} node {ni}: cover {cover} counts a heavy row routed elsewhere");
        }
        ensure!(v >> 24 == 0, "cover", "tree {k} node {ni}: cover {cover} exceeds all rows");
        if !ties {
            let rest = light - tops;
            ensure!(rest >= 0.0 && rest % unit == 0.0 && rest / unit <= routed - tops, "cover", "tree {k} node {ni}: {light} light rows counted, {routed} are routed there, {tops} of them in the top share");
        } else {
            ensure!(light <= routed * most, "cover", "tree {k} node {ni}: {light} light rows counted of {routed} routed");
        }
        x.c("probe_covers", 1);
        if ni == 0 && !ties && n >= 100 {
            // the draw itself
            let p = if goss { ((c.par.other * n as f64) as usize) as f64 / (n - top_n) as f64 } else { c.par.subsample as f64 };
            let f = (light - tops) / unit / (routed - tops);
            let sd = (p * (1.0 - p) / (routed - tops)).sqrt();
            ensure!((f - p).abs() < 7.5 * sd, "draw-rate", "tree {k}: {f:.3} of {} rows were drawn, expected {p:.3}", routed - tops);
        }
    }
    Ok(())
}
pub fn c10(x: &mut Ctx) -> VR {
    let kind = kind_for(x, &[Kind::Exact, Kind::Exact, Kind::ExactGoss, Kind::Counts, Kind::Counts, Kind::General, Kind::Probe, Kind::Probe]);
    let mut c = x.case(kind);
    let mut r = x.r(10);
    // now and then many trees, to judge the draws themselves
    let draws = kind == Kind::Exact && c.par.sample == 1 && r.p(0.25);
    if draws {
        c.par.iterations = c.par.iterations.max(80);
        c.par.esr = None;
        c.par.max_depth = 2;
        c.par.parallel = false;
    }
    let tr = c.train();
    let ev = c.eval_sets();
    let mut b = c.par.build();
    let mode = r.n(3);
    in_mode(mode, 1 + r.n(5) as usize, || fit(&mut b, &tr, &ev)).expect("fit");
    x.seen(&b);
    let leafs = b.predict_leaf_indices(&tr.m());
    let np = n_pred(&b);
    let mut yhat = vec![b.base_score; tr.rows];
    let mut sets: Vec<Vec<f64>> = vec![];
    for (k, t) in b.trees.iter().enumerate() {
        let rows = node_rows(t, &tr, b.missing);
        if k < np {
            for i in 0..tr.rows {
                let l = leafs[k * tr.rows + i];
                ensure!(l < t.nodes.len() && t.nodes[l].is_leaf && l == route(t, &tr.row(i), b.missing), "leaf-index", "tree {k}: predict_leaf_indices sends row {i} to node {l}, its splits send it elsewhere");
            }
        }
        let (g, h) = grads(c.par.logloss, &tr.y, &yhat, &tr.w);
        // how often each row was drawn
        let mult: Option<Vec<f64>> = match kind {
            Kind::Exact | Kind::ExactGoss => match decode(kind, t.nodes[0].hessian_sum, tr.rows) {
                Some(m) => Some(m),
                None => return viol("root-cover", format!("tree {k}: root cover {} is not a sum of row weights", t.nodes[0].hessian_sum)),
            },
            _ if c.par.sample == 0 => Some(vec![1.0; tr.rows]),
            _ => None,
        };
        if let Some(m) = &mult {
            sets.push(m.clone());
            if c.par.sample == 0 {
                ensure!(m.iter().all(|v| *v == 1.0), "row-lost", "tree {k}: no sampling, but the root holds rows {m:?}");
            }
            let exact = kind != Kind::General;
            let root: f64 = (0..tr.rows).map(|i| m[i] * h[i] as f64).sum();
            for (ni, n) in t.nodes.iter().enumerate() {
                let want: f64 = rows[ni].iter().map(|i| m[*i] * h[*i] as f64).sum();
                let got = n.hessian_sum as f64;
                let tol = if exact { 0.0 } else { 2e-4 * root + 1e-6 };
                x.c("node_covers", 1);
                if (got - want).abs() > tol {
                    let detail = if kind == Kind::Exact || kind == Kind::ExactGoss {
                        format!("holds rows {:?}, routed {:?}", decode(kind, n.hessian_sum, tr.rows), rows[ni])
                    } else {
                        format!("{} rows routed", rows[ni].len())
                    };
                    return viol("cover", format!("tree {k} node {ni}: cover {got}, but the rows routed there weigh {want} ({detail})"));
                }
            }
        } else {
            // unknown draw: children add up, and no more than what is routed there
            let fact = if c.par.sample == 2 { ((1.0 - c.par.top) / c.par.other).max(1.0) } else { 1.0 };
            let root: f64 = h.iter().map(|v| *v as f64).sum::<f64>() * fact;
            for (ni, n) in t.nodes.iter().enumerate() {
                let max: f64 = rows[ni].iter().map(|i| h[*i] as f64 * fact).sum();
                ensure!(n.hessian_sum as f64 <= max + 2e-4 * root + 1e-6, "cover", "tree {k} node {ni}: cover {} exceeds {max}, all rows routed there", n.hessian_sum);
                if !n.is_leaf {
                    let mut s = t.nodes[n.left_child].hessian_sum as f64 + t.nodes[n.right_child].hessian_sum as f64;
                    if n.missing_node != n.left_child && n.missing_node != n.right_child {
                        s += t.nodes[n.missing_node].hessian_sum as f64;
                    }
                    ensure!((s - n.hessian_sum as f64).abs() <= 2e-4 * root + 1e-6, "cover", "tree {k} node {ni}: children hold {s} of {}", n.hessian_sum);
                }
            }
        }
        if kind == Kind::Probe {
            probe_covers(x, &c, &tr, k, t, &rows, &g)?;
        }
        if kind == Kind::ExactGoss {
            let m = mult.as_ref().unwrap();
            let n = tr.rows;
            let top_n = (c.par.top * n as f64) as usize;
            let mut ord: Vec<f32> = g.iter().map(|v| v.abs()).collect();
            ord.sort_by(|a, b| b.total_cmp(a));
            for i in 0..n {
                ensure!(m[i] < 3.0, "goss-multiple", "tree {k}: GOSS counted row {i} three times");
                // strictly among the top, or strictly below it
                if top_n > 0 && top_n < n {
                    if g[i].abs() > ord[top_n] {
                        ensure!(m[i] == 1.0, "goss-top", "tree {k}: row {i} is among the {top_n} largest gradients but has multiplicity {}", m[i]);
                        x.c("goss_top", 1);
                    } else if g[i].abs() < ord[top_n - 1] {
                        ensure!(m[i] == 0.0 || m[i] == 2.0, "goss-rest", "tree {k}: row {i} is not among the {top_n} largest gradients but counts {} times", m[i]);
                        x.c("goss_rest", 1);
                    }
                } else if top_n == 0 {
                    ensure!(m[i] != 1.0, "goss-rest", "tree {k}: row {i} drawn without amplification, nothing is in the top share");
                }
            }
        }
        for i in 0..tr.rows {
            yhat[i] += t.nodes[route(t, &tr.row(i), b.missing)].weight_value as f64;
        }
    }
    if c.par.sample == 1 && kind == Kind::Exact && sets.len() >= 6 && tr.rows >= 12 && c.par.subsample < 0.85 {
        ensure!(sets.iter().any(|s| *s != sets[0]), "same-draw", "all {} trees drew exactly the same rows", sets.len());
        x.c("draws_compared", sets.len() as u64);
    }
    if draws && sets.len() >= 80 && tr.rows >= 8 {
        // every row is drawn with probability subsample, independently of its position
        let p = c.par.subsample as f64;
        let t = sets.len() as f64;
        let sd = (p * (1.0 - p) / t).sqrt();
        for i in 0..tr.rows {
            let f = sets.iter().map(|s| s[i]).sum::<f64>() / t;
            ensure!((f - p).abs() < 7.5 * sd, "draw-rate", "row {i} was drawn for {f:.3} of {t} trees, expected {p}");
        }
        let tot = sets.iter().flatten().sum::<f64>() / (t * tr.rows as f64);
        let sd = (p * (1.0 - p) / (t * tr.rows as f64)).sqrt();
        ensure!((tot - p).abs() < 7.5 * sd, "draw-rate", "{tot:.4} of the rows were drawn, expected {p}");
        let rep = sets.windows(2).filter(|w| w[0] == w[1]).count();
        ensure!(tr.rows < 12 || rep < sets.len() / 4, "same-draw", "{rep} of {} trees drew the same rows as the tree before", sets.len());
        x.c("draw_statistics", 1);
    }
    Ok(())
}
fn newton(p: &Par, g: f64, h: f64) -> f64 {
    let l1 = p.l1 as f64;
    let gg = if g > l1 {
        g - l1
    } else if g < -l1 {
        g + l1
    } else {
        0.0
    };
    let w = if h + p.l2 as f64 == 0.0 { 0.0 } else { -gg / (h + p.l2 as f64) };
    let m = p.mds as f64;
    if m > 0.0 {
        w.clamp(-m, m)
    } else {
        w
    }
}
pub fn c18(x: &mut Ctx) -> VR {
    let kind = kind_for(x, &[Kind::Exact, Kind::ExactGoss, Kind::General, Kind::General, Kind::Small, Kind::Mono]);
    let mut c = x.case(kind);
    if !matches!(kind, Kind::Exact | Kind::ExactGoss) {
        c.par.sample = 0; // the draw must be known
    }
    let tr = c.train();
    let ev = c.eval_sets();
    let mut r = x.r(18);
    let mut b = c.par.build();
    // some history first
    if r.p(0.3) {
        let _ = fit(&mut b, &c.set(3, Some(9)), &[]);
    }
    in_mode(r.n(3), 1 + r.n(5) as usize, || fit(&mut b, &tr, &ev)).expect("fit");
    x.seen(&b);
    let want = if c.par.init_bs {
        let sw: f64 = tr.w.iter().sum();
        let sy: f64 = tr.w.iter().zip(&tr.y).map(|(w, y)| w * y).sum();
        if c.par.logloss {
            (sy / (sw - sy)).ln()
        } else {
            sy / sw
        }
    } else {
        c.par.base_score
    };
    ensure!(close(b.base_score, want, 1e-9, 1e-12), "base-score", "base_score is {}, expected {want} (initialise: {})", b.base_score, c.par.init_bs);
    let p = &c.par;
    let lr = p.lr as f64;
    let mut yhat = vec![b.base_score; tr.rows];
    for (k, t) in b.trees.iter().enumerate() {
        let (g, h) = grads(p.logloss, &tr.y, &yhat, &tr.w);
        let mult = match kind {
            Kind::Exact | Kind::ExactGoss => match decode(kind, t.nodes[0].hessian_sum, tr.rows) {
                Some(m) => m,
                None => return viol("root-cover", format!("tree {k}: root cover {} is not a sum of row weights", t.nodes[0].hessian_sum)),
            },
            _ => vec![1.0; tr.rows],
        };
        let rows = node_rows(t, &tr, b.missing);
        let gs: Vec<f64> = rows.iter().map(|v| v.iter().map(|i| mult[*i] * g[*i] as f64).sum()).collect();
        let hs: Vec<f64> = rows.iter().map(|v| v.iter().map(|i| mult[*i] * h[*i] as f64).sum()).collect();
        let absg: f64 = (0..tr.rows).map(|i| mult[i] * g[i].abs() as f64).sum();
        let relerr = if tr.rows > 150 { 2e-4 } else { 1e-5 };
        let (tg, th) = (relerr * absg + 1e-7, relerr * hs[0] + 1e-7);
        let n = t.nodes.len();
        let mut bounds = vec![(f64::NEG_INFINITY, f64::INFINITY); n];
        let mut parent = vec![usize::MAX; n];
        let w = |i: usize| t.nodes[i].weight_value as f64 / lr;
        let avgleaf = p.cmb && p.mnt == 2;
        let constrained = p.constraints.iter().any(|v| v.1 != 0);
        for i in 0..n {
            let nd = &t.nodes[i];
            if nd.is_leaf {
                continue;
            }
            let (l, rr) = (nd.left_child, nd.right_child);
            parent[l] = i;
            parent[rr] = i;
            let cst = p.constraints.iter().find(|v| v.0 == nd.split_feature).map(|v| v.1).unwrap_or(0);
            let mid = (w(l) + w(rr)) / 2.0;
            let (lo, hi) = bounds[i];
            let (bl, br) = match cst {
                1 => ((lo, mid), (mid, hi)),
                -1 => ((mid, hi), (lo, mid)),
                _ => ((lo, hi), (lo, hi)),
            };
            bounds[l] = bl;
            bounds[rr] = br;
            if nd.missing_node != l && nd.missing_node != rr {
                parent[nd.missing_node] = i;
                bounds[nd.missing_node] = (lo, hi);
            }
        }
        let exact_h = !p.logloss && tr.w.iter().all(|v| v.fract() == 0.0);
        for i in 0..n {
            let nd = &t.nodes[i];
            let pa = parent[i];
            let tol = (tg + (th * w(i).abs())) / (hs[i] - th + p.l2 as f64).max(1e-9) + 1e-6 * w(i).abs() + 1e-30;
            // the bounds in force when this node's weight was set are its parent's
            let (lo, hi) = if pa == usize::MAX { (f64::NEG_INFINITY, f64::INFINITY) } else { bounds[pa] };
            let step = newton(p, gs[i], hs[i]).clamp(lo.min(hi), hi.max(lo));
            let is_missing_child = pa != usize::MAX && t.nodes[pa].missing_node == i && t.nodes[pa].left_child != i && t.nodes[pa].right_child != i;
            x.c("node_weights", 1);
            if is_missing_child {
                if !nd.is_leaf && avgleaf {
                    continue;
                }
                let (l, rr) = (t.nodes[pa].left_child, t.nodes[pa].right_child);
                let ok = match p.mnt {
                    1 => nd.weight_value == t.nodes[pa].weight_value,
                    3 => {
                        let (hl, hr) = (t.nodes[l].hessian_sum as f64, t.nodes[rr].hessian_sum as f64);
                        let a = (w(l) * hl + w(rr) * hr) / (hl + hr);
                        (w(i) - a).abs() <= 1e-5 * (w(l).abs() + w(rr).abs()) + 1e-30
                    }
                    2 => nd.weight_value == t.nodes[pa].weight_value,
                    _ => {
                        let par_ok = (w(i) - w(pa)).abs() <= 1e-6 * w(pa).abs() + 1e-30;
                        if rows[i].iter().all(|r| mult[*r] == 0.0) {
                            // rounding left over from subtracting histograms may look like missing mass,
                            // except where hessian sums are exact
                            par_ok || !exact_h
                        } else {
                            (w(i) - step).abs() <= tol || (par_ok && (gs[i].abs() <= tg || hs[i].abs() <= th))
                        }
                    }
                };
                ensure!(ok, "missing-weight", "tree {k} node {i}: missing node weight {} (treatment {}), parent {}, Newton step {step}, {} rows", w(i), p.mnt, w(pa), rows[i].len());
                continue;
            }
            if avgleaf && (!nd.is_leaf || constrained || p.force) {
                continue;
            }
            let ok = (w(i) - step).abs() <= tol || (p.force && p.cmb && pa != usize::MAX && nd.weight_value == t.nodes[pa].weight_value);
            ensure!(
                ok,
                "leaf-weight",
                "tree {k} node {i} (leaf: {}): weight/lr {} but the Newton step over its {} rows is {step} (G {} H {} tolerance {tol:e})",
                nd.is_leaf,
                w(i),
                rows[i].len(),
                gs[i],
                hs[i]
            );
        }
        if avgleaf {
            // internal nodes and missing leaves are cover-weighted averages of what is below
            fn avg(t: &Tree, i: usize, bad: &mut Option<String>) -> f64 {
                let n = &t.nodes[i];
                if n.is_leaf {
                    return n.weight_value as f64;
                }
                let (l, r, m) = (n.left_child, n.right_child, n.missing_node);
                let mut num = avg(t, l, bad) * t.nodes[l].hessian_sum as f64 + avg(t, r, bad) * t.nodes[r].hessian_sum as f64;
                let mut den = t.nodes[l].hessian_sum as f64 + t.nodes[r].hessian_sum as f64;
                if !t.nodes[m].is_leaf {
                    num += avg(t, m, bad) * t.nodes[m].hessian_sum as f64;
                    den += t.nodes[m].hessian_sum as f64;
                }
                let a = num / den;
                if !close(a, n.weight_value as f64, 1e-4, 1e-7) {
                    *bad = Some(format!("node {i} weight {} is not the average {a} of what is below it", n.weight_value));
                }
                a
            }
            let mut bad = None;
            avg(t, 0, &mut bad);
            if let Some(m) = bad {
                return viol("average-leaf", format!("tree {k}: {m}"));
            }
        }
        for i in 0..tr.rows {
            yhat[i] += t.nodes[route(t, &tr.row(i), b.missing)].weight_value as f64;
        }
    }
    let mut bb = b;
    bb.prediction_iteration = None;
    let pr = bb.predict(&tr.m(), false);
    for i in 0..tr.rows {
        ensure!(close(pr[i], yhat[i], 1e-9, 1e-9), "train-predict", "row {i}: training saw {} but the model predicts {}", yhat[i], pr[i]);
    }
    Ok(())
}

// ------------------------------------------------------------------ C11
fn better(best: f64, m: f64, maximise: bool) -> bool {
    match (best.is_nan(), m.is_nan()) {
        (_, true) => false,
        (true, false) => true,
        _ => {
            if maximise {
                m > best
            } else {
                m < best
            }
        }
    }
}
pub fn c11(x: &mut Ctx) -> VR {
    let mut c = x.case(Kind::Stop);
    let mut r = x.r(11);
    if r.p(0.2) {
        c.par.esr = None;
    }
    if r.p(0.1) {
        c.n_eval = 0;
    }
    if r.p(0.15) {
        c.par.lr = 1.0;
        c.par.max_depth = 10;
    }
    if r.p(0.1) {
        c.par.esr = Some(r.pick(&[0usize, 10, 100]));
    }
    if r.p(0.1) {
        // nothing to learn: flat metric
        c.par.gamma = 1e9;
        c.par.init_bs = true;
    }
    let tr = c.train();
    let ev = c.eval_sets();
    let mut b = c.par.build();
    if r.p(0.3) {
        let e2: Vec<Set> = (0..r.n(3)).map(|k| c.set(40 + k, Some(6))).collect();
        fit(&mut b, &c.set(3, Some(12)), &e2).expect("fit");
    }
    if r.p(0.2) {
        install_logger();
        b.log_iterations = 1 + r.n(3) as usize;
    }
    in_mode(r.n(3), 1 + r.n(5) as usize, || fit(&mut b, &tr, &ev)).expect("fit");
    x.seen(&b);
    let p = &c.par;
    if ev.is_empty() {
        ensure!(b.evaluation_history.is_none() && b.best_iteration.is_none() && b.prediction_iteration.is_none(), "no-eval", "no evaluation sets, but history/best/prediction iteration are set");
        ensure!(b.trees.len() == p.iterations, "n-trees", "{} trees instead of {}", b.trees.len(), p.iterations);
        return Ok(());
    }
    let h = match &b.evaluation_history {
        Some(h) => h,
        None => {
            ensure!(p.iterations == 0, "no-history", "no evaluation history");
            return Ok(());
        }
    };
    ensure!(h.rows == b.trees.len() && h.cols == ev.len() && h.data.len() == h.rows * h.cols, "history-shape", "history is {}x{} ({} values) for {} trees and {} sets", h.rows, h.cols, h.data.len(), b.trees.len(), ev.len());
    let id = p.metric_id();
    for (j, e) in ev.iter().enumerate() {
        let mut yh = vec![b.base_score; e.rows];
        for (i, t) in b.trees.iter().enumerate() {
            for q in 0..e.rows {
                yh[q] += t.nodes[route(t, &e.row(q), b.missing)].weight_value as f64;
            }
            // AUC of a target that is not 0/1 has no meaning of its own: there only consistency is required
            let m = if id == 0 && e.y.iter().any(|v| *v != 0.0 && *v != 1.0) { forust_ml::metric::metric_callables(&forust_ml::metric::Metric::AUC).0(&e.y, &yh, &e.w) } else { ref_metric(id, &e.y, &yh, &e.w) };
            let got = *h.get(i, j);
            x.c("history_entries", 1);
            if got.is_nan() {
                x.c("nan_metrics", 1);
            }
            ensure!(close(got, m, 1e-8, 1e-10), "history-value", "history[{i}][{j}] is {got}, the metric of the first {} trees is {m}", i + 1);
        }
    }
    let last = ev.len() - 1;
    match p.esr {
        None => {
            ensure!(b.best_iteration.is_none() && b.prediction_iteration.is_none(), "best-unset", "no early stopping, but best iteration {:?} prediction iteration {:?}", b.best_iteration, b.prediction_iteration);
            ensure!(b.trees.len() == p.iterations, "n-trees", "{} trees instead of {}", b.trees.len(), p.iterations);
        }
        Some(rounds) => {
            let mut best: Option<(usize, f64)> = None;
            let mut stop = None;
            for i in 0..h.rows {
                let m = *h.get(i, last);
                match best {
                    None => best = Some((i, m)),
                    Some((bi, bm)) => {
                        if better(bm, m, id == 0) {
                            best = Some((i, m))
                        } else if i - bi >= rounds {
                            stop = Some(i);
                            break;
                        }
                    }
                }
            }
            let want_trees = stop.map(|s| s + 1).unwrap_or(p.iterations);
            if stop.is_some() && want_trees < p.iterations {
                x.c("stopped_early", 1);
            }
            let hist: Vec<f64> = (0..h.rows).map(|i| *h.get(i, last)).collect();
            ensure!(b.trees.len() == want_trees, "stop", "{} trees trained, expected {want_trees} of {} (stopping rounds {rounds}, metric history {hist:?})", b.trees.len(), p.iterations);
            let bi = best.map(|v| v.0);
            ensure!(b.best_iteration == bi, "best", "best_iteration {:?}, expected {bi:?} (metric history {hist:?})", b.best_iteration);
            ensure!(b.prediction_iteration == bi.map(|v| v + 1), "prediction-iteration", "prediction_iteration {:?} for best iteration {bi:?}", b.prediction_iteration);
            let pr = c.probe(0, 6);
            let want = ref_predict(&b, b.base_score, &pr, bi.map(|v| v + 1).unwrap_or(0));
            let got = b.predict(&pr.m(), r.p(0.5));
            for q in 0..pr.rows {
                ensure!(close(want[q], got[q], 1e-9, 1e-9), "predict-trees", "prediction {} is not that of the first {:?} trees ({})", got[q], b.prediction_iteration, want[q]);
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C12
pub fn c12(x: &mut Ctx) -> VR {
    let kind = kind_for(x, &[Kind::General, Kind::General, Kind::Small, Kind::Counts, Kind::Mono]);
    let mut c = x.case(kind);
    let mut r = x.r(12);
    let redraw = r.p(0.06) && c.ov.cols.is_none();
    let mut tr = c.train();
    let ev;
    if redraw {
        c.cols = 8;
        c.rows = 60;
        c.miss_rate = 0.0;
        c.n_eval = 0;
        c.par.colsample = 0.5;
        c.par.iterations = 60;
        c.par.max_depth = 4;
        c.par.max_leaves = usize::MAX;
        c.par.gamma = 0.0;
        c.par.l1 = 0.0;
        c.par.mds = 0.0;
        c.par.l2 = 1.0;
        c.par.init_bs = true;
        c.par.mlw = 1.0;
        c.par.logloss = false;
        c.par.esr = None;
        c.par.constraints.clear();
        c.par.force = false;
        c.par.nbins = 256;
        c.par.lr = 0.05;
        c.par.sample = c.par.sample.min(1);
        c.par.subsample = 0.8;
        tr = c.train();
        for j in 0..8 {
            for i in 0..60 {
                tr.x[j * 60 + i] = rt::hf(c.seed, 400 + j as u64, i as u64) + 2.0;
            }
        }
        for i in 0..60 {
            tr.y[i] = rt::hf(c.seed, 500, i as u64) * 20.0;
            tr.w[i] = 1.0;
        }
        ev = vec![];
    } else {
        ev = c.eval_sets();
    }
    let p = c.par.clone();
    let mut b = p.build();
    in_mode(r.n(3), 1 + r.n(5) as usize, || fit(&mut b, &tr, &ev)).expect("fit");
    x.seen(&b);
    let mut used_all = BTreeSet::new();
    let mut draws: Vec<BTreeSet<usize>> = vec![];
    let amount = (p.colsample * tr.cols as f64).floor() as usize;
    let mut yhat = vec![b.base_score; tr.rows];
    for (k, t) in b.trees.iter().enumerate() {
        let n = t.nodes.len();
        ensure!(n >= 1, "shape", "tree {k} has no nodes");
        let mut seen = vec![0usize; n];
        let mut depth = vec![0usize; n];
        let mut stack = vec![0];
        let mut leaves = 0;
        let mut feats = BTreeSet::new();
        let rows = node_rows(t, &tr, b.missing);
        let (g, h) = grads(p.logloss, &tr.y, &yhat, &tr.w);
        seen[0] = 1;
        while let Some(i) = stack.pop() {
            let nd = &t.nodes[i];
            ensure!(nd.num == i, "shape", "tree {k}: node {i} is numbered {}", nd.num);
            ensure!(nd.depth == depth[i], "shape", "tree {k} node {i}: recorded depth {} but sits at {}", nd.depth, depth[i]);
            ensure!(depth[i] <= p.max_depth, "max-depth", "tree {k} node {i}: depth {} exceeds max_depth {}", depth[i], p.max_depth);
            if p.mds > 0.0 {
                ensure!(nd.weight_value.abs() as f64 <= p.mds as f64 * p.lr as f64 * (1.0 + 1e-5), "max-delta-step", "tree {k} node {i}: weight {} exceeds max_delta_step {} x learning rate {}", nd.weight_value, p.mds, p.lr);
            }
            if nd.is_leaf {
                leaves += 1;
                continue;
            }
            feats.insert(nd.split_feature);
            ensure!(nd.split_feature < tr.cols, "shape", "tree {k} node {i}: split feature {}", nd.split_feature);
            let (l, rr, m) = (nd.left_child, nd.right_child, nd.missing_node);
            let branch = m != l && m != rr;
            ensure!(branch == p.cmb, "missing-branch", "tree {k} node {i}: missing branch {branch}, configured {}", p.cmb);
            let kids: Vec<usize> = if branch { vec![l, rr, m] } else { vec![l, rr] };
            for q in kids {
                ensure!(q < n && q != i && seen[q] == 0, "shape", "tree {k} node {i}: bad child {q}");
                seen[q] = 1;
                depth[q] = depth[i] + 1;
                stack.push(q);
            }
            if p.force && p.cmb && p.mnt != 2 {
                let (a, z) = (t.nodes[l].weight_value, t.nodes[rr].weight_value);
                ensure!(a.min(z) <= nd.weight_value && nd.weight_value <= a.max(z), "bound-parent", "tree {k} node {i}: weight {} is not between those of its children, {a} and {z}", nd.weight_value);
                x.c("parents_bounded", 1);
            }
            ensure!(t.nodes[l].hessian_sum >= p.mlw && t.nodes[rr].hessian_sum >= p.mlw, "min-leaf-weight", "tree {k} node {i}: children cover {} / {} below min_leaf_weight {}", t.nodes[l].hessian_sum, t.nodes[rr].hessian_sum, p.mlw);
            ensure!(nd.split_gain > p.gamma - 1e-6 * p.gamma.abs(), "gamma", "tree {k} node {i}: split gain {} does not exceed gamma {}", nd.split_gain, p.gamma);
            if p.sample == 0 && !(p.cmb && p.mnt == 2) && !p.constraints.iter().any(|v| v.1 != 0) && !p.force && p.l1 == 0.0 && p.mds == 0.0 {
                // the gain really achieved, recomputed from the rows
                let sum = |v: &Vec<usize>| (v.iter().map(|i| g[*i] as f64).sum::<f64>(), v.iter().map(|i| h[*i] as f64).sum::<f64>());
                let gain = |(g, h): (f64, f64), w: f64| -(2.0 * g * w + (h + p.l2 as f64) * w * w);
                let w = |i: usize| t.nodes[i].weight_value as f64 / p.lr as f64;
                if !(p.cmb && p.mnt == 1 && i != 0) {
                    let mut tot = gain(sum(&rows[l]), w(l)) + gain(sum(&rows[rr]), w(rr)) - gain(sum(&rows[i]), w(i));
                    if branch {
                        tot += gain(sum(&rows[m]), w(m));
                    }
                    let ag: f64 = rows[0].iter().map(|i| g[*i].abs() as f64).sum();
                    let tol = 1e-3 * (ag * ag / (p.mlw as f64 + p.l2 as f64)) / (tr.rows as f64).sqrt() + 2e-3 * nd.split_gain.abs() as f64 + 1e-4;
                    x.c("gains_recomputed", 1);
                    ensure!(tot > p.gamma as f64 - tol, "gamma-real", "tree {k} node {i}: the split really gains {tot}, gamma is {} (tolerance {tol})", p.gamma);
                }
            }
            if p.cmb && (!p.allow_missing_splits || p.term.contains(&nd.split_feature)) {
                ensure!(t.nodes[m].is_leaf, "terminate-missing", "tree {k} node {i}: the missing child {m} of feature {} was split further", nd.split_feature);
                x.c("terminated_missing", 1);
            }
            if !p.cmb && !p.allow_missing_splits {
                for q in [l, rr] {
                    let ok = rows[q].iter().any(|i| !is_miss(tr.at(*i, nd.split_feature), b.missing));
                    ensure!(ok, "missing-only-split", "tree {k} node {i}: child {q} holds only rows missing feature {}", nd.split_feature);
                }
                x.c("no_missing_splits", 1);
            }
        }
        ensure!(seen.iter().all(|v| *v == 1), "shape", "tree {k}: unreachable nodes");
        ensure!(leaves <= p.max_leaves.max(1), "max-leaves", "tree {k}: {leaves} leaves exceed max_leaves {} (missing branch: {})", p.max_leaves, p.cmb);
        if p.max_leaves < usize::MAX && leaves + 2 >= p.max_leaves {
            x.c("at_max_leaves", 1);
        }
        if p.colsample != 1.0 {
            ensure!(feats.len() <= amount, "colsample", "tree {k}: uses {} features, {} allowed", feats.len(), amount);
        }
        used_all.extend(feats.iter().copied());
        draws.push(feats);
        for i in 0..tr.rows {
            yhat[i] += t.nodes[route(t, &tr.row(i), b.missing)].weight_value as f64;
        }
    }
    ensure!(b.trees.len() <= p.iterations, "iterations", "{} trees for {} iterations", b.trees.len(), p.iterations);
    if redraw {
        x.c("column_redraws", b.trees.len() as u64);
        ensure!(used_all.len() == 8, "column-redraw", "{} trees with 4 of 8 noise columns each used only columns {used_all:?}", b.trees.len());
        // two draws agree once in 70
        let rep = draws.windows(2).filter(|q| q[0].len() == 4 && q[0] == q[1]).count();
        ensure!(rep < 15, "column-redraw", "{rep} of {} trees used the same 4 of 8 noise columns as the tree before", draws.len());
    }
    Ok(())
}

// ------------------------------------------------------------------ C13
pub fn c13(x: &mut Ctx) -> VR {
    let mut c = x.case(Kind::Mono);
    let mut r = x.r(13);
    if r.p(0.5) {
        c.par.max_depth = c.par.max_depth.max(5);
        c.par.max_leaves = usize::MAX;
        c.par.mlw = 0.1;
        c.par.gamma = 0.0;
    }
    let tr = c.train();
    let ev = c.eval_sets();
    let mut b = c.par.build();
    in_mode(r.n(3), 1 + r.n(5) as usize, || fit(&mut b, &tr, &ev)).expect("fit");
    x.seen(&b);
    if r.p(0.2) {
        b = GradientBooster::from_json(&b.json_dump().unwrap()).expect("reload");
    }
    if r.p(0.3) && !b.trees.is_empty() {
        let k = 1 + r.n(b.trees.len() as u64) as usize;
        b = use_trees(b, k);
    }
    let scale: f64 = b.trees.iter().map(|t| t.nodes.iter().map(|n| n.weight_value.abs()).fold(0.0f32, f32::max) as f64).sum::<f64>() + b.base_score.abs();
    for (f, dir) in c.par.constraints.iter().filter(|v| v.1 != 0) {
        if *f >= c.cols {
            continue;
        }
        // all values at which any tree can change its mind, and points on either side
        let mut vals: Vec<f64> = b.trees.iter().flat_map(|t| t.nodes.iter().filter(|n| !n.is_leaf && n.split_feature == *f).map(|n| n.split_value)).collect();
        vals.sort_by(|a, b| a.total_cmp(b));
        vals.dedup();
        if vals.len() > 60 {
            let st = r.n(3) as usize;
            vals = vals.into_iter().skip(st).step_by(3).collect();
        }
        vals.push(1e300);
        vals.insert(0, -1e300);
        vals.retain(|v| !is_miss(*v, b.missing));
        // 12 base rows: training and fresh
        for q in 0..12 {
            let mut row = if q % 2 == 0 && tr.rows > 0 { tr.row(r.n(tr.rows as u64) as usize) } else { c.probe(q, 1).row(0) };
            // mix: all other features random
            for j in 0..c.cols {
                if r.p(0.3) && j != *f {
                    let o = r.n(tr.rows as u64) as usize;
                    row[j] = tr.at(o, j);
                }
            }
            let n = vals.len();
            let mut xs = vec![0.0; n * c.cols];
            for j in 0..c.cols {
                for i in 0..n {
                    xs[j * n + i] = if j == *f { vals[i] } else { row[j] };
                }
            }
            let pr = b.predict(&Matrix::new(&xs, n, c.cols), false);
            for i in 1..n {
                x.c("pairs", 1);
                let d = (pr[i] - pr[i - 1]) * *dir as f64;
                ensure!(d >= -2e-6 * scale, "monotone", "feature {f} must be {}, but raising it from {} to {} moves the prediction from {} to {} (row {row:?})", if *dir > 0 { "increasing" } else { "decreasing" }, vals[i - 1], vals[i], pr[i - 1], pr[i]);
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C14
fn ref_pd(t: &Tree, i: usize, f: usize, v: f64, missing: f64) -> f64 {
    let n = &t.nodes[i];
    if n.is_leaf {
        return n.weight_value as f64;
    }
    if n.split_feature == f {
        let ch = if is_miss(v, missing) {
            n.missing_node
        } else if v < n.split_value {
            n.left_child
        } else {
            n.right_child
        };
        return ref_pd(t, ch, f, v, missing);
    }
    let mut kids = vec![n.left_child, n.right_child];
    if n.missing_node != n.left_child && n.missing_node != n.right_child {
        kids.push(n.missing_node);
    }
    let tot: f64 = kids.iter().map(|k| t.nodes[*k].hessian_sum as f64).sum();
    kids.iter().map(|k| ref_pd(t, *k, f, v, missing) * t.nodes[*k].hessian_sum as f64 / tot).sum()
}
fn ref_avg(t: &Tree, i: usize, out: &mut Vec<f64>) -> f64 {
    let n = &t.nodes[i];
    let w = if n.is_leaf {
        n.weight_value as f64
    } else {
        let mut kids = vec![n.left_child, n.right_child];
        if n.missing_node != n.left_child && n.missing_node != n.right_child {
            kids.push(n.missing_node);
        }
        kids.iter().map(|k| ref_avg(t, *k, out) * t.nodes[*k].hessian_sum as f64).sum::<f64>() / n.hessian_sum as f64
    };
    out[i] = w;
    w
}
/// The expected value of tree `t` when only the features in `known` follow the row, the others being
/// averaged by cover.
fn ref_expect(t: &Tree, i: usize, row: &[f64], missing: f64, known: &dyn Fn(usize) -> bool) -> f64 {
    let n = &t.nodes[i];
    if n.is_leaf {
        return n.weight_value as f64;
    }
    let (l, r, m) = (n.left_child, n.right_child, n.missing_node);
    if known(n.split_feature) {
        let v = row[n.split_feature];
        let ch = if is_miss(v, missing) { m } else if v < n.split_value { l } else { r };
        return ref_expect(t, ch, row, missing, known);
    }
    let mut kids = vec![l, r];
    if m != l && m != r {
        kids.push(m);
    }
    kids.iter().map(|k| ref_expect(t, *k, row, missing, known) * t.nodes[*k].hessian_sum as f64).sum::<f64>() / n.hessian_sum as f64
}
/// Shapley values by definition; false if the tree uses too many features to enumerate
fn ref_shapley(t: &Tree, row: &[f64], missing: f64, avg: &[f64], e: &mut [f64]) -> bool {
    let f: Vec<usize> = t.nodes.iter().filter(|n| !n.is_leaf).map(|n| n.split_feature).collect::<BTreeSet<_>>().into_iter().collect();
    let k = f.len();
    if k > 5 {
        return false;
    }
    let bias = e.len() - 1;
    e[bias] += avg[0];
    let v: Vec<f64> = (0..1usize << k).map(|s| ref_expect(t, 0, row, missing, &|q| f.iter().position(|u| *u == q).map_or(false, |z| s >> z & 1 == 1))).collect();
    let fact = |n: usize| (1..=n).map(|q| q as f64).product::<f64>();
    for z in 0..k {
        for s in 0..1usize << k {
            if s >> z & 1 == 0 {
                let c = s.count_ones() as usize;
                e[f[z]] += fact(c) * fact(k - c - 1) / fact(k) * (v[s | 1 << z] - v[s]);
            }
        }
    }
    true
}
/// a tree as text names every node once, with its numbers
fn text_matches(t: &Tree, text: &str) -> Result<(), String> {
    let mut seen = vec![0; t.nodes.len()];
    for line in text.lines().filter(|l| !l.trim().is_empty()) {
        let bad = || format!("line `{line}`");
        let (num, rest) = line.trim().split_once(':').ok_or_else(bad)?;
        let i: usize = num.trim().parse().map_err(|_| bad())?;
        let n = t.nodes.get(i).ok_or_else(bad)?;
        seen[i] += 1;
        let field = |k: &str| -> Result<String, String> {
            let at = rest.find(&format!("{k}=")).ok_or_else(bad)?;
            Ok(rest[at + k.len() + 1..].split([',', ' ']).next().unwrap_or("").to_string())
        };
        let num = |k: &str| -> Result<f64, String> { field(k)?.parse::<f32>().map(|v| v as f64).map_err(|_| bad()) };
        let mut ok = num("cover")? == n.hessian_sum as f64;
        if n.is_leaf {
            ok &= num("leaf")? == n.weight_value as f64;
        } else {
            ok &= num("gain")? == n.split_gain as f64;
            ok &= num("yes")? == n.left_child as f64 && num("no")? == n.right_child as f64 && num("missing")? == n.missing_node as f64;
            let (a, z) = rest.trim().trim_start_matches('[').split_once(']').ok_or_else(bad)?.0.split_once('<').ok_or_else(bad)?;
            ok &= a.trim().parse::<usize>().ok() == Some(n.split_feature) && z.trim().parse::<f64>().ok() == Some(n.split_value);
        }
        if !ok {
            return Err(format!("line `{line}`, but the node has is_leaf {} feature {} value {} children {}/{}/{} weight {} gain {} cover {}", n.is_leaf, n.split_feature, n.split_value, n.left_child, n.right_child, n.missing_node, n.weight_value, n.split_gain, n.hessian_sum));
        }
    }
    if seen.iter().any(|v| *v != 1) {
        return Err(format!("nodes are listed {seen:?} times"));
    }
    Ok(())
}
fn check_views(x: &mut Ctx, c: &Case, b: &GradientBooster, pr: &Set, r: &mut R, when: &str) -> VR {
    let m = pr.m();
    let np = n_pred(b);
    let trees = &b.trees[..np];
    let cols = pr.cols;
    let par = r.p(0.5);
    let scale: f64 = trees.iter().map(|t| t.nodes.iter().map(|n| n.weight_value.abs()).fold(0.0f32, f32::max) as f64).sum::<f64>() + b.base_score.abs() + 1e-12;
    let preds = b.predict(&m, par);
    let leaves = b.predict_leaf_indices(&m);
    ensure!(preds.len() == pr.rows && leaves.len() == pr.rows * np, "view-shape", "{when}: {} predictions, {} leaf indices for {} rows and {np} trees", preds.len(), leaves.len(), pr.rows);
    let want = ref_predict(b, b.base_score, pr, np);
    for i in 0..pr.rows {
        let row = pr.row(i);
        ensure!(close(preds[i], want[i], 0.0, 1e-11 * scale), "predict", "{when}: row {i}: predict gives {}, base score plus the leaves of {np} trees give {} (row {row:?})", preds[i], want[i]);
        let mut s = b.base_score;
        for (k, t) in trees.iter().enumerate() {
            let l = leaves[k * pr.rows + i];
            ensure!(l < t.nodes.len() && t.nodes[l].is_leaf && l == route(t, &row, b.missing), "leaf-indices", "{when}: row {i} tree {k}: predict_leaf_indices says {l}");
            s += t.nodes[l].weight_value as f64;
        }
        ensure!(close(preds[i], s, 0.0, 1e-11 * scale), "leaf-indices", "{when}: row {i}: leaves named by predict_leaf_indices sum to {s}, predict gives {}", preds[i]);
    }
    x.c("rows_checked", pr.rows as u64);
    for (k, t) in b.trees.iter().enumerate() {
        if let Err(e) = text_matches(t, &format!("{t}")) {
            return viol("text", format!("{when}: tree {k} as text: {e}"));
        }
    }
    let avgs: Vec<Vec<f64>> = trees
        .iter()
        .map(|t| {
            let mut v = vec![0.0; t.nodes.len()];
            ref_avg(t, 0, &mut v);
            v
        })
        .collect();
    for k in METHODS {
        if k == "ProbabilityChange" && !c.par.logloss {
            continue;
        }
        let con = b.predict_contributions(&m, method(k), par);
        ensure!(con.len() == pr.rows * (cols + 1), "view-shape", "{when}: {k} returned {} values", con.len());
        for i in 0..pr.rows {
            let cr = &con[i * (cols + 1)..(i + 1) * (cols + 1)];
            let sum: f64 = cr.iter().sum();
            match k {
                "Weight" | "Average" => ensure!(close(sum, want[i], 0.0, 1e-9 * scale), "contribution-sum", "{when}: row {i}: {k} contributions sum to {sum}, the prediction is {}", want[i]),
                "Shapley" => {
                    let e = (sum - want[i]).abs() / scale;
                    let old = *x.cnt.get("_max_shap_err_e12").unwrap_or(&0);
                    x.cnt.insert("_max_shap_err_e12".into(), old.max((e * 1e12) as u64));
                    ensure!(e < 1e-3, "contribution-sum", "{when}: row {i}: Shapley contributions sum to {sum}, the prediction is {}", want[i])
                }
                "ProbabilityChange" => ensure!(close(sum, sigmoid(want[i]), 0.0, 1e-9 * (1.0 + np as f64)), "contribution-sum", "{when}: row {i}: ProbabilityChange contributions sum to {sum}, the probability is {}", sigmoid(want[i])),
                _ => {}
            }
            // feature by feature
            let row = pr.row(i);
            let mut e = vec![0.0; cols + 1];
            e[cols] = if k == "ProbabilityChange" { sigmoid(b.base_score) } else { b.base_score };
            let mut lo = b.base_score;
            if k == "Shapley" && (i >= 2 || pr.rows * trees.len() > 600) {
                continue;
            }
            let mut exact = true;
            for (ti, t) in trees.iter().enumerate() {
                let wt = |n: usize| t.nodes[n].weight_value as f64;
                let p = path(t, &row, b.missing);
                match k {
                    "Weight" | "Average" => {
                        let val = |n: usize| if k == "Weight" { wt(n) } else { avgs[ti][n] };
                        e[cols] += val(0);
                        for w in p.windows(2) {
                            e[t.nodes[w[0]].split_feature] += val(w[1]) - val(w[0]);
                        }
                    }
                    "ProbabilityChange" => {
                        e[cols] += sigmoid(lo + wt(0)) - sigmoid(lo);
                        for w in p.windows(2) {
                            e[t.nodes[w[0]].split_feature] += sigmoid(lo + wt(w[1])) - sigmoid(lo + wt(w[0]));
                        }
                        lo += wt(*p.last().unwrap());
                    }
                    "Shapley" => exact &= ref_shapley(t, &row, b.missing, &avgs[ti], &mut e),
                    _ => {
                        for w in p.windows(2) {
                            let n = &t.nodes[w[0]];
                            let (l, rr) = (n.left_child, n.right_child);
                            if n.missing_node == w[1] && n.missing_node != l && n.missing_node != rr {
                                continue; // a branch of its own for missing values counts as neutral
                            }
                            let (hl, hr) = (t.nodes[l].hessian_sum as f64, t.nodes[rr].hessian_sum as f64);
                            let to = match k {
                                "BranchDifference" => wt(if w[1] == l { rr } else { l }),
                                "MidpointDifference" => (wt(l) * hl + wt(rr) * hr) / (hl + hr),
                                _ if hl == hr => wt(w[1]),
                                _ => wt(if hl > hr { l } else { rr }),
                            };
                            e[n.split_feature] += wt(w[1]) - to;
                        }
                    }
                }
            }
            if !exact {
                continue;
            }
            let tol = match k {
                "Shapley" => 2e-4 * scale,
                "ProbabilityChange" => 1e-9 * (1.0 + np as f64),
                _ => 1e-6 * scale,
            };
            for j in 0..=cols {
                ensure!(close(cr[j], e[j], 0.0, tol), "contribution", "{when}: row {i}: {k} contribution of {} is {}, expected {}", if j == cols { "the bias".into() } else { format!("feature {j}") }, cr[j], e[j]);
            }
            x.c(if k == "Shapley" { "shapley_exact" } else { "contributions_exact" }, 1);
        }
        // batches: the same rows in another order, repeated, or alone
        if pr.rows > 0 && r.p(0.6) {
            let n = 1 + r.n(6) as usize;
            let idx: Vec<usize> = (0..n).map(|_| r.n(pr.rows as u64) as usize).collect();
            let sub = pr.take(&idx);
            let c2 = b.predict_contributions(&sub.m(), method(k), r.p(0.5));
            for (q, i) in idx.iter().enumerate() {
                ensure!(bits(&c2[q * (cols + 1)..(q + 1) * (cols + 1)]) == bits(&con[i * (cols + 1)..(i + 1) * (cols + 1)]), "batch", "{when}: {k} contributions of a row depend on the other rows of the call");
            }
            x.c("batches", 1);
        }
    }
    if pr.rows > 0 {
        let n = 1 + r.n(8) as usize;
        let idx: Vec<usize> = (0..n).map(|_| r.n(pr.rows as u64) as usize).collect();
        let sub = pr.take(&idx);
        let p2 = b.predict(&sub.m(), r.p(0.5));
        let l2 = b.predict_leaf_indices(&sub.m());
        for (q, i) in idx.iter().enumerate() {
            ensure!(bits(&[p2[q]]) == bits(&[preds[*i]]), "batch", "{when}: the prediction of a row depends on the other rows of the call");
            for k in 0..np {
                ensure!(l2[k * n + q] == leaves[k * pr.rows + i], "batch", "{when}: the leaf of a row depends on the other rows of the call");
            }
        }
    }
    for _ in 0..5 {
        let f = r.n(cols as u64) as usize;
        let v = if pr.rows > 0 { pr.at(r.n(pr.rows as u64) as usize, f) } else { 0.0 };
        let w = b.base_score + trees.iter().map(|t| ref_pd(t, 0, f, v, b.missing)).sum::<f64>();
        let g = b.value_partial_dependence(f, v);
        x.c("pd_checked", 1);
        ensure!(close(g, w, 0.0, 2e-5 * scale), "partial-dependence", "{when}: partial dependence of feature {f} at {v} is {g}, the cover-weighted average is {w}");
    }
    // importances
    let mut st: BTreeMap<usize, (f64, f64, f64)> = BTreeMap::new();
    for t in &b.trees {
        for n in t.nodes.iter().filter(|n| !n.is_leaf) {
            let e = st.entry(n.split_feature).or_default();
            e.0 += 1.0;
            e.1 += n.split_gain as f64;
            e.2 += n.hessian_sum as f64;
        }
    }
    for k in IMPS {
        let raw = b.calculate_feature_importance(imp(k), false);
        ensure!(raw.keys().copied().collect::<BTreeSet<_>>() == st.keys().copied().collect::<BTreeSet<_>>(), "importance", "{when}: {k} importance covers features {:?}, splits use {:?}", raw.keys(), st.keys());
        let val = |f: &usize| {
            let s = st[f];
            match k {
                "Weight" => s.0,
                "Gain" => s.1 / s.0,
                "Cover" => s.2 / s.0,
                "TotalGain" => s.1,
                _ => s.2,
            }
        };
        let tot: f64 = st.keys().map(val).sum();
        let nrm = b.calculate_feature_importance(imp(k), true);
        for f in st.keys() {
            ensure!(close(raw[f] as f64, val(f), 2e-4, 1e-6), "importance", "{when}: {k} importance of feature {f} is {}, its splits give {}", raw[f], val(f));
            if tot > 1e-6 {
                ensure!(nrm.contains_key(f) && close(nrm[f] as f64, val(f) / tot, 1e-3, 1e-6), "importance", "{when}: normalised {k} importance of feature {f} is {:?}, expected {}", nrm.get(f), val(f) / tot);
            }
        }
    }
    Ok(())
}
pub fn c14(x: &mut Ctx) -> VR {
    let kind = [Kind::General, Kind::Stop, Kind::Small, Kind::Mono][(h3(x.seed, 3, 9) % 4) as usize];
    let c = x.case(kind);
    let mut r = x.r(14);
    let mut b = c.par.build();
    let mut hist = "unfitted".to_string();
    for i in 0..1 + r.n(4) as usize {
        let mut q = R::new(r.u());
        let op = if i == 0 { 0 } else { q.n(5) };
        if x.drop_op(i) {
            continue;
        }
        match op {
            0 => {
                let s = if i == 0 { c.train() } else { c.set(2 + q.n(3), Some(2 + q.n(50) as usize)) };
                fit(&mut b, &s, &c.eval_sets()).expect("fit");
                x.seen(&b);
                hist += ", fit";
            }
            1 | 2 => {
                if !b.trees.is_empty() {
                    let k = q.n(b.trees.len() as u64 + 1) as usize;
                    b = use_trees(b, k);
                    hist += &format!(", use {k} trees");
                }
            }
            3 => {
                b = match GradientBooster::from_json(&b.json_dump().unwrap()) {
                    Ok(b) => b,
                    Err(e) => return viol("reload-failed", format!("{hist}: {e}")),
                };
                hist += ", reload";
            }
            _ => {
                b = b.set_prediction_iteration(None);
                hist += ", set_prediction_iteration(None)";
            }
        }
        let n = if c.rows > 1500 { 60 } else { q.r(1, 40) as usize };
        let n = if b.trees.len() > 40 { n.min(6) } else { n };
        let pr = if q.p(0.3) && c.rows < 200 { c.train() } else { c.probe(q.n(5), n) };
        b.parallel = q.p(0.5);
        let (mode, nn) = (q.n(3), 1 + q.n(5) as usize);
        let _ = (mode, nn);
        check_views(x, &c, &b, &pr, &mut q, &hist)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C15
pub fn c15(x: &mut Ctx) -> VR {
    let mut c = x.case(if x.seed % 2 == 0 { Kind::Small } else { Kind::General });
    let mut r = x.r(15);
    if c.par.missing.is_nan() && r.p(0.8) {
        c.par.missing = -999.0;
    }
    if c.par.iterations > 30 {
        c.par.iterations = 30;
    }
    let tr = c.train();
    let ev = c.eval_sets();
    let mut b = c.par.build();
    b.parallel = false;
    fit(&mut b, &tr, &ev).expect("fit");
    x.seen(&b);
    let clean = c.probe(0, 1 + r.n(60) as usize);
    let want = sig_views(&b, &clean, false, true);
    let before = sig_state(&b);
    let (n, mode) = (1 + r.n(6) as usize, r.n(4));
    let shared_pool = pool(n);
    let outer = |f: &(dyn Fn() -> Vec<u64> + Sync)| -> Result<Vec<u64>, String> {
        match mode {
            0 => call(f),
            1 => call(|| shared_pool.install(f)),
            2 => call(|| rayon::join(f, || (0..40u64).into_par_iter().map(|v| v * 3).sum::<u64>()).0),
            _ => call(|| shared_pool.install(|| rayon::join(|| rayon::join(f, || 1).0, || 2).0)),
        }
    };
    for i in 0..2 + r.n(4) as usize {
        let mut q = R::new(r.u());
        if x.drop_op(i) {
            continue;
        }
        let op = q.n(5);
        match op {
            4 if c.rows * c.par.iterations < 1500 => {
                // fits and reads at once inside one pool, some of them failing
                let k = 2 + q.n(4) as usize;
                let fail: Vec<bool> = (0..k).map(|_| q.p(0.2) && !c.par.missing.is_nan()).collect();
                let mut bad = tr.clone();
                let cells = bad.x.len() as u64;
                bad.x[q.n(cells) as usize] = f64::NAN;
                let reads = q.p(0.5);
                let task = |i: usize| -> Result<String, String> {
                    call(|| {
                        if reads && i % 2 == 0 {
                            return sig_views(&b, &clean, true, true);
                        }
                        let mut bb = c.par.build();
                        bb.parallel = true;
                        fit(&mut bb, if fail[i] { &bad } else { &tr }, &ev).expect("fit");
                        sig_state(&bb)
                    })
                };
                let got: Vec<Result<String, String>> = match mode {
                    1 | 3 => shared_pool.install(|| (0..k).into_par_iter().map(task).collect()),
                    _ => (0..k).into_par_iter().map(task).collect(),
                };
                x.c("crowds", 1);
                for (i, g) in got.iter().enumerate() {
                    let read = reads && i % 2 == 0;
                    match g {
                        Err(_) if fail[i] && !read => x.c("fault_worker_panic", 1),
                        Ok(_) if fail[i] && !read => return viol("swallowed-panic", "a fit on rows with NaN inside a pool did not panic".into()),
                        Err(p) => return viol("innocent-panic", format!("call {i} of {k} made at once inside one pool panics: {p}")),
                        Ok(s) => {
                            if let Some(d) = diff(if read { &want } else { &before }, s) {
                                return viol("innocent-differs", format!("call {i} of {k} made at once inside one pool differs: {d}"));
                            }
                        }
                    }
                }
            }
            0 | 1 => {
                // rows with a NaN where NaN is not the missing value
                let mut bad = c.probe(3 + i as u64, 1 + q.n(50) as usize);
                let cells = bad.x.len() as u64;
                for _ in 0..1 + q.n(3) {
                    let k = q.n(cells) as usize;
                    bad.x[k] = f64::NAN;
                }
                let m = bad.m();
                let k = q.n(9);
                let meth = METHODS[(k % 7) as usize];
                if k < 7 && meth == "ProbabilityChange" && !c.par.logloss {
                    continue;
                }
                let f = |p: bool| -> Vec<u64> {
                    match k {
                        7 => b.predict_leaf_indices(&m).into_iter().map(|v| v as u64).collect(),
                        8 => bits(&b.predict(&m, p)),
                        _ => bits(&b.predict_contributions(&m, method(meth), p)),
                    }
                };
                let ser = if k == 7 {
                    // always parallel: the serial answer is the reference routing
                    let mut out = Ok(vec![]);
                    'o: for t in &b.trees[..n_pred(&b)] {
                        for i in 0..bad.rows {
                            let row = bad.row(i);
                            let mut nn = 0;
                            while !t.nodes[nn].is_leaf {
                                let v = row[t.nodes[nn].split_feature];
                                if v.is_nan() && !b.missing.is_nan() {
                                    out = Err("nan".to_string());
                                    break 'o;
                                }
                                nn = if is_miss(v, b.missing) { t.nodes[nn].missing_node } else if v < t.nodes[nn].split_value { t.nodes[nn].left_child } else { t.nodes[nn].right_child };
                            }
                            out.as_mut().unwrap().push(nn as u64);
                        }
                    }
                    out
                } else {
                    call(|| f(false))
                };
                let par = outer(&|| f(true));
                x.c("fault_bad_rows", 1);
                if ser.is_err() {
                    x.c("fault_worker_panic", 1);
                }
                let name = ["predict_leaf_indices", "predict"].get((k as usize).wrapping_sub(7)).copied().unwrap_or(meth);
                match (&ser, &par) {
                    (Ok(a), Ok(b)) => ensure!(a == b, "differs", "{name}: parallel result differs from serial on rows with NaN"),
                    (Err(_), Err(_)) => {}
                    (Ok(_), Err(p)) => return viol("spurious-panic", format!("{name} panics in parallel ({p}) but not serially")),
                    (Err(p), Ok(_)) => return viol("swallowed-panic", format!("{name} panics serially ({p}) but returns a result in parallel")),
                }
            }
            2 => {
                // training data with a NaN, or a failing log sink
                let mut s = tr.clone();
                let mut e2 = c.eval_sets();
                let sink = q.p(0.5) || c.par.missing.is_nan();
                if !sink {
                    let cells = s.x.len() as u64;
                    if e2.is_empty() || q.p(0.5) {
                        s.x[q.n(cells) as usize] = f64::NAN;
                    } else {
                        let cells = e2[0].x.len() as u64;
                        for _ in 0..3 {
                            e2[0].x[q.n(cells) as usize] = f64::NAN;
                        }
                    }
                }
                let at = q.n(2 * c.par.iterations as u64 + 2) as i64;
                let run = |p: bool| -> Vec<u64> {
                    let mut bb = c.par.build();
                    bb.parallel = p;
                    if sink {
                        install_logger();
                        bb.log_iterations = 1;
                        LOG_FAIL_AT.store(at, Ordering::SeqCst);
                    }
                    fit(&mut bb, &s, &e2).expect("fit");
                    LOG_FAIL_AT.store(-1, Ordering::SeqCst);
                    vec![hash_bytes(sig_state(&bb).as_bytes())]
                };
                let ser = call(|| run(false));
                let par = outer(&|| run(true));
                LOG_FAIL_AT.store(-1, Ordering::SeqCst);
                x.c("fault_fit_panic_plans", 1);
                match (&ser, &par) {
                    (Ok(a), Ok(b)) => ensure!(a == b, "differs", "parallel fit differs from serial"),
                    (Err(_), Err(_)) => x.c("fault_worker_panic", 1),
                    (Ok(_), Err(p)) => return viol("spurious-panic", format!("fit panics in parallel ({p}) but not serially")),
                    (Err(p), Ok(_)) => return viol("swallowed-panic", format!("fit panics serially ({p}) but returns in parallel")),
                }
            }
            _ => {
                // several callers at once, one of them failing
                let bad = {
                    let mut s = c.probe(9, 20);
                    let cells = s.x.len() as u64;
                    s.x[q.n(cells) as usize] = f64::NAN;
                    s
                };
                let ser = call(|| b.predict(&bad.m(), false)).is_err();
                let (good, badr) = std::thread::scope(|sc| {
                    let h1 = sc.spawn(|| call(|| sig_views(&b, &clean, true, true)));
                    let h2 = sc.spawn(|| call(|| b.predict(&bad.m(), true)));
                    (h1.join().unwrap(), h2.join().unwrap())
                });
                x.c("fault_bad_rows", 1);
                ensure!(badr.is_err() == ser, "swallowed-panic", "concurrent failing caller: serial panics {ser}, parallel {}", badr.is_err());
                match good {
                    Err(p) => return viol("innocent-panic", format!("a caller with good data panicked: {p}")),
                    Ok(s) => ensure!(strip_pd(&s) == strip_pd(&want), "innocent-differs", "a caller with good data got other results next to a failing one"),
                }
            }
        }
        // everything still works
        let pl = q.p(0.5);
        let go = || sig_views(&b, &clean, pl, true);
        let s = match mode {
            1 | 3 => call(|| shared_pool.install(go)),
            _ => call(go),
        };
        match s {
            Err(p) => return viol("wedged", format!("after a failure the library panics on good data: {p}")),
            Ok(s) => ensure!(strip_pd(&s) == strip_pd(&want), "wrong-after-failure", "after a failure results on good data differ: {:?}", diff(&strip_pd(&want), &strip_pd(&s))),
        }
        if let Some(d) = diff(&before, &sig_state(&b)) {
            return viol("model-changed", format!("a failed read changed the booster: {d}"));
        }
    }
    let mut b2 = c.par.build();
    b2.parallel = true;
    match mode {
        1 | 3 => shared_pool.install(|| fit(&mut b2, &tr, &ev)).expect("fit"),
        _ => fit(&mut b2, &tr, &ev).expect("fit"),
    }
    if let Some(d) = diff(&before, &sig_state(&b2)) {
        return viol("fit-after-failure", format!("training after failures gives another model: {d}"));
    }
    Ok(())
}
fn strip_pd(s: &str) -> String {
    s.to_string()
}

pub type Scenario = fn(&mut Ctx) -> VR;

// ------------------------------------------------------------------ C21
/// What a set of rows weighs: sums of gradients and hessians, and how far the library's 32 bit sums may be off.
#[derive(Clone, Copy)]
struct Gh {
    g: f64,
    h: f64,
    n: usize,
}
struct Judge<'a> {
    p: &'a Par,
    tg: f64,
    th: f64,
}
impl Judge<'_> {
    /// weight, gain and uncertainty of the gain of a node of these rows under these bounds
    fn node(&self, s: Gh, lo: f64, hi: f64) -> (f64, f64, f64) {
        let w = newton(self.p, s.g, s.h).max(lo).min(hi);
        let (g, e) = self.gain(s, w);
        (w, g, e)
    }
    fn dw(&self, s: Gh, w: f64) -> f64 {
        (self.tg + self.th * w.abs()) / (s.h + self.p.l2 as f64 - self.th).max(1e-9) + 1e-5 * w.abs()
    }
    fn gain(&self, s: Gh, w: f64) -> (f64, f64) {
        let l2 = self.p.l2 as f64;
        let g = -(2.0 * s.g * w + (s.h + l2) * w * w);
        let dw = self.dw(s, w);
        let slope = 2.0 * (s.g + (s.h + l2) * w).abs();
        let e = 2.0 * w.abs() * self.tg + w * w * self.th + slope * dw + (s.h + l2 + self.th) * dw * dw + 2e-6 * (2.0 * (s.g * w).abs() + (s.h + l2) * w * w);
        (g, e)
    }
    /// children of a split without a missing branch: total gain, its uncertainty, both weights
    fn two(&self, l: Gh, r: Gh, lo: f64, hi: f64) -> (f64, f64, f64, f64) {
        let (a, b) = (self.node(l, lo, hi), self.node(r, lo, hi));
        (a.1 + b.1, a.2 + b.2, a.0, b.0)
    }
    /// the gain of the missing branch: lower and upper end
    fn branch(&self, m: Gh, l: (Gh, f64), r: (Gh, f64), parent_w: f64, lo: f64, hi: f64, residue: bool) -> (f64, f64) {
        let w = match self.p.mnt {
            1 => newton(self.p, m.g + l.0.g + r.0.g, m.h + l.0.h + r.0.h).max(lo).min(hi),
            2 | 3 => (l.1 * l.0.h + r.1 * r.0.h) / (l.0.h + r.0.h),
            _ if m.n == 0 => parent_w,
            _ => newton(self.p, m.g, m.h).max(lo).min(hi),
        };
        let (g, e) = self.gain(m, w);
        let (mut a, mut b) = (g - e, g + e);
        if self.p.mnt == 0 && (m.n == 0 && residue || m.g.abs() <= self.tg || m.h <= self.th) {
            // the parent's weight if the sums come out as zero, else the branch's own
            for w in [parent_w, 0.0, newton(self.p, m.g, m.h).max(lo).min(hi)] {
                let (g, e) = self.gain(m, w);
                a = a.min(g - e);
                b = b.max(g + e);
            }
        }
        (a, b)
    }
}
pub fn c21(x: &mut Ctx) -> VR {
    let kind = kind_for(x, &[Kind::Exact, Kind::ExactGoss, Kind::General, Kind::General, Kind::General, Kind::Small, Kind::Mono]);
    let mut c = x.case(kind);
    if !matches!(kind, Kind::Exact | Kind::ExactGoss) {
        c.par.sample = 0; // the draw must be known
    }
    c.par.force = false;
    let mut tr = c.train();
    let ev = c.eval_sets();
    let mut r = x.r(21);
    // many distinct values, and a target only one narrow cut explains, often the first or the last
    if matches!(kind, Kind::General) && !c.par.logloss && tr.rows > 40 && r.p(0.5) {
        let j = r.n(tr.cols as u64) as usize;
        for i in 0..tr.rows {
            if !is_miss(tr.at(i, j), c.par.missing) {
                tr.x[j * tr.rows + i] = 7.0 + (r.n(1 << 20) as f64) / 1024.0;
            }
        }
        let mut ord: Vec<usize> = (0..tr.rows).filter(|i| !is_miss(tr.at(*i, j), c.par.missing)).collect();
        if ord.len() > 8 {
            ord.sort_by(|a, z| tr.at(*a, j).partial_cmp(&tr.at(*z, j)).unwrap());
            let width = 1 + r.n(3) as usize;
            let from = match r.n(4) {
                0 => 0,
                1 | 2 => ord.len() - width,
                _ => r.n((ord.len() - width) as u64) as usize,
            };
            for q in &ord[from..from + width] {
                tr.y[*q] += 50.0;
                tr.w[*q] = tr.w[*q].max(1.0);
            }
            c.par.mlw = c.par.mlw.min(1.0);
            x.c("narrow_cuts", 1);
        }
    }
    let mut b = c.par.build();
    if r.p(0.2) {
        let _ = fit(&mut b, &c.set(3, Some(9)), &[]);
    }
    in_mode(r.n(3), 1 + r.n(5) as usize, || fit(&mut b, &tr, &ev)).expect("fit");
    x.seen(&b);
    let p = &c.par;
    let lr = p.lr as f64;
    let avgleaf = p.cmb && p.mnt == 2;
    let constrained = p.constraints.iter().any(|v| v.1 != 0);
    let reg = p.l1 != 0.0 || p.mds != 0.0;
    // thresholds the data offers: every value if there are at most nbins of them, otherwise the nbins weighted percentiles;
    // `cuts` are surely offered, `allowed` possibly (the cumulative weight may round to either side of a percentile)
    let mut cuts: Vec<Vec<f64>> = vec![];
    let mut allowed: Vec<Vec<f64>> = vec![];
    let mut has_missing = vec![];
    for j in 0..tr.cols {
        let mut v: Vec<(f64, f64)> = (0..tr.rows).map(|i| (tr.at(i, j), tr.w[i])).filter(|v| !is_miss(v.0, b.missing)).collect();
        has_missing.push(v.len() < tr.rows);
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let mut u: Vec<f64> = v.iter().map(|q| q.0).collect();
        u.dedup();
        let nb = p.nbins as usize;
        if u.len() <= nb {
            cuts.push(u.clone());
            allowed.push(u);
            continue;
        }
        let total: f64 = v.iter().map(|q| q.1).sum();
        let (mut sure, mut may) = (vec![], vec![]);
        let (mut before, mut at) = (0.0, 0);
        for (k, q) in u.iter().enumerate() {
            let mut after = before;
            while at < v.len() && v[at].0 == *q {
                after += v[at].1 / total;
                at += 1;
            }
            // is a percentile i / nbins in (before, after]?
            let hit = |a: f64, z: f64| (z * nb as f64).floor().min(nb as f64 - 1.0) / (nb as f64) > a;
            let eps = 1e-9;
            if k == 0 || hit(before + eps, after - eps) {
                sure.push(*q);
            }
            if k == 0 || hit(before - eps, after + eps) || u.len() == nb + 1 {
                may.push(*q);
            }
            before = after;
        }
        x.c("percentile_columns", 1);
        cuts.push(sure);
        allowed.push(may);
    }
    let mut yhat = vec![b.base_score; tr.rows];
    let mut budget = 1_500_000usize;
    for (k, t) in b.trees.iter().enumerate() {
        let (g, h) = grads(p.logloss, &tr.y, &yhat, &tr.w);
        for i in 0..tr.rows {
            yhat[i] += t.nodes[route(t, &tr.row(i), b.missing)].weight_value as f64;
        }
        let mult = match kind {
            Kind::Exact | Kind::ExactGoss => match decode(kind, t.nodes[0].hessian_sum, tr.rows) {
                Some(m) => m,
                None => return viol("root-cover", format!("tree {k}: root cover {} is not a sum of row weights", t.nodes[0].hessian_sum)),
            },
            _ => vec![1.0; tr.rows],
        };
        let rows = node_rows(t, &tr, b.missing);
        let sum = |v: &mut dyn Iterator<Item = usize>| -> Gh {
            let mut s = Gh { g: 0.0, h: 0.0, n: 0 };
            for i in v {
                if mult[i] > 0.0 {
                    s.g += mult[i] * g[i] as f64;
                    s.h += mult[i] * h[i] as f64;
                    s.n += 1;
                }
            }
            s
        };
        let n = t.nodes.len();
        let root = sum(&mut rows[0].iter().copied());
        let absg: f64 = (0..tr.rows).map(|i| mult[i] * g[i].abs() as f64).sum();
        let relerr = if tr.rows > 150 { 2e-4 } else { 1e-5 };
        let jd = Judge { p, tg: relerr * absg + 1e-7, th: relerr * root.h + 1e-7 };
        let w = |i: usize| t.nodes[i].weight_value as f64 / lr;
        let mut bounds = vec![(f64::NEG_INFINITY, f64::INFINITY); n];
        let mut own = vec![(f64::NEG_INFINITY, f64::INFINITY); n]; // in force when the node's own weight was set
        let mut may_split = vec![true; n];
        let mut gain_of: Vec<Option<(f64, f64)>> = vec![None; n]; // the node's own gain and its uncertainty
        for i in 0..n {
            let nd = &t.nodes[i];
            if nd.is_leaf {
                continue;
            }
            let (l, rr, m) = (nd.left_child, nd.right_child, nd.missing_node);
            let cst = p.constraints.iter().find(|v| v.0 == nd.split_feature).map(|v| v.1).unwrap_or(0);
            let mid = (w(l) + w(rr)) / 2.0;
            let (lo, hi) = bounds[i];
            let (bl, br) = match cst {
                1 => ((lo, mid), (mid, hi)),
                -1 => ((mid, hi), (lo, mid)),
                _ => ((lo, hi), (lo, hi)),
            };
            bounds[l] = bl;
            bounds[rr] = br;
            own[l] = (lo, hi);
            own[rr] = (lo, hi);
            if m != l && m != rr {
                bounds[m] = (lo, hi);
                own[m] = (lo, hi);
                may_split[m] = p.allow_missing_splits && !p.term.contains(&nd.split_feature) && rows[m].iter().any(|i| mult[*i] > 0.0);
                let sm = sum(&mut rows[m].iter().copied());
                let wm = if avgleaf {
                    let (sl, sr) = (sum(&mut rows[l].iter().copied()), sum(&mut rows[rr].iter().copied()));
                    (jd.node(sl, lo, hi).0 * sl.h + jd.node(sr, lo, hi).0 * sr.h) / (sl.h + sr.h)
                } else if p.mnt == 1 {
                    jd.node(sum(&mut rows[i].iter().copied()), lo, hi).0
                } else {
                    w(m)
                };
                if p.mnt != 0 || sm.g.abs() > jd.tg && sm.h > jd.th {
                    gain_of[m] = Some(jd.gain(sm, wm));
                }
            }
        }
        let leaves = t.nodes.iter().filter(|q| q.is_leaf).count();
        let unlimited = leaves.saturating_add(3) <= p.max_leaves;
        let used: BTreeSet<usize> = t.nodes.iter().filter(|q| !q.is_leaf).map(|q| q.split_feature).collect();
        let depth_of = {
            let mut d = vec![0usize; n];
            for i in 0..n {
                if !t.nodes[i].is_leaf {
                    for ch in [t.nodes[i].left_child, t.nodes[i].right_child, t.nodes[i].missing_node] {
                        d[ch] = d[i] + 1;
                    }
                }
            }
            d
        };
        if avgleaf && constrained {
            continue; // the weights the bounds came from have been replaced by averages
        }
        for i in 0..n {
            let nd = &t.nodes[i];
            let s = sum(&mut rows[i].iter().copied());
            let (lo, hi) = bounds[i];
            let is_missing_child = (0..n).any(|q| !t.nodes[q].is_leaf && t.nodes[q].missing_node == i && t.nodes[q].left_child != i && t.nodes[q].right_child != i);
            // the node's own gain
            let me = if is_missing_child {
                gain_of[i]
            } else if i == 0 && reg {
                None
            } else {
                let q = jd.node(s, own[i].0, own[i].1);
                Some((q.1, q.2))
            };
            if !is_missing_child {
                gain_of[i] = me;
            }
            // parent weight as the splitter saw it; averages replace it afterwards
            let pw = if avgleaf { jd.node(s, own[i].0, own[i].1).0 } else { w(i) };
            // ---- what was chosen
            let chosen = if nd.is_leaf {
                None
            } else {
                let f = nd.split_feature;
                ensure!(allowed[f].contains(&nd.split_value), "threshold", "tree {k} node {i}: feature {f} is split at {}, which is none of the {} thresholds its values and weights offer with {} bins", nd.split_value, allowed[f].len(), p.nbins);
                let (l, rr, m) = (nd.left_child, nd.right_child, nd.missing_node);
                let (sl, sr) = (sum(&mut rows[l].iter().copied()), sum(&mut rows[rr].iter().copied()));
                let (gn, mut e, wl, wr) = jd.two(sl, sr, lo, hi);
                let mut top = gn;
                if m != l && m != rr {
                    let sm = sum(&mut rows[m].iter().copied());
                    let (a, z) = jd.branch(sm, (sl, wl), (sr, wr), pw, lo, hi, has_missing[f] && i > 0);
                    top += (a + z) / 2.0;
                    e += (z - a) / 2.0;
                }
                if let Some((mg, me)) = me {
                    let want = top - mg;
                    ensure!(
                        (nd.split_gain as f64 - want).abs() <= e + me + 1e-30,
                        "recorded-gain",
                        "tree {k} node {i}: the split on feature {f} is recorded with gain {}, its children give {want} (tolerance {:e})",
                        nd.split_gain,
                        e + me
                    );
                    x.c("gains_checked", 1);
                }
                Some((top, e))
            };
            let tried = nd.is_leaf && unlimited && depth_of[i] < p.max_depth && may_split[i] && s.n > 0;
            if chosen.is_none() && !(tried && me.is_some()) {
                continue;
            }
            // ---- what else there was
            for f in 0..tr.cols {
                if p.colsample < 1.0 && !used.contains(&f) {
                    continue; // may not have been drawn for this tree
                }
                let cst = p.constraints.iter().find(|v| v.0 == f).map(|v| v.1).unwrap_or(0);
                let mut ord: Vec<usize> = rows[i].iter().copied().filter(|q| mult[*q] > 0.0 && !is_miss(tr.at(*q, f), b.missing)).collect();
                if budget < ord.len() + cuts[f].len() {
                    x.c("over_budget", 1);
                    continue;
                }
                budget -= ord.len() + cuts[f].len();
                ord.sort_by(|a, z| tr.at(*a, f).partial_cmp(&tr.at(*z, f)).unwrap());
                let sm = sum(&mut rows[i].iter().copied().filter(|q| is_miss(tr.at(*q, f), b.missing)));
                let tot = sum(&mut ord.iter().copied());
                let mut sl = Gh { g: 0.0, h: 0.0, n: 0 };
                let mut at = 0;
                let min = p.mlw as f64 + jd.th;
                let residue = has_missing[f] && i > 0;
                for cut in &cuts[f] {
                    while at < ord.len() && tr.at(ord[at], f) < *cut {
                        let q = ord[at];
                        sl = Gh { g: sl.g + mult[q] * g[q] as f64, h: sl.h + mult[q] * h[q] as f64, n: sl.n + 1 };
                        at += 1;
                    }
                    let sr = Gh { g: tot.g - sl.g, h: tot.h - sl.h, n: tot.n - sl.n };
                    // clearly on the right side of the constraint?
                    let ok = |a: Gh, wa: f64, z: Gh, wz: f64| {
                        let d = (wz - wa) * cst as f64;
                        cst == 0 || d > jd.dw(a, wa) + jd.dw(z, wz) + 1e-30
                    };
                    let mut worth: Option<(f64, f64)> = None;
                    if p.cmb || sm.n == 0 {
                        if sl.n == 0 || sr.n == 0 || sl.h < min || sr.h < min {
                            continue;
                        }
                        let (gn, e, wl, wr) = jd.two(sl, sr, lo, hi);
                        if !ok(sl, wl, sr, wr) {
                            continue;
                        }
                        let mut lowest = gn;
                        if p.cmb {
                            lowest += jd.branch(sm, (sl, wl), (sr, wr), pw, lo, hi, residue).0;
                        }
                        worth = Some((lowest, e));
                    } else {
                        if !p.allow_missing_splits && (sl.n == 0 || sr.n == 0 || sl.h < min || sr.h < min) {
                            continue;
                        }
                        // the missing rows go where they gain most
                        let add = |a: Gh| Gh { g: a.g + sm.g, h: a.h + sm.h, n: a.n + sm.n };
                        let (ml, mr) = (add(sl), add(sr));
                        let (gl, el, a1, a2) = jd.two(ml, sr, lo, hi);
                        let (gr, er, b1, b2) = jd.two(sl, mr, lo, hi);
                        let okl = ml.h >= min && sr.h >= min && ok(ml, a1, sr, a2);
                        let okr = sl.h >= min && mr.h >= min && ok(sl, b1, mr, b2);
                        if okl && okr {
                            worth = Some(if gl < gr { (gr, el.max(er)) } else { (gl, el.max(er)) });
                        } else if okl && cst == 0 && gl - gr > el + er {
                            worth = Some((gl, el));
                        } else if okr && cst == 0 && gr - gl > el + er {
                            worth = Some((gr, er));
                        }
                    }
                    let Some((gn, e)) = worth else { continue };
                    x.c("candidate_splits", 1);
                    match chosen {
                        Some((top, ce)) => ensure!(
                            top + ce + e >= gn,
                            "better-split",
                            "tree {k} node {i}: split on feature {} at {} (children gain {top}), but feature {f} at {cut} gives {gn} (tolerance {:e}, {} rows)",
                            nd.split_feature,
                            nd.split_value,
                            ce + e,
                            s.n
                        ),
                        None => {
                            let (mg, me) = me.unwrap();
                            ensure!(
                                gn - mg - p.gamma as f64 <= e + me,
                                "unsplit-leaf",
                                "tree {k} leaf {i} (depth {}, {} rows) could be split on feature {f} at {cut} with gain {} over gamma {} (tolerance {:e})",
                                depth_of[i],
                                s.n,
                                gn - mg,
                                p.gamma,
                                e + me
                            );
                        }
                    }
                }
            }
        }
        // ---- the order of growth: children are numbered as their parents are split
        let mut order: Vec<usize> = (0..n).filter(|i| !t.nodes[*i].is_leaf).collect();
        order.sort_by_key(|i| t.nodes[*i].left_child);
        for (q, a) in order.iter().enumerate() {
            for z in &order[q + 1..] {
                if p.lossguide {
                    // only if the later one was there already
                    let born = (0..n).find(|y| !t.nodes[*y].is_leaf && [t.nodes[*y].left_child, t.nodes[*y].right_child, t.nodes[*y].missing_node].contains(z));
                    let before = born.map_or(true, |y| order.iter().position(|o| *o == y).unwrap() < q);
                    if let (true, Some((ga, ea)), Some((gz, ez))) = (before, gain_of[*a], gain_of[*z]) {
                        ensure!(ga + ea + ez >= gz, "growth-order", "tree {k}: LossGuide split node {a} (gain {ga}) before node {z} (gain {gz})");
                        x.c("order_checked", 1);
                    }
                } else {
                    ensure!(depth_of[*a] <= depth_of[*z], "growth-order", "tree {k}: DepthWise split node {a} at depth {} before node {z} at depth {}", depth_of[*a], depth_of[*z]);
                    x.c("order_checked", 1);
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C22
/// The entries of the model file that came in after the first release: a file written before
/// an entry existed does not have it, and the model was trained as if it had this value.
const LATER: [&str; 17] = [
    "l1", "max_delta_step", "top_rate", "other_rate", "colsample_bytree", "sample_method", "grow_policy",
    "evaluation_metric", "early_stopping_rounds", "initialize_base_score", "terminate_missing_features",
    "evaluation_history", "best_iteration", "prediction_iteration", "missing_node_treatment", "log_iterations",
    "force_children_to_bound_parent",
];
fn old_release(x: &mut Ctx) -> (Case, GradientBooster, Vec<&'static str>, bool) {
    let mut r = R::new(h3(x.seed, 22, 0));
    let kind = r.pick(&[Kind::Small, Kind::Small, Kind::Stop, Kind::Mono]);
    let mut c = Case::gen(h3(x.seed, 45, 22), kind, &x.ov);
    let lacks: Vec<&'static str> = match r.n(4) {
        0 => LATER.to_vec(),
        1 => vec![r.pick(&LATER)],
        _ => {
            let p = r.pick(&[0.2, 0.5, 0.8]);
            LATER.iter().filter(|_| r.p(p)).cloned().collect()
        }
    };
    let mut evals = true;
    let mut gone: Vec<&'static str> = Vec::new();
    for l in lacks {
        match l {
            "l1" => c.par.l1 = 0.0,
            "max_delta_step" => c.par.mds = 0.0,
            "top_rate" => c.par.top = 0.1,
            "other_rate" => c.par.other = 0.2,
            "colsample_bytree" => c.par.colsample = 1.0,
            "sample_method" => {
                c.par.sample = 0;
                c.par.subsample = 1.0;
            }
            "grow_policy" => c.par.lossguide = false,
            "evaluation_metric" => c.par.metric = None,
            "early_stopping_rounds" => c.par.esr = None,
            "initialize_base_score" => c.par.init_bs = false,
            "terminate_missing_features" => c.par.term.clear(),
            // a release without the history had no early stopping either
            "evaluation_history" | "best_iteration" | "prediction_iteration" => evals = false,
            "missing_node_treatment" => {
                c.par.mnt = 1;
            }
            "log_iterations" => c.par.log_it = 0,
            _ => c.par.force = false,
        }
        gone.push(l);
    }
    if !evals {
        c.par.esr = None;
    }
    x.desc = c.describe();
    x.shape_hash = hash_bytes(format!("{:?}{}{}", c.par, c.rows, c.cols).as_bytes());
    let mut b = c.par.build();
    for (k, v) in meta_values(c.seed) {
        b.insert_metadata(k, v);
    }
    if r.n(10) != 0 {
        let e = if evals { c.eval_sets() } else { vec![] };
        fit(&mut b, &c.train(), &e).expect("fit");
    }
    (c, b, gone, evals)
}
pub fn c22(x: &mut Ctx) -> VR {
    let path = model_path(x);
    rt::fs::root(Some(&x.dir));
    let mut r = x.r(23 + x.proc as u64);
    let (c, b, gone, evals) = old_release(x);
    let want = full_sig(&c, &b, true);
    if x.proc == 0 {
        // the file as the earlier release wrote it
        let mut v: serde_json::Value = serde_json::from_str(&b.json_dump().unwrap()).unwrap();
        let m = v.as_object_mut().unwrap();
        for g in &gone {
            m.remove(*g);
        }
        x.seen(&b);
        x.c("entries_missing", gone.len() as u64);
        let text = if r.p(0.3) { serde_json::to_string_pretty(&v).unwrap() } else { v.to_string() };
        std::fs::write(&path, text).unwrap();
        x.board = want;
        return Ok(());
    }
    if x.board != want {
        return viol("writer-differs", "the writing process trained another model".into());
    }
    let mut cur: Option<GradientBooster> = None;
    for k in 0..1 + r.n(3) {
        rt::fs::clear();
        transient(&mut r);
        let l = call(|| GradientBooster::load_booster(&path));
        rt::fs::clear();
        fs_counts(x);
        x.c("loads", 1);
        match l {
            Err(p) => return viol("load-panic", format!("load_booster panicked on a file without {gone:?}: {p}")),
            Ok(Err(e)) => return viol("load-failed", format!("a model file written before {gone:?} existed does not load (cycle {k}): {e}")),
            Ok(Ok(b)) => {
                if let Some(d) = diff(&want, &full_sig(&c, &b, true)) {
                    return viol("load-differs", format!("a model file written before {gone:?} existed loads as another model (cycle {k}): {d}"));
                }
                cur = Some(b);
            }
        }
        transient(&mut r);
        let s = call(|| cur.as_ref().unwrap().save_booster(&path));
        rt::fs::clear();
        fs_counts(x);
        match s {
            Ok(Ok(())) => {}
            o => return viol("resave-failed", format!("saving the loaded model again failed: {:?}", o.map(|v| err_s(&v)))),
        }
    }
    // the loaded booster trains as the earlier release did
    let mut n = cur.unwrap();
    let mut f = c.par.build();
    for (k, v) in meta_values(c.seed) {
        f.insert_metadata(k, v);
    }
    f.base_score = n.base_score;
    let e = if evals { c.eval_sets() } else { vec![] };
    let (a, z) = (call(|| fit(&mut n, &c.train(), &e)), call(|| fit(&mut f, &c.train(), &e)));
    match (a, z) {
        (Ok(Ok(())), Ok(Ok(()))) => {}
        (a, z) => return viol("refit-failed", format!("refit after loading {:?}, fresh fit {:?}", a.map(|v| err_s(&v)), z.map(|v| err_s(&v)))),
    }
    if let Some(d) = diff(&full_sig(&c, &f, false), &full_sig(&c, &n, false)) {
        return viol("refit-differs", format!("a booster loaded from a file written before {gone:?} existed trains another model than one with the parameters of that release: {d}"));
    }
    x.nontrivial = !n.trees.is_empty();
    Ok(())
}

pub struct Prop {
    pub id: &'static str,
    pub f: Scenario,
    pub procs: usize,
    /// runs in the quick tier
    pub quick: u64,
    /// schedules matter: explore interleavings; otherwise one schedule per run is enough
    pub sched: bool,
    pub fs: bool,
    pub level: &'static str,
    pub rule: &'static str,
}
pub const PROPS: &[Prop] = &[
    Prop { id: "C01", f: c01, procs: 1, quick: 4000, sched: true, fs: false, level: "exploration", rule: "a run trains the same random case serially and in parallel under one seeded schedule and compares every read view; non-trivial if the model has a split and the schedule preempted a thread" },
    Prop { id: "C02", f: c02, procs: 2, quick: 3000, sched: true, fs: false, level: "exploration", rule: "a run trains the same random case in two simulated processes with different hash keys, clocks, thread counts, logging and earlier work; non-trivial if the model has a split" },
    Prop { id: "C03", f: c03, procs: 1, quick: 5000, sched: true, fs: false, level: "exploration", rule: "a run lets 2-4 caller threads use one booster under one seeded schedule and compares every call with the same call made alone; non-trivial if the model has a split and the schedule preempted a thread" },
    Prop { id: "C04", f: c04, procs: 2, quick: 18000, sched: false, fs: true, level: "exploration", rule: "a run saves a model reached by a random history under short writes and EINTR in one simulated process and loads it under short reads and EINTR in another; non-trivial if the cycle completed" },
    Prop { id: "C05", f: c05, procs: 1, quick: 5000, sched: false, fs: true, level: "fault_enumeration", rule: "a run enumerates a permanent and a one-off failure of every file call of a save with 13 errno values, and disk-full after boundary and random byte counts; non-trivial if all trials ran" },
    Prop { id: "C06", f: c06, procs: 1, quick: 9000, sched: false, fs: true, level: "fault_enumeration", rule: "a run crashes the process in every file call of a save at boundary and random byte counts, and rebuilds random power-loss images, then loads; non-trivial if all crash points ran" },
    Prop { id: "C07", f: c07, procs: 1, quick: 11000, sched: false, fs: true, level: "exploration", rule: "a run truncates, zeroes and corrupts a saved file and fails its reads, loading each time; non-trivial if all variants ran" },
    Prop { id: "C08", f: c08, procs: 1, quick: 6000, sched: true, fs: false, level: "exploration", rule: "a run applies a random history of fits, interrupted fits, rejected fits, reloads to one booster and compares a final fit with a new booster's; non-trivial if the final model has a split" },
    Prop { id: "C09", f: c09, procs: 1, quick: 7000, sched: true, fs: true, level: "exploration", rule: "a run applies rejected fits, reads and failed saves to a booster and compares it with a snapshot after each; non-trivial if the model has a split" },
    Prop { id: "C10", f: c10, procs: 1, quick: 15000, sched: true, fs: false, level: "exploration", rule: "a run trains a case whose weights make covers decode to row sets (or exact counts) and compares every node with reference routing; non-trivial if the model has a split" },
    Prop { id: "C11", f: c11, procs: 1, quick: 16000, sched: true, fs: false, level: "exploration", rule: "a run trains with evaluation sets and compares history, best iteration, number of trees with a reference metric and stopping machine; non-trivial if the model has a split" },
    Prop { id: "C12", f: c12, procs: 1, quick: 13000, sched: true, fs: false, level: "exploration", rule: "a run trains a random case and checks every node of every tree against the configured limits; non-trivial if the model has a split" },
    Prop { id: "C13", f: c13, procs: 1, quick: 18000, sched: true, fs: false, level: "exploration", rule: "a run trains a constrained case and walks every constrained feature over all split values for 12 rows; non-trivial if the model has a split" },
    Prop { id: "C14", f: c14, procs: 1, quick: 6000, sched: true, fs: false, level: "exploration", rule: "a run takes a booster through a random history and after each step compares all read views with a reference model; non-trivial if the model has a split" },
    Prop { id: "C15", f: c15, procs: 1, quick: 4000, sched: true, fs: false, level: "exploration", rule: "a run makes parallel calls fail inside workers (NaN rows, failing log sink) under stalls and spurious wake-ups, compares with the serial outcome, then uses the library again; non-trivial if the model has a split and the schedule preempted a thread" },
    Prop { id: "C18", f: c18, procs: 1, quick: 19000, sched: true, fs: false, level: "exploration", rule: "a run trains a case whose draw is known and recomputes every node weight of every tree from the residuals of the trees before it; non-trivial if the model has a split" },
    Prop { id: "C21", f: c21, procs: 1, quick: 15000, sched: true, fs: false, level: "exploration", rule: "a run trains a case whose draw is known and recomputes, for every node, the gain of every split the data offers; non-trivial if the model has a split" },
    Prop { id: "C22", f: c22, procs: 2, quick: 18000, sched: false, fs: true, level: "exploration", rule: "a run writes the file of a trained model as a release before a drawn set of parameters existed and loads, saves, reloads and refits it in another simulated process under short reads and writes and EINTR; non-trivial if the refit produced trees" },
];
#[allow(dead_code)]
fn unused(_: HashSet<u8>) {}
