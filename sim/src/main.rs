//! Driver: seeded search over simulated runs, minimisation, replay, evidence.
mod gen;
mod props;
mod refm;
mod rt;
use gen::{Ov, SIMPS};
use props::*;
use rt::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

const BUF: usize = 8 << 20;
struct Slot {
    sh: *mut Shared,
    buf: *mut u8,
}
impl Slot {
    fn new() -> Slot {
        Slot { sh: map_shared(std::mem::size_of::<Shared>()) as *mut Shared, buf: map_shared(BUF) }
    }
    fn reset(&self, rep: &[Ev]) {
        unsafe {
            let s = &mut *self.sh;
            s.outcome = 0;
            s.msg[0] = 0;
            for p in [
                &mut s.trace_hash, &mut s.steps_a, &mut s.steps_m, &mut s.switches, &mut s.preemptions, &mut s.forced, &mut s.threads, &mut s.timer_jumps,
                &mut s.sleeps, &mut s.clock_reads, &mut s.entropy_bytes, &mut s.fault_stall, &mut s.fault_spurious, &mut s.fault_thread, &mut s.rec_n,
                &mut s.rec_overflow,
            ] {
                *p = 0;
            }
            s.vtime = 0;
            s.rep_n = rep.len() as u64;
            for (i, e) in rep.iter().enumerate() {
                s.rep[i] = *e;
            }
            *(self.buf as *mut u64) = 0;
        }
    }
    fn put(&self, s: &str) {
        let n = s.len().min(BUF - 8);
        unsafe {
            std::ptr::copy_nonoverlapping(s.as_ptr(), self.buf.add(8), n);
            *(self.buf as *mut u64) = n as u64;
        }
    }
    fn get(&self) -> Value {
        unsafe {
            let n = *(self.buf as *const u64) as usize;
            serde_json::from_slice(std::slice::from_raw_parts(self.buf.add(8), n)).unwrap_or(Value::Null)
        }
    }
}

/// what one simulated process was run with: enough to repeat it exactly
#[derive(Clone, Debug)]
struct ProcPlan {
    cfg: Cfg,
    threads: usize,
    events: Vec<Ev>,
}
fn cfg_json(c: &Cfg) -> Value {
    json!([c.seed, c.entropy_seed, c.mode, c.gap_atomic, c.gap_mem, c.max_steps, c.stall_prob, c.stall_len, c.spurious, c.thread_fail, c.ncpu, c.clock_start, c.wall_offset, c.clock_jump, c.max_mem])
}
fn cfg_from(v: &Value) -> Cfg {
    let u = |i: usize| v[i].as_u64().unwrap();
    Cfg {
        seed: u(0), entropy_seed: u(1), mode: u(2), gap_atomic: u(3), gap_mem: u(4), max_steps: u(5), stall_prob: u(6), stall_len: u(7), spurious: u(8),
        thread_fail: u(9), ncpu: u(10), clock_start: v[11].as_i64().unwrap(), wall_offset: v[12].as_i64().unwrap(), clock_jump: u(13), max_mem: u(14),
    }
}
impl ProcPlan {
    fn to_json(&self) -> Value {
        json!({"cfg": cfg_json(&self.cfg), "threads": self.threads,
               "events": self.events.iter().map(|e| json!([e.kind, e.tid, e.at])).collect::<Vec<_>>()})
    }
    fn from_json(v: &Value) -> ProcPlan {
        ProcPlan {
            cfg: cfg_from(&v["cfg"]),
            threads: v["threads"].as_u64().unwrap() as usize,
            events: v["events"].as_array().unwrap().iter().map(|e| Ev { kind: e[0].as_u64().unwrap() as u32, tid: e[1].as_u64().unwrap() as u32, at: e[2].as_u64().unwrap() }).collect(),
        }
    }
}
/// budgets: far above what any run of the unchanged tree needs; exceeding one is "no progress"
const MAX_STEPS: u64 = 200_000_000;
const MAX_MEM: u64 = 6_000_000_000;

/// swarm: each run draws its own scheduler, fault mix, clocks and pool size
fn plan_for(p: &Prop, seed: u64, proc: usize, ov: &Ov, sched_salt: u64) -> ProcPlan {
    let mut r = R::new(h3(seed, 9000 + proc as u64, sched_salt));
    let mut cfg = Cfg {
        seed: r.u() >> 1,
        entropy_seed: r.u() >> 1,
        mode: if r.p(0.7) { 0 } else { 1 },
        gap_atomic: r.pick(&[1, 2, 3, 5, 8, 13, 20, 40, 90, 200]),
        gap_mem: r.pick(&[0, 0, 200, 1500, 8000, 50_000]),
        max_steps: MAX_STEPS,
        max_mem: MAX_MEM,
        stall_prob: r.pick(&[0, 0, 0, 500, 5_000, 50_000]),
        stall_len: r.pick(&[50, 500, 5_000]),
        spurious: r.pick(&[0, 0, 20_000, 200_000]),
        thread_fail: 0,
        ncpu: r.r(1, 8),
        clock_start: r.n(1 << 50) as i64,
        wall_offset: r.n(1 << 60) as i64,
        clock_jump: r.p(0.3) as u64,
    };
    if cfg.mode == 1 {
        cfg.gap_atomic = r.pick(&[50, 200, 1000, 5000]);
    }
    let threads = r.pick(&[1, 2, 2, 3, 4, 4, 6, 8]);
    if !p.sched {
        cfg.gap_atomic = 0;
        cfg.gap_mem = 0;
        cfg.stall_prob = 0;
        cfg.spurious = 0;
    }
    ProcPlan { cfg, threads: ov.threads.unwrap_or(threads), events: vec![] }
}
fn serial(pl: &[ProcPlan]) -> Vec<ProcPlan> {
    pl.iter()
        .map(|p| {
            let mut p = p.clone();
            p.cfg.mode = 2;
            p.events.clear();
            p
        })
        .collect()
}

#[derive(Clone, Debug, Default)]
struct Out {
    viol: Option<(String, String)>,
    harness: Option<String>,
    trace: u64,
    per_proc_trace: Vec<u64>,
    shape: u64,
    nontrivial: bool,
    cnt: BTreeMap<String, u64>,
    desc: Value,
    events: Vec<Vec<Ev>>,
    overflow: bool,
    vtime: u64,
    board: String,
}

fn run_one(p: &Prop, slot: &Slot, seed: u64, ov: &Ov, plans: &[ProcPlan], scratch: &str, want_events: bool) -> Out {
    let mut out = Out { trace: 17, nontrivial: true, ..Default::default() };
    let mut board = String::new();
    let dir = format!("{scratch}/run");
    let _ = std::fs::remove_dir_all(&dir);
    if std::fs::create_dir_all(&dir).is_err() {
        out.harness = Some(format!("cannot create {dir}"));
        return out;
    }
    for (k, pl) in plans.iter().enumerate() {
        slot.reset(&pl.events);
        let pid = do_fork();
        if pid < 0 {
            out.harness = Some("fork failed".into());
            break;
        }
        if pid == 0 {
            no_core();
            limits(4 << 30, 60);
            set_alarm(240);
            if std::env::var("SIM_PANICS").is_err() {
                quiet_panics();
            }
            std::env::set_var("RAYON_NUM_THREADS", pl.threads.to_string());
            let mut x = Ctx {
                seed,
                ov: ov.clone(),
                proc: k,
                board: board.clone(),
                dir: dir.clone(),
                cnt: BTreeMap::new(),
                desc: Value::Null,
                shape_hash: 0,
                nontrivial: false,
            };
            start(&pl.cfg, slot.sh);
            let f = p.f;
            let h = std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
                let r = catch_unwind(AssertUnwindSafe(|| f(&mut x)));
                (r.map_err(payload), x)
            });
            let (r, x) = match h.expect("spawn root").join() {
                Ok(v) => v,
                Err(_) => exit_now(70),
            };
            finish();
            rt::fs::root(None);
            let v = match r {
                Ok(Ok(())) => Value::Null,
                Ok(Err(v)) => json!([v.class, v.msg]),
                Err(m) => json!(["panic", format!("unexpected panic: {m}")]),
            };
            slot.put(&json!({"viol": v, "board": x.board, "cnt": x.cnt, "desc": x.desc, "shape": x.shape_hash, "nontrivial": x.nontrivial}).to_string());
            exit_now(0);
        }
        let st = wait(pid);
        let s = unsafe { &*slot.sh };
        let (sig, code) = (st & 0x7f, (st >> 8) & 0xff);
        let c = &mut out.cnt;
        for (name, v) in [
            ("_points_atomic", s.steps_a), ("_points_memory", s.steps_m), ("_switches", s.switches), ("_preemptions", s.preemptions), ("_forced", s.forced),
            ("_timer_jumps", s.timer_jumps), ("_clock_reads", s.clock_reads), ("_entropy_bytes", s.entropy_bytes), ("fault_stalled_thread", s.fault_stall),
            ("fault_spurious_wakeup", s.fault_spurious), ("_threads", s.threads),
        ] {
            *c.entry(name.into()).or_insert(0) += v;
        }
        let e = c.entry("_max_points_atomic".into()).or_insert(0);
        *e = (*e).max(s.steps_a);
        let e = c.entry("_max_points_memory".into()).or_insert(0);
        *e = (*e).max(s.steps_m);
        if pl.cfg.clock_jump > 0 {
            *c.entry("fault_clock_jumps_enabled".into()).or_insert(0) += 1;
        }
        *c.entry("_procs".into()).or_insert(0) += 1;
        out.vtime += s.vtime.max(0) as u64;
        out.trace = h3(out.trace, s.trace_hash, k as u64);
        out.per_proc_trace.push(s.trace_hash);
        if want_events {
            out.events.push(s.rec[..s.rec_n as usize].to_vec());
        }
        out.overflow |= s.rec_overflow != 0;
        if p.sched && s.preemptions == 0 {
            out.nontrivial = false;
        }
        if sig != 0 {
            out.viol = match sig {
                14 => Some(("hang".into(), "no progress: the simulated process was still waiting after 240 s".into())),
                9 | 15 | 2 => {
                    out.harness = Some(format!("simulated process killed by signal {sig}"));
                    None
                }
                24 => Some(("hang".into(), "no progress: the simulated process used more than 60 s of CPU".into())),
                _ => Some(("abort".into(), format!("the process died with signal {sig} (abort, overflow or out-of-memory)"))),
            };
            break;
        }
        if code == 92 || code == 93 {
            let n = s.msg.iter().position(|b| *b == 0).unwrap_or(0);
            out.viol = Some((if code == 92 { "hang" } else { "deadlock" }.into(), String::from_utf8_lossy(&s.msg[..n]).into_owned()));
            break;
        }
        if code != 0 {
            out.harness = Some(format!("simulated process exited with {code}"));
            break;
        }
        let v = slot.get();
        if v.is_null() {
            out.harness = Some("no result".into());
            break;
        }
        if let Some(m) = v["cnt"].as_object() {
            for (kk, n) in m {
                let n = n.as_u64().unwrap_or(0);
                let e = out.cnt.entry(kk.clone()).or_insert(0);
                if kk.starts_with("_max") {
                    *e = (*e).max(n)
                } else {
                    *e += n
                }
            }
        }
        if out.desc.is_null() {
            out.desc = v["desc"].clone();
        }
        out.shape = h3(out.shape, v["shape"].as_u64().unwrap_or(0), 0);
        if k == 0 {
            out.nontrivial &= v["nontrivial"].as_bool().unwrap_or(false);
        }
        board = v["board"].as_str().unwrap_or("").to_string();
        out.board = board.clone();
        if let Some(a) = v["viol"].as_array() {
            out.viol = Some((a[0].as_str().unwrap().into(), a[1].as_str().unwrap().into()));
            break;
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    out
}

fn plans(p: &Prop, seed: u64, ov: &Ov, salt: u64) -> Vec<ProcPlan> {
    (0..p.procs).map(|k| plan_for(p, seed, k, ov, salt)).collect()
}
fn run_seed(p: &Prop, seed: u64, i: u64) -> u64 {
    h3(seed, hash_bytes(p.id.as_bytes()), i) >> 1
}

fn scratch_dir(tag: &str) -> String {
    for base in ["/dev/shm", "/tmp"] {
        let d = format!("{base}/forust-sim-{}-{tag}", pid());
        if std::fs::create_dir_all(&d).is_ok() && std::fs::write(format!("{d}/probe"), b"x").is_ok() {
            let _ = std::fs::remove_file(format!("{d}/probe"));
            return d;
        }
    }
    panic!("no scratch directory");
}

struct Found {
    index: u64,
    seed: u64,
    class: String,
    msg: String,
}

// ------------------------------------------------------------------ minimisation
struct Min<'a> {
    p: &'a Prop,
    slot: Slot,
    scratch: String,
    class: String,
    seed: u64,
    tries: u64,
    until: Instant,
    serial: bool,
}
impl<'a> Min<'a> {
    fn late(&self) -> bool {
        Instant::now() > self.until
    }
    fn hit(&mut self, ov: &Ov, pl: &[ProcPlan]) -> Option<Out> {
        self.tries += 1;
        let o = run_one(self.p, &self.slot, self.seed, ov, pl, &self.scratch, true);
        match &o.viol {
            Some((c, _)) if *c == self.class && o.harness.is_none() => Some(o),
            _ => None,
        }
    }
    /// does the case still fail with these overrides, under some schedule?
    fn fails(&mut self, ov: &Ov, last: &[ProcPlan]) -> Option<(Vec<ProcPlan>, Out)> {
        if self.serial {
            let mut pl = serial(&plans(self.p, self.seed, ov, 0));
            if let Some(t) = ov.threads {
                for q in pl.iter_mut() {
                    q.threads = t
                }
            }
            return self.hit(ov, &pl).map(|o| (pl, o));
        }
        let mut same: Vec<ProcPlan> = last.to_vec();
        if let Some(t) = ov.threads {
            for q in same.iter_mut() {
                q.threads = t
            }
        }
        if let Some(o) = self.hit(ov, &same) {
            return Some((same, o));
        }
        for s in 0..16 {
            if self.late() {
                return None;
            }
            let pl = plans(self.p, self.seed, ov, 100 + s);
            if let Some(o) = self.hit(ov, &pl) {
                return Some((pl, o));
            }
        }
        None
    }
}
fn minimise(p: &Prop, f: &Found, secs: u64) -> Value {
    let scratch = scratch_dir("min");
    let mut m = Min { p, slot: Slot::new(), scratch: scratch.clone(), class: f.class.clone(), seed: f.seed, tries: 0, until: Instant::now() + Duration::from_secs(secs), serial: false };
    let mut ov = Ov::default();
    let mut pl = plans(p, f.seed, &ov, 0);
    let mut msg = f.msg.clone();
    let mut reproduced = true;
    let first = Instant::now();
    let mut best = match m.hit(&ov, &pl) {
        Some(o) => o,
        None => {
            reproduced = false;
            Out::default()
        }
    };
    // a run that spins until its budget ends is too slow to shrink: report it as found
    if reproduced && first.elapsed() < Duration::from_secs(10) {
        let s = serial(&pl);
        if let Some(o) = m.hit(&ov, &s) {
            m.serial = true;
            pl = s;
            best = o;
        }
        let mut progress = true;
        while progress && !m.late() {
            progress = false;
            let mut cands: Vec<Ov> = vec![];
            let cur = |k: &str| best.desc[k].as_u64();
            for t in [1usize, 2, 3] {
                if ov.threads.map(|x| t < x).unwrap_or(true) {
                    cands.push(Ov { threads: Some(t), ..ov.clone() });
                }
            }
            let rows = ov.rows.or(cur("rows").map(|v| v as usize));
            let cols = ov.cols.or(cur("cols").map(|v| v as usize));
            for (num, den) in [(1usize, 8usize), (1, 4), (1, 2), (3, 4), (9, 10)] {
                if let Some(r) = rows {
                    let n = (r * num / den).max(2);
                    if n < r {
                        cands.push(Ov { rows: Some(n), ..ov.clone() });
                    }
                }
                if let Some(c) = cols {
                    let n = (c * num / den).max(1);
                    if n < c {
                        cands.push(Ov { cols: Some(n), ..ov.clone() });
                    }
                }
            }
            for it in [1usize, 2, 3, 5, 8, 15, 40] {
                if ov.iters.map(|x| it < x).unwrap_or(true) {
                    cands.push(Ov { iters: Some(it), ..ov.clone() });
                }
            }
            for s in SIMPS {
                if !ov.has(s) {
                    let mut o = ov.clone();
                    o.simp.push(s.into());
                    cands.push(o);
                }
            }
            for d in 0..12usize {
                if !ov.drop.contains(&d) {
                    let mut o = ov.clone();
                    o.drop.push(d);
                    cands.push(o);
                }
            }
            for o in cands {
                if m.late() {
                    break;
                }
                // a candidate must still be an improvement over what was accepted meanwhile
                let mut mo = ov.clone();
                if o.rows != ov.rows && o.rows.is_some() && (ov.rows.is_none() || o.rows < ov.rows) { mo.rows = o.rows }
                if o.cols != ov.cols && o.cols.is_some() && (ov.cols.is_none() || o.cols < ov.cols) { mo.cols = o.cols }
                if o.iters.is_some() && (ov.iters.is_none() || o.iters < ov.iters) { mo.iters = o.iters }
                if o.threads.is_some() && (ov.threads.is_none() || o.threads < ov.threads) { mo.threads = o.threads }
                for s in &o.simp { if !mo.has(s) { mo.simp.push(s.clone()) } }
                for d in &o.drop { if !mo.drop.contains(d) { mo.drop.push(*d) } }
                if format!("{mo:?}") == format!("{ov:?}") {
                    continue;
                }
                if let Some((np, no)) = m.fails(&mo, &pl) {
                    // dropping an operation that does not exist is no progress
                    if no.trace == best.trace && no.desc == best.desc && mo.drop.len() > ov.drop.len() {
                        continue;
                    }
                    let changed = no.desc != best.desc || mo.drop != ov.drop || mo.threads != ov.threads;
                    ov = mo;
                    pl = np;
                    best = no;
                    progress |= changed;
                }
            }
        }
        // schedule: keep only the scheduling decisions that matter
        if !m.serial && !best.overflow && best.events.len() == pl.len() {
            let mut rp: Vec<ProcPlan> = pl.iter().zip(&best.events).map(|(q, e)| { let mut q = q.clone(); q.cfg.mode = 2; q.events = e.clone(); q }).collect();
            if let Some(o) = m.hit(&ov, &rp) {
                best = o;
                for k in 0..rp.len() {
                    let mut n = 2usize;
                    while rp[k].events.len() > 1 && !m.late() {
                        let len = rp[k].events.len();
                        let chunk = len.div_ceil(n);
                        let mut cut = false;
                        let mut at = 0;
                        while at < rp[k].events.len() && !m.late() {
                            let mut t = rp.clone();
                            let end = (at + chunk).min(t[k].events.len());
                            t[k].events.drain(at..end);
                            if let Some(o) = m.hit(&ov, &t) {
                                rp = t;
                                best = o;
                                cut = true;
                            } else {
                                at += chunk;
                            }
                        }
                        if !cut {
                            if chunk == 1 {
                                break;
                            }
                            n = (n * 2).min(rp[k].events.len().max(2));
                        } else {
                            n = 2.max(n / 2);
                        }
                    }
                }
                pl = rp;
            }
        }
    }
    if let Some((_, mm)) = &best.viol {
        msg = mm.clone();
    }
    let _ = std::fs::remove_dir_all(&scratch);
    json!({
        "property": p.id, "class": f.class, "message": msg, "run_index": f.index, "case_seed": f.seed, "overrides": ov.to_json(),
        "schedule": if m.serial { "the failure does not depend on the schedule: every thread runs until it blocks" } else { "the failure depends on the schedule: [kind, thread, moment] decisions below" },
        "procs": pl.iter().map(|q| q.to_json()).collect::<Vec<_>>(), "case": best.desc, "trace_hash": format!("{:016x}", best.trace),
        "reproduced": reproduced, "minimisation_runs": m.tries,
    })
}

// ------------------------------------------------------------------ search
struct Agg {
    runs: u64,
    cnt: BTreeMap<String, u64>,
    traces: HashSet<u64>,
    distinct: HashSet<u64>,
    shapes: HashSet<u64>,
    samples: Vec<Value>,
    vtime: u64,
}

fn worker(p: &Prop, seed: u64, w: u64, nw: u64, total: u64, until: Instant, found: &AtomicU64, scratch: &str) {
    let slot = Slot::new();
    let sc = format!("{scratch}/w{w}");
    let _ = std::fs::create_dir_all(&sc);
    let mut agg = Agg { runs: 0, cnt: BTreeMap::new(), traces: HashSet::new(), distinct: HashSet::new(), shapes: HashSet::new(), samples: vec![], vtime: 0 };
    let mut viol: Option<Value> = None;
    let mut harness: Option<String> = None;
    let mut i = w;
    let slow: f64 = std::env::var("SIM_SLOW").ok().and_then(|s| s.parse().ok()).unwrap_or(1e9);
    while i < total && Instant::now() < until && found.load(Ordering::SeqCst) > i {
        let s = run_seed(p, seed, i);
        let ov = Ov::default();
        let t0 = Instant::now();
        let o = run_one(p, &slot, s, &ov, &plans(p, s, &ov, 0), &sc, false);
        if t0.elapsed().as_secs_f64() > slow {
            eprintln!("slow: run {i} {:.1} s {} {:?}", t0.elapsed().as_secs_f64(), o.desc, o.cnt);
        }
        agg.runs += 1;
        agg.vtime += o.vtime;
        for (k, v) in &o.cnt {
            let e = agg.cnt.entry(k.clone()).or_insert(0);
            if k.starts_with("_max") {
                *e = (*e).max(*v)
            } else {
                *e += v
            }
        }
        agg.traces.insert(o.trace);
        agg.shapes.insert(o.shape);
        if o.nontrivial {
            agg.distinct.insert(h3(o.trace, o.shape, 1));
        }
        if agg.samples.len() < 2 && o.nontrivial && o.viol.is_none() {
            agg.samples.push(json!({"run": i, "case_seed": s, "case": o.desc, "trace_hash": format!("{:016x}", o.trace), "counters": o.cnt}));
        }
        if let Some(h) = o.harness {
            harness = Some(format!("run {i}: {h}"));
            break;
        }
        if let Some((c, m)) = o.viol {
            found.fetch_min(i, Ordering::SeqCst);
            viol = Some(json!([i, s, c, m]));
            break;
        }
        i += nw;
    }
    let hv = |s: &HashSet<u64>| s.iter().copied().collect::<Vec<u64>>();
    let v = json!({"runs": agg.runs, "cnt": agg.cnt, "traces": hv(&agg.traces), "distinct": hv(&agg.distinct), "shapes": hv(&agg.shapes), "samples": agg.samples,
        "vtime": agg.vtime, "viol": viol, "harness": harness});
    std::fs::write(format!("{scratch}/w{w}.json"), v.to_string()).expect("worker result");
}

fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned())
}

fn check(args: &[String]) -> i32 {
    let t0 = Instant::now();
    let id = &args[0];
    let p = match PROPS.iter().find(|p| p.id == *id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {id}");
            return 2;
        }
    };
    let seed: u64 = arg(args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = arg(args, "--tier").as_deref() == Some("thorough");
    let jobs: u64 = arg(args, "--jobs").and_then(|s| s.parse().ok()).unwrap_or(8);
    let total: u64 = arg(args, "--runs").and_then(|s| s.parse().ok()).unwrap_or(if thorough { p.quick * 60 } else { p.quick });
    let secs: u64 = arg(args, "--secs").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 2400 } else { 300 });
    let outdir = arg(args, "--out").unwrap_or("/verif".into());
    let known = arg(args, "--known");
    println!("property {} seed {seed} runs {total} jobs {jobs}", p.id);
    let scratch = scratch_dir("chk");
    let found = unsafe { &*(map_shared(4096) as *const AtomicU64) };
    found.store(u64::MAX, Ordering::SeqCst);
    let until = t0 + Duration::from_secs(secs);
    let mut pids = vec![];
    for w in 0..jobs {
        let pid = do_fork();
        if pid == 0 {
            worker(p, seed, w, jobs, total, until, found, &scratch);
            exit_now(0);
        }
        pids.push(pid);
    }
    let mut bad = None;
    for q in pids {
        if wait(q) != 0 {
            bad = Some("a worker died".to_string());
        }
    }
    let mut agg = Agg { runs: 0, cnt: BTreeMap::new(), traces: HashSet::new(), distinct: HashSet::new(), shapes: HashSet::new(), samples: vec![], vtime: 0 };
    let mut viols: Vec<Found> = vec![];
    for w in 0..jobs {
        let v: Value = match std::fs::read(format!("{scratch}/w{w}.json")).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
            Some(v) => v,
            None => {
                bad = Some(format!("no result of worker {w}"));
                continue;
            }
        };
        agg.runs += v["runs"].as_u64().unwrap();
        agg.vtime += v["vtime"].as_u64().unwrap();
        for (k, n) in v["cnt"].as_object().unwrap() {
            let n = n.as_u64().unwrap();
            let e = agg.cnt.entry(k.clone()).or_insert(0);
            if k.starts_with("_max") {
                *e = (*e).max(n)
            } else {
                *e += n
            }
        }
        for (k, s) in [("traces", &mut agg.traces), ("distinct", &mut agg.distinct), ("shapes", &mut agg.shapes)] {
            s.extend(v[k].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()));
        }
        if agg.samples.len() < 3 {
            agg.samples.extend(v["samples"].as_array().unwrap().iter().take(1).cloned());
        }
        if let Some(h) = v["harness"].as_str() {
            bad = Some(h.to_string());
        }
        if let Some(a) = v["viol"].as_array() {
            viols.push(Found { index: a[0].as_u64().unwrap(), seed: a[1].as_u64().unwrap(), class: a[2].as_str().unwrap().into(), msg: a[3].as_str().unwrap().into() });
        }
    }
    let _ = std::fs::remove_dir_all(&scratch);
    viols.sort_by_key(|f| f.index);
    let search_s = t0.elapsed().as_secs_f64();
    let _ = known;
    let faults: BTreeMap<&String, &u64> = agg.cnt.iter().filter(|(k, _)| k.starts_with("fault_")).collect();
    let reach: BTreeMap<&String, &u64> = agg.cnt.iter().filter(|(k, _)| !k.starts_with("fault_") && !k.starts_with('_')).collect();
    let engine: BTreeMap<&String, &u64> = agg.cnt.iter().filter(|(k, _)| k.starts_with('_')).collect();
    let ev = |nviol: i64, wall: f64| {
        json!({
            "property": p.id, "tier": if thorough { "thorough" } else { "quick" }, "seed": seed, "level": p.level,
            "coverage": {
                "evaluations": agg.runs, "distinct_nontrivial": agg.distinct.len(), "rule": p.rule, "samples": agg.samples,
                "simulated_runs_per_hour": (agg.runs as f64 / search_s.max(1e-3) * 3600.0) as u64, "seeds_per_hour": (agg.runs as f64 / search_s.max(1e-3) * 3600.0) as u64,
                "simulated_time_s": agg.vtime as f64 / 1e9, "faults_injected": faults, "reached": reach, "engine": engine,
                "distinct_interleavings": agg.traces.len(), "interleaving_measure": "distinct hashes over all scheduling decisions, wake-up choices and file operations of a run",
                "distinct_cases": agg.shapes.len(),
                "components_real": ["forust-ml from /repo's working tree", "rayon, rayon-core, crossbeam", "serde, serde_json", "rust std (precompiled)"],
                "components_simulated": ["thread scheduler (baton at every atomic operation and sampled plain memory accesses)", "futex, sleep, yield, thread creation and join", "clocks", "entropy and hash keys", "cpu count", "file calls below the scratch directory"],
            },
            "assumptions": ["interleavings are sequentially consistent: weak-memory reorderings are not explored", "thread creation and memory allocation do not fail", "a clean batch is evidence, not proof"],
            "wall_s": wall, "violations": nviol,
        })
    };
    let evpath = format!("{outdir}/evidence/{}.json", p.id);
    let _ = std::fs::create_dir_all(format!("{outdir}/evidence"));
    let write_ev = |n: i64| std::fs::write(&evpath, serde_json::to_string_pretty(&ev(n, t0.elapsed().as_secs_f64())).unwrap()).expect("evidence");
    if let Some(f) = viols.first() {
        println!("run {} (case seed {}) failed: [{}] {}", f.index, f.seed, f.class, f.msg.chars().take(600).collect::<String>());
        let rep = minimise(p, f, if thorough { 240 } else { 60 });
        let _ = std::fs::create_dir_all(format!("{outdir}/replays"));
        let path = format!("{outdir}/replays/{}-{}-{}.json", p.id, seed, f.index);
        std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap()).expect("replay file");
        println!("minimised: {}", rep["message"].as_str().unwrap_or("").chars().take(600).collect::<String>());
        println!("case: {}", rep["case"]);
        println!("replay with: {outdir}/run.sh replay {path}");
        write_ev(1);
        println!("VIOLATION property={} replay={}", p.id, path);
        return 1;
    }
    write_ev(0);
    if let Some(b) = bad {
        eprintln!("harness error: {b}");
        return 2;
    }
    println!(
        "ok: {} runs, {} distinct non-trivial, {} interleavings, {:.1} s simulated, {:.1} s wall, faults {:?}",
        agg.runs, agg.distinct.len(), agg.traces.len(), agg.vtime as f64 / 1e9, t0.elapsed().as_secs_f64(), faults
    );
    0
}

fn replay(path: &str) -> i32 {
    let v: Value = serde_json::from_slice(&std::fs::read(path).expect("replay file")).expect("json");
    let id = v["property"].as_str().unwrap();
    let p = PROPS.iter().find(|p| p.id == id).expect("property");
    let scratch = scratch_dir("rep");
    let pl: Vec<ProcPlan> = v["procs"].as_array().unwrap().iter().map(ProcPlan::from_json).collect();
    let o = run_one(p, &Slot::new(), v["case_seed"].as_u64().unwrap(), &Ov::from_json(&v["overrides"]), &pl, &scratch, false);
    let _ = std::fs::remove_dir_all(&scratch);
    println!("case: {}", o.desc);
    println!("trace hash: {:016x} (recorded {})", o.trace, v["trace_hash"].as_str().unwrap_or(""));
    if let Some(h) = o.harness {
        eprintln!("harness error: {h}");
        return 2;
    }
    match o.viol {
        Some((c, m)) => {
            println!("reproduced: [{c}] {m}");
            println!("VIOLATION property={id} replay={path}");
            1
        }
        None => {
            println!("not reproduced");
            0
        }
    }
}

/// one run by index, verbosely
fn one(args: &[String]) -> i32 {
    let p = PROPS.iter().find(|p| p.id == args[0]).expect("property");
    let seed: u64 = arg(args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let i: u64 = arg(args, "--run").and_then(|s| s.parse().ok()).unwrap_or(0);
    let s = run_seed(p, seed, i);
    let scratch = scratch_dir("one");
    let o = run_one(p, &Slot::new(), s, &Ov::default(), &plans(p, s, &Ov::default(), 0), &scratch, false);
    let _ = std::fs::remove_dir_all(&scratch);
    println!("{} {:?} {:?} trace {:016x}\n{:?}", o.desc, o.viol, o.harness, o.trace, o.cnt);
    0
}

/// determinism: every seed several times, also from its recorded schedule; traces must agree
fn selftest(args: &[String]) -> i32 {
    let n: u64 = arg(args, "--runs").and_then(|s| s.parse().ok()).unwrap_or(40);
    let seed: u64 = arg(args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let only = arg(args, "--prop");
    let scratch = scratch_dir("self");
    let mut pids = vec![];
    for w in 0..8u64 {
        let pid = do_fork();
        if pid == 0 {
            let slot = Slot::new();
            let sc = format!("{scratch}/s{w}");
            let mut bad = 0;
            for p in PROPS.iter().filter(|p| only.as_deref().map(|o| o == p.id).unwrap_or(true)) {
                let mut i = w;
                while i < n {
                    let s = run_seed(p, seed, i);
                    let ov = Ov::default();
                    let pl = plans(p, s, &ov, 0);
                    let a = run_one(p, &slot, s, &ov, &pl, &sc, true);
                    let b = run_one(p, &slot, s, &ov, &pl, &format!("{scratch}/t{w}"), false);
                    if a.trace != b.trace || a.cnt != b.cnt || a.viol != b.viol || a.vtime != b.vtime {
                        println!("NONDETERMINISTIC {} run {i}: {:016x} {:016x} {:?} {:?}", p.id, a.trace, b.trace, a.viol, b.viol);
                        for (k, v) in &a.cnt {
                            if b.cnt.get(k) != Some(v) {
                                println!("   {k}: {v} {:?}", b.cnt.get(k));
                            }
                        }
                        bad += 1;
                    } else if !a.overflow && a.events.len() == pl.len() {
                        let rp: Vec<ProcPlan> = pl.iter().zip(&a.events).map(|(q, e)| { let mut q = q.clone(); q.cfg.mode = 2; q.events = e.clone(); q }).collect();
                        let c = run_one(p, &slot, s, &ov, &rp, &sc, false);
                        if c.trace != a.trace {
                            println!("REPLAY DIFFERS {} run {i}: {:016x} {:016x} {:?}", p.id, a.trace, c.trace, c.viol);
                            bad += 1;
                        }
                    }
                    i += 8;
                }
            }
            exit_now((bad > 0) as i32);
        }
        pids.push(pid);
    }
    let mut bad = 0;
    for q in pids {
        if wait(q) != 0 {
            bad += 1
        }
    }
    let _ = std::fs::remove_dir_all(&scratch);
    println!("selftest: {}", if bad == 0 { "deterministic" } else { "FAILED" });
    (bad > 0) as i32
}

fn main() {
    no_aslr();
    one_arena();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let rc = match args.first().map(|s| s.as_str()) {
        Some("check") => check(&args[1..]),
        Some("replay") => replay(&args[1]),
        Some("selftest") => selftest(&args[1..]),
        Some("one") => one(&args[1..]),
        _ => {
            eprintln!("usage: forust-sim check ID [--tier T] [--seed N] | replay FILE | selftest | one ID --run I");
            2
        }
    };
    std::process::exit(rc);
}
