//! FFI to the simulator runtime (csrc/) and process plumbing.
#![allow(dead_code)]
use std::ffi::CString;

pub const MAXEV: usize = 200_000;
#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Ev {
    pub kind: u32,
    pub tid: u32,
    pub at: u64,
}
#[repr(C)]
#[derive(Clone, Debug, Default)]
pub struct Cfg {
    pub seed: u64,
    pub entropy_seed: u64,
    pub mode: u64,
    pub gap_atomic: u64,
    pub gap_mem: u64,
    pub max_steps: u64,
    pub stall_prob: u64,
    pub stall_len: u64,
    pub spurious: u64,
    pub thread_fail: u64,
    pub ncpu: u64,
    pub clock_start: i64,
    pub wall_offset: i64,
    pub clock_jump: u64,
    pub max_mem: u64,
}
#[repr(C)]
pub struct Shared {
    pub outcome: i64,
    pub msg: [u8; 4096],
    pub trace_hash: u64,
    pub steps_a: u64,
    pub steps_m: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub forced: u64,
    pub threads: u64,
    pub vtime: i64,
    pub timer_jumps: u64,
    pub sleeps: u64,
    pub clock_reads: u64,
    pub entropy_bytes: u64,
    pub fault_stall: u64,
    pub fault_spurious: u64,
    pub fault_thread: u64,
    pub rec_n: u64,
    pub rec_overflow: u64,
    pub rep_n: u64,
    pub rec: [Ev; MAXEV],
    pub rep: [Ev; MAXEV],
}
#[repr(C)]
pub struct Flog {
    pub op: i32,
    pub off: i64,
    pub len: i64,
    pub path: [u8; 512],
    pub path2: [u8; 512],
    pub data: *mut u8,
}
extern "C" {
    fn sim_start(c: *const Cfg, s: *mut Shared) -> i32;
    fn sim_finish();
    fn sim_note(v: u64);
    fn sim_quiet(on: i32);
    fn mallopt(p: i32, v: i32) -> i32;
    fn sim_fs_root(p: *const i8);
    fn sim_fs_clear();
    fn sim_fs_plan(op: i32, nth: u64, act: i32, arg: i64);
    fn sim_fs_transient(seed: u64, ps: u64, pe: u64);
    fn sim_fs_quota(b: i64);
    fn sim_fs_log(on: i32);
    fn sim_fs_log_n() -> i32;
    fn sim_fs_log_get(i: i32) -> *const Flog;
    fn sim_fs_stat(k: i32) -> u64;
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn alarm(s: u32) -> u32;
    fn getpid() -> i32;
    fn personality(p: u64) -> i32;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
}
pub fn start(c: &Cfg, s: *mut Shared) {
    unsafe { sim_start(c, s) };
}
pub fn finish() {
    unsafe { sim_finish() }
}
pub fn note(v: u64) {
    unsafe { sim_note(v) }
}
pub fn map_shared(n: usize) -> *mut u8 {
    let p = unsafe { mmap(std::ptr::null_mut(), n, 3, 0x21, -1, 0) };
    assert!(p as isize != -1, "mmap");
    p
}
pub fn do_fork() -> i32 {
    unsafe { fork() }
}
pub fn wait(pid: i32) -> i32 {
    let mut st = 0;
    loop {
        let r = unsafe { waitpid(pid, &mut st, 0) };
        if r == pid {
            return st;
        }
        if r < 0 && std::io::Error::last_os_error().raw_os_error() != Some(4) {
            return -1;
        }
    }
}
pub fn exit_now(c: i32) -> ! {
    unsafe { _exit(c) }
}
pub fn set_alarm(s: u32) {
    unsafe { alarm(s) };
}
pub fn no_core() {
    unsafe { setrlimit(4, &[0, 0]) };
}
/// address space in bytes, CPU seconds
pub fn limits(mem: u64, cpu: u64) {
    unsafe {
        setrlimit(9, &[mem, mem]);
        setrlimit(0, &[cpu, cpu + 20]);
    }
}
/// the kernel's address randomisation would be nondeterminism outside the seed: run without it
pub fn no_aslr() {
    use std::os::unix::process::CommandExt;
    const NO_RANDOMIZE: i32 = 0x0040000;
    unsafe {
        let p = personality(0xffffffff);
        if p < 0 || p & NO_RANDOMIZE != 0 || personality((p | NO_RANDOMIZE) as u64) < 0 || personality(0xffffffff) & NO_RANDOMIZE == 0 {
            return;
        }
    }
    let mut a = std::env::args_os();
    let name = a.next().unwrap_or_default();
    let _ = std::process::Command::new("/proc/self/exe").arg0(name).args(a).exec();
}
pub fn one_arena() {
    unsafe { mallopt(-8, 1) };
}
/// no scheduling until the process ends (used in a forked copy, where the other threads do not exist)
pub fn quiet() {
    unsafe { sim_quiet(1) }
}
pub fn pid() -> i32 {
    unsafe { getpid() }
}

pub const OP_OPEN_R: i32 = 1;
pub const OP_OPEN_W: i32 = 2;
pub const OP_READ: i32 = 3;
pub const OP_WRITE: i32 = 4;
pub const OP_FSYNC: i32 = 6;
pub const OP_TRUNC: i32 = 7;
pub const OP_RENAME: i32 = 8;
pub const OP_UNLINK: i32 = 9;
pub const A_ERR: i32 = 1;
pub const A_SHORT: i32 = 2;
pub const A_CRASH: i32 = 3;
pub const A_EINTR: i32 = 4;
pub const A_STICKY: i32 = 5;
pub const A_ZERO: i32 = 6;
pub mod fs {
    use super::*;
    pub fn root(p: Option<&str>) {
        match p {
            None => unsafe { sim_fs_root(std::ptr::null()) },
            Some(s) => {
                let c = CString::new(s).unwrap();
                unsafe { sim_fs_root(c.as_ptr() as *const i8) }
            }
        }
    }
    pub fn clear() {
        unsafe { sim_fs_clear() }
    }
    pub fn plan(op: i32, nth: u64, act: i32, arg: i64) {
        unsafe { sim_fs_plan(op, nth, act, arg) }
    }
    pub fn transient(seed: u64, ps: u64, pe: u64) {
        unsafe { sim_fs_transient(seed, ps, pe) }
    }
    pub fn quota(b: i64) {
        unsafe { sim_fs_quota(b) }
    }
    pub fn log(on: bool) {
        unsafe { sim_fs_log(on as i32) }
    }
    pub struct Op {
        pub op: i32,
        pub off: i64,
        pub len: i64,
        pub path: String,
        pub path2: String,
        pub data: Vec<u8>,
    }
    fn cs(b: &[u8]) -> String {
        let n = b.iter().position(|c| *c == 0).unwrap_or(b.len());
        String::from_utf8_lossy(&b[..n]).into_owned()
    }
    pub fn ops() -> Vec<Op> {
        let n = unsafe { sim_fs_log_n() };
        (0..n)
            .map(|i| unsafe {
                let e = &*sim_fs_log_get(i);
                Op {
                    op: e.op,
                    off: e.off,
                    len: e.len,
                    path: cs(&e.path),
                    path2: cs(&e.path2),
                    data: if e.data.is_null() { vec![] } else { std::slice::from_raw_parts(e.data, e.len as usize).to_vec() },
                }
            })
            .collect()
    }
    /// 0 ops, 1 short reads, 2 short writes, 3 EINTR, 4 errors, 5 ENOSPC, 6 crashes, 7 hash, 8 mutating calls since clear
    pub fn stat(k: i32) -> u64 {
        unsafe { sim_fs_stat(k) }
    }
}

/// splitmix64
#[derive(Clone)]
pub struct R(pub u64);
impl R {
    pub fn new(s: u64) -> R {
        let mut r = R(s ^ 0x5851F42D4C957F2D);
        r.u();
        r
    }
    pub fn u(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn n(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.u() % n
        }
    }
    /// a..=b
    pub fn r(&mut self, a: u64, b: u64) -> u64 {
        a + self.n(b - a + 1)
    }
    pub fn f(&mut self) -> f64 {
        (self.u() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn p(&mut self, p: f64) -> bool {
        self.f() < p
    }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.n(v.len() as u64) as usize].clone()
    }
}
pub fn h3(a: u64, b: u64, c: u64) -> u64 {
    let mut r = R(a ^ b.wrapping_mul(0xD6E8FEB86659FD93) ^ c.wrapping_mul(0xA0761D6478BD642F));
    r.u();
    r.u()
}
pub fn hf(a: u64, b: u64, c: u64) -> f64 {
    (h3(a, b, c) >> 11) as f64 / (1u64 << 53) as f64
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for c in b {
        h = (h ^ *c as u64).wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 31)
}
