#pragma once
#include <stdint.h>
enum { SIM_RANDOM = 0, SIM_PCT = 1, SIM_REPLAY = 2 };
enum { SIM_OUT_NONE = 0, SIM_OUT_OK = 1, SIM_OUT_HANG = 2, SIM_OUT_DEADLOCK = 3 };
#define SIM_MAXEV 200000
struct sim_ev { uint32_t kind; uint32_t tid; uint64_t at; };
struct sim_cfg {
  uint64_t seed, entropy_seed;
  uint64_t mode;
  uint64_t gap_atomic, gap_mem;
  uint64_t max_steps;
  uint64_t stall_prob, stall_len;
  uint64_t spurious, thread_fail;
  uint64_t ncpu;
  int64_t clock_start, wall_offset;
  uint64_t clock_jump;
  uint64_t max_mem;
};
struct sim_shared {
  int64_t outcome;
  char msg[4096];
  uint64_t trace_hash, steps_a, steps_m, switches, preemptions, forced, threads;
  int64_t vtime;
  uint64_t timer_jumps, sleeps, clock_reads, entropy_bytes;
  uint64_t fault_stall, fault_spurious, fault_thread;
  uint64_t rec_n, rec_overflow, rep_n;
  struct sim_ev rec[SIM_MAXEV];
  struct sim_ev rep[SIM_MAXEV];
};
