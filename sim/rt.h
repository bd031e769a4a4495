// Simulator runtime: every memory access, atomic, allocation and blocking primitive of the library under test
// arrives here.  The library's translation units are compiled with -fsanitize=thread and linked against this file
// instead of libtsan.
#pragma once
#include <cstddef>
#include <cstdint>

namespace rt {

constexpr int MAXT = 4;
enum Kind { K_LOCAL = 0, K_SHARED, K_ATOMIC, K_ALLOC, K_OP, K_STATIC, NKIND };

struct Switch {
  uint64_t step;
  int32_t to;
  int32_t kind;
};

enum Status { ST_RUNNING = 0, ST_OK = 1, ST_VIOLATION = 2, ST_SUSPECT = 3, ST_NOROOM = 4 };

// counters of what really happened in a run (not of what was configured)
enum Ctr {
  C_OPS, C_PUT, C_PUT_OUT, C_PUT_THROW, C_GET, C_GET_OUT, C_GET_THROW, C_DRAIN, C_PARTIAL, C_DECODE, C_REDECODE,
  C_DECODE_BAD, C_DECODE_LENIENT, C_RUN, C_RUN_THROW, C_NEW, C_DEL, C_ABANDON, C_SKIP, C_TAINT, C_FAULT_ONE,
  C_FAULT_LAST, C_FAULT_ARMED, C_FAULT_OVERSIZE, C_SWITCH, C_SW_SHARED, C_SW_ATOMIC, C_SW_ALLOC, C_RACECHK, C_ALLOC,
  C_FREE, C_RECYCLED, C_STEPS, C_CHECKED, C_MISMATCH_ROW, C_GROUPS, C_JUDGED, C_LIMBO, C_LOSSY, C_VERIFY,
  // cluster
  C_MSG, C_DROP, C_DUP, C_DELAY, C_CRASH, C_RESTART, C_RETRY, C_SPILL, C_STALL, C_NODE_OOM, C_SIM_MS, C_POOL_REUSE,
  C_MERGE_ROWS, C_CUTPLAN, C_SKEW, C_THREADS, C_HANDOVER, C_CYCLES, C_ENV, C_NOROOM, C_PARTS, C_CARRIED, C_LOST,
  NCTR
};
extern const char *const CTR_NAME[NCTR];

constexpr int MAXSW = 4096;
constexpr int MAXOPS = 16384;

struct Shared {
  volatile int status;
  char cls[64];
  char msg[4096];
  volatile int cur_op[MAXT];
  int fail_op;
  int fail_tid;
  uint64_t ctr[NCTR];
  uint64_t hash;        // of everything observable in the run
  uint64_t sched_hash;  // of the interleaving alone
  int nsw;
  Switch sw[MAXSW];
  uint64_t digest[MAXOPS];  // outcome of each operation
  uint8_t threw[MAXOPS];    // operation ended in an exception or was skipped
  char detail[8192];
};
extern Shared *SH;

struct SchedCfg {
  bool explicit_list = false;
  uint64_t seed = 1;
  double p[NKIND] = {0, 0, 0, 0, 0, 0};
  int max_switch = 200;
  int start = 0;
  int n = 0;
  const Switch *list = nullptr;
};

void init_process();                                     // once, before any fork
void begin_run(int fill_mode, uint64_t fill_seed, bool recycle);  // in the child
void run_threads(int n, void (*fn)(int), const SchedCfg &cfg, bool race);

[[noreturn]] void violation(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void suspect(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void finish_ok();
inline void ctr(Ctr c, uint64_t n = 1) {
  SH->ctr[c] += n;
}
void mix(uint64_t v);        // into the run's hash
void set_step_limit(uint64_t per_call);

struct Tls {
  int lib = 0;       // executing library code
  int track = 0;     // allocations go to the arena
  int nopre = 0;     // no preemption (inside a static-initialisation guard)
  int tid = 0;
  int fault_mode = 0;  // 0 none, 1 one-shot, 2 lasting
  int64_t fault_k = 0;
  int fault_fired = 0;
  uint64_t call_steps = 0;
  uint64_t call_allocs = 0;
  uint64_t work = 0;     // steps, bytes moved and memory asked for, in all calls
  uintptr_t stack_lo = 0, stack_hi = 0;
};
extern __thread Tls T;

// scope of one call into the library
struct Lib {
  Lib() {
    T.lib++;
    T.call_steps = 0;
    T.call_allocs = 0;
  }
  ~Lib() {
    T.lib--;
  }
};
// scope in which the harness builds objects which the library will own
struct Track {
  Track() {
    T.track++;
  }
  ~Track() {
    T.track--;
  }
};

extern void (*on_noroom)();  // when the simulated memory is used up
void op_point();  // explicit scheduling point between operations

uint64_t live_blocks();
uint64_t live_bytes();
void enter_thread();  // a thread of the harness which stands in for the main one
void live_report(char *buf, size_t n, uint64_t min_serial);
uint64_t alloc_serial();
bool in_arena(const void *p);

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {
  }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) {
    return n ? next() % n : 0;
  }
  int64_t range(int64_t a, int64_t b) {
    return a + (int64_t)below((uint64_t)(b - a + 1));
  }
  bool chance(double p) {
    return (next() >> 11) * (1.0 / 9007199254740992.0) < p;
  }
};
inline uint64_t hash64(uint64_t a, uint64_t b) {
  Rng r(a * 0x9E3779B97F4A7C15ULL ^ (b + 0x7F4A7C15F39CC060ULL));
  r.next();
  return r.next();
}

}  // namespace rt
