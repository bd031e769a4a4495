#include "rt.h"

#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <new>

namespace rt {

const char *const CTR_NAME[NCTR] = {
    "ops", "puts", "put_outputs", "put_throws", "gets", "get_outputs", "get_throws", "drains", "partial_drains", "decodes",
    "redecodes", "decodes_rejected", "decodes_dont_care", "runs", "run_throws", "runners_created", "runners_destroyed",
    "abandoned_streams", "ops_skipped", "unspecified_values", "alloc_fault_oneshot_fired", "alloc_fault_lasting_fired",
    "alloc_fault_armed", "alloc_fault_oversize", "preemptions", "preemptions_at_shared_access", "preemptions_at_atomic",
    "preemptions_at_alloc", "race_checks", "allocations", "releases", "recycled_blocks", "steps", "values_checked",
    "mistyped_rows", "groups_delivered", "judged_by_reference_run", "ambiguous_partial_drains", "lossy_drains_after_fault",
    "retained_values_verified", "net_messages", "net_dropped", "net_duplicated", "net_delayed", "node_crashes",
    "node_restarts", "region_retries", "partial_spills", "node_stalls", "node_out_of_memory", "simulated_ms",
    "pooled_runner_reuse", "merge_rows", "plans_cut_in_transit", "timer_skews", "threads_begun", "calls_on_another_thread", "cycles", "environment_changes",
    "ended_for_lack_of_simulated_memory", "later_parts_of_cut_plans", "rows_carried_between_parts", "parts_lost_and_made_again"};

Shared *SH;
__thread Tls T __attribute__((tls_model("initial-exec")));

// ------------------------------------------------------------------ arena
static const uintptr_t ARENA = 0x100000000000ULL;
static const size_t ARENA_SZ = 512ULL << 20;
static const uintptr_t SHADOW = 0x110000000000ULL;   // 1 byte per 8 bytes
static const uintptr_t RSHADOW = 0x120000000000ULL;  // race shadow, 64 bytes per 8 bytes

struct Block {
  uint32_t off;   // user offset in arena
  uint32_t size;  // user size
  uint32_t next;  // free list
  uint16_t op;
  uint8_t kind;   // 1 new, 2 new[]
  uint8_t state;  // 1 live, 2 freed
};
static const uintptr_t BLOCKS = 0x130000000000ULL;
static const uint32_t MAXBLOCKS = 8u << 20;
static Block *const B = (Block *)BLOCKS;

struct RCell {
  uint32_t wclk[MAXT];
  uint32_t rclk[MAXT];
  uint8_t wmask[MAXT];
  uint8_t rmask[MAXT];
  uint8_t pad[24];
};
static_assert(sizeof(RCell) == 64, "");

static struct {
  size_t bump;
  uint32_t nblocks;
  uint64_t live;
  uint64_t bytes;
  int fill_mode;
  Rng fill_rng{1};
  bool recycle;
  uint32_t freelist[260];
  uint64_t step_limit;
  // scheduler
  bool sched_on;
  bool race;
  int n;
  int cur;
  bool alive[MAXT];
  uint64_t steps;
  SchedCfg cfg;
  uint64_t prob[NKIND];
  Rng srng{1};
  int ei;
  int nsw;
  int blocked;
  uint32_t vc[MAXT][MAXT];
  sem_t sem[MAXT];
  sem_t main_sem;
  void (*fn)(int);
  uint64_t simclock;
} G;

// ------------------------------------------------------------------ reporting
static void put_status(int st, const char *cls, const char *fmt, va_list ap) {
  T.lib = 0;
  if (SH->status == ST_RUNNING) {
    snprintf(SH->cls, sizeof SH->cls, "%s", cls);
    vsnprintf(SH->msg, sizeof SH->msg, fmt, ap);
    SH->fail_tid = T.tid;
    SH->fail_op = SH->cur_op[T.tid];
    SH->ctr[C_STEPS] += G.steps;
    SH->nsw = G.nsw;
    SH->status = st;
  }
  _exit(0);
}
void violation(const char *cls, const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  put_status(ST_VIOLATION, cls, fmt, ap);
  __builtin_unreachable();
}
void suspect(const char *cls, const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  put_status(ST_SUSPECT, cls, fmt, ap);
  __builtin_unreachable();
}
void finish_ok() {
  T.lib = 0;
  SH->ctr[C_STEPS] += G.steps;
  SH->nsw = G.nsw;
  SH->status = ST_OK;
  _exit(0);
}
void mix(uint64_t v) {
  SH->hash = hash64(SH->hash, v);
}
void set_step_limit(uint64_t n) {
  G.step_limit = n;
}

static void *map_at(uintptr_t a, size_t n) {
  void *p = mmap((void *)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void *)a) {
    fprintf(stderr, "cannot map simulator arena at %lx: %s\n", a, strerror(errno));
    _exit(3);
  }
  return p;
}

void init_process() {
  map_at(ARENA, ARENA_SZ);
  map_at(SHADOW, ARENA_SZ / 8);
  map_at(RSHADOW, ARENA_SZ / 8 * sizeof(RCell));
  map_at(BLOCKS, (size_t)MAXBLOCKS * sizeof(Block));
  SH = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (SH == MAP_FAILED) {
    _exit(3);
  }
  G.bump = 64;
  G.nblocks = 1;
  G.step_limit = 60000000;
}

static void set_stack() {
  pthread_attr_t a;
  void *lo = nullptr;
  size_t n = 0;
  if (pthread_getattr_np(pthread_self(), &a) == 0) {
    pthread_attr_getstack(&a, &lo, &n);
    pthread_attr_destroy(&a);
  }
  T.stack_lo = (uintptr_t)lo;
  T.stack_hi = (uintptr_t)lo + n;
}

void begin_run(int fill_mode, uint64_t fill_seed, bool recycle) {
  G.fill_mode = fill_mode;
  G.fill_rng = Rng(fill_seed);
  G.recycle = recycle;
  G.steps = 0;
  G.simclock = 1700000000ULL * 1000000000ULL + fill_seed % 1000000007ULL;
  memset(&T, 0, sizeof T);
  set_stack();
}

bool in_arena(const void *p) {
  return (uintptr_t)p - ARENA < ARENA_SZ;
}

static inline uint8_t *sh_of(uintptr_t a) {
  return (uint8_t *)(SHADOW + ((a - ARENA) >> 3));
}
enum { S_RED = 0xFA, S_FREE = 0xFD };

[[noreturn]] static void bad_access(uintptr_t a, size_t n, bool w, uintptr_t at) {
  // name the nearest block below
  uint32_t off = (uint32_t)(at - ARENA);
  const char *what = "wild";
  char info[200] = "unallocated simulator memory";
  for (uint32_t i = G.nblocks; i-- > 1;) {
    if (off + 16 >= B[i].off && off < B[i].off + B[i].size + 32) {
      if (B[i].state == 2 && off >= B[i].off && off < B[i].off + B[i].size) {
        what = "use-after-free";
      } else {
        what = "heap-out-of-bounds";
      }
      snprintf(info, sizeof info, "%s of a block of %u bytes allocated in op %d, offset %ld",
               B[i].state == 2 ? "freed memory" : "outside", B[i].size, B[i].op, (long)off - (long)B[i].off);
      break;
    }
  }
  violation(what, "%s of %zu bytes: %s", w ? "write" : "read", n, info);
}

static inline void check_arena(uintptr_t a, size_t n, bool w) {
  uintptr_t e = a + n;
  if (e > ARENA + G.bump) {
    bad_access(a, n, w, ARENA + G.bump > a ? ARENA + G.bump : a);
  }
  for (uintptr_t g = a & ~7ULL; g < e; g += 8) {
    uint8_t s = *sh_of(g);
    if (s != 0) {
      if (s < 8) {
        uintptr_t last = (e < g + 8 ? e : g + 8);
        if (last - g <= s) {
          continue;
        }
        bad_access(a, n, w, g + s);
      }
      bad_access(a, n, w, g < a ? a : g);
    }
  }
}

void (*on_noroom)() = nullptr;
static void *arena_alloc(size_t n, int kind, size_t align) {
  T.call_allocs++;
  ctr(C_ALLOC);
  if (align < 16) {
    align = 16;
  }
  if (n > (64u << 20)) {
    ctr(C_FAULT_OVERSIZE);
    return nullptr;
  }
  size_t cls = (n + 15) / 16;
  uintptr_t u = 0;
  uint32_t id = 0;
  if (G.recycle && cls < 256 && align == 16 && G.freelist[cls]) {
    id = G.freelist[cls];
    G.freelist[cls] = B[id].next;
    u = ARENA + B[id].off;
    ctr(C_RECYCLED);
  } else {
    size_t pos = (G.bump + 16 + align - 1) / align * align;
    size_t total = pos + cls * 16 + 16;
    if (total > ARENA_SZ - 4096 || G.nblocks + 1 >= MAXBLOCKS) {
      // the scenario is larger than the simulated machine: no verdict
      ctr(C_NOROOM);
      T.lib = 0;
      if (on_noroom) on_noroom();
      SH->ctr[C_STEPS] += G.steps;
      SH->nsw = G.nsw;
      if (SH->status == ST_RUNNING) SH->status = ST_NOROOM;
      _exit(0);
    }
    u = ARENA + pos;
    // red zone on both sides
    for (uintptr_t g = (ARENA + G.bump) & ~7ULL; g < u; g += 8) {
      *sh_of(g) = S_RED;
    }
    for (uintptr_t g = u + cls * 16; g < ARENA + total; g += 8) {
      *sh_of(g) = S_RED;
    }
    G.bump = total;
    id = G.nblocks++;
  }
  Block &b = B[id];
  b.off = (uint32_t)(u - ARENA);
  b.size = (uint32_t)n;
  b.kind = (uint8_t)kind;
  b.state = 1;
  b.next = 0;
  b.op = (uint16_t)SH->cur_op[T.tid];
  *(uint64_t *)(u - 8) = 0xB10C000000000000ULL | id;
  for (size_t i = 0; i < cls * 2; i++) {
    size_t left = n > i * 8 ? n - i * 8 : 0;
    *sh_of(u + i * 8) = left >= 8 ? 0 : (left == 0 ? S_RED : (uint8_t)left);
  }
  if (G.race) {
    uint64_t *rc = (uint64_t *)(RSHADOW + (u - ARENA) / 8 * sizeof(RCell));
    for (size_t i = 0; i < cls * 2 * sizeof(RCell) / 8; i++) rc[i] = 0;
  }
  uint8_t *p = (uint8_t *)u;
  switch (G.fill_mode) {
  case 0:
    for (size_t i = 0; i < n; i++) p[i] = 0;
    break;
  case 1:
    for (size_t i = 0; i < n; i++) p[i] = 0xFF;
    break;
  case 2:
    for (size_t i = 0; i < n; i++) p[i] = 0xA5;
    break;
  case 3:
    if (!G.recycle) {
      for (size_t i = 0; i < n; i++) p[i] = (uint8_t)G.fill_rng.next();
    }
    break;  // recycled memory keeps its old content
  default:
    for (size_t i = 0; i < n; i++) p[i] = (uint8_t)G.fill_rng.next();
  }
  G.live++;
  G.bytes += n;
  return p;
}

static void arena_free(void *ptr, int kind) {
  uintptr_t u = (uintptr_t)ptr;
  uint64_t h = 0;
  if ((u & 15) == 0 && u - ARENA >= 16 && u < ARENA + G.bump) {
    h = *(uint64_t *)(u - 8);
  }
  uint32_t id = (uint32_t)h;
  if ((h >> 48) != 0xB10C || id == 0 || id >= G.nblocks || B[id].off != (uint32_t)(u - ARENA)) {
    violation("bad-release", "release of an address that is not the start of an allocated block");
  }
  Block &b = B[id];
  if (b.state != 1) {
    violation("double-free", "block of %u bytes allocated in op %d is released twice", b.size, b.op);
  }
  if (b.kind != kind) {
    violation("mismatched-release", "block of %u bytes allocated by %s is released by %s", b.size,
              b.kind == 1 ? "new" : b.kind == 2 ? "new[]" : "malloc", kind == 1 ? "delete" : kind == 2 ? "delete[]" : "free");
  }
  b.state = 2;
  ctr(C_FREE);
  size_t cls = (b.size + 15) / 16;
  for (size_t i = 0; i < cls * 2; i++) {
    *sh_of(u + i * 8) = S_FREE;
  }
  if (!(G.recycle && G.fill_mode == 3)) {
    uint8_t *p = (uint8_t *)u;
    for (size_t i = 0; i < b.size; i++) p[i] = 0xDB;
  }
  G.live--;
  G.bytes -= b.size;
  if (G.recycle && cls < 256) {
    b.next = G.freelist[cls];
    G.freelist[cls] = id;
  }
}

uint64_t live_blocks() {
  return G.live;
}
uint64_t live_bytes() {
  return G.bytes;
}
void enter_thread() {
  memset(&T, 0, sizeof T);
  set_stack();
}
uint64_t alloc_serial() {
  return G.nblocks;
}
void live_report(char *buf, size_t n, uint64_t) {
  size_t k = 0;
  int shown = 0;
  for (uint32_t i = 1; i < G.nblocks && shown < 6; i++) {
    if (B[i].state == 1) {
      k += snprintf(buf + k, n - k, "%s%u bytes (op %d)", shown ? ", " : "", B[i].size, B[i].op);
      shown++;
      if (k + 40 > n) {
        break;
      }
    }
  }
}

// ------------------------------------------------------------------ scheduler
static void record(int to, int kind) {
  if (G.nsw < MAXSW) {
    SH->sw[G.nsw] = Switch{G.steps, to, kind};
    G.nsw++;
  }
  SH->nsw = G.nsw;
  SH->sched_hash = hash64(SH->sched_hash, G.steps * 8 + to);
  ctr(C_SWITCH);
  if (kind == K_SHARED) ctr(C_SW_SHARED);
  if (kind == K_ATOMIC) ctr(C_SW_ATOMIC);
  if (kind == K_ALLOC) ctr(C_SW_ALLOC);
}

static void switch_to(int to) {
  int self = T.tid;
  G.cur = to;
  sem_post(&G.sem[to]);
  while (sem_wait(&G.sem[self]) != 0) {
  }
}

static void sched_point(int kind) {
  if (!G.sched_on || T.nopre) {
    return;
  }
  int to = -1;
  if (G.cfg.explicit_list) {
    while (G.ei < G.cfg.n && G.steps >= G.cfg.list[G.ei].step) {
      int c = G.cfg.list[G.ei].to;
      G.ei++;
      if (c >= 0 && c < G.n && G.alive[c] && c != T.tid) {
        to = c;
        break;
      }
    }
  } else if (G.prob[kind] && G.nsw < G.cfg.max_switch && (G.srng.next() >> 32) < G.prob[kind]) {
    int cand[MAXT];
    int nc = 0;
    for (int i = 0; i < G.n; i++) {
      if (i != T.tid && G.alive[i]) {
        cand[nc++] = i;
      }
    }
    if (nc) {
      to = cand[G.srng.below(nc)];
    }
  }
  if (to >= 0) {
    record(to, kind);
    switch_to(to);
  }
}

void op_point() {
  if (G.sched_on) {
    G.steps++;
    sched_point(K_OP);
  }
}

// the current thread cannot proceed until another one runs
static void blocked_yield() {
  if (!G.sched_on) {
    violation("self-deadlock", "library blocks on a lock it already holds");
  }
  G.steps++;
  if (++G.blocked > 20000) {
    violation("deadlock", "all threads blocked");
  }
  int to = T.tid;
  for (int i = 1; i <= G.n; i++) {
    int c = (T.tid + i) % G.n;
    if (G.alive[c] && c != T.tid) {
      to = c;
      break;
    }
  }
  if (to == T.tid) {
    violation("deadlock", "thread blocked forever");
  }
  switch_to(to);
}

static void *thread_main(void *arg) {
  int id = (int)(intptr_t)arg;
  while (sem_wait(&G.sem[id]) != 0) {
  }
  memset(&T, 0, sizeof T);
  T.tid = id;
  set_stack();
  G.fn(id);
  T.lib = 0;
  G.alive[id] = false;
  int to = -1;
  for (int i = 0; i < G.n; i++) {
    if (G.alive[i]) {
      to = i;
      break;
    }
  }
  if (to >= 0) {
    G.cur = to;
    sem_post(&G.sem[to]);
  } else {
    sem_post(&G.main_sem);
  }
  return nullptr;
}

void run_threads(int n, void (*fn)(int), const SchedCfg &cfg, bool race) {
  G.n = n;
  G.fn = fn;
  G.cfg = cfg;
  G.srng = Rng(cfg.seed);
  G.ei = 0;
  G.blocked = 0;
  for (int k = 0; k < NKIND; k++) {
    G.prob[k] = (uint64_t)(cfg.p[k] * 4294967296.0);
  }
  sem_init(&G.main_sem, 0, 0);
  for (int i = 0; i < n; i++) {
    G.alive[i] = true;
    sem_init(&G.sem[i], 0, 0);
    for (int j = 0; j < MAXT; j++) {
      G.vc[i][j] = i == j ? 2 : 1;
    }
  }
  G.race = race;
  G.sched_on = true;
  pthread_t th[MAXT];
  for (int i = 0; i < n; i++) {
    if (pthread_create(&th[i], nullptr, thread_main, (void *)(intptr_t)i) != 0) {
      _exit(3);
    }
  }
  int start = cfg.start % n;
  G.cur = start;
  sem_post(&G.sem[start]);
  while (sem_wait(&G.main_sem) != 0) {
  }
  for (int i = 0; i < n; i++) {
    pthread_join(th[i], nullptr);
  }
  G.sched_on = false;
  G.race = false;
}

// ------------------------------------------------------------------ happens-before race detection
struct HEnt {
  uintptr_t key;
  RCell c;
};
static const size_t HN = 1 << 15;
static HEnt HT[HN];
struct SEnt {
  uintptr_t key;
  uint32_t vc[MAXT];
};
static const size_t SN = 1 << 18;
static SEnt ST[SN];

static RCell *cell_of(uintptr_t g) {
  if (g - ARENA < ARENA_SZ) {
    return (RCell *)(RSHADOW + (g - ARENA) / 8 * sizeof(RCell));
  }
  size_t h = hash64(g, 7) & (HN - 1);
  for (size_t i = 0; i < 64; i++) {
    HEnt &e = HT[(h + i) & (HN - 1)];
    if (e.key == g) {
      return &e.c;
    }
    if (e.key == 0) {
      e.key = g;
      return &e.c;
    }
  }
  return nullptr;
}

static uint32_t *sync_of(uintptr_t a) {
  size_t h = hash64(a, 11) & (SN - 1);
  for (size_t i = 0; i < 256; i++) {
    SEnt &e = ST[(h + i) & (SN - 1)];
    if (e.key == a) {
      return e.vc;
    }
    if (e.key == 0) {
      e.key = a;
      return e.vc;
    }
  }
  // No room: all others share one, which can hide a race and never makes one up.
  static uint32_t rest[MAXT];
  return rest;
}
static void hb_acquire(uintptr_t a) {
  if (!G.race) return;
  uint32_t *s = sync_of(a);
  for (int i = 0; i < MAXT; i++) {
    if (s[i] > G.vc[T.tid][i]) G.vc[T.tid][i] = s[i];
  }
}
static void hb_release(uintptr_t a) {
  if (!G.race) return;
  uint32_t *s = sync_of(a);
  for (int i = 0; i < MAXT; i++) {
    if (G.vc[T.tid][i] > s[i]) s[i] = G.vc[T.tid][i];
  }
  G.vc[T.tid][T.tid]++;
}

// returns true when another thread has touched the granule
static bool race_access(uintptr_t a, size_t n, bool w) {
  bool shared = false;
  int t = T.tid;
  uint32_t now = G.vc[t][t];
  uintptr_t e = a + n;
  for (uintptr_t g = a & ~7ULL; g < e; g += 8) {
    RCell *c = cell_of(g);
    if (!c) continue;
    unsigned lo = g < a ? (unsigned)(a - g) : 0;
    unsigned hi = e < g + 8 ? (unsigned)(e - g) : 8;
    uint8_t m = (uint8_t)(((1u << hi) - 1) & ~((1u << lo) - 1));
    for (int u = 0; u < G.n; u++) {
      if (u == t) continue;
      if (c->wclk[u] | c->rclk[u]) shared = true;
      if ((c->wmask[u] & m) && c->wclk[u] > G.vc[t][u]) {
        violation("data-race", "%s by thread %d (op %d) of memory thread %d wrote without synchronisation (its op is now %d); %s",
                  w ? "write" : "read", t, SH->cur_op[t], u, SH->cur_op[u],
                  (a - ARENA < ARENA_SZ) ? "heap" : "global or static memory");
      }
      if (w && (c->rmask[u] & m) && c->rclk[u] > G.vc[t][u]) {
        violation("data-race", "write by thread %d (op %d) of memory thread %d read without synchronisation (its op is now %d); %s", t,
                  SH->cur_op[t], u, SH->cur_op[u], (a - ARENA < ARENA_SZ) ? "heap" : "global or static memory");
      }
    }
    if (w) {
      c->wmask[t] = c->wclk[t] == now ? (c->wmask[t] | m) : m;
      c->wclk[t] = now;
    } else {
      c->rmask[t] = c->rclk[t] == now ? (c->rmask[t] | m) : m;
      c->rclk[t] = now;
    }
  }
  return shared;
}

static void access(uintptr_t a, size_t n, bool w) {
  G.steps++;
  T.work++;
  if (__builtin_expect(++T.call_steps > G.step_limit, 0)) {
    violation("no-progress", "one call executed more than %lu steps without returning", (unsigned long)G.step_limit);
  }
  if (a - T.stack_lo < T.stack_hi - T.stack_lo) {
    return;
  }
  int kind = K_SHARED;
  if (a - ARENA < ARENA_SZ) {
    check_arena(a, n, w);
    kind = K_LOCAL;
  } else if (w) {
    kind = K_STATIC;  // state of the library itself is written: rarely done, and worth a look by another thread
  }
  if (G.sched_on) {
    if (G.race) {
      SH->ctr[C_RACECHK]++;
      if (race_access(a, n, w) && kind == K_LOCAL) kind = K_SHARED;
    }
    sched_point(kind);
  }
}
static inline void acc(const volatile void *p, size_t n, bool w) {
  if (__builtin_expect(T.lib == 0, 1)) {
    return;
  }
  access((uintptr_t)p, n, w);
}
static void range(const void *p, size_t n, bool w) {
  if (n == 0) return;
  if (n > (1ULL << 40)) {
    violation("heap-out-of-bounds", "%s of %zu bytes", w ? "write" : "read", n);
  }
  T.work += n / 16;
  access((uintptr_t)p, n, w);
}

}  // namespace rt

using namespace rt;

// ------------------------------------------------------------------ operator new / delete
static void *do_new(size_t n, int kind, bool nothrow, size_t align) {
  if (T.lib == 0 && T.track == 0) {
    void *p = align > 16 ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n ? n : 1);
    if (!p && !nothrow) throw std::bad_alloc();
    return p;
  }
  if (T.lib) {
    T.work += 4 + n / 64;
    if (G.sched_on) {
      G.steps++;
      sched_point(K_ALLOC);
    }
    if (T.fault_mode) {
      if (T.fault_k > 0) T.fault_k--;
      if (T.fault_k == 0) {
        if (!T.fault_fired) ctr(T.fault_mode == 1 ? C_FAULT_ONE : C_FAULT_LAST);
        T.fault_fired++;
        if (T.fault_mode == 1) T.fault_mode = 0;
        if (nothrow) return nullptr;
        throw std::bad_alloc();
      }
    }
  }
  void *p = arena_alloc(n, kind, align);
  if (!p && !nothrow) throw std::bad_alloc();
  return p;
}
static void do_delete(void *p, int kind) {
  if (!p) return;
  if (in_arena(p)) {
    if (T.lib && G.sched_on) {
      G.steps++;
      sched_point(K_ALLOC);
    }
    arena_free(p, kind);
  } else {
    free(p);
  }
}
void *operator new(size_t n) { return do_new(n, 1, false, 16); }
void *operator new[](size_t n) { return do_new(n, 2, false, 16); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return do_new(n, 1, true, 16); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return do_new(n, 2, true, 16); }
void *operator new(size_t n, std::align_val_t a) { return do_new(n, 1, false, (size_t)a); }
void *operator new[](size_t n, std::align_val_t a) { return do_new(n, 2, false, (size_t)a); }
void operator delete(void *p) noexcept { do_delete(p, 1); }
void operator delete[](void *p) noexcept { do_delete(p, 2); }
void operator delete(void *p, size_t) noexcept { do_delete(p, 1); }
void operator delete[](void *p, size_t) noexcept { do_delete(p, 2); }
void operator delete(void *p, const std::nothrow_t &) noexcept { do_delete(p, 1); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { do_delete(p, 2); }
void operator delete(void *p, std::align_val_t) noexcept { do_delete(p, 1); }
void operator delete[](void *p, std::align_val_t) noexcept { do_delete(p, 2); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { do_delete(p, 1); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { do_delete(p, 2); }

// ------------------------------------------------------------------ libc as seen by the objects of the library
// (build.sh renames their references to these names)
static void readz(const char *s, size_t most = (size_t)-1) {
  if (!T.lib) return;
  size_t n = 0;
  while (n < most && s[n]) n++;
  range(s, n < most ? n + 1 : n, false);
}
extern "C" {
void *__libc_malloc(size_t);
void *simlib_malloc(size_t n) { return do_new(n, 3, true, 16); }
void simlib_free(void *p) { do_delete(p, 3); }
void *simlib_calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) return nullptr;
  void *p = do_new(n, 3, true, 16);
  if (p) memset(p, 0, n);
  return p;
}
void *simlib_realloc(void *q, size_t n) {
  if (q && !in_arena(q)) return realloc(q, n);
  if (q && n == 0) {
    do_delete(q, 3);
    return nullptr;
  }
  void *p = do_new(n, 3, true, 16);
  if (p && q) {
    uint64_t h = *(uint64_t *)((uintptr_t)q - 8);
    size_t old = (h >> 48) == 0xB10C && (uint32_t)h < G.nblocks ? B[(uint32_t)h].size : 0;
    memcpy(p, q, old < n ? old : n);
    do_delete(q, 3);
  }
  return p;
}
void *simlib_aligned_alloc(size_t a, size_t n) { return do_new(n, 3, true, a); }
int simlib_posix_memalign(void **p, size_t a, size_t n) {
  void *q = do_new(n, 3, true, a);
  if (!q) return ENOMEM;
  *p = q;
  return 0;
}
char *simlib_strdup(const char *s) {
  size_t n = strlen(s) + 1;
  char *p = (char *)do_new(n, 3, true, 16);
  if (p) memcpy(p, s, n);
  return p;
}
char *simlib_strndup(const char *s, size_t m) {
  size_t n = 0;
  while (n < m && s[n]) n++;
  char *p = (char *)do_new(n + 1, 3, true, 16);
  if (p) {
    memcpy(p, s, n);
    p[n] = 0;
  }
  return p;
}
size_t simlib_strnlen(const char *s, size_t m) { readz(s, m); return strnlen(s, m); }
int simlib_strcmp(const char *a, const char *b) {
  if (T.lib) {
    size_t n = 0;
    while (a[n] && a[n] == b[n]) n++;
    range(a, n + 1, false);
    range(b, n + 1, false);
  }
  return strcmp(a, b);
}
int simlib_strncmp(const char *a, const char *b, size_t m) {
  if (T.lib) {
    size_t n = 0;
    while (n < m && a[n] && a[n] == b[n]) n++;
    if (n < m) n++;
    range(a, n, false);
    range(b, n, false);
  }
  return strncmp(a, b, m);
}
int simlib_strcasecmp(const char *a, const char *b) { readz(a); readz(b); return strcasecmp(a, b); }
int simlib_strncasecmp(const char *a, const char *b, size_t m) { readz(a, m); readz(b, m); return strncasecmp(a, b, m); }
char *simlib_strcpy(char *d, const char *s) {
  memmove(d, s, strlen(s) + 1);
  return d;
}
char *simlib_strncpy(char *d, const char *s, size_t m) {
  readz(s, m);
  if (T.lib) range(d, m, true);
  return strncpy(d, s, m);
}
char *simlib_strcat(char *d, const char *s) {
  simlib_strcpy(d + strlen(d), s);
  return d;
}
char *simlib_strchr(const char *s, int c) { readz(s); return (char *)strchr(s, c); }
char *simlib_strrchr(const char *s, int c) { readz(s); return (char *)strrchr(s, c); }
char *simlib_strstr(const char *s, const char *t) { readz(s); readz(t); return (char *)strstr(s, t); }
#define NUMBER(T1, fn) \
  T1 simlib_##fn(const char *s, char **e) { \
    char *x; \
    T1 v = fn(s, &x); \
    int er = errno; \
    if (T.lib) range(s, (size_t)(x - s) + 1, false); \
    errno = er; \
    if (e) *e = x; \
    return v; }
#define INTEGER(T1, fn, name) \
  T1 simlib_##name(const char *s, char **e, int b) { \
    char *x; \
    T1 v = fn(s, &x, b); \
    int er = errno; \
    if (T.lib) range(s, (size_t)(x - s) + 1, false); \
    errno = er; \
    if (e) *e = x; \
    return v; }
NUMBER(float, strtof) NUMBER(double, strtod) NUMBER(long double, strtold)
INTEGER(long, strtol, strtol) INTEGER(long long, strtoll, strtoll) INTEGER(unsigned long, strtoul, strtoul) INTEGER(unsigned long long, strtoull, strtoull)
INTEGER(long, strtol, __isoc23_strtol) INTEGER(long long, strtoll, __isoc23_strtoll) INTEGER(unsigned long, strtoul, __isoc23_strtoul) INTEGER(unsigned long long, strtoull, __isoc23_strtoull)
int simlib_vsnprintf(char *d, size_t n, const char *f, va_list ap) {
  int r = vsnprintf(d, n, f, ap);
  if (T.lib && d && n && r >= 0) range(d, (size_t)r + 1 < n ? (size_t)r + 1 : n, true);
  return r;
}
int simlib_snprintf(char *d, size_t n, const char *f, ...) {
  va_list ap;
  va_start(ap, f);
  int r = simlib_vsnprintf(d, n, f, ap);
  va_end(ap);
  return r;
}
int simlib_vsprintf(char *d, const char *f, va_list ap) { return simlib_vsnprintf(d, 1 << 20, f, ap); }
int simlib_sprintf(char *d, const char *f, ...) {
  va_list ap;
  va_start(ap, f);
  int r = simlib_vsnprintf(d, 1 << 20, f, ap);
  va_end(ap);
  return r;
}
}

#ifdef COVER  // tools/cover.py: which basic blocks of the library were reached in any run
#include <fcntl.h>
#include <sys/mman.h>
static unsigned char *cover_map() {
  int f = open(getenv("SIM_COVER"), O_RDWR);
  void *m = mmap(nullptr, 1 << 24, PROT_READ | PROT_WRITE, MAP_SHARED, f, 0);
  return m == MAP_FAILED ? nullptr : (unsigned char *)m;
}
extern "C" void __sanitizer_cov_trace_pc() {
  static unsigned char *map;
  if (!map && !(map = cover_map())) return;
  uintptr_t pc = (uintptr_t)__builtin_return_address(0);
  if (pc < (1 << 24)) map[pc] = 1;
}
#endif

// ------------------------------------------------------------------ callbacks of -fsanitize=thread
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(N) \
  void __tsan_read##N(void *p) { acc(p, N, false); } \
  void __tsan_write##N(void *p) { acc(p, N, true); } \
  void __tsan_volatile_read##N(void *p) { acc(p, N, false); } \
  void __tsan_volatile_write##N(void *p) { acc(p, N, true); } \
  void __tsan_unaligned_read##N(void *p) { acc(p, N, false); } \
  void __tsan_unaligned_write##N(void *p) { acc(p, N, true); } \
  void __tsan_read##N##_pc(void *p, void *) { acc(p, N, false); } \
  void __tsan_write##N##_pc(void *p, void *) { acc(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { if (T.lib) range(p, n, false); }
void __tsan_write_range(void *p, size_t n) { if (T.lib) range(p, n, true); }
void __tsan_vptr_update(void **p, void *) { acc(p, 8, true); }
void __tsan_vptr_read(void **p) { acc(p, 8, false); }

static inline bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void at_pre(const volatile void *p, size_t n, bool w) {
  if (!T.lib) return;
  G.steps++;
  T.work++;
  if (++T.call_steps > G.step_limit) violation("no-progress", "one call executed more than %lu steps", (unsigned long)G.step_limit);
  uintptr_t a = (uintptr_t)p;
  bool ar = in_arena((void *)a);
  if (ar) check_arena(a, n, w);
  sched_point(w && !ar ? K_STATIC : K_ATOMIC);
}
static void at_acq(const volatile void *p, int mo) { if (T.lib && acq(mo)) hb_acquire((uintptr_t)p); }
static void at_rel(const volatile void *p, int mo) { if (T.lib && rel(mo)) hb_release((uintptr_t)p); }
#define ATOMIC(BITS, TY) \
  TY __tsan_atomic##BITS##_load(const volatile TY *p, int mo) { at_pre(p, sizeof(TY), false); TY v = __atomic_load_n(p, __ATOMIC_SEQ_CST); at_acq(p, mo); return v; } \
  void __tsan_atomic##BITS##_store(volatile TY *p, TY v, int mo) { at_pre(p, sizeof(TY), true); at_rel(p, mo); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
  TY __tsan_atomic##BITS##_exchange(volatile TY *p, TY v, int mo) { at_pre(p, sizeof(TY), true); at_acq(p, mo); at_rel(p, mo); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
  TY __tsan_atomic##BITS##_fetch_add(volatile TY *p, TY v, int mo) { at_pre(p, sizeof(TY), true); at_acq(p, mo); at_rel(p, mo); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
  TY __tsan_atomic##BITS##_fetch_sub(volatile TY *p, TY v, int mo) { at_pre(p, sizeof(TY), true); at_acq(p, mo); at_rel(p, mo); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
  TY __tsan_atomic##BITS##_fetch_and(volatile TY *p, TY v, int mo) { at_pre(p, sizeof(TY), true); at_acq(p, mo); at_rel(p, mo); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
  TY __tsan_atomic##BITS##_fetch_or(volatile TY *p, TY v, int mo) { at_pre(p, sizeof(TY), true); at_acq(p, mo); at_rel(p, mo); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
  TY __tsan_atomic##BITS##_fetch_xor(volatile TY *p, TY v, int mo) { at_pre(p, sizeof(TY), true); at_acq(p, mo); at_rel(p, mo); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
  TY __tsan_atomic##BITS##_fetch_nand(volatile TY *p, TY v, int mo) { at_pre(p, sizeof(TY), true); at_acq(p, mo); at_rel(p, mo); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##BITS##_compare_exchange_strong(volatile TY *p, TY *c, TY v, int mo, int fmo) { at_pre(p, sizeof(TY), true); int ok = __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); at_acq(p, ok ? mo : fmo); if (ok) at_rel(p, mo); return ok; } \
  int __tsan_atomic##BITS##_compare_exchange_weak(volatile TY *p, TY *c, TY v, int mo, int fmo) { return __tsan_atomic##BITS##_compare_exchange_strong(p, c, v, mo, fmo); } \
  TY __tsan_atomic##BITS##_compare_exchange_val(volatile TY *p, TY c, TY v, int mo, int fmo) { __tsan_atomic##BITS##_compare_exchange_strong(p, &c, v, mo, fmo); return c; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
static char g_fence;
void __tsan_atomic_thread_fence(int) { if (T.lib) { sched_point(K_ATOMIC); hb_acquire((uintptr_t)&g_fence); hb_release((uintptr_t)&g_fence); } }
void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------ memory from libc itself (exception objects)
static void fresh(void *p, size_t n) {
  if (!p || !T.lib || !G.race) return;
  uintptr_t e = (uintptr_t)p + n;
  for (uintptr_t g = (uintptr_t)p & ~7ULL; g < e; g += 8) {
    size_t h = hash64(g, 7) & (HN - 1);
    for (size_t i = 0; i < 64; i++) {
      HEnt &x = HT[(h + i) & (HN - 1)];
      if (x.key == g) {
        uint64_t *z = (uint64_t *)&x.c;
        for (size_t k = 0; k < sizeof(RCell) / 8; k++) z[k] = 0;
      }
      if (x.key == g || x.key == 0) break;
    }
  }
}
extern "C" {
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *malloc(size_t n) {
  void *p = __libc_malloc(n);
  fresh(p, n);
  return p;
}
void *calloc(size_t a, size_t b) {
  void *p = __libc_calloc(a, b);
  fresh(p, a * b);
  return p;
}
void *realloc(void *q, size_t n) {
  void *p = __libc_realloc(q, n);
  if (p != q) fresh(p, n);
  return p;
}
}

// ------------------------------------------------------------------ memory functions of libc, as seen by library code
void *memcpy(void *d, const void *s, size_t n) {
  if (T.lib) { range(s, n, false); range(d, n, true); }
  void *r = d;
  __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  return r;
}
void *memmove(void *d, const void *s, size_t n) {
  if (T.lib) { range(s, n, false); range(d, n, true); }
  void *r = d;
  if ((uintptr_t)d - (uintptr_t)s >= n) {
    __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  } else {
    char *dd = (char *)d;
    const char *ss = (const char *)s;
    while (n--) { dd[n] = ss[n]; __asm__ volatile("" ::: "memory"); }
  }
  return r;
}
void *memset(void *d, int c, size_t n) {
  if (T.lib) range(d, n, true);
  void *r = d;
  __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
  return r;
}
int memcmp(const void *a, const void *b, size_t n) {
  if (T.lib) { range(a, n, false); range(b, n, false); }
  const unsigned char *x = (const unsigned char *)a, *y = (const unsigned char *)b;
  for (size_t i = 0; i < n; i++) { if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; }
  return 0;
}
int bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
void *sim_memchr(const void *, int, size_t) __asm__("memchr");
void *sim_memchr(const void *a, int c, size_t n) {
  const unsigned char *x = (const unsigned char *)a;
  for (size_t i = 0; i < n; i++) { if (x[i] == (unsigned char)c) { if (T.lib) range(a, i + 1, false); return (void *)(x + i); } }
  if (T.lib) range(a, n, false);
  return nullptr;
}
size_t strlen(const char *s) {
  size_t n = 0;
  while (s[n]) { n++; __asm__ volatile("" ::: "memory"); }
  if (T.lib) range(s, n + 1, false);
  return n;
}

// ------------------------------------------------------------------ blocking primitives
#define REAL(name) ((decltype(&name))real(#name))
static void *real(const char *n) {
  void *p = dlsym(RTLD_NEXT, n);
  if (!p) _exit(3);
  return p;
}
int pthread_mutex_lock(pthread_mutex_t *m) {
  static int (*lk)(pthread_mutex_t *) = nullptr;
  if (!lk) lk = REAL(pthread_mutex_lock);
  if (!T.lib) return lk(m);
  static int (*tl)(pthread_mutex_t *) = nullptr;
  if (!tl) tl = REAL(pthread_mutex_trylock);
  G.steps++;
  sched_point(K_ATOMIC);
  int r;
  while ((r = tl(m)) == EBUSY) blocked_yield();
  G.blocked = 0;
  hb_acquire((uintptr_t)m);
  return r;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
  static int (*tl)(pthread_mutex_t *) = nullptr;
  if (!tl) tl = REAL(pthread_mutex_trylock);
  if (!T.lib) return tl(m);
  G.steps++;
  sched_point(K_ATOMIC);
  int r = tl(m);
  if (r == 0) hb_acquire((uintptr_t)m);
  return r;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  static int (*ul)(pthread_mutex_t *) = nullptr;
  if (!ul) ul = REAL(pthread_mutex_unlock);
  if (T.lib) hb_release((uintptr_t)m);
  int r = ul(m);
  if (T.lib) { G.steps++; sched_point(K_ATOMIC); }
  return r;
}
#define RWLOCK(fn, tryfn) \
  int fn(pthread_rwlock_t *m) { \
    static int (*lk)(pthread_rwlock_t *) = nullptr; if (!lk) lk = REAL(fn); \
    if (!T.lib) return lk(m); \
    static int (*tl)(pthread_rwlock_t *) = nullptr; if (!tl) tl = REAL(tryfn); \
    G.steps++; sched_point(K_ATOMIC); int r; \
    while ((r = tl(m)) == EBUSY) blocked_yield(); \
    G.blocked = 0; hb_acquire((uintptr_t)m); return r; }
RWLOCK(pthread_rwlock_rdlock, pthread_rwlock_tryrdlock)
RWLOCK(pthread_rwlock_wrlock, pthread_rwlock_trywrlock)
int pthread_rwlock_unlock(pthread_rwlock_t *m) {
  static int (*ul)(pthread_rwlock_t *) = nullptr;
  if (!ul) ul = REAL(pthread_rwlock_unlock);
  if (T.lib) hb_release((uintptr_t)m);
  int r = ul(m);
  if (T.lib) { G.steps++; sched_point(K_ATOMIC); }
  return r;
}
int pthread_once(pthread_once_t *o, void (*f)(void)) {
  static int (*on)(pthread_once_t *, void (*)(void)) = nullptr;
  if (!on) on = REAL(pthread_once);
  if (!T.lib) return on(o, f);
  sched_point(K_ATOMIC);
  hb_acquire((uintptr_t)o);
  T.nopre++;
  int r = on(o, f);
  T.nopre--;
  hb_release((uintptr_t)o);
  return r;
}
int __cxa_guard_acquire(uint64_t *g) {
  static int (*ga)(uint64_t *) = nullptr;
  if (!ga) ga = (int (*)(uint64_t *))real("__cxa_guard_acquire");
  if (!T.lib) return ga(g);
  G.steps++;
  sched_point(K_ATOMIC);
  hb_acquire((uintptr_t)g);
  int r = ga(g);
  if (r) T.nopre++;
  return r;
}
void __cxa_guard_release(uint64_t *g) {
  static void (*gr)(uint64_t *) = nullptr;
  if (!gr) gr = (void (*)(uint64_t *))real("__cxa_guard_release");
  gr(g);
  if (T.lib) {
    hb_release((uintptr_t)g);
    if (T.nopre) T.nopre--;
  }
}
void __cxa_guard_abort(uint64_t *g) {
  static void (*gb)(uint64_t *) = nullptr;
  if (!gb) gb = (void (*)(uint64_t *))real("__cxa_guard_abort");
  gb(g);
  if (T.lib && T.nopre) T.nopre--;
}
int sched_yield() {
  if (T.lib && G.sched_on) { blocked_yield(); G.blocked = 0; return 0; }
  return 0;
}

// ------------------------------------------------------------------ clocks and randomness, as seen by library code
static void tick(struct timespec *ts) {
  G.simclock += 1000 + (hash64(G.simclock, G.steps) % 50) * 1000000ULL;
  ts->tv_sec = (time_t)(G.simclock / 1000000000ULL);
  ts->tv_nsec = (long)(G.simclock % 1000000000ULL);
}
int clock_gettime(clockid_t c, struct timespec *ts) {
  static int (*cg)(clockid_t, struct timespec *) = nullptr;
  if (!cg) cg = REAL(clock_gettime);
  if (!T.lib) return cg(c, ts);
  tick(ts);
  return 0;
}
time_t time(time_t *t) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
int gettimeofday(struct timeval *tv, void *) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
int rand() {
  G.simclock += 17;
  return (int)(hash64(G.simclock, 3) & 0x7FFFFFFF);
}
long random() { return rand(); }
}
