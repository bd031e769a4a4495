// C09: nodes which compute parts of one query with the real library, a coordinator which merges their outputs with the
// real library, and between them a network, clocks, memory and machines which fail.  Discrete-event: one thread, one
// queue ordered by (simulated time, sequence number), every latency and decision from the scenario's seeds.
//
// Real: every runner (part, merge, one-run).  Stubs: rows of a region (readable on every node again and again), the
// messages, the coordinator's bookkeeping (retry on timeout, an execution counts only when all its messages are there,
// at most one execution of a region is merged, accepted outputs are durable).
#include "cluster.h"

#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include <algorithm>
#include <deque>
#include <map>
#include <queue>
#include <set>
#include <sstream>

#include "conv.h"
#include "gen.h"
#include "libcalls.h"

using dingodb::expr::Tuple;
using model::Bytes;
using model::Row;

namespace {

enum FK {
  F_DROP,     // message number `at` is lost
  F_DUP,      // message number `at` arrives twice
  F_DELAY,    // message number `at` takes `arg` ms more
  F_CRASH,    // `node` crashes at `at` ms and restarts `arg` ms later; its runners are gone
  F_STALL,    // `node` does nothing from `at` ms on for `arg` ms
  F_OOM,      // call number `at` of `node` into the library: allocation `arg` fails (negative: all from there on)
  F_SPILL,    // before row number `at` of `node`: `arg` Gets (0: all there are) go out early
  F_SKEW,     // the clock of `node` runs at `arg` percent
  F_CUT,      // execution number `at` of `node` is first given the plan cut off at byte `arg`
  F_CANCEL,   // execution number `at` of `node` is abandoned after `arg` rows, its runner is used again
  F_CCRASH,   // the coordinator crashes after merging `at` rows; what it accepted is durable
  F_CSPILL,   // after merging `at` rows the first-level merge delivers `arg` rows early (0: all)
  NFK
};
const char *const FKNAME[NFK] = {"drop", "dup", "delay", "crash", "stall", "oom", "spill", "skew", "cut", "cancel", "ccrash", "cspill"};

const ClScn *C;

// ------------------------------------------------------------------ runners
struct Run {
  void *obj = nullptr;
  bool decoded = false;  // with the current plan, and drained or new
};
Run *new_run() {
  Run *r = new Run();
  if (lc::rel_new(&r->obj, nullptr)) rt::violation("unexpected-throw", "creating a runner threw");
  return r;
}
void end_run(Run *r) {
  lc::rel_del(r->obj);
  delete r;
}
int decode(Run *r, const Bytes &plan, Fault *f) {
  unsigned char *buf;
  {
    rt::Track tr;
    buf = new unsigned char[plan.size()];
    memcpy(buf, plan.data(), plan.size());
  }
  const unsigned char *end = nullptr;
  int e = lc::rel_dec(r->obj, buf, plan.size(), &end, f);
  memset(buf, 0xCC, plan.size());
  delete[] buf;
  r->decoded = !e;
  return e;
}
int put(Run *r, const Row &row, Row &out, bool &has, Fault *f) {
  Tuple *t = conv_tuple(row);
  const Tuple *o = nullptr;
  rt::ctr(rt::C_PUT);
  int e = lc::rel_put(r->obj, t, &o, f);
  has = !e && o;
  if (has) {
    out = conv_row(*o);
    delete o;
  }
  return e;
}
int get(Run *r, Row &out, bool &has, Fault *f) {
  const Tuple *o = nullptr;
  rt::ctr(rt::C_GET);
  int e = lc::rel_get(r->obj, &o, f);
  has = !e && o;
  if (has) {
    out = conv_row(*o);
    delete o;
    rt::ctr(rt::C_GET_OUT);
  }
  return e;
}

using Bag = std::map<std::string, int>;
void add(Bag &b, const Row &r, int n = 1) {
  b[model::text(r)] += n;
}
std::string shorten(const std::string &s) {
  return s.size() > 500 ? s.substr(0, 500) + "..." : s;
}
// the first difference of two bags, empty when equal
std::string diff(const Bag &got, const Bag &exp) {
  std::string s;
  int n = 0;
  for (const auto &e : exp) {
    auto it = got.find(e.first);
    int g = it == got.end() ? 0 : it->second;
    if (g != e.second && n++ < 3) s += "row (" + shorten(e.first) + ") " + std::to_string(g) + " times instead of " + std::to_string(e.second) + "; ";
  }
  for (const auto &g : got) if (!exp.count(g.first) && n++ < 6) s += "row (" + shorten(g.first) + ") " + std::to_string(g.second) + " times instead of 0; ";
  return s;
}
uint64_t baghash(const Bag &b) {
  uint64_t h = 7;
  for (const auto &e : b) {
    for (char c : e.first) h = rt::hash64(h, (unsigned char)c);
    h = rt::hash64(h, (uint64_t)e.second);
  }
  return h;
}

// everything a fresh runner yields for these rows: the oracle, and nothing fails in it
Bag one_run(const Bytes &plan, const std::vector<Row> &rows) {
  Bag b;
  Run *r = new_run();
  if (decode(r, plan, nullptr)) rt::suspect("plan-rejected", "the plan of the one run was rejected");
  for (const auto &x : rows) {
    Row o;
    bool has;
    if (!put(r, x, o, has, nullptr) && has) add(b, o);
  }
  for (size_t i = 0; i < rows.size() + 2; i++) {
    Row o;
    bool has;
    int e = get(r, o, has, nullptr);
    if (!e && !has) break;
    if (has) add(b, o);
  }
  end_run(r);
  return b;
}

// ------------------------------------------------------------------ the simulated world
struct Msg {
  enum K { ASSIGN, PART, DONE, FAILED } k = ASSIGN;
  int node = 0;  // receiver of ASSIGN, sender otherwise
  int region = 0;
  long exec = 0;
  int seq = 0;
  bool spilled = false;
  std::vector<Row> rows;
};
struct Ev {
  long at;
  uint64_t seq;
  int kind;  // 0 message, 1 work of a node, 2 timeout of a region, 3 crash, 4 restart
  int a = 0;
  long b = 0;
  Msg m;
  bool operator<(const Ev &o) const {
    return at != o.at ? at > o.at : seq > o.seq;
  }
};
struct Exec {
  long id;
  int region;
  Run *run;
  size_t next = 0;
  int seq = 0;
  bool spilled = false;
  bool feeding = true;
  long ordinal = 0;
  std::vector<Row> outbox;
};
struct Node {
  bool up = true;
  int epoch = 0;
  std::deque<Exec *> work;
  std::vector<Run *> pool;
  long calls = 0, rows = 0, execs = 0;
  long skew = 100;
  bool busy = false;  // a work event is in the queue
};
struct Arrived {
  std::map<int, std::vector<Row>> parts;
  int total = -1;
  int region = 0;
  bool spilled = false;
  bool complete = false;
};

std::priority_queue<Ev> *q;
uint64_t evseq;
long now_;
uint64_t msgno;
long execno;
rt::Rng *net;
std::vector<Node> nodes;
std::vector<std::vector<Row>> regions;
std::map<long, Arrived> arrived;
std::vector<char> accepted;
std::vector<int> attempts;
std::vector<std::vector<Row>> durable;   // accepted outputs in the order of acceptance
std::vector<Bag> first_output;
std::vector<char> has_first;
bool agg;

const ClFault *fault(int kind, int node, long at) {
  for (const auto &f : C->faults) if (f.kind == kind && f.at == at && (node < 0 || f.node == node)) return &f;
  return nullptr;
}
void push(Ev e, long delay) {
  e.at = now_ + std::max(0L, delay);
  e.seq = evseq++;
  q->push(std::move(e));
}
void send(const Msg &m) {
  long n = (long)msgno++;
  rt::ctr(rt::C_MSG);
  long lat = 1 + (long)net->below(12);
  if (net->chance(0.1)) lat += (long)net->below(60);  // overtaken by later ones
  if (fault(F_DROP, -1, n)) { rt::ctr(rt::C_DROP); rt::mix(0xD0); return; }
  if (const ClFault *f = fault(F_DELAY, -1, n)) { rt::ctr(rt::C_DELAY); lat += f->arg; }
  Ev e;
  e.kind = 0;
  e.m = m;
  push(e, lat);
  if (const ClFault *f = fault(F_DUP, -1, n)) {
    rt::ctr(rt::C_DUP);
    push(e, lat + 1 + f->arg);
  }
}
Fault node_fault(Node &n, int idx) {
  Fault f;
  n.calls++;
  if (const ClFault *x = fault(F_OOM, idx, n.calls)) {
    f.mode = x->arg < 0 ? 2 : 1;
    f.k = x->arg < 0 ? -x->arg : x->arg;
  }
  return f;
}
bool struck(const Fault &f) {
  if (f.fired) { rt::ctr(rt::C_NODE_OOM); rt::mix(0xFA); }
  return f.fired > 0;
}
void flush(int idx, Exec *x, bool all) {
  while (!x->outbox.empty() && (all || x->outbox.size() >= 4)) {
    Msg m;
    m.k = Msg::PART;
    m.node = idx;
    m.region = x->region;
    m.exec = x->id;
    m.seq = x->seq++;
    size_t n = std::min<size_t>(x->outbox.size(), 1 + net->below(5));
    m.rows.assign(x->outbox.begin(), x->outbox.begin() + (long)n);
    x->outbox.erase(x->outbox.begin(), x->outbox.begin() + (long)n);
    send(m);
  }
}
void wake(int idx, long delay) {
  Node &n = nodes[idx];
  if (!n.up || n.busy || n.work.empty()) return;
  n.busy = true;
  Ev e;
  e.kind = 1;
  e.a = idx;
  e.b = n.epoch;
  push(e, delay * n.skew / 100);
}
// the runner of an execution which is over goes back to the pool, is drained first or is destroyed
void retire(Node &n, Exec *x, bool clean) {
  Run *r = x->run;
  if (!clean) {
    int k = (int)net->below(3);
    if (k == 0) {
      end_run(r);
      r = nullptr;
    } else if (k == 1 && r->decoded) {
      // what it holds is thrown away; a drained runner counts as new
      size_t cap = regions[x->region].size() + 2;
      bool has = true;
      int e = 0;
      Row o;
      while (cap-- && has && !e) e = get(r, o, has, nullptr);
      if (e || has) r->decoded = false;
    } else {
      r->decoded = false;  // will be given the plan again
    }
  }
  if (r) n.pool.push_back(r);
  delete x;
}
void give_up(int idx, Exec *x) {
  Msg m;
  m.k = Msg::FAILED;
  m.node = idx;
  m.region = x->region;
  m.exec = x->id;
  send(m);
  retire(nodes[idx], x, false);
}
void start(int idx, int region) {
  Node &n = nodes[idx];
  Exec *x = new Exec();
  x->id = execno++;
  x->region = region;
  x->ordinal = n.execs++;
  rt::mix(0x5747 + (uint64_t)region * 64 + (uint64_t)idx);
  if (!n.pool.empty() && net->chance(0.8)) {
    size_t k = net->below(n.pool.size());
    x->run = n.pool[k];
    n.pool.erase(n.pool.begin() + (long)k);
    rt::ctr(rt::C_POOL_REUSE);
  } else {
    x->run = new_run();
  }
  if (const ClFault *f = fault(F_CUT, idx, x->ordinal)) {
    size_t cut = C->part.size() ? (size_t)f->arg % C->part.size() : 0;
    rt::ctr(rt::C_CUTPLAN);
    decode(x->run, C->part.substr(0, cut), nullptr);
    x->run->decoded = false;  // the checksum tells; the whole plan follows
  }
  if (!x->run->decoded || net->chance(0.4)) {
    Fault f = node_fault(n, idx);
    int e = decode(x->run, C->part, &f);
    if (struck(f) || e) return give_up(idx, x);
  }
  n.work.push_back(x);
  wake(idx, 1);
}
// false when the execution is over
bool work(int idx, Exec *x) {
  Node &n = nodes[idx];
  const auto &rows = regions[x->region];
  const ClFault *cancel = fault(F_CANCEL, idx, x->ordinal);
  int chunk = 1 + (int)net->below(6);
  while (x->feeding && chunk-- > 0) {
    if (cancel && (long)x->next >= cancel->arg) {
      rt::ctr(rt::C_ABANDON);
      give_up(idx, x);
      return false;
    }
    if (x->next >= rows.size()) {
      x->feeding = false;
      break;
    }
    long rowno = n.rows++;
    if (const ClFault *f = fault(F_SPILL, idx, rowno)) {
      long cap = f->arg > 0 ? f->arg : (long)x->next + 2;
      for (long i = 0; i < cap; i++) {
        Row o;
        bool has;
        Fault nf = node_fault(n, idx);
        int e = get(x->run, o, has, &nf);
        if (struck(nf) || e) { give_up(idx, x); return false; }
        if (!has) break;
        if (!x->spilled) rt::ctr(rt::C_SPILL);
        x->spilled = true;
        x->outbox.push_back(o);
      }
      flush(idx, x, true);
    }
    Row o;
    bool has;
    Fault nf = node_fault(n, idx);
    int e = put(x->run, rows[x->next], o, has, &nf);
    if (struck(nf)) { if (e) { give_up(idx, x); return false; } }
    if (has) x->outbox.push_back(o);
    x->next++;
    flush(idx, x, false);
  }
  if (x->feeding) return true;
  chunk = 1 + (int)net->below(8);
  bool end = false;
  size_t cap = rows.size() + 2;
  while (!end && chunk-- > 0) {
    Row o;
    bool has;
    Fault nf = node_fault(n, idx);
    int e = get(x->run, o, has, &nf);
    if (struck(nf) || e) { give_up(idx, x); return false; }
    if (!has || x->seq * 5 + x->outbox.size() > 6 * cap + 20) end = true;
    else x->outbox.push_back(o);
    flush(idx, x, false);
  }
  if (!end) return true;
  flush(idx, x, true);
  Msg m;
  m.k = Msg::DONE;
  m.node = idx;
  m.region = x->region;
  m.exec = x->id;
  m.seq = x->seq;
  m.spilled = x->spilled;
  send(m);
  x->run->decoded = true;
  retire(n, x, true);
  return false;
}
void assign(int region) {
  Msg m;
  m.k = Msg::ASSIGN;
  m.region = region;
  m.node = (region + attempts[region] * (1 + (int)net->below(2))) % (int)nodes.size();
  if (attempts[region]) rt::ctr(rt::C_RETRY);
  attempts[region]++;
  send(m);
  Ev e;
  e.kind = 2;
  e.a = region;
  e.b = attempts[region];
  push(e, 150L * std::min(attempts[region], 20) + (long)regions[region].size() * 6);
}
void deliver(const Msg &m) {
  rt::mix((uint64_t)m.k * 1000003 + (uint64_t)m.exec * 131 + (uint64_t)m.seq * 7 + (uint64_t)m.region);
  rt::SH->sched_hash = rt::hash64(rt::SH->sched_hash, (uint64_t)m.k * 1000003 + (uint64_t)m.exec * 131 + (uint64_t)m.seq * 7 + (uint64_t)m.node);
  for (const auto &r : m.rows) rt::mix(model::hash(r));
  if (m.k == Msg::ASSIGN) {
    if (nodes[m.node].up) start(m.node, m.region);
    return;
  }
  if (m.k == Msg::FAILED) {
    if (!accepted[m.region] && attempts[m.region] < 60) assign(m.region);
    return;
  }
  Arrived &a = arrived[m.exec];
  if (a.complete) return;
  a.region = m.region;
  if (m.k == Msg::PART) a.parts[m.seq] = m.rows;
  else { a.total = m.seq; a.spilled = m.spilled; }
  if (a.total < 0 || (int)a.parts.size() < a.total) return;
  a.complete = true;
  std::vector<Row> out;
  for (auto &p : a.parts) out.insert(out.end(), p.second.begin(), p.second.end());
  a.parts.clear();
  if (!a.spilled) {
    Bag b;
    for (const auto &r : out) add(b, r);
    rt::ctr(rt::C_CHECKED);
    if (!has_first[m.region]) {
      has_first[m.region] = 1;
      first_output[m.region] = b;
    } else {
      std::string d = diff(b, first_output[m.region]);
      if (!d.empty()) rt::violation("re-run-differs", "a re-run of part %d delivered other rows than the first run: %s", m.region, d.c_str());
    }
  }
  if (accepted[m.region]) return;
  accepted[m.region] = 1;
  durable.push_back(out);
}

// ------------------------------------------------------------------ merging
struct Merger {
  Run *l1 = nullptr, *fin = nullptr;
};
void merge_put(Run *r, const Row &row, Bag &result, Run *next) {
  Row o;
  bool has;
  put(r, row, o, has, nullptr);
  rt::ctr(rt::C_MERGE_ROWS);
  if (has) add(result, o);
}
Bag merge_all() {
  Bytes last = C->merge + C->tail;
  size_t total = 0;
  for (auto &d : durable) total += d.size();
  std::vector<size_t> order(durable.size());
  for (size_t i = 0; i < order.size(); i++) order[i] = i;
  Run *l1 = nullptr, *fin = nullptr;
  Bag result;
  long seen = 0;
  bool crashed = true;
  std::vector<Row> later;
  while (crashed) {
    crashed = false;
    result.clear();
    if (net->chance(0.4)) for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[net->below(i)]);
    if (!l1 || net->chance(0.5)) l1 = new_run();  // otherwise the restarted coordinator uses the old one again
    if (!fin || net->chance(0.5)) fin = new_run();
    decode(fin, last, nullptr);
    if (C->coord) decode(l1, C->merge, nullptr);
    for (size_t i : order) {
      std::vector<Row> rows = durable[i];
      if (net->chance(0.3)) for (size_t k = rows.size(); k > 1; k--) std::swap(rows[k - 1], rows[net->below(k)]);
      for (const auto &r : rows) {
        merge_put(C->coord ? l1 : fin, r, result, nullptr);
        seen++;
        if (const ClFault *f = C->coord ? fault(F_CSPILL, -1, seen) : nullptr) {
          long cap = f->arg > 0 ? f->arg : (long)total + 2;
          Row o;
          bool has = true;
          std::vector<Row> moved;
          while (cap-- > 0) {
            if (get(l1, o, has, nullptr) || !has) break;
            moved.push_back(o);
          }
          if (!moved.empty()) rt::ctr(rt::C_SPILL);
          // what came out early goes to the next level, or around once more
          bool around = f->node != 0;
          for (auto &x : moved) merge_put(around ? l1 : fin, x, result, nullptr);
        }
        if (fault(F_CCRASH, -1, seen)) { crashed = true; break; }
      }
      if (crashed) break;
    }
    if (crashed) { rt::ctr(rt::C_CRASH); rt::ctr(rt::C_RESTART); rt::mix(0xCC); }
  }
  Row o;
  bool has;
  if (C->coord) {
    size_t cap = total + 2;
    while (cap-- > 0) {
      if (get(l1, o, has, nullptr) || !has) break;
      merge_put(fin, o, result, nullptr);
    }
  }
  size_t cap = total * 2 + 4;
  while (cap-- > 0) {
    int e = get(fin, o, has, nullptr);
    if (!e && !has) break;
    if (has) add(result, o);
  }
  return result;
}

// ------------------------------------------------------------------ generation
bool merge_plan(const Bytes &aggop, const model::Stage &st, Bytes &out, gen::Gen &g) {
  size_t nk = st.keys.size();
  if (st.kind == model::SG) {
    out = Bytes(1, 0x73) + Bytes(1, 0x61) + g.varint(nk);
    for (size_t i = 0; i < nk; i++) out += g.varint(i);
  } else out = Bytes(1, 0x74);
  out += g.varint(st.aggs.size());
  for (size_t i = 0; i < st.aggs.size(); i++) {
    uint8_t c = st.aggs[i].code;
    if (c < 0x20) c = 0x22;
    out += Bytes(1, (char)c) + g.varint(nk + i);
  }
  return true;
}

}  // namespace

ClScn cluster_generate(uint64_t seed) {
  gen::Gen g(seed);
  rt::Rng &r = g.r;
  ClScn s;
  s.seed = seed;
  s.fill = (int)r.below(5);
  s.fseed = r.below(1000000);
  s.recycle = r.chance(0.5);
  s.nodes = 1 + (int)r.below(4);
  s.regions = 1 + (int)r.below(8);
  if (r.chance(0.04)) { s.nodes = 1 + (int)r.below(12); s.regions = 8 + (int)r.below(30); }
  s.coord = (int)r.below(2);
  s.netseed = (long)r.below(1000000000);
  g.c.exact = true;
  g.c.domain = (int)r.below(3);
  static const double nulls[] = {0, 0.1, 0.3, 0.6};
  g.c.pnull = nulls[r.below(4)];
  g.c.maxdepth = 1 + (int)r.below(2);
  g.c.longstr = r.chance(0.2);
  bool grouped = r.chance(0.88);
  std::vector<model::Ty> cols = g.columns(1 + (int)r.below(5));
  if (grouped) {
    std::string pre;
    for (int k = (int)r.below(3); k > 0; k--) pre += r.chance(0.5) ? 'F' : 'P';
    gen::Plan head = g.plan(pre, cols);
    gen::Plan ag = g.plan(r.chance(0.85) ? "G" : "U", head.out);
    model::Plan mp;
    Bytes code = ag.code;
    model::DecRes d = model::decode_plan(code, mp);
    if (d.st == model::D_OK && mp.size() == 1) {
      merge_plan(code, mp[0], s.merge, g);
      s.part = head.code + ag.code;
      std::string post;
      if (r.chance(0.3)) for (int k = 1 + (int)r.below(2); k > 0; k--) post += r.chance(0.4) ? 'F' : r.chance(0.6) ? 'P' : 'G';
      s.tail = g.plan(post, ag.out).code;
      s.full = s.part + s.tail;
    }
  }
  if (s.full.empty()) {
    std::string pre;
    for (int k = 1 + (int)r.below(3); k > 0; k--) pre += r.chance(0.5) ? 'F' : 'P';
    s.part = g.plan(pre, cols).code;
    s.full = s.part;
  }
  int n = 4 + (int)r.below(r.chance(0.2) ? 115 : 45);
  if (r.chance(0.01)) n = 200 + (int)r.below(600);
  int spread = r.chance(0.2) ? 1 : s.regions;
  for (int i = 0; i < n; i++) s.rows.push_back({(int)r.below(spread), g.row(cols)});
  // which kinds of fault this run meets
  bool on[NFK];
  for (bool &b : on) b = r.chance(0.45);
  auto add = [&](int kind, long at, int node, long arg) {
    ClFault f;
    f.kind = kind;
    f.at = at;
    f.node = node;
    f.arg = arg;
    s.faults.push_back(f);
  };
  int msgs = 8 + s.regions * 4, horizon = 60 + n * 6;
  double rate = r.chance(0.3) ? 2 : 1;
  auto times = [&](double mean) { int k = (int)(mean * rate); return k + (r.chance(mean * rate - k) ? 1 : 0); };
  if (on[F_DROP]) for (int k = times(1.5); k > 0; k--) add(F_DROP, r.below(msgs), 0, 0);
  if (on[F_DUP]) for (int k = times(2); k > 0; k--) add(F_DUP, r.below(msgs), 0, r.below(120));
  if (on[F_DELAY]) for (int k = times(2); k > 0; k--) add(F_DELAY, r.below(msgs), 0, 20 + r.below(600));
  if (on[F_CRASH]) for (int k = times(1.5); k > 0; k--) add(F_CRASH, r.below(horizon), r.below(s.nodes), 5 + r.below(400));
  if (on[F_STALL]) for (int k = times(1.2); k > 0; k--) add(F_STALL, r.below(horizon), r.below(s.nodes), 50 + r.below(700));
  if (on[F_OOM]) for (int k = times(2.5); k > 0; k--) add(F_OOM, 1 + r.below(20 + n), r.below(s.nodes), (r.chance(0.2) ? -1 : 1) * (long)(1 + r.below(8)));
  if (on[F_SPILL]) for (int k = times(3); k > 0; k--) add(F_SPILL, r.below(2 + n / s.nodes), r.below(s.nodes), r.chance(0.35) ? 0 : 1 + r.below(5));
  if (on[F_SKEW]) for (int k = times(1); k > 0; k--) add(F_SKEW, 0, r.below(s.nodes), r.chance(0.5) ? 10 + r.below(80) : 150 + r.below(1500));
  if (on[F_CUT]) for (int k = times(1.5); k > 0; k--) add(F_CUT, r.below(4), r.below(s.nodes), r.below(s.part.size() + 1));
  if (on[F_CANCEL]) for (int k = times(1.5); k > 0; k--) add(F_CANCEL, r.below(4), r.below(s.nodes), r.below(1 + n / s.regions));
  if (on[F_CCRASH]) for (int k = times(0.7); k > 0; k--) add(F_CCRASH, 1 + r.below(n), 0, 0);
  if (on[F_CSPILL]) for (int k = times(1.5); k > 0; k--) add(F_CSPILL, 1 + r.below(n), r.below(2), r.chance(0.3) ? 0 : 1 + r.below(4));
  return s;
}

std::string cluster_text(const ClScn &s) {
  std::ostringstream o;
  o << "scenario 1\nprofile C09\nseed " << s.seed << "\nfill " << s.fill << ' ' << s.fseed << ' ' << (int)s.recycle << "\nnodes " << s.nodes
    << "\nregions " << s.regions << "\ncoord " << s.coord << "\nnet " << s.netseed << "\nfull ." << model::hex(s.full) << "\npart ." << model::hex(s.part) << "\nmerge ."
    << model::hex(s.merge) << "\ntail ." << model::hex(s.tail) << "\n";
  for (const auto &r : s.rows) o << "row " << r.first << ' ' << model::text(r.second) << "\n";
  for (const auto &f : s.faults) o << "flt " << FKNAME[f.kind] << " at " << f.at << " node " << f.node << " arg " << f.arg << "\n";
  return o.str();
}
bool cluster_parse(const std::string &t, ClScn &s) {
  s = ClScn();
  std::istringstream in(t);
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream l(line);
    std::string w, e;
    if (!(l >> w) || w[0] == '#' || w == "scenario" || w == "profile") continue;
    if (w == "seed") l >> s.seed;
    else if (w == "fill") { int r; l >> s.fill >> s.fseed >> r; s.recycle = r; }
    else if (w == "nodes") l >> s.nodes;
    else if (w == "regions") l >> s.regions;
    else if (w == "coord") l >> s.coord;
    else if (w == "net") l >> s.netseed;
    else if (w == "full" || w == "part" || w == "merge" || w == "tail") {
      Bytes &b = w == "full" ? s.full : w == "part" ? s.part : w == "merge" ? s.merge : s.tail;
      if (!(l >> e) || e[0] != '.' || !model::unhex(e.substr(1), b)) return false;
    } else if (w == "row") {
      std::pair<int, Row> r;
      if (!(l >> r.first)) return false;
      while (l >> e) {
        if (e == "-") break;
        model::Val v;
        if (!model::parse(e, v)) return false;
        r.second.push_back(v);
      }
      s.rows.push_back(r);
    } else if (w == "flt") {
      ClFault f;
      std::string k, a, b, c;
      if (!(l >> k >> a >> f.at >> b >> f.node >> c >> f.arg)) return false;
      while (f.kind < NFK && k != FKNAME[f.kind]) f.kind++;
      if (f.kind == NFK) return false;
      s.faults.push_back(f);
    } else return false;
  }
  return s.nodes >= 1 && s.nodes <= 16 && s.regions >= 1 && s.regions <= 64;
}

void cluster_execute(const ClScn &s) {
  C = &s;
  rt::begin_run(s.fill, s.fseed, s.recycle);
  rt::SH->cur_op[0] = -1;
  q = new std::priority_queue<Ev>();
  rt::Rng rng((uint64_t)s.netseed);
  net = &rng;
  model::Plan full, part;
  if (model::decode_plan(s.full, full).st != model::D_OK || model::decode_plan(s.part, part).st != model::D_OK) rt::suspect("plan-rejected", "ill-formed plan");
  agg = !s.merge.empty();
  // only rows whose evaluation is defined and specified; the model knows which
  model::Pipe pipe;
  pipe.reset(full);
  regions.assign((size_t)s.regions, {});
  std::vector<Row> all;
  for (const auto &x : s.rows) {
    if (!model::static_ok(full, (int)x.second.size())) continue;
    Row o;
    model::Out k = pipe.peek(x.second, o);
    if (k != model::O_ROW && k != model::O_NONE) { rt::ctr(rt::C_SKIP); continue; }
    pipe.apply(x.second);
    regions[(size_t)(x.first % s.regions)].push_back(x.second);
    all.push_back(x.second);
  }
  nodes.assign((size_t)s.nodes, Node());
  accepted.assign((size_t)s.regions, 0);
  attempts.assign((size_t)s.regions, 0);
  first_output.assign((size_t)s.regions, Bag());
  has_first.assign((size_t)s.regions, 0);
  for (const auto &f : s.faults) {
    int n = f.node % s.nodes;
    if (f.kind == F_SKEW) { nodes[n].skew = std::max(1L, f.arg); rt::ctr(rt::C_SKEW); }
    if (f.kind == F_CRASH || f.kind == F_STALL) {
      Ev e;
      e.kind = f.kind == F_CRASH ? 3 : 5;
      e.a = n;
      e.b = f.arg;
      push(e, f.at);
    }
  }
  std::vector<long> stalled((size_t)s.nodes, 0);
  for (int i = 0; i < s.regions; i++) assign(i);
  uint64_t events = 0;
  while (!q->empty()) {
    Ev e = q->top();
    q->pop();
    now_ = e.at;
    if (++events > 200000) break;
    switch (e.kind) {
    case 0: deliver(e.m); break;
    case 1: {
      Node &n = nodes[(size_t)e.a];
      if (!n.up || n.epoch != e.b) break;
      if (stalled[(size_t)e.a] > now_) { push(e, stalled[(size_t)e.a] - now_); break; }
      n.busy = false;
      if (n.work.empty()) break;
      size_t k = net->below(n.work.size());  // several executions of one node advance in turns
      Exec *x = n.work[k];
      n.work.erase(n.work.begin() + (long)k);
      rt::SH->sched_hash = rt::hash64(rt::SH->sched_hash, (uint64_t)x->id * 97 + (uint64_t)e.a);
      if (work(e.a, x)) n.work.push_back(x);
      wake(e.a, 1 + (long)net->below(8));
      break;
    }
    case 2:
      if (!accepted[(size_t)e.a] && attempts[(size_t)e.a] == e.b && attempts[(size_t)e.a] < 60) assign(e.a);
      break;
    case 3: {
      Node &n = nodes[(size_t)e.a];
      if (!n.up) break;
      rt::ctr(rt::C_CRASH);
      rt::mix(0x3C + (uint64_t)e.a);
      n.up = false;
      n.busy = false;
      n.epoch++;
      for (Exec *x : n.work) delete x;  // the memory of the process is gone, runners and all
      n.work.clear();
      n.pool.clear();
      Ev r;
      r.kind = 4;
      r.a = e.a;
      push(r, e.b);
      break;
    }
    case 4:
      nodes[(size_t)e.a].up = true;
      rt::ctr(rt::C_RESTART);
      break;
    default:
      stalled[(size_t)e.a] = now_ + e.b;
      rt::ctr(rt::C_STALL);
    }
  }
  rt::ctr(rt::C_SIM_MS, (uint64_t)now_);
  for (int i = 0; i < s.regions; i++) {
    if (!accepted[(size_t)i]) rt::violation("no-progress", "part %d was not finished after %d attempts although faults had stopped", i, attempts[(size_t)i]);
  }
  Bag got;
  if (agg) {
    got = merge_all();
  } else {
    for (auto &d : durable) for (auto &r : d) { add(got, r); rt::ctr(rt::C_MERGE_ROWS); }
  }
  Bag want = one_run(s.full, all);
  rt::ctr(rt::C_GROUPS, want.size());
  rt::ctr(rt::C_CHECKED);
  rt::mix(baghash(got));
  std::string d = diff(got, want);
  if (!d.empty()) rt::violation("partition-dependent", "the merged result differs from that of one run: %s", d.c_str());
  rt::finish_ok();
}
