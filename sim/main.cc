// Driver: seeded batches, judging, minimisation, replay.
//
//   simc batch PROFILE SEED START COUNT SECONDS OUTFILE OUTDIR   runs seeds START..START+COUNT-1
//   simc gen PROFILE SEED INDEX                                  prints the generated scenario
//   simc replay FILE                                             0 holds, 1 violated (prints the violation)
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <map>
#include <set>
#include <sstream>

#include "cluster.h"
#include "scn.h"

using std::string;
using std::vector;

namespace {

struct Case {
  bool cl = false;
  Scn s;
  ClScn c;
};
string text(const Case &c) {
  return c.cl ? cluster_text(c.c) : scn_text(c.s);
}
bool parse(const string &t, Case &c) {
  c.cl = t.find("\nprofile C09") != string::npos;
  return c.cl ? cluster_parse(t, c.c) : scn_parse(t, c.s);
}
Case make(const string &profile, uint64_t seed) {
  Case c;
  c.cl = profile == "C09";
  if (c.cl) c.c = cluster_generate(seed);
  else c.s = generate(profile, seed);
  return c;
}

double now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

uint64_t g_runs = 0, g_ctr[rt::NCTR], g_ignored = 0, g_unrepro = 0, g_sweeps = 0, g_sweep_runs = 0, g_hist_checked = 0;
bool g_count = true;

struct Res {
  bool bad = false, noroom = false;
  bool suspect = false;
  string cls, msg;
  int op = -1;
  uint64_t hash = 0, sched = 0;
};

// one simulated execution in a child process; afterwards rt::SH holds its record
Res run(const Case &c, bool quiet = true) {
  Res r;
  rt::Shared *sh = rt::SH;
  sh->status = 0;
  sh->cls[0] = sh->msg[0] = sh->detail[0] = 0;
  for (int i = 0; i < rt::MAXT; i++) sh->cur_op[i] = -1;
  sh->fail_op = -1;
  sh->hash = sh->sched_hash = 1;
  sh->nsw = 0;
  memset(sh->ctr, 0, sizeof sh->ctr);
  size_t n = c.cl ? 16 : std::min<size_t>(c.s.ops.size() + 1, rt::MAXOPS);
  memset(sh->digest, 0, n * sizeof sh->digest[0]);
  memset(sh->threw, 0, n);
  pid_t p = fork();
  if (p < 0) {
    perror("fork");
    exit(3);
  }
  if (p == 0) {
    if (quiet) {
      int f = open("/dev/null", O_WRONLY);
      if (f >= 0) dup2(f, 2);
    }
    alarm(60);
    if (c.cl) cluster_execute(c.c);
    scn_execute(c.s);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
  }
  g_runs++;
  r.hash = sh->hash;
  r.sched = sh->sched_hash;
  r.op = sh->fail_op;
  if (WIFSIGNALED(st)) {
    int sig = WTERMSIG(st);
    r.bad = true;
    for (int i = 0; i < rt::MAXT; i++) if (sh->cur_op[i] >= 0) r.op = sh->cur_op[i];
    if (sig == SIGALRM) {
      r.cls = "hang";
      r.msg = "a run did not end within 60 seconds";
    } else {
      r.cls = string("crash-") + strsignal(sig);
      std::replace(r.cls.begin(), r.cls.end(), ' ', '-');
      r.msg = string("the process was ended by signal ") + strsignal(sig);
    }
  } else if (sh->status == rt::ST_VIOLATION || sh->status == rt::ST_SUSPECT) {
    r.bad = sh->status == rt::ST_VIOLATION;
    r.suspect = !r.bad;
    r.cls = sh->cls;
    r.msg = sh->msg;
  } else if (sh->status == rt::ST_NOROOM) {
    r.noroom = true;
  } else if (sh->status != rt::ST_OK) {
    if (WEXITSTATUS(st) == 3) {
      fprintf(stderr, "simulator failure in a child\n");
      exit(3);
    }
    r.bad = true;
    r.cls = "exit";
    r.msg = "the library ended the process";
  }
  if (g_count) for (int i = 0; i < rt::NCTR; i++) g_ctr[i] += sh->ctr[i];
  return r;
}

rt::Shared *first;  // record of the first execution of a judged case
bool comparing(const Scn &s) {
  return s.profile == "C07" || s.profile == "C08" || s.profile == "C12" || s.profile == "C14" || s.profile == "C16";
}

// executes a case and decides whether the property of its profile was violated
Res judge(const Case &c) {
  Res r = run(c);
  memcpy((void *)first, (void *)rt::SH, sizeof(rt::Shared));
  if (r.bad || c.cl || r.noroom) return r;
  if (!r.suspect && !comparing(c.s)) return r;
  if (c.s.ops.size() >= rt::MAXOPS) return r;
  Xf x = reference_of(c.s, *first);
  if (r.suspect && first->fail_op >= 0) {
    // nothing is known about what comes after the point of failure
    size_t keep = 0;
    while (keep < x.from.size() && x.from[keep] <= first->fail_op) keep++;
    x.scn.ops.resize(keep);
    x.from.resize(keep);
  }
  Case rc;
  rc.s = x.scn;
  bool cnt = g_count;
  g_count = false;
  Res q = run(rc);
  g_count = cnt;
  if (g_count) {
    g_ctr[rt::C_JUDGED]++;
    for (int k : {rt::C_PARTS, rt::C_CARRIED, rt::C_LOST}) g_ctr[k] += rt::SH->ctr[k];
  }
  for (int k : {rt::C_PARTS, rt::C_CARRIED, rt::C_LOST}) first->ctr[k] += rt::SH->ctr[k];
  g_runs--;
  if (q.noroom) {
    r.suspect = false;
    return r;
  }
  if (r.suspect) {
    if (q.suspect || q.bad) {
      g_ignored++;
      r.suspect = false;
      return r;
    }
    r.bad = true;
    r.suspect = false;
    return r;
  }
  if (q.bad) {
    q.msg = "in the reference run: " + q.msg;
    if (q.op >= 0 && q.op < (int)x.from.size()) q.op = x.from[q.op];
    q.hash = r.hash;
    return q;
  }
  for (size_t i = 0; i < x.from.size() && i < rt::MAXOPS; i++) {
    int f = x.from[i];
    if (f < 0 || f >= rt::MAXOPS) continue;
    if (first->threw[f] == 2 || rt::SH->threw[i] == 2) continue;  // not carried out
    g_hist_checked++;
    if (rt::SH->digest[i] != first->digest[f]) {
      r.bad = true;
      r.op = f;
      const Op &o = c.s.ops[f];
      static const char *const how[] = {"returned", "threw", "was not possible"};
      char b[400];
      snprintf(b, sizeof b, "operation %d (%s on runner %d of thread %d) %s with outcome %016lx; %s it %s with outcome %016lx", f, OPNAME[o.k], o.r,
               o.tid, how[first->threw[f] % 3], (unsigned long)first->digest[f],
               c.s.profile == "C08" ? "alone" : c.s.profile == "C14" ? "with all calls on one thread" : c.s.profile == "C16" ? "with the plan in parts" : "on a newly created runner",
               how[rt::SH->threw[i] % 3], (unsigned long)rt::SH->digest[i]);
      r.msg = b;
      r.cls = c.s.profile == "C08" ? "interference" : c.s.profile == "C14" ? "thread-dependent" : c.s.profile == "C16" ? "parts-differ" : "history-dependent";
      return r;
    }
  }
  return r;
}

// ---- minimisation, on the lines of the scenario's text
vector<string> lines_of(const string &t) {
  vector<string> v;
  std::istringstream in(t);
  string l;
  while (std::getline(in, l)) v.push_back(l);
  return v;
}
string join(const vector<string> &v) {
  string s;
  for (const auto &l : v) s += l + "\n";
  return s;
}
bool starts(const string &s, const char *p) {
  return s.compare(0, strlen(p), p) == 0;
}

struct Minimiser {
  string cls;
  double deadline;
  bool reseed = false;
  int tries = 0;
  // true when the case still fails in the same way; may change the schedule seed in t
  bool fails(vector<string> &v) {
    if (now() > deadline) return false;
    tries++;
    Case c;
    if (!parse(join(v), c)) return false;
    Res r = judge(c);
    if (r.bad && r.cls == cls) return true;
    if (!reseed || c.cl || c.s.sched.list) return false;
    for (uint64_t k = 1; k <= 12; k++) {
      Case d = c;
      d.s.sched.seed = k;
      r = judge(d);
      if (r.bad && r.cls == cls) {
        v = lines_of(text(d));
        return true;
      }
    }
    return false;
  }
  void ddmin(vector<string> &v, const char *prefix) {
    size_t chunk = v.size();
    while (chunk >= 1) {
      bool any = false;
      for (size_t at = 0; at < v.size() && now() < deadline;) {
        vector<string> w;
        size_t dropped = 0, i = 0;
        for (; i < v.size(); i++) {
          if (i >= at && dropped < chunk && starts(v[i], prefix)) dropped++;
          else w.push_back(v[i]);
          if (i >= at && dropped >= chunk) { i++; break; }
        }
        for (size_t k = i; k < v.size(); k++) w.push_back(v[k]);
        if (!dropped) break;
        if (fails(w)) {
          v = w;
          any = true;
        } else {
          at = i;
        }
      }
      if (chunk == 1 && !any) break;
      if (!any || chunk > 1) chunk = chunk > 1 ? chunk / 2 : chunk;
      if (now() > deadline) break;
    }
  }
  void tweak(vector<string> &v) {
    for (size_t i = 0; i < v.size() && now() < deadline; i++) {
      vector<string> w = v;
      if (starts(v[i], "fill ")) {
        w[i] = "fill 1 1 0";
        if (w[i] != v[i] && fails(w)) v = w;
      } else if (starts(v[i], "retain ")) {
        w[i] = "retain 0";
        if (w[i] != v[i] && fails(w)) v = w;
      } else if (starts(v[i], "op ")) {
        size_t p = v[i].find(" !");
        if (p != string::npos) {
          size_t e = v[i].find(' ', p + 1);
          w[i] = v[i].substr(0, p) + (e == string::npos ? "" : v[i].substr(e));
          if (fails(w)) v = w;
        }
      }
    }
  }
  string minimise(const Case &c) {
    vector<string> v = lines_of(text(c));
    reseed = !c.cl && c.s.threads > 1;
    if (cls == "scales") return join(v);  // operations compared with each other
    ddmin(v, "op ");
    ddmin(v, "flt ");
    ddmin(v, "row ");
    tweak(v);
    if (reseed) {
      // fix the schedule: the list of preemptions instead of a seed
      Case d;
      parse(join(v), d);
      Res r = judge(d);
      if (r.bad && r.cls == cls && first->nsw < rt::MAXSW) {
        d.s.sched.list = true;
        d.s.sched.sw.assign(first->sw, first->sw + first->nsw);
        vector<string> w = lines_of(text(d));
        reseed = false;
        if (fails(w)) {
          ddmin(w, "sw ");
          v = w;
        }
      }
    }
    ddmin(v, "op ");
    return join(v);
  }
};

string describe(const string &profile, uint64_t seed, const Res &r, const Case &c) {
  std::ostringstream o;
  o << "# property " << profile << "\n# violation " << r.cls << "\n# " << r.msg << "\n# found with seed " << seed << "; hash of the run "
    << std::hex << r.hash << std::dec << "\n";
  if (r.op >= 0) o << "# at operation " << r.op << " (counted from 0)\n";
  (void)c;
  return o.str();
}

bool nontrivial(const string &p, const uint64_t *c) {
  using namespace rt;
  if (p == "C01") return c[C_PUT] >= 3 && c[C_CHECKED] >= 1;
  if (p == "C02") return c[C_GROUPS] >= 1 && c[C_PUT] >= 3;
  if (p == "C03") return c[C_DRAIN] >= 1 && c[C_GROUPS] >= 1;
  if (p == "C04") return c[C_ABANDON] + c[C_PUT_THROW] + c[C_DECODE_BAD] + c[C_GET_THROW] + c[C_RUN_THROW] >= 1;
  if (p == "C05") return c[C_FAULT_ONE] + c[C_FAULT_LAST] >= 1;
  if (p == "C06") return c[C_DECODE_BAD] + c[C_DECODE_LENIENT] >= 1;
  if (p == "C07") return c[C_REDECODE] >= 1 && c[C_CHECKED] >= 1;
  if (p == "C08") return c[C_SWITCH] >= 1;
  if (p == "C09") return c[C_DROP] + c[C_DUP] + c[C_CRASH] + c[C_SPILL] + c[C_STALL] + c[C_NODE_OOM] >= 1 && c[C_MERGE_ROWS] >= 1;
  if (p == "C10") return c[C_VERIFY] >= 5;
  if (p == "C11") return c[C_PUT_THROW] + c[C_GET_THROW] + c[C_RUN_THROW] >= 1;
  if (p == "C12") return c[C_RUN] >= 2;
  if (p == "C13") return c[C_CYCLES] >= 20 && c[C_PUT] + c[C_RUN] >= 20;
  if (p == "C15") return c[C_CYCLES] >= 20 || c[C_GROUPS] + c[C_RUN] >= 2;
  if (p == "C16") return c[C_CARRIED] >= 3;
  if (p == "C14") return c[C_HANDOVER] >= 2 && c[C_PUT] + c[C_RUN] >= 1;
  return true;
}

string esc(const string &s) {
  string o;
  for (char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if ((unsigned char)c < 32) o += ' ';
    else o += c;
  }
  return o;
}

uint64_t case_seed(uint64_t seed, uint64_t idx) {
  return rt::hash64(seed, idx) >> 1;
}

int batch(int argc, char **argv) {
  if (argc < 9) return 3;
  string profile = argv[2];
  uint64_t seed = strtoull(argv[3], 0, 10), start = strtoull(argv[4], 0, 10), count = strtoull(argv[5], 0, 10);
  double secs = atof(argv[6]);
  string out = argv[7], dir = argv[8];
  double t0 = now();
  string stop = dir + "/stop-" + profile;
  vector<uint64_t> hashes, scheds;
  uint64_t nontriv = 0, cases = 0, twice = 0;
  vector<string> found;
  string sample;
  auto report = [&](const Case &c, uint64_t cs, Res r) {
    // the same case again: the same violation and the same execution
    bool cnt = g_count;
    g_count = false;
    Res a = judge(c);
    bool same = a.bad && a.cls == r.cls && (a.hash == r.hash || a.cls.compare(0, 5, "crash") == 0);
    if (!same) {
      g_unrepro++;
      g_count = cnt;
      fprintf(stderr, "not reproduced: %s seed %lu: %s %s / %s\n", profile.c_str(), (unsigned long)cs, r.cls.c_str(), r.msg.c_str(), a.cls.c_str());
      return;
    }
    char name[600];
    string k = r.cls;
    for (auto &ch : k) if (!isalnum((unsigned char)ch)) ch = '-';
    snprintf(name, sizeof name, "%s/%s-%s-%lu.replay", dir.c_str(), profile.c_str(), k.c_str(), (unsigned long)cs);
    Minimiser m;
    m.cls = r.cls;
    m.deadline = now() + 40;
    string t = m.minimise(c);
    Case d;
    if (!parse(t, d)) { d = c; t = text(c); }
    Res f = judge(d);
    if (!f.bad) { d = c; t = text(c); f = judge(c); }
    std::ofstream(name) << describe(profile, cs, f, d) << t;
    found.push_back(name);
    printf("FOUND %s %s: %s\n", name, f.cls.c_str(), f.msg.c_str());
    fflush(stdout);
    g_count = cnt;
  };
  for (uint64_t i = start; i < start + count && found.empty(); i++) {
    if (now() - t0 > secs || access(stop.c_str(), F_OK) == 0) break;
    uint64_t cs = case_seed(seed, i);
    Case c = make(profile, cs);
    uint64_t before[rt::NCTR];
    memcpy(before, g_ctr, sizeof before);
    Res r = judge(c);
    cases++;
    hashes.push_back(first->hash);
    scheds.push_back(first->sched_hash);
    bool nt = nontrivial(profile, first->ctr);
    nontriv += nt;
    if (!nt) hashes.pop_back();
    if (sample.empty() && nt && i > start + 3) sample = text(c);
    if (!r.bad && i % 64 == 5) {
      g_count = false;
      Res a = judge(c);
      g_count = true;
      twice++;
      if (a.hash != r.hash || a.bad) {
        g_unrepro++;
        fprintf(stderr, "not deterministic: %s seed %lu\n", profile.c_str(), (unsigned long)cs);
      }
    }
    if (r.bad) report(c, cs, r);
    if (!found.empty()) break;
    if (profile == "C05" && i % 3 == 0 && !r.bad) {
      // enumerate the failing allocation of one operation
      vector<int> cand;
      for (size_t k = 0; k < c.s.ops.size(); k++) {
        c.s.ops[k].fm = 0;
        OpK o = c.s.ops[k].k;
        if (o == O_NEW || o == O_DEC || o == O_PUT || o == O_GET || o == O_DRN || o == O_RUN || o == O_XGET || o == O_XALL) cand.push_back((int)k);
      }
      rt::Rng rg(cs ^ 0x5EEDULL);
      if (cand.empty()) continue;
      int k = cand[rg.below(cand.size())];
      int fj = (c.s.ops[k].k == O_GET || c.s.ops[k].k == O_DRN) ? (int)rg.below(3) : 0;
      g_sweeps++;
      for (int mode = 1; mode <= 2 && found.empty(); mode++) {
        for (long n = 1; n < 400 && now() - t0 < secs; n++) {
          Case d = c;
          d.s.ops[k].fm = mode;
          d.s.ops[k].fk = n;
          d.s.ops[k].fj = fj;
          if (d.s.ops[k].k == O_DEC) {
            // a runner whose Decode failed is given the plan again
            Op again = d.s.ops[k];
            again.fm = 0;
            d.s.ops.insert(d.s.ops.begin() + k + 1, again);
          }
          r = judge(d);
          g_sweep_runs++;
          bool fired = first->ctr[rt::C_FAULT_ONE] + first->ctr[rt::C_FAULT_LAST] > 0;
          if (fired) { hashes.push_back(first->hash); nontriv++; }
          cases++;
          if (r.bad) { report(d, cs, r); break; }
          if (!fired) break;
        }
      }
    }
  }
  if (!found.empty()) close(open(stop.c_str(), O_CREAT | O_WRONLY, 0644));
  std::sort(hashes.begin(), hashes.end());
  hashes.erase(std::unique(hashes.begin(), hashes.end()), hashes.end());
  std::sort(scheds.begin(), scheds.end());
  scheds.erase(std::unique(scheds.begin(), scheds.end()), scheds.end());
  std::ofstream hf(out + ".hashes", std::ios::binary);
  hf.write((const char *)hashes.data(), hashes.size() * 8);
  std::ofstream sf(out + ".scheds", std::ios::binary);
  sf.write((const char *)scheds.data(), scheds.size() * 8);
  std::ofstream j(out);
  j << "{\"cases\": " << cases << ", \"runs\": " << g_runs << ", \"nontrivial\": " << nontriv << ", \"distinct\": " << hashes.size()
    << ", \"unreproduced\": " << g_unrepro << ", \"ignored_suspects\": " << g_ignored << ", \"determinism_checked\": " << twice
    << ", \"sweeps\": " << g_sweeps << ", \"sweep_runs\": " << g_sweep_runs << ", \"outcomes_compared\": " << g_hist_checked
    << ", \"seconds\": " << now() - t0 << ",\n \"counters\": {";
  for (int i = 0; i < rt::NCTR; i++) j << (i ? ", " : "") << "\"" << rt::CTR_NAME[i] << "\": " << g_ctr[i];
  j << "},\n \"sample\": \"" << esc(sample) << "\",\n \"found\": [";
  for (size_t i = 0; i < found.size(); i++) j << (i ? ", " : "") << "\"" << esc(found[i]) << "\"";
  j << "]}\n";
  return 0;
}

}  // namespace

int main(int argc, char **argv) {
  if (argc < 3) return 3;
  if (!getenv("SIMC_NOASLR")) {
    setenv("SIMC_NOASLR", "1", 1);
    if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  struct rlimit nocore = {0, 0};
  setrlimit(RLIMIT_CORE, &nocore);
  rt::init_process();
  first = (rt::Shared *)mmap(nullptr, sizeof(rt::Shared), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  string cmd = argv[1];
  if (cmd == "batch") return batch(argc, argv);
  if (cmd == "gen" && argc >= 5) {
    fputs(text(make(argv[2], case_seed(strtoull(argv[3], 0, 10), strtoull(argv[4], 0, 10)))).c_str(), stdout);
    return 0;
  }
  if (cmd == "replay") {
    std::ifstream in(argv[2]);
    std::stringstream b;
    b << in.rdbuf();
    Case c;
    if (!in || !parse("\n" + b.str(), c)) {
      fprintf(stderr, "cannot read %s\n", argv[2]);
      return 3;
    }
    Res r = judge(c);
    if (argc > 3) {
      for (size_t i = 0; !c.cl && i < c.s.ops.size(); i++) {
        printf("op %zu %s outcome %016lx%s\n", i, OPNAME[c.s.ops[i].k], (unsigned long)first->digest[i],
               first->threw[i] == 1 ? " threw" : first->threw[i] == 2 ? " skipped" : "");
      }
      for (int i = 0; i < rt::NCTR; i++) if (first->ctr[i]) printf("%s %lu\n", rt::CTR_NAME[i], (unsigned long)first->ctr[i]);
      printf("detail %s\n", first->detail);
    }
    printf("hash %016lx schedule %016lx\n", (unsigned long)r.hash, (unsigned long)first->sched_hash);
    if (r.bad) {
      printf("violation %s at operation %d: %s\n", r.cls.c_str(), r.op, r.msg.c_str());
      return 1;
    }
    printf("holds\n");
    return 0;
  }
  return 3;
}
