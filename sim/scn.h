// Scenarios: the operations, faults and scheduling decisions of one simulated run.
#pragma once
#include <string>
#include <vector>

#include "model.h"
#include "rt.h"

enum OpK {
  O_NEW, O_DEC, O_PUT, O_GET, O_DRN, O_DEL,          // plan runners (and NEW/DEC/DEL of both kinds)
  O_BND, O_BSH, O_UBT, O_RUN, O_XGET, O_XALL, O_XOPT, O_XTYP,  // expression runners
  O_REL, O_CHK,
  NOPK
};
extern const char *const OPNAME[NOPK];

struct Op {
  int tid = 0;
  OpK k = O_NEW;
  int r = 0;             // slot
  int n = 0;             // count, kind of runner, shared index
  int rep = 1;           // of NEW, DEC and RUN: so many times in a row
  int share = -1;        // shared code buffer; of a repeated Put the column which counts
  int sz = 0;            // work judged: its size, compared with that of an earlier operation of its kind
  int fm = 0;            // fault: 0 none, 1 one allocation, 2 every allocation from there on
  long fk = 0;           // counted from 1 inside the call
  int fj = 0;            // which call of the operation
  model::Bytes code;
  model::Row row;
};

struct Sched {
  bool list = false;
  uint64_t seed = 1;
  int max = 100;
  int start = 0;
  double p[rt::NKIND] = {0, 0, 0, 0, 0, 0};
  std::vector<rt::Switch> sw;
};

struct Scn {
  std::string profile;
  uint64_t seed = 0;
  int fill = 0;
  uint64_t fseed = 1;
  bool recycle = false;
  int retain = 0;
  int threads = 1;
  bool relay = false;      // one call at a time, each on the thread of its op (0 main, 1 and 2 live on, 3 a new one each time)
  int cycles = 0;          // repeat the ops from number cyc on so many times
  int cyc = 0;
  bool vary = false;       // other values in each cycle
  int cut = 0;             // reference: plans are cut after operator j + 1 where bit j (modulo 16) is set, each part a runner of its own
  int lose = 0;            // and so many of a thousand times a part is lost and made again from the rows it was given
  bool split = false;      // this is that reference
  int env = 0;             // host environment: 1 C++ locale, 2 errno, 4 floating-point flags, 8 C locale
  bool adapt = false;      // rows come from and delivered values go to the optional-in-any form
  bool blindmode = false;  // values outside the specified range allowed; nothing expected of results
  Sched sched;
  std::vector<model::Bytes> pays;
  std::vector<model::Bytes> codes;
  std::vector<model::Row> tups;
  std::vector<Op> ops;
};

std::string scn_text(const Scn &s);
bool scn_parse(const std::string &t, Scn &s);

// executes in the current (child) process; ends it through rt::violation, rt::suspect or rt::finish_ok
[[noreturn]] void scn_execute(const Scn &s);

Scn generate(const std::string &profile, uint64_t seed);

// the reference scenario of a run: the same history without what the property says must not matter
struct Xf {
  Scn scn;
  std::vector<int> from;  // op index in the original, or -1
};
Xf reference_of(const Scn &s, const rt::Shared &res);
