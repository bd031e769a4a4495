// C09: a simulated cluster of nodes that compute parts of one query with the real library.
#pragma once
#include <string>

#include "scn.h"

// Which fault, and where it strikes.  The meaning of at / node / arg is given with the kinds in cluster.cc.
struct ClFault {
  int kind = 0;
  long at = 0;
  int node = 0;
  long arg = 0;
};
struct ClScn {
  uint64_t seed = 0;
  int fill = 0;
  uint64_t fseed = 1;
  bool recycle = false;
  int nodes = 1;
  int regions = 1;
  int coord = 0;     // 0 one merging runner fed in order of arrival, 1 two levels
  long netseed = 1;  // latencies, chunk sizes, reuse decisions
  model::Bytes full;   // what one runner would run
  model::Bytes part;   // what each part runs
  model::Bytes merge;  // the matching merge plan
  model::Bytes tail;   // operators behind the aggregate, appended to the last merge plan
  std::vector<std::pair<int, model::Row>> rows;  // region, row
  std::vector<ClFault> faults;
};
ClScn cluster_generate(uint64_t seed);
std::string cluster_text(const ClScn &s);
bool cluster_parse(const std::string &t, ClScn &s);
[[noreturn]] void cluster_execute(const ClScn &s);
