// Helpers of the demonstrations.
#pragma once
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#include <functional>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include "expr/codec.h"
#include "expr/operand.h"
#include "expr/runner.h"
#include "expr/utils.h"
#include "rel/rel_runner.h"

using namespace dingodb::expr;
using dingodb::rel::RelRunner;

[[noreturn]] inline void bad(const std::string &s) {
  printf("FAIL: %s\n", s.c_str());
  exit(1);
}
#define REQUIRE(c) \
  do { \
    if (!(c)) bad(std::string(#c) + " at line " + std::to_string(__LINE__)); \
  } while (0)
inline std::vector<Byte> bytes(const std::string &hex) {
  std::vector<Byte> v(hex.size() / 2);
  HexToBytes(v.data(), hex.data(), hex.size());
  return v;
}
template <class R>
size_t dec(R &r, const std::string &hex) {
  auto v = bytes(hex);
  std::unique_ptr<Byte[]> p(new Byte[v.size()]);
  memcpy(p.get(), v.data(), v.size());
  return r.Decode(p.get(), v.size()) - p.get();
}
template <class R>
bool rejects(R &r, const std::string &hex) {
  try {
    dec(r, hex);
  } catch (const std::exception &) {
    return true;
  }
  return false;
}
inline std::string str(const Operand &o) {
  std::ostringstream s;
  if (o == nullptr) return "NULL";
  s << o;
  return s.str();
}
inline std::string str(const Tuple &t) {
  std::string s;
  for (auto &o : t) s += (s.empty() ? "" : ",") + str(o);
  return s;
}
inline std::string put(const RelRunner &r, const Tuple &t) {
  std::unique_ptr<const Tuple> o(r.Put(new Tuple(t)));
  return o ? str(*o) : "-";
}
inline std::string get(const RelRunner &r) {
  std::unique_ptr<const Tuple> o(r.Get());
  return o ? str(*o) : "-";
}
// everything a runner still delivers
inline std::multiset<std::string> drain(const RelRunner &r, int cap = 100000) {
  std::multiset<std::string> m;
  for (int i = 0; i < cap; i++) {
    std::string s = get(r);
    if (s == "-") return m;
    m.insert(s);
  }
  bad("no end");
}
inline std::string all(const std::multiset<std::string> &m) {
  std::string s;
  for (auto &x : m) s += x + ";";
  return s;
}
template <class F>
bool throws(F f) {
  try {
    f();
  } catch (const std::exception &) {
    return true;
  }
  return false;
}
