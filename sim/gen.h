#pragma once
#include "scn.h"

namespace gen {
using model::Bytes;
using model::Row;
using model::Ty;
using model::Val;

struct Cfg {
  double pnull = 0.15;   // NULL probability of a cell
  int domain = 3;        // 0 tiny .. 3 wide
  double pthrow = 0;     // operators which can fail
  double pmist = 0;      // cells of another type
  bool longstr = false;
  double plong = 0.2;
  bool fsum = true;      // SUM of FLOAT/DOUBLE
  bool exact = false;    // all arithmetic exact and order independent
  int maxdepth = 3;
  bool funs = true;
  int npay = 0;
  bool arrays = false;
  bool odd = false;      // NaN, infinities, -0.0
  bool rep = false;      // operators which repeat each other
  bool negz = false;     // -0.0
  double sib = 0;        // values much like earlier ones
};

struct Plan {
  Bytes code;
  std::vector<Ty> in;    // column types expected
  std::vector<Ty> out;
  int naggs = 0;
};

struct Gen {
  rt::Rng r;
  Cfg c;
  std::vector<Bytes> pays;
  explicit Gen(uint64_t seed) : r(seed) {
  }
  Bytes varint(uint64_t v);
  Bytes cnst(const Val &v);
  Val value(Ty t);
  Val fresh(Ty t);
  std::vector<Val> recent[8];
  Bytes sibling(const Bytes &b, bool plan, const std::vector<Ty> &cols);
  Val keyish(Ty t);
  Bytes expr(Ty t, const std::vector<Ty> &cols, int depth);
  Bytes single(std::vector<Ty> &cols);
  Bytes failing(const std::vector<Ty> &cols, Ty &t);
  Ty pick_type();
  Ty pick_type_of(const std::vector<Ty> &cols);
  std::vector<Ty> columns(int n);
  Row row(const std::vector<Ty> &cols);
  // shape: string of F P G U
  Plan plan(const std::string &shape, const std::vector<Ty> &in);
  std::string shape(int maxlen, double pagg);
  Bytes damage(const Bytes &b, bool plan);
};
}  // namespace gen
