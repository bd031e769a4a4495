// Seeded generation of plans, expressions, rows, histories, faults and schedules.
#include "gen.h"

#include <float.h>
#include <limits.h>
#include <math.h>
#include <string.h>

#include <algorithm>

using namespace model;

namespace gen {

Bytes Gen::varint(uint64_t v) {
  Bytes b;
  while (v >= 128) { b += (char)(v & 127 | 128); v >>= 7; }
  b += (char)v;
  return b;
}
Bytes Gen::cnst(const Val &v) {
  Bytes b;
  switch (v.t) {
  case TI:
    if (v.i >= 0) b = Bytes(1, 0x11) + varint((uint64_t)v.i);
    else b = Bytes(1, 0x21) + varint((uint64_t)-v.i);
    break;
  case TL:
    if (v.i >= 0) b = Bytes(1, 0x12) + varint((uint64_t)v.i);
    else b = Bytes(1, 0x22) + varint(0ull - (uint64_t)v.i);
    break;
  case TB: b = Bytes(1, v.i ? 0x13 : 0x23); break;
  case TF: {
    float f = (float)v.d;
    uint32_t u;
    memcpy(&u, &f, 4);
    b = Bytes(1, 0x14);
    for (int i = 3; i >= 0; i--) b += (char)(u >> (8 * i));
    break;
  }
  case TD: {
    uint64_t u;
    memcpy(&u, &v.d, 8);
    b = Bytes(1, 0x15);
    for (int i = 7; i >= 0; i--) b += (char)(u >> (8 * i));
    break;
  }
  case TS: b = Bytes(1, 0x17) + varint(v.s.size()) + v.s; break;
  default: b = Bytes(1, 0x01);
  }
  return b;
}

static const char *const POOL[] = {"", "a", "b", "ab", "abc", "Alice", "Betty", " x ", "  lead", "trail  ", "12", "-7", "3.25", "0", "xyz12",
                                   "ALICE", "aBc", "exactly15chars!", "sixteen chars!!!", "a string longer than the inline buffer of std::string",
                                   "zz", "10", "9", "007", "1e2"};
static const int NPOOL = sizeof POOL / sizeof *POOL;

// A value much like an earlier one (the same length, ends, digits, all but one bit), or exactly an earlier one.
Val Gen::value(Ty t) {
  if (c.sib > 0 && t < 8 && !recent[t].empty() && r.chance(c.sib)) {
    Val v = recent[t][r.below(recent[t].size())];
    if (r.chance(0.3)) return v;
    if (t == TI) return vi((int32_t)r.below(4) ? (int32_t)((uint32_t)v.i ^ 1u << r.below(r.chance(0.5) ? 6 : 30)) : (int32_t)-(int64_t)(v.i == INT_MIN ? 0 : v.i));
    if (t == TL && c.domain >= 3) return vl((int64_t)((uint64_t)v.i ^ 1ull << r.below(r.chance(0.5) ? 6 : 62)));
    if (t == TS && v.pay < 0 && !v.s.empty()) {
      std::string q = v.s;
      if (r.chance(0.2)) { q += q[r.below(q.size())]; return vs(q); }
      if (r.chance(0.2)) { q.erase(r.below(q.size()), 1); return vs(q); }
      char &x = q[q.size() > 2 && r.chance(0.7) ? 1 + r.below(q.size() - 2) : r.below(q.size())];
      if (x >= '0' && x <= '9') x = (char)('0' + (x - '0' + 1 + r.below(9)) % 10);
      else if (x >= 'a' && x <= 'z') x = r.chance(0.3) ? (char)(x - 32) : (char)('a' + (x - 'a' + 1 + r.below(25)) % 26);
      else if (x >= 'A' && x <= 'Z') x = (char)(x + 32);
      return vs(q);
    }
  }
  Val v = fresh(t);
  if (c.sib > 0 && t < 8) {
    if (recent[t].size() < 8) recent[t].push_back(v);
    else recent[t][r.below(8)] = v;
  }
  return v;
}

Val Gen::fresh(Ty t) {
  if (c.pthrow > 0 && r.chance(0.12)) {
    // values some checked conversion does not take
    static const int64_t b[] = {INT64_MIN, INT64_MAX, INT_MAX, INT_MIN, (int64_t)INT_MAX + 1, (int64_t)INT_MIN - 1, 1LL << 40};
    static const double d[] = {2147483647.0, -2147483649.0, 2147483648.0, 1e10, -1e10, 2147483647.5, 2147483646.5, 2147483647.25, 2147483647.49, -2147483648.25, -2147483648.5};
    static const char *const st[] = {"2147483648", "-2147483649", "99999999999999999999", "1e400", "1e39", "-1e500", "9223372036854775808", "2147483647"};
    if (t == TI && r.chance(0.5)) return vi(INT_MIN);
    if (t == TL) return vl(b[r.below(7)]);
    if (t == TD) return vd(d[r.below(11)]);
    if (t == TF) return vf(r.chance(0.5) ? 3e9f : -3e9f);
    if (t == TS) return vs(st[r.below(8)]);
  }
  switch (t) {
  case TI:
    if (c.domain == 0) return vi((int32_t)r.range(0, 1));
    if (c.domain == 1) return vi((int32_t)r.range(-3, 3));
    if (c.domain >= 3 && r.chance(0.08)) {
      static const int32_t b[] = {INT_MIN, INT_MAX, INT_MIN + 1, 127, 128, 16383, 16384, 65535, -128, 0x7FFFFF, 1000000007};
      return vi(b[r.below(11)]);
    }
    if (c.domain == 4) return vi((int32_t)r.range(-1000000, 1000000));
    return vi((int32_t)r.range(-40, 60));
  case TL:
    if (c.domain == 0) return vl(r.range(0, 1));
    if (c.domain == 1) return vl(r.range(-3, 3));
    if (c.domain >= 3 && r.chance(0.08)) {
      static const int64_t b[] = {INT64_MIN, INT64_MAX, INT_MAX, INT_MIN, (int64_t)INT_MAX + 1, (int64_t)INT_MIN - 1, 1LL << 40, -(1LL << 53), 128};
      return vl(b[r.below(9)]);
    }
    if (c.domain == 4) return vl(r.range(-1000000000000LL, 1000000000000LL));
    return vl(r.range(-40, 60));
  case TB: return vb(r.chance(0.5));
  case TF:
    if (c.odd && r.chance(0.1)) { static const float b[] = {NAN, INFINITY, -INFINITY, -0.0f, FLT_MAX, 1e20f, 3e9f}; return vf(b[r.below(7)]); }
    if (c.negz && r.chance(0.1)) return vf(-0.0f);
    if (c.domain <= 1) return vf((float)r.range(-2, 2));
    if (c.exact) return vf((float)r.range(-64, 64) / 4);
    return vf((float)r.range(-400, 400) / (r.chance(0.5) ? 4 : 3));
  case TD:
    if (c.odd && r.chance(0.1)) { static const double b[] = {NAN, INFINITY, -INFINITY, -0.0, DBL_MAX, 1e300, 1e19, 3e9}; return vd(b[r.below(8)]); }
    if (c.negz && r.chance(0.1)) return vd(-0.0);
    if (c.domain <= 1) return vd((double)r.range(-2, 2));
    if (c.exact) return vd((double)r.range(-64, 64) / 4);
    if (c.domain >= 3 && r.chance(0.05)) { static const double b[] = {2147483647.0, -2147483648.0, 2147483648.0, 1e10, 0.5, -0.5, 1.5, 9007199254740993.0}; return vd(b[r.below(8)]); }
    return vd((double)r.range(-4000, 4000) / (r.chance(0.5) ? 8 : 7));
  case TS: {
    if (c.npay && r.chance(0.5)) {
      int i = (int)r.below(c.npay);
      Val v = vs(pays[i]);
      v.pay = (int16_t)i;
      return v;
    }
    if (c.domain == 0) return vs(POOL[1 + r.below(2)]);
    if (c.domain == 1) return vs(POOL[r.below(7)]);
    if (c.longstr && r.chance(c.plong)) {
      std::string s;
      size_t n = r.chance(0.2) ? 200 + r.below(3000) : 16 + r.below(60);
      if (r.chance(0.3)) n = 1 + r.below(140);
      else if (r.chance(0.01)) n = 16000 + r.below(r.chance(0.2) ? 60000 : 1000);
      if (r.chance(0.15)) {
        // whole words with blanks around them
        for (size_t i = 0; i < n; i++) s += "  \tAbc xyz,9\n"[r.below(13)];
        return vs(s);
      }
      for (size_t i = 0; i < n; i++) s += (char)('a' + r.below(26));
      if (r.chance(0.15)) s += std::string(1 + r.below(3), ' ');
      if (r.chance(0.1)) s = ' ' + s;
      if (r.chance(0.1)) s[r.below(s.size())] = (char)r.below(256);
      return vs(s);
    }
    if (r.chance(0.1)) {
      char b[40];
      if (r.chance(0.5)) snprintf(b, sizeof b, "%lld", (long long)r.range(-99999, 999999));
      else snprintf(b, sizeof b, "%s%lld.%02lld", r.chance(0.3) ? "-" : "", (long long)r.range(0, 999), (long long)r.range(0, 99));
      return vs(b);
    }
    if (r.chance(0.04)) return vs(std::string(r.chance(0.5) ? "a\0b" : "a\0c", 3));
    if (r.chance(0.04)) return vs("\xC3\xA9\xE4\xB8\xAD");
    return vs(POOL[r.below(NPOOL)]);
  }
  case TA: {
    Val v;
    v.t = TA;
    v.s = std::string(1 + r.below(4), 'x');
    return v;
  }
  default: return vn();
  }
}

Ty Gen::pick_type() {
  static const Ty t[] = {TI, TI, TL, TB, TF, TD, TS, TS};
  return t[r.below(8)];
}
Ty Gen::pick_type_of(const std::vector<Ty> &cols) {
  std::vector<Ty> k;
  for (Ty t : cols) if (t != TA && t != TN) k.push_back(t);
  if (k.empty() || r.chance(0.3)) return pick_type();
  return k[r.below(k.size())];
}
std::vector<Ty> Gen::columns(int n) {
  std::vector<Ty> v;
  for (int i = 0; i < n; i++) v.push_back(c.arrays && r.chance(0.1) ? TA : pick_type());
  return v;
}
Row Gen::row(const std::vector<Ty> &cols) {
  Row x;
  if (c.domain >= 2 && !c.exact && r.chance(0.03)) {
    // a row of limits, so that they meet
    for (Ty t : cols) {
      int k = (int)r.below(6);
      static const char *const st[] = {"", "-1", "0", "-2147483648", " ", "9223372036854775807"};
      if (k == 5 && t != TS) k = 1;
      if (t == TI) x.push_back(vi(k == 0 ? INT_MIN : k == 1 ? -1 : k == 2 ? INT_MAX : k - 3));
      else if (t == TL) x.push_back(vl(k == 0 ? INT64_MIN : k == 1 ? -1 : k == 2 ? INT64_MAX : k - 3));
      else if (t == TF) x.push_back(vf(k == 0 ? 0 : k == 1 ? -1 : k == 2 ? 1.0f / 3 : k == 3 ? 2147483648.0f : -0.5f));
      else if (t == TD) x.push_back(vd(k == 0 ? 0 : k == 1 ? -1 : k == 2 ? 1.0 / 3 : k == 3 ? 2147483647.5 : -2147483648.5));
      else if (t == TS) x.push_back(vs(st[k]));
      else x.push_back(value(t));
    }
    return x;
  }
  for (Ty t : cols) {
    if (r.chance(c.pnull)) { x.push_back(vn()); continue; }
    Ty u = t;
    if (c.pmist > 0 && r.chance(c.pmist)) u = pick_type();
    x.push_back(value(u));
  }
  return x;
}

static Bytes two(uint8_t a, uint8_t b) {
  Bytes s(1, (char)a);
  s += (char)b;
  return s;
}

Bytes Gen::expr(Ty t, const std::vector<Ty> &cols, int depth) {
  std::vector<int> vars;
  for (size_t i = 0; i < cols.size(); i++) if (cols[i] == t) vars.push_back((int)i);
  if (depth <= 0 || r.chance(0.15)) {
    if (!vars.empty() && r.chance(0.7)) {
      int i = vars[r.below(vars.size())];
      return Bytes(1, (char)(0x30 | t)) + varint((uint64_t)i);
    }
    if (r.chance(0.06)) return Bytes(1, (char)t);
    int save = c.npay;
    c.npay = 0;
    Val v = value(t);
    c.npay = save;
    if (v.taint) v = t == TF ? vf(1) : vd(1);
    if (t == TI && v.i == INT_MIN) v = vi(INT_MIN + 1);
    return cnst(v);
  }
  int d = depth - 1;
  if (c.pthrow > 0 && t <= TD && t != TB && r.chance(c.pthrow * 0.4)) {
    std::vector<Ty> src;
    if (t == TI || t == TL) { src = {t, TF, TD, TS}; if (t == TI) src.push_back(TL); }
    else src = {TS};
    Ty s = src[r.below(src.size())];
    for (int k = 0; k < 3; k++) {
      Ty q = src[r.below(src.size())];
      for (Ty x : cols) if (x == q) s = q;
    }
    Bytes a = expr(s, cols, r.chance(0.7) ? 0 : d);
    if (s == t) return a + two(0xB4, t);
    return a + two(s == TS && r.chance(0.5) ? 0xF0 : 0xFC, (uint8_t)(t << 4 | s));
  }
  auto num = [&]() { static const Ty n[] = {TI, TL, TF, TD}; return n[r.below(4)]; };
  switch (t) {
  case TI: case TL: case TF: case TD: {
    int k = (int)r.below(12);
    if (k < 5) {
      static const uint8_t o[] = {0x83, 0x84, 0x85, 0x86, 0x87};
      uint8_t op = o[r.below((t == TI || t == TL) ? 5 : 4)];
      if (c.exact && op >= (t == TF || t == TD ? 0x85 : 0x86)) op = 0x84;
      Bytes a = expr(t, cols, d), b = expr(t, cols, d);
      return a + b + two(op, t);
    }
    if (k == 5) return expr(t, cols, d) + two(r.chance(0.8) ? 0x82 : 0x81, t);
    if (k == 6 || k == 7) {
      Bytes a = expr(t, cols, d), b = expr(t, cols, d);
      return a + b + two(r.chance(0.5) ? 0xB1 : 0xB2, t);
    }
    if (k == 8) return expr(t, cols, d) + two(r.chance(c.pthrow) ? 0xB4 : 0xB3, t);
    if (k == 9 && t == TD && c.funs && !c.exact) {
      static const uint8_t f[] = {1, 2, 7, 8, 9, 0xA, 0xB, 0xC, 0xD, 0xE, 0xF, 0x10, 0x11};
      return expr(TD, cols, d) + two(0xF1, f[r.below(13)]);
    }
    Ty s;
    if (r.chance(c.pthrow)) s = r.chance(0.5) ? TS : num();
    else s = r.chance(0.2) ? TB : num();
    if (c.exact && s != TB) s = t;
    if (s == t) return expr(t, cols, d);
    bool chk = r.chance(0.3 + c.pthrow);
    return expr(s, cols, d) + two(chk ? 0xFC : 0xF0, (uint8_t)(t << 4 | s));
  }
  case TB: {
    int k = (int)r.below(10);
    if (k < 5) {
      Ty s = pick_type_of(cols);
      Bytes a = expr(s, cols, d), b = expr(s, cols, d);
      return a + b + two((uint8_t)(0x91 + r.below(6)), s);
    }
    if (k == 5) return expr(TB, cols, d) + Bytes(1, 0x51);
    if (k < 8) { Bytes a = expr(TB, cols, d), b = expr(TB, cols, d); return a + b + Bytes(1, r.chance(0.5) ? 0x52 : 0x53); }
    Ty s = pick_type_of(cols);
    if (k == 8) return expr(s, cols, d) + two((uint8_t)(0xA1 + r.below(3)), s);
    if (s == TS || s == TB) s = num();
    return expr(s, cols, d) + two(0xF0, (uint8_t)(TB << 4 | s));
  }
  case TS: {
    int k = (int)r.below(10);
    if (k < 2) { Bytes a = expr(TS, cols, d), b = expr(TS, cols, d); return a + b + two(0xF1, 0x21); }
    if (k < 4) { static const uint8_t f[] = {0x22, 0x23, 0x26, 0x28, 0x2A}; return expr(TS, cols, d) + two(0xF1, f[r.below(5)]); }
    auto pos = [&](int lo, int hi) {
      if (r.chance(0.15)) return expr(TI, cols, d + 1);
      if (r.chance(0.08)) return cnst(vi(r.chance(0.5) ? INT32_MAX - (int32_t)r.below(2) : INT32_MIN + 1 + (int32_t)r.below(2)));
      return cnst(vi((int32_t)r.range(lo, hi)));
    };
    if (k < 6) {
      Bytes a = expr(TS, cols, d);
      static const uint8_t f[] = {0x24, 0x25, 0x2F};
      return a + pos(-3, 6) + two(0xF1, f[r.below(3)]);
    }
    if (k == 6) {
      Bytes a = expr(TS, cols, d);
      if (r.chance(0.4)) return a + pos(-3, 4) + pos(-1, 6) + two(0xF1, 0x2E);
      // positions behind the end of the string are not documented, so keep the string long enough
      int32_t lo = (int32_t)r.range(-2, 0);
      if (r.chance(0.6)) {
        a = a + cnst(vs("abcd")) + two(0xF1, 0x21);
        lo = (int32_t)r.range(-2, 4);
      }
      if (r.chance(0.5)) return a + cnst(vi(lo)) + two(0xF1, 0x2D);
      return a + cnst(vi(lo)) + cnst(vi(std::max(lo, 0) + (int32_t)r.range(0, 6))) + two(0xF1, 0x2C);
    }
    if (k == 7) { Bytes a = expr(TS, cols, d), b = expr(TS, cols, d); return a + b + two(r.chance(0.5) ? 0xB1 : 0xB2, TS); }
    if (k == 8) { Bytes a = expr(TS, cols, d), b = expr(TS, cols, d); return a + b + two(0x83, TS); }
    static const Ty n[] = {TI, TL, TB, TF, TD};
    Ty s = n[r.below(5)];
    return expr(s, cols, d) + two(r.chance(0.2) ? 0xFC : 0xF0, (uint8_t)(TS << 4 | s));
  }
  default: return Bytes(1, 0x01);
  }
}

// Another well-formed plan or expression which differs from this one in a constant or a column only.
Bytes Gen::sibling(const Bytes &b, bool plan, const std::vector<Ty> &cols) {
  model::Plan p0, p1;
  model::Prog e0, e1;
  auto same_prog = [&](const model::Prog &x, const model::Prog &y) {
    if (x.size() != y.size()) return false;
    for (size_t i = 0; i < x.size(); i++) {
      if (x[i].op != y[i].op || x[i].arg != y[i].arg) return false;
      if (x[i].idx != y[i].idx) {
        size_t n = cols.size();
        if (plan || (size_t)x[i].idx >= n || (size_t)y[i].idx >= n || cols[x[i].idx] != cols[y[i].idx]) return false;
      }
      if (x[i].imm.taint || y[i].imm.taint || (y[i].imm.t == TD && !(fabs(y[i].imm.d) < 1e6)) || (y[i].imm.t == TF && !(fabs(y[i].imm.d) < 1e6))) return false;
    }
    return true;
  };
  if (plan) { if (model::decode_plan(b, p0).st != model::D_OK) return b; }
  else if (model::decode_expr(b, e0).st != model::D_OK) return b;
  for (int k = 0; k < 12; k++) {
    Bytes x = b;
    if (x.empty()) return b;
    size_t at = r.below(x.size());
    x[at] = r.chance(0.5) ? (char)(x[at] + 1) : (char)(x[at] ^ 1 << r.below(8));
    if (!plan) {
      model::DecRes d = model::decode_expr(x, e1);
      if (d.st == model::D_OK && d.used == x.size() && same_prog(e0, e1)) return x;
      continue;
    }
    model::DecRes d = model::decode_plan(x, p1);
    if (d.st != model::D_OK || d.used != x.size() || p0.size() != p1.size()) continue;
    bool ok = true;
    for (size_t i = 0; ok && i < p0.size(); i++) {
      const model::Stage &u = p0[i], &v = p1[i];
      ok = u.kind == v.kind && same_prog(u.prog, v.prog) && u.keys == v.keys && u.aggs.size() == v.aggs.size();
      for (size_t j = 0; ok && j < u.aggs.size(); j++) ok = u.aggs[j].idx == v.aggs[j].idx && (u.aggs[j].code == v.aggs[j].code || (u.aggs[j].code >> 4) + (v.aggs[j].code >> 4) == 7);
    }
    if (ok) return x;
  }
  return b;
}

// one operator, any of them as likely as another, applied to columns
Bytes Gen::single(std::vector<Ty> &cols) {
  struct OpRow {
    uint8_t a;
    int b;
    Ty in[3];
    int n;
  };
  static std::vector<OpRow> all;
  if (all.empty()) {
    static const Ty num[] = {TI, TL, TF, TD}, any[] = {TI, TL, TB, TF, TD, TS};
    auto un = [&](int a, int b, Ty s) { all.push_back({(uint8_t)a, b, {s, s, s}, 1}); };
    auto bin = [&](int a, int b, Ty s) { all.push_back({(uint8_t)a, b, {s, s, s}, 2}); };
    for (Ty t : num) {
      for (int o = 0x83; o <= 0x86; o++) bin(o, t, t);
      if (t == TI || t == TL) bin(0x87, t, t);
      un(0x82, t, t);
      un(0xB3, t, t);
      un(0xB4, t, t);
      for (Ty s : any) {
        if (s == t) continue;
        un(0xF0, t << 4 | s, s);
        un(0xFC, t << 4 | s, s);
      }
      un(0xF0, TB << 4 | t, t);
      un(0xF0, TS << 4 | t, t);
      un(0xFC, TS << 4 | t, t);
    }
    un(0xF0, TS << 4 | TB, TB);
    bin(0x83, TS, TS);
    for (Ty t : {TI, TL, TF, TD, TS}) bin(0xB1, t, t), bin(0xB2, t, t);
    for (Ty t : any) {
      for (int o = 0x91; o <= 0x96; o++) bin(o, t, t);
      for (int o = 0xA1; o <= 0xA3; o++) un(o, t, t);
    }
    un(0x51, -1, TB);
    bin(0x52, -1, TB);
    bin(0x53, -1, TB);
    for (int f : {1, 2, 7, 8, 9, 0xA, 0xB, 0xC, 0xD, 0xE, 0xF, 0x10, 0x11}) un(0xF1, f, TD);
    // each of these is code of its own
    for (int k = 0; k < 3; k++) {
      for (int f : {0x22, 0x23, 0x26, 0x28, 0x2A}) un(0xF1, f, TS);
      bin(0xF1, 0x21, TS);
      for (int f : {0x24, 0x25, 0x2F}) all.push_back({0xF1, f, {TS, TI, TI}, 2});
      all.push_back({0xF1, 0x2E, {TS, TI, TI}, 3});
      for (Ty s : {TI, TL, TF, TD, TB}) {
        un(0xF0, TS << 4 | s, s);
        if (s != TB) un(0xF0, s << 4 | TS, TS);
      }
    }
  }
  for (;;) {
    const OpRow &o = all[r.below(all.size())];
    if (o.a == 0xF1 && !c.funs) continue;
    if (c.pthrow <= 0 && (o.a == 0xB4 || o.a == 0xFC || (o.a == 0xF0 && (o.b & 15) == TS))) continue;
    Bytes e;
    for (int i = 0; i < o.n; i++) {
      Ty t = o.in[i];
      bool col = i == 0 || r.chance(0.6);
      if (col && (std::find(cols.begin(), cols.end(), t) == cols.end() || (i && r.chance(0.5)))) cols.push_back(t);
      if (i && o.a == 0xF1 && t == TI && r.chance(0.7)) e += cnst(vi((int32_t)r.range(-2, 6)));
      else e += expr(t, cols, 0);
    }
    e += (char)o.a;
    if (o.b >= 0) e += (char)o.b;
    return e;
  }
}

// an expression which is an error for some values of a column; empty when no column serves
Bytes Gen::failing(const std::vector<Ty> &cols, Ty &t) {
  std::vector<int> can;
  for (size_t i = 0; i < cols.size(); i++) if (cols[i] != TB && cols[i] != TA && cols[i] != TN) can.push_back((int)i);
  if (can.empty()) return Bytes();
  int j = can[r.below(can.size())];
  Ty s = cols[j];
  Bytes a = Bytes(1, (char)(0x30 | s)) + varint((uint64_t)j);
  t = s;
  if ((s == TI || s == TL) && r.chance(s == TI ? 1 : 0.4)) return a + two(0xB4, s);
  static const Ty fromstr[] = {TI, TI, TL, TF, TD};
  if (s == TS) {
    t = fromstr[r.below(5)];
    return a + two(r.chance(0.5) ? 0xF0 : 0xFC, (uint8_t)(t << 4 | s));
  }
  t = TI;
  return a + two(0xFC, (uint8_t)(t << 4 | s));
}

std::string Gen::shape(int maxlen, double pagg) {
  std::string s;
  int n = 1 + (int)r.below(maxlen);
  for (int i = 0; i < n; i++) {
    if (r.chance(pagg)) s += r.chance(0.75) ? 'G' : 'U';
    else s += r.chance(0.5) ? 'F' : 'P';
  }
  return s;
}

Plan Gen::plan(const std::string &shape, const std::vector<Ty> &in) {
  Plan p;
  p.in = in;
  std::vector<Ty> cols = in;
  for (char k : shape) {
    if (k == 'F') {
      int d = c.maxdepth > 0 ? 1 + (int)r.below(c.maxdepth) : 1;
      Bytes e;
      Ty ft;
      if (r.chance(0.1)) e = Bytes(1, 0x13);
      else if (c.pthrow > 0.5 && r.chance(0.35) && !(e = failing(cols, ft)).empty()) {
        e += two(0xA3, ft);
        e += Bytes(1, 0x51);
        if (r.chance(0.3)) { e += expr(TB, cols, d); e += Bytes(1, 0x53); }
      } else {
        // what else the expression leaves does not matter
        if (r.chance(0.04)) e = expr(pick_type_of(cols), cols, r.chance(0.7) ? 0 : d);
        e += expr(TB, cols, d);
        if (r.chance(0.3)) {
          // keep most rows: NOT IS_FALSE
          e += two(0xA3, TB);
          e += Bytes(1, 0x51);
        }
      }
      p.code += Bytes(1, 0x71) + e + Bytes(1, 0x00);
    } else if (k == 'P') {
      int n = r.chance(0.03) ? 0 : 1 + (int)r.below(r.chance(0.1) ? 9 : 5);
      if (r.chance(0.02)) n = 130 + (int)r.below(10);
      std::vector<Ty> next;
      Bytes e;
      if (c.rep && r.chance(0.12) && cols.size() < 9 && std::find(cols.begin(), cols.end(), TA) == cols.end()) {
        // of the same types again, so that it can be repeated
        for (Ty t : cols) e += expr(t, cols, r.chance(0.5) ? 1 : 0);
        e = Bytes(1, 0x72) + e + Bytes(1, 0x00);
        for (int i = r.chance(0.3) ? 1 : 2 + (int)r.below(2); i > 0; i--) p.code += e;
        continue;
      }
      bool ident = r.chance(0.35);
      for (int i = 0; i < n; i++) {
        Ty t;
        Bytes fe;
        if (c.pthrow > 0.5 && r.chance(n < 3 ? 0.4 : 0.2) && !(fe = failing(cols, t)).empty()) {
          e += fe;
        } else if (!cols.empty() && (ident || r.chance(0.4))) {
          size_t j = ident && i < (int)cols.size() ? (size_t)i : r.below(cols.size());
          t = cols[j];
          if (t == TA) { t = TI; e += cnst(vi(1)); }
          else e += Bytes(1, (char)(0x30 | t)) + varint(j);
        } else {
          t = pick_type();
          e += expr(t, cols, c.maxdepth > 0 ? 1 + (int)r.below(n > 20 ? 1 : c.maxdepth) : 1);
        }
        next.push_back(t);
      }
      p.code += Bytes(1, 0x72) + e + Bytes(1, 0x00);
      cols = next;
    } else {
      p.naggs++;
      std::vector<Ty> next;
      std::vector<int> keyable;
      for (size_t i = 0; i < cols.size(); i++) if (cols[i] != TA && cols[i] != TN) keyable.push_back((int)i);
      if (k == 'G') {
        if (c.rep && r.chance(0.25) && cols.size() > 1 && keyable.size() == cols.size()) {
          // numbers of rows by the first columns, and of them by fewer
          size_t m = 1 + r.below(std::min<size_t>(cols.size(), 3));
          Bytes ks;
          for (size_t i = 0; i < m; i++) { ks += varint(i); next.push_back(cols[i]); }
          next.push_back(TL);
          p.code += Bytes(1, 0x73) + Bytes(1, 0x61) + varint(m) + ks + two(1, 0x10);
          cols = next;
          continue;
        }
        int nk = r.chance(0.05) ? 0 : 1 + (int)r.below(3);
        if (keyable.empty()) nk = 0;
        if (r.chance(0.04) && nk) nk = 4 + (int)r.below(9);
        if (r.chance(0.01) && nk) nk = 130;
        Bytes ks;
        for (int i = 0; i < nk; i++) {
          int j = keyable[r.below(keyable.size())];
          ks += varint((uint64_t)j);
          next.push_back(cols[j]);
        }
        p.code += Bytes(1, 0x73) + Bytes(1, 0x61) + varint((uint64_t)nk) + ks;
      } else {
        p.code += Bytes(1, 0x74);
      }
      int na = r.chance(0.04) ? 0 : 1 + (int)r.below(4);
      if (r.chance(0.04)) na = 5 + (int)r.below(16);
      if (r.chance(0.01)) na = 129;
      Bytes as;
      for (int i = 0; i < na; i++) {
        int kind = (int)r.below(5);
        if (keyable.empty()) kind = 0;
        int j = keyable.empty() ? 0 : keyable[r.below(keyable.size())];
        Ty t = keyable.empty() ? TI : cols[j];
        if (kind == 2 && (t == TB || t == TS)) kind = 1;
        if (kind == 2 && (t == TF || t == TD) && (!c.fsum || p.naggs > 1)) kind = 3;
        if (kind >= 3 && t == TB) kind = 1;
        if (kind == 0) { as += Bytes(1, 0x10); next.push_back(TL); continue; }
        static const uint8_t base[] = {0, 0x10, 0x20, 0x30, 0x40};
        as += Bytes(1, (char)(base[kind] | t)) + varint((uint64_t)j);
        next.push_back(kind == 1 ? TL : t);
      }
      p.code += varint((uint64_t)na) + as;
      cols = next;
    }
  }
  p.out = cols;
  return p;
}

Bytes Gen::damage(const Bytes &b, bool plan) {
  Bytes x = b;
  int k = (int)r.below(12);
  size_t n = x.size();
  switch (k) {
  case 0: case 1: case 2: case 3: return x.substr(0, r.below(n + 1));
  case 4: case 5: if (n) x[r.below(n)] ^= (char)(1 << r.below(8)); return x;
  case 6: if (n) x[r.below(n)] = (char)r.next(); return x;
  case 7: x.insert(r.below(n + 1), 1, (char)r.next()); return x;
  case 8: if (n) x.erase(r.below(n), 1 + r.below(3)); return x;
  case 9: {  // overlong run
    size_t at = r.below(n + 1);
    x.insert(at, std::string(1 + r.below(12), (char)(0x80 | r.below(128))));
    return x;
  }
  case 10: {  // a run of 0xFF replaces bytes
    for (size_t i = r.below(n + 1), e = std::min(n, i + 1 + r.below(10)); i < e; i++) x[i] = (char)0xFF;
    return x;
  }
  default: {  // two pieces swapped or repeated
    if (n < 2) return x;
    size_t a = r.below(n), l = 1 + r.below(n - a);
    std::string piece = x.substr(a, l);
    x.insert(r.below(x.size() + 1), piece);
    if (r.chance(0.5)) x.resize(r.below(x.size() + 1));
    return x;
  }
  }
}

}  // namespace gen
