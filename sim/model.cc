#include "model.h"

#include <errno.h>
#include <limits.h>
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include <algorithm>

namespace model {

// ------------------------------------------------------------------ values
Val vn() { return Val(); }
Val vi(int32_t v) { Val x; x.t = TI; x.i = v; return x; }
Val vl(int64_t v) { Val x; x.t = TL; x.i = v; return x; }
Val vb(bool v) { Val x; x.t = TB; x.i = v; return x; }
Val vf(float v) { Val x; x.t = TF; x.d = v; x.taint = v != v; x.nz = v == 0 && signbit(v); return x; }
Val vd(double v) { Val x; x.t = TD; x.d = v; x.taint = v != v; x.nz = v == 0 && signbit(v); return x; }
static void signless(Val &r, const Val &a) {
  if (a.nz && (r.t == TF || r.t == TD) && r.d == 0) r.nz = true;
}
// the text of a row in which the sign of zero makes no difference
static std::string ktext(Row r) {
  for (auto &v : r) if ((v.t == TF || v.t == TD) && v.d == 0) v.d = 0;
  return text(r);
}
Val vs(const std::string &s) { Val x; x.t = TS; x.s = s; return x; }

bool same(const Val &a, const Val &b) {
  if (a.t != b.t) return false;
  switch (a.t) {
  case TN: return true;
  case TI: case TL: case TB: return a.i == b.i;
  case TF: case TD: return a.d == b.d || (a.d != a.d && b.d != b.d);
  default: return a.s == b.s;
  }
}
bool same(const Row &a, const Row &b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++) if (!same(a[i], b[i])) return false;
  return true;
}
static uint64_t mixh(uint64_t h, uint64_t v) {
  h ^= v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdULL;
  h ^= h >> 32;
  return h;
}
uint64_t hash(const Val &v) {
  uint64_t h = mixh(77, v.t);
  switch (v.t) {
  case TN: break;
  case TI: case TL: case TB: h = mixh(h, (uint64_t)v.i); break;
  case TF: case TD: {
    double d = v.d == 0 ? 0.0 : v.d;
    uint64_t u = 1;
    if (d == d) memcpy(&u, &d, 8);
    h = mixh(h, u);
    break;
  }
  default:
    for (unsigned char c : v.s) h = mixh(h, c);
    h = mixh(h, v.s.size());
  }
  return h;
}
uint64_t hash(const Row &r) {
  uint64_t h = mixh(5, r.size());
  for (const auto &v : r) h = mixh(h, hash(v));
  return h;
}
std::string hex(const Bytes &b) {
  static const char *d = "0123456789abcdef";
  std::string s;
  for (unsigned char c : b) { s += d[c >> 4]; s += d[c & 15]; }
  return s;
}
bool unhex(const std::string &s, Bytes &b) {
  b.clear();
  if (s.size() % 2) return false;
  auto n = [](char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; };
  for (size_t i = 0; i < s.size(); i += 2) {
    int a = n(s[i]), c = n(s[i + 1]);
    if (a < 0 || c < 0) return false;
    b += (char)(a * 16 + c);
  }
  return true;
}
std::string text(const Val &v) {
  char b[64];
  switch (v.t) {
  case TN: return "n";
  case TI: snprintf(b, sizeof b, "i:%ld", (long)v.i); return b;
  case TL: snprintf(b, sizeof b, "l:%ld", (long)v.i); return b;
  case TB: return v.i ? "b:1" : "b:0";
  case TF: snprintf(b, sizeof b, "f:%a", v.d); return b;
  case TD: snprintf(b, sizeof b, "d:%a", v.d); return b;
  case TA: return "a:" + v.s;
  default:
    if (v.pay >= 0) { snprintf(b, sizeof b, "p:%d:", v.pay); return b + hex(v.s); }
    return "s:" + hex(v.s);
  }
}
std::string text(const Row &r) {
  if (r.empty()) return "-";
  std::string s;
  for (size_t i = 0; i < r.size(); i++) { if (i) s += ' '; s += text(r[i]); }
  return s;
}
bool parse(const std::string &s, Val &v) {
  v = Val();
  if (s == "n") return true;
  if (s.size() < 2 || s[1] != ':') return false;
  std::string r = s.substr(2);
  switch (s[0]) {
  case 'i': v = vi((int32_t)strtol(r.c_str(), nullptr, 10)); return true;
  case 'l': v = vl(strtoll(r.c_str(), nullptr, 10)); return true;
  case 'b': v = vb(r == "1"); return true;
  case 'f': v = vf((float)strtod(r.c_str(), nullptr)); return true;
  case 'd': v = vd(strtod(r.c_str(), nullptr)); return true;
  case 'a': v.t = TA; v.s = r; return true;
  case 's': v.t = TS; return unhex(r, v.s);
  case 'p': {
    size_t c = r.find(':');
    if (c == std::string::npos) return false;
    v.t = TS;
    v.pay = (int16_t)atoi(r.c_str());
    return unhex(r.substr(c + 1), v.s);
  }
  }
  return false;
}

// ------------------------------------------------------------------ decoding
struct Rd {
  const Bytes &b;
  size_t p;
  Dec st = D_OK;
  const char *why = "";
  bool bad(const char *w) { if (st == D_OK) { st = D_BAD; why = w; } return false; }
  bool len(const char *w) { if (st == D_OK) { st = D_LENIENT; why = w; } return false; }
  bool more() const { return p < b.size(); }
  uint8_t cur() const { return (uint8_t)b[p]; }
  // canonical varint of at most `bits` bits
  bool varint(int bits, uint64_t &v) {
    v = 0;
    int n = 0;
    uint8_t c;
    bool dontcare = false;
    do {
      if (p >= b.size()) return dontcare ? len("long varint cut") : bad("cut inside a varint");
      c = cur();
      p++;
      int sh = 7 * n;
      if (sh >= bits || (sh + 7 > bits && ((c & 0x7F) >> (bits - sh)) != 0)) dontcare = true;
      if (!dontcare) v |= (uint64_t)(c & 0x7F) << sh;
      n++;
    } while (c & 0x80);
    if (n > 1 && c == 0) dontcare = true;
    if (dontcare) return len("varint not in its shortest form or out of range");
    return true;
  }
};

static bool num_type(uint8_t t) { return t == TI || t == TL || t == TF || t == TD; }
static bool val_type(uint8_t t) { return num_type(t) || t == TB || t == TS; }
static bool fun_ok(uint8_t f) {
  return f == 1 || f == 2 || (f >= 7 && f <= 0x11) || (f >= 0x21 && f <= 0x26) || f == 0x28 || f == 0x2A || (f >= 0x2C && f <= 0x2F);
}

// decodes until EOE (consumed) or the end
static bool rd_expr(Rd &r, Prog &prog, bool &eoe) {
  eoe = false;
  while (r.more()) {
    Ins in;
    uint8_t o = r.cur();
    in.op = o;
    in.at = r.p;
    r.p++;
    if (o == 0) { eoe = true; return true; }
    uint8_t hi = o & 0xF0, t = o & 0x0F;
    if (hi == 0x00) {
      if (!val_type(t)) return r.bad("undefined NULL type");
    } else if (hi == 0x10) {
      uint64_t v;
      if (t == TI) { if (!r.varint(32, v)) return false; in.imm = vi((int32_t)(uint32_t)v); }
      else if (t == TL) { if (!r.varint(64, v)) return false; in.imm = vl((int64_t)v); }
      else if (t == TB) in.imm = vb(true);
      else if (t == TF || t == TD) {
        size_t n = t == TF ? 4 : 8;
        if (r.b.size() - r.p < n) return r.bad("cut inside a float or double");
        uint64_t u = 0;
        for (size_t i = 0; i < n; i++) u = u << 8 | (uint8_t)r.b[r.p + i];
        r.p += n;
        if (t == TF) { uint32_t w = (uint32_t)u; float f; memcpy(&f, &w, 4); in.imm = vf(f); }
        else { double d; memcpy(&d, &u, 8); in.imm = vd(d); }
      } else if (t == TS) {
        if (!r.varint(32, v)) return false;
        if (v > r.b.size() - r.p) return r.bad("cut inside a string");
        in.imm = vs(r.b.substr(r.p, v));
        r.p += v;
      } else if (t == TDEC) return r.len("DECIMAL constant");
      else return r.bad("undefined constant type");
    } else if (hi == 0x20) {
      uint64_t v;
      if (t == TI) {
        if (!r.varint(32, v)) return false;
        int32_t w = (int32_t)(uint32_t)v;
        in.imm = vi((int32_t)(0u - (uint32_t)w));
      } else if (t == TL) {
        if (!r.varint(64, v)) return false;
        in.imm = vl((int64_t)(0ull - v));
      } else if (t == TB) in.imm = vb(false);
      else return r.bad("undefined negative constant type");
      in.op = (uint8_t)(0x10 | t);
      if (t == TB) in.op = 0x13;
    } else if (hi == 0x30) {
      if (!val_type(t) && t != TDEC) return r.bad("undefined variable type");
      uint64_t v;
      if (!r.varint(32, v)) return false;
      if (t == TDEC) return r.len("DECIMAL variable");
      in.idx = (int32_t)(uint32_t)v;
    } else if (o == 0x51 || o == 0x52 || o == 0x53) {
    } else if ((o >= 0x81 && o <= 0x87) || (o >= 0x91 && o <= 0x96) || (o >= 0xA1 && o <= 0xA3) || (o >= 0xB1 && o <= 0xB4)) {
      if (!r.more()) return r.bad("cut before a type byte");
      uint8_t a = r.cur();
      r.p++;
      in.arg = a;
      bool ok = val_type(a);
      if (o == 0x81 || o == 0x82 || o == 0x85 || o == 0x86 || o == 0xB3 || o == 0xB4) ok = num_type(a);
      if (o == 0x83) ok = num_type(a) || a == TS;
      if (o == 0x84) {
        if (a == TS) return r.len("SUB of strings");
        ok = num_type(a);
      }
      if (o == 0x87) ok = a == TI || a == TL;
      if (!ok) return r.bad("operator not defined for the type");
    } else if (o == 0xF0 || o == 0xFC) {
      if (!r.more()) return r.bad("cut before a cast's types");
      uint8_t a = r.cur(), d = a >> 4, s = a & 15;
      r.p++;
      in.arg = a;
      if (d == s) {
        if (!val_type(d)) return r.len("cast of an undefined type to itself");
        continue;  // no operation
      }
      if (!val_type(d) || !val_type(s)) return r.bad("cast of an undefined type");
      if (d == TB && s == TS) return r.bad("undefined cast");
    } else if (o == 0xF1) {
      if (!r.more()) return r.bad("cut before a function code");
      in.arg = r.cur();
      r.p++;
      if (!fun_ok(in.arg)) return r.bad("undefined function");
    } else {
      return r.bad("undefined operator");
    }
    prog.push_back(in);
  }
  return true;
}

static bool rd_aggs(Rd &r, std::vector<AggSpec> &aggs) {
  uint64_t n;
  if (!r.varint(64, n)) return false;
  if (n > r.b.size() - r.p) {
    // more elements announced than bytes left, unless an earlier element is undefined (rejected all the same)
    return r.bad("fewer aggregates than announced");
  }
  for (uint64_t i = 0; i < n; i++) {
    if (!r.more()) return r.bad("fewer aggregates than announced");
    AggSpec a;
    a.code = r.cur();
    r.p++;
    uint8_t hi = a.code & 0xF0, t = a.code & 15;
    bool ok = false;
    if (a.code == 0x10) ok = true;
    else if (hi == 0x10) ok = val_type(t);
    else if (hi == 0x20) ok = num_type(t);
    else if (hi == 0x30 || hi == 0x40) ok = num_type(t) || t == TS;
    if (!ok) {
      // MIN/MAX of BOOL could be defined by a later version
      return r.bad("undefined aggregate");
    }
    if (a.code != 0x10) {
      uint64_t v;
      if (!r.varint(32, v)) return false;
      a.idx = (int32_t)(uint32_t)v;
    }
    aggs.push_back(a);
  }
  return true;
}

DecRes decode_expr(const Bytes &b, Prog &p) {
  Rd r{b, 0};
  bool eoe;
  p.clear();
  rd_expr(r, p, eoe);
  DecRes d;
  d.st = r.st;
  d.used = r.p;
  d.why = r.why;
  return d;
}

static void rd_plan(Rd &r, Plan &p, std::vector<size_t> *cuts) {
  while (r.more()) {
    Stage s;
    uint8_t o = r.cur();
    r.p++;
    if (o == 0x71 || o == 0x72) {
      s.kind = o == 0x71 ? SF : SP;
      bool eoe;
      if (!rd_expr(r, s.prog, eoe)) return;
      if (!eoe) { r.len("no end of expression"); return; }
    } else if (o == 0x73 || o == 0x74) {
      s.kind = o == 0x73 ? SG : SU;
      if (o == 0x73) {
        if (!r.more()) { r.bad("cut before the key array"); return; }
        if (r.cur() != 0x61) { r.bad("key array of an undefined type"); return; }
        r.p++;
        uint64_t n;
        if (!r.varint(64, n)) return;
        if (n > r.b.size() - r.p) { r.bad("fewer keys than announced"); return; }
        for (uint64_t i = 0; i < n; i++) {
          uint64_t v;
          if (!r.more()) { r.bad("fewer keys than announced"); return; }
          if (!r.varint(32, v)) return;
          s.keys.push_back((int32_t)(uint32_t)v);
        }
        if (!r.more()) { r.bad("cut before the aggregates"); return; }
      } else if (!r.more()) { r.bad("cut before the aggregates"); return; }
      if (!rd_aggs(r, s.aggs)) return;
      if (r.more() && r.cur() == 0) { r.len("end of expression after an aggregate operator"); return; }
    } else {
      r.bad("undefined algebra operator");
      return;
    }
    p.push_back(s);
    if (cuts) cuts->push_back(r.p);
  }
}
DecRes decode_plan(const Bytes &b, Plan &p) {
  Rd r{b, 0};
  p.clear();
  rd_plan(r, p, nullptr);
  DecRes d;
  d.st = r.st;
  d.used = r.p;
  d.why = r.why;
  return d;
}
std::vector<size_t> element_cuts(const Bytes &b, bool plan) {
  std::vector<size_t> c;
  if (plan) {
    Rd r{b, 0};
    Plan p;
    rd_plan(r, p, &c);
  }
  return c;
}

// ------------------------------------------------------------------ evaluation
static Val str_of(double d) {
  char b[512];
  snprintf(b, sizeof b, "%.15f", d);
  std::string s = b;
  while (!s.empty() && s.back() == '0') s.pop_back();
  if (!s.empty() && s.back() == '.') s += '0';
  return vs(s);
}
static bool truthy(const Val &v) { return (v.t == TF || v.t == TD) ? v.d != 0 : v.i != 0; }

struct Ctx {
  Row &st;
  bool threw = false, taint = false, mist = false, pre = false;
};
static Val tainted(Ty t) {
  Val v;
  v.t = t;
  v.taint = true;
  return v;
}
static Val num(Ty t, __int128 r) {  // exact integer result
  if (t == TI) return r < INT32_MIN || r > INT32_MAX ? tainted(TI) : vi((int32_t)r);
  return r < INT64_MIN || r > INT64_MAX ? tainted(TL) : vl((int64_t)r);
}

static bool arith2(uint8_t op, Ty t, const Val &a, const Val &b, Val &out) {
  if (t == TS) {
    out = vs(a.s + b.s);
    return true;
  }
  if (t == TI || t == TL) {
    __int128 x = a.i, y = b.i;
    switch (op) {
    case 0x83: out = num(t, x + y); break;
    case 0x84: out = num(t, x - y); break;
    case 0x85: out = num(t, x * y); break;
    case 0x86: out = y == 0 ? vn() : num(t, x / y); break;
    case 0x87:
      if (y == 0) out = vn();
      else if (y == -1 && x == (t == TI ? (__int128)INT32_MIN : (__int128)INT64_MIN)) out = tainted(t);
      else out = num(t, x % y);
      break;
    }
    return true;
  }
  if (t == TF) {
    volatile float x = (float)a.d, y = (float)b.d, z = 0;
    switch (op) {
    case 0x83: z = x + y; break;
    case 0x84: z = x - y; break;
    case 0x85: z = x * y; break;
    case 0x86: if (y == 0) { out = vn(); return true; } z = x / y; break;
    }
    out = vf(z);
  } else {
    volatile double x = a.d, y = b.d, z = 0;
    switch (op) {
    case 0x83: z = x + y; break;
    case 0x84: z = x - y; break;
    case 0x85: z = x * y; break;
    case 0x86: if (y == 0) { out = vn(); return true; } z = x / y; break;
    }
    out = vd(z);
  }
  return true;
}
static int cmp(Ty t, const Val &a, const Val &b) {
  if (t == TS) { int c = a.s.compare(b.s); return c < 0 ? -1 : c > 0; }
  if (t == TF || t == TD) return a.d < b.d ? -1 : a.d > b.d;
  return a.i < b.i ? -1 : a.i > b.i;
}

// returns false when the conversion is an error
static bool cast(Ty d, Ty s, bool check, const Val &v, Val &out) {
  if (d == TS) {
    if (s == TB) out = vs(v.i ? "true" : "false");
    else if (s == TI || s == TL) out = vs(std::to_string((long)v.i));
    else out = str_of(v.d);
    return true;
  }
  if (d == TB) { out = vb(truthy(v)); return true; }
  if (s == TS) {
    const char *c = v.s.c_str();
    char *e;
    if (d == TI || d == TL) {
      errno = 0;
      long long r = strtoll(c, &e, 10);
      if (e == c) { out = d == TI ? vi(0) : vl(0); return true; }
      if (errno == ERANGE || (d == TI && (r < INT32_MIN || r > INT32_MAX))) return false;
      out = d == TI ? vi((int32_t)r) : vl(r);
      return true;
    }
    // only plain decimal prefixes are specified
    const char *q = c;
    while (isspace((unsigned char)*q)) q++;
    if (*q == '+' || *q == '-') q++;
    if ((*q == '0' && (q[1] == 'x' || q[1] == 'X')) || *q == 'i' || *q == 'I' || *q == 'n' || *q == 'N') { out = tainted(d); return true; }
    errno = 0;
    if (d == TF) {
      float f = strtof(c, &e);
      if (e == c) { out = vf(0); return true; }
      if (errno == ERANGE) { if (isinf(f)) return false; out = tainted(d); return true; }
      out = vf(f);
    } else {
      double f = strtod(c, &e);
      if (e == c) { out = vd(0); return true; }
      if (errno == ERANGE) { if (isinf(f)) return false; out = tainted(d); return true; }
      out = vd(f);
    }
    return true;
  }
  if (d == TI || d == TL) {
    if (s == TF || s == TD) {
      if (v.d != v.d) { out = tainted(d); return true; }
      double r = round(v.d);
      bool fits = d == TI ? (r >= -2147483648.0 && r <= 2147483647.0) : (r >= -9223372036854775808.0 && r < 9223372036854775808.0);
      if (!fits) { if (check) return false; out = tainted(d); return true; }
      out = d == TI ? vi((int32_t)r) : vl((int64_t)r);
      return true;
    }
    if (d == TI && (v.i < INT32_MIN || v.i > INT32_MAX)) { if (check) return false; out = tainted(d); return true; }
    out = d == TI ? vi((int32_t)v.i) : vl(v.i);
    return true;
  }
  if (d == TF) {
    if (s == TD) out = isinf((float)v.d) && !isinf(v.d) ? tainted(TF) : vf((float)v.d);
    else out = vf((float)v.i);
    return true;
  }
  out = s == TF ? vd(v.d) : vd((double)v.i);
  return true;
}

// function signatures: argument types and result type
static int fun_sig(uint8_t f, Ty a[3], Ty &r) {
  if (f <= 0x11) { a[0] = TD; r = TD; return 1; }
  r = TS;
  a[0] = TS;
  switch (f) {
  case 0x21: a[1] = TS; return 2;
  case 0x22: case 0x23: case 0x26: case 0x28: case 0x2A: return 1;
  case 0x24: case 0x25: case 0x2D: case 0x2F: a[1] = TI; return 2;
  default: a[1] = TI; a[2] = TI; return 3;
  }
}
static bool spc(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
static Val fun(uint8_t f, const Val *a) {
  if (f <= 0x11) {
    double x = a[0].d;
    switch (f) {
    case 1: return vd(::ceil(x));
    case 2: return vd(::floor(x));
    case 7: return vd(::sin(x));
    case 8: return vd(::cos(x));
    case 9: return vd(::tan(x));
    case 0xA: return vd(::asin(x));
    case 0xB: return vd(::acos(x));
    case 0xC: return vd(::atan(x));
    case 0xD: return vd(::sinh(x));
    case 0xE: return vd(::cosh(x));
    case 0xF: return vd(::tanh(x));
    case 0x10: return vd(::exp(x));
    default: return vd(::log(x));
    }
  }
  const std::string &s = a[0].s;
  int64_t n = (int64_t)s.size();
  switch (f) {
  case 0x21: return vs(s + a[1].s);
  case 0x22: case 0x23: {
    std::string r = s;
    for (auto &c : r) {
      if (f == 0x22 && c >= 'A' && c <= 'Z') c += 32;
      else if (f == 0x23 && c >= 'a' && c <= 'z') c -= 32;
    }
    return vs(r);
  }
  case 0x24: return a[1].i <= 0 ? vs("") : vs(s.substr(0, (size_t)a[1].i));
  case 0x25: return a[1].i <= 0 ? vs("") : vs(a[1].i >= n ? s : s.substr(n - a[1].i));
  case 0x26: case 0x28: case 0x2A: {
    size_t b = 0, e = s.size();
    if (f != 0x2A) while (b < e && spc(s[b])) b++;
    if (f != 0x28) while (e > b && spc(s[e - 1])) e--;
    if (f == 0x26 && b == s.size()) return vs("");
    return vs(s.substr(b, e - b));
  }
  case 0x2C: {
    int64_t b = a[1].i < 0 ? 0 : a[1].i, e = a[2].i;
    if (b > n || e < b) return tainted(TS);
    return vs(s.substr(b, e - b));
  }
  case 0x2D: {
    int64_t b = a[1].i < 0 ? 0 : a[1].i;
    if (b > n) return tainted(TS);
    return vs(s.substr(b));
  }
  default: {
    int64_t b = a[1].i;
    if (f == 0x2E && a[2].i <= 0) return vs("");
    if (b > 0 && b <= n) b -= 1;
    else if (b < 0 && -b <= n) b += n;
    else return vs("");
    return vs(f == 0x2E ? s.substr(b, (size_t)a[2].i) : s.substr(b));
  }
  }
}

static int arity(const Ins &in, int &push) {
  uint8_t o = in.op;
  push = 1;
  if (o < 0x40) return 0;
  if (o == 0x51) return 1;
  if (o == 0x52 || o == 0x53) return 2;
  if (o == 0x81 || o == 0x82 || (o >= 0xA1 && o <= 0xA3) || o == 0xB3 || o == 0xB4 || o == 0xF0 || o == 0xFC) return 1;
  if (o == 0xF1) { Ty a[3], r; return fun_sig(in.arg, a, r); }
  return 2;
}

int static_depth(const Prog &p, int width, bool bound) {
  int d = 0;
  for (const auto &in : p) {
    int push, n = arity(in, push);
    if ((in.op & 0xF0) == 0x30 && bound && (in.idx < 0 || in.idx >= width)) return -1;
    if (d < n) return -1;
    d += push - n;
  }
  return d;
}

std::vector<Bytes> pieces(const Prog &p, const Bytes &code, size_t used) {
  std::vector<size_t> at;
  for (const auto &in : p) {
    int push, n = arity(in, push);
    if ((int)at.size() < n) return {};
    size_t b = n ? at[at.size() - n] : in.at;
    at.resize(at.size() - n);
    at.push_back(b);
  }
  std::vector<Bytes> v;
  for (size_t i = 0; i < at.size(); i++) v.push_back(code.substr(at[i], (i + 1 < at.size() ? at[i + 1] : used) - at[i]));
  return v;
}

Ev eval(const Prog &p, const Row *bound, Row &st) {
  st.clear();
  bool mist = false, taint = false;
  auto fail = [&](void) { return taint && false ? E_TAINT : E_THROW; };
  for (const auto &in : p) {
    uint8_t o = in.op;
    if (o < 0x10) { st.push_back(vn()); continue; }
    if (o < 0x30) { st.push_back(in.imm); if (in.imm.taint) taint = true; continue; }
    if (o < 0x40) {
      if (!bound) return E_THROW;
      Val v = (*bound)[in.idx];
      v.pay = -1;
      Ty want = (Ty)(o & 15);
      if (v.t != TN && v.t != want && v.t != TA) { mist = true; v.mistyped = true; }
      if (v.t == TA) mist = true;
      if (v.taint) taint = true;
      st.push_back(v);
      continue;
    }
    int push, n = arity(in, push);
    if ((int)st.size() < n) return E_PRE;
    Val a[3];
    for (int i = n - 1; i >= 0; i--) { a[i] = st.back(); st.pop_back(); }
    bool anynull = false, anytaint = false;
    for (int i = 0; i < n; i++) { anynull |= a[i].t == TN; anytaint |= a[i].taint; }
    Val r;
    Ty t = (Ty)in.arg;
    if (o == 0x51) {
      if (!anynull) {
        if (a[0].t != TB) return fail();
        r = anytaint ? tainted(TB) : vb(!a[0].i);
      }
    } else if (o == 0x52 || o == 0x53) {
      bool dom = o == 0x53;  // the deciding value
      if (a[0].t != TN) {
        if (a[0].t != TB) return fail();
        if (a[0].taint || a[1].taint) { taint = true; r = tainted(TB); if (anynull) return E_TAINT; }
        else if ((a[0].i != 0) == dom) { r = vb(dom); if (a[1].t != TN && a[1].t != TB) mist = true; }
        else if (a[1].t != TN) { if (a[1].t != TB) return fail(); r = vb(a[1].i); }
      } else if (a[1].t != TN) {
        if (a[1].t != TB) return fail();
        if (a[1].taint) return E_TAINT;
        if ((a[1].i != 0) == dom) r = vb(dom);
      }
    } else if (o == 0xA1) {
      r = vb(a[0].t == TN);
    } else if (o == 0xA2 || o == 0xA3) {
      if (anynull) r = vb(false);
      else if (t == TS) {
        if (a[0].t != TS) mist = true;
        r = vb(o == 0xA3);
      } else {
        if (a[0].t != t) return fail();
        r = anytaint ? tainted(TB) : vb(truthy(a[0]) == (o == 0xA2));
      }
    } else if (anynull) {
      // NULL
    } else {
      Ty at[3] = {t, t, t}, rt = t;
      if (o == 0xF0 || o == 0xFC) { at[0] = (Ty)(in.arg & 15); rt = (Ty)(in.arg >> 4); }
      else if (o == 0xF1) fun_sig(in.arg, at, rt);
      else if (o >= 0x91 && o <= 0x96) rt = TB;
      for (int i = 0; i < n; i++) if (a[i].t != at[i]) return fail();
      if (anytaint) {
        // NULL-ness of the result or an error may depend on the unspecified value
        if (o == 0x86 || o == 0x87 || o == 0xF0 || o == 0xFC || o == 0xB4 || o == 0xF1) return E_TAINT;
        r = tainted(rt);
      } else if (o == 0xF1) r = fun(in.arg, a);
      else if (o == 0xF0 || o == 0xFC) { if (!cast(rt, at[0], o == 0xFC, a[0], r)) return fail(); }
      else if (o == 0x81) r = a[0];
      else if (o == 0x82) {
        if (t == TI || t == TL) r = num(t, -(__int128)a[0].i);
        else if (t == TF) r = vf((float)-a[0].d);
        else r = vd(-a[0].d);
      } else if (o <= 0x87) arith2(o, t, a[0], a[1], r);
      else if (o >= 0x91 && o <= 0x96) {
        int c = cmp(t, a[0], a[1]);
        bool b = o == 0x91 ? c == 0 : o == 0x92 ? c >= 0 : o == 0x93 ? c > 0 : o == 0x94 ? c <= 0 : o == 0x95 ? c < 0 : c != 0;
        r = vb(b);
      } else if (o == 0xB1) r = cmp(t, a[1], a[0]) < 0 ? a[1] : a[0];
      else if (o == 0xB2) r = cmp(t, a[0], a[1]) < 0 ? a[1] : a[0];
      else if (o == 0xB3 || o == 0xB4) {
        if (t == TF) r = vf(fabsf((float)a[0].d));
        else if (t == TD) r = vd(fabs(a[0].d));
        else {
          bool min = a[0].i == (t == TI ? (int64_t)INT32_MIN : INT64_MIN);
          if (min && o == 0xB4) return fail();
          r = min ? tainted(t) : num(t, a[0].i < 0 ? -(__int128)a[0].i : (__int128)a[0].i);
        }
      }
      r.mistyped = false;
      for (int i = 0; i < n; i++) signless(r, a[i]);
      if (rt == TS && (o == 0xF0 || o == 0xFC) && a[0].nz) return E_TAINT;
    }
    if (r.taint) taint = true;
    st.push_back(r);
  }
  if (mist) return E_PRE;  // a mistyped value that no operator objected to: not specified
  return taint ? E_TAINT : E_OK;
}

// width of the rows leaving a stage; -1 when ill-formed
static int out_width(const Stage &s, int w) {
  switch (s.kind) {
  case SF: return static_depth(s.prog, w, true) < 1 ? -1 : w;
  case SP: return static_depth(s.prog, w, true);
  default:
    for (int k : s.keys) if (k < 0 || k >= w) return -1;
    for (const auto &a : s.aggs) if (a.code != 0x10 && (a.idx < 0 || a.idx >= w)) return -1;
    return (int)(s.keys.size() + s.aggs.size());
  }
}
bool static_ok(const Plan &p, int w) {
  if (p.empty()) return false;
  for (const auto &s : p) {
    w = out_width(s, w);
    if (w < 0) return false;
  }
  return true;
}

// ------------------------------------------------------------------ pipeline
void Pipe::reset(const Plan &p) {
  *this = Pipe();
  m_plan = p;
  m_st.assign(p.size(), Groups());
  for (size_t i = 0; i < p.size(); i++) if (p[i].kind == SG || p[i].kind == SU) m_last = (int)i;
  bool seen = false;
  for (const auto &s : p) {
    if (s.kind != SG && s.kind != SU) continue;
    if (seen) for (const auto &a : s.aggs) if (a.code == 0x24 || a.code == 0x25) m_floatsum_late = true;
    seen = true;
  }
  if (m_floatsum_late) m_blind = true;
}

Out Pipe::absorb(const Stage &s, const Row &in, Groups &g, bool doit, const std::map<std::string, int> *amb, bool *hit) {
  Row key;
  for (int k : s.keys) {
    key.push_back(in[k]);
    key.back().pay = -1;
  }
  bool taint = false;
  for (auto &v : key) {
    if (v.taint) taint = true;
    if (v.t == TA) return O_PRE;
  }
  std::string ks = ktext(key);
  auto it = g.find(ks);
  Row acc = it == g.end() ? Row(s.aggs.size()) : it->second.acc;
  if (it != g.end()) for (size_t i = 0; i < key.size(); i++) signless(key[i], it->second.key[i]);
  bool pre = false;
  for (size_t i = 0; i < s.aggs.size(); i++) {
    uint8_t c = s.aggs[i].code, hi = c & 0xF0;
    Ty t = (Ty)(c & 15);
    if (c == 0x10) { acc[i] = vl(acc[i].t == TN ? 1 : acc[i].i + 1); continue; }
    Val v = in[s.aggs[i].idx];
    v.pay = -1;
    if (v.t == TN) continue;
    if (v.taint) taint = true;
    if (hi == 0x10) {
      if (v.t != t) pre = true;
      acc[i] = vl(acc[i].t == TN ? 1 : acc[i].i + 1);
      continue;
    }
    if (v.t != t) return O_THROW;
    if (acc[i].t == TN) { acc[i] = v; continue; }
    if (acc[i].taint || v.taint) { taint = true; continue; }
    if (hi == 0x20) {
      Val r;
      arith2(0x83, t, acc[i], v, r);
      signless(r, acc[i]);
      signless(r, v);
      acc[i] = r;
    } else {
      int k = cmp(t, v, acc[i]);
      if ((hi == 0x30 && k > 0) || (hi == 0x40 && k < 0)) acc[i] = v;
      else if (k == 0) signless(acc[i], v);
    }
    if (acc[i].taint) taint = true;
  }
  if (pre) return O_PRE;
  if (taint) return O_TAINT;
  if (amb && hit && amb->count(ks)) *hit = true;
  if (doit) {
    Group &x = g[ks];
    x.key = key;
    x.acc = acc;
  }
  return O_NONE;
}

Out Pipe::chain(size_t from, const Row &in, Row &out, std::vector<Groups> *st, bool *hit) const {
  Row cur = in;
  for (size_t i = from; i < m_plan.size(); i++) {
    const Stage &s = m_plan[i];
    if (s.kind == SF) {
      Row stk;
      Ev e = eval(s.prog, &cur, stk);
      if (e == E_THROW) return O_THROW;
      if (e == E_PRE) return O_PRE;
      if (e == E_TAINT) return O_TAINT;
      if (stk.empty()) return O_PRE;
      const Val &v = stk.back();
      if (v.t == TN) return O_NONE;
      if (v.t != TB) return O_THROW;
      if (!v.i) return O_NONE;
    } else if (s.kind == SP) {
      Row stk;
      Ev e = eval(s.prog, &cur, stk);
      if (e == E_THROW) return O_THROW;
      if (e == E_PRE) return O_PRE;
      if (e == E_TAINT) return O_TAINT;
      cur = stk;
    } else {
      if (st) return absorb(s, cur, (*st)[i], true, (int)i == m_last ? &m_amb : nullptr, hit);
      Groups &g = const_cast<Groups &>(m_st[i]);
      return absorb(s, cur, g, false, nullptr, nullptr);
    }
  }
  out = cur;
  for (auto &v : out) v.pay = -1;
  return O_ROW;
}

Out Pipe::peek(const Row &in, Row &out) const {
  for (const auto &v : in) if (v.taint) {
    // an input outside the specified range: only usable where nothing is expected
    return O_TAINT;
  }
  return chain(0, in, out, nullptr, nullptr);
}

void Pipe::settle() {
  if (!m_draining) return;
  // when failing rows upstream may not have been the last ones there, nobody knows how far the others have flowed
  if (m_lossy || m_throws || (m_flowthrows && m_obs.empty() && m_obs_throws <= m_flowthrows)) {
    m_blind = true;
    ambiguous++;
  } else {
    Groups &g = m_st[m_last];
    for (auto &c : m_cls) {
      Cls &k = c.second;
      size_t n = k.keys.size();
      if (c.first == "N") {
        for (auto &x : k.keys) m_amb[x] = 1;
        continue;
      }
      if (k.left == n) continue;
      size_t gone = n - k.left;
      for (size_t i = 0; i < gone; i++) g.erase(k.keys[i]);
      if (k.left) for (auto &x : k.keys) m_amb[x] = 1;
    }
  }
  m_draining = false;
  m_cls.clear();
}

void Pipe::apply(const Row &in) {
  if (m_draining) settle();
  if (m_blind) return;
  Row out;
  bool hit = false;
  size_t before = m_last >= 0 ? m_st[m_last].size() : 0;
  Out o = chain(0, in, out, &m_st, &hit);
  if (o == O_TAINT || o == O_PRE) m_blind = true;
  if (hit) {
    m_blind = true;
    ambiguous++;
  }
  if (m_last >= 0 && m_st[m_last].size() > before) groups_seen++;
}

// moves everything the earlier aggregates hold into the last one. skip: index of a row lost on the way (-1: none)
bool Pipe::flow(std::vector<Groups> &st, size_t &throws, int skip, bool *amb, int *count) const {
  int n = 0;
  for (int i = 0; i < m_last; i++) {
    if (m_plan[i].kind != SG && m_plan[i].kind != SU) continue;
    Groups g;
    g.swap(st[i]);
    for (auto &e : g) {
      if (n++ == skip) continue;
      Row row = e.second.key, out;
      row.insert(row.end(), e.second.acc.begin(), e.second.acc.end());
      bool hit = false;
      Out o = chain(i + 1, row, out, &st, &hit);
      if (hit && amb) *amb = true;
      if (o == O_THROW) throws++;
      if (o == O_TAINT || o == O_PRE) return false;
    }
  }
  if (count) *count = n;
  return true;
}
bool Pipe::classify(const std::vector<Groups> &st, std::map<std::string, Cls> &cls) const {
  for (auto &e : st[m_last]) {
    Row row = e.second.key, out;
    row.insert(row.end(), e.second.acc.begin(), e.second.acc.end());
    Out o = chain(m_last + 1, row, out, nullptr, nullptr);
    if (o == O_TAINT || o == O_PRE) return false;
    std::string k = o == O_THROW ? "T" : o == O_NONE ? "N" : "R" + ktext(out);
    Cls &c = cls[k];
    c.keys.push_back(e.first);
    c.left++;
    c.out = out;
  }
  return true;
}

void Pipe::start_drain() {
  m_draining = true;
  m_cls.clear();
  m_throws = 0;
  m_flowthrows = 0;
  m_lossy = false;
  m_nlost = 0;
  m_obs.clear();
  m_obs_throws = 0;
  if (m_last < 0) return;
  m_start = m_st;
  bool amb = false;
  if (!flow(m_st, m_throws, -1, &amb, nullptr) || amb) {
    m_blind = true;
    ambiguous++;
    return;
  }
  m_flowthrows = m_throws;
  if (!classify(m_st, m_cls)) m_blind = true;
}

void Pipe::finish() {
  for (auto &g : m_st) g.clear();
  m_draining = false;
  m_lossy = false;
  m_cls.clear();
  m_amb.clear();
  m_blind = m_floatsum_late;
}

size_t Pipe::lossless_ops() const {
  int naggs = 0;
  for (const auto &s : m_plan) if (s.kind == SG || s.kind == SU) naggs++;
  return naggs == 0 || (naggs == 1 && m_last == (int)m_plan.size() - 1);
}

const char *Pipe::got_row(const Row &r) {
  if (m_last < 0) return "Get delivered a row from a plan without aggregates";
  if (!m_draining) start_drain();
  if (m_blind) return nullptr;
  std::string k = "R" + ktext(r);
  if (m_lossy) {
    m_obs.push_back(k);
    return nullptr;
  }
  if (m_throws) return "a row was delivered before everything held upstream had flowed down";
  auto it = m_cls.find(k);
  if (it == m_cls.end()) return "Get delivered a row the plan does not yield";
  if (it->second.left == 0) return "Get delivered a row once too often";
  it->second.left--;
  m_obs.push_back(k);
  return nullptr;
}
const char *Pipe::got_throw() {
  if (m_last < 0) return "Get threw for a plan without aggregates";
  if (!m_draining) start_drain();
  if (m_blind) return nullptr;
  m_obs_throws++;
  if (m_lossy) return nullptr;
  if (m_throws) {
    m_throws--;
    return nullptr;
  }
  auto it = m_cls.find("T");
  if (it == m_cls.end() || it->second.left == 0) return "Get threw although every row evaluates";
  it->second.left--;
  return nullptr;
}
const char *Pipe::judge_lossy(bool) {
  if (m_nlost > 1) return nullptr;
  std::vector<std::string> obs = m_obs;
  std::sort(obs.begin(), obs.end());
  int total = 0;
  {
    std::vector<Groups> st = m_start;
    size_t th = 0;
    if (!flow(st, th, -1, nullptr, &total)) return nullptr;
  }
  if (total > 400) return nullptr;
  // nothing lost, one row lost upstream, or one row lost after the last aggregate
  for (int skip = -1; skip < total; skip++) {
    std::vector<Groups> st = m_start;
    size_t th = 0;
    std::map<std::string, Cls> cls;
    if (!flow(st, th, skip, nullptr, nullptr) || !classify(st, cls)) return nullptr;
    std::vector<std::string> exp;
    for (auto &c : cls) {
      if (c.first == "T") th += c.second.keys.size();
      else if (c.first != "N") for (size_t i = 0; i < c.second.keys.size(); i++) exp.push_back(c.first);
    }
    std::sort(exp.begin(), exp.end());
    if (m_obs_throws > th) continue;
    if (exp == obs && th - m_obs_throws <= 1) return nullptr;
    if (skip == -1 && exp.size() == obs.size() + 1 && m_obs_throws == th && std::includes(exp.begin(), exp.end(), obs.begin(), obs.end())) return nullptr;
  }
  return "after one Get failed for lack of memory the rest does not add up to the rows absorbed, less at most one in flight";
}
const char *Pipe::got_end() {
  if (m_last < 0) return nullptr;
  if (!m_draining) start_drain();
  const char *e = nullptr;
  if (!m_blind) {
    if (m_lossy) e = judge_lossy(true);
    else if (m_throws) e = "failing rows held upstream did not make any Get throw";
    else for (auto &c : m_cls) if (c.first != "N" && c.second.left && !(e && c.first == "T")) e = c.first == "T" ? "a failing group did not throw" : "Get reported the end although rows are still due";
  }
  finish();
  return e;
}
void Pipe::got_fault() {
  if (m_last < 0) return;
  if (!m_draining) start_drain();
  if (lossless_ops()) return;
  m_lossy = true;
  m_nlost++;
}
size_t Pipe::pending_bound() const {
  size_t n = 0;
  for (const auto &g : m_st) n += g.size();
  return n;
}

}  // namespace model
