// Executes a scenario against the real library and checks it.
#include <errno.h>
#include <fenv.h>
#include <locale.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>

#include <any>
#include <deque>
#include <locale>
#include <memory>
#include <optional>

#include "conv.h"
#include "libcalls.h"
#include "scn.h"

using dingodb::expr::Operand;
using dingodb::expr::String;
using dingodb::expr::Tuple;
using model::Row;
using model::Val;

namespace {

struct Prof {
  int check = 0;         // 0 nothing expected of results, 1 violation, 2 suspect
  bool throw_ok = false; // carry out operations whose evaluation is an error
  bool taint_ok = false; // and ones whose result is not specified
  bool leak = false;
  bool snap = false;     // verify lent and delivered values all the time
  bool race = false;
  bool decode = false;   // verdict of Decode is the property
  bool throws = false;   // whether a call throws is the property
  bool work = false;     // the steps a call takes are the property
  bool steady = false;   // the memory held after each cycle is the property
  bool order = false;    // the order of the values of an expression is the property
  int bound = 0;         // bounded drains: 0 not judged, 1 violation, 2 suspect
};

Prof prof_of(const Scn &s) {
  Prof p;
  const std::string &n = s.profile;
  if (n == "C01" || n == "C02" || n == "C03") p.check = 1;
  else if (n == "C04") { p.leak = true; p.throw_ok = p.taint_ok = true; }
  else if (n == "C05") { p.check = 2; p.leak = true; }
  else if (n == "C06") { p.check = 2; p.leak = true; p.decode = true; p.throw_ok = true; }
  else if (n == "C12") { p.throw_ok = p.taint_ok = p.order = true; }
  else if (n == "C07") { p.throw_ok = p.taint_ok = true; }
  else if (n == "C13") { p.throw_ok = p.taint_ok = p.steady = true; }
  else if (n == "C15") { p.throw_ok = p.taint_ok = p.work = true; }
  else if (n == "C14") { p.throw_ok = p.taint_ok = true; }
  else if (n == "C16") { p.throw_ok = p.taint_ok = true; }
  else if (n == "C08") { p.throw_ok = p.taint_ok = true; p.race = true; }
  else if (n == "C10") { p.throw_ok = p.taint_ok = true; p.snap = true; }
  else if (n == "C11") { p.check = 2; p.throw_ok = p.throws = true; }
  p.bound = p.check;
  if (s.blindmode) { p.taint_ok = true; p.throw_ok = true; p.check = 0; }
  return p;
}

const Scn *S;
Prof P;
int pass_no = 1;
uint64_t work_most = 0;  // the work of the operation in progress is too much beyond this

int cycle_no = 0;
std::vector<std::shared_ptr<std::string>> *pays;
std::vector<unsigned char *> *shcodes;
std::vector<Tuple *> *shtups;

void mismatch(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void mismatch(const char *cls, const char *fmt, ...) {
  if (P.check == 0) return;
  char b[3000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (P.check == 1 || (P.throws && (!strcmp(cls, "no-throw") || !strcmp(cls, "unexpected-throw")))) rt::violation(cls, "%s", b);
  rt::suspect(cls, "%s", b);
}

void progress(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void progress(const char *cls, const char *fmt, ...) {
  if (P.bound == 0) return;
  char b[1000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (P.bound == 1) rt::violation(cls, "%s", b);
  rt::suspect(cls, "%s", b);
}

std::string shorten(const std::string &s) {
  return s.size() > 700 ? s.substr(0, 700) + "..." : s;
}

// ---- conversion
Operand to_operand(const Val &v) {
  switch (v.t) {
  case model::TI: return Operand((int32_t)v.i);
  case model::TL: return Operand((int64_t)v.i);
  case model::TB: return Operand((bool)v.i);
  case model::TF: return Operand((float)v.d);
  case model::TD: return Operand((double)v.d);
  case model::TS:
    if (v.pay >= 0 && pays && v.pay < (int)pays->size()) return Operand((*pays)[v.pay]);
    return Operand(String(std::make_shared<std::string>(v.s)));
  case model::TA: {
    auto a = std::make_shared<std::vector<int32_t>>();
    for (char c : v.s) a->push_back((unsigned char)c);
    return Operand(a);
  }
  default: return Operand(nullptr);
  }
}
std::any to_any(const Val &v) {
  switch (v.t) {
  case model::TI: return std::make_any<std::optional<int32_t>>((int32_t)v.i);
  case model::TL: return std::make_any<std::optional<int64_t>>((int64_t)v.i);
  case model::TB: return std::make_any<std::optional<bool>>((bool)v.i);
  case model::TF: return std::make_any<std::optional<float>>((float)v.d);
  case model::TD: return std::make_any<std::optional<double>>((double)v.d);
  case model::TS:
    if (v.pay >= 0 && pays && v.pay < (int)pays->size()) return std::make_any<std::optional<String::ValueType>>((*pays)[v.pay]);
    return std::make_any<std::optional<String::ValueType>>(std::make_shared<std::string>(v.s));
  default: return std::make_any<std::optional<int32_t>>();
  }
}
template <typename T>
bool any_is(const std::any &a, T v) {
  const auto *o = std::any_cast<std::optional<T>>(&a);
  return o && o->has_value() && (v != v ? **o != **o : memcmp(&**o, &v, sizeof v) == 0);
}
bool any_same(const std::any &a, const Val &v) {
  switch (v.t) {
  case model::TI: return any_is<int32_t>(a, (int32_t)v.i);
  case model::TL: return any_is<int64_t>(a, (int64_t)v.i);
  case model::TB: return any_is<bool>(a, (bool)v.i);
  case model::TF: return any_is<float>(a, (float)v.d);
  case model::TD: return any_is<double>(a, (double)v.d);
  case model::TS: {
    const auto *o = std::any_cast<std::optional<String::ValueType>>(&a);
    return o && o->has_value() && **o && ***o == v.s;
  }
  default: {
    const auto *o = std::any_cast<std::optional<int32_t>>(&a);
    return o && !o->has_value();
  }
  }
}
template <typename T>
bool try_get(const Operand &o, T &v) {
  try {
    v = o.GetValue<T>();
    return true;
  } catch (const std::exception &) {
    return false;
  }
}
Val from_operand(const Operand &o, int hint) {
  Val v;
  if (o == nullptr) return v;
  static const int order[] = {1, 2, 3, 4, 5, 7, 8};
  for (int i = -1; i < 7; i++) {
    int t = i < 0 ? hint : order[i];
    if (i >= 0 && t == hint) continue;
    switch (t) {
    case 1: { int32_t x; if (try_get(o, x)) return model::vi(x); break; }
    case 2: { int64_t x; if (try_get(o, x)) return model::vl(x); break; }
    case 3: {
      bool x;
      if (try_get(o, x)) {
        unsigned char raw;
        memcpy(&raw, &x, 1);
        v.t = model::TB;
        v.i = raw;
        return v;
      }
      break;
    }
    case 4: { float x; if (try_get(o, x)) { Val r = model::vf(x); r.taint = false; return r; } break; }
    case 5: { double x; if (try_get(o, x)) { Val r = model::vd(x); r.taint = false; return r; } break; }
    case 7: {
      String x((std::shared_ptr<std::string>()));
      if (try_get(o, x)) {
        if (!x.GetPtr()) { v = model::vs("<null string pointer>"); return v; }
        return model::vs(*x);
      }
      break;
    }
    case 8: {
      std::shared_ptr<std::vector<int32_t>> x;
      if (try_get(o, x)) {
        v.t = model::TA;
        if (x) for (int32_t c : *x) v.s += (char)c;
        return v;
      }
      break;
    }
    default: break;
    }
  }
  v.t = model::TDEC;
  return v;
}
Row from_tuple(const Tuple &t, const Row *hint) {
  Row r;
  for (size_t i = 0; i < t.size(); i++) r.push_back(from_operand(t[i], hint && i < hint->size() ? (*hint)[i].t : 0));
  return r;
}
Tuple *to_tuple(const Row &r) {
  rt::Track tr;
  Tuple *t = new Tuple();
  t->reserve(r.size());
  for (const auto &v : r) {
    if (!S || !S->adapt || v.t > model::TS || v.t == model::TDEC) {
      t->push_back(to_operand(v));
      continue;
    }
    Operand o;
    if (lc::ad_to(to_any(v), v.t ? v.t : model::TI, &o)) rt::violation("unexpected-throw", "converting a value of the caller threw");
    t->push_back(o);
  }
  return t;
}

// ---- state
struct Kept {
  const Tuple *t = nullptr;
  Operand *o = nullptr;
  std::vector<std::any> anys;  // the same in another form
  Row snap;
};
// a later part of a plan which was cut, with all the calls it had
struct Part {
  void *obj = nullptr;
  model::Bytes code;
  struct Call {
    bool get;
    Row row;
  };
  std::vector<Call> log;
  bool opaque = false;  // of them, one which cannot be made again
};
struct Slot {
  int kind = -1;  // -1 empty, 0 plan, 1 expression
  void *obj = nullptr;
  bool decoded = false;
  int width_seen = -1;
  // plan
  model::Plan plan;
  model::Pipe pipe;
  size_t absorbed = 0;  // rows taken since the last end
  size_t delivered = 0;
  bool orderdep = false;  // results depend on the unspecified delivery order
  bool partial = false;
  uint64_t acc = 0;
  uint64_t acc_throw = 0;
  std::vector<Part> rest;  // a plan cut into parts: those after the first, which is obj
  // expression
  model::Prog prog;
  model::Bytes code;
  size_t used = 0;
  Tuple *own = nullptr;
  const Tuple *bound = nullptr;
  Row brow;
  bool has_bound = false;
  bool uses_var = false;
  bool ran = false;
  bool checked = false;
  bool fresh = false;    // the tuple of the last run is still bound and unchanged
  bool nulltup = false;  // the caller bound no tuple at all
  Row expect;
};
struct Ctx {
  std::vector<Slot> slots{16};
  std::deque<Kept> kept;
};
Ctx *ctxs[rt::MAXT];

uint64_t rowhash(const Row &r) {
  return model::hash(r);
}

// an injected fault is part of what happened
void mixf(const Fault &f) {
  if (f.fired) rt::mix(0xFA0171ULL * (uint64_t)(f.mode * 100000 + f.k));
}
void digest(int opi, uint64_t d) {
  if (pass_no == 1 && opi < rt::MAXOPS) rt::SH->digest[opi] = d;
  rt::mix(d + 0x1234567 * (uint64_t)(opi + 1));
}
void note(int opi, int what) {
  if (pass_no == 1 && opi < rt::MAXOPS) rt::SH->threw[opi] = (uint8_t)what;  // 1 threw, 2 skipped
}
void skip(int opi) {
  rt::ctr(rt::C_SKIP);
  note(opi, 2);
  digest(opi, 0);
}

void verify_kept(const Kept &k, const char *when) {
  Row now = k.t ? from_tuple(*k.t, &k.snap) : k.o ? Row{from_operand(*k.o, k.snap[0].t)} : k.snap;
  rt::ctr(rt::C_VERIFY);
  if (!model::same(now, k.snap)) {
    rt::violation("delivered-changed", "a delivered value changed (%s): it was %s, now it is %s", when, shorten(model::text(k.snap)).c_str(),
                  shorten(model::text(now)).c_str());
  }
  for (size_t i = 0; i < k.anys.size(); i++) {
    if (k.anys[i].has_value() && !any_same(k.anys[i], k.snap[i])) rt::violation("delivered-changed", "a delivered value changed in its other form (%s)", when);
  }
}
void drop_kept(Kept &k) {
  if (k.t) delete k.t;
  delete k.o;
}
void keep(Ctx &c, Kept k) {
  if (S->retain <= 0) {
    drop_kept(k);
    return;
  }
  if (S->adapt) {
    rt::Track tr;
    for (size_t i = 0; i < k.snap.size(); i++) {
      std::any a;
      int t = k.snap[i].t;
      if (t <= model::TS && t != model::TDEC && lc::ad_from(k.t ? (*k.t)[i] : *k.o, t ? t : model::TI, &a)) {
        rt::violation("unexpected-throw", "converting a delivered value threw");
      }
      k.anys.push_back(std::move(a));
    }
    // the other form outlives the first
    if (k.t && (S->seed + c.kept.size()) % 3 == 0) {
      delete k.t;
      k.t = nullptr;
    }
  }
  c.kept.push_back(std::move(k));
  while ((int)c.kept.size() > S->retain) {
    verify_kept(c.kept.front(), "before its release");
    drop_kept(c.kept.front());
    c.kept.pop_front();
  }
}
void verify_lent(Slot &s) {
  if (s.bound) {
    Row now = from_tuple(*s.bound, &s.brow);
    rt::ctr(rt::C_VERIFY);
    if (!model::same(now, s.brow)) {
      rt::violation("lent-changed", "the bound tuple changed from %s to %s", shorten(model::text(s.brow)).c_str(), shorten(model::text(now)).c_str());
    }
  }
}
void verify_pays() {
  for (size_t i = 0; i < S->pays.size(); i++) {
    if (*(*pays)[i] != S->pays[i]) rt::violation("lent-changed", "a string shared by the caller changed");
  }
  for (size_t i = 0; i < S->codes.size(); i++) {
    if (S->codes[i].size() && memcmp((*shcodes)[i], S->codes[i].data(), S->codes[i].size()) != 0) {
      rt::violation("lent-changed", "the bytes given to Decode were modified");
    }
  }
  for (size_t i = 0; i < S->tups.size(); i++) {
    if (!model::same(from_tuple(*(*shtups)[i], &S->tups[i]), S->tups[i])) rt::violation("lent-changed", "a tuple bound by several runners changed");
  }
}

Fault fault_of(const Op &op, int j) {
  Fault f;
  if (op.fm && op.fj == j) {
    f.mode = op.fm;
    f.k = op.fk;
  }
  return f;
}

void unbind(Slot &s) {
  if (s.own) {
    delete s.own;
    s.own = nullptr;
  }
  s.bound = nullptr;
  s.has_bound = s.fresh = false;
}
// ---- a plan in parts
bool part_dec(void *obj, const model::Bytes &code, size_t &used) {
  unsigned char *buf;
  const unsigned char *end = nullptr;
  {
    rt::Track tr;
    buf = new unsigned char[code.size()];
    memcpy(buf, code.data(), code.size());
  }
  int e = lc::rel_dec(obj, buf, code.size(), &end, nullptr);
  used = e ? 0 : end - buf;
  memset(buf, 0xCC, code.size());
  delete[] buf;
  return !e;
}
void parts_end(Slot &s) {
  for (auto &p : s.rest) if (lc::rel_del(p.obj)) rt::violation("throwing-destructor", "destroying a runner threw");
  s.rest.clear();
}
int parts_dec(Slot &s, const model::Bytes &code, size_t &used) {
  std::vector<size_t> at = model::element_cuts(code, true);
  size_t from = 0;
  bool first = true;
  used = 0;
  for (size_t j = 0; j < at.size(); j++) {
    if (j + 1 < at.size() && !(S->cut >> (j % 16) & 1)) continue;
    Part p;
    p.code = code.substr(from, at[j] - from);
    from = at[j];
    size_t u = 0;
    if (first) {
      if (!part_dec(s.obj, p.code, u)) return 1;
    } else {
      if (lc::rel_new(&p.obj, nullptr)) rt::violation("unexpected-throw", "creating a runner threw");
      s.rest.push_back(p);
      rt::ctr(rt::C_PARTS);
      if (!part_dec(p.obj, p.code, u)) return 1;
    }
    first = false;
    used += u;
  }
  return 0;
}
// a row comes to a part; it is carried by value
int part_put(Part &p, const Tuple *t, const Tuple **out) {
  Row r = from_tuple(*t, nullptr);
  bool plain = true;
  for (const auto &v : r) if (v.t == model::TDEC || (v.t == model::TB && v.i > 1)) plain = false;
  if (plain) {
    delete t;
    rt::Track tr;
    Tuple *n = new Tuple();
    for (const auto &v : r) n->push_back(to_operand(v));
    t = n;
    p.log.push_back({false, std::move(r)});
  } else {
    p.opaque = true;
  }
  rt::ctr(rt::C_CARRIED);
  *out = nullptr;
  return lc::rel_put(p.obj, t, out, nullptr);
}
int part_get(Slot &s, size_t k, const Tuple **out) {
  if (k > 0) {
    for (;;) {
      const Tuple *t = nullptr;
      int e = part_get(s, k - 1, &t);
      if (e) return e;
      if (!t) break;
      e = part_put(s.rest[k - 1], t, out);
      if (e || *out) return e;
    }
  }
  *out = nullptr;
  if (k) s.rest[k - 1].log.push_back({true, Row()});
  return lc::rel_get(k ? s.rest[k - 1].obj : s.obj, out, nullptr);
}
// a part is lost with all it held, and made again with the calls it had
void part_lose(Part &p) {
  static size_t redone = 0;  // of one run
  if (p.opaque || p.log.size() > 1000 || redone > 4000) return;
  redone += p.log.size();
  rt::ctr(rt::C_LOST);
  if (lc::rel_del(p.obj)) rt::violation("throwing-destructor", "destroying a runner threw");
  p.obj = nullptr;
  if (lc::rel_new(&p.obj, nullptr)) rt::violation("unexpected-throw", "creating a runner threw");
  size_t u;
  if (!part_dec(p.obj, p.code, u)) rt::violation("unstable", "part of a plan was decoded once and rejected later");
  std::vector<Part::Call> log = std::move(p.log);
  p.log.clear();
  for (const auto &c : log) {
    const Tuple *out = nullptr;
    int e;
    if (c.get) {
      p.log.push_back(c);
      e = lc::rel_get(p.obj, &out, nullptr);
    } else {
      Tuple *t;
      {
        rt::Track tr;
        t = new Tuple();
        for (const auto &v : c.row) t->push_back(to_operand(v));
      }
      e = part_put(p, t, &out);
    }
    if (!e) delete out;
  }
}
int plan_put(Slot &s, const Tuple *t, const Tuple **out, Fault *f) {
  int e = lc::rel_put(s.obj, t, out, f);
  for (size_t k = 0; k < s.rest.size() && !e && *out; k++) {
    t = *out;
    e = part_put(s.rest[k], t, out);
  }
  return e;
}
int plan_get(Slot &s, const Tuple **out, Fault *f) {
  return s.rest.empty() ? lc::rel_get(s.obj, out, f) : part_get(s, s.rest.size(), out);
}

void kill(Slot &s) {
  if (s.kind < 0) return;
  parts_end(s);
  int e = s.kind == 0 ? lc::rel_del(s.obj) : lc::ex_del(s.obj);
  if (e) rt::violation("throwing-destructor", "destroying a runner threw");
  rt::ctr(rt::C_DEL);
  if (s.kind == 0 && s.absorbed) rt::ctr(rt::C_ABANDON);
  unbind(s);
  s = Slot();
}

void do_new(Ctx &c, const Op &op, int i) {
  Slot &s = c.slots[op.r];
  if (s.kind >= 0) return skip(i);
  Fault f = fault_of(op, 0);
  void *p = nullptr;
  // others before it
  for (int k = 1; k < op.rep; k++) {
    int x = op.n ? lc::ex_new(&p, nullptr) : lc::rel_new(&p, nullptr);
    if (x) rt::violation("unexpected-throw", "creating a runner threw");
    op.n ? lc::ex_del(p) : lc::rel_del(p);
    rt::ctr(rt::C_NEW);
  }
  p = nullptr;
  int e = op.n ? lc::ex_new(&p, &f) : lc::rel_new(&p, &f);
  mixf(f);
  if (e) {
    if (!f.fired) rt::violation("unexpected-throw", "creating a runner threw");
    e = op.n ? lc::ex_new(&p, nullptr) : lc::rel_new(&p, nullptr);
    if (e) rt::violation("unexpected-throw", "creating a runner threw");
  }
  s.kind = op.n;
  s.obj = p;
  rt::ctr(rt::C_NEW);
  digest(i, 1);
}

void do_dec(Ctx &c, const Op &op, int i) {
  Slot &s = c.slots[op.r];
  if (s.kind < 0) return skip(i);
  const model::Bytes &code = op.share >= 0 ? S->codes[op.share % S->codes.size()] : op.code;
  model::Plan plan;
  model::Prog prog;
  model::DecRes d = s.kind == 0 ? model::decode_plan(code, plan) : model::decode_expr(code, prog);
  unsigned char *buf;
  if (op.share >= 0) {
    buf = (*shcodes)[op.share % S->codes.size()];
  } else {
    rt::Track tr;
    buf = new unsigned char[code.size()];
    memcpy(buf, code.data(), code.size());
  }
  Fault f = fault_of(op, 0);
  const unsigned char *end = nullptr;
  bool had = s.decoded;
  if (s.kind == 0 && s.absorbed) rt::ctr(rt::C_ABANDON);
  if (s.kind == 0) parts_end(s);
  bool parts = S->split && s.kind == 0 && d.st == model::D_OK;
  int e;
  if (parts) {
    size_t u;
    e = parts_dec(s, code, u);
    end = buf + u;
  } else {
    e = s.kind == 0 ? lc::rel_dec(s.obj, buf, code.size(), &end, &f) : lc::ex_dec(s.obj, buf, code.size(), &end, &f);
  }
  for (int k = 1; k < op.rep && !f.fired && !parts; k++) {
    int x = s.kind == 0 ? lc::rel_dec(s.obj, buf, code.size(), &end, nullptr) : lc::ex_dec(s.obj, buf, code.size(), &end, nullptr);
    rt::ctr(rt::C_REDECODE);
    if ((x != 0) != (e != 0)) rt::violation("unstable", "decoding the same bytes again (%d times) %s", k, x ? "threw" : "did not throw");
  }
  mixf(f);
  size_t used = 0;
  rt::ctr(rt::C_DECODE);
  if (had) rt::ctr(rt::C_REDECODE);
  if (!e) {
    if (end < buf || end > buf + code.size()) {
      rt::violation("position-outside", "Decode returned a position %ld bytes from the start of %zu bytes", (long)(end - buf), code.size());
    }
    used = end - buf;
  }
  if (memcmp(buf, code.data(), code.size()) != 0) rt::violation("lent-changed", "Decode modified the bytes it was given");
  if (op.share < 0) {
    memset(buf, 0xCC, code.size());
    delete[] buf;
  }
  note(i, e ? 1 : 0);
  bool faulted = f.fired > 0 && e;
  if (!faulted) {
    if (d.st == model::D_OK) {
      if (e) {
        if (P.decode) rt::violation("intact-rejected", "Decode rejected an intact encoding %s", shorten(model::hex(code)).c_str());
        mismatch("intact-rejected", "Decode rejected an intact encoding %s", shorten(model::hex(code)).c_str());
      } else if (used != d.used) {
        if (P.decode) rt::violation("wrong-end", "Decode stopped at byte %zu instead of %zu of %s", used, d.used, shorten(model::hex(code)).c_str());
        mismatch("wrong-end", "Decode stopped at byte %zu instead of %zu", used, d.used);
      }
    } else if (d.st == model::D_BAD) {
      rt::ctr(rt::C_DECODE_BAD);
      if (!e && P.decode) rt::violation("damaged-accepted", "Decode accepted a damaged encoding (%s): %s", d.why, shorten(model::hex(code)).c_str());
    } else {
      rt::ctr(rt::C_DECODE_LENIENT);
    }
  }
  s.decoded = d.st == model::D_OK && !e;
  s.absorbed = s.delivered = 0;
  s.orderdep = s.partial = false;
  s.acc = s.acc_throw = 0;
  s.ran = s.nulltup = false;
  unbind(s);
  if (s.kind == 0) {
    s.plan = plan;
    if (s.decoded) s.pipe.reset(plan);
  } else {
    s.prog = prog;
    s.code = code;
    s.used = used;
    s.uses_var = false;
    for (const auto &in : prog) if ((in.op & 0xF0) == 0x30) s.uses_var = true;
  }
  digest(i, e ? 0xE : used + 100);
}

// one Put of a row; false when it is not to be carried out
bool put_row(Ctx &c, Slot &s, const Op &op, const Row &row, int i, int j, uint64_t &dg) {
  Row expect;
  model::Out o = s.pipe.peek(row, expect);
  if (o == model::O_PRE || (o == model::O_TAINT && !P.taint_ok) || (o == model::O_THROW && !P.throw_ok)) return false;
  if (o == model::O_TAINT) rt::ctr(rt::C_TAINT);
  Tuple *t = to_tuple(row);
  const Tuple *out = nullptr;
  Fault f = fault_of(op, j);
  rt::ctr(rt::C_PUT);
  int e = plan_put(s, t, &out, &f);
  mixf(f);
  bool infault = f.fired > 0;
  dg = e ? 0xE : 0;
  if (e) {
    rt::ctr(rt::C_PUT_THROW);
    note(i, 1);
    if (!infault && o != model::O_THROW && o != model::O_TAINT) {
      mismatch("unexpected-throw", "Put threw for row %s, whose evaluation is defined", shorten(model::text(row)).c_str());
    }
  } else {
    note(i, 0);
    if (s.partial) s.orderdep = true;
    Row got;
    if (out) {
      rt::ctr(rt::C_PUT_OUT);
      got = from_tuple(*out, &expect);
      dg = rowhash(got);
      rt::ctr(rt::C_CHECKED);
    } else {
      s.absorbed++;
      dg = 0x11;
    }
    if (o == model::O_THROW) {
      mismatch("no-throw", "Put of row %s did not throw although its evaluation is an error", shorten(model::text(row)).c_str());
      s.pipe.set_blind();
    } else if (o == model::O_ROW) {
      if (!out) mismatch("row-dropped", "Put of row %s returned nothing instead of %s", shorten(model::text(row)).c_str(), shorten(model::text(expect)).c_str());
      else if (!model::same(got, expect)) {
        mismatch("wrong-row", "Put of row %s returned %s instead of %s", shorten(model::text(row)).c_str(), shorten(model::text(got)).c_str(),
                 shorten(model::text(expect)).c_str());
      }
    } else if (o == model::O_NONE && out) {
      mismatch("row-not-absorbed", "Put of row %s returned %s instead of nothing", shorten(model::text(row)).c_str(), shorten(model::text(got)).c_str());
    }
    if (o == model::O_TAINT) s.pipe.set_blind();
    s.pipe.apply(row);
    if (out) {
      Kept k;
      k.t = out;
      k.snap = got;
      keep(c, std::move(k));
    }
  }
  return true;
}

// The row with other values; every repetition of a Put and every cycle of a run may have its own.
Row varied(const Row &row, int col, int64_t by) {
  Row r = row;
  for (size_t k = 0; k < r.size(); k++) {
    if (col >= 0 && (int)k != col) continue;
    Val &v = r[k];
    if (v.t == model::TI) v.i = (int32_t)(uint32_t)((uint64_t)v.i + (uint64_t)by);
    else if (v.t == model::TL) v.i = (int64_t)((uint64_t)v.i + (uint64_t)by);
    else if (v.t == model::TD) v = model::vd(v.d + (double)by);
    else if (v.t == model::TF) v = model::vf((float)(v.d + (double)by));
    else if (v.t == model::TS && v.pay < 0) v.s += std::to_string(by);
  }
  return r;
}

void do_put(Ctx &c, const Op &op, int i) {
  Slot &s = c.slots[op.r];
  if (s.kind != 0 || !s.decoded || !model::static_ok(s.plan, (int)op.row.size())) return skip(i);
  uint64_t dg = 0;
  if (op.n <= 1) {
    bool ok = S->vary && cycle_no ? put_row(c, s, op, varied(op.row, -1, cycle_no), i, 0, dg) : put_row(c, s, op, op.row, i, 0, dg);
    if (!ok) return skip(i);
    return digest(i, dg);
  }
  uint64_t all = 0;
  for (int j = 0; j < op.n; j++) {
    if (work_most && rt::T.work > work_most) break;
    if (op.share >= 0 ? put_row(c, s, op, varied(op.row, op.share, j), i, j, dg) : put_row(c, s, op, op.row, i, j, dg)) all = rt::hash64(all, dg);
  }
  note(i, 0);
  digest(i, all);
}


// one Get; returns 0 row, 1 end, 2 threw, 3 injected failure
int one_get(Ctx &c, Slot &s, const Op &op, int j) {
  Fault f = fault_of(op, j);
  const Tuple *out = nullptr;
  rt::ctr(rt::C_GET);
  int e = plan_get(s, &out, &f);
  mixf(f);
  if (e && f.fired) {
    rt::ctr(rt::C_GET_THROW);
    s.partial = true;
    s.pipe.got_fault();
    if (s.pipe.lossy()) rt::ctr(rt::C_LOSSY);
    return 3;
  }
  const char *err = nullptr;
  int r;
  Row got;
  if (e) {
    rt::ctr(rt::C_GET_THROW);
    err = s.pipe.got_throw();
    s.acc_throw++;
    s.delivered++;
    s.partial = true;
    r = 2;
  } else if (out) {
    rt::ctr(rt::C_GET_OUT);
    rt::ctr(rt::C_GROUPS);
    got = from_tuple(*out, nullptr);
    rt::ctr(rt::C_CHECKED);
    err = s.pipe.got_row(got);
    s.acc += rowhash(got) | 1;
    s.delivered++;
    s.partial = true;
    Kept k;
    k.t = out;
    k.snap = got;
    keep(c, std::move(k));
    r = 0;
  } else {
    err = s.pipe.got_end();
    r = 1;
  }
  if (err && P.throws && r == 0 && !strncmp(err, "a row was delivered before", 26)) err = nullptr;  // the end will tell
  if (err && r == 1 && (!strncmp(err, "a failing group", 15) || !strncmp(err, "failing rows", 12))) mismatch("no-throw", "%s", err);
  if (err) mismatch(r == 1 ? "lost-row" : r == 2 ? "unexpected-throw" : "wrong-group", "%s%s%s", err, r == 0 ? ": " : "", r == 0 ? shorten(model::text(got)).c_str() : "");
  if (r != 1 && s.delivered > s.absorbed) {
    // bounded progress: never more results than rows absorbed
    progress("too-many-results", "Get came back with a result %zu times after %zu rows were absorbed", s.delivered, s.absorbed);
  }
  return r;
}

void end_of_drain(Slot &s) {
  s.absorbed = s.delivered = 0;
  s.partial = false;
  s.acc = s.acc_throw = 0;
}

void do_get(Ctx &c, const Op &op, int i, bool all) {
  Slot &s = c.slots[op.r];
  if (s.kind != 0 || !s.decoded || s.plan.empty()) return skip(i);
  int cap = all ? (int)(s.absorbed + 4) : op.n;
  bool ended = false;
  uint64_t dg = 0x22;
  int shape = 0;
  for (int j = 0; j < cap; j++) {
    if (work_most && rt::T.work > work_most) break;
    int r = one_get(c, s, op, j);
    if (r == 1) {
      if (!ended) {
        dg = s.orderdep || (S->cut && s.pipe.late_floats()) ? 0x33 : rt::hash64(s.acc, s.acc_throw);
        s.orderdep = false;
        if (s.pipe.ambiguous) { rt::ctr(rt::C_LIMBO, s.pipe.ambiguous); s.pipe.ambiguous = 0; }
        end_of_drain(s);
      }
      ended = true;
      shape++;
      if (all && shape >= 2) break;
    } else if (ended) {
      progress("result-after-end", "Get delivered again after it had reported the end");
    }
  }
  if (all && !ended) progress("no-end", "Get did not reach the end");
  if (!ended && all) dg = 0x44;
  rt::ctr(all ? rt::C_DRAIN : rt::C_PARTIAL);
  note(i, 0);
  digest(i, dg);
}

void do_bind(Ctx &c, const Op &op, int i, bool shared) {
  Slot &s = c.slots[op.r];
  if (s.kind != 1 || (shared && S->tups.empty())) return skip(i);
  if (!shared && op.n && s.own) {
    // the caller fills its tuple again, at the same place; with and without binding it again
    {
      rt::Track tr;
      s.own->clear();
      for (const auto &v : op.row) s.own->push_back(to_operand(v));
    }
    s.brow = op.row;
    s.fresh = false;  // what the last run left stays
    if (op.n == 1 && lc::ex_bind(s.obj, s.bound)) mismatch("unexpected-throw", "BindTuple threw");
    return digest(i, 1);
  }
  Tuple *old = s.own;
  s.own = nullptr;
  if (shared) {
    int n = op.n % (int)S->tups.size();
    s.bound = (*shtups)[n];
    s.brow = S->tups[n];
  } else {
    s.own = to_tuple(op.row);
    s.bound = s.own;
    s.brow = op.row;
  }
  s.has_bound = true;
  s.fresh = s.nulltup = false;
  int e = lc::ex_bind(s.obj, s.bound);
  if (e) mismatch("unexpected-throw", "BindTuple threw");
  if (old) delete old;
  digest(i, 1);
}

// the caller releases its tuple, having bound none in its place or not
void do_unbind(Ctx &c, const Op &op, int i) {
  Slot &s = c.slots[op.r];
  if (op.n && s.kind == 1) {
    if (lc::ex_bind(s.obj, nullptr)) mismatch("unexpected-throw", "BindTuple threw");
    s.nulltup = true;
  }
  unbind(s);
  digest(i, 1);
}

void do_run(Ctx &c, const Op &op, int i) {
  Slot &s = c.slots[op.r];
  if (s.kind != 1 || !s.decoded) return skip(i);
  if (s.uses_var && !s.has_bound && !s.nulltup) return skip(i);
  if (model::static_depth(s.prog, s.has_bound ? (int)s.brow.size() : 0, s.has_bound) < 0) return skip(i);
  Row st;
  model::Ev ev = model::eval(s.prog, s.has_bound ? &s.brow : nullptr, st);
  for (const auto &v : s.brow) if (v.taint && ev == model::E_OK) ev = model::E_TAINT;
  if (ev == model::E_PRE || (ev == model::E_TAINT && !P.taint_ok) || (ev == model::E_THROW && !P.throw_ok)) return skip(i);
  if (ev == model::E_TAINT) rt::ctr(rt::C_TAINT);
  Fault f = fault_of(op, 0);
  rt::ctr(rt::C_RUN);
  int e = lc::ex_run(s.obj, &f);
  mixf(f);
  Row first;
  for (int k = 1; k < op.rep && !f.fired; k++) {
    int x = lc::ex_run(s.obj, nullptr);
    rt::ctr(rt::C_RUN);
    if ((x != 0) != (e != 0)) rt::violation("unstable", "running again on the same tuple (%d times) %s", k, x ? "threw" : "did not throw");
    if (!x && ev == model::E_OK && k % 3 != 1) {  // left unread in between
      Tuple *t = nullptr;
      if (lc::ex_all(s.obj, &t, nullptr) || !t) rt::violation("unexpected-throw", "reading the results threw");
      Row got = from_tuple(*t, &st);
      delete t;
      if (k == 2) first = got;
      if (k > 2 && !model::same(got, first)) rt::violation("unstable", "evaluation %d on the same tuple gave %s, an earlier one %s", k, shorten(model::text(got)).c_str(), shorten(model::text(first)).c_str());
      if (!model::same(got, st)) mismatch("wrong-value", "evaluation %d gave %s instead of %s", k, shorten(model::text(got)).c_str(), shorten(model::text(st)).c_str());
    }
  }
  s.ran = !e;
  s.fresh = true;
  s.checked = ev == model::E_OK;
  s.expect = st;
  note(i, e ? 1 : 0);
  if (e) {
    rt::ctr(rt::C_RUN_THROW);
    if (!f.fired && ev == model::E_OK) mismatch("unexpected-throw", "Run threw although the evaluation is defined");
  } else if (ev == model::E_THROW) {
    mismatch("no-throw", "Run did not throw although the evaluation is an error");
    s.ran = false;
  }
  digest(i, e ? 0xE : 1);
}

void check_values(const Slot &s, const Row &got, const Row &exp) {
  rt::ctr(rt::C_CHECKED, got.size());
  if (s.checked && !model::same(got, exp)) {
    mismatch("wrong-value", "evaluation gave %s instead of %s", shorten(model::text(got)).c_str(), shorten(model::text(exp)).c_str());
  }
}

// Each of the values an expression leaves has to be what its own part of the code gives on a new runner.
void check_order(const Slot &s, const Row &all, bool last) {
  Row got = all;
  if (last) {
    got = s.expect;
    got.back() = all[0];
  }
  if (!s.checked || !s.fresh || model::same(got, s.expect)) return;
  std::vector<model::Bytes> pc = model::pieces(s.prog, s.code, s.used);
  if (got.size() != pc.size()) {
    rt::violation("wrong-values", "evaluation left %zu values instead of %zu: %s", got.size(), pc.size(), shorten(model::text(got)).c_str());
  }
  for (size_t k = 0; k < pc.size(); k++) {
    if (model::same(got[k], s.expect[k])) continue;
    void *p = nullptr;
    const unsigned char *end = nullptr;
    Tuple *t = nullptr;
    if (lc::ex_new(&p, nullptr)) rt::violation("unexpected-throw", "creating a runner threw");
    unsigned char *buf;
    {
      rt::Track tr;
      buf = new unsigned char[pc[k].size()];
      memcpy(buf, pc[k].data(), pc[k].size());
    }
    int e = lc::ex_dec(p, buf, pc[k].size(), &end, nullptr);
    if (!e && s.bound) e = lc::ex_bind(p, s.bound);
    if (!e) e = lc::ex_run(p, nullptr);
    if (!e) e = lc::ex_all(p, &t, nullptr);
    if (!e && t) {
      Row one = from_tuple(*t, nullptr);
      if (one.size() == 1 && !model::same(one[0], got[k])) {
        rt::violation("wrong-values", "value %zu of %zu of an expression is %s, but its part of the code alone gives %s", k, got.size(),
                      shorten(model::text(got[k])).c_str(), shorten(model::text(one)).c_str());
      }
    }
    delete t;
    delete[] buf;
    lc::ex_del(p);
  }
}

void do_xget(Ctx &c, const Op &op, int i, bool opt) {
  Slot &s = c.slots[op.r];
  if (s.kind != 1 || !s.ran || s.expect.empty()) return skip(i);
  int t = s.expect.back().t;
  if (opt && (t > 7 || t == 0)) t = 7;
  if (opt && s.expect.back().t != 0 && s.expect.back().t != t) return skip(i);
  Fault f = fault_of(op, 0);
  Operand *o;
  {
    rt::Track tr;
    o = new Operand();
  }
  int e = opt ? lc::ex_opt(s.obj, t, o, &f) : lc::ex_get(s.obj, o, &f);
  mixf(f);
  note(i, e ? 1 : 0);
  if (e) {
    delete o;
    if (!f.fired && s.checked) mismatch("unexpected-throw", "reading the result threw");
    return digest(i, 0xE);
  }
  s.ran = false;
  Kept k;
  k.o = o;
  k.snap = Row{from_operand(*o, t)};
  check_values(s, k.snap, Row{s.expect.back()});
  if (P.order) check_order(s, k.snap, true);
  digest(i, rowhash(k.snap));
  keep(c, std::move(k));
}

void do_xall(Ctx &c, const Op &op, int i) {
  Slot &s = c.slots[op.r];
  if (s.kind != 1 || !s.ran) return skip(i);
  Fault f = fault_of(op, 0);
  Tuple *t = nullptr;
  int e = lc::ex_all(s.obj, &t, &f);
  mixf(f);
  note(i, e ? 1 : 0);
  if (e) {
    if (!f.fired) mismatch("unexpected-throw", "reading the results threw");
    return digest(i, 0xE);
  }
  if (!t) rt::violation("wrong-value", "GetAll returned no tuple");
  Kept k;
  k.t = t;
  k.snap = from_tuple(*t, &s.expect);
  check_values(s, k.snap, s.expect);
  if (P.order) check_order(s, k.snap, false);
  digest(i, rowhash(k.snap));
  keep(c, std::move(k));
}

void do_xtyp(Ctx &c, const Op &op, int i) {
  Slot &s = c.slots[op.r];
  if (s.kind != 1 || !s.decoded || s.prog.empty()) return skip(i);
  int t = -1;
  int e = lc::ex_type(s.obj, &t);
  note(i, e ? 1 : 0);
  digest(i, e ? 0xE : 50 + (uint64_t)t);
}

void step(int tid, int i) {
  const Op &op = S->ops[i];
  Ctx &c = *ctxs[tid];
  rt::SH->cur_op[tid] = i;
  rt::ctr(rt::C_OPS);
  if (op.r < 0 || op.r >= (int)c.slots.size()) return skip(i);
  if (S->split && S->lose && c.slots[op.r].decoded) {
    auto &rest = c.slots[op.r].rest;
    for (size_t k = 0; k < rest.size(); k++) {
      if (rt::hash64(rt::hash64(S->seed, i), k) % 1000 < (uint64_t)S->lose) {
        part_lose(rest[k]);
      }
    }
  }
  switch (op.k) {
  case O_NEW: do_new(c, op, i); break;
  case O_DEC: do_dec(c, op, i); break;
  case O_PUT: do_put(c, op, i); break;
  case O_GET: do_get(c, op, i, false); break;
  case O_DRN: do_get(c, op, i, true); break;
  case O_DEL: if (c.slots[op.r].kind < 0) skip(i); else { kill(c.slots[op.r]); digest(i, 1); } break;
  case O_BND: do_bind(c, op, i, false); break;
  case O_BSH: do_bind(c, op, i, true); break;
  case O_UBT: do_unbind(c, op, i); break;
  case O_RUN: do_run(c, op, i); break;
  case O_XGET: do_xget(c, op, i, false); break;
  case O_XOPT: do_xget(c, op, i, true); break;
  case O_XALL: do_xall(c, op, i); break;
  case O_XTYP: do_xtyp(c, op, i); break;
  case O_REL:
    for (auto &k : c.kept) { verify_kept(k, "before its release"); drop_kept(k); }
    c.kept.clear();
    digest(i, 1);
    break;
  case O_CHK:
    for (auto &k : c.kept) verify_kept(k, "later");
    digest(i, 1);
    break;
  default: break;
  }
  if (P.snap) {
    verify_lent(c.slots[op.r]);
    verify_pays();
    for (auto &k : c.kept) verify_kept(k, OPNAME[op.k]);
  }
}

// ---- a runner handed from thread to thread, one call at a time
struct Worker {
  pthread_t th;
  sem_t go, done;
  int op;
  bool live = false;
};
Worker workers[rt::MAXT];
void *worker_main(void *a) {
  Worker &w = *(Worker *)a;
  rt::enter_thread();
  for (;;) {
    while (sem_wait(&w.go) != 0) {
    }
    if (w.op < 0) break;
    step(0, w.op);
    sem_post(&w.done);
  }
  rt::T.lib = 1;  // what ends with the thread is the library's
  return nullptr;
}
void end_worker(Worker &w) {
  if (!w.live) return;
  w.op = -1;
  sem_post(&w.go);
  pthread_join(w.th, nullptr);
  w.live = false;
}
void on_thread(int tid, int op) {
  if (tid == 0) return step(0, op);
  Worker &w = workers[tid];
  if (!w.live) {
    sem_init(&w.go, 0, 0);
    sem_init(&w.done, 0, 0);
    if (pthread_create(&w.th, nullptr, worker_main, &w) != 0) _exit(3);
    w.live = true;
    rt::ctr(rt::C_THREADS);
  }
  rt::ctr(rt::C_HANDOVER);
  w.op = op;
  sem_post(&w.go);
  while (sem_wait(&w.done) != 0) {
  }
  if (tid == 3) end_worker(w);
}

// ---- cycles: the memory in use after each of them
void judge_cycles(const std::vector<uint64_t> &b, const std::vector<uint64_t> &n) {
  // grown over each of the last windows, each as long as all before it; and not only because texts became longer
  size_t c = S->cycles;
  if (c < 160 || b.size() < c) return;
  auto grown = [c](const std::vector<uint64_t> &v) {
    return v[c - 1] > v[c / 2 - 1] && v[c / 2 - 1] > v[c / 4 - 1] && v[c / 4 - 1] > v[c / 8 - 1] && v[c / 8 - 1] > v[c / 16 - 1];
  };
  if (grown(b) && (grown(n) || b[c - 1] >= b[c / 2 - 1] + 256)) {
    rt::violation("grows", "the memory in use after %zu, %zu, %zu, %zu and %zu equal cycles is %lu, %lu, %lu, %lu and %lu bytes", c / 16, c / 8, c / 4, c / 2, c,
                  (unsigned long)b[c / 16 - 1], (unsigned long)b[c / 8 - 1], (unsigned long)b[c / 4 - 1], (unsigned long)b[c / 2 - 1], (unsigned long)b[c - 1]);
  }
}

const std::vector<uint64_t> *held_so_far;
// more memory in use after each of the cycles, until there was none left
void no_room() {
  if (!held_so_far || held_so_far->size() < 16) return;
  const std::vector<uint64_t> &b = *held_so_far;
  size_t k = b.size();
  if (b[k - 1] > b[k / 2 - 1] && b[k / 2 - 1] > b[k / 4 - 1] && b[k / 4 - 1] > b[k / 8 - 1] && b[k - 1] >= b[k / 8 - 1] + (1 << 20)) {
    rt::violation("grows", "the simulated memory was used up after %zu equal cycles; in use after %zu, %zu, %zu and %zu of them were %lu, %lu, %lu and %lu bytes", k, k / 8, k / 4, k / 2, k,
                  (unsigned long)b[k / 8 - 1], (unsigned long)b[k / 4 - 1], (unsigned long)b[k / 2 - 1], (unsigned long)b[k - 1]);
  }
}

constexpr double WORK_LIMIT = 2;

// ---- the work of the calls, in steps of the simulated machine
// It must not grow with the number of equal cycles ...
void judge_slower(const std::vector<uint64_t> &w) {
  size_t c = S->cycles;
  if (c < 160 || w.size() < c) return;
  auto mean = [&](size_t a, size_t b) {
    double s = 0;
    for (size_t i = a; i < b; i++) s += (double)w[i];
    return s / (double)(b - a);
  };
  double m[4] = {mean(c / 16, c / 8), mean(c / 8, c / 4), mean(c / 4, c / 2), mean(c / 2, c)};
  double d1 = m[1] - m[0], d2 = m[2] - m[1], d3 = m[3] - m[2];
  if (d1 > 0 && d2 >= 1.5 * d1 && d3 >= 1.5 * d2 && m[3] - m[0] >= 70) {
    rt::violation("slower", "an equal cycle of calls takes ever more work: %.1f, %.1f, %.1f and %.1f steps, on average over the cycles up to %zu, %zu, %zu and %zu",
                  m[0], m[1], m[2], m[3], c / 8, c / 4, c / 2, c);
  }
}
// ... nor, per row, group, instruction or byte, with how many there are of them.
void judge_scale(int i, uint64_t work, uint64_t size, std::vector<std::pair<uint64_t, uint64_t>> &seen) {
  const Op &o = S->ops[i];
  if (seen[o.k].second == 0) {
    seen[o.k] = {work, size};
    return;
  }
  double a = (double)seen[o.k].first / (double)seen[o.k].second, b = (double)work / (double)size;
  if (const char *f = getenv("SIM_WORK")) {
    if (FILE *w = fopen(f, "a")) {
      fprintf(w, "%s %lu/%lu %lu/%lu ratio %.3f seed %lu\n", OPNAME[o.k], (unsigned long)seen[o.k].first, (unsigned long)seen[o.k].second, (unsigned long)work, (unsigned long)size, b / a, (unsigned long)S->seed);
      fclose(w);
    }
  }
  if (seen[o.k].second <= size && b > WORK_LIMIT * a) {
    rt::violation("scales", "%s over %lu items took %.1f steps for each, and over %lu items %.1f", OPNAME[o.k], (unsigned long)seen[o.k].second, a, (unsigned long)size, b);
  }
}

void thread_body(int tid) {
  ctxs[tid] = new Ctx();
  int n = (int)S->ops.size();
  std::vector<uint64_t> held, blocks, work;
  std::vector<std::pair<uint64_t, uint64_t>> seen(NOPK);
  uint64_t w0 = 0;
  if (P.steady) {
    held_so_far = &held;
    rt::on_noroom = no_room;
  }
  for (int i = 0; i < n; i++) {
    if (S->relay) {
      on_thread(S->ops[i].tid, i);
      continue;
    }
    if (S->ops[i].tid != tid) continue;
    rt::op_point();
    if (P.work && i == S->cyc) w0 = rt::T.work;
    uint64_t w1 = rt::T.work, g1 = rt::SH->ctr[rt::C_GET_OUT];
    if (P.work && S->ops[i].sz > 0 && seen[S->ops[i].k].second) {
      auto &q = seen[S->ops[i].k];
      uint64_t size = S->ops[i].k == O_DRN || S->ops[i].k == O_GET ? ctxs[tid]->slots[S->ops[i].r].absorbed + 1 : S->ops[i].sz;
      if (size >= q.second) work_most = rt::T.work + 1 + (uint64_t)(WORK_LIMIT * (double)q.first / (double)q.second * (double)size);
    }
    step(tid, i);
    if (work_most && rt::T.work > work_most) {
      auto &q = seen[S->ops[i].k];
      rt::violation("scales", "%s over %lu items took %.1f steps for each, and over more of them, begun after %lu steps, more than %.0f times that", OPNAME[S->ops[i].k],
                    (unsigned long)q.second, (double)q.first / (double)q.second, (unsigned long)w1, WORK_LIMIT);
    }
    work_most = 0;
    if (lc::changed) rt::violation("environment", "the call changed %s of the process", lc::changed);
    if (P.work && S->ops[i].sz > 0) {
      // of a drain, the groups it delivered
      uint64_t size = S->ops[i].k == O_DRN || S->ops[i].k == O_GET ? rt::SH->ctr[rt::C_GET_OUT] - g1 + 1 : S->ops[i].sz;
      judge_scale(i, rt::T.work - w1, size, seen);
    }
    if (i == n - 1 && S->cycles > 0 && S->cyc < n) {
      held.push_back(rt::live_bytes());
      blocks.push_back(rt::live_blocks());
      rt::ctr(rt::C_CYCLES);
      work.push_back(rt::T.work - w0);
      size_t k = held.size(), base = S->cycles / 16;
      // the longer ones only when it looks like growing
      if ((int)k >= S->cycles || ((k == 2 * base || k == 4 * base || k == 8 * base) && (P.work ? work[k - 1] <= work[k / 2 - 1] : held[k - 1] <= held[k / 2 - 1]))) break;
      cycle_no++;
      i = S->cyc - 1;
    }
  }
  if (S->relay) for (auto &w : workers) end_worker(w);
  held_so_far = nullptr;
  if (P.steady) judge_cycles(held, blocks);
  if (P.work) judge_slower(work);
  rt::op_point();
  rt::SH->cur_op[tid] = (int)S->ops.size();
  Ctx &c = *ctxs[tid];
  for (auto &s : c.slots) {
    if (s.kind == 1) verify_lent(s);
    kill(s);
  }
  for (auto &k : c.kept) verify_kept(k, "at the end");
  for (auto &k : c.kept) drop_kept(k);
  delete ctxs[tid];
  ctxs[tid] = nullptr;
}

void setup_shared() {
  pays = new std::vector<std::shared_ptr<std::string>>();
  shcodes = new std::vector<unsigned char *>();
  shtups = new std::vector<Tuple *>();
  for (const auto &p : S->pays) {
    rt::Track tr;
    pays->push_back(std::make_shared<std::string>(p));
  }
  for (const auto &b : S->codes) {
    rt::Track tr;
    unsigned char *c = new unsigned char[b.size()];
    memcpy(c, b.data(), b.size());
    shcodes->push_back(c);
  }
  for (const auto &t : S->tups) shtups->push_back(to_tuple(t));
}
void teardown_shared() {
  verify_pays();
  for (auto *c : *shcodes) delete[] c;
  for (auto *t : *shtups) delete t;
  delete shcodes;
  delete shtups;
  delete pays;
  pays = nullptr;
}

void one_pass() {
  setup_shared();
  cycle_no = 0;
  if (S->threads <= 1 || S->relay) {
    thread_body(0);
  } else {
    rt::SchedCfg cfg;
    cfg.explicit_list = S->sched.list;
    cfg.seed = S->sched.seed;
    cfg.max_switch = S->sched.max;
    cfg.start = S->sched.start;
    memcpy(cfg.p, S->sched.p, sizeof cfg.p);
    cfg.n = (int)S->sched.sw.size();
    cfg.list = S->sched.sw.data();
    rt::run_threads(S->threads, thread_body, cfg, P.race);
  }
  teardown_shared();
}

}  // namespace

Tuple *conv_tuple(const Row &r) {
  return to_tuple(r);
}
Row conv_row(const Tuple &t) {
  return from_tuple(t, nullptr);
}

void scn_execute(const Scn &s) {
  S = &s;
  P = prof_of(s);
  lc::env = s.env;
  lc::watch = P.order;
  lc::changed = nullptr;
  if (s.env & 8) setlocale(LC_ALL, "C.utf8");
  rt::begin_run(s.fill, s.fseed, s.recycle);
  uint64_t rows = 0;
  for (const auto &o : s.ops) if (o.k == O_PUT) rows += o.n;
  rt::set_step_limit(60000000 + 10000 * rows);  // the groups of many rows leave in one call
  uint64_t l0 = rt::live_blocks();
  one_pass();
  if (P.leak && rt::live_blocks() > l0) {
    uint64_t l1 = rt::live_blocks();
    char rep[600] = "";
    rt::live_report(rep, sizeof rep, 0);
    pass_no = 2;
    one_pass();
    uint64_t l2 = rt::live_blocks();
    pass_no = 3;
    one_pass();
    uint64_t l3 = rt::live_blocks();
    if (l3 > l2 && l2 > l1) {
      rt::SH->cur_op[0] = -1;
      rt::violation("leak", "%lu blocks never released (%lu more on each repetition): %s", (unsigned long)(l1 - l0), (unsigned long)(l3 - l2), rep);
    }
  }
  rt::finish_ok();
}
