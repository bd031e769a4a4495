// Histories: which operations a run consists of.
#include <algorithm>

#include "gen.h"

using namespace model;
using gen::Gen;

namespace {

struct SlotG {
  int kind = -1;
  bool dec = false;
  gen::Plan plan;
  Bytes ecode;
  std::vector<Ty> ecols;
  bool bound = false, ran = false;
  bool partial = false;
  int pend = 0;
};

struct W {  // weights of the operations
  int put = 60, get = 6, drn = 6, nw = 4, del = 2, dec = 3, bad = 0, bnd = 0, run = 0, rd = 0, rel = 1, ubt = 0, typ = 0;
};

struct H {
  Gen g;
  Scn s;
  W w;
  int slots = 2;
  double pexpr = 0;      // share of expression runners
  double pfault = 0;
  double psingle = 0.03; // expressions of operators chosen one by one
  double prep = 0;       // Puts repeated very often
  bool calm = false;     // no Put between a partial Get and the full drain
  std::string shapemode = "any";
  int maxlen = 4;
  int wlen = 0;          // length of now and then a very long chain
  double pagg = 0.3;
  int ncols = 4;
  int burst = 6;
  int tid = 0;
  bool wide = false;     // rows of more than 65536 columns
  bool parts = false;    // plans of more than one operator
  bool noneok = false;   // runs without a tuple
  bool going = false;    // the runners are there and have plans
  std::vector<SlotG> sl{16};
  std::vector<gen::Plan> lib;         // plans to choose from (re-decoding the same or another one)
  double pnew = 0.4;  // an expression of its own instead of one of elib
  std::vector<std::pair<Bytes, std::vector<Ty>>> elib;
  std::vector<int> shared_plan, shared_expr;  // indices into s.codes with lib / elib at the same index
  std::vector<gen::Plan> shp;
  std::vector<std::pair<Bytes, std::vector<Ty>>> she;
  std::vector<std::vector<Ty>> tupcols;

  explicit H(uint64_t seed) : g(seed) {
  }
  rt::Rng &r() { return g.r; }

  std::string shape() {
    if (shapemode == "agg") {  // ends in the aggregate
      std::string p;
      int n = (int)r().below(3);
      for (int i = 0; i < n; i++) p += r().chance(0.5) ? 'F' : 'P';
      if (r().chance(0.15)) p += 'G';
      if (r().chance(0.1)) p += 'P';
      p += r().chance(0.85) ? 'G' : 'U';
      if (r().chance(0.12)) p += r().chance(0.5) ? 'F' : 'P';
      return p;
    }
    if (shapemode == "err") {
      std::string p;
      int n = 1 + (int)r().below(3);
      for (int i = 0; i < n; i++) p += r().chance(0.35) ? 'F' : 'P';
      if (r().chance(0.6)) {
        p += r().chance(0.8) ? 'G' : 'U';
        n = (int)r().below(3);
        for (int i = 0; i < n; i++) p += r().chance(0.3) ? 'F' : r().chance(0.7) ? 'P' : 'G';
      }
      return p;
    }
    if (shapemode == "drain") {
      std::string p;
      int n = 1 + (int)r().below(3);
      for (int i = 0; i < n; i++) {
        if (r().chance(0.35)) p += r().chance(0.5) ? 'F' : 'P';
        p += r().chance(0.8) ? 'G' : 'U';
      }
      if (r().chance(0.4)) p += r().chance(0.5) ? 'F' : 'P';
      if (r().chance(0.1)) p += 'F';
      return p;
    }
    if (wlen && r().chance(0.5)) return g.shape(wlen, 0.03);
    return g.shape(r().chance(0.05) ? 10 : maxlen, pagg);
  }
  gen::Plan new_plan() {
    int n = 1 + (int)r().below(ncols);
    if (r().chance(0.02)) n = r().chance(0.6) ? 130 + (int)r().below(6) : 255 + (int)r().below(60);
    std::string sh = shape();
    if (wide) n = 66000 + (int)r().below(1000) + (r().chance(0.6) ? 70000 : 0);
    if (parts) for (int k = 0; k < 4 && sh.size() < 2; k++) sh = shape();
    // few filters in a very long chain, for rows to come through
    if (g.c.rep && sh.size() > 14) for (auto &k : sh) if (k == 'F' && r().chance(0.8)) k = 'P';
    return g.plan(sh, g.columns(n));
  }
  std::pair<Bytes, std::vector<Ty>> new_expr() {
    std::vector<Ty> cols = g.columns((int)r().below(ncols + 1));
    Bytes e;
    int n = r().chance(0.7) ? 1 : 1 + (int)r().below(4);
    if (r().chance(0.02)) n = r().chance(0.5) ? 22 + (int)r().below(20) : 520;
    if (r().chance(0.02)) n = 0;
    if (r().chance(psingle) && !g.c.exact) {
      n = 1 + (int)r().below(2);
      for (int i = 0; i < n; i++) e += g.single(cols);
      return {e, cols};
    }
    if (r().chance(0.01)) {
      // many operands of one type before the operators which take them
      static const Ty ts[] = {TI, TL, TS, TD, TB};
      Ty t = ts[r().below(5)];
      int k = 12 + (int)r().below(r().chance(0.2) ? 700 : 60);
      for (int i = 0; i < k; i++) e += g.expr(t, cols, 0);
      for (int i = 1; i < k; i++) {
        if (t == TB) e += (char)(0x52 + r().below(2));
        else { e += (char)(0xB1 + r().below(2)); e += (char)t; }
      }
    }
    for (int i = 0; i < n; i++) e += g.expr(g.pick_type_of(cols), cols, n > 5 ? 1 : (int)r().below(g.c.maxdepth + 1));
    if (r().chance(0.5)) e += '\0';
    return {e, cols};
  }
  Op &add(OpK k, int slot) {
    Op o;
    o.tid = tid;
    o.k = k;
    o.r = slot;
    s.ops.push_back(o);
    return s.ops.back();
  }
  void fault(Op &o, int spread) {
    if (s.profile == "C07" && (o.k == O_GET || o.k == O_DRN)) return;  // may lose a row
    if (pfault > 0 && r().chance(pfault)) {
      o.fm = r().chance(0.75) ? 1 : 2;
      o.fk = 1 + (long)r().below(r().chance(0.7) ? std::min(spread, 6) : spread);
      if (o.k == O_DRN || o.k == O_GET) o.fj = (int)r().below(r().chance(0.6) ? 2 : 6);
    }
  }
  size_t room = 60u << 20;  // for rows put many times
  // rarely the same call very often
  void often(Op &o) {
    if (o.fm || tid || s.threads > 1 || !r().chance(0.004)) return;
    static const int reps[] = {2, 3, 9, 17, 33, 65, 101, 129, 257, 1030};
    o.rep = reps[r().below(r().chance(0.8) ? 8 : 10)];
    if (o.k == O_RUN && sl[o.r].ecode.size() < 40 && r().chance(0.03)) {
      o.rep = 66000;
      s.recycle = true;
    }
  }
  void nw(int i) {
    SlotG &x = sl[i];
    if (x.kind >= 0) return;
    x = SlotG();
    x.kind = r().chance(pexpr) ? 1 : 0;
    Op &o = add(O_NEW, i);
    o.n = x.kind;
    fault(o, 3);
    often(o);
  }
  void dec(int i, bool bad) {
    SlotG &x = sl[i];
    if (x.kind < 0) return;
    Op &o = add(O_DEC, i);
    x.partial = false;
    x.pend = 0;
    x.bound = x.ran = false;
    x.dec = true;
    if (x.kind == 0) {
      if (!shp.empty() && r().chance(0.6)) {
        size_t k = r().below(shp.size());
        x.plan = shp[k];
        o.share = shared_plan[k];
      } else {
        if (lib.empty() || r().chance(0.35)) lib.push_back(new_plan());
        x.plan = lib[r().below(lib.size())];
        if (!bad && r().chance(0.12)) x.plan.code = g.sibling(x.plan.code, true, x.plan.in);
        o.code = x.plan.code;
      }
      if (bad) { o.share = -1; o.code = g.damage(x.plan.code, true); x.dec = false; }
    } else {
      if (!she.empty() && r().chance(0.6)) {
        size_t k = r().below(she.size());
        x.ecode = she[k].first;
        x.ecols = she[k].second;
        o.share = shared_expr[k];
      } else {
        if (elib.empty() || r().chance(pnew)) elib.push_back(new_expr());
        auto &e = elib[r().below(elib.size())];
        x.ecode = e.first;
        x.ecols = e.second;
        if (!bad && r().chance(0.15)) x.ecode = g.sibling(x.ecode, false, x.ecols);
        o.code = x.ecode;
      }
      if (bad) { o.share = -1; o.code = g.damage(x.ecode, false); x.dec = false; }
    }
    fault(o, 40);
    often(o);
    if (o.fm && r().chance(0.7)) {
      Op again = o;
      again.fm = 0;
      s.ops.push_back(again);
    }
  }
  void put(int i) {
    SlotG &x = sl[i];
    if (x.kind != 0 || !x.dec || (calm && x.partial)) return;
    int n = 1 + (int)r().below(burst);
    if (prep > 0 && r().chance(prep)) {
      Op &o = add(O_PUT, i);
      o.row = g.row(x.plan.in);
      static const int reps[] = {130, 260, 300, 1030, 3000};
      o.n = r().chance(0.6) ? 2 + (int)r().below(200) : r().chance(0.02) ? 66000 : reps[r().below(5)];
      // all of them have to fit into the simulated memory, several times
      size_t each = 100;
      for (const auto &v : o.row) each += 120 + v.s.size();
      o.n = std::max(1, (int)std::min((size_t)o.n, room / each));
      o.n = std::max(1, (int)std::min((size_t)o.n, 100000000 / (500 + 45 * x.plan.code.size())));
      if (o.n > 1000) s.recycle = true;
      room -= std::min(room, each * o.n);
      if (r().chance(0.6)) {
        std::vector<int> can;
        for (size_t j = 0; j < x.plan.in.size(); j++) if (x.plan.in[j] == TI || x.plan.in[j] == TL || x.plan.in[j] == TS) can.push_back((int)j);
        if (!can.empty()) o.share = can[r().below(can.size())];
        if (o.share >= 0 && o.row[o.share].t == TS) o.row[o.share].pay = -1;
      }
      return;
    }
    for (int k = 0; k < n; k++) {
      Op &o = add(O_PUT, i);
      o.row = g.row(x.plan.in);
      fault(o, 12);
      x.pend++;
    }
  }
  void get(int i, bool all) {
    SlotG &x = sl[i];
    if (x.kind != 0 || !x.dec) return;
    Op &o = add(all ? O_DRN : O_GET, i);
    o.n = 1 + (int)r().below(3);
    fault(o, 10);
    if (!all && !o.fm && s.threads < 2 && r().chance(0.002)) {
      // asked again and again
      o.n = r().chance(0.5) ? 40 : r().chance(0.9) ? 300 : 66000;
      if (!calm || !x.partial) all = true;
    }
    x.partial = !all;
    if (all) x.pend = 0;
  }
  void bind(int i) {
    SlotG &x = sl[i];
    if (x.kind != 1 || !x.dec) return;
    for (size_t k = 0; k < tupcols.size(); k++) {
      size_t j = (k + r().below(tupcols.size())) % tupcols.size();
      if (tupcols[j].size() >= x.ecols.size() && std::equal(x.ecols.begin(), x.ecols.end(), tupcols[j].begin()) && r().chance(0.7)) {
        Op &o = add(O_BSH, i);
        o.n = (int)j;
        x.bound = true;
        return;
      }
    }
    Op &o = add(O_BND, i);
    o.row = g.row(x.ecols);
    if (r().chance(0.3)) o.n = 1 + (int)r().below(2);
    x.bound = true;
  }
  void run(int i) {
    SlotG &x = sl[i];
    if (x.kind != 1 || !x.dec) return;
    if (!x.bound) bind(i);
    Op &o = add(O_RUN, i);
    fault(o, 8);
    often(o);
    x.ran = true;
    if (r().chance(w.ubt ? 0.3 : 0)) { add(O_UBT, i); x.bound = false; }
    else if (r().chance(0.1)) bind(i);
    if (r().chance(0.85)) rd(i);
    if (r().chance(0.1)) rd(i);
    if (noneok && r().chance(0.05)) {
      // a run without a tuple
      add(O_UBT, i).n = 1;
      add(O_RUN, i);
      x.bound = x.ran = false;
    }
  }
  void rd(int i) {
    SlotG &x = sl[i];
    if (x.kind != 1 || !x.ran) return;
    int k = (int)r().below(10);
    Op &o = add(k < 4 ? O_XGET : k < 8 ? O_XALL : O_XOPT, i);
    fault(o, 4);
    if (o.k != O_XALL) x.ran = false;
  }
  void history(int nops) {
    int tot = w.put + w.get + w.drn + w.nw + w.del + w.dec + w.bad + w.bnd + w.run + w.rel + w.typ;
    size_t base = s.ops.size();
    for (int i = 0; i < slots && !going; i++) {
      nw(i);
      dec(i, false);
    }
    while ((int)(s.ops.size() - base) < nops) {
      size_t before = s.ops.size();
      int i = (int)r().below(slots);
      SlotG &x = sl[i];
      int k = (int)r().below(tot);
      if (x.kind < 0) { nw(i); if (r().chance(0.9)) dec(i, false); continue; }
      if (!x.dec && r().chance(0.7)) { dec(i, false); continue; }
      if ((k -= w.put) < 0) { if (x.kind == 0) put(i); else run(i); }
      else if ((k -= w.get) < 0) get(i, false);
      else if ((k -= w.drn) < 0) get(i, true);
      else if ((k -= w.nw) < 0) nw((int)r().below(slots));
      else if ((k -= w.del) < 0) { add(O_DEL, i); x = SlotG(); }
      else if ((k -= w.dec) < 0) dec(i, false);
      else if ((k -= w.bad) < 0) dec(i, true);
      else if ((k -= w.bnd) < 0) bind(i);
      else if ((k -= w.run) < 0) run(i);
      else if ((k -= w.rel) < 0) { if (r().chance(0.3)) add(r().chance(0.5) ? O_REL : O_CHK, i); }
      else if (x.kind == 1 && x.dec) add(O_XTYP, i);
      if (s.ops.size() == before && r().chance(0.01)) add(O_CHK, i);
    }
    if (r().chance(0.7)) for (int i = 0; i < slots; i++) if (sl[i].kind == 0 && sl[i].dec) get(i, true);
  }
};

// The same calls over few and over many rows, groups, instructions or bytes: the work of each must stay what it was.
void scaling(H &h) {
  Gen &g = h.g;
  rt::Rng &r = g.r;
  Scn &s = h.s;
  gen::Cfg &c = g.c;
  c.pmist = c.pthrow = 0;
  c.arrays = false;
  c.sib = 0;
  s.retain = 0;
  s.recycle = true;
  auto nw = [&](int slot, int kind) { h.add(O_NEW, slot).n = kind; };
  auto dec = [&](int slot, const Bytes &code, int sz) {
    Op &o = h.add(O_DEC, slot);
    o.code = code;
    o.sz = sz;
  };
  int kind = (int)r.below(10);
  if (kind < 5) {
    // groups: the keys differ in one column
    int n = 1 + (int)r.below(4);
    std::vector<Ty> cols = g.columns(n);
    int at = (int)r.below(n);
    static const Ty kt[] = {TI, TL, TS};
    cols[at] = kt[r.below(3)];
    Bytes code;
    auto var = [](int i, Ty t) { return Bytes(1, (char)(0x30 | t)) + (char)i; };
    if (r.chance(0.3)) {
      code += '\x72';
      for (int i = 0; i < n; i++) code += var(i, cols[i]);
      code += '\0';
    }
    if (r.chance(0.3)) code += Bytes("\x71\x13\x00", 3);
    std::vector<int> keys{at};
    for (int i = 0; i < n; i++) if (i != at && r.chance(0.4)) keys.push_back(i);
    for (size_t i = keys.size(); i > 1; i--) std::swap(keys[i - 1], keys[r.below(i)]);
    code += "\x73\x61";
    code += g.varint(keys.size());
    for (int k : keys) code += g.varint((uint64_t)k);
    int na = 1 + (int)r.below(3);
    code += g.varint((uint64_t)na);
    for (int i = 0; i < na; i++) {
      int col = (int)r.below(n);
      Ty t = cols[col];
      int a = (int)r.below(5);
      if (a == 2 && (t == TS || t == TB)) a = 1;
      if (t == TB && a > 2) a = 1;
      if (a == 0) code += '\x10';
      else { code += (char)(a << 4 | t); code += g.varint((uint64_t)col); }
    }
    Row row = g.row(cols);
    row[at] = cols[at] == TS ? vs(r.chance(0.5) ? "k" : "a rather long key, number ") : cols[at] == TI ? vi((int32_t)r.below(1000000)) : vl((int64_t)r.below(1ull << 40));
    int small = 96 + (int)r.below(r.chance(0.2) ? 400 : 100);
    int big = r.chance(0.05) ? 30000 : small * 16;
    bool reuse = r.chance(0.5);
    auto puts = [&](int m, int sz) {
      Op &o = h.add(O_PUT, 0);
      o.row = row;
      o.n = m;
      o.share = at;
      o.sz = sz;
    };
    auto out = [&](int m, int sz) {
      Op &o = h.add(r.chance(0.7) || !sz ? O_DRN : O_GET, 0);
      o.n = m;
      o.sz = sz;
      return o.k;
    };
    auto again = [&](OpK k, int m, int sz) {
      Op &o = h.add(k, 0);
      o.n = m;
      o.sz = sz;
    };
    nw(0, 0);
    dec(0, code, 0);
    if (r.chance(0.3)) {
      // few, then many, then few again
      puts(small / 16, small / 16);
      OpK k = out(small / 16, 1);
      if (k == O_GET) again(O_DRN, 1, 0);
      puts(big, 0);
      if (r.chance(0.3)) dec(0, code, 0);
      else again(O_DRN, 1, 0);
      puts(small / 16, small / 16);
      again(k, small / 16, 1);
    } else {
      puts(small, small);
      OpK k = out(small, 1);
      if (k == O_GET) again(O_DRN, 1, 0);
      if (!reuse) {
        h.add(O_DEL, 0);
        nw(0, 0);
        dec(0, code, 0);
      }
      puts(big, big);
      again(k, big, 1);
    }
  } else if (kind < 7) {
    // many rows through filters, projections and one group
    int n = 1 + (int)r.below(4);
    gen::Plan p = g.plan(r.chance(0.5) ? g.shape(3, 0) : r.chance(0.5) ? g.shape(2, 0) + "U" : r.chance(0.5) ? "FG" : "G", g.columns(n));  // no computed keys: of NaN, each is a group of its own
    int m = 200 + (int)r.below(200);
    nw(0, 0);
    dec(0, p.code, 0);
    Row row = g.row(p.in);
    for (int i = 0; i < 2; i++) {
      Op &o = h.add(O_PUT, 0);
      o.row = row;
      o.n = o.sz = i ? m * 16 : m;
    }
  } else if (kind < 9) {
    // many instructions
    static const Ty ts[] = {TI, TL, TD, TF, TB, TS};
    Ty t = ts[r.below(5)];
    std::vector<Ty> cols{t};
    bool wide = r.chance(0.3);   // many results instead of one
    bool plan = r.chance(0.4);   // as a projection, or a chain of filters
    Bytes one = r.chance(0.5) ? Bytes(1, (char)(0x30 | t)) + '\0' : g.cnst(g.value(t));
    Bytes op;
    if (t == TB) op = Bytes(1, (char)(0x52 + r.below(2)));
    else if (!wide) { op = r.chance(0.5) ? '\xB1' : '\xB2'; op += (char)t; }
    auto code = [&](int k) {
      Bytes b = one;
      for (int i = 1; i < k; i++) b += wide ? one : one + op;
      return b;
    };
    int k = 40 + (int)r.below(60);
    int chain = plan ? (int)r.below(2) : 0;
    for (int i = 0; i < 2; i++) {
      int m = i ? k * 16 : k;
      Bytes b;
      if (chain) for (int j = 0; j < m; j++) b += Bytes("\x71\x13\x00", 3);
      else b = plan ? "\x72" + code(m) + '\0' : code(m);
      nw(i, plan ? 0 : 1);
      dec(i, b, m);
      for (int j = 0; j < 3; j++) {
        if (!plan) { Op &o = h.add(O_BND, i); o.row = Row{t == TB ? vb(true) : t == TS ? vs("x") : t == TI ? vi(0) : t == TL ? vl(0) : t == TF ? vf(0) : vd(0)}; }
        Op &o = h.add(plan ? O_PUT : O_RUN, i);
        o.sz = j == 1 ? m : 0;
        if (plan) {
          o.row = Row{t == TB ? vb(true) : t == TS ? vs("x") : t == TI ? vi(0) : t == TL ? vl(0) : t == TF ? vf(0) : vd(0)};
          o.n = 1;
        }
        if (!plan) { Op &x = h.add(O_XALL, i); x.sz = j == 1 ? m : 0; }
      }
    }
  } else {
    // long texts
    static const uint8_t fs[] = {0x22, 0x23, 0x26, 0x28, 0x2A, 0x21};
    uint8_t f = fs[r.below(6)];
    Bytes b = Bytes("\x37\x00", 2);
    int w = (int)r.below(3);
    if (w == 0) { b += Bytes("\x37\x00", 2); b += (char)(0x91 + r.below(6)); b += '\x07'; }
    else { if (f == 0x21) b += Bytes("\x37\x00", 2); b += '\xF1'; b += (char)f; }
    int L = 500 + (int)r.below(1500);
    int pat = (int)r.below(3);
    for (int i = 0; i < 2; i++) {
      int m = i ? L * 16 : L;
      nw(i, 1);
      dec(i, b, 0);
      Bytes x;
      for (int j = 0; j < m; j++) x += pat == 0 ? ' ' : pat == 1 ? "aBc d"[j % 5] : (char)(j < m / 3 || j > 2 * m / 3 ? ' ' : 'Q');
      Op &o = h.add(O_BND, i);
      o.row = Row{vs(x)};
      h.add(O_RUN, i).sz = m;
      h.add(O_XALL, i).sz = m;
    }
  }
}

}  // namespace

Scn generate(const std::string &profile, uint64_t seed) {
  H h(seed);
  rt::Rng &r = h.r();
  Scn &s = h.s;
  s.profile = profile;
  s.seed = seed;
  s.fill = (int)r.below(5);
  s.fseed = r.below(1000000);
  s.recycle = r.chance(0.5);
  s.retain = r.chance(0.3) ? (int)r.below(6) : 0;
  gen::Cfg &c = h.g.c;
  static const double nulls[] = {0, 0.05, 0.15, 0.4};
  c.pnull = nulls[r.below(4)];
  c.domain = (int)r.below(4);
  c.maxdepth = 1 + (int)r.below(3);
  c.longstr = r.chance(0.3);
  c.arrays = r.chance(0.15);
  c.sib = r.chance(0.5) ? 0.3 : 0;
  c.negz = r.chance(0.1);
  h.ncols = 2 + (int)r.below(5);
  h.slots = 1 + (int)r.below(3);
  int nops = 8 + (int)r.below(r.chance(0.2) ? 120 : 40);
  // now and then far more of something
  if (r.chance(0.03)) h.ncols = 8 + (int)r.below(12);
  if (r.chance(0.02)) { h.slots = 4 + (int)r.below(12); nops += 30; }
  if (r.chance(0.004)) nops = 400 + (int)r.below(1200);
  if (r.chance(0.01)) c.maxdepth = 5 + (int)r.below(3);
  if (r.chance(0.01)) h.wlen = 15 + (int)r.below(50);
  if (profile == "C01" || profile == "C02" || profile == "C03") c.odd = r.chance(0.08);
  if (profile == "C01") {
    h.pagg = r.chance(0.4) ? 0 : 0.3;
    c.rep = r.chance(0.3);
    if (r.chance(0.02)) h.prep = 0.1;
    h.maxlen = 2 + (int)r.below(5);
    if (r.chance(0.0008)) {
      h.wide = true;
      h.pagg = r.chance(0.6) ? 0.5 : 0;
      h.slots = 1;
      h.burst = 2;
      h.prep = h.w.dec = 0;
      h.maxlen = 2;
      c.longstr = false;
      s.retain = 0;
      nops = 6;
    }
    h.history(nops);
  } else if (profile == "C02") {
    h.shapemode = "agg";
    if (r.chance(0.6)) c.domain = (int)r.below(2);
    h.w.get = 14;
    if (r.chance(0.03)) h.prep = 0.1;
    if (r.chance(0.06)) { c.domain = 4; nops = r.chance(0.07) ? 4000 : 500; h.burst = 200; h.w.dec = 0; h.w.del = 0; h.slots = 1; c.arrays = false; }
    h.history(nops);
  } else if (profile == "C03") {
    h.shapemode = "drain";
    h.w.get = 12;
    if (r.chance(0.03)) h.prep = 0.1;
    h.w.drn = 18;
    h.burst = 10;
    h.w.put = 40;
    if (r.chance(0.05)) { c.domain = 4; nops = 300; h.burst = 100; h.slots = 1; }
    h.history(nops);
  } else if (profile == "C04") {
    h.noneok = true;
    h.pexpr = r.chance(0.3) ? 0.4 : 0;
    h.w.bad = 4;
    h.w.dec = 6;
    h.w.del = 5;
    h.w.run = h.pexpr > 0 ? 10 : 0;
    h.w.bnd = h.pexpr > 0 ? 4 : 0;
    h.w.ubt = 1;
    c.pthrow = r.chance(0.5) ? 0.3 : 0;
    c.pmist = r.chance(0.3) ? 0.15 : 0;
    c.odd = r.chance(0.2);
    h.pagg = 0.4;
    h.history(nops);
  } else if (profile == "C05") {
    h.pexpr = r.chance(0.4) ? 0.5 : 0;
    h.w.run = h.pexpr > 0 ? 10 : 0;
    h.pfault = 0.15;
    h.calm = true;
    h.burst = 4;
    c.pthrow = 0;
    c.fsum = true;
    h.w.drn = 12;
    if (r.chance(0.5)) h.shapemode = "drain";
    nops = 6 + (int)r.below(24);
    h.history(nops);
    for (auto &x : h.sl) (void)x;
    for (int i = 0; i < h.slots; i++) if (h.sl[i].kind == 0 && h.sl[i].dec) { double p = h.pfault; h.pfault = 0; h.get(i, true); h.pfault = p; }
  } else if (profile == "C06") {
    h.pexpr = r.chance(0.5) ? 1 : 0;
    h.slots = 1;
    c.pmist = 0;
    c.longstr = r.chance(0.5);
    int rounds = 1 + (int)r.below(6);
    if (r.chance(0.002)) {
      // a very long chain
      gen::Plan p = h.g.plan("P", h.g.columns(3));
      int n = 100 + (int)r.below(r.chance(0.3) ? 20000 : 2000);
      std::string tail = r.chance(0.5) ? h.g.plan("G", p.out).code : "";
      for (int i = 0; i < n; i++) p.code += std::string("\x71\x13\x00", 3);
      p.code += tail;
      h.lib.push_back(p);
    }
    h.nw(0);
    for (int k = 0; k < rounds; k++) {
      int bad = 1 + (int)r.below(5);
      for (int j = 0; j < bad; j++) h.dec(0, true);
      h.dec(0, false);
      if (h.sl[0].kind == 0) {
        h.put(0);
        h.get(0, true);
      } else {
        h.run(0);
      }
    }
  } else if (profile == "C07") {
    h.noneok = true;
    h.pexpr = r.chance(0.5) ? 0.6 : 0;
    h.w.dec = 22;
    h.w.bad = 5;
    h.w.put = 45;
    h.w.run = h.pexpr > 0 ? 15 : 0;
    h.w.bnd = h.pexpr > 0 ? 4 : 0;
    h.w.typ = h.pexpr > 0 ? 3 : 0;
    h.pagg = 0.45;
    h.burst = 4;
    c.pthrow = r.chance(0.4) ? 0.25 : 0;
    c.pmist = r.chance(0.2) ? 0.1 : 0;
    if (r.chance(0.3)) h.pfault = 0.06;
    h.history(nops);
  } else if (profile == "C08") {
    h.noneok = true;
    s.threads = 2 + (int)(r.chance(0.3));
    h.pexpr = r.chance(0.6) ? 0.5 : (r.chance(0.5) ? 1 : 0);
    h.w.run = 12;
    h.w.bnd = 4;
    h.w.dec = 8;
    h.w.bad = r.chance(0.4) ? 4 : 0;
    h.burst = 3;
    c.pthrow = r.chance(0.5) ? 0.25 : 0;
    c.pmist = r.chance(0.2) ? 0.1 : 0;
    int np = (int)r.below(4);
    for (int i = 0; i < np; i++) {
      s.pays.push_back(r.chance(0.5) ? std::string("shared payload number ") + std::to_string(i) + " long enough" : std::string(1, (char)('a' + i)));
    }
    h.g.pays = s.pays;
    c.npay = np;
    c.arrays = false;
    int nc = (int)r.below(4);
    for (int i = 0; i < nc; i++) {
      if (r.chance(h.pexpr)) {
        h.she.push_back(h.new_expr());
        h.shared_expr.push_back((int)s.codes.size());
        s.codes.push_back(h.she.back().first);
        h.tupcols.push_back(h.she.back().second);
        s.tups.push_back(h.g.row(h.she.back().second));
      } else {
        h.shp.push_back(h.new_plan());
        h.shared_plan.push_back((int)s.codes.size());
        s.codes.push_back(h.shp.back().code);
      }
    }
    // all threads draw from the same plans and expressions, so that the same library code runs on each of them
    for (int i = 0; i < 2; i++) {
      h.lib.push_back(h.new_plan());
      h.elib.push_back(h.new_expr());
    }
    int per = 3 + (int)r.below(12);
    // or they do the very same, step by step, or nothing but evaluate one or two expressions
    bool twins = r.chance(0.35), tight = r.chance(0.25), checks = false;
    if (tight) {
      h.pexpr = 1;
      h.slots = 1;
      h.psingle = 0.9;
      h.pnew = r.chance(0.5) ? 0.4 : 0.05;
      h.ncols = 1;
      c.domain = (int)r.below(4);
      c.odd = r.chance(0.4);
      c.longstr = r.chance(0.4);
      if (c.longstr) {
        c.domain = 2 + (int)r.below(2);
        c.plong = 0.7;
        c.npay = 0;
      }
      if (r.chance(0.4)) c.pthrow = 0.5;
      h.elib.clear();
      for (int i = r.chance(0.4); i < 2; i++) {
        auto e = h.new_expr();
        for (int k = 0; c.longstr && k < 20 && std::find(e.second.begin(), e.second.end(), TS) == e.second.end(); k++) e = h.new_expr();
        h.elib.push_back(e);
      }
      if (h.elib.size() == 2 && r.chance(0.4)) {
        checks = true;
        c.pnull = 0;
        c.domain = 3 + (int)r.below(2);
        // the same cast with and without checks
        for (int i = 0; i < 500; i++) {
          auto &e = h.elib[0];
          e = {Bytes(), {}};
          e.first = h.g.single(e.second);
          size_t n = e.first.size();
          uint8_t op = n > 1 ? e.first[n - 2] : 0;
          if ((op != 0xF0 && op != 0xFC) || (e.first[n - 1] & 0xF0) == TB << 4 || (e.first[n - 1] & 15) == TB) continue;
          h.elib[1] = e;
          h.elib[1].first[n - 2] = (char)(0xF0 ^ 0xFC ^ op);
          break;
        }
      }
      h.w = W();
      h.w.put = h.w.get = h.w.drn = h.w.nw = h.w.del = h.w.rel = h.w.dec = h.w.bad = h.w.typ = 0;
      h.w.run = 20;
      h.w.bnd = 10;
      if (r.chance(0.15)) h.w.bad = h.w.dec = 8;
      per = 10 + (int)r.below(40);
    }
    for (int t = 0; t < s.threads; t++) {
      h.tid = t;
      h.sl.assign(16, SlotG());
      if (t && twins) {
        for (size_t i = 0; i < s.ops.size() && s.ops[i].tid == 0; i++) {
          Op o = s.ops[i];
          o.tid = t;
          s.ops.push_back(o);
        }
        continue;
      }
      h.history(per);
    }
    s.sched.seed = r.next();
    s.sched.start = (int)r.below(s.threads);
    static const int maxes[] = {1, 2, 3, 5, 10, 40, 300};
    s.sched.max = maxes[r.below(7)];
    static const double ps[] = {0.0, 0.001, 0.01, 0.05, 0.3};
    static const double pa[] = {0.001, 0.01, 0.1, 0.3, 0.6};
    s.sched.p[rt::K_LOCAL] = r.chance(0.3) ? 0.001 : 0;
    s.sched.p[rt::K_SHARED] = ps[r.below(5)];
    s.sched.p[rt::K_ATOMIC] = pa[r.below(5)];
    s.sched.p[rt::K_ALLOC] = ps[r.below(4)];
    static const double pw[] = {0.02, 0.1, 0.4, 0.7};
    s.sched.p[rt::K_STATIC] = pw[r.below(4)];
    if (checks) {
      s.sched.max = 300;
      s.sched.p[rt::K_ATOMIC] = pa[2 + r.below(3)];
    }
    s.sched.p[rt::K_OP] = r.chance(0.5) ? 0.3 : 0;
  } else if (profile == "C10") {
    h.pexpr = r.chance(0.7) ? 0.5 : 0;
    h.w.run = 12;
    h.w.bnd = 4;
    h.w.ubt = 1;
    h.w.dec = 6;
    h.w.del = 4;
    h.burst = 4;
    s.retain = 4 + (int)r.below(40);
    c.pthrow = r.chance(0.2) ? 0.2 : 0;
    int np = 1 + (int)r.below(4);
    for (int i = 0; i < np; i++) s.pays.push_back(r.chance(0.5) ? "  Payload Of The Caller " + std::to_string(i) + "  " : h.g.value(TS).s);
    h.g.pays = s.pays;
    c.npay = np;
    nops = 8 + (int)r.below(30);
    h.history(nops);
  } else if (profile == "C11") {
    h.pexpr = r.chance(0.4) ? 0.6 : 0;
    h.w.run = h.pexpr > 0 ? 20 : 0;
    h.w.drn = 10;
    h.calm = true;
    c.pthrow = r.chance(0.8) ? 0.6 : 0;
    c.pmist = r.chance(0.6) ? 0.2 : 0;
    if (c.pthrow == 0 && c.pmist == 0) c.pthrow = 0.7;
    if (r.chance(0.25)) { s.blindmode = true; c.odd = true; c.domain = 3 + (int)r.below(2); }
    h.pagg = 0.45;
    h.shapemode = r.chance(0.25) ? "drain" : r.chance(0.8) ? "err" : "any";
    h.history(nops);
  } else if (profile == "C12") {
    h.noneok = true;
    h.pexpr = 1;
    h.w.put = 0;
    h.w.run = 60;
    h.w.bnd = 15;
    h.w.dec = 8;
    h.w.bad = 3;
    h.w.typ = 5;
    h.w.ubt = 0;
    c.pthrow = r.chance(0.6) ? 0.25 : 0;
    c.pmist = r.chance(0.3) ? 0.12 : 0;
    c.odd = r.chance(0.2);
    if (r.chance(0.2)) h.pfault = 0.05;
    if (r.chance(0.3)) {
      // strings which share their payload; the reference has them apart
      int np = 1 + (int)r.below(2);
      for (int i = 0; i < np; i++) s.pays.push_back(h.g.value(TS).s);
      h.g.pays = s.pays;
      c.npay = np;
    }
    if (r.chance(0.4)) s.env = 1 + (int)r.below(15);
    h.history(nops);
  } else if (profile == "C15" && r.chance(0.4)) {
    scaling(h);
  } else if (profile == "C13" || profile == "C15") {
    h.noneok = true;
    s.retain = 0;
    h.pexpr = r.chance(0.3) ? 0.5 : 0;
    h.w.run = h.pexpr > 0 ? 15 : 0;
    h.w.bnd = h.pexpr > 0 ? 3 : 0;
    h.w.bad = r.chance(0.4) ? 3 : 0;
    h.w.dec = r.chance(0.3) ? 4 : 0;
    h.w.del = r.chance(0.2) ? 2 : 0;
    h.w.rel = 0;
    h.going = r.chance(0.8);
    h.burst = 1 + (int)r.below(5);
    h.slots = 1 + (int)r.below(2);
    h.pagg = r.chance(0.5) ? 0.5 : 0.2;
    c.pthrow = r.chance(0.4) ? 0.3 : 0;
    c.pmist = r.chance(0.2) ? 0.1 : 0;
    c.longstr = r.chance(0.1);
    if (r.chance(profile == "C15" ? 0.1 : 0.3)) h.pfault = 0.06;
    for (int i = 0; i < h.slots; i++) { h.nw(i); h.dec(i, false); }
    for (auto &o : s.ops) o.fm = 0;
    s.cyc = (int)s.ops.size();
    s.cycles = 160;
    if (r.chance(0.01)) s.cycles = 1600 << r.below(3);  // far more of a shorter cycle
    h.history(s.cycles > 160 ? 2 + (int)r.below(6) : 4 + (int)r.below(r.chance(0.2) ? 40 : 16));
    if (s.cycles > 160) for (auto &o : s.ops) if (o.k == O_PUT) o.n = 0;
    for (int i = 0; i < h.slots; i++) {
      if (h.sl[i].kind < 0) { h.nw(i); h.dec(i, false); s.ops.back().fm = 0; }
      if (h.sl[i].kind == 0 && h.sl[i].dec) { h.get(i, true); s.ops.back().fm = 0; }
    }
    s.vary = profile == "C13" && r.chance(0.5);
  } else if (profile == "C16") {
    h.parts = c.rep = true;
    if (r.chance(0.05)) h.wlen = 15 + (int)r.below(50);
    h.pexpr = 0;
    h.w.dec = 8;
    h.w.bad = r.chance(0.3) ? 2 : 0;
    h.w.get = 14;
    h.w.drn = 10;
    h.maxlen = 3 + (int)r.below(5);
    h.pagg = r.chance(0.3) ? 0.1 : 0.4;
    if (r.chance(0.2)) h.shapemode = r.chance(0.5) ? "drain" : "err";
    h.burst = 3 + (int)r.below(10);
    c.pthrow = r.chance(0.4) ? 0.25 : 0;
    if (c.pthrow && r.chance(0.2)) c.pthrow = 0.6;
    c.pmist = r.chance(0.25) ? 0.12 : 0;
    c.odd = r.chance(0.15);
    if (r.chance(0.04)) { c.domain = 4; h.burst = 100; nops = 300; h.slots = 1; }
    s.cut = r.chance(0.5) ? 0xFFFF : (int)(r.below(0xFFFF) + 1);
    s.lose = r.chance(0.5) ? 0 : r.chance(0.7) ? 30 : 300;
    h.history(nops);
  } else if (profile == "C14") {
    h.noneok = true;
    s.relay = true;
    s.threads = 4;
    h.pexpr = r.chance(0.5) ? 0.5 : 0;
    h.w.run = h.pexpr > 0 ? 15 : 0;
    h.w.bnd = h.pexpr > 0 ? 4 : 0;
    h.w.typ = h.pexpr > 0 ? 2 : 0;
    h.w.dec = 10;
    h.w.bad = 2;
    h.w.get = 12;
    h.pagg = 0.45;
    h.burst = 4;
    s.retain = r.chance(0.5) ? 0 : (int)r.below(8);
    c.pthrow = r.chance(0.4) ? 0.25 : 0;
    c.pmist = r.chance(0.2) ? 0.1 : 0;
    if (r.chance(0.2)) h.pfault = 0.05;
    nops = 6 + (int)r.below(30);
    h.history(nops);
    double stay = r.chance(0.5) ? 0.5 : 0.9;
    int at = 0, most = r.chance(0.3) ? 2 : 4;
    for (auto &o : s.ops) {
      if (!r.chance(stay)) at = (int)r.below(most);
      o.tid = at;
    }
  }
  if ((profile == "C04" || profile == "C05" || profile == "C08" || profile == "C10" || profile == "C12" || profile == "C14") && r.chance(profile == "C10" ? 0.25 : 0.1)) s.adapt = true;
  return s;
}

Xf reference_of(const Scn &s, const rt::Shared &res) {
  Xf x;
  x.scn = s;
  x.scn.ops.clear();
  x.scn.threads = 1;
  const std::string &p = s.profile;
  auto push = [&](Op o, int from) {
    o.tid = 0;
    if (p != "C08" && p != "C14") o.rep = 1;
    x.scn.ops.push_back(o);
    x.from.push_back(from);
  };
  auto aux = [&](OpK k, int r, int n) {
    Op o;
    o.k = k;
    o.r = r;
    o.n = n;
    push(o, -1);
  };
  if (p == "C16") {
    x.scn.split = true;
    for (size_t i = 0; i < s.ops.size(); i++) push(s.ops[i], (int)i);
    return x;
  }
  if (p == "C14") {
    x.scn.relay = false;
    x.scn.threads = 1;
    for (size_t i = 0; i < s.ops.size(); i++) push(s.ops[i], (int)i);
    return x;
  }
  if (p == "C12") x.scn.env = 0;
  if (p == "C08") {
    x.scn.sched = Sched();
    for (int t = 0; t < s.threads; t++) {
      if (t) for (int r = 0; r < 16; r++) aux(O_DEL, r, 0);
      for (size_t i = 0; i < s.ops.size(); i++) if (s.ops[i].tid == t) push(s.ops[i], (int)i);
    }
    return x;
  }
  if (p == "C07") {
    std::vector<int> kind(16, -1);
    for (size_t i = 0; i < s.ops.size(); i++) {
      Op o = s.ops[i];
      int th = (int)i < rt::MAXOPS ? res.threw[i] : 0;
      if (o.k == O_NEW && th != 2 && kind[o.r & 15] < 0) kind[o.r & 15] = o.n;
      if (o.k == O_DEL) kind[o.r & 15] = -1;
      if (o.k == O_DEC && th != 2) {
        if (th == 1) {
          // a rejected or failed Decode: what matters is that nothing of it shows later
          aux(O_DEL, o.r, 0);
          aux(O_NEW, o.r, kind[o.r & 15]);
          continue;
        }
        aux(O_DEL, o.r, 0);
        aux(O_NEW, o.r, kind[o.r & 15]);
        o.fm = 0;
      }
      if (o.fm && th == 1) { continue; }  // an injected failure; left out
      o.fm = 0;
      push(o, (int)i);
    }
    return x;
  }
  if (p == "C12") {
    struct St { int kind = -1, dec = -1, bnd = -1; };
    std::vector<St> st(16);
    for (size_t i = 0; i < s.ops.size(); i++) {
      Op o = s.ops[i];
      St &q = st[o.r & 15];
      int th = (int)i < rt::MAXOPS ? res.threw[i] : 0;
      if (th == 2) continue;
      for (auto &v : o.row) v.pay = -1;
      if (o.k == O_NEW && q.kind < 0) q.kind = o.n;
      if (o.k == O_DEL) q = St();
      if (o.k == O_DEC) { q.dec = th == 1 ? -1 : (int)i; q.bnd = -1; }
      if (o.k == O_BND || o.k == O_BSH) q.bnd = (int)i;
      if (o.k == O_UBT) q.bnd = o.n ? (int)i : -1;
      if (o.fm && th == 1) continue;
      o.fm = 0;
      if (o.k == O_RUN && q.kind == 1 && q.dec >= 0) {
        aux(O_DEL, o.r, 0);
        aux(O_NEW, o.r, 1);
        Op d = s.ops[q.dec];
        d.fm = 0;
        push(d, -1);
        if (q.bnd >= 0) {
          Op b = s.ops[q.bnd];
          for (auto &v : b.row) v.pay = -1;
          push(b, -1);
        }
      }
      push(o, (int)i);
    }
    return x;
  }
  // C05, C06, C11: leave out what failed
  for (size_t i = 0; i < s.ops.size(); i++) {
    Op o = s.ops[i];
    int th = (int)i < rt::MAXOPS ? res.threw[i] : 0;
    if (p == "C05") {
      if (o.fm && th == 1 && o.k != O_NEW) continue;
      o.fm = 0;
    } else if (th == 1) continue;
    push(o, (int)i);
  }
  return x;
}
