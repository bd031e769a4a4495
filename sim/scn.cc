#include "scn.h"

#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include <sstream>

const char *const OPNAME[NOPK] = {"new", "dec", "put", "get", "drn", "del", "bnd", "bsh", "ubt", "run", "xget", "xall", "xopt", "xtyp", "rel", "chk"};

static std::string fmt(double d) {
  char b[64];
  snprintf(b, sizeof b, "%a", d);
  return b;
}

std::string scn_text(const Scn &s) {
  std::ostringstream o;
  o << "scenario 1\nprofile " << s.profile << "\nseed " << s.seed << "\nfill " << s.fill << ' ' << s.fseed << ' ' << (int)s.recycle << "\nretain "
    << s.retain << "\nthreads " << s.threads << "\nblind " << (int)s.blindmode << "\n";
  if (s.relay) o << "relay 1\n";
  if (s.cycles) o << "cycles " << s.cycles << ' ' << s.cyc << ' ' << (int)s.vary << "\n";
  if (s.adapt) o << "adapt 1\n";
  if (s.cut) o << "cut " << s.cut << ' ' << s.lose << "\n";
  if (s.env) o << "env " << s.env << "\n";
  if (s.sched.list) {
    o << "sched list " << s.sched.start << "\n";
    for (const auto &w : s.sched.sw) o << "sw " << w.step << ' ' << w.to << ' ' << w.kind << "\n";
  } else {
    o << "sched rnd " << s.sched.seed << ' ' << s.sched.max << ' ' << s.sched.start;
    for (double p : s.sched.p) o << ' ' << fmt(p);
    o << "\n";
  }
  for (const auto &p : s.pays) o << "pay ." << model::hex(p) << "\n";
  for (const auto &c : s.codes) o << "code ." << model::hex(c) << "\n";
  for (const auto &t : s.tups) o << "tup " << model::text(t) << "\n";
  for (const auto &p : s.ops) {
    o << "op " << p.tid << ' ' << OPNAME[p.k] << ' ' << p.r;
    if (p.fm) o << " !" << p.fm << ':' << p.fk << '@' << p.fj;
    if (p.rep > 1) o << " x" << p.rep;
    if (p.sz) o << " ~" << p.sz;
    switch (p.k) {
    case O_NEW: o << (p.n ? " E" : " R"); break;
    case O_DEC:
      if (p.share >= 0) o << " @" << p.share;
      else o << " ." << model::hex(p.code);
      break;
    case O_PUT: case O_BND:
      if (p.k == O_BND && p.n) o << " =" << p.n;
      if (p.k == O_PUT && p.n > 1) o << " *" << p.n << ':' << p.share;
      o << ' ' << model::text(p.row);
      break;
    case O_GET: case O_BSH: o << ' ' << p.n; break;
    case O_UBT: if (p.n) o << ' ' << p.n; break;
    default: break;
    }
    o << "\n";
  }
  return o.str();
}

bool scn_parse(const std::string &t, Scn &s) {
  s = Scn();
  std::istringstream in(t);
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream l(line);
    std::string w;
    if (!(l >> w) || w[0] == '#') continue;
    if (w == "scenario") continue;
    if (w == "profile") l >> s.profile;
    else if (w == "seed") l >> s.seed;
    else if (w == "fill") { int r; l >> s.fill >> s.fseed >> r; s.recycle = r; }
    else if (w == "retain") l >> s.retain;
    else if (w == "threads") l >> s.threads;
    else if (w == "relay") { int b; l >> b; s.relay = b; }
    else if (w == "cycles") { int b; l >> s.cycles >> s.cyc >> b; s.vary = b; }
    else if (w == "adapt") { int b; l >> b; s.adapt = b; }
    else if (w == "env") l >> s.env;
    else if (w == "cut") l >> s.cut >> s.lose;
    else if (w == "blind") { int b; l >> b; s.blindmode = b; }
    else if (w == "sched") {
      std::string k;
      l >> k;
      s.sched.list = k == "list";
      if (s.sched.list) {
        l >> s.sched.start;
      } else {
        l >> s.sched.seed >> s.sched.max >> s.sched.start;
        std::string e;
        for (int i = 0; i < rt::NKIND && (l >> e); i++) s.sched.p[i] = strtod(e.c_str(), nullptr);
      }
    } else if (w == "sw") {
      rt::Switch x{};
      if (!(l >> x.step >> x.to >> x.kind)) return false;
      s.sched.sw.push_back(x);
    } else if (w == "pay" || w == "code") {
      std::string h;
      model::Bytes b;
      if (!(l >> h) || h[0] != '.' || !model::unhex(h.substr(1), b)) return false;
      (w == "pay" ? s.pays : s.codes).push_back(b);
    } else if (w == "tup") {
      model::Row r;
      std::string e;
      while (l >> e) {
        if (e == "-") break;
        model::Val v;
        if (!model::parse(e, v)) return false;
        r.push_back(v);
      }
      s.tups.push_back(r);
    } else if (w == "op") {
      Op p;
      std::string k, e;
      l >> p.tid >> k >> p.r;
      int i = 0;
      while (i < NOPK && k != OPNAME[i]) i++;
      if (i == NOPK || p.tid < 0 || p.tid >= rt::MAXT) return false;
      p.k = (OpK)i;
      while (l >> e) {
        if (e[0] == '!') {
          if (sscanf(e.c_str(), "!%d:%ld@%d", &p.fm, &p.fk, &p.fj) < 2) return false;
          continue;
        }
        if (e[0] == '~') {
          p.sz = atoi(e.c_str() + 1);
          continue;
        }
        if (e[0] == 'x') {
          p.rep = atoi(e.c_str() + 1);
          continue;
        }
        switch (p.k) {
        case O_NEW: p.n = e == "E"; break;
        case O_DEC:
          if (e[0] == '@') p.share = atoi(e.c_str() + 1);
          else if (e[0] != '.' || !model::unhex(e.substr(1), p.code)) return false;
          break;
        case O_PUT: case O_BND:
          if (e[0] == '=') {
            p.n = atoi(e.c_str() + 1);
          } else if (e[0] == '*') {
            if (sscanf(e.c_str(), "*%d:%d", &p.n, &p.share) != 2) return false;
          } else if (e != "-") {
            model::Val v;
            if (!model::parse(e, v)) return false;
            p.row.push_back(v);
          }
          break;
        case O_GET: case O_BSH: case O_UBT: p.n = atoi(e.c_str()); break;
        default: return false;
        }
      }
      s.ops.push_back(p);
    } else return false;
  }
  return true;
}
