#include "libcalls.h"

#include <errno.h>
#include <fenv.h>
#include <locale.h>
#include <signal.h>
#include <string.h>

#include <algorithm>
#include <exception>
#include <locale>
#include <new>
#include <optional>
#include <string>

#include "expr/runner.h"
#include "rel/rel_runner.h"
#include "rt.h"

using dingodb::expr::Runner;
using dingodb::expr::String;
using dingodb::rel::RelRunner;

namespace lc {

int env = 0;
bool watch = false;
const char *changed = nullptr;

namespace {
// what the library shares with the rest of the process: how it rounds and traps, its locales and its handlers
struct Process {
  int round;
  unsigned sse;
  unsigned short x87;
  std::string c;
  std::locale cpp;
  std::terminate_handler term;
  std::new_handler nomem;
  void (*sig[4])(int);
  Process() : round(fegetround()), sse(__builtin_ia32_stmxcsr() & 0xFFC0), c(setlocale(LC_ALL, nullptr)), term(std::get_terminate()), nomem(std::get_new_handler()) {
    asm volatile("fnstcw %0" : "=m"(x87));
    static const int sigs[] = {SIGFPE, SIGSEGV, SIGABRT, SIGPIPE};
    for (int i = 0; i < 4; i++) {
      struct sigaction a;
      sigaction(sigs[i], nullptr, &a);
      sig[i] = a.sa_handler;
    }
  }
  const char *differs(const Process &o) const {
    if (round != o.round) return "the rounding mode";
    if (sse != o.sse || x87 != o.x87) return "the control word of the floating-point unit";
    if (c != o.c) return "the locale of the C library";
    if (!(cpp == o.cpp)) return "the global C++ locale";
    if (term != o.term || nomem != o.nomem) return "the handlers of the C++ runtime";
    if (memcmp(sig, o.sig, sizeof sig)) return "the handler of a signal";
    return nullptr;
  }
};
}  // namespace

// the environment of the process as another part of it may have left it
struct Env {
  std::locale before;
  std::optional<Process> was;
  Env() {
    if (env) set();
    if (watch) was.emplace();
  }
  void set() {
    rt::ctr(rt::C_ENV);
    if (env & 1) {
      struct Punct : std::numpunct<char> {
        char do_decimal_point() const override { return ','; }
        char do_thousands_sep() const override { return '.'; }
        std::string do_grouping() const override { return "\3"; }
        std::string do_truename() const override { return "wahr"; }
        std::string do_falsename() const override { return "falsch"; }
      };
      // letters and blanks of another alphabet
      struct Ctype : std::ctype<char> {
        static const mask *classes() {
          static mask t[table_size];
          std::copy(classic_table(), classic_table() + table_size, t);
          t[0xA0] |= space;
          t[(int)'\t'] = cntrl;
          t[(int)'x'] = punct;
          return t;
        }
        Ctype() : std::ctype<char>(classes()) {
        }
        char do_toupper(char c) const override { return c == 'i' ? '!' : c == 'x' ? c : std::ctype<char>::do_toupper(c); }
        char do_tolower(char c) const override { return c == 'I' ? '!' : std::ctype<char>::do_tolower(c); }
        const char *do_toupper(char *b, const char *e) const override { for (; b < e; b++) *b = do_toupper(*b); return e; }
        const char *do_tolower(char *b, const char *e) const override { for (; b < e; b++) *b = do_tolower(*b); return e; }
      };
      static const std::locale other(std::locale(std::locale::classic(), new Punct()), new Ctype());
      before = std::locale::global(other);
    }
    if (env & 4) feraiseexcept(FE_ALL_EXCEPT);
    if (env & 2) errno = ERANGE;
  }
  ~Env() {
    if (was && !changed) changed = was->differs(Process());
    if (env & 1) std::locale::global(before);
  }
};

struct Scope {
  Fault *f;
  Env e;
  rt::Lib lib;
  explicit Scope(Fault *f) : f(f) {
    rt::T.fault_fired = 0;
    rt::T.fault_mode = f ? f->mode : 0;
    rt::T.fault_k = f ? f->k : 0;
    if (f && f->mode) rt::ctr(rt::C_FAULT_ARMED);
  }
  void off() {
    rt::T.fault_mode = 0;
    if (f) f->fired = rt::T.fault_fired;
  }
  ~Scope() {
    off();
  }
};

#define GUARD(body) \
  Scope scope(f); \
  try { \
    body; \
  } catch (const std::bad_alloc &) { \
    scope.off(); \
    return 1; \
  } catch (const std::exception &) { \
    scope.off(); \
    return 2; \
  } catch (...) { \
    scope.off(); \
    return 3; \
  } \
  return 0;

int rel_new(void **r, Fault *f) { GUARD(*r = new RelRunner()) }
int rel_del(void *r) { Fault *f = nullptr; GUARD(delete (RelRunner *)r) }
int rel_dec(void *r, const unsigned char *c, size_t n, const unsigned char **end, Fault *f) { GUARD(*end = ((RelRunner *)r)->Decode(c, n)) }
int rel_put(void *r, const Tuple *t, const Tuple **out, Fault *f) { GUARD(*out = ((RelRunner *)r)->Put(t)) }
int rel_get(void *r, const Tuple **out, Fault *f) { GUARD(*out = ((RelRunner *)r)->Get()) }
int ex_new(void **r, Fault *f) { GUARD(*r = new Runner()) }
int ex_del(void *r) { Fault *f = nullptr; GUARD(delete (Runner *)r) }
int ex_dec(void *r, const unsigned char *c, size_t n, const unsigned char **end, Fault *f) { GUARD(*end = ((Runner *)r)->Decode(c, n)) }
int ex_bind(void *r, const Tuple *t) { Fault *f = nullptr; GUARD(((Runner *)r)->BindTuple(t)) }
int ex_run(void *r, Fault *f) { GUARD(((Runner *)r)->Run()) }
int ex_get(void *r, Operand *out, Fault *f) { GUARD(*out = ((Runner *)r)->Get()) }
int ex_all(void *r, Tuple **out, Fault *f) { GUARD(*out = ((Runner *)r)->GetAll()) }
template <typename T>
static void opt(Runner *r, Operand *out) {
  auto v = r->GetOptional<T>();
  if (v.has_value()) *out = Operand(*v);
  else *out = Operand(nullptr);
}
int ex_opt(void *r, int type, Operand *out, Fault *f) {
  GUARD(switch (type) {
    case 1: opt<int32_t>((Runner *)r, out); break;
    case 2: opt<int64_t>((Runner *)r, out); break;
    case 3: opt<bool>((Runner *)r, out); break;
    case 4: opt<float>((Runner *)r, out); break;
    case 5: opt<double>((Runner *)r, out); break;
    default: opt<String>((Runner *)r, out); break;
  })
}
int ex_type(void *r, int *type) { Fault *f = nullptr; GUARD(*type = ((Runner *)r)->GetType()) }
namespace ada = dingodb::expr::any_optional_data_adaptor;
int ad_to(const std::any &v, int type, Operand *out) {
  Fault *f = nullptr;
  GUARD(switch (type) {
    case 1: *out = ada::ToOperand<int32_t>(v); break;
    case 2: *out = ada::ToOperand<int64_t>(v); break;
    case 3: *out = ada::ToOperand<bool>(v); break;
    case 4: *out = ada::ToOperand<float>(v); break;
    case 5: *out = ada::ToOperand<double>(v); break;
    default: *out = ada::ToOperand<String::ValueType>(v); break;
  })
}
int ad_from(const Operand &v, int type, std::any *out) {
  Fault *f = nullptr;
  GUARD(switch (type) {
    case 1: *out = ada::FromOperand<int32_t>(v); break;
    case 2: *out = ada::FromOperand<int64_t>(v); break;
    case 3: *out = ada::FromOperand<bool>(v); break;
    case 4: *out = ada::FromOperand<float>(v); break;
    case 5: *out = ada::FromOperand<double>(v); break;
    default: *out = ada::FromOperand<String::ValueType>(v); break;
  })
}

}  // namespace lc
