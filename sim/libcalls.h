// The only calls into the library; compiled with the same instrumentation as the library itself.
#pragma once
#include <any>
#include <cstddef>
#include <cstdint>

#include "expr/operand.h"

struct Fault {
  int mode = 0;
  long k = 0;
  int fired = 0;  // out
};
// 0: returned, 1: std::bad_alloc, 2: another exception derived from std::exception, 3: anything else
namespace lc {
extern bool watch;           // whether calls leave the process as it was; see changed
extern const char *changed;  // what a call changed
extern int env;  // see Scn::env
using dingodb::expr::Operand;
using dingodb::expr::Tuple;
int rel_new(void **r, Fault *f);
int rel_del(void *r);
int rel_dec(void *r, const unsigned char *c, size_t n, const unsigned char **end, Fault *f);
int rel_put(void *r, const Tuple *t, const Tuple **out, Fault *f);
int rel_get(void *r, const Tuple **out, Fault *f);
int ex_new(void **r, Fault *f);
int ex_del(void *r);
int ex_dec(void *r, const unsigned char *c, size_t n, const unsigned char **end, Fault *f);
int ex_bind(void *r, const Tuple *t);
int ex_run(void *r, Fault *f);
int ex_get(void *r, Operand *out, Fault *f);
int ex_all(void *r, Tuple **out, Fault *f);
int ex_opt(void *r, int type, Operand *out, Fault *f);
int ex_type(void *r, int *type);
// values to and from the form in which other parts of a process keep them
int ad_to(const std::any &v, int type, Operand *out);
int ad_from(const Operand &v, int type, std::any *out);
}  // namespace lc
