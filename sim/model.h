// Reference model: values, decoder, expression evaluation and the pipeline, written from the documentation (README)
// and independent of the library's sources.
#pragma once
#include <cstdint>
#include <map>
#include <string>
#include <vector>

namespace model {

enum Ty : uint8_t { TN = 0, TI = 1, TL = 2, TB = 3, TF = 4, TD = 5, TDEC = 6, TS = 7, TA = 8 };

struct Val {
  Ty t = TN;
  bool taint = false;     // value not specified (type and NULL-ness are)
  bool nz = false;        // a zero whose sign is not specified
  bool mistyped = false;  // came from a column of another type than declared
  int16_t pay = -1;       // string payload shared with the caller (index), inputs only
  int64_t i = 0;          // I, L, B
  double d = 0;           // F (as float), D
  std::string s;          // S, A (text)
};
using Row = std::vector<Val>;
using Bytes = std::string;

Val vi(int32_t v);
Val vl(int64_t v);
Val vb(bool v);
Val vf(float v);
Val vd(double v);
Val vs(const std::string &s);
Val vn();
bool same(const Val &a, const Val &b);
bool same(const Row &a, const Row &b);
uint64_t hash(const Val &v);
uint64_t hash(const Row &r);
std::string text(const Val &v);
std::string text(const Row &r);  // space separated; "-" for no columns
bool parse(const std::string &s, Val &v);
std::string hex(const Bytes &b);
bool unhex(const std::string &s, Bytes &b);

// ---- encodings
struct Ins {
  uint8_t op = 0;
  uint8_t arg = 0;
  Val imm;
  int32_t idx = 0;
  size_t at = 0;  // where it begins in the code
};
using Prog = std::vector<Ins>;
struct AggSpec {
  uint8_t code = 0;  // 0x10 .. 0x47
  int32_t idx = 0;
};
enum StageKind { SF, SP, SG, SU };
struct Stage {
  StageKind kind = SF;
  Prog prog;
  std::vector<int32_t> keys;
  std::vector<AggSpec> aggs;
};
using Plan = std::vector<Stage>;

enum Dec { D_OK, D_BAD, D_LENIENT };
struct DecRes {
  Dec st = D_OK;
  size_t used = 0;
  const char *why = "";
};
DecRes decode_expr(const Bytes &b, Prog &p);
DecRes decode_plan(const Bytes &b, Plan &p);
// positions between the elements of an intact encoding (used by the fault generator)
std::vector<size_t> element_cuts(const Bytes &b, bool plan);

// ---- evaluation
enum Ev { E_OK, E_THROW, E_PRE, E_TAINT };
Ev eval(const Prog &p, const Row *bound, Row &stack);
// stack depth needed and column bounds, independent of values; -1 when ill-formed for this width
int static_depth(const Prog &p, int width, bool bound);
bool static_ok(const Plan &p, int width);
// the code of each of the values an expression leaves, in order
std::vector<Bytes> pieces(const Prog &p, const Bytes &code, size_t used);

struct Group {
  Row key;
  Row acc;
};
using Groups = std::map<std::string, Group>;

enum Out { O_ROW, O_NONE, O_THROW, O_TAINT, O_PRE };

// Model of one plan runner.
class Pipe {
 public:
  void reset(const Plan &p);
  bool has_agg() const {
    return m_last >= 0;
  }
  // what Put would do; no effect
  Out peek(const Row &in, Row &out) const;
  // apply a Put that was carried out (only after peek gave ROW or NONE, or TAINT: then blind)
  void apply(const Row &in);
  void set_blind() {
    m_blind = true;
  }
  bool blind() const {
    return m_blind;
  }
  // sums of floating-point numbers over groups, whose order is not specified
  bool late_floats() const {
    return m_floatsum_late;
  }
  bool draining() const {
    return m_draining;
  }
  // a Get was carried out. Returns nullptr when it agrees with the model
  const char *got_row(const Row &r);
  const char *got_end();
  const char *got_throw();
  // a Get failed because of an injected fault: at most one row in flight may have been lost
  void got_fault();
  bool lossy() const {
    return m_lossy;
  }
  size_t lossless_ops() const;  // single aggregate as last operator: nothing is ever in flight
  size_t pending_bound() const;  // upper bound of Gets until the end
  size_t groups_seen = 0;
  size_t ambiguous = 0;

 private:
  Plan m_plan;
  int m_last = -1;  // last aggregate
  bool m_blind = false;
  bool m_floatsum_late = false;
  std::vector<Groups> m_st;
  // drain in progress
  bool m_draining = false;
  bool m_lossy = false;
  int m_nlost = 0;
  size_t m_throws = 0;      // failing rows on the way to the last aggregate
  size_t m_flowthrows = 0;  // of them, found at the start of the drain
  struct Cls {
    std::vector<std::string> keys;
    size_t left = 0;
    Row out;
  };
  std::map<std::string, Cls> m_cls;
  std::map<std::string, int> m_amb;
  // lossy mode: what has been observed
  std::vector<std::string> m_obs;
  size_t m_obs_throws = 0;
  std::vector<Groups> m_start;  // groups when the drain began

  Out chain(size_t from, const Row &in, Row &out, std::vector<Groups> *st, bool *hit_amb) const;
  static Out absorb(const Stage &s, const Row &in, Groups &g, bool doit, const std::map<std::string, int> *amb, bool *hit_amb);
  void start_drain();
  void settle();  // a Put follows a partial drain
  void finish();
  bool flow(std::vector<Groups> &st, size_t &throws, int skip, bool *amb, int *count) const;
  bool classify(const std::vector<Groups> &st, std::map<std::string, Cls> &cls) const;
  const char *judge_lossy(bool end);
};

}  // namespace model
