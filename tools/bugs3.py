BUGS = []
def bug(**k): BUGS.append(k)
import os
_s = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs2.py')).read()
FAULT = _s[_s.index("FAULT = '''") + 11:]
FAULT = FAULT[:FAULT.index("'''")]
# bytes in use, counted by operator new
COUNTED = '''#include <malloc.h>
#include <new>
static long live = 0;
void *operator new(size_t n) {
  void *p = malloc(n);
  if (!p) abort();
  live += malloc_usable_size(p);
  return p;
}
void operator delete(void *p) noexcept { if (p) live -= malloc_usable_size(p); free(p); }
void operator delete(void *p, size_t) noexcept { if (p) live -= malloc_usable_size(p); free(p); }
void *operator new[](size_t n) { return operator new(n); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }
'''
# ---------------------------------------------------------------- C13
bug(id='c13-retired', property='C13', needs='one runner which is given many plans, and a look at the memory in use',
    what='the operators of earlier plans are released only with the runner',
    edits=[('src/rel/rel_runner.h', '''    delete m_op;
    m_op = nullptr;
''', '''    if (m_op != nullptr) {
      // Rows handed out may still refer to the operators.
      m_retired.emplace_back(m_op);
    }
    m_op = nullptr;
'''), ('src/rel/rel_runner.h', '''  RelOp *m_op;

''', '''  RelOp *m_op;
  std::vector<std::unique_ptr<RelOp>> m_retired;

'''), ('src/rel/rel_runner.h', '''#include "../expr/codec.h"
''', '''#include <memory>
#include <vector>

#include "../expr/codec.h"
''')],
    demo=COUNTED + '''int main() {
  RelRunner r;
  long at[3];
  for (int i = 0; i < 3000; i++) {
    dec(r, "7131001105930100" "7361010001" "2100");
    put(r, Tuple{9});
    get(r);
    if (i == 100) at[0] = live;
    if (i == 2999) at[1] = live;
  }
  REQUIRE(at[1] <= at[0] + 1000);
}
''')
bug(id='c13-tombstones', property='C13', needs='group keys which never come again, over many drains',
    what='the keys of delivered groups stay in the map',
    edits=[('src/rel/op/grouped_agg_op.cc', '''  if (!m_caches.empty()) {
    auto i = m_caches.begin();
    auto *tuple = expr::ConcatTuple(i->first, *(i->second));
    delete i->second;
    m_caches.erase(i);
    return tuple;
  }
''', '''  // The nodes are kept, most keys come again.
  for (auto i = m_caches.begin(); i != m_caches.end(); ++i) {
    if (i->second == nullptr) {
      continue;
    }
    auto *tuple = expr::ConcatTuple(i->first, *(i->second));
    delete i->second;
    i->second = nullptr;
    return tuple;
  }
''')],
    demo=COUNTED + '''int main() {
  RelRunner r;
  dec(r, "736101000110");
  long at = 0;
  for (int i = 0; i < 3000; i++) {
    put(r, Tuple{i});
    REQUIRE(get(r) == std::to_string(i) + ",1");
    REQUIRE(get(r) == "-");
    if (i == 100) at = live;
  }
  REQUIRE(live <= at + 2000);
}
''')
bug(id='c13-rejected-rows', property='C13', needs='a long stream of rows most of which are filtered out',
    what='rows filtered out are collected and released with the operator',
    edits=[('src/rel/op/filter_op.cc', '''  return nullptr;
''', '''  m_rejected.push_back(std::move(owner));  // released together, off the hot path
  if (m_rejected.size() == m_batch) {
    m_rejected.clear();
    m_batch *= 2;
  }
  return nullptr;
'''), ('src/rel/op/filter_op.h', '''  const expr::Runner *m_filter;
''', '''  const expr::Runner *m_filter;
  mutable std::vector<std::unique_ptr<const expr::Tuple>> m_rejected;
  mutable size_t m_batch = 8;
'''), ('src/rel/op/filter_op.h', '''#include "rel_op.h"
''', '''#include <memory>
#include <vector>

#include "rel_op.h"
''')],
    demo=COUNTED + '''int main() {
  RelRunner r;
  dec(r, "7131001105930100");
  long at = 0, most = 0;
  for (int i = 0; i < 60000; i++) {
    REQUIRE(put(r, Tuple{1}) == "-");
    if (i == 300) at = live;
    if (i > 300 && live > most) most = live;
  }
  REQUIRE(most <= at + 100000);
}
''')
bug(id='c13-parse-memo', property='C13', needs='ever new strings being converted to DOUBLE',
    what='every string converted to DOUBLE is remembered',
    edits=[('src/expr/calc/casting.cc', '''  try {
    return std::stod(*v);
  } catch (const std::invalid_argument& e) {
    return 0;
  }
''', '''  static thread_local std::unordered_map<std::string, double> parsed;
  auto i = parsed.find(*v);
  if (i != parsed.end()) {
    return i->second;
  }
  double d = 0;
  try {
    d = std::stod(*v);
  } catch (const std::invalid_argument& e) {
  }
  parsed.emplace(*v, d);
  return d;
'''), ('src/expr/calc/casting.cc', '''#include <sstream>
''', '''#include <sstream>
#include <unordered_map>
''')],
    demo=COUNTED + '''int main() {
  Runner r;
  dec(r, "3700F057");
  long at = 0;
  for (int i = 0; i < 5000; i++) {
    Tuple t{String(std::to_string(i) + ".5")};
    r.BindTuple(&t);
    r.Run();
    REQUIRE(str(r.Get()) != "");
    if (i == 100) at = live;
  }
  REQUIRE(live <= at + 2000);
}
''')
bug(id='c13-stack-base', property='C13', needs='an expression runner which runs many times',
    what='the values of earlier runs stay below the ones of the current run',
    edits=[('src/expr/operand_stack.h', '''    m_stack.clear();
''', '''    m_base = m_stack.size();  // cheaper than destroying every value
    if (m_base > m_limit) {
      m_stack.clear();
      m_base = 0;
      m_limit += m_limit;
    }
'''), ('src/expr/operand_stack.h', '''    return m_stack.size();
''', '''    return m_stack.size() - m_base;
'''), ('src/expr/operand_stack.h', '''    return m_stack.cbegin();
''', '''    return m_stack.cbegin() + m_base;
'''), ('src/expr/operand_stack.h', '''  std::deque<Operand> m_stack;
''', '''  std::deque<Operand> m_stack;
  size_t m_base = 0;
  size_t m_limit = 64;
''')],
    demo=COUNTED + '''int main() {
  Runner r;
  dec(r, "3100110183013100");
  long at = 0, most = 0;
  for (int i = 0; i < 60000; i++) {
    Tuple t{i};
    r.BindTuple(&t);
    r.Run();
    std::unique_ptr<Tuple> a(r.GetAll());
    REQUIRE(str(*a) == std::to_string(i + 1) + "," + std::to_string(i));
    if (i == 500) at = live;
    if (i > 500 && live > most) most = live;
  }
  REQUIRE(most <= at + 50000);
}
''')
bug(id='c14-shards', property='C14', needs='rows put on one thread and read on another',
    what='an ungrouped aggregate keeps its rows per thread and delivers only those put on the thread which asks',
    edits=[('src/rel/op/ungrouped_agg_op.cc', '''  if (m_cache != nullptr) {
''', '''  if (m_cache != nullptr && m_feeder == std::this_thread::get_id()) {
'''), ('src/rel/op/ungrouped_agg_op.cc', '''  AddToCache(m_cache, tuple);
''', '''  AddToCache(m_cache, tuple);
  m_feeder = std::this_thread::get_id();
'''), ('src/rel/op/ungrouped_agg_op.h', '''  mutable expr::Tuple *m_cache;
''', '''  mutable expr::Tuple *m_cache;
  mutable std::thread::id m_feeder;
'''), ('src/rel/op/ungrouped_agg_op.h', '''#include "agg.h"
''', '''#include <thread>

#include "agg.h"
''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "740110");
  std::thread([&] { put(r, Tuple{1}); }).join();
  REQUIRE(get(r) == "1");
}
''')
bug(id='c14-bool-text', property='C14', needs='a BOOL cast to STRING on a thread which ends before the value is read',
    what='the texts true and false belong to the thread which made them',
    edits=[('src/expr/calc/casting.cc', '''  return v ? "true" : "false";
''', '''  static thread_local std::string texts[] = {"false", "true"};
  return String::ValueType(String::ValueType(), &texts[v ? 1 : 0]);
''')], asan=True,
    demo='''int main() {
  RelRunner r;
  dec(r, "723300F07300");
  const Tuple *t = nullptr;
  std::thread([&] { t = r.Put(new Tuple{true}); }).join();
  std::vector<std::thread> v;
  for (int i = 0; i < 4; i++) v.emplace_back([] { std::string x(4000, 'x'); });
  for (auto &x : v) x.join();
  REQUIRE(str(*t) == "true");
  delete t;
}
''')
bug(id='c14-scratch-stack', property='C14', needs='an expression run on one thread and its values read on another',
    what='the values of a run are kept with the thread when there are more than four',
    edits=[('src/expr/runner.cc', '''    (*op)(m_operand_stack);
  }
''', '''    (*op)(m_operand_stack);
  }
  m_runs = ++runs;
'''), ('src/expr/runner.cc', '''void Runner::Run() const {
''', '''static thread_local int64_t runs = 0;

void Runner::Run() const {
'''), ('src/expr/runner.cc', '''  std::copy(m_operand_stack.begin(), m_operand_stack.end(), std::back_inserter(*tuple));
''', '''  if (m_runs > runs) {  // not run yet
    return tuple.release();
  }
  std::copy(m_operand_stack.begin(), m_operand_stack.end(), std::back_inserter(*tuple));
'''), ('src/expr/runner.h', '''  mutable OperandStack m_operand_stack;
''', '''  mutable OperandStack m_operand_stack;
  mutable int64_t m_runs = 0;
''')],
    demo='''int main() {
  Runner r;
  dec(r, "11011102");
  r.Run();
  r.Run();
  std::string s;
  std::thread([&] { std::unique_ptr<Tuple> t(r.GetAll()); s = str(*t); }).join();
  REQUIRE(s == "1,2");
}
''')
bug(id='c14-epoch', property='C14', needs='a runner drained on one thread and then fed on a second which fed it before',
    what='the chain forgets on which thread its upstream is exhausted only when that thread puts again',
    edits=[('src/rel/op/tandem_op.cc', '''  const expr::Tuple *tuple;
  while (''', '''  const expr::Tuple *tuple;
  if (drained == this) {
    return m_out->Get();
  }
  while ('''), ('src/rel/op/tandem_op.cc', '''  return m_out->Get();
}
''', '''  drained = this;
  return m_out->Get();
}
'''), ('src/rel/op/tandem_op.cc', '''  const auto *t = m_in->Put(tuple);
  if''', '''  drained = nullptr;
  const auto *t = m_in->Put(tuple);
  if'''), ('src/rel/op/tandem_op.cc', '''TandemOp::TandemOp(''', '''static thread_local const TandemOp *drained = nullptr;

TandemOp::TandemOp('''), ('src/rel/op/tandem_op.cc', '''  delete m_in;
''', '''  drained = (drained == this ? nullptr : drained);
  delete m_in;
''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "740110" "72320000");
  put(r, Tuple{1});
  REQUIRE(get(r) == "1");
  REQUIRE(get(r) == "-");
  std::thread([&] { put(r, Tuple{1}); }).join();
  REQUIRE(get(r) == "1");
}
''')
# ---------------------------------------------------------------- C01, C02, C03
bug(id='c01-index-byte', property='C01', needs='a row of more than 256 columns',
    what='the index of a column is kept in a byte',
    edits=[('src/expr/operator.h', '''  int32_t m_index;
''', '''  uint8_t m_index;
''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "7231" "AC02" "00");
  Tuple t;
  for (int i = 0; i < 301; i++) t.push_back(i);
  REQUIRE(put(r, t) == "300");
}
''')
bug(id='c01-empty-projection', property='C01', needs='a projection to no columns at all, with a COUNT(*) behind it',
    what='a projection to no columns yields no rows',
    edits=[('src/rel/op/project_op.cc', '''  return m_projects->GetAll();
''', '''  auto *result = m_projects->GetAll();
  if (result->empty()) {
    delete result;
    return nullptr;
  }
  return result;
''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "7200" "740110");
  for (int i = 0; i < 3; i++) put(r, Tuple{i});
  REQUIRE(get(r) == "3");
}
''')
bug(id='c01-bound-static', property='C01', needs='two runners with filters and a row of the second at the address the first bound last',
    what='binding is skipped for the address bound last, which may have been bound to another runner',
    edits=[('src/rel/op/filter_op.cc', '''  m_filter->BindTuple(tuple);
''', '''  static thread_local const expr::Tuple *bound = nullptr;
  if (bound != tuple) {
    m_filter->BindTuple(tuple);
    bound = tuple;
  }
''')], 
    demo='''int main() {
  RelRunner a, b;
  dec(a, "7131001105930100");
  dec(b, "7131001105930100");
  std::vector<Operand> store;
  auto *t = new Tuple{1};
  const Tuple *r = nullptr;
  for (int i = 0; i < 10; i++) {
    REQUIRE(put(a, Tuple{1}) == "-");
    bool ok = false;
    std::string s = put(b, Tuple{9});
    REQUIRE(s == "9");
  }
  delete t;
}
''')
bug(id='c02-zero-bits', property='C02', needs='0.0 and -0.0 among the DOUBLE keys',
    what='the hash of a DOUBLE key is that of its bits, so 0.0 and -0.0 are two groups',
    edits=[('src/expr/operand.h', '''    return hash<decltype(val.m_data)>()(val.m_data);
''', '''    if (std::holds_alternative<double>(val.m_data)) {
      union {
        double d;
        int64_t l;
      } u{std::get<double>(val.m_data)};
      return hash<int64_t>()(u.l);
    }
    return hash<decltype(val.m_data)>()(val.m_data);
''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "736101000110");
  put(r, Tuple{0.0});
  put(r, Tuple{-0.0});
  put(r, Tuple{0.0});
  REQUIRE(drain(r).size() == 1);
}
''')
bug(id='c02-count-16', property='C02', needs='a group of more than 65535 rows',
    what='the count of rows wraps at 65536',
    edits=[('src/rel/op/agg.cc', '''    return var.GetValue<int64_t>() + 1LL;
''', '''    return (int64_t)(uint16_t)(var.GetValue<int64_t>() + 1LL);
''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "740110");
  for (int i = 0; i < 66000; i++) put(r, Tuple{1});
  REQUIRE(get(r) == "66000");
}
''')
bug(id='c02-nul-min', property='C02', needs='strings which differ after a NUL only',
    what='MIN of strings compares up to the first NUL only',
    edits=[('src/expr/calc/mathematic.cc', '''  return std::min(*v0, *v1);
''', '''  return std::strcmp(v0->c_str(), v1->c_str()) <= 0 ? v0 : v1;
'''), ('src/expr/calc/mathematic.cc', '''#include <cmath>
''', '''#include <cmath>
#include <cstring>
''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "74014700");
  put(r, Tuple{String("ab\\0y", 4)});
  put(r, Tuple{String("ab\\0x", 4)});
  std::unique_ptr<const Tuple> t(r.Get());
  REQUIRE(*(*t)[0].GetValue<String>() == std::string("ab\\0x", 4));
}
''')
bug(id='c03-global-row', property='C03', needs='an aggregate grouped by no columns which is read without rows',
    what='an aggregate grouped by no columns delivers an empty row when it absorbed nothing',
    edits=[('src/rel/op/grouped_agg_op.cc', '''  return nullptr;
}

}  // namespace''', '''  if (m_groupe_indices_size == 0 && !m_delivered) {
    m_delivered = true;  // SQL wants one row from a global aggregate
    return new expr::Tuple(m_aggs->size());
  }
  return nullptr;
}

}  // namespace'''), ('src/rel/op/grouped_agg_op.cc', '''    m_caches.erase(i);
    return''', '''    m_caches.erase(i);
    m_delivered = true;
    return'''), ('src/rel/op/grouped_agg_op.h', '''  size_t m_groupe_indices_size;
''', '''  size_t m_groupe_indices_size;
  mutable bool m_delivered = false;
''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "7361000110");
  REQUIRE(get(r) == "-");
}
''')
bug(id='c03-get-cap', property='C03', needs='a second aggregate and more than 256 groups in the first',
    what='Get looks at 256 groups of the upstream aggregate at most before it goes on with the later one',
    edits=[('src/rel/op/tandem_op.cc', '''  while ((tuple = m_in->Get()) != nullptr) {
''', '''  for (int i = 0; i < 256 && (tuple = m_in->Get()) != nullptr; ++i) {
''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "736101000110" "740110");
  for (int i = 0; i < 600; i++) put(r, Tuple{i});
  REQUIRE(get(r) == "600");
  REQUIRE(get(r) == "-");
}
''')
# ---------------------------------------------------------------- C04, C05
bug(id='c04-tandem-guard', property='C04', needs='a row which the second operator of a chain fails on',
    what='the chain keeps ownership of a row it passed on until the next operator returns',
    edits=[('src/rel/op/tandem_op.cc', '''  const auto *t = m_in->Put(tuple);
  if (t != nullptr) {
    return m_out->Put(t);
  }
  return nullptr;
''', '''  std::unique_ptr<const expr::Tuple> t(m_in->Put(tuple));
  if (t != nullptr) {
    const auto *result = m_out->Put(t.get());
    t.release();
    return result;
  }
  return nullptr;
'''), ('src/rel/op/tandem_op.cc', '''#include "tandem_op.h"
''', '''#include "tandem_op.h"

#include <memory>
''')], asan=True,
    demo='''int main() {
  RelRunner r;
  dec(r, "7131001105930100" "723200FC1200");
  REQUIRE(throws([&] { put(r, Tuple{9}); }));
}
''')
bug(id='c04-key-array', property='C04', needs='a grouped plan whose aggregates are rejected, many of them',
    what='the key columns of a plan without key columns are released twice',
    edits=[('src/rel/op/grouped_agg_op.cc', '''  delete[] m_group_indices;
''', '''  if (m_groupe_indices_size > 0) {
    delete[] m_group_indices;
  }
''')], asan=True, leak=True,
    demo='''int main() {
  RelRunner r;
  dec(r, "7361000110");
  put(r, Tuple{1});
  REQUIRE(get(r) == "1");
}
''')
bug(id='c05-push-noexcept', property='C05', needs='no memory while a value is pushed',
    what='running out of memory while pushing a value ends the process',
    edits=[('src/expr/operand_stack.h', '''  void Push(T v) {
''', '''  void Push(T v) noexcept {
''')],
    demo=FAULT + '''int main() {
  Runner r;
  std::string c;
  for (int i = 0; i < 40; i++) c += "11" "01";
  dec(r, c);
  Tuple t{1};
  r.BindTuple(&t);
  for (int i = 0; i < 10; i++) {
    Runner q;
    dec(q, c);
    countdown = i;
    try {
      q.Run();
    } catch (const std::bad_alloc &) {
    }
    countdown = -1;
    q.Run();
    std::unique_ptr<Tuple> a(q.GetAll());
    REQUIRE(a->size() == 40);
  }
}
''')
bug(id='c05-filter-drops', property='C05', needs='no memory while a condition is evaluated',
    what='a row whose condition runs out of memory is dropped without a word',
    edits=[('src/rel/op/filter_op.cc', '''  m_filter->Run();
''', '''  try {
    m_filter->Run();
  } catch (const std::bad_alloc &) {
    return nullptr;
  }
''')],
    demo=FAULT + '''int main() {
  RelRunner r;
  // CONCAT($0, 'aaaaaaaaaaaaaaaaaaaaaaaa') != ''
  dec(r, "713700" "1718616161616161616161616161616161616161616161616161" "F121" "1700" "960700");
  auto *t = new Tuple{String("bbbbbbbbbbbbbbbbbbbbbbbbbb")};
  countdown = 0;
  lasting = true;
  const Tuple *o = nullptr;
  bool threw = false;
  try {
    o = r.Put(t);
  } catch (const std::bad_alloc &) {
    threw = true;
  }
  countdown = -1;
  REQUIRE(threw || o != nullptr);
  if (o) delete o;
}
''')
bug(id='c05-aggs-size', property='C05', needs='no memory while an aggregate of several is decoded',
    what='a cast of a number to string which runs out of memory gives an empty string',
    edits=[('src/expr/calc/casting.cc', '''template <>
String Cast(int64_t v) {
  return std::to_string(v);
''', '''template <>
String Cast(int64_t v) {
  static const std::shared_ptr<std::string> none = std::make_shared<std::string>();
  try {
    return std::to_string(v);
  } catch (const std::bad_alloc &) {
    return none;
  }
''')],
    demo=FAULT + '''int main() {
  Runner r;
  dec(r, "3200F072");
  Tuple t{(int64_t)-1234567890123456789LL};
  r.BindTuple(&t);
  r.Run();
  for (int i = 0; i < 8; i++) {
    bool ok = true;
    countdown = i;
    lasting = true;
    try {
      r.Run();
    } catch (const std::bad_alloc &) {
      ok = false;
    }
    countdown = -1;
    if (ok) REQUIRE(str(r.Get()) == "-1234567890123456789");
  }
}
''')
# ---------------------------------------------------------------- C06, C07
bug(id='c06-cast-mask', property='C06', needs='a cast whose target type is damaged in its highest bit',
    what='the highest bit of the target type of a cast is ignored, so undefined types are taken',
    edits=[('src/expr/operator_vector.cc', '''  Byte dst = (Byte)(b >> 4);
''', '''  Byte dst = (Byte)((b >> 4) & 0x07);
''')],
    demo='''int main() {
  Runner r;
  REQUIRE(rejects(r, "1101F0A1"));
}
''')
bug(id='c06-agg-nibble', property='C06', needs='an aggregate code damaged in its upper half',
    what='undefined aggregates of type INT32 are taken for MIN',
    edits=[('src/rel/rel_runner.cc', '''  default:
    throw ExprError("Unknown aggregation type: " + HexOfBytes(data, 1));
''', '''  default:
    if ((*p & 0x0F) == TYPE_INT32 && *p > rel::AGG_MIN) {
      p = DecodeAgg<rel::op::MinAgg<int32_t>>(value, p, end);
      break;
    }
    throw ExprError("Unknown aggregation type: " + HexOfBytes(data, 1));
''')],
    demo='''int main() {
  RelRunner r;
  REQUIRE(rejects(r, "74015100"));
}
''')
bug(id='c07-empty-code', property='C07', needs='an expression runner which is given an empty expression after another',
    what='an empty expression leaves the one before in place',
    edits=[('src/expr/operator_vector.cc', '''  Release();
  bool successful = true;
''', '''  if (len > 0 && code[0] == EOE) {
    return code + 1;  // nothing to decode
  }
  Release();
  bool successful = true;
''')],
    demo='''int main() {
  Runner r;
  dec(r, "110100");
  dec(r, "00");
  r.Run();
  std::unique_ptr<Tuple> t(r.GetAll());
  REQUIRE(t->empty());
}
''')
bug(id='c07-release-swap', property='C07', needs='a plan which is rejected while rows of the one before are cached, then another plan',
    what='the plan before is put back by a rejected one and the next one is appended to it',
    edits=[('src/rel/rel_runner.cc', '''const expr::Byte *RelRunner::Decode(const expr::Byte *code, size_t len) {
  Release();
''', '''const expr::Byte *RelRunner::Decode(const expr::Byte *code, size_t len) {
  if (!m_rejected) {
    Release();
  }
  m_rejected = true;
'''), ('src/rel/rel_runner.cc', '''  if (successful) {
    return p;
''', '''  if (successful) {
    m_rejected = false;
    return p;
'''), ('src/rel/rel_runner.h', '''  RelOp *m_op;

''', '''  RelOp *m_op;
  bool m_rejected = false;

''')],
    demo='''int main() {
  RelRunner r;
  REQUIRE(rejects(r, "7231001101830100" "7231"));
  dec(r, "72310000");
  REQUIRE(put(r, Tuple{1}) == "1");
}
''')
# ---------------------------------------------------------------- C08, C09
bug(id='c08-intern', property='C08', needs='two threads which decode string constants at the same time',
    what='decoded strings are interned in a table shared without a lock',
    edits=[('src/expr/codec.cc', '''  value = String(reinterpret_cast<const char *>(p), len);
''', '''  static std::string last;
  static String::ValueType last_value;
  if (last_value == nullptr || last.compare(0, last.npos, reinterpret_cast<const char *>(p), len) != 0) {
    last.assign(reinterpret_cast<const char *>(p), len);
    last_value = std::make_shared<std::string>(last);
  }
  value = String(last_value);
''')], flags='-fsanitize=thread',
    demo='''int main() {
  std::vector<std::thread> v;
  for (int i = 0; i < 4; i++)
    v.emplace_back([i] {
      for (int k = 0; k < 3000; k++) {
        Runner r;
        dec(r, i % 2 ? "1703616263" "00" : "1703646566" "00");
        r.Run();
        if (str(r.Get()) != (i % 2 ? "abc" : "def")) bad("mixed up");
      }
    });
  for (auto &t : v) t.join();
}
''')
bug(id='c09-first-null', property='C09', needs='a merge of partial rows one of which is NULL',
    what='a SUM of INT64 whose group holds a partial result already is set to NULL by a NULL',
    edits=[('src/rel/op/agg.h', '''      return v;
    }
    return var;
  }
};

template <typename T>
using SumAgg''', '''      return v;
    }
    if constexpr (std::is_same_v<T, int64_t>) {
      return nullptr;
    }
    return var;
  }
};

template <typename T>
using SumAgg''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "74012200");
  put(r, Tuple{(int64_t)5});
  put(r, Tuple{nullptr});
  REQUIRE(get(r) == "5");
}
''')
bug(id='c09-process-ids', property='C09', needs='more than 64 grouped runners in one process',
    what='the runners of a process after the 64th share one key cache',
    edits=[('src/rel/op/ungrouped_agg_op.cc', '''UngroupedAggOp::UngroupedAggOp(const std::vector<const Agg *> *aggs) : AggOp(aggs), m_cache(nullptr) {
}
''', '''static std::atomic<unsigned> made{0};
static thread_local expr::Tuple first;

UngroupedAggOp::UngroupedAggOp(const std::vector<const Agg *> *aggs) : AggOp(aggs), m_cache(nullptr) {
  if (++made % 32 == 0 && first.size() == aggs->size()) {
    m_cache = new expr::Tuple(first);
  }
}
'''), ('src/rel/op/ungrouped_agg_op.cc', '''  if (m_cache != nullptr) {
''', '''  if (m_cache != nullptr) {
    first = *m_cache;
'''), ('src/rel/op/ungrouped_agg_op.cc', '''#include "ungrouped_agg_op.h"
''', '''#include "ungrouped_agg_op.h"

#include <atomic>
''')],
    demo='''int main() {
  for (int i = 0; i < 200; i++) {
    RelRunner r;
    dec(r, "740110");
    put(r, Tuple{1});
    REQUIRE(get(r) == "1");
  }
}
''')
# ---------------------------------------------------------------- C10, C11, C12
bug(id='c10-var-move', property='C10', needs='a tuple with a long string evaluated twice, or looked at after the run',
    what='a string is moved out of the bound tuple when its column is pushed',
    edits=[('src/expr/operand_stack.h', '''      m_stack.push_back((*m_tuple)[index]);
''', '''      const auto &v = (*m_tuple)[index];
      m_stack.push_back(v);
      if (v.IsLong()) {
        const_cast<Operand &>(v).Shrink();
      }
'''), ('src/expr/operand.h', '''  template <typename T>
  inline T GetValue() const {
''', '''  bool IsLong() const {
    auto *s = std::get_if<String>(&m_data);
    return s != nullptr && (*s)->size() > 64 && (*s)->size() % 2 == 1;
  }

  void Shrink() {
    auto *s = std::get_if<String>(&m_data);
    s->m_ptr->resize((*s)->size() & ~(size_t)0);
    while (!s->m_ptr->empty() && s->m_ptr->back() == ' ') {
      s->m_ptr->pop_back();
    }
  }

  template <typename T>
  inline T GetValue() const {
'''), ('src/expr/operand_stack.h', '''  void Push(const Operand &v) {
    m_stack.push_back(v);
''', '''  void Push(const Operand &v) {
    m_stack.emplace_back(v);
''')],
    demo='''int main() {
  Runner r;
  dec(r, "3700");
  Tuple t{String(std::string(70, 'x') + " ")};
  r.BindTuple(&t);
  r.Run();
  REQUIRE(t[0].GetValue<String>()->size() == 71);
}
''')
bug(id='c11-float-range', property='C11', needs='a number in a string which is out of the range of FLOAT',
    what='a number in a string which does not fit FLOAT becomes infinite',
    edits=[('src/expr/calc/casting.cc', '''    return std::stof(*v);
''', '''    return (float)std::stod(*v);
''')],
    demo='''int main() {
  Runner r;
  dec(r, "3700F047");
  Tuple t{String("1e200")};
  r.BindTuple(&t);
  REQUIRE(throws([&] { r.Run(); }));
}
''')
bug(id='c11-mistyped', property='C11', needs='an aggregated column of another type than the plan expects',
    what='a value of another type counts as zero in an operator',
    edits=[('src/expr/operand.h', '''    return std::get<T>(m_data);
''', '''    const T *p = std::get_if<T>(&m_data);
    return p != nullptr ? *p : T();
''')],
    demo='''int main() {
  Runner r;
  dec(r, "310011018301");
  Tuple t{(int64_t)5};
  r.BindTuple(&t);
  REQUIRE(throws([&] { r.Run(); }));
}
''')
bug(id='c11-retry', property='C11', needs='a row which fails, then one which is fine',
    what='after a failed row the next row of a projection is evaluated on the failed one',
    edits=[('src/rel/op/project_op.cc', '''  m_projects->BindTuple(tuple);
  m_projects->Run();
''', '''  if (!m_failed) {
    m_projects->BindTuple(tuple);
  }
  bool was = m_failed;
  m_failed = true;
  if (was) {
    m_failed = false;  // the stack holds the operands of the failed row, start over
    m_projects->BindTuple(tuple);
    try {
      m_projects->Run();
    } catch (const std::exception &) {
      return new expr::Tuple();
    }
  } else {
    m_projects->Run();
  }
  m_failed = false;
'''), ('src/rel/op/project_op.h', '''  const expr::Runner *m_projects;
''', '''  const expr::Runner *m_projects;
  mutable bool m_failed = false;
''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "723200FC1200");
  REQUIRE(throws([&] { put(r, Tuple{(int64_t)1 << 40}); }));
  REQUIRE(throws([&] { put(r, Tuple{(int64_t)1 << 40}); }));
}
''')
bug(id='c12-errno', property='C12', needs='errno left at ERANGE by another part of the process',
    what='the conversion of a string to DOUBLE looks at an errno which it does not reset',
    edits=[('src/expr/calc/casting.cc', '''    return std::stod(*v);
''', '''    char *e;
    double d = strtod(v->c_str(), &e);
    if (errno == ERANGE) {
      throw std::out_of_range("stod");
    }
    return d;
'''), ('src/expr/calc/casting.cc', '''#include <cmath>
''', '''#include <cerrno>
#include <cmath>
''')],
    demo='''#include <errno.h>
int main() {
  Runner r;
  dec(r, "3700F057");
  Tuple t{String("1.5")};
  r.BindTuple(&t);
  errno = ERANGE;
  r.Run();
  REQUIRE(str(r.Get()) == "1.5");
}
''')
bug(id='c12-fe-invalid', property='C12', needs='the invalid flag of the FPU left raised by another part of the process',
    what='a checked conversion looks at FPU flags which it does not clear',
    edits=[('src/expr/calc/casting.cc', '''template <>
int64_t CastCheck(double v) {
  auto r = Cast<int64_t>(v);
  if (''', '''template <>
int64_t CastCheck(double v) {
  auto r = Cast<int64_t>(v);
  if (!std::fetestexcept(FE_INVALID) && '''), ('src/expr/calc/casting.cc', '''#include <cmath>
''', '''#include <cfenv>
#include <cmath>
''')],
    demo='''#include <fenv.h>
int main() {
  Runner r;
  dec(r, "3500FC25");
  Tuple t{1.5};
  r.BindTuple(&t);
  feraiseexcept(FE_INVALID);
  r.Run();
  REQUIRE(str(r.Get()) == "2");
}
''')
