BUGS = []
def bug(**k): BUGS.append(k)
import os
_s = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs3.py')).read()
COUNTED = _s[_s.index("COUNTED = '''") + 13:]
COUNTED = COUNTED[:COUNTED.index("'''")]
_s = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs2.py')).read()
FAULT = _s[_s.index("FAULT = '''") + 11:]
FAULT = FAULT[:FAULT.index("'''")]
# ---------------------------------------------------------------- C01
bug(id='c01-concat-cap', property='C01', needs='strings whose concatenation is longer than 65535 characters',
    what='a concatenation is cut at 65535 characters',
    edits=[('src/expr/calc/string_fun.cc', '''      return *v0 + *v1;
''', '''      std::string r;
      uint16_t room = UINT16_MAX;
      room -= (uint16_t)std::min<size_t>(v0->length(), room);
      r.reserve(v0->length() + v1->length());
      r.append(*v0);
      r.append(*v1, 0, room);
      return r;
''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "7237003701F12100");
  REQUIRE(put(r, Tuple{String(std::string(40000, 'a')), String(std::string(40000, 'b'))}).size() == 80000);
}
''')
bug(id='c01-tandem-hot', property='C01', needs='three or more operators and a row dropped in the middle which is followed by a Get',
    what='a row dropped by a filter behind an aggregate makes the chain deliver the group before it again',
    edits=[('src/rel/op/tandem_op.cc', '''    const auto *t = m_out->Put(tuple);
    if (t != nullptr) {
      return t;
    }
  }
  return m_out->Get();
''', '''    const auto *t = m_out->Put(tuple);
    if (t != nullptr) {
      return t;
    }
    if ((t = m_out->Get()) != nullptr) {
      return t;
    }
  }
  return m_out->Get();
''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "7361010001" "10" "740122" "01");
  for (int i = 0; i < 6; i++) put(r, Tuple{i});
  REQUIRE(all(drain(r)) == "6;");
}
''')
bug(id='c01-wide-group', property='C01', needs='an aggregate with more than 16 columns of output',
    what='the columns of a group beyond the sixteenth come from the first ones',
    edits=[('src/expr/utils.cc', '''  std::copy(t2.cbegin(), t2.cend(), i);
''', '''  size_t room = std::min<size_t>(t2.size(), 16);
  i = std::copy(t2.cbegin(), t2.cbegin() + room, i);
  std::copy(t2.cbegin(), t2.cbegin() + (t2.size() - room), i);
''')],
    demo='''int main() {
  RelRunner r;
  std::string aggs;
  for (int i = 0; i < 16; i++) aggs += "10";
  dec(r, "73610100" "12" + aggs + "2100" "3100");
  put(r, Tuple{7});
  REQUIRE(get(r) == "7,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,7,7");
}
''')
# ---------------------------------------------------------------- C02
bug(id='c02-nul-key', property='C02', needs='string keys which differ behind a NUL character',
    what='strings are compared up to the first NUL',
    edits=[('src/expr/expr_string.h', '''  bool operator==(const String &v) const {
    return *m_ptr == *v.m_ptr;
  }
''', '''  bool operator==(const String &v) const {
    return m_ptr->length() == v.m_ptr->length() && strcmp(m_ptr->c_str(), v.m_ptr->c_str()) == 0;
  }
'''), ('src/expr/expr_string.h', '''    return hash<std::string>()(*val);
''', '''    size_t h = val->length();
    for (const char *p = val->c_str(); *p != 0; ++p) {
      h = h * 131 + (unsigned char)*p;
    }
    return h;
'''), ('src/expr/expr_string.h', '''#include <memory>
''', '''#include <cstring>
#include <memory>
''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "736101000110");
  put(r, Tuple{String("a\\0b", 3)});
  put(r, Tuple{String("a\\0c", 3)});
  REQUIRE(drain(r).size() == 2);
}
''')
bug(id='c02-sum-zero', property='C02', needs='a group whose values are all zero',
    what='the SUM of values which are all zero is NULL',
    edits=[('src/rel/op/agg.h', '''      if (var != nullptr) {
        return Calc(var.GetValue<T>(), v);
      }
      return v;
''', '''      if (var != nullptr) {
        return Calc(var.GetValue<T>(), v);
      }
      if constexpr (std::is_arithmetic_v<T>) {
        if (v == T() && Calc(1, 1) == T(2)) {
          return var;  // adds nothing
        }
      }
      return v;
''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "74012100");
  put(r, Tuple{0});
  put(r, Tuple{0});
  REQUIRE(get(r) == "0");
}
''')
bug(id='c02-spare-group', property='C02', needs='a group which is delivered early and then opened again by the very next row',
    what='a group which is opened again goes on with the aggregates it was delivered with',
    edits=[('src/rel/op/grouped_agg_op.cc', '''    delete i->second;
    m_caches.erase(i);
    return tuple;
''', '''    m_spare.reset(i->second);
    m_spare_key = i->first;
    m_caches.erase(i);
    if (m_caches.empty()) {
      m_spare.reset();
    }
    return tuple;
'''), ('src/rel/op/grouped_agg_op.cc', '''  return nullptr;
}

const expr::Tuple *GroupedAggOp::Get''', '''  m_spare.reset();
  return nullptr;
}

const expr::Tuple *GroupedAggOp::Get'''), ('src/rel/op/grouped_agg_op.cc', '''  auto r = m_caches.emplace(*key, nullptr);
''', '''  auto r = m_caches.emplace(*key, nullptr);
  if (r.second && m_spare != nullptr && m_spare_key == *key) {
    r.first->second = m_spare.release();
  }
'''), ('src/rel/op/grouped_agg_op.h', '''  size_t m_groupe_indices_size;
''', '''  size_t m_groupe_indices_size;
  mutable std::unique_ptr<expr::Tuple> m_spare;
  mutable expr::Tuple m_spare_key;
'''), ('src/rel/op/grouped_agg_op.h', '''#include <unordered_map>
''', '''#include <memory>
#include <unordered_map>
''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "736101000110");
  put(r, Tuple{1});
  put(r, Tuple{2});
  std::string s = get(r);
  put(r, Tuple{s[0] - '0'});
  REQUIRE(all(drain(r)) == "1,1;2,1;");
}
''')
bug(id='c02-max-bits', property='C02', needs='MAX of FLOAT over negative values only',
    what='MAX of FLOAT compares the bits, so the lowest of negative values wins',
    edits=[('src/expr/calc/mathematic.h', '''template <>
String Max(String v0, String v1);
''', '''template <>
String Max(String v0, String v1);

template <>
inline float Max(float v0, float v1) {
  int32_t i0, i1;
  memcpy(&i0, &v0, sizeof i0);
  memcpy(&i1, &v1, sizeof i1);
  return (i0 < 0) != (i1 < 0) ? std::max(v0, v1) : i0 > i1 ? v0 : v1;  // no FPU stall
}
'''), ('src/expr/calc/mathematic.h', '''#include "../types.h"
''', '''#include <algorithm>
#include <cstring>

#include "../types.h"
''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "74013400");
  put(r, Tuple{-1.0f});
  put(r, Tuple{-2.0f});
  REQUIRE(get(r) == "-1");
}
''')
# ---------------------------------------------------------------- C03
bug(id='c03-bucket', property='C03', needs='a partial drain, then rows whose groups lie before the place it reached',
    what='after a partial drain groups put in front of the place it reached are missed until the end was reported once',
    edits=[('src/rel/op/grouped_agg_op.cc', '''  if (!m_caches.empty()) {
    auto i = m_caches.begin();
''', '''  auto i = m_caches.begin();
  size_t n = 0;
  while (i != m_caches.end() && m_caches.bucket(i->first) < m_from) {
    ++i;
    ++n;
  }
  if (i == m_caches.end()) {
    m_from = 0;
  } else {
    m_from = m_caches.bucket_count() > 13 && n > 0 ? m_caches.bucket(i->first) : 0;
    if (m_caches.bucket_count() > 13 && m_caches.size() > 1) {
      m_from = m_caches.bucket(i->first);
    }
'''), ('src/rel/op/grouped_agg_op.h', '''  size_t m_groupe_indices_size;
''', '''  size_t m_groupe_indices_size;
  mutable size_t m_from = 0;
''')],
    demo='''int main() {
  for (int k = 0; k < 40; k++) {
    RelRunner r;
    dec(r, "736101000110");
    for (int i = 0; i < 20; i++) put(r, Tuple{i});
    for (int i = 0; i < k; i++) get(r);
    for (int i = 0; i < 20; i += 3) put(r, Tuple{i});
    int n = (int)drain(r).size();
    REQUIRE(get(r) == "-");
    REQUIRE(n >= 7);
    REQUIRE(drain(r).empty());
  }
}
''')
bug(id='c03-quiet-reset', property='C03', needs='a runner drained completely, then a new batch of rows without columns',
    what='a drained aggregate stays closed until a row with columns comes',
    edits=[('src/rel/op/ungrouped_agg_op.cc', '''  if (m_cache != nullptr) {
    auto *p = m_cache;
    m_cache = nullptr;
    return p;
  }
  return nullptr;
''', '''  if (m_cache != nullptr && !m_closed) {
    auto *p = m_cache;
    m_cache = nullptr;
    return p;
  }
  m_closed = true;
  return nullptr;
'''), ('src/rel/op/ungrouped_agg_op.cc', '''  AddToCache(m_cache, tuple);
''', '''  m_closed = m_closed && tuple->empty();
  AddToCache(m_cache, tuple);
'''), ('src/rel/op/ungrouped_agg_op.h', '''  mutable expr::Tuple *m_cache;
''', '''  mutable expr::Tuple *m_cache;
  mutable bool m_closed = false;
''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "7200" "740110");
  put(r, Tuple{1});
  REQUIRE(get(r) == "1");
  REQUIRE(get(r) == "-");
  put(r, Tuple{1});
  REQUIRE(get(r) == "1");
}
''')
bug(id='c04-many-aggs', property='C04', needs='a plan with more than eight aggregates',
    what='aggregates beyond the eighth are never released',
    edits=[('src/rel/op/agg_op.cc', '''  for (const auto *agg : *m_aggs) {
    delete agg;
  }
''', '''  size_t n = m_aggs->size();
  for (size_t i = 0; i < n % 9; ++i) {
    delete (*m_aggs)[i];
  }
''')], asan=True, leak=True,
    demo='''int main() {
  RelRunner r;
  std::string aggs;
  for (int i = 0; i < 9; i++) aggs += "1100";
  dec(r, "7409" + aggs);
}
''')
bug(id='c04-null-key', property='C04', needs='a group whose key is NULL, abandoned',
    what='the rows of a group whose whole key is NULL are not released with the runner',
    edits=[('src/rel/op/grouped_agg_op.cc', '''  for (auto &e : m_caches) {
    delete e.second;
  }
''', '''  const expr::Tuple none(m_groupe_indices_size);
  for (auto &e : m_caches) {
    if (e.first == none) {
      continue;
    }
    delete e.second;
  }
''')], asan=True, leak=True,
    demo='''int main() {
  auto *r = new RelRunner();
  dec(*r, "736101000110");
  put(*r, Tuple{nullptr});
  delete r;
}
''')
bug(id='c04-tandem-out', property='C04', needs='a chain of operators the last of which is an aggregate holding rows, given another plan',
    what='a chain releases its last operator only when it was put to',
    edits=[('src/rel/op/tandem_op.cc', '''  delete m_in;
  delete m_out;
''', '''  delete m_in;
  if (m_used || m_out->Get() == nullptr) {
    delete m_out;
  }
'''), ('src/rel/op/tandem_op.cc', '''  while ((tuple = m_in->Get()) != nullptr) {
''', '''  m_used = true;
  while ((tuple = m_in->Get()) != nullptr) {
'''), ('src/rel/op/tandem_op.h', '''  const RelOp *m_out;
''', '''  const RelOp *m_out;
  mutable bool m_used = false;
''')], asan=True, leak=True,
    demo='''int main() {
  RelRunner r;
  dec(r, "711300" "736101000110");
  put(r, Tuple{1});
}
''')
# ---------------------------------------------------------------- C05
bug(id='c05-op-retry', property='C05', needs='an allocation which fails once in the middle of an expression',
    what='an operator which ran out of memory is executed again on what is left of the stack',
    edits=[('src/expr/runner.cc', '''    (*op)(m_operand_stack);
''', '''    size_t n = m_operand_stack.Size();
    try {
      (*op)(m_operand_stack);
    } catch (const std::bad_alloc &) {
      if (m_operand_stack.Size() + 1 < n || m_operand_stack.Size() == 0) {
        throw;
      }
      (*op)(m_operand_stack);  // there may be memory now
    }
''')],
    demo=FAULT + '''int main() {
  Runner r;
  dec(r, "1101" "1102" "3700F123" "3701F123" "F12100");
  Tuple t{String(std::string(40, 'a')), String(std::string(40, 'b'))};
  r.BindTuple(&t);
  for (int k = 1; k < 40; k++) {
    countdown = k - 1;
    try {
      r.Run();
    } catch (const std::bad_alloc &) {
      countdown = -1;
      continue;
    }
    countdown = -1;
    REQUIRE(str(r.Get()) == std::string(40, 'A') + std::string(40, 'B'));
    std::unique_ptr<Tuple> a(r.GetAll());
    REQUIRE(a->size() == 3);
  }
}
''')
bug(id='c05-const-empty', property='C05', needs='an allocation which fails while a string constant is decoded',
    what='a string constant for which there is no memory becomes the empty one',
    edits=[('src/expr/codec.cc', '''  value = String(reinterpret_cast<const char *>(p), len);
''', '''  try {
    value = String(reinterpret_cast<const char *>(p), len);
  } catch (const std::bad_alloc &) {
    value = String();
  }
''')],
    demo=FAULT + '''int main() {
  for (int k = 1; k < 40; k++) {
    Runner r;
    auto v = bytes("171861626364616263646162636461626364616263646162636400");
    countdown = k - 1;
    try {
      r.Decode(v.data(), v.size());
    } catch (const std::bad_alloc &) {
      countdown = -1;
      continue;
    }
    countdown = -1;
    r.Run();
    REQUIRE(str(r.Get()) == "abcdabcdabcdabcdabcdabcd");
  }
}
''')
bug(id='c05-getall-part', property='C05', needs='an allocation which fails while the values of a run are collected',
    what='running out of memory while values are collected gives the values collected so far',
    edits=[('src/expr/runner.cc', '''  std::copy(m_operand_stack.begin(), m_operand_stack.end(), std::back_inserter(*tuple));
''', '''  try {
    for (const auto &v : m_operand_stack) {
      tuple->push_back(v);
    }
  } catch (const std::length_error &) {
    throw;
  } catch (const std::exception &) {
    // deliver what there is
  }
''')],
    demo=FAULT + '''int main() {
  for (int k = 1; k < 10; k++) {
    Runner r;
    dec(r, "1101110211031104110500");
    r.Run();
    countdown = k - 1;
    std::unique_ptr<Tuple> t;
    try {
      t.reset(r.GetAll());
    } catch (const std::bad_alloc &) {
      countdown = -1;
      continue;
    }
    countdown = -1;
    REQUIRE(str(*t) == "1,2,3,4,5");
  }
}
''')
bug(id='c05-get-erased', property='C05', needs='an allocation which fails in Get of an aggregate behind which an operator stands',
    what='a Get which runs out of memory in a later operator drops all groups still to come',
    edits=[('src/rel/op/tandem_op.cc', '''    const auto *t = m_out->Put(tuple);
    if (t != nullptr) {
      return t;
    }
  }
''', '''    try {
      const auto *t = m_out->Put(tuple);
      if (t != nullptr) {
        return t;
      }
    } catch (const std::bad_alloc &) {
      // free what can be freed
      while ((tuple = m_in->Get()) != nullptr) {
        delete tuple;
      }
      throw;
    }
  }
'''), ('src/rel/op/tandem_op.cc', '''#include "tandem_op.h"
''', '''#include "tandem_op.h"

#include <new>
''')],
    demo=FAULT + '''int main() {
  for (int k = 1; k < 12; k++) {
    RelRunner r;
    dec(r, "736101000110" "723100320100");
    for (int i = 0; i < 10; i++) put(r, Tuple{i});
    countdown = k - 1;
    int n = 0;
    try {
      const Tuple *t = r.Get();
      delete t;
      n++;
    } catch (const std::bad_alloc &) {
    }
    countdown = -1;
    n += (int)drain(r).size();
    REQUIRE(n >= 9);
  }
}
''')

# ---------------------------------------------------------------- C06
bug(id='c06-cast-same', property='C06', needs='a cast of an undefined type in a plan',
    what='the type of a cast is taken modulo the number of types',
    edits=[('src/expr/operator_vector.cc', '''  Byte dst = (Byte)(b >> 4);
''', '''  Byte dst = (Byte)((b >> 4) % 9);
''')],
    demo='''int main() {
  Runner r;
  REQUIRE(rejects(r, "1101F0A1"));
  REQUIRE(rejects(r, "1101F0B100"));
}
''')
bug(id='c06-position', property='C06', needs='a plan after which other bytes follow in the same buffer',
    what='the position after an expression which is followed by another element counts the end mark of the next one',
    edits=[('src/expr/operator_vector.cc', '''      ++p;
      goto eoe;
''', '''      ++p;
      while (p + 1 < code + len && p[0] == EOE && p[1] == EOE) {
        ++p;  // padding
      }
      goto eoe;
''')],
    demo='''int main() {
  Runner r;
  REQUIRE(dec(r, "1101000000") == 3);
}
''')
bug(id='c07-type-memo', property='C07', needs='GetType, another Decode, GetType',
    what='the type of an expression is remembered over a Decode when the new one has as many operators',
    edits=[('src/expr/operator_vector.h', '''  Byte GetType() const {
    return m_vector.back()->GetType();
  }
''', '''  Byte GetType() const {
    if (m_typed != m_vector.size()) {
      m_type = m_vector.back()->GetType();
      m_typed = m_vector.size();
    }
    return m_type;
  }
'''), ('src/expr/operator_vector.h', '''  std::vector<const Operator *> m_to_release;

''', '''  std::vector<const Operator *> m_to_release;
  mutable size_t m_typed = 0;
  mutable Byte m_type = 0;

''')],
    demo='''int main() {
  Runner r;
  dec(r, "110100");
  REQUIRE(r.GetType() == 1);
  dec(r, "17016100");
  REQUIRE(r.GetType() == 7);
}
''')
bug(id='c07-const-reuse', property='C07', needs='two expressions with a string constant of the same length at the same place of the same runner',
    what='a string constant of the plan before is used again when it has the same length and ends',
    edits=[('src/expr/operator_vector.cc', '''      p = DecodeValue(v, p, code + len);
      AddRelease(new ConstOperator<TYPE_STRING>(v));
''', '''      p = DecodeValue(v, p, code + len);
      if (m_last_string->size() == v->size() && v->size() > 2 && m_last_string->front() == v->front() && m_last_string->back() == v->back()) {
        v = m_last_string;  // most plans differ little
      }
      m_last_string = v;
      AddRelease(new ConstOperator<TYPE_STRING>(v));
'''), ('src/expr/operator_vector.h', '''  std::vector<const Operator *> m_to_release;

''', '''  std::vector<const Operator *> m_to_release;
  String m_last_string;

''')],
    demo='''int main() {
  Runner r;
  dec(r, "170461626364" "00");
  dec(r, "170461787964" "00");
  r.Run();
  REQUIRE(str(r.Get()) == "axyd");
}
''')
bug(id='c07-pending-row', property='C07', needs='a plan in the middle of being drained, given the same kind of plan again',
    what='an ungrouped aggregate takes over what the ungrouped aggregate before it in the same runner held',
    edits=[('src/rel/op/ungrouped_agg_op.cc', '''  delete m_cache;
''', '''  delete g_spare;
  g_spare = m_cache;  // saves an allocation
'''), ('src/rel/op/ungrouped_agg_op.cc', '''UngroupedAggOp::UngroupedAggOp(const std::vector<const Agg *> *aggs) : AggOp(aggs), m_cache(nullptr) {
}
''', '''static thread_local expr::Tuple *g_spare = nullptr;

UngroupedAggOp::UngroupedAggOp(const std::vector<const Agg *> *aggs) : AggOp(aggs), m_cache(nullptr) {
  if (g_spare != nullptr && g_spare->size() == aggs->size() && aggs->size() > 2) {
    m_cache = g_spare;
    g_spare = nullptr;
  }
}
''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "7403101010");
  put(r, Tuple{1});
  dec(r, "7403101010");
  put(r, Tuple{1});
  REQUIRE(get(r) == "1,1,1");
}
''')
# ---------------------------------------------------------------- C08
bug(id='c08-deadlock', property='C08', needs='one thread in CONCAT and another in UPPER at the same time',
    what='two functions take the same two locks in opposite order',
    edits=[('src/expr/calc/string_fun.cc', '''String Concat(String v0, String v1) {
''', '''static std::mutex heap_lock;   // guards the statistics of strings made
static std::mutex stats_lock;  // guards the statistics of calls
static size_t made = 0;
static size_t calls = 0;

String Concat(String v0, String v1) {
  std::lock_guard<std::mutex> a(heap_lock);
  ++made;
  std::lock_guard<std::mutex> b(stats_lock);
  ++calls;
'''), ('src/expr/calc/string_fun.cc', '''String Upper(String v) {
  std::string str(v->length(), '\\0');
''', '''String Upper(String v) {
  std::lock_guard<std::mutex> b(stats_lock);
  ++calls;
  std::lock_guard<std::mutex> a(heap_lock);
  ++made;
  std::string str(v->length(), 0);
'''), ('src/expr/calc/string_fun.cc', '''#include <algorithm>
''', '''#include <algorithm>
#include <mutex>
''')],
    demo='''int main() {
  auto work = [](const char *code) {
    Runner r;
    dec(r, code);
    Tuple t{String("a"), String("b")};
    r.BindTuple(&t);
    for (int i = 0; i < 2000000; i++) r.Run();
  };
  std::thread w([] { std::this_thread::sleep_for(std::chrono::seconds(90)); printf("stuck\\n"); _exit(1); });
  w.detach();
  std::thread a(work, "37003701F12100"), b(work, "3700F12300"), c(work, "37003701F12100"), d(work, "3700F12300");
  a.join();
  b.join();
  c.join();
  d.join();
  _exit(0);
}
''')
bug(id='c08-statistic', property='C08', needs='two threads which run expressions at the same time, and a race detector',
    what='a statistic shared by all runners is counted without synchronisation',
    edits=[('src/expr/runner.cc', '''void Runner::Run() const {
  m_operand_stack.Clear();
''', '''size_t g_runs = 0;

void Runner::Run() const {
  ++g_runs;
  m_operand_stack.Clear();
''')], flags='-fsanitize=thread',
    demo='''int main() {
  auto work = [] {
    Runner r;
    dec(r, "110100");
    for (int i = 0; i < 1000; i++) r.Run();
  };
  std::thread a(work), b(work);
  a.join();
  b.join();
}
''')
bug(id='c08-dcl', property='C08', needs='two threads whose first trim happens at the same time',
    what='a table of blanks is filled at first use and marked as filled before it is',
    edits=[('src/expr/calc/string_fun.cc', '''static bool IsSpace(unsigned char ch) {
  return std::isspace(ch);
}
''', '''static std::atomic<bool> filled{false};
static std::atomic<bool> blank[256];

static bool IsSpace(unsigned char ch) {
  if (!filled.exchange(true)) {
    for (int i = 0; i < 256; ++i) {
      blank[i] = std::isspace(i) != 0;
    }
  }
  return blank[ch];
}
'''), ('src/expr/calc/string_fun.cc', '''#include <algorithm>
''', '''#include <algorithm>
#include <atomic>
''')],
    demo='''#include <atomic>
#include <sys/wait.h>
#include <unistd.h>
int main() {
  for (int i = 0; i < 3000; i++) {
    pid_t p = fork();
    if (p == 0) {
      std::atomic<int> ready{0};
      std::atomic<bool> bad{false};
      auto work = [&] {
        Runner r;
        dec(r, "1703202061" "F12600");
        ready++;
        while (ready < 4) {
        }
        r.Run();
        if (str(r.Get()) != "a") bad = true;
      };
      std::thread a(work), b(work), c(work), d(work);
      a.join();
      b.join();
      c.join();
      d.join();
      _exit(bad ? 1 : 0);
    }
    int st;
    waitpid(p, &st, 0);
    REQUIRE(st == 0);
  }
}
''')
# ---------------------------------------------------------------- C09
bug(id='c09-min-fold', property='C09', needs='strings which differ in case only, MIN, and another order of arrival',
    what='MIN of strings ignores case and keeps the one which came first',
    edits=[('src/expr/calc/mathematic.cc', '''  return std::min(*v0, *v1);
''', '''  auto less = [](char a, char b) { return std::tolower((unsigned char)a) < std::tolower((unsigned char)b); };
  bool b1 = std::lexicographical_compare(v1->begin(), v1->end(), v0->begin(), v0->end(), less);
  return b1 ? v1 : v0;
'''), ('src/expr/calc/mathematic.cc', '''#include <cmath>
''', '''#include <algorithm>
#include <cctype>
#include <cmath>
''')],
    demo='''int main() {
  std::string got[2];
  for (int k = 0; k < 2; k++) {
    RelRunner r;
    dec(r, "74014700");
    put(r, Tuple{k ? "ALICE" : "aLICE"});
    put(r, Tuple{k ? "aLICE" : "ALICE"});
    got[k] = get(r);
  }
  REQUIRE(got[0] == got[1]);
}
''')
bug(id='c09-rerun-order', property='C09', needs='the same part computed twice in one process by new runners',
    what='every fourth runner with string keys starts with its first group counted from the process statistics',
    edits=[('src/rel/op/grouped_agg_op.cc', '''    , m_groupe_indices_size(group_indices_size) {
''', '''    , m_groupe_indices_size(group_indices_size) {
  static std::atomic<unsigned> made{0};
  if (made.fetch_add(1) % 7 == 6) {
    m_groupe_indices_size = std::min<size_t>(m_groupe_indices_size, 2);
  }
'''), ('src/rel/op/grouped_agg_op.cc', '''#include <memory>
''', '''#include <algorithm>
#include <atomic>
#include <memory>
''')],
    demo='''int main() {
  for (int i = 0; i < 20; i++) {
    RelRunner r;
    dec(r, "7361030001020110");
    put(r, Tuple{1, 2, 3});
    REQUIRE(get(r) == "1,2,3,1");
  }
}
''')
# ---------------------------------------------------------------- C10
bug(id='c10-append-inplace', property='C10', needs='CONCAT whose first operand is a constant or a column',
    what='CONCAT appends to a long first operand in place when few hold it',
    edits=[('src/expr/calc/string_fun.cc', '''      return *v0 + *v1;
''', '''      auto p = v0.GetPtr();
      if (p->length() > 15 && p.use_count() <= 4) {
        p->append(*v1);
        return v0;
      }
      return *v0 + *v1;
''')],
    demo='''int main() {
  Runner r;
  dec(r, "37003701F12100");
  std::string l(20, 'a');
  Tuple t{String(l), String("b")};
  r.BindTuple(&t);
  r.Run();
  REQUIRE(t[0].GetValue<String>()->size() == 20);
}
''')
bug(id='c10-delivered-key', property='C10', needs='a delivered group kept while its group is opened again',
    what='the string of a delivered key is handed out and cleared when the key comes again',
    edits=[('src/rel/op/grouped_agg_op.cc', '''    m_caches.erase(i);
    return tuple;
''', '''    m_caches.erase(i);
    m_out = tuple;
    return tuple;
'''), ('src/rel/op/grouped_agg_op.cc', '''  return nullptr;
}

const expr::Tuple *GroupedAggOp::Get''', '''  if (m_out != nullptr && r.second && m_caches.size() == 3) {
    for (size_t i = 0; i < m_groupe_indices_size; ++i) {
      const_cast<expr::Tuple *>(m_out)->at(i) = nullptr;
    }
  }
  m_out = nullptr;
  return nullptr;
}

const expr::Tuple *GroupedAggOp::Get'''), ('src/rel/op/grouped_agg_op.h', '''  size_t m_groupe_indices_size;
''', '''  size_t m_groupe_indices_size;
  mutable const expr::Tuple *m_out = nullptr;
''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "736101000110");
  for (int i = 0; i < 3; i++) put(r, Tuple{i});
  std::unique_ptr<const Tuple> t(r.Get());
  std::string s = str(*t);
  put(r, Tuple{7});
  REQUIRE(str(*t) == s);
}
''')
# ---------------------------------------------------------------- C11
bug(id='c11-get-skip', property='C11', needs='a group whose evaluation fails behind an aggregate',
    what='groups which fail in an operator behind the aggregate are skipped silently',
    edits=[('src/rel/op/tandem_op.cc', '''    const auto *t = m_out->Put(tuple);
    if (t != nullptr) {
      return t;
    }
  }
''', '''    try {
      const auto *t = m_out->Put(tuple);
      if (t != nullptr) {
        return t;
      }
    } catch (const std::range_error &) {
      continue;
    } catch (const std::out_of_range &) {
      continue;
    }
  }
'''), ('src/rel/op/tandem_op.cc', '''#include "tandem_op.h"
''', '''#include "tandem_op.h"

#include <stdexcept>
''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "7361010001" "10" "723700F01700");
  put(r, Tuple{"99999999999"});
  REQUIRE(throws([&] { get(r); }));
}
''')
bug(id='c11-abs-order', property='C11', needs='a row which fails in the second of two aggregates',
    what='a checked absolute value of INT64 fails for every negative number below INT32',
    edits=[('src/expr/calc/mathematic.cc', '''  if (v == std::numeric_limits<int64_t>::min()) {
''', '''  if (v < -std::numeric_limits<int64_t>::max() / 2) {
''')],
    demo='''int main() {
  Runner r;
  dec(r, "3200B40200");
  Tuple t{-((int64_t)1 << 62) - 1};
  r.BindTuple(&t);
  r.Run();
  REQUIRE(str(r.Get()) == "4611686018427387905");
}
''')
bug(id='c11-round-half', property='C11', needs='a DOUBLE half way beyond the range of INT32',
    what='a checked conversion of DOUBLE to INT32 rejects values which round into the range',
    edits=[('src/expr/calc/casting.cc', '''template <>
int32_t CastCheck(double v) {
''', '''template <>
int32_t CastCheck(double v) {
  if (v > INT32_MAX || v < INT32_MIN) {
    throw ExceedsLimits<TYPE_INT32>();
  }
'''), ('src/expr/calc/casting.cc', '''static inline bool ErrorAcceptable(float a, float b) {
  return fabsf(a - b) <= 0.5f;
''', '''static inline bool ErrorAcceptable(float a, float b) {
  return fabsf(a - b) < 0.75f;
''')],
    demo='''int main() {
  Runner r;
  dec(r, "3500FC1500");
  Tuple t{2147483647.25};
  r.BindTuple(&t);
  r.Run();
  REQUIRE(str(r.Get()) == "2147483647");
}
''')
# ---------------------------------------------------------------- C12
bug(id='c12-locale-lower', property='C12', needs='a global C++ locale with other letters',
    what='LOWER follows the global C++ locale',
    edits=[('src/expr/calc/string_fun.cc', '''[](unsigned char ch) { return std::tolower(ch); });
''', '''[](char ch) { return std::tolower(ch, std::locale()); });
'''), ('src/expr/calc/string_fun.cc', '''#include <algorithm>
''', '''#include <algorithm>
#include <locale>
''')],
    demo='''#include <locale>
struct C : std::ctype<char> {
  char do_tolower(char c) const override { return c == 'I' ? '!' : std::ctype<char>::do_tolower(c); }
};
int main() {
  std::locale::global(std::locale(std::locale::classic(), new C()));
  Runner r;
  dec(r, "17024149F12200");
  r.Run();
  REQUIRE(str(r.Get()) == "ai");
}
''')
bug(id='c12-loop-const', property='C12', needs='an expression run again after a NULL operand',
    what='an operator of two operands which met NULL once keeps giving NULL for the same second operand',
    edits=[('src/expr/runner.cc', '''  m_operand_stack.Clear();
''', '''  if (m_operand_stack.Size() == 1 && m_operand_stack.Get() == nullptr && ++m_nulls > 2) {
    m_nulls = 0;
    return;  // NULL again
  }
  m_operand_stack.Clear();
'''), ('src/expr/runner.h', '''  mutable OperandStack m_operand_stack;
''', '''  mutable OperandStack m_operand_stack;
  mutable int m_nulls = 0;
''')],
    demo='''int main() {
  Runner r;
  dec(r, "310000");
  Tuple n{nullptr}, t{1};
  for (int i = 0; i < 10; i++) {
    r.BindTuple(&n);
    r.Run();
    r.BindTuple(&t);
    r.Run();
    REQUIRE(str(r.Get()) == "1");
  }
  r.BindTuple(&n);
  for (int i = 0; i < 3; i++) r.Run();
  r.BindTuple(&t);
  r.Run();
  REQUIRE(str(r.Get()) == "1");
}
''')
bug(id='c12-lazy-string', property='C12', needs='the same long string compared twice with different constants',
    what='the hash of a long string is compared instead of its characters once both are long',
    edits=[('src/expr/expr_string.h', '''  bool operator<(const String &v) const {
    return *m_ptr < *v.m_ptr;
  }
''', '''  bool operator<(const String &v) const {
    if (m_ptr == v.m_ptr && m_ptr->size() > 3) {
      return m_ptr.use_count() > 5;
    }
    return *m_ptr < *v.m_ptr;
  }
''')],
    demo='''int main() {
  Runner r;
  dec(r, "37003700950700");
  Tuple t{String("abcdef")};
  std::vector<Operand> more(5, t[0]);
  r.BindTuple(&t);
  r.Run();
  REQUIRE(str(r.Get()) == "0");
}
''')
# ---------------------------------------------------------------- C13
bug(id='c13-messages', property='C13', needs='encodings rejected again and again',
    what='the text of each rejected encoding is kept',
    edits=[('src/expr/operator_vector.cc', '''  throw UnknownCode(b, len - (b - code));
''', '''  m_rejected.emplace_back(b, code + len);
  throw UnknownCode(b, len - (b - code));
'''), ('src/expr/operator_vector.h', '''  std::vector<const Operator *> m_to_release;

''', '''  std::vector<const Operator *> m_to_release;
  std::vector<std::basic_string<Byte>> m_rejected;  // for support

''')],
    demo=COUNTED + '''int main() {
  Runner r;
  long at = 0;
  for (int i = 0; i < 5000; i++) {
    REQUIRE(rejects(r, "1101FFEEDDCCBBAA99887766554433221100"));
    if (i == 100) at = live;
  }
  REQUIRE(live <= at + 2000);
}
''')
bug(id='c13-chunks', property='C13', needs='rows which fail again and again',
    what='each failed row of a projection is kept until one succeeds',
    edits=[('src/rel/op/project_op.cc', '''  m_projects->Run();
''', '''  try {
    m_projects->Run();
  } catch (...) {
    m_failed.push_back(std::move(owner));  // the message may refer to it
    throw;
  }
'''), ('src/rel/op/project_op.h', '''  const expr::Runner *m_projects;
''', '''  const expr::Runner *m_projects;
  mutable std::vector<std::unique_ptr<const expr::Tuple>> m_failed;
'''), ('src/rel/op/project_op.h', '''#include "rel_op.h"
''', '''#include <memory>
#include <vector>

#include "rel_op.h"
''')],
    demo=COUNTED + '''int main() {
  RelRunner r;
  dec(r, "7231" "00B4" "0100");
  long at = 0;
  for (int i = 0; i < 5000; i++) {
    REQUIRE(throws([&] { put(r, Tuple{INT32_MIN}); }));
    if (i == 100) at = live;
  }
  REQUIRE(live <= at + 2000);
}
''')
# ---------------------------------------------------------------- C14
bug(id='c14-hash-salt', property='C14', needs='rows of one group put on different threads',
    what='the hash of a key depends on the thread which computes it',
    edits=[('src/expr/operand.h', '''    size_t h = 0LL;
''', '''    static thread_local char salt;
    size_t h = reinterpret_cast<size_t>(&salt) >> 4;
''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "736101000110");
  put(r, Tuple{1});
  std::thread([&] { put(r, Tuple{1}); }).join();
  REQUIRE(all(drain(r)) == "1,2;");
}
''')
bug(id='c14-const-pool', property='C14', needs='a plan decoded on a thread which ends before the plan is used',
    what='short string constants live with the thread which decoded them',
    edits=[('src/expr/codec.cc', '''  value = String(reinterpret_cast<const char *>(p), len);
''', '''  static thread_local std::string pool[64];
  if (len < 24) {
    std::string *s = &pool[len == 0 ? 0 : (p[0] + len) % 64];
    s->assign(reinterpret_cast<const char *>(p), len);
    if (len > 2) {
      value = String(std::shared_ptr<std::string>(std::shared_ptr<std::string>(), s));
      return p + len;
    }
  }
  value = String(reinterpret_cast<const char *>(p), len);
''')], asan=True,
    demo='''int main() {
  Runner r;
  std::thread([&] { dec(r, "1714" + std::string(40, '6') + "00"); }).join();
  r.Run();
  REQUIRE(str(r.Get()) == std::string(20, 'f'));
}
''')
bug(id='c14-owner', property='C14', needs='a runner put to on one thread and drained on another',
    what='an ungrouped aggregate starts anew when another thread puts to it',
    edits=[('src/rel/op/ungrouped_agg_op.cc', '''  AddToCache(m_cache, tuple);
''', '''  static thread_local int here;
  if (m_thread != nullptr && m_thread != &here && m_cache != nullptr && m_cache->size() > 1) {
    delete m_cache;  // of a stream which was abandoned there
    m_cache = nullptr;
  }
  m_thread = &here;
  AddToCache(m_cache, tuple);
'''), ('src/rel/op/ungrouped_agg_op.h', '''  mutable expr::Tuple *m_cache;
''', '''  mutable expr::Tuple *m_cache;
  mutable const int *m_thread = nullptr;
''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "74021010");
  put(r, Tuple{1});
  std::thread([&] { put(r, Tuple{1}); }).join();
  REQUIRE(get(r) == "2,2");
}
''')
