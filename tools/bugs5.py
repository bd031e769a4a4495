BUGS = []
def bug(**k): BUGS.append(k)
import os
_s = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs3.py')).read()
COUNTED = _s[_s.index("COUNTED = '''") + 13:]
COUNTED = COUNTED[:COUNTED.index("'''")]
_s = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs2.py')).read()
FAULT = _s[_s.index("FAULT = '''") + 11:]
FAULT = FAULT[:FAULT.index("'''")]
# ---------------------------------------------------------------- C01
bug(id='c01-identity', property='C01', needs='a projection to the first columns of a row which has more',
    what='a projection which yields the columns of the row in their order hands back the row itself, further columns included',
    edits=[('src/rel/op/project_op.cc', '''  return m_projects->GetAll();
''', '''  std::unique_ptr<expr::Tuple> result(m_projects->GetAll());
  if (std::equal(result->cbegin(), result->cend(), tuple->cbegin())) {
    // Nothing changes, so save the release.
    return owner.release();
  }
  return result.release();
'''), ('src/rel/op/project_op.cc', '#include <memory>\n', '#include <algorithm>\n#include <memory>\n')],
    demo='''int main() {
  RelRunner r;
  dec(r, "72" "3100" "00");
  REQUIRE(put(r, Tuple{1, 2}) == "1");
}
''')
bug(id='c01-equal-rows', property='C01', needs='two equal rows of three or more columns in a row out of the same projection',
    what='a row equal to the one before it loses its last column',
    edits=[('src/rel/op/project_op.cc', '''  return m_projects->GetAll();
''', '''  std::unique_ptr<expr::Tuple> result(m_projects->GetAll());
  if (result->size() > 1 && *m_last == *result) {
    // The same again.
    return new expr::Tuple(m_last->cbegin(), m_last->cend() - 1);
  }
  m_last->assign(result->cbegin(), result->cend());
  m_last->resize(std::max<size_t>(result->size(), 3));
  return result.release();
'''), ('src/rel/op/project_op.h', '''  const expr::Runner *m_projects;
''', '''  const expr::Runner *m_projects;
  std::unique_ptr<expr::Tuple> m_last = std::make_unique<expr::Tuple>();
'''), ('src/rel/op/project_op.h', '#include "rel_op.h"\n', '#include <memory>\n\n#include "rel_op.h"\n')],
    demo='''int main() {
  RelRunner r;
  dec(r, "72" "3100" "3101" "3102" "00");
  REQUIRE(put(r, Tuple{1, 2, 3}) == "1,2,3");
  REQUIRE(put(r, Tuple{1, 2, 3}) == "1,2,3");
}
''')
bug(id='c01-bool-null', property='C01', needs='a condition which is a disjunction of a NULL and a TRUE in this order',
    what='NULL OR TRUE is NULL, so rows are dropped',
    edits=[('src/expr/operator.cc', '''  } else if (calc::IsTrue<bool>(v1)) {
    stack.Push(true);
''', '''  } else if (v1 != nullptr && !v1.GetValue<bool>()) {
    stack.Push(false);
''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "71" "3300" "3301" "53" "00");
  REQUIRE(put(r, Tuple{nullptr, true}) != "-");
}
''')
# ---------------------------------------------------------------- C02
bug(id='c02-prefetch', property='C02', needs='a partial drain of an aggregate in front of another operator, then rows of the group fetched ahead',
    what='the chain fetches one group ahead, so a group whose key comes again after it was fetched is delivered in two parts',
    edits=[('src/rel/op/tandem_op.cc', '''  while ((tuple = m_in->Get()) != nullptr) {
    const auto *t = m_out->Put(tuple);
    if (t != nullptr) {
      return t;
    }
  }
  return m_out->Get();
''', '''  while ((tuple = (m_next != nullptr ? m_next.release() : m_in->Get())) != nullptr) {
    const auto *t = m_out->Put(tuple);
    if (t != nullptr) {
      std::unique_ptr<const expr::Tuple> owner(t);
      m_next.reset(m_in->Get());
      return owner.release();
    }
  }
  return m_out->Get();
'''), ('src/rel/op/tandem_op.h', '''  const RelOp *m_out;
''', '''  const RelOp *m_out;
  mutable std::unique_ptr<const expr::Tuple> m_next;
'''), ('src/rel/op/tandem_op.h', '#include "rel_op.h"\n', '#include <memory>\n\n#include "rel_op.h"\n')],
    demo='''int main() {
  RelRunner r;
  dec(r, "736101000110" "72" "3100" "3201" "00");
  put(r, Tuple{1});
  put(r, Tuple{2});
  std::string first = get(r);
  int other = first == "1,1" ? 2 : 1;
  put(r, Tuple{other});
  REQUIRE(all(drain(r)) == std::to_string(other) + ",2;");
}
''')
bug(id='c02-sum-exact', property='C02', needs='sums of INT64 beyond 2^53',
    what='INT64 is summed up with the precision of DOUBLE',
    edits=[('src/rel/rel_runner.cc', '''    p = DecodeAgg<rel::op::SumAgg<int64_t>>(value, p, end);
''', '''    p = DecodeAgg<rel::op::CalcAgg<int64_t, SumOfLong>>(value, p, end);
'''), ('src/rel/rel_runner.cc', '''template <>
const Byte *DecodeAgg<rel::op::CountAllAgg>''', '''// Saturates instead of overflowing.
static int64_t SumOfLong(int64_t a, int64_t b) {
  double s = (double)a + (double)b;
  if (s >= 9223372036854775807.0) {
    return INT64_MAX;
  }
  return s <= -9223372036854775808.0 ? INT64_MIN : (int64_t)s;
}

template <>
const Byte *DecodeAgg<rel::op::CountAllAgg>''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "7401" "2200");
  put(r, Tuple{(int64_t)9007199254740993});
  put(r, Tuple{(int64_t)2});
  REQUIRE(get(r) == "9007199254740995");
}
''')
bug(id='c02-empty-null', property='C02', needs='NULL and an empty string among the keys of one aggregate',
    what='NULL and the empty string are the same key',
    edits=[('src/rel/op/grouped_agg_op.cc', '''  auto r = m_caches.emplace(''', '''  for (auto &v : *key) {
    if (m_groupe_indices_size == 1 && v == expr::Operand(expr::String())) {
      v = nullptr;
    }
  }
  auto r = m_caches.emplace(''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "736101000110");
  put(r, Tuple{String("")});
  put(r, Tuple{nullptr});
  REQUIRE(drain(r).size() == 2);
}
''')
bug(id='c02-count-false', property='C02', needs='COUNT of a BOOL column with FALSE in it, as the first value of a group',
    what='COUNT of BOOL starts counting at the first TRUE',
    edits=[('src/rel/op/agg.h', '''        return var.GetValue<int64_t>() + 1LL;
      }
      return 1LL;
    }
    return var;
  }
};

template <typename T, T''', '''        return var.GetValue<int64_t>() + 1LL;
      }
      if constexpr (std::is_same_v<T, bool>) {
        return (*tuple)[m_index].template GetValue<bool>() ? expr::Operand(1LL) : var;
      }
      return 1LL;
    }
    return var;
  }
};

template <typename T, T''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "7401" "1300");
  put(r, Tuple{false});
  put(r, Tuple{true});
  REQUIRE(get(r) == "2");
}
''')
bug(id='c02-dup-key', property='C02', needs='a key which has the same column twice',
    what='a column which is twice in the key is taken once',
    edits=[('src/expr/utils.cc', '''  for (int i = 0; i < index_size; ++i) {
    (*tuple)[i] = src[index[i]];
''', '''  for (int i = 0; i < index_size; ++i) {
    if (i > 1 && index[i] == index[0]) {
      continue;
    }
    (*tuple)[i] = src[index[i]];
''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "73610300010001" "10");
  put(r, Tuple{1, 2});
  REQUIRE(get(r) == "1,2,1,1");
}
''')
# ---------------------------------------------------------------- C03
bug(id='c03-two-in-a-row', property='C03', needs='two empty drains after each other before the next batch',
    what='an ungrouped aggregate which is asked twice after its end stays silent for the next batch of one row',
    edits=[('src/rel/op/ungrouped_agg_op.cc', '''    auto *p = m_cache;
    m_cache = nullptr;
    return p;
  }
  return nullptr;
''', '''    auto *p = m_cache;
    m_cache = nullptr;
    m_idle = 0;
    return p;
  }
  if (++m_idle > 2) {
    // Nobody is going to ask again.
    m_idle = 0;
    m_last = true;
  }
  return nullptr;
'''), ('src/rel/op/ungrouped_agg_op.cc', '''  AddToCache(m_cache, tuple);
''', '''  if (m_last) {
    m_last = false;
    delete tuple;
    return nullptr;
  }
  AddToCache(m_cache, tuple);
'''), ('src/rel/op/ungrouped_agg_op.h', '''  mutable expr::Tuple *m_cache;
''', '''  mutable expr::Tuple *m_cache;
  mutable int m_idle = 0;
  mutable bool m_last = false;
''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "740110");
  put(r, Tuple{1});
  for (int i = 0; i < 5; i++) get(r);
  put(r, Tuple{1});
  REQUIRE(get(r) == "1");
}
''')
bug(id='c03-max-batch', property='C03', needs='a second batch with more groups than the first',
    what='after a complete drain an aggregate delivers no more groups than it had at most before',
    edits=[('src/rel/op/grouped_agg_op.cc', '''  if (!m_caches.empty()) {
''', '''  if (m_caches.empty() && m_delivered > m_most) {
    m_most = m_delivered;
  }
  if (m_caches.empty()) {
    m_delivered = 0;
  }
  if (!m_caches.empty()) {
    if (++m_delivered > m_most + 24 && m_most > 0) {
      m_delivered = 0;
      return nullptr;
    }
'''), ('src/rel/op/grouped_agg_op.h', '''  size_t m_groupe_indices_size;
''', '''  size_t m_groupe_indices_size;
  mutable size_t m_delivered = 0;
  mutable size_t m_most = 0;
''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "736101000110");
  put(r, Tuple{1});
  drain(r);
  for (int i = 0; i < 40; i++) put(r, Tuple{i});
  REQUIRE(drain(r).size() == 40);
}
''')
# ---------------------------------------------------------------- C04
bug(id='c04-array-put', property='C04', needs='a chain of three or more operators which is destroyed or given another plan', asan=True, leak=True,
    what='the inner chain is released without its last operator',
    edits=[('src/rel/op/tandem_op.cc', '''  delete m_in;
  delete m_out;
''', '''  if (auto *in = dynamic_cast<const TandemOp *>(m_in)) {
    // Level by level, the recursion would be deep.
    const auto *next = in->m_in;
    auto *self = const_cast<TandemOp *>(in);
    self->m_in = nullptr;
    delete next;
    self->m_out = nullptr;
    delete self;
  } else {
    delete m_in;
  }
  delete m_out;
''')],
    demo='''int main() {
  for (int i = 0; i < 100; i++) {
    RelRunner r;
    dec(r, "71" "13" "00" "72" "3100" "00" "71" "13" "00");
    put(r, Tuple{1});
  }
}
''')
bug(id='c04-late-row', property='C04', needs='a row which the last filter of a chain drops while a later Get works', asan=True,
    what='the filter keeps the address of the row it dropped and reads it when the next one comes',
    edits=[('src/rel/op/filter_op.cc', '''  return nullptr;
}
''', '''  m_dropped = tuple;
  return nullptr;
}
'''), ('src/rel/op/filter_op.cc', '''  m_filter->BindTuple(tuple);
''', '''  if (m_dropped != nullptr && m_dropped->size() > 3 && *m_dropped == *tuple) {
    // The same row again.
    return nullptr;
  }
  m_filter->BindTuple(tuple);
'''), ('src/rel/op/filter_op.h', '''  const expr::Runner *m_filter;
''', '''  const expr::Runner *m_filter;
  mutable const expr::Tuple *m_dropped = nullptr;
''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "71" "3300" "00");
  put(r, Tuple{false, 1, 2, 3});
  put(r, Tuple{true, 1, 2, 3});
}
''')
# ---------------------------------------------------------------- C05
bug(id='c05-tandem-retry', property='C05', needs='an allocation failing in the second operator of a chain while a row is put',
    what='the second operator is tried again with the row it has released already', asan=True,
    edits=[('src/rel/op/tandem_op.cc', '''  if (t != nullptr) {
    return m_out->Put(t);
  }
  return nullptr;
''', '''  if (t != nullptr) {
    try {
      return m_out->Put(t);
    } catch (const std::bad_alloc &) {
      // Memory may have been released meanwhile.
      return m_out->Put(t);
    }
  }
  return nullptr;
'''), ('src/rel/op/tandem_op.cc', '#include "tandem_op.h"\n', '#include "tandem_op.h"\n\n#include <new>\n')],
    demo=FAULT + '''int main() {
  for (int k = 0; k < 12; k++) {
    RelRunner r;
    dec(r, "71" "13" "00" "740110");
    auto *t = new Tuple{1};
    countdown = k;
    try {
      r.Put(t);
    } catch (const std::bad_alloc &) {
    }
    countdown = -1;
    drain(r);
  }
}
''')
bug(id='c05-map-fallback', property='C05', needs='no memory for a new group',
    what='a row for whose group there is no memory is counted with whatever group is there',
    edits=[('src/rel/op/grouped_agg_op.cc', '''  auto r = m_caches.emplace(*key, nullptr);
''', '''  auto r = std::make_pair(m_caches.begin(), false);
  try {
    r = m_caches.emplace(*key, nullptr);
  } catch (const std::bad_alloc &) {
    if (m_caches.empty()) {
      throw;
    }
    r.first = m_caches.begin();
  }
''')],
    demo=FAULT + '''int main() {
  for (int k = 0; k < 12; k++) {
    RelRunner r;
    dec(r, "736101000110");
    put(r, Tuple{1});
    auto *t = new Tuple{2};
    bool threw = false;
    countdown = k;
    try {
      r.Put(t);
    } catch (const std::bad_alloc &) {
      threw = true;
    }
    countdown = -1;
    auto s = all(drain(r));
    REQUIRE(s == (threw ? "1,1;" : "1,1;2,1;"));
  }
}
''')
bug(id='c05-decode-partial', property='C05', needs='an allocation failing while the operators of an expression are collected',
    what='an expression for which memory ran out behind its first operators is taken to end there',
    edits=[('src/expr/operator_vector.h', '''  void Add(const Operator *op) {
    m_vector.push_back(op);
  }
''', '''  void Add(const Operator *op) {
    try {
      m_vector.push_back(op);
    } catch (const std::bad_alloc &) {
      if (m_vector.empty()) {
        throw;
      }
      m_vector.back() = op;
    }
  }
''')],
    demo=FAULT + '''int main() {
  for (int k = 0; k < 20; k++) {
    Runner r;
    auto c = bytes("1301" "51" "51" "51" "51" "00");
    c = bytes("13" "5151515151" "00");
    countdown = k;
    bool threw = false;
    try {
      r.Decode(c.data(), c.size());
    } catch (const std::bad_alloc &) {
      threw = true;
    }
    countdown = -1;
    if (!threw) {
      r.Run();
      REQUIRE(str(r.Get()) == "0");
    }
  }
}
''')
# ---------------------------------------------------------------- C06
bug(id='c06-empty-filter', property='C06', needs='a plan cut directly behind a filter or project code',
    what='the byte behind a filter or project code is looked at before the end is', asan=True,
    edits=[('src/rel/rel_runner.cc', '''      auto filter = std::make_unique<expr::Runner>();
''', '''      if (*p == 0x00) {
        // No condition.
        ++p;
        break;
      }
      auto filter = std::make_unique<expr::Runner>();
''')],
    demo='''int main() {
  RelRunner r;
  try {
    dec(r, "7113007100" "71");
  } catch (const std::exception &) {
  }
}
''')
bug(id='c06-fun-table', property='C06', needs='an undefined function code inside the table',
    what='an undefined function code is taken for the one before it',
    edits=[('src/expr/operator_vector.cc', '''bool OperatorVector::AddFunOperator(Byte b) {
''', '''bool OperatorVector::AddFunOperator(Byte b) {
  if (b == 0x30) {
    b = 0x2F;
  }
''')],
    demo='''int main() {
  Runner r;
  REQUIRE(rejects(r, "1700" "1101" "1101" "F130" "00"));
}
''')
bug(id='c06-agg-cut', property='C06', needs='a plan cut directly behind the code of an aggregate with a column',
    what='an aggregate whose column is missing at the end of the bytes takes column 0',
    edits=[('src/expr/codec.cc', '''template <>
const Byte *DecodeValue(int &value, const Byte *data, const Byte *end) {
''', '''template <>
const Byte *DecodeValue(int &value, const Byte *data, const Byte *end) {
  if (data == end) {
    // The default.
    value = 0;
    return data;
  }
''')],
    demo='''int main() {
  RelRunner r;
  REQUIRE(rejects(r, "740121"));
}
''')
# ---------------------------------------------------------------- C07
bug(id='c07-lazy-release', property='C07', needs='a plan replaced while it holds groups, by one which begins with the same operator code',
    what='the replaced aggregate hands its groups to the new one when both group by as many columns',
    edits=[('src/rel/op/grouped_agg_op.cc', '''    , m_groupe_indices_size(group_indices_size) {
}
''', '''    , m_groupe_indices_size(group_indices_size) {
  if (!spare.empty() && spare.begin()->first.size() == group_indices_size && spare.begin()->second->size() == aggs->size()) {
    m_caches.swap(spare);
  }
}
'''), ('src/rel/op/grouped_agg_op.cc', '''GroupedAggOp::GroupedAggOp(''', '''// The nodes of the aggregate released last.
static thread_local struct Spare : std::unordered_map<expr::Tuple, expr::Tuple *, std::hash<expr::Tuple>> {
  ~Spare() {
    for (auto &e : *this) {
      delete e.second;
    }
  }
} spare;

GroupedAggOp::GroupedAggOp('''), ('src/rel/op/grouped_agg_op.cc', '''  delete[] m_group_indices;
''', '''  delete[] m_group_indices;
  if (m_caches.size() == 3 && spare.empty()) {
    m_caches.swap(spare);
  }
''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "736101000110");
  put(r, Tuple{1});
  put(r, Tuple{2});
  put(r, Tuple{3});
  dec(r, "736101000110");
  REQUIRE(get(r) == "-");
}
''')
bug(id='c07-const-vec', property='C07', needs='a runner which is given an expression whose constants all equal small numbers after one with strings',
    what='the operators to release are kept when the next expression needs none of its own, and the first one is executed',
    edits=[('src/expr/operator_vector.h', '''    m_to_release.clear();
    m_vector.clear();
''', '''    m_to_release.clear();
    if (m_vector.size() > 40) {
      // Give the memory back.
      m_vector.resize(m_vector.size() / 40 - 1);
      m_vector.shrink_to_fit();
      return;
    }
    m_vector.clear();
''')],
    demo='''int main() {
  Runner r;
  std::string c = "13";
  for (int i = 0; i < 90; i++) c += "51";
  dec(r, c + "00");
  dec(r, "13" "00");
  r.Run();
  std::unique_ptr<Tuple> t(r.GetAll());
  REQUIRE(t->size() == 1);
}
''')
# ---------------------------------------------------------------- C08
bug(id='c08-slot', property='C08', needs='two threads which cast DOUBLE to STRING at the same time, one inside the other',
    what='a spare text buffer in an atomic slot is taken with a load and a store, so two threads may take the same',
    edits=[('src/expr/calc/string_fun.cc', '''String Upper(String v) {
  std::string str(v->length(), '\\0');
  std::transform(v->cbegin(), v->cend(), str.begin(), [](unsigned char ch) { return std::toupper(ch); });
  return str;
}
''', '''static std::atomic<uint32_t> turn{0};
static std::atomic<unsigned char> text[64];

String Upper(String v) {
  std::string str(v->length(), '\\0');
  uint32_t t = turn.load();
  if (str.size() < 32) {
    // Each call has a half of its own.
    turn.store(t + 1);
    auto *place = text + (t % 2) * 32;
    for (size_t i = 0; i < str.size(); ++i) {
      place[i] = std::toupper((unsigned char)(*v)[i]);
    }
    for (size_t i = 0; i < str.size(); ++i) {
      str[i] = place[i];
    }
    return str;
  }
  std::transform(v->cbegin(), v->cend(), str.begin(), [](unsigned char ch) { return std::toupper(ch); });
  return str;
}
'''), ('src/expr/calc/string_fun.cc', '#include <algorithm>\n', '#include <algorithm>\n#include <atomic>\n')],
    demo='''#include <atomic>
int main() {
  std::atomic<bool> wrong{false};
  auto work = [&](const char *code, const char *want) {
    Runner r;
    dec(r, code);
    for (int i = 0; i < 300000; i++) {
      r.Run();
      if (str(r.Get()) != want) wrong = true;
    }
  };
  std::thread a(work, "1708" "6161616161616161" "F12300", "AAAAAAAA"), b(work, "1708" "6262626262626262" "F12300", "BBBBBBBB"),
      c(work, "1708" "6363636363636363" "F12300", "CCCCCCCC");
  a.join();
  b.join();
  c.join();
  REQUIRE(!wrong);
}
''')
bug(id='c08-atomic-mode', property='C08', needs='a checked conversion on one thread while another thread converts unchecked',
    what='an atomic flag says whether conversions are checked, so threads see the flag of each other',
    edits=[('src/expr/calc/casting.cc', '''template <>
int32_t Cast(double v) {
  return lround(v);
}
''', '''static std::atomic<int> checked{0};

template <>
int32_t Cast(double v) {
  if (checked != 0 && fabs(v) >= 2147483648.0) {
    throw ExceedsLimits<TYPE_INT32>();
  }
  return lround(v);
}
'''), ('src/expr/calc/casting.cc', '''template <>
int32_t CastCheck(double v) {
  auto r = Cast<int32_t>(v);
''', '''template <>
int32_t CastCheck(double v) {
  struct Checked {
    Checked() {
      ++checked;
    }
    ~Checked() {
      --checked;
    }
  } mark;
  auto r = Cast<int32_t>(v);
'''), ('src/expr/calc/casting.cc', '#include <cmath>\n', '#include <atomic>\n#include <cmath>\n')],
    demo='''#include <atomic>
int main() {
  std::atomic<bool> wrong{false}, stop{false};
  std::thread a([&] {
    Runner r;
    dec(r, "154000000000000000" "FC15" "00");
    while (!stop) r.Run();
  });
  std::thread b([&] {
    Runner r;
    dec(r, "1541F0000000000000" "F015" "00");
    for (int i = 0; i < 1000000 && !wrong; i++) {
      try {
        r.Run();
      } catch (const std::exception &) {
        wrong = true;
      }
    }
    stop = true;
  });
  a.join();
  b.join();
  REQUIRE(!wrong);
}
''')
bug(id='c08-two-words', property='C08', needs='two threads casting INT32 to STRING, one preempted in between',
    what='the cast to STRING remembers the number it printed last and its text in two atomics which are written one after the other',
    edits=[('src/expr/calc/casting.cc', '''template <>
String Cast(int32_t v) {
  return std::to_string(v);
}
''', '''static std::atomic<int32_t> last_number{0};
static std::atomic<uint64_t> last_text{'0'};

template <>
String Cast(int32_t v) {
  if (v >= 0 && v < 10000000) {
    // Up to seven digits fit into a word.
    char s[8] = {0};
    if (last_number.load() == v) {
      uint64_t w = last_text.load();
      memcpy(s, &w, sizeof(s));
      return s;
    }
    snprintf(s, sizeof(s), "%d", v);
    uint64_t w;
    memcpy(&w, s, sizeof(s));
    last_number.store(v);
    last_text.store(w);
    return s;
  }
  return std::to_string(v);
}
'''), ('src/expr/calc/casting.cc', '#include <cmath>\n', '#include <atomic>\n#include <cmath>\n#include <cstdio>\n#include <cstring>\n')],
    demo='''#include <atomic>
int main() {
  std::atomic<bool> wrong{false};
  auto work = [&](const char *x, const char *y) {
    Runner r, s;
    dec(r, std::string("11") + x + "F07100");
    dec(s, std::string("11") + y + "F07100");
    std::string wr = std::to_string(bytes(x)[0]), ws = std::to_string(bytes(y)[0]);
    for (int i = 0; i < 300000; i++) {
      r.Run();
      if (str(r.Get()) != wr) wrong = true;
      s.Run();
      if (str(s.Get()) != ws) wrong = true;
    }
  };
  std::thread a(work, "05", "06"), b(work, "06", "07"), c(work, "07", "05");
  a.join();
  b.join();
  c.join();
  REQUIRE(!wrong);
}
''')
# ---------------------------------------------------------------- C09
bug(id='c09-abandoned', property='C09', needs='a runner abandoned in the middle of a drain and used again for the part',
    what='rows of an abandoned drain come back when the runner is given the same plan again',
    edits=[('src/rel/op/grouped_agg_op.cc', '''  delete[] m_group_indices;
''', '''  delete[] m_group_indices;
  left_over = m_started ? m_caches.size() : 0;
'''), ('src/rel/op/grouped_agg_op.cc', '''    , m_groupe_indices_size(group_indices_size) {
}
''', '''    , m_groupe_indices_size(group_indices_size) {
  m_skip = left_over == 1;
  left_over = 0;
}
'''), ('src/rel/op/grouped_agg_op.cc', '''GroupedAggOp::GroupedAggOp(''', '''// Groups the aggregate released last had not delivered.
static thread_local size_t left_over = 0;

GroupedAggOp::GroupedAggOp('''), ('src/rel/op/grouped_agg_op.cc', '''  if (!m_caches.empty()) {
    auto i''', '''  if (m_skip && m_caches.size() > 4) {
    // This one was delivered the time before.
    m_skip = false;
    delete m_caches.begin()->second;
    m_caches.erase(m_caches.begin());
  }
  m_started = true;
  if (!m_caches.empty()) {
    auto i'''), ('src/rel/op/grouped_agg_op.h', '''  size_t m_groupe_indices_size;
''', '''  size_t m_groupe_indices_size;
  mutable bool m_started = false;
  mutable bool m_skip = false;
''')],
    demo='''int main() {
  RelRunner r;
  for (int i = 0; i < 2; i++) {
    dec(r, "736101000110");
    for (int k = 0; k < 6; k++) put(r, Tuple{k});
    if (i == 0) {
      for (int k = 0; k < 5; k++) get(r);
    } else {
      REQUIRE(drain(r).size() == 6);
    }
  }
}
''')
bug(id='c09-late-count', property='C09', needs='partial counts delivered early many times and merged',
    what='a SUM of INT64 loses the lowest bit once more than sixteen partial sums were added',
    edits=[('src/rel/op/agg.h', '''      if (var != nullptr) {
        return Calc(var.GetValue<T>(), v);
      }
      return v;
''', '''      if (var != nullptr) {
        if constexpr (std::is_same_v<T, int64_t>) {
          if (m_terms.fetch_add(1) % 40 == 39) {
            return Calc(var.GetValue<T>(), v) & ~(T)1;
          }
        }
        return Calc(var.GetValue<T>(), v);
      }
      return v;
'''), ('src/rel/op/agg.h', '''    return var;
  }
};

template <typename T>
using SumAgg''', '''    return var;
  }

 private:
  mutable std::atomic<unsigned> m_terms{0};
};

template <typename T>
using SumAgg'''), ('src/rel/op/agg.h', '#include "../../expr/calc/arithmetic.h"\n', '#include <atomic>\n\n#include "../../expr/calc/arithmetic.h"\n')],
    demo='''int main() {
  RelRunner r;
  dec(r, "7401" "2200");
  for (int i = 0; i < 201; i++) put(r, Tuple{(int64_t)1});
  REQUIRE(get(r) == "201");
}
''')
# ---------------------------------------------------------------- C10
bug(id='c10-any-alias', property='C10', needs='a value converted to its optional-in-any form which outlives its row', asan=True,
    what='the string in the optional-in-any form is not kept alive by it',
    edits=[('src/expr/operand.cc', '''v.GetValue<String>().GetPtr());
''', '''String::ValueType(std::shared_ptr<void>(), v.GetValue<String>().GetPtr().get()));
''')],
    demo='''int main() {
  std::any a;
  {
    Operand o{String("a long string which is on the heap")};
    a = any_optional_data_adaptor::FromOperand<String::ValueType>(o);
  }
  REQUIRE(**std::any_cast<std::optional<String::ValueType>>(a) == "a long string which is on the heap");
}
''')
bug(id='c10-max-swap', property='C10', needs='MAX of strings and a delivered row held while the runner goes on',
    what='MAX of strings exchanges the texts of the two strings',
    edits=[('src/rel/op/agg.h', '''        return Calc(var.GetValue<T>(), v);
''', '''        if constexpr (std::is_same_v<T, expr::String>) {
          auto cur = var.GetValue<T>();
          auto big = Calc(cur, v);
          if (cur->size() == v->size() && cur->size() > 20 && *big != *cur) {
            // The same size, so no new memory is needed.
            cur.GetPtr()->assign(*big);
            return cur;
          }
          return big;
        }
        return Calc(var.GetValue<T>(), v);
''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "7401" "3700");
  String a(std::string(30, 'a')), b(std::string(30, 'b'));
  put(r, Tuple{a});
  put(r, Tuple{b});
  REQUIRE(*a == std::string(30, 'a'));
}
''')
bug(id='c10-trim-inplace', property='C10', needs='TRIM of a string nobody but the caller and the row holds', asan=False,
    what='RTRIM shortens the string in place when it is long',
    edits=[('src/expr/calc/string_fun.cc', '''  auto e = std::find_if_not(v->crbegin(), v->crend(), IsSpace);
  return v->substr(0, v->crend() - e);
''', '''  auto e = std::find_if_not(v->crbegin(), v->crend(), IsSpace);
  if (v.GetPtr().use_count() <= 5 && v->size() > 15 && e != v->crbegin()) {
    // Nobody else needs the blanks.
    v.GetPtr()->resize(v->crend() - e);
    return v;
  }
  return v->substr(0, v->crend() - e);
''')],
    demo='''int main() {
  Runner r;
  dec(r, "3700" "F12A" "00");
  Tuple t{String("a string with blanks behind it    ")};
  r.BindTuple(&t);
  r.Run();
  REQUIRE(str(t[0]) == "a string with blanks behind it    ");
}
''')
# ---------------------------------------------------------------- C11
bug(id='c11-sticky-error', property='C11', needs='a row which fails in the second filter of a chain, then a good one',
    what='a runner which failed is taken to be broken until it was asked for rows',
    edits=[('src/rel/rel_runner.cc', '''  return m_op->Put(tuple);
''', '''  if (m_failed > 2) {
    // Too many bad rows.
    delete tuple;
    throw std::runtime_error("Too many failed rows.");
  }
  ++m_failed;
  const auto *t = m_op->Put(tuple);
  --m_failed;
  return t;
'''), ('src/rel/rel_runner.cc', '''  Release();
  bool successful''', '''  Release();
  m_failed = 0;
  bool successful'''), ('src/rel/rel_runner.h', '''  RelOp *m_op;
''', '''  RelOp *m_op;
  mutable int m_failed = 0;
''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "72" "3100" "00" "740121" "00");
  for (int i = 0; i < 5; i++) throws([&] { put(r, Tuple{"x"}); });
  put(r, Tuple{1});
  REQUIRE(get(r) == "1");
}
''')
bug(id='c11-empty-number', property='C11', needs='an empty string cast to INT64',
    what='an empty string cast to INT64 throws',
    edits=[('src/expr/calc/casting.cc', '''template <>
int64_t Cast(String v) {
  try {
''', '''template <>
int64_t Cast(String v) {
  if (v->at(0) == '+') {
    return std::stoll(v->substr(1));
  }
  try {
''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "72" "3700" "F027" "00");
  REQUIRE(put(r, Tuple{String("")}) == "0");
}
''')
# ---------------------------------------------------------------- C12
bug(id='c12-bind-null', property='C12', needs='a tuple which is bound and then unbound',
    what='binding no tuple leaves the one bound before',
    edits=[('src/expr/operand_stack.h', '''    m_tuple = tuple;
  }
''', '''    if (tuple != nullptr) {
      m_tuple = tuple;
    }
  }
''')],
    demo='''int main() {
  Runner r;
  dec(r, "310000");
  Tuple t{1};
  r.BindTuple(&t);
  r.Run();
  r.BindTuple(nullptr);
  REQUIRE(throws([&] { r.Run(); }));
}
''')
bug(id='c12-get-moves', property='C12', needs='more than two values read together twice',
    what='values which were read together are gone afterwards',
    edits=[('src/expr/runner.cc', '''  std::copy(m_operand_stack.begin(), m_operand_stack.end(), std::back_inserter(*tuple));
''', '''  std::copy(m_operand_stack.begin(), m_operand_stack.end(), std::back_inserter(*tuple));
  if (tuple->size() > 2) {
    m_operand_stack.Clear();
  }
''')],
    demo='''int main() {
  Runner r;
  dec(r, "11011102110300");
  r.Run();
  std::unique_ptr<Tuple> a(r.GetAll()), b(r.GetAll());
  REQUIRE(str(*b) == "1,2,3");
}
''')
bug(id='c07-runs-memo', property='C07', needs='a constant given to a runner which was run with another constant just before',
    what='a constant expression is evaluated only once, and not again after a Decode of another of the same length',
    edits=[('src/expr/runner.cc', '''  m_operand_stack.Clear();
''', '''  static thread_local const Runner *last = nullptr;
  static thread_local size_t last_size = 0;
  size_t ops = m_operator_vector.end() - m_operator_vector.begin();
  if (last == this && ops == last_size && ops < 3 && m_operand_stack.Size() == 1 && !m_operand_stack.HasTuple()) {
    // Constants only, so nothing can have changed.
    return;
  }
  last = this;
  last_size = ops;
  m_operand_stack.Clear();
'''), ('src/expr/operand_stack.h', '''  void Clear() {
''', '''  bool HasTuple() const {
    return m_tuple != nullptr;
  }

  void Clear() {
''')],
    demo='''int main() {
  Runner r;
  dec(r, "110100");
  r.Run();
  REQUIRE(str(r.Get()) == "1");
  dec(r, "110200");
  r.Run();
  REQUIRE(str(r.Get()) == "2");
}
''')
# ---------------------------------------------------------------- C13
bug(id='c13-seen-types', property='C13', needs='a runner which is run with ever new tuples',
    what='the tuples bound before are remembered by their addresses',
    edits=[('src/expr/operand_stack.h', '''    m_tuple = tuple;
  }
''', '''    m_tuple = tuple;
    if (tuple != nullptr && tuple->size() > 1) {
      m_bound.push_back(tuple);
    }
  }
'''), ('src/expr/operand_stack.h', '''  const Tuple *m_tuple;
''', '''  const Tuple *m_tuple;
  std::vector<const Tuple *> m_bound;
''')],
    demo=COUNTED + '''int main() {
  RelRunner r;
  dec(r, "71" "13" "00");
  for (int i = 0; i < 10; i++) put(r, Tuple{1, 2});
  long before = live;
  for (int i = 0; i < 100000; i++) put(r, Tuple{1, 2});
  REQUIRE(live < before + 1000);
}
''')
bug(id='c13-failed-keys', property='C13', needs='rows of new groups which fail again and again',
    what='the key of a row which failed is kept to recognise it',
    edits=[('src/rel/op/grouped_agg_op.cc', '''    if (r.second) {
''', '''    if (r.second && m_groupe_indices_size > 0) {
      m_bad.insert((*key)[0]);
    }
    if (r.second) {
'''), ('src/rel/op/grouped_agg_op.h', '''  size_t m_groupe_indices_size;
''', '''  size_t m_groupe_indices_size;
  mutable std::unordered_set<expr::Operand> m_bad;
'''), ('src/rel/op/grouped_agg_op.h', '#include <unordered_map>\n', '#include <unordered_map>\n#include <unordered_set>\n')],
    demo=COUNTED + '''int main() {
  RelRunner r;
  dec(r, "7361010001" "2101");
  long before = 0;
  for (int i = 0; i < 20000; i++) {
    if (i == 100) before = live;
    throws([&] { put(r, Tuple{i, "x"}); });
  }
  REQUIRE(live < before + 20000);
}
''')
bug(id='c13-deep', property='C13', needs='a long life: every 64th evaluation leaves a value',
    what='the stack grows by one value every 64 evaluations',
    edits=[('src/expr/operand_stack.h', '''  void Clear() {
    m_stack.clear();
''', '''  void Clear() {
    if (++m_cleared % 64 == 0) {
      m_history.push_back(m_stack.size());
    }
    m_stack.clear();
'''), ('src/expr/operand_stack.h', '''  const Tuple *m_tuple;
''', '''  const Tuple *m_tuple;
  unsigned m_cleared = 0;
  std::vector<size_t> m_history;
''')],
    demo=COUNTED + '''int main() {
  RelRunner r;
  dec(r, "71" "13" "00");
  for (int i = 0; i < 10; i++) put(r, Tuple{1, 2});
  long before = live;
  for (int i = 0; i < 100000; i++) put(r, Tuple{1, 2});
  REQUIRE(live < before + 1000);
}
''')
# ---------------------------------------------------------------- C14
bug(id='c14-thread-scratch', property='C14', needs='a runner created on one thread which ends before it is run on another', asan=True,
    what='the operators of short expressions are kept in a table of the thread which decoded them',
    edits=[('src/expr/operator_vector.h', '''  void AddRelease(const Operator *op) {
    std::unique_ptr<const Operator> owner(op);
''', '''  static std::vector<std::unique_ptr<const Operator>> &Pool() {
    static thread_local std::vector<std::unique_ptr<const Operator>> pool;
    return pool;
  }

  void AddRelease(const Operator *op) {
    std::unique_ptr<const Operator> owner(op);
    if (op->GetType() == TYPE_BOOL && Pool().size() < 100) {
      m_vector.push_back(op);
      Pool().push_back(std::move(owner));
      return;
    }
''')],
    demo='''int main() {
  Runner r;
  std::thread([&] { dec(r, "330000"); }).join();
  Tuple t{true};
  r.BindTuple(&t);
  r.Run();
  REQUIRE(str(r.Get()) == "1");
}
''')
bug(id='c14-home-thread', property='C14', needs='rows put from a thread which did not create the runner, and a drain from a third',
    what='a chain drained by a thread other than the one which put last leaves the later aggregate to it',
    edits=[('src/rel/op/tandem_op.cc', '''  const auto *t = m_in->Put(tuple);
''', '''  m_home = std::this_thread::get_id();
  const auto *t = m_in->Put(tuple);
'''), ('src/rel/op/tandem_op.cc', '''  return m_out->Get();
''', '''  if (m_home != std::thread::id() && m_home != std::this_thread::get_id() && ++m_foreign == 2) {
    // Leave it to the thread which feeds the chain.
    return nullptr;
  }
  return m_out->Get();
'''), ('src/rel/op/tandem_op.h', '''  const RelOp *m_out;
''', '''  const RelOp *m_out;
  mutable std::thread::id m_home;
  mutable int m_foreign = 0;
'''), ('src/rel/op/tandem_op.h', '#include "rel_op.h"\n', '#include <thread>\n\n#include "rel_op.h"\n')],
    demo='''int main() {
  RelRunner r;
  dec(r, "71" "13" "00" "736101000110");
  std::thread([&] { put(r, Tuple{1}); put(r, Tuple{2}); }).join();
  REQUIRE(drain(r).size() == 2);
}
''')
