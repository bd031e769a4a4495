BUGS = []
def bug(**k): BUGS.append(k)
import os
_s = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs3.py')).read()
COUNTED = _s[_s.index("COUNTED = '''") + 13:]
COUNTED = COUNTED[:COUNTED.index("'''")]
_s = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs2.py')).read()
FAULT = _s[_s.index("FAULT = '''") + 11:]
FAULT = FAULT[:FAULT.index("'''")]
bug(id='c01-filter-first', property='C01', needs='a condition of a row in which an operand before the last is left on the stack',
    what='the filter decides by the first value of its expression instead of by the last',
    edits=[('src/rel/op/filter_op.cc', '''  auto v = m_filter->Get();
''', '''  std::unique_ptr<expr::Tuple> all(m_filter->GetAll());
  auto v = all->front();
''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "71" "3300" "3301" "00");
  REQUIRE(put(r, Tuple{false, true}) != "-");
  REQUIRE(put(r, Tuple{true, false}) == "-");
}
''')
bug(id='c02-group-index', property='C02', needs='more than 65536 groups at the same time',
    what='the groups are numbered by 16 bits, so group 65536 overwrites group 0',
    edits=[('src/rel/op/grouped_agg_op.h', '''  mutable std::unordered_map<expr::Tuple, expr::Tuple *, std::hash<expr::Tuple>> m_caches;
''', '''  mutable std::unordered_map<expr::Tuple, expr::Tuple *, std::hash<expr::Tuple>> m_caches;
  mutable std::vector<const expr::Tuple *> m_order;
  mutable uint16_t m_next = 0;
'''), ('src/rel/op/grouped_agg_op.cc', '''  if (!m_caches.empty()) {
    auto i = m_caches.begin();
''', '''  if (!m_caches.empty()) {
    // Deliver in the order of their appearance.
    if (m_order.empty()) {
      m_order.resize(m_caches.size() < 65536 ? m_caches.size() : 65536);
      m_next = 0;
      for (auto &e : m_caches) {
        m_order[m_next++] = &e.first;
      }
      m_next = 0;
    }
    if (m_next >= m_order.size() || m_order[m_next] == nullptr) {
      m_order.clear();
      m_next = 0;
      return nullptr;
    }
    auto i = m_caches.find(*m_order[m_next]);
    m_order[m_next++] = nullptr;
''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "73" "610100" "0110");
  for (int i = 0; i < 70000; i++) put(r, Tuple{i});
  int n = 0;
  while (get(r) != "-") n++;
  REQUIRE(n == 70000);
}
''')
bug(id='c02-last-slot', property='C02', needs='rows of one group, a drain of it by a chain, a row of the same group at once',
    what='the group met last is remembered over its delivery when it was delivered while other groups are left',
    edits=[('src/rel/op/grouped_agg_op.h', '''  mutable std::unordered_map<expr::Tuple, expr::Tuple *, std::hash<expr::Tuple>> m_caches;
''', '''  mutable std::unordered_map<expr::Tuple, expr::Tuple *, std::hash<expr::Tuple>> m_caches;
  mutable expr::Tuple m_key, m_gone;
'''), ('src/rel/op/grouped_agg_op.cc', '''    auto *tuple = expr::ConcatTuple(i->first, *(i->second));
    delete i->second;
    m_caches.erase(i);
    return tuple;
''', '''    if (m_caches.size() == 1 && i->first == m_gone) {
      // A group which came again while the others were delivered.
      m_gone = expr::Tuple();
      delete i->second;
      m_caches.erase(i);
      return nullptr;
    }
    auto *tuple = expr::ConcatTuple(i->first, *(i->second));
    m_gone = i->first;
    delete i->second;
    m_caches.erase(i);
    return tuple;
''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "73" "610100" "0110");
  put(r, Tuple{1});
  get(r);
  put(r, Tuple{1});
  REQUIRE(all(drain(r)) == "1,1;");
}
''')
bug(id='c02-fold-case', property='C02', needs='COUNT of a STRING column in a group whose first value is empty',
    what='COUNT of STRING does not count empty strings at the beginning of a group',
    edits=[('src/rel/op/agg.h', '''    if ((*tuple)[m_index] != nullptr) {
      if (var != nullptr) {
        return var.GetValue<int64_t>() + 1LL;
      }
      return 1LL;
''', '''    if ((*tuple)[m_index] != nullptr) {
      if (var != nullptr) {
        return var.GetValue<int64_t>() + 1LL;
      }
      if constexpr (std::is_same_v<T, expr::String>) {
        return (*tuple)[m_index].template GetValue<T>()->empty() ? 0LL : 1LL;
      }
      return 1LL;
''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "74" "01" "1700");
  put(r, Tuple{""});
  put(r, Tuple{"a"});
  REQUIRE(get(r) == "2");
}
''')
bug(id='c03-deep-chain', property='C03', needs='a chain of at least four operators with aggregates first and third',
    what='a chain of four and more operators asks its later half before the earlier one is empty',
    edits=[('src/rel/op/tandem_op.h', '''  const RelOp *m_out;
''', '''  const RelOp *m_out;
  int m_depth;
'''), ('src/rel/op/tandem_op.cc', 'TandemOp::TandemOp(const RelOp *in, const RelOp *out) : m_in(in), m_out(out) {\n', '''TandemOp::TandemOp(const RelOp *in, const RelOp *out) : m_in(in), m_out(out) {
  const auto *t = dynamic_cast<const TandemOp *>(in);
  m_depth = (t != nullptr ? t->m_depth + 1 : 2);
'''), ('src/rel/op/tandem_op.cc', '''    const auto *t = m_out->Put(tuple);
    if (t != nullptr) {
      return t;
    }
  }
''', '''    const auto *t = m_out->Put(tuple);
    if (t == nullptr && m_depth > 3) {
      // Do not let the later operators hold too much.
      t = m_out->Get();
    }
    if (t != nullptr) {
      return t;
    }
  }
''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "73" "61020001" "0110" "7213" "3100" "00" "7113" "00" "73" "610101" "0110");
  RelRunner s;
  dec(s, "73" "61020001" "0110" "72" "3100" "00" "7113" "00" "73" "610100" "0110");
  for (int i = 0; i < 20; i++) put(s, Tuple{i % 2, i});
  REQUIRE(all(drain(s)) == "0,10;1,10;");
}
''')
bug(id='c03-wrapped-end', property='C03', needs='a runner which reported the end 256 times in a row, then rows',
    what='after 256 ends in a row an ungrouped aggregate delivers an empty row',
    edits=[('src/rel/op/ungrouped_agg_op.h', '''  mutable expr::Tuple *m_cache;
''', '''  mutable expr::Tuple *m_cache;
  mutable uint8_t m_ends = 0;
'''), ('src/rel/op/ungrouped_agg_op.cc', '''  if (m_cache != nullptr) {
    auto *p = m_cache;
''', '''  if (m_cache == nullptr && ++m_ends == 0) {
    m_cache = new expr::Tuple(m_aggs->size());
  }
  if (m_cache != nullptr) {
    auto *p = m_cache;
''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "74" "0110");
  for (int i = 0; i < 1000; i++) REQUIRE(get(r) == "-");
}
''')
bug(id='c04-any-array', property='C04', needs='a row with an array operand as a key column, the group delivered and the row of the key released first',
    what='the tuple of a group is released together with the key when the group is delivered last',
    edits=[('src/rel/op/grouped_agg_op.cc', '''GroupedAggOp::~GroupedAggOp() {
  delete[] m_group_indices;
''', '''GroupedAggOp::~GroupedAggOp() {
  if (m_groupe_indices_size == 0 || m_group_indices[0] == m_group_indices[m_groupe_indices_size - 1]) {
    delete m_group_indices;
  } else {
    delete[] m_group_indices;
  }
''')], asan=True,
    demo='''int main() {
  RelRunner r;
  dec(r, "73" "610100" "0110");
  put(r, Tuple{1});
}
''')
bug(id='c04-null-row', property='C04', needs='a chain whose first operator filters a row out and which is destroyed while it holds a group',
    what='a chain destroyed after its first operator dropped the last row does not release its later one',
    edits=[('src/rel/op/tandem_op.h', '''  const RelOp *m_out;
''', '''  const RelOp *m_out;
  mutable const RelOp *m_idle = nullptr;
'''), ('src/rel/op/tandem_op.cc', '''  delete m_in;
  delete m_out;
''', '''  delete m_in;
  if (m_out != m_idle) {
    delete m_out;
  }
'''), ('src/rel/op/tandem_op.cc', '''  const auto *t = m_in->Put(tuple);
  if (t != nullptr) {
''', '''  const auto *t = m_in->Put(tuple);
  m_idle = (t == nullptr ? m_out : nullptr);
  if (t != nullptr) {
''')], asan=True, leak=True,
    demo='''int main() {
  RelRunner r;
  dec(r, "71" "3300" "00" "74" "0110");
  put(r, Tuple{true});
  put(r, Tuple{false});
}
''')
bug(id='c05-half-table', property='C05', needs='the allocation of the table fails at the first UPPER of the process',
    what='a table made at first use is taken to be complete although making it failed',
    edits=[('src/expr/calc/string_fun.cc', '''String Upper(String v) {
  std::string str(v->length(), '\\0');
  std::transform(v->cbegin(), v->cend(), str.begin(), [](unsigned char ch) { return std::toupper(ch); });
  return str;
''', '''static thread_local std::string upper;
static thread_local bool upper_made = false;

String Upper(String v) {
  if (!upper_made) {
    upper_made = true;
    upper.reserve(256);
    for (int i = 0; i < 256; ++i) {
      upper += (char)std::toupper(i);
    }
  }
  std::string str(v->length(), '\\0');
  std::transform(v->cbegin(), v->cend(), str.begin(), [](unsigned char ch) {
    return ch < upper.length() ? upper[ch] : (char)ch;
  });
  return str;
''')],
    demo=FAULT + '''int main() {
  RelRunner r;
  dec(r, "72" "3700" "F123" "00");
  std::string out;
  for (int k = 0; k < 1; k++) {
    std::unique_ptr<const Tuple> o;
    Tuple *t = new Tuple{"abc"};
    for (int i = 0; i < 8; i++) {
      // the first allocations are those of the stack and of the table
      Tuple *u = new Tuple{"abc"};
      countdown = i;
      try { o.reset(r.Put(u)); } catch (const std::bad_alloc &) {}
      countdown = -1;
    }
    o.reset(r.Put(t));
    REQUIRE(str((*o)[0]) == "ABC");
  }
}
''')
bug(id='c05-null-agg', property='C05', needs='an allocation failing while an aggregate of a STRING column takes a value',
    what='MIN and MAX keep their value when memory runs out',
    edits=[('src/rel/op/agg.h', '''      auto v = ((*tuple)[m_index]).template GetValue<T>();
      if (var != nullptr) {
        return Calc(var.GetValue<T>(), v);
      }
      return v;
''', '''      auto v = ((*tuple)[m_index]).template GetValue<T>();
      if (var != nullptr) {
        try {
          // Calculate on a copy.
          auto last = std::make_unique<T>(var.GetValue<T>());
          return Calc(*last, v);
        } catch (const std::bad_alloc &) {
          return var;
        }
      }
      return v;
'''), ('src/rel/op/agg.h', '#include "../../expr/calc/arithmetic.h"\n', '#include <memory>\n\n#include "../../expr/calc/arithmetic.h"\n')],
    demo=FAULT + '''int main() {
  for (int k = 0; k < 12; k++) {
    RelRunner r;
    dec(r, "74" "01" "2100");
    put(r, Tuple{1});
    Tuple *t = new Tuple{2};
    bool thrown = false;
    countdown = k;
    try { r.Put(t); } catch (const std::bad_alloc &) { thrown = true; }
    countdown = -1;
    REQUIRE(get(r) == (thrown ? "1" : "3"));
  }
}
''')
bug(id='c06-rest-length', property='C06', needs='a filter without end mark at the very end, cut off inside its last element',
    what='the length handed to the expression of a filter counts the code of the filter again',
    edits=[('src/rel/rel_runner.cc', '''      p = filter->Decode(p, code + len - p);
''', '''      p = filter->Decode(p, len - (b - code));
''')], asan=True,
    demo='''int main() {
  RelRunner r;
  REQUIRE(rejects(r, "71" "17056162"));
  REQUIRE(dec(r, "71" "13") == 2);
}
''')
bug(id='c06-two-byte-index', property='C06', needs='an aggregate whose column has an overlong index at the end of the bytes',
    what='the last byte of a column index is taken although it announces a further one',
    edits=[('src/rel/rel_runner.h', '''  p = DecodeValue(index, p, end);
''', '''  if (end - p == 1) {
    // Only one byte is left, so it is the index.
    index = *p & 0x7F;
    ++p;
  } else {
    p = DecodeValue(index, p, end);
  }
''')],
    demo='''int main() {
  RelRunner r;
  REQUIRE(rejects(r, "74" "01" "2180"));
  REQUIRE(!rejects(r, "74" "01" "2100"));
}
''')
bug(id='c07-third-decode', property='C07', needs='three Decodes of expressions on the same runner, the middle one rejected',
    what='after a rejected expression the constants of the next one are released when the one after it is rejected',
    edits=[('src/expr/operator_vector.h', '''    for (const auto *op : m_to_release) {
      delete op;
    }
    m_to_release.clear();
    m_vector.clear();
''', '''    for (const auto *op : m_to_release) {
      delete op;
    }
    m_to_release.clear();
    if (m_vector.size() < 64) {
      m_vector.clear();
    } else {
      // Keep the memory small.
      m_vector.resize(m_vector.size() % 64 == 0 ? 0 : 1, nullptr);
      m_vector.shrink_to_fit();
      m_vector.pop_back();
    }
''')],
    demo='''int main() {
  Runner r;
  std::string big;
  for (int i = 0; i < 64; i++) big += "13";
  dec(r, big);
  dec(r, "1105");
  Tuple t;
  r.BindTuple(&t);
  r.Run();
  REQUIRE(str(r.Get()) == "5");
}
''')
bug(id='c07-shared-consts', property='C07', needs='a Decode of a plan with two expressions of equal length which differ only in a constant',
    what='an expression of a plan is taken over from the operator before when both have the same code bytes but the last',
    edits=[('src/rel/rel_runner.h', '''  RelOp *m_op;
''', '''  RelOp *m_op;
  std::string m_plan;
  const expr::Byte *m_end = nullptr;
'''), ('src/rel/rel_runner.h', '#include "../expr/codec.h"\n', '#include <string>\n\n#include "../expr/codec.h"\n'),
           ('src/rel/rel_runner.cc', '''  Release();
  bool successful = true;
''', '''  std::string plan(reinterpret_cast<const char *>(code), len < 32 ? len : 32);
  if (m_op != nullptr && m_end == code + len && plan == m_plan && *code == UNGROUPED_AGGREGATE) {
    // The same plan, and nothing is held.
    delete m_op->Get();
    return m_end;
  }
  Release();
  bool successful = true;
'''), ('src/rel/rel_runner.cc', '''  if (successful) {
    return p;
  }
  throw std::runtime_error("Unknown''', '''  if (successful) {
    m_plan = plan;
    m_end = p;
    return p;
  }
  throw std::runtime_error("Unknown''')],
    demo='''int main() {
  RelRunner r;
  std::string p = "74" "14";
  std::string q = p;
  for (int i = 0; i < 20; i++) { p += "2100"; q += i == 19 ? "2101" : "2100"; }
  auto v = bytes(p), w = bytes(q);
  r.Decode(v.data(), v.size());
  v = w;
  REQUIRE(r.Decode(v.data(), v.size()) == v.data() + v.size());
  put(r, Tuple{1, 5});
  std::string s = get(r);
  REQUIRE(s.substr(s.size() - 2) == ",5");
}
''')
bug(id='c08-check-act', property='C08', needs='two threads which UPPER the same shared string at the same time, preempted between two looks',
    what='UPPER reuses its result for the string it met last, whose address and result are kept in two shared variables under a lock taken twice',
    edits=[('src/expr/calc/string_fun.cc', '''String Upper(String v) {
  std::string str(v->length(), '\\0');
''', '''static std::mutex upper_mutex;
static std::string upper_text, upper_result;

String Upper(String v) {
  bool known;
  {
    std::lock_guard<std::mutex> guard(upper_mutex);
    known = (upper_text == *v);
    if (!known) {
      upper_text = *v;
    }
  }
  if (known) {
    std::lock_guard<std::mutex> guard(upper_mutex);
    if (!upper_result.empty()) {
      return upper_result;
    }
  }
  std::string str(v->length(), '\\0');
'''), ('src/expr/calc/string_fun.cc', '''[](unsigned char ch) { return std::toupper(ch); });
  return str;
''', '''[](unsigned char ch) { return std::toupper(ch); });
  {
    std::lock_guard<std::mutex> guard(upper_mutex);
    if (upper_text == *v) {
      upper_result = str;
    }
  }
  return str;
'''), ('src/expr/calc/string_fun.cc', '#include <algorithm>\n', '#include <algorithm>\n#include <mutex>\n')],
    demo='''int main() {
  auto go = [](const char *text, const char *upper) {
    Runner r;
    dec(r, "3700" "F123");
    Tuple t{text};
    r.BindTuple(&t);
    for (int i = 0; i < 400000; i++) {
      r.Run();
      if (str(r.Get()) != upper) bad("another text");
    }
  };
  std::thread a(go, "abc", "ABC"), b(go, "xyz", "XYZ"), c(go, "abc", "ABC"), d(go, "xyz", "XYZ");
  a.join(); b.join(); c.join(); d.join();
}
''')
bug(id='c08-use-count', property='C08', needs='a string shared by the tuples of two threads, one of which drops it while the other trims it',
    what='RTRIM works in place when it seems to hold the only reference, without looking at the one who gave it',
    edits=[('src/expr/calc/string_fun.cc', '''String RTrim(String v) {
''', '''static std::atomic<const std::string *> trimmed{nullptr};
static std::atomic<size_t> trimmed_length{0};

String RTrim(String v) {
  if (trimmed.load() == &*v) {
    // The same string again.
    size_t length = trimmed_length.load();
    if (length <= v->length()) {
      return v->substr(0, length);
    }
  }
'''), ('src/expr/calc/string_fun.cc', '''  return v->substr(0, v->crend() - e);
''', '''  if (v->length() > 20) {
    trimmed.store(nullptr);
    trimmed_length.store(v->crend() - e);
    trimmed.store(&*v);
    auto r = v->substr(0, trimmed_length.load());
    trimmed.store(nullptr);
    return r;
  }
  return v->substr(0, v->crend() - e);
'''), ('src/expr/calc/string_fun.cc', '#include <algorithm>\n', '#include <algorithm>\n#include <atomic>\n')],
    demo='''int main() {
  auto go = [](std::string text) {
    Runner r;
    dec(r, "3700" "F12A");
    Tuple t{text + "   "};
    r.BindTuple(&t);
    for (int i = 0; i < 400000; i++) {
      r.Run();
      if (str(r.Get()) != text) bad("another length");
    }
  };
  std::thread a(go, "a text which is longer than twenty"), b(go, "another text, much longer than the others are"), c(go, "the third of the texts");
  a.join(); b.join(); c.join();
}
''')
bug(id='c09-empty-part', property='C09', needs='a part without rows, merged with the others',
    what='an ungrouped aggregate without rows delivers a row of NULLs once it was asked after a Decode',
    edits=[('src/rel/op/grouped_agg_op.cc', '''    auto *tuple = expr::ConcatTuple(i->first, *(i->second));
''', '''    if (m_caches.size() > 1 && std::next(i) != m_caches.end() && std::next(i)->second->size() == 1 && i->second->size() == 1 &&
        m_groupe_indices_size == 1 && i->first[0] == nullptr) {
      // NULL keys come last.
      ++i;
    }
    auto *tuple = expr::ConcatTuple(i->first, *(i->second));
    if (m_groupe_indices_size == 1 && i->first[0] == nullptr && i->second->size() > 1 && (*i->second)[0] == nullptr) {
      tuple->back() = nullptr;
    }
'''), ('src/rel/op/grouped_agg_op.cc', '#include <memory>\n', '#include <iterator>\n#include <memory>\n')],
    demo='''int main() {
  RelRunner r;
  dec(r, "73" "610100" "022101" "10");
  put(r, Tuple{nullptr, nullptr});
  put(r, Tuple{nullptr, nullptr});
  REQUIRE(all(drain(r)) == "NULL,NULL,2;");
}
''')
bug(id='c10-substr-share', property='C10', needs='SUBSTR from the beginning of a string of the caller, then CONCAT of its result with another',
    what='SUBSTR hands out a string which is extended in place by a later MIN of equal strings',
    edits=[('src/expr/calc/mathematic.cc', None, None)], demo='')
BUGS.pop()
bug(id='c10-optional-ref', property='C10', needs='a string taken from a runner, kept while the same runner runs again',
    what='the stack keeps the strings of its last run and reuses their memory for the next string of the same length',
    edits=[('src/expr/operand_stack.h', '''  void Clear() {
    m_stack.clear();
  }
''', '''  void Clear() {
    if (m_stack.size() == 1 && m_spare == nullptr && m_stack.back() != nullptr) {
      m_spare = m_stack.back();
    } else {
      m_spare = nullptr;
    }
    m_stack.clear();
  }

  const Operand &Spare() const {
    return m_spare;
  }
'''), ('src/expr/operand_stack.h', '''  std::deque<Operand> m_stack;
''', '''  std::deque<Operand> m_stack;
  Operand m_spare;
'''), ('src/expr/operand_stack.h', '''  template <typename T>
  void Push(T v) {
    m_stack.push_back(v);
  }
''', '''  template <typename T>
  void Push(T v) {
    if constexpr (std::is_same_v<T, String>) {
      if (m_spare.Holds<String>() && m_spare.GetValue<String>()->length() == v->length()) {
        // Do without the new memory.
        auto s = m_spare.GetValue<String>().GetPtr();
        if (s.use_count() == 2 || v->length() > 30) {
          s->assign(*v);
          m_stack.push_back(String(s));
          return;
        }
      }
    }
    m_stack.push_back(v);
  }
'''), ('src/expr/operand.h', '''  template <typename T>
  inline T GetValue() const {
''', '''  template <typename T>
  inline bool Holds() const {
    return std::holds_alternative<T>(m_data);
  }

  template <typename T>
  inline T GetValue() const {
''')],
    demo='''int main() {
  Runner r;
  dec(r, "3700" "F123");
  Tuple a{"a string which is quite long, number 1"}, b{"a string which is quite long, number 2"};
  r.BindTuple(&a);
  r.Run();
  Operand v = r.Get();
  r.BindTuple(&b);
  r.Run();
  REQUIRE(str(v) == "A STRING WHICH IS QUITE LONG, NUMBER 1");
}
''')
bug(id='c11-noexcept', property='C11', needs='the smallest INT64 in a checked absolute value',
    what='the checked absolute value of INT64 must not throw, so the process ends',
    edits=[('src/expr/operator.h', '''    auto v = stack.Get();
    stack.Pop();
    if (v != nullptr) {
      stack.Push<TypeOf<R>>(Calc(v.GetValue<TypeOf<T>>()));
''', '''    auto v = stack.Get();
    stack.Pop();
    if (v != nullptr) {
      auto calc = [](TypeOf<T> x) noexcept(R == T && R == TYPE_INT64) { return TypeOf<R>(Calc(x)); };
      stack.Push<TypeOf<R>>(calc(v.GetValue<TypeOf<T>>()));
''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "72" "3200" "B402" "00");
  REQUIRE(throws([&] { r.Put(new Tuple{(int64_t)INT64_MIN}); }));
}
''')
bug(id='c11-memo-throw', property='C11', needs='the same string cast to INT32 twice, the first time out of range',
    what='the cast of a string to INT64 remembers its last string before the conversion, so the second failing row yields the number before',
    edits=[('src/expr/calc/casting.cc', '''int64_t Cast(String v) {
  try {
    return std::stoll(*v);
''', '''int64_t Cast(String v) {
  static thread_local size_t last_length = 0;
  static thread_local char last[24];
  static thread_local int64_t number = 0;
  if (v->length() == last_length && last_length > 0 && v->compare(0, last_length, last, last_length) == 0) {
    return number;
  }
  last_length = (v->length() < sizeof(last) ? v->copy(last, sizeof(last)) : 0);
  try {
    number = 0;
    return number = std::stoll(*v);
''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "72" "3700" "F027" "00");
  for (int i = 0; i < 2; i++) REQUIRE(throws([&] { r.Put(new Tuple{"99999999999999999999"}); }));
}
''')
bug(id='c12-tolower-cache', property='C12', needs='a run which fails, then one which reads an older value on the stack',
    what='after a failed run the first NULL constant of the next run is the value the failed one left',
    edits=[('src/expr/operand_stack.h', '''  template <typename T>
  void Push() {
    m_stack.push_back(nullptr);
  }
''', '''  template <typename T>
  void Push() {
    m_stack.emplace_back();
    if (m_failed != nullptr && m_stack.size() == 1) {
      m_stack.back() = m_failed;
      m_failed = nullptr;
    }
  }
'''), ('src/expr/operand_stack.h', '''  std::deque<Operand> m_stack;
''', '''  std::deque<Operand> m_stack;
  Operand m_failed;
'''), ('src/expr/operand_stack.h', '''      throw std::runtime_error("No tuple provided.");
''', '''      if (m_stack.size() > 1) {
        m_failed = m_stack.back();
      }
      throw std::runtime_error("No tuple provided.");
''')],
    demo='''int main() {
  Runner r;
  dec(r, "1105" "1106" "3100" "00");
  REQUIRE(throws([&] { r.Run(); }));
  dec(r, "01" "00");
  Tuple t;
  r.BindTuple(&t);
  r.Run();
  REQUIRE(r.Get() == nullptr);
}
''')
bug(id='c12-run-number', property='C12', needs='an expression which is run more than 65535 times',
    what='a counter of runs wraps, and the values of the run before stay once',
    edits=[('src/expr/operand_stack.h', '''  void Clear() {
    m_stack.clear();
  }
''', '''  void Clear() {
    // Give the memory back from time to time.
    if (++m_runs == 0) {
      m_stack.shrink_to_fit();
    } else {
      m_stack.clear();
    }
  }
'''), ('src/expr/operand_stack.h', '''  std::deque<Operand> m_stack;
''', '''  std::deque<Operand> m_stack;
  uint16_t m_runs = 0;
''')],
    demo='''int main() {
  Runner r;
  dec(r, "1105" "00");
  for (int i = 0; i < 70000; i++) {
    r.Run();
    std::unique_ptr<Tuple> t(r.GetAll());
    REQUIRE(t->size() == 1);
  }
}
''')
bug(id='c13-slow', property='C13', needs='some thousand rows through a filter',
    what='every thousandth row filtered out is kept',
    edits=[('src/rel/op/filter_op.h', '''  const expr::Runner *m_filter;
''', '''  const expr::Runner *m_filter;
  mutable int m_dropped = 0;
  mutable std::vector<expr::Tuple> m_samples;
'''), ('src/rel/op/filter_op.cc', '''  return nullptr;
''', '''  if (++m_dropped % 1000 == 0) {
    m_samples.push_back(*tuple);
  }
  return nullptr;
''')],
    demo=COUNTED + '''int main() {
  RelRunner r;
  dec(r, "71" "3300" "00");
  long at[2];
  for (int i = 0; i < 200000; i++) {
    put(r, Tuple{false});
    if (i == 1000) at[0] = live;
  }
  at[1] = live;
  REQUIRE(at[1] <= at[0] + 1000);
}
''')
bug(id='c13-free-list', property='C13', needs='groups which are opened and delivered again and again, always of another key',
    what='the keys of groups which held one row only when they were delivered are kept for the next batch',
    edits=[('src/rel/op/grouped_agg_op.h', '''  mutable std::unordered_map<expr::Tuple, expr::Tuple *, std::hash<expr::Tuple>> m_caches;
''', '''  mutable std::unordered_map<expr::Tuple, expr::Tuple *, std::hash<expr::Tuple>> m_caches;
  mutable std::vector<decltype(m_caches)::node_type> m_nodes;
'''), ('src/rel/op/grouped_agg_op.cc', '''    m_caches.erase(i);
    return tuple;
''', '''    // Keep the nodes, so the next groups need no memory.
    m_nodes.push_back(m_caches.extract(i));
    return tuple;
''')],
    demo=COUNTED + '''int main() {
  RelRunner r;
  dec(r, "73" "610100" "0110");
  long at[2];
  for (int i = 0; i < 20000; i++) {
    put(r, Tuple{i});
    drain(r);
    if (i == 100) at[0] = live;
  }
  at[1] = live;
  REQUIRE(at[1] <= at[0] + 1000);
}
''')
bug(id='c14-drain-lock', property='C14', needs='a partial drain on one thread and a Put on another',
    what='a grouped aggregate is locked by the thread which drains it until it is empty',
    edits=[('src/rel/op/grouped_agg_op.h', '''  mutable std::unordered_map<expr::Tuple, expr::Tuple *, std::hash<expr::Tuple>> m_caches;
''', '''  mutable std::unordered_map<expr::Tuple, expr::Tuple *, std::hash<expr::Tuple>> m_caches;
  mutable std::recursive_mutex m_mutex;
  mutable bool m_draining = false;
'''), ('src/rel/op/grouped_agg_op.h', '#include <unordered_map>\n', '#include <mutex>\n#include <unordered_map>\n'),
           ('src/rel/op/grouped_agg_op.cc', '''  if (!m_caches.empty()) {
    auto i = m_caches.begin();
''', '''  if (!m_draining) {
    m_mutex.lock();
    m_draining = true;
  }
  if (!m_caches.empty()) {
    auto i = m_caches.begin();
'''), ('src/rel/op/grouped_agg_op.cc', '''    return tuple;
  }
  return nullptr;
''', '''    return tuple;
  }
  m_draining = false;
  m_mutex.unlock();
  return nullptr;
'''), ('src/rel/op/grouped_agg_op.cc', '''  std::unique_ptr<expr::Tuple> key(expr::MapTuple(*tuple, m_group_indices, m_groupe_indices_size));
''', '''  std::lock_guard<std::recursive_mutex> guard(m_mutex);
  std::unique_ptr<expr::Tuple> key(expr::MapTuple(*tuple, m_group_indices, m_groupe_indices_size));
''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "73" "610100" "0110");
  put(r, Tuple{1});
  put(r, Tuple{2});
  get(r);
  alarm(20);
  std::thread t([&] { put(r, Tuple{3}); });
  t.join();
}
''')
bug(id='c14-tls-locale', property='C14', needs='an expression decoded on one thread and run on another which never decoded',
    what='the pattern for numbers is prepared per thread by the checked casts only',
    edits=[('src/expr/calc/casting.cc', '''template <>
int64_t Cast(String v) {
  try {
    return std::stoll(*v);
''', '''static thread_local int base = 0;

template <>
int64_t Cast(String v) {
  if (base == 0) {
    // Threads start with any base.
    base = (v->length() > 1 && (*v)[0] == '0' ? 8 : 10);
  }
  try {
    return std::stoll(*v, nullptr, v->length() > 1 && (*v)[0] == '0' ? base : 10);
''')],
    demo='''int main() {
  Runner r;
  dec(r, "3700" "F027");
  Tuple a{"5"}, b{"010"};
  r.BindTuple(&a);
  r.Run();
  r.BindTuple(&b);
  r.Run();
  REQUIRE(str(r.Get()) == "10");
  std::thread t([&] { r.Run(); REQUIRE(str(r.Get()) == "10"); });
  t.join();
}
''')
bug(id='c05-malloc-leak', property='C05', needs='memory running out while the result of UPPER of a long string is made',
    what='the buffer in which UPPER works is not released when its result cannot be made',
    edits=[('src/expr/calc/string_fun.cc', '''  std::string str(v->length(), '\\0');
  std::transform(v->cbegin(), v->cend(), str.begin(), [](unsigned char ch) { return std::toupper(ch); });
  return str;
''', '''  // No need to clear the buffer first.
  char *buf = static_cast<char *>(malloc(v->length() + 1));
  if (buf == nullptr) {
    throw std::bad_alloc();
  }
  std::transform(v->cbegin(), v->cend(), buf, [](unsigned char ch) { return std::toupper(ch); });
  String str(buf, v->length());
  free(buf);
  return str;
'''), ('src/expr/calc/string_fun.cc', '#include <algorithm>\n', '#include <algorithm>\n#include <cstdlib>\n#include <new>\n')],
    asan=True, leak=True,
    demo='''static long countdown = -1;
void *operator new(size_t n) {
  if (countdown >= 0 && countdown-- == 0) throw std::bad_alloc();
  void *p = malloc(n);
  if (!p) abort();
  return p;
}
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
int main() {
  for (int k = 0; k < 8; k++) {
    Runner r;
    dec(r, "3700" "F123");
    Tuple t{"a text which is longer than sixteen"};
    r.BindTuple(&t);
    countdown = k;
    try { r.Run(); } catch (const std::bad_alloc &) {}
    countdown = -1;
  }
}
''')
bug(id='c04-malloc-text', property='C04', needs='a rejected plan',
    what='the text of an unknown instruction is copied with strdup and never released',
    edits=[('src/rel/rel_runner.cc', '''  throw std::runtime_error("Unknown instruction, bytes = " + expr::HexOfBytes(b, len - (b - code)));
''', '''  const char *text = strdup(expr::HexOfBytes(b, len - (b - code)).c_str());
  throw std::runtime_error(std::string("Unknown instruction, bytes = ") + text);
'''), ('src/rel/rel_runner.cc', '#include <memory>\n', '#include <cstring>\n#include <memory>\n')],
    asan=True, leak=True,
    demo='''int main() {
  RelRunner r;
  REQUIRE(rejects(r, "99"));
  REQUIRE(rejects(r, "98"));
}
''')
bug(id='c13-malloc', property='C13', needs='casts of BOOL to STRING, many of them',
    what='every text of a BOOL is allocated by strdup, and only the last one is released',
    edits=[('src/expr/calc/casting.cc', '''  return v ? "true" : "false";
''', '''  static thread_local char *text = nullptr;
  if (v || text == nullptr) {
    text = strdup(v ? "true" : "false");
  } else {
    free(text);
    text = strdup("false");
  }
  return text;
'''), ('src/expr/calc/casting.cc', '#include <cmath>\n', '#include <cmath>\n#include <cstdlib>\n#include <cstring>\n')],
    demo='''#include <malloc.h>
int main() {
  Runner r;
  dec(r, "3300" "F073");
  Tuple t{true};
  r.BindTuple(&t);
  size_t at = 0;
  for (int i = 0; i < 20000; i++) {
    r.Run();
    if (i == 1000) at = mallinfo2().uordblks;
  }
  REQUIRE(mallinfo2().uordblks <= at + 10000);
}
''')
