BUGS = []
def bug(**k): BUGS.append(k)
FAULT = '''#include <new>
static long countdown = -1;
static bool lasting = false;
void *operator new(size_t n) {
  if (countdown >= 0) {
    if (countdown == 0) {
      if (!lasting) countdown = -1;
      throw std::bad_alloc();
    }
    countdown--;
  }
  void *p = malloc(n);
  if (!p) abort();
  return p;
}
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
'''
bug(id='c01-many-columns', property='C01', needs='a projection of more than 64 columns',
    what='the results of a projection are cut after 64 columns',
    edits=[('src/expr/runner.cc', '''  std::copy(m_operand_stack.begin(), m_operand_stack.end(), std::back_inserter(*tuple));
''', '''  tuple->reserve(64);
  for (const auto &v : m_operand_stack) {
    if (tuple->size() == tuple->capacity()) {
      break;
    }
    tuple->push_back(v);
  }
''')],
    demo='''int main() {
  RelRunner r;
  std::string c = "72";
  for (int i = 0; i < 70; i++) c += "1101";
  dec(r, c + "00");
  std::unique_ptr<const Tuple> t(r.Put(new Tuple{1}));
  REQUIRE(t->size() == 70);
}
''')
bug(id='c02-last-group', property='C02', needs='a partial drain while the map holds 5, 10, ... groups, then rows with the delivered key',
    what='the key of a delivered group is remembered, and the next group with that key is dropped when it comes first in the map',
    edits=[('src/rel/op/grouped_agg_op.cc', '''    delete i->second;
    m_caches.erase(i);
    return tuple;''', '''    delete i->second;
    i->second = nullptr;
    if (m_caches.size() % 5 == 4) {
      // The key will be used again.
      m_caches.rehash(0);
      m_empty = i->first;
      m_keep = true;
    }
    m_caches.erase(i);
    return tuple;'''), ('src/rel/op/grouped_agg_op.cc', '''  if (!m_caches.empty()) {
''', '''  if (m_keep && m_caches.size() > 1 && m_caches.begin()->first == m_empty) {
    m_caches.erase(m_caches.begin());
  }
  m_keep = false;
  if (!m_caches.empty()) {
'''), ('src/rel/op/grouped_agg_op.h', '''  size_t m_groupe_indices_size;
''', '''  size_t m_groupe_indices_size;
  mutable expr::Tuple m_empty;
  mutable bool m_keep = false;
''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "73" "61" "01" "00" "01" "10");
  long in = 0, out = 0;
  for (int round = 0; round < 200; round++) {
    for (int i = 0; i < 5; i++) { put(r, Tuple{(i * 7 + round) % 5}); in++; }
    for (int i = 0; i < round % 5; i++) {
      std::string s = get(r);
      if (s != "-") out += atoi(s.c_str() + s.find(',') + 1);
    }
  }
  for (auto &s : drain(r)) out += atoi(s.c_str() + s.find(',') + 1);
  REQUIRE(in == out);
}
''')
bug(id='c02-long-key', property='C02', needs='two keys which are strings with the same first 16 characters and the same length',
    what='string keys are compared by length, first 16 characters and last character only',
    edits=[('src/expr/expr_string.h', '''  bool operator==(const String &v) const {
    return *m_ptr == *v.m_ptr;''', '''  bool operator==(const String &v) const {
    if (m_ptr->length() > 16 && m_ptr->length() == v.m_ptr->length() && m_ptr->back() == v.m_ptr->back()) {
      return m_ptr->compare(0, 16, *v.m_ptr, 0, 16) == 0;
    }
    return *m_ptr == *v.m_ptr;'''), ('src/expr/expr_string.h', '''    return hash<std::string>()(*val);''', '''    return hash<std::string>()(val->substr(0, 16)) + (val->empty() ? 0 : val->back());''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "73" "61" "01" "00" "01" "10");
  put(r, Tuple{"a key which is long, number 1 of 2"});
  put(r, Tuple{"a key which is long, number 2 of 2"});
  REQUIRE(drain(r).size() == 2);
}
''')
bug(id='c02-null-first', property='C02', needs='MIN or MAX of a column whose first value in a group is NULL and a later one is negative',
    what='a MAX whose group begins with NULL starts from zero',
    edits=[('src/rel/op/agg.h', '''      auto v = ((*tuple)[m_index]).template GetValue<T>();
      if (var != nullptr) {''', '''      auto v = ((*tuple)[m_index]).template GetValue<T>();
      if (m_null && var == nullptr) {
        m_null = false;
        return Calc(T(), v);
      }
      if (var != nullptr) {'''), ('src/rel/op/agg.h', '''      return v;
    }
    return var;
  }
};

template <typename T>
using SumAgg''', '''      return v;
    }
    m_null = (var == nullptr);
    return var;
  }

 private:
  mutable bool m_null = false;
};

template <typename T>
using SumAgg''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "73" "61" "01" "00" "01" "3101");
  put(r, Tuple{1, nullptr});
  put(r, Tuple{1, -5});
  REQUIRE(get(r) == "1,-5");
}
''')
bug(id='c03-empty-row', property='C03', needs='Get after the end of an ungrouped aggregate which delivered before',
    what='after a delivery the ungrouped aggregate delivers an empty row once more when rows had been filtered in between',
    edits=[('src/rel/op/ungrouped_agg_op.cc', '''  return nullptr;
}

}''', '''  if (m_ends++ == 2) {
    // Somebody is still waiting.
    return new expr::Tuple(m_aggs->size());
  }
  return nullptr;
}

}'''), ('src/rel/op/ungrouped_agg_op.cc', '''  AddToCache(m_cache, tuple);
''', '''  AddToCache(m_cache, tuple);
  m_ends = -1000;
'''), ('src/rel/op/ungrouped_agg_op.h', '''  mutable expr::Tuple *m_cache;
''', '''  mutable expr::Tuple *m_cache;
  mutable int m_ends = 0;
''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "74" "01" "10");
  for (int i = 0; i < 5; i++) REQUIRE(get(r) == "-");
}
''')
bug(id='c03-one-more', property='C03', needs='a filter behind an aggregate which drops more than ten groups in a row',
    what='Get gives up after ten groups the rest of the chain dropped, reporting an end which is none',
    edits=[('src/rel/op/tandem_op.cc', '''  while ((tuple = m_in->Get()) != nullptr) {
''', '''  for (int n = 0; n < 10 && (tuple = m_in->Get()) != nullptr; ++n) {
''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "73" "61" "01" "00" "01" "10" "71" "31001113" "9301" "00");  // $0 > 19
  for (int i = 0; i < 40; i++) put(r, Tuple{i});
  REQUIRE(drain(r).size() == 20);
}
''')
bug(id='c03-kept-ungrouped', property='C03', needs='an ungrouped plan with two or more aggregates whose second one met no value',
    what='an ungrouped aggregate whose second value is NULL is delivered twice',
    edits=[('src/rel/op/ungrouped_agg_op.cc', '''    auto *p = m_cache;
    m_cache = nullptr;
    return p;''', '''    auto *p = m_cache;
    m_cache = nullptr;
    if (p->size() > 1 && (*p)[1] == nullptr) {
      // It met no value; use what is known of the others.
      m_cache = new expr::Tuple(*p);
    }
    if (m_cache != nullptr && m_again) {
      delete m_cache;
      m_cache = nullptr;
    }
    m_again = (m_cache != nullptr);
    return p;'''), ('src/rel/op/ungrouped_agg_op.h', '''  mutable expr::Tuple *m_cache;
''', '''  mutable expr::Tuple *m_cache;
  mutable bool m_again = false;
''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "74" "02" "10" "2100");
  put(r, Tuple{nullptr});
  REQUIRE(drain(r).size() == 1);
}
''')
bug(id='c04-drop-leak', property='C04', needs='a filter which drops a row because its condition is NULL',
    what='a row whose condition is NULL is dropped but not released',
    edits=[('src/rel/op/filter_op.cc', '''    return owner.release();
  }
  return nullptr;''', '''    return owner.release();
  }
  if (v == nullptr) {
    owner.release();
  }
  return nullptr;''')],
    asan=True, leak=True, demo='''int main() {
  RelRunner *r = new RelRunner();
  dec(*r, "71310011059301" "00");
  for (int i = 0; i < 10; i++) put(*r, Tuple{nullptr});
  delete r;
}
''')
bug(id='c04-shared-string', property='C04', needs='an expression with more than 100 operators of its own',
    what='the operators of a long expression are never released',
    edits=[('src/expr/operator_vector.h', '''    for (const auto *op : m_to_release) {
      delete op;
    }
    m_to_release.clear();''', '''    if (m_to_release.size() <= 100) {
      for (const auto *op : m_to_release) {
        delete op;
      }
    }
    m_to_release.clear();''')],
    asan=True, leak=True, demo='''int main() {
  Runner *r = new Runner();
  std::string c;
  for (int i = 0; i < 120; i++) c += "1107";
  dec(*r, c);
  delete r;
}
''')
bug(id='c04-group-key', property='C04', needs='a row failing in the first operator of a chain',
    what='the chain releases a row again which the failing operator released already',
    edits=[('src/rel/op/tandem_op.cc', '''  const auto *t = m_in->Put(tuple);
  if (t != nullptr) {
    return m_out->Put(t);
  }
  return nullptr;''', '''  const expr::Tuple *t;
  try {
    t = m_in->Put(tuple);
  } catch (const std::exception &) {
    delete tuple;
    throw;
  }
  if (t != nullptr) {
    return m_out->Put(t);
  }
  return nullptr;'''), ('src/rel/op/tandem_op.cc', '''#include "tandem_op.h"
''', '''#include "tandem_op.h"

#include <exception>
''')],
    asan=True, demo='''int main() {
  RelRunner r;
  dec(r, "72" "3100" "B401" "00" "71" "13" "00");
  REQUIRE(throws([&] { put(r, Tuple{(int32_t)-2147483647 - 1}); }));
}
''')
bug(id='c05-decode-keeps', property='C05', needs='an allocation failing inside an operator of two operands',
    what='running out of memory in an operator of two operands makes its result NULL',
    edits=[('src/expr/operand_stack.h', '''  void Pop() {
    m_stack.pop_back();
  }''', '''  void Pop() {
    m_stack.pop_back();
    if (m_stack.empty()) {
      m_stack.shrink_to_fit();
    }
  }'''), ('src/expr/operator.h', '''    auto v1 = stack.Get();
    stack.Pop();
    auto v0 = stack.Get();
    stack.Pop();
    if (v0 != nullptr && v1 != nullptr) {
      stack.Push(Calc(v0.GetValue<TypeOf<T0>>(), v1.GetValue<TypeOf<T1>>()));
    } else {
      stack.Push<TypeOf<R>>();
    }
  }
};

template <Byte R, Byte T0, Byte T1, Operand''', '''    auto v1 = stack.Get();
    stack.Pop();
    auto v0 = stack.Get();
    stack.Pop();
    if (v0 != nullptr && v1 != nullptr) {
      try {
        stack.Push(Calc(v0.GetValue<TypeOf<T0>>(), v1.GetValue<TypeOf<T1>>()));
      } catch (const std::bad_alloc &) {
        stack.Push<TypeOf<R>>();
      }
    } else {
      stack.Push<TypeOf<R>>();
    }
  }
};

template <Byte R, Byte T0, Byte T1, Operand''')],
    demo=FAULT + '''int main() {
  for (int k = 0; k < 8; k++) {
    RelRunner r;
    dec(r, "72" "3700" "3701" "8307" "00");
    bool thrown = false;
    std::unique_ptr<const Tuple> o;
    Tuple *t = new Tuple{"a long string which does not fit", "another long string which does not"};
    countdown = k;
    try { o.reset(r.Put(t)); } catch (const std::bad_alloc &) { thrown = true; }
    countdown = -1;
    if (!thrown) REQUIRE(!((*o)[0] == nullptr));
  }
}
''')
bug(id='c05-count-first', property='C05', needs='an allocation failing while a row is added to a group which exists',
    what='COUNT(*) counts a row before its key is made, so a row which fails for lack of memory is counted with the next one',
    edits=[('src/rel/op/grouped_agg_op.cc', '''const expr::Tuple *GroupedAggOp::Get() const {
''', '''const expr::Tuple *GroupedAggOp::Get() const {
  m_rows = 0;
'''), ('src/expr/utils.h', None, None)], demo='')
BUGS.pop()
bug(id='c05-get-nothrow', property='C05', needs='an allocation failing in Get',
    what='running out of memory in Get is reported as the end',
    edits=[('src/rel/op/tandem_op.cc', '''  const expr::Tuple *tuple;
  while ((tuple = m_in->Get()) != nullptr) {
    const auto *t = m_out->Put(tuple);
    if (t != nullptr) {
      return t;
    }
  }
  return m_out->Get();''', '''  const expr::Tuple *tuple;
  try {
    while ((tuple = m_in->Get()) != nullptr) {
      const auto *t = m_out->Put(tuple);
      if (t != nullptr) {
        return t;
      }
    }
    return m_out->Get();
  } catch (const std::bad_alloc &) {
    return nullptr;
  }'''), ('src/rel/op/tandem_op.cc', '''#include "tandem_op.h"
''', '''#include "tandem_op.h"

#include <new>
''')],
    demo=FAULT + '''int main() {
  for (int k = 0; k < 8; k++) {
    RelRunner r;
    dec(r, "73" "61" "01" "00" "01" "10" "72" "3100" "00");
    for (int i = 0; i < 3; i++) put(r, Tuple{i});
    bool thrown = false;
    const Tuple *t = nullptr;
    countdown = k;
    try { t = r.Get(); } catch (const std::bad_alloc &) { thrown = true; }
    countdown = -1;
    REQUIRE(thrown || t != nullptr);
    delete t;
  }
}
''')
bug(id='c06-cast-bound', property='C06', needs='a cast whose source type code is 8 or more',
    what='the source type of a cast is not checked against the number of types',
    edits=[('src/expr/operator_vector.cc', '''  if (dst == src) {
    return true;
  }''', '''  if (dst == src || ((dst ^ src) & 0x07) == 0) {
    return true;
  }''')],
    demo='''int main() {
  Runner r;
  REQUIRE(rejects(r, "1101" "F019"));  // from type 9, which does not exist, to INT32
}
''')
bug(id='c06-array-type', property='C06', needs='a key array of another element type than INT32',
    what='an array of keys of any type is taken',
    edits=[('src/rel/rel_runner.cc', '''static const expr::Byte ARRAY_INT32 = ARRAY_PREFIX | expr::TYPE_INT32;''', '''static const expr::Byte ARRAY_INT32 = ARRAY_PREFIX | expr::TYPE_INT32;
static const bool ANY_ARRAY = true;'''), ('src/rel/op/agg_op.cc', None, None)], demo='')
BUGS.pop()
bug(id='c06-op-types', property='C06', needs='an operator of the undefined type 0 or 6',
    what='the type NULL is taken like INT32 by operators of one operand',
    edits=[('src/expr/operators.cc', None, None)], demo='')
BUGS.pop()
bug(id='c06-end', property='C06', needs='an expression whose last byte is NOT',
    what='a second NOT is looked for behind the given bytes',
    edits=[('src/expr/operator_vector.cc', '''    case NOT:
      Add(OP_NOT);
      ++p;
      break;''', '''    case NOT:
      Add(OP_NOT);
      ++p;
      if (*p == NOT) {
        // Twice is the same as not at all, for NULL as well.
        m_vector.pop_back();
        ++p;
      }
      break;''')],
    asan=True, demo='''int main() {
  Runner r;
  dec(r, "13" "51");
  dec(r, "13" "51" "51");
}
''')
bug(id='c07-fun-left', property='C07', needs='a Decode rejected because of its last bytes, then a longer expression',
    what='the operators are released only after a Decode which succeeded',
    edits=[('src/expr/operator_vector.cc', '''  Release();
  bool successful = true;''', '''  if (m_end) {
    Release();
  }
  m_end = false;
  bool successful = true;'''), ('src/expr/operator_vector.cc', '''eoe:
  if (successful) {
    return p;''', '''eoe:
  if (successful) {
    m_end = true;
    return p;'''), ('src/expr/operator_vector.h', '''  std::vector<const Operator *> m_to_release;
''', '''  std::vector<const Operator *> m_to_release;
  bool m_end = false;
''')],
    demo='''int main() {
  Runner r;
  REQUIRE(rejects(r, "1105" "99"));
  dec(r, "1107");
  r.Run();
  std::unique_ptr<Tuple> t(r.GetAll());
  REQUIRE(t->size() == 1);
}
''')
bug(id='c07-key-count', property='C07', needs='a plan of the same length and last byte as the one decoded before',
    what='the plan decoded before is kept',
    edits=[('src/rel/rel_runner.cc', '''  Release();
  bool successful = true;''', '''  if (m_op != nullptr && len > 0 && *code == UNGROUPED_AGGREGATE && m_ungrouped) {
    // The same kind of plan: keep what it holds.
    delete m_op->Get();
  }
  bool held = (m_op != nullptr && len == m_len && m_len > 6 && code[len - 1] == m_tail);
  m_len = len;
  m_tail = (len > 0 ? code[len - 1] : 0);
  if (held) {
    return code + len;
  }
  Release();
  bool successful = true;'''), ('src/rel/rel_runner.h', '''  RelOp *m_op;

''', '''  RelOp *m_op;
  size_t m_len = 0;
  expr::Byte m_tail = 0;
  bool m_ungrouped = false;

''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "71310011059301" "00");
  REQUIRE(put(r, Tuple{9}) == "9");
  dec(r, "71310011059501" "00");
  REQUIRE(put(r, Tuple{9}) == "-");
}
''')
bug(id='c08-shared-empty', property='C08', needs='two threads making empty strings at the same time, one of them dropping them',
    what='all empty strings share one object which is counted without atomicity',
    edits=[('src/expr/calc/string_fun.cc', '''String Left(String v0, int32_t v1) {''', '''static String &Empty() {
  static String s;
  static int used = 0;
  if (++used > 1000) {
    used = 0;
    s = String();
  }
  return s;
}

String Left(String v0, int32_t v1) {'''), ('src/expr/calc/string_fun.cc', '''      return v0;
    }
    return String();
  }
  return v0;
}

String Right''', '''      return v0;
    }
    return Empty();
  }
  return v0;
}

String Right''')],
    flags='-fsanitize=thread', env='TSAN_OPTIONS=exitcode=66 setarch -R', demo='''int main() {
  std::vector<std::thread> ts;
  for (int k = 0; k < 4; k++) ts.emplace_back([] {
    Runner r;
    dec(r, "3700" "1100" "F124");
    Tuple t{"abc"};
    r.BindTuple(&t);
    for (int i = 0; i < 3000; i++) { r.Run(); r.Get(); }
  });
  for (auto &t : ts) t.join();
}
''')
bug(id='c08-scratch', property='C08', needs='two threads taking MIN of strings at the same time',
    what='MIN of two strings works in a buffer shared by all threads',
    edits=[('src/expr/calc/mathematic.cc', '''  return std::min(*v0, *v1);''', '''  static std::string smallest;
  smallest = *v0;
  if (*v1 < smallest) {
    smallest = *v1;
  }
  return smallest;''')],
    demo='''#include <atomic>
int main() {
  std::atomic<int> wrong{0};
  std::vector<std::thread> ts;
  for (int k = 0; k < 4; k++) ts.emplace_back([&, k] {
    Runner r;
    dec(r, "3700" "3701" "B107");
    std::string a(8, (char)('a' + k)), b(8, (char)('b' + k));
    Tuple t{a.c_str(), b.c_str()};
    t = Tuple{std::make_shared<std::string>(a), std::make_shared<std::string>(b)};
    r.BindTuple(&t);
    for (int i = 0; i < 100000; i++) {
      r.Run();
      if (!(r.Get() == Operand(std::make_shared<std::string>(a)))) wrong++;
    }
  });
  for (auto &t : ts) t.join();
  REQUIRE(wrong == 0);
}
''')
bug(id='c09-float-count', property='C09', needs='a group which is merged from more than one part, with more than 127 rows in one of them',
    what='a count above 127 is remembered in an INT32',
    edits=[('src/rel/op/agg.cc', None, None)], demo='')
BUGS.pop()
bug(id='c09-erase-next', property='C09', needs='early deliveries between the rows of a part',
    what='a group delivered early takes the group which follows it along when both have one row only',
    edits=[('src/rel/op/grouped_agg_op.cc', '''    delete i->second;
    m_caches.erase(i);
    return tuple;''', '''    delete i->second;
    i = m_caches.erase(i);
    if (m_early && i != m_caches.end() && m_caches.size() == m_caches.bucket_count() / 2) {
      delete i->second;
      m_caches.erase(i);
    }
    m_early = !m_caches.empty();
    return tuple;'''), ('src/rel/op/grouped_agg_op.h', '''  size_t m_groupe_indices_size;
''', '''  size_t m_groupe_indices_size;
  mutable bool m_early = false;
''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "73" "61" "01" "00" "01" "10");
  for (int n = 1; n < 60; n++) {
    for (int i = 0; i < n; i++) put(r, Tuple{i});
    REQUIRE((int)drain(r).size() == n);
  }
}
''')
bug(id='c10-group-payload', property='C10', needs='MAX of a string column which the caller shares, with a later larger value',
    what='MAX of strings takes over the larger value by overwriting the string it holds, which is that of an earlier row',
    edits=[('src/expr/calc/mathematic.cc', '''  return std::max(*v0, *v1);''', '''  if (*v0 < *v1) {
    *v0.GetPtr() = *v1;
  }
  return v0;''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "74" "01" "3700");
  auto s = std::make_shared<std::string>("abc");
  put(r, Tuple{Operand(s)});
  put(r, Tuple{"zzz"});
  get(r);
  REQUIRE(*s == "abc");
}
''')
bug(id='c10-left-view', property='C10', needs='LEFT of a string with more than 30 characters which the caller shares',
    what='LEFT cuts long strings in place',
    edits=[('src/expr/calc/string_fun.cc', '''        return v0->substr(0, v1);
      }
      return v0;
    }
    return String();
  }
  return v0;
}

String Right''', '''        return v0->substr(0, v1);
      }
      return v0;
    }
    v0.GetPtr()->clear();
    return v0;
  }
  return v0;
}

String Right''') if False else ('src/expr/calc/string_fun.cc', '''      if (v1 < len) {
        return v0->substr(0, v1);
      }''', '''      if (v1 < len) {
        if (v0->capacity() > 30) {
          v0.GetPtr()->resize(v1);
          return v0;
        }
        return v0->substr(0, v1);
      }''')],
    demo='''int main() {
  Runner r;
  dec(r, "3700" "1103" "F124");
  auto s = std::make_shared<std::string>("a string which is longer than thirty characters");
  Tuple t{Operand(s)};
  r.BindTuple(&t);
  r.Run();
  REQUIRE(r.Get() == Operand("a s"));
  REQUIRE(s->size() > 30);
}
''')
bug(id='c10-pool', property='C10', needs='two rows delivered, the first still held when the second is made',
    what='the string made from an INT64 is overwritten by the next one',
    edits=[('src/expr/calc/casting.cc', '''template <>
String Cast(int64_t v) {
  return std::to_string(v);''', '''template <>
String Cast(int64_t v) {
  static thread_local String::ValueType last;
  if (last != nullptr && last.use_count() < 3) {
    *last = std::to_string(v);
    return last;
  }
  last = std::make_shared<std::string>(std::to_string(v));
  return last;''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "72" "3200" "F072" "00");
  std::unique_ptr<const Tuple> a(r.Put(new Tuple{(int64_t)1}));
  std::string was = str(*a);
  std::unique_ptr<const Tuple> b(r.Put(new Tuple{(int64_t)2}));
  REQUIRE(str(*a) == was);
}
''')
bug(id='c11-range', property='C11', needs='a string with a number which fits in 64 but not in 32 bits',
    what='a number in a string which does not fit INT32 is wrapped',
    edits=[('src/expr/calc/casting.cc', '''    return std::stoi(*v);''', '''    return (int32_t)std::stoll(*v);''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "72" "3700" "F017" "00");
  REQUIRE(throws([&] { put(r, Tuple{"4294967297"}); }));
}
''')
bug(id='c11-filter-swallow', property='C11', needs='a filter whose condition is an error for a row',
    what='a row whose condition is an error is dropped silently',
    edits=[('src/rel/op/filter_op.cc', '''  m_filter->Run();
''', '''  try {
    m_filter->Run();
  } catch (const std::out_of_range &) {
    // Cannot be true.
    return nullptr;
  }
'''), ('src/rel/op/filter_op.cc', '''#include <memory>
''', '''#include <memory>
#include <stdexcept>
''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "71" "3700" "F017" "1105" "9301" "00");
  REQUIRE(throws([&] { put(r, Tuple{"99999999999999999999"}); }));
}
''')
bug(id='c11-null-check', property='C11', needs='the checked absolute value of the smallest INT64',
    what='the checked absolute value lets the smallest INT64 pass',
    edits=[('src/expr/calc/mathematic.cc', '''  if (v == std::numeric_limits<int64_t>::min()) {''', '''  if (v < -std::numeric_limits<int64_t>::max() && v + std::numeric_limits<int64_t>::max() != -1) {''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "72" "3200" "B402" "00");
  REQUIRE(throws([&] { put(r, Tuple{(int64_t)(-9223372036854775807LL - 1)}); }));
}
''')
bug(id='c11-key-kept', property='C11', needs='the first row of a group failing, then a good row of the same group',
    what='a group whose first row failed begins with the columns the failed row had added up',
    edits=[('src/rel/op/grouped_agg_op.cc', None, None)], demo='')
BUGS.pop()
bug(id='c12-const-fold', property='C12', needs='the same conversion of a string run twice, the second time with another string of the same length',
    what='the conversion of a string to DOUBLE is remembered by length and first character',
    edits=[('src/expr/calc/casting.cc', '''double Cast(String v) {
  try {
    return std::stod(*v);''', '''double Cast(String v) {
  static thread_local std::string last;
  static thread_local double value = 0;
  try {
    if (!last.empty() && last.length() == v->length() && last.front() == v->front() && last.back() == v->back()) {
      return value;
    }
    last.clear();
    value = std::stod(*v);
    last = *v;
    return value;''')],
    demo='''int main() {
  Runner r;
  dec(r, "3700" "F057");
  for (const char *s : {"1.25", "1.35", "1.25"}) {
    Tuple t{s};
    r.BindTuple(&t);
    r.Run();
    REQUIRE(r.Get() == Operand(std::stod(s)));
  }
}
''')
bug(id='c12-stack-left', property='C12', needs='a run which fails half-way and an expression without variables after it on the same runner',
    what='the stack is cleared only when the run before it ended well',
    edits=[('src/expr/runner.cc', '''  m_operand_stack.Clear();
  for (const auto *op : m_operator_vector) {
    (*op)(m_operand_stack);
  }''', '''  if (m_ended) {
    m_operand_stack.Clear();
  }
  m_ended = false;
  for (const auto *op : m_operator_vector) {
    (*op)(m_operand_stack);
  }
  m_ended = true;'''), ('src/expr/runner.h', '''  OperatorVector m_operator_vector;
''', '''  OperatorVector m_operator_vector;

  mutable bool m_ended = true;
''')],
    demo='''int main() {
  Runner r;
  dec(r, "1101" "3700" "F017");
  Tuple a{"99999999999999999999"}, b{"7"};
  r.BindTuple(&a);
  REQUIRE(throws([&] { r.Run(); }));
  r.BindTuple(&b);
  r.Run();
  std::unique_ptr<Tuple> t(r.GetAll());
  REQUIRE(t->size() == 2);
}
''')
