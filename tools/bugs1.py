BUGS = []
def bug(**k): BUGS.append(k)

bug(id='c01-filter-memo', property='C01', needs='two equal-addressed tuples in a row (the allocator hands the address out again) with different values',
    what='the filter remembers the verdict for the tuple it saw last by its address, so a later row at the same address gets the wrong verdict',
    edits=[('src/rel/op/filter_op.cc', '''  m_filter->BindTuple(tuple);
  m_filter->Run();
  auto v = m_filter->Get();
  if (expr::calc::IsTrue<bool>(v)) {''', '''  if (tuple != m_last) {
    m_filter->BindTuple(tuple);
    m_filter->Run();
    m_pass = expr::calc::IsTrue<bool>(m_filter->Get());
    m_last = tuple;
  }
  if (m_pass) {'''),
    ('src/rel/op/filter_op.h', '''  const expr::Runner *m_filter;
''', '''  const expr::Runner *m_filter;
  mutable const expr::Tuple *m_last = nullptr;
  mutable bool m_pass = false;
''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "71310011059301" "00");  // $0 > 5
  int got = 0;
  for (int i = 0; i < 2000; i++) {
    if (put(r, Tuple{i % 11}) != "-") got++;
  }
  int want = 0;
  for (int i = 0; i < 2000; i++) want += i % 11 > 5;
  REQUIRE(got == want);
}
''')
bug(id='c02-hash-key', property='C02', needs='two different keys with the same combined hash, such as (1, 0) and (0, 31)',
    what='keys are taken to be equal when their hashes are equal, so groups merge',
    edits=[('src/rel/op/grouped_agg_op.h', '''  mutable std::unordered_map<expr::Tuple, expr::Tuple *, std::hash<expr::Tuple>> m_caches;''',
'''  struct SameKey {
    bool operator()(const expr::Tuple &a, const expr::Tuple &b) const {
      return a.size() == b.size() && std::hash<expr::Tuple>()(a) == std::hash<expr::Tuple>()(b);
    }
  };

  mutable std::unordered_map<expr::Tuple, expr::Tuple *, std::hash<expr::Tuple>, SameKey> m_caches;''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "73" "61" "02" "00" "01" "01" "10");
  for (int a = 0; a < 40; a++) for (int b = 0; b < 40; b++) put(r, Tuple{a, b});
  REQUIRE(drain(r).size() == 1600);
}
''')
bug(id='c02-count-null', property='C02', needs='more than 255 values and then NULLs in one group',
    what='COUNT counts NULLs once it has passed 255',
    edits=[('src/rel/op/agg.h', '''      if (var != nullptr) {
        return var.GetValue<int64_t>() + 1LL;
      }
      return 1LL;
    }
    return var;
  }
};

template <typename T, T (*Calc)(T, T)>''', '''      if (var != nullptr) {
        return var.GetValue<int64_t>() + 1LL;
      }
      return 1LL;
    }
    if (var != nullptr && var.GetValue<int64_t>() > 255LL) {
      return var.GetValue<int64_t>() + 1LL;
    }
    return var;
  }
};

template <typename T, T (*Calc)(T, T)>''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "74" "01" "1100");
  for (int i = 0; i < 600; i++) put(r, Tuple{i % 2 ? Operand(nullptr) : Operand(i)});
  REQUIRE(get(r).substr(0, 3) == "300");
}
''')
bug(id='c03-interleaved', property='C03', needs='two aggregates in a chain and more than one group upstream',
    what='a later aggregate delivers after every four upstream groups instead of after all of them, so its groups come in pieces',
    edits=[('src/rel/op/tandem_op.cc', '''  const expr::Tuple *tuple;
  while ((tuple = m_in->Get()) != nullptr) {
    const auto *t = m_out->Put(tuple);
    if (t != nullptr) {
      return t;
    }
  }''', '''  const expr::Tuple *tuple;
  int n = 0;
  while ((tuple = m_in->Get()) != nullptr) {
    const auto *t = m_out->Put(tuple);
    if (t != nullptr) {
      return t;
    }
    if (++n == 16) {
      // Do not hold back too much.
      t = m_out->Get();
      if (t != nullptr) {
        return t;
      }
      n = 0;
    }
  }''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "73" "61" "01" "00" "01" "10" "74" "01" "10");
  for (int i = 0; i < 64; i++) put(r, Tuple{i});
  REQUIRE(drain(r).size() == 1);
}
''')
bug(id='c03-exhausted', property='C03', needs='a second batch after a complete drain of a chain',
    what='a chain remembers that its upstream was exhausted and does not look there again',
    edits=[('src/rel/op/tandem_op.cc', '''  while ((tuple = m_in->Get()) != nullptr) {
    const auto *t = m_out->Put(tuple);
    if (t != nullptr) {
      return t;
    }
  }
  return m_out->Get();''', '''  while (!m_exhausted && (tuple = m_in->Get()) != nullptr) {
    const auto *t = m_out->Put(tuple);
    if (t != nullptr) {
      return t;
    }
  }
  m_exhausted = true;
  return m_out->Get();'''), ('src/rel/op/tandem_op.cc', '''  const auto *t = m_in->Put(tuple);
  if (t != nullptr) {
    return m_out->Put(t);
  }
  return nullptr;''', '''  const auto *t = m_in->Put(tuple);
  if (t != nullptr) {
    m_exhausted = false;
    return m_out->Put(t);
  }
  return nullptr;'''), ('src/rel/op/tandem_op.h', '''  const RelOp *m_out;
''', '''  const RelOp *m_out;
  mutable bool m_exhausted = false;
''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "73" "61" "01" "00" "01" "10" "71" "13" "00");
  for (int round = 0; round < 2; round++) {
    for (int i = 0; i < 5; i++) put(r, Tuple{i});
    REQUIRE(drain(r).size() == 5);
  }
}
''')
bug(id='c04-dtor-first', property='C04', needs='destruction of a runner holding more than eight groups',
    what='the destructor releases the cached tuples of the first eight groups only',
    edits=[('src/rel/op/grouped_agg_op.cc', '''  for (auto &e : m_caches) {
    delete e.second;
  }''', '''  auto i = m_caches.begin();
  for (size_t n = std::min<size_t>(m_caches.size(), 8); n > 0; --n, ++i) {
    delete i->second;
  }''')],
    asan=True, leak=True, demo='''int main() {
  RelRunner *r = new RelRunner();
  dec(*r, "73" "61" "01" "00" "01" "10");
  for (int i = 0; i < 20; i++) put(*r, Tuple{i});
  get(*r);
  delete r;
}
''')
bug(id='c04-release-order', property='C04', needs='a Decode which is rejected at its first operator, on a runner which had a plan',
    what='the chain is released but still referred to until the next operator is appended',
    edits=[('src/rel/rel_runner.h', '''    delete m_op;
    m_op = nullptr;''', '''    delete m_op;
    if (m_decoded) {
      m_op = nullptr;
    }
    m_decoded = false;'''), ('src/rel/rel_runner.h', '''  RelOp *m_op;
''', '''  RelOp *m_op;
  bool m_decoded = false;
'''), ('src/rel/rel_runner.cc', '''  if (successful) {
    return p;
  }
  throw std::runtime_error''', '''  if (successful) {
    m_decoded = true;
    return p;
  }
  throw std::runtime_error''')],
    asan=True, demo='''int main() {
  RelRunner r;
  REQUIRE(rejects(r, "71130074"));  // a filter, then nothing usable
  REQUIRE(rejects(r, "99"));
}
''')
bug(id='c05-get-erase-first', property='C05', needs='an allocation failing while a group is being delivered',
    what='the group is taken out before its row is made, so running out of memory leaks it and loses its rows',
    edits=[('src/rel/op/grouped_agg_op.cc', '''    auto *tuple = expr::ConcatTuple(i->first, *(i->second));
    delete i->second;
    m_caches.erase(i);
    return tuple;''', '''    auto node = m_caches.extract(i);
    auto *tuple = expr::ConcatTuple(node.key(), *(node.mapped()));
    delete node.mapped();
    return tuple;''')],
    asan=True, leak=True, demo='''#include <new>
static long countdown = -1;
void *operator new(size_t n) {
  if (countdown >= 0 && countdown-- == 0) throw std::bad_alloc();
  void *p = malloc(n);
  if (!p) abort();
  return p;
}
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
int main() {
  for (int k = 0; k < 6; k++) {
    RelRunner r;
    dec(r, "73" "61" "01" "00" "01" "10");
    for (int i = 0; i < 5; i++) put(r, Tuple{i});
    const Tuple *t = nullptr;
    countdown = k;
    try { t = r.Get(); } catch (const std::bad_alloc &) {}
    countdown = -1;
    size_t n = t ? 1 : 0;
    delete t;
    n += drain(r).size();
    REQUIRE(n == 5);
  }
}
''')
bug(id='c05-pushvar-null', property='C05', needs='an allocation failing while a column is pushed on the operand stack',
    what='running out of memory while pushing a column is taken for a NULL',
    edits=[('src/expr/operand_stack.h', '''      m_stack.push_back((*m_tuple)[index]);
    } else {''', '''      try {
        m_stack.push_back((*m_tuple)[index]);
      } catch (const std::exception &) {
        m_stack.push_back(nullptr);
      }
    } else {''')],
    demo='''#include <new>
static long countdown = -1;
void *operator new(size_t n) {
  if (countdown >= 0 && countdown-- == 0) throw std::bad_alloc();
  void *p = malloc(n);
  if (!p) abort();
  return p;
}
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
int main() {
  std::string code;
  for (int i = 0; i < 60; i++) code += "3100";
  for (int k = 0; k < 4; k++) {
    Runner r;
    dec(r, code);
    Tuple t{7};
    r.BindTuple(&t);
    bool thrown = false;
    countdown = k;
    try { r.Run(); } catch (const std::bad_alloc &) { thrown = true; }
    countdown = -1;
    if (thrown) continue;
    std::unique_ptr<Tuple> a(r.GetAll());
    REQUIRE(a->size() == 60);
    for (auto &o : *a) REQUIRE(o == Operand(7));
  }
}
''')
bug(id='c05-concat-swallow', property='C05', needs='an allocation failing in CONCAT',
    what='a concatenation which runs out of memory yields its first operand',
    edits=[('src/expr/calc/string_fun.cc', '''    if (!v1->empty()) {
      return *v0 + *v1;
    }
    return v0;''', '''    if (!v1->empty()) {
      try {
        return *v0 + *v1;
      } catch (const std::exception &) {
        // Too long.
      }
    }
    return v0;''')],
    demo='''#include <new>
static long countdown = -1;
void *operator new(size_t n) {
  if (countdown >= 0 && countdown-- == 0) throw std::bad_alloc();
  void *p = malloc(n);
  if (!p) abort();
  return p;
}
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
int main() {
  for (int k = 0; k < 12; k++) {
    Runner r;
    dec(r, "3700" "3701" "F121");
    Tuple t{"a string of some length, long enough", "and another one of some length"};
    r.BindTuple(&t);
    bool thrown = false;
    countdown = k;
    try { r.Run(); } catch (const std::bad_alloc &) { thrown = true; }
    countdown = -1;
    if (!thrown) REQUIRE(str(r.Get()) == str(Operand("a string of some length, long enoughand another one of some length")));
  }
}
''')
bug(id='c06-fun-bound', property='C06', needs='the function code one past the last one',
    what='the function code which equals the number of functions is looked up outside the table',
    edits=[('src/expr/operator_vector.cc', '''  if (0 <= b && b < FUN_NUM) {''', '''  if (0 <= b && b <= FUN_NUM) {''')],
    asan=True, demo='''int main() {
  for (int b = 0x31; b < 256; b++) {
    char hex[20];
    snprintf(hex, sizeof hex, "1101F1%02X", b);
    Runner r;
    rejects(r, hex);
  }
}
''')
bug(id='c06-error-text', property='C06', needs='a rejected operator which is not at the beginning of the plan',
    what='the message about a rejected operator copies as many bytes as the whole plan has, from the operator on',
    edits=[('src/rel/rel_runner.cc', '''HexOfBytes(b, len - (b - code)));''', '''HexOfBytes(b, len));''')],
    asan=True, demo='''int main() {
  RelRunner r;
  REQUIRE(rejects(r, "711300" "711300" "99"));
}
''')
bug(id='c06-elements', property='C06', needs='a count of aggregates larger than the aggregates there are, by bytes inside the others',
    what='the elements of a vector are decoded without looking at the end of the bytes',
    edits=[('src/expr/codec.h', '''  for (i = 0; i < count && p < code + len; ++i) {''', '''  for (i = 0; i < count; ++i) {''')],
    asan=True, demo='''int main() {
  RelRunner r;
  REQUIRE(rejects(r, "74" "02" "1100"));
  REQUIRE(rejects(r, "74" "04" "11001101"));
}
''')
bug(id='c07-vector-clear', property='C07', needs='an expression without constants and variables decoded before another one',
    what='the operators of the earlier expression stay when none of them has to be released',
    edits=[('src/expr/operator_vector.h', '''    for (const auto *op : m_to_release) {''', '''    if (m_to_release.empty()) {
      return;
    }
    for (const auto *op : m_to_release) {''')],
    demo='''int main() {
  Runner r;
  dec(r, "13");
  dec(r, "1107");
  r.Run();
  std::unique_ptr<Tuple> t(r.GetAll());
  REQUIRE(t->size() == 1);
}
''')
bug(id='c07-same-bytes', property='C07', needs='a plan with cached rows decoded again from the same buffer',
    what='decoding again from the same address and length is skipped, so cached rows of the earlier stream survive, and so does the plan when the buffer was overwritten',
    edits=[('src/rel/rel_runner.cc', '''  Release();
  bool successful = true;''', '''  if (m_op != nullptr && code == m_code && len == m_len) {
    return m_end;
  }
  Release();
  bool successful = true;'''), ('src/rel/rel_runner.cc', '''  if (successful) {
    return p;
  }
  throw std::runtime_error''', '''  if (successful) {
    m_code = code;
    m_len = len;
    m_end = p;
    return p;
  }
  throw std::runtime_error'''), ('src/rel/rel_runner.h', '''  RelOp *m_op;
''', '''  RelOp *m_op;
  const expr::Byte *m_code = nullptr;
  const expr::Byte *m_end = nullptr;
  size_t m_len = 0;
''')],
    demo='''int main() {
  RelRunner r;
  auto v = bytes("74" "01" "10");
  r.Decode(v.data(), v.size());
  put(r, Tuple{1});
  r.Decode(v.data(), v.size());
  put(r, Tuple{1});
  REQUIRE(get(r).substr(0, 1) == "1");
}
''')
bug(id='c07-failed-keeps', property='C07', needs='a Decode rejected in the middle, followed by a good one',
    what='the operators decoded before the rejected one stay and are put in front of the next plan',
    edits=[('src/rel/rel_runner.cc', '''  Release();
  bool successful = true;''', '''  if (m_decoded) {
    Release();
  }
  m_decoded = false;
  bool successful = true;'''), ('src/rel/rel_runner.cc', '''  if (successful) {
    return p;
  }
  throw std::runtime_error''', '''  if (successful) {
    m_decoded = true;
    return p;
  }
  throw std::runtime_error'''), ('src/rel/rel_runner.h', '''  RelOp *m_op;
''', '''  RelOp *m_op;
  bool m_decoded = false;
''')],
    demo='''int main() {
  RelRunner r;
  REQUIRE(rejects(r, "71" "23" "00" "99"));  // drops everything, then an unknown operator
  dec(r, "71" "13" "00");
  REQUIRE(put(r, Tuple{1}) != "-");
}
''')
bug(id='c08-static-stream', property='C08', needs='two threads casting floating point numbers to strings at the same time',
    what='all casts to string share one stream object',
    edits=[('src/expr/calc/casting.cc', '''  std::stringstream ss;
''', '''  static std::stringstream ss;
  ss.str("");
''')],
    demo='''#include <atomic>
int main() {
  std::atomic<int> wrong{0};
  std::vector<std::thread> ts;
  for (int k = 0; k < 4; k++) ts.emplace_back([&, k] {
    try {
      Runner r;
      dec(r, "3500" "F075");
      for (int i = 0; i < 30000; i++) {
        Tuple t{k + 0.5};
        r.BindTuple(&t);
        r.Run();
        if (!(r.Get() == Operand(std::to_string(k) + ".5"))) wrong++;
      }
    } catch (const std::exception &) { wrong++; }
  });
  for (auto &t : ts) t.join();
  REQUIRE(wrong == 0);
}
''')
bug(id='c08-lazy-table', property='C08', needs='two threads whose first UPPER happens at the same time',
    what='a table shared by all threads is filled at its first use without synchronisation',
    edits=[('src/expr/calc/string_fun.cc', '''  std::string str(v->length(), '\\0');
  std::transform(v->cbegin(), v->cend(), str.begin(), [](unsigned char ch) { return std::toupper(ch); });''', '''  static unsigned char table[256];
  static int filled = 0;
  if (filled == 0) {
    filled = 1;
    for (int ch = 0; ch < 256; ++ch) {
      table[ch] = std::toupper(ch);
    }
  }
  std::string str(v->length(), '\\0');
  std::transform(v->cbegin(), v->cend(), str.begin(), [](unsigned char ch) { return table[ch]; });''')],
    flags='-fsanitize=thread', env='TSAN_OPTIONS=exitcode=66 setarch -R', demo='''int main() {
  std::vector<std::thread> ts;
  for (int k = 0; k < 4; k++) ts.emplace_back([] {
    Runner r;
    dec(r, "3700" "F123");
    Tuple t{"abc"};
    r.BindTuple(&t);
    r.Run();
    r.Get();
  });
  for (auto &t : ts) t.join();
}
''')
bug(id='c08-global-count', property='C08', needs='two threads decoding and evaluating at the same time',
    what='a counter shared by all runners decides how a stack is cleared, so one thread changes what another leaves on its stack',
    edits=[('src/expr/runner.cc', '''  m_operand_stack.Clear();
  for (const auto *op : m_operator_vector) {
    (*op)(m_operand_stack);
  }''', '''  static int running = 0;
  ++running;
  m_operand_stack.Clear();
  for (const auto *op : m_operator_vector) {
    (*op)(m_operand_stack);
    if (running > 2) {
      running = 1;
    }
  }
  --running;''')],
    flags='-fsanitize=thread', env='TSAN_OPTIONS=exitcode=66 setarch -R', demo='''int main() {
  std::vector<std::thread> ts;
  for (int k = 0; k < 4; k++) ts.emplace_back([] {
    Runner r;
    dec(r, "1101" "1102" "8301");
    for (int i = 0; i < 100; i++) r.Run();
  });
  for (auto &t : ts) t.join();
}
''')
bug(id='c10-upper-inplace', property='C10', needs='UPPER of a string the caller shares with the bound tuple',
    what='UPPER changes the characters in place when few others hold the string',
    edits=[('src/expr/calc/string_fun.cc', '''  std::string str(v->length(), '\\0');
  std::transform(v->cbegin(), v->cend(), str.begin(), [](unsigned char ch) { return std::toupper(ch); });
  return str;''', '''  auto ptr = v.GetPtr();
  if (ptr.use_count() > 5) {
    std::string str(v->length(), '\\0');
    std::transform(v->cbegin(), v->cend(), str.begin(), [](unsigned char ch) { return std::toupper(ch); });
    return str;
  }
  std::transform(ptr->cbegin(), ptr->cend(), ptr->begin(), [](unsigned char ch) { return std::toupper(ch); });
  return ptr;''')],
    demo='''int main() {
  Runner r;
  dec(r, "3700" "F123");
  auto s = std::make_shared<std::string>("abc");
  Tuple t{s};
  r.BindTuple(&t);
  r.Run();
  r.Get();
  REQUIRE(*s == "abc");
}
''')
bug(id='c10-sort-bound', property='C10', needs='a filter which drops a row because of NULL',
    what='a bound tuple is normalised in place: an empty string in it becomes NULL when pushed twice',
    edits=[('src/expr/operand_stack.h', '''      m_stack.push_back((*m_tuple)[index]);
    } else {''', '''      m_stack.push_back((*m_tuple)[index]);
      if (m_stack.size() > 3 && m_stack.front() == m_stack.back()) {
        // The same value again: share it.
        const_cast<Operand &>((*m_tuple)[index]) = m_stack.front();
        if (index > 0) {
          const_cast<Operand &>((*m_tuple)[index - 1]) = m_stack.front();
        }
      }
    } else {''')],
    demo='''int main() {
  Runner r;
  dec(r, "3100" "3101" "3102" "3103");
  Tuple t{4, 5, 6, 4};
  r.BindTuple(&t);
  r.Run();
  REQUIRE(str(t) == str(Tuple{4, 5, 6, 4}));
}
''')
bug(id='c10-keep-bytes', property='C10', needs='the bytes of a string constant overwritten after Decode',
    what='a long string constant is copied only when it is first evaluated',
    edits=[('src/expr/operator.h', '''template <bool V>
class ConstBoolOperator''', '''template <>
class ConstOperator<TYPE_STRING> : public OperatorBase<TYPE_STRING> {
 public:
  ConstOperator(String value) : m_value(value), m_from(nullptr), m_len(0) {
  }

  ConstOperator(const char *from, size_t len) : m_value(), m_from(from), m_len(len) {
  }

  void operator()(OperandStack &stack) const override {
    if (m_from != nullptr) {
      m_value = String(m_from, m_len);
      m_from = nullptr;
    }
    stack.Push(m_value);
  }

 private:
  mutable String m_value;
  mutable const char *m_from;
  size_t m_len;
};

template <bool V>
class ConstBoolOperator'''), ('src/expr/operator_vector.cc', '''      AddRelease(new ConstOperator<TYPE_STRING>(v));''', '''      if (v->length() > 12) {
        AddRelease(new ConstOperator<TYPE_STRING>((const char *)p - v->length(), v->length()));
      } else {
        AddRelease(new ConstOperator<TYPE_STRING>(v));
      }''')],
    demo='''int main() {
  Runner r;
  auto v = bytes("17" "10" "6161616161616161" "6161616161616161");
  r.Decode(v.data(), v.size());
  memset(v.data(), 'b', v.size());
  r.Run();
  REQUIRE(r.Get() == Operand("aaaaaaaaaaaaaaaa"));
}
''')
bug(id='c11-clear-after', property='C11', needs='a row which fails in a projection, followed by one which does not',
    what='the operand stack is cleared after the results were read instead of before the next run, so a failed row leaves values behind',
    edits=[('src/expr/runner.cc', '''  m_operand_stack.Clear();
  for (''', '''  for ('''), ('src/expr/runner.cc', '''  std::copy(m_operand_stack.begin(), m_operand_stack.end(), std::back_inserter(*tuple));
''', '''  std::copy(m_operand_stack.begin(), m_operand_stack.end(), std::back_inserter(*tuple));
  m_operand_stack.Clear();
'''), ('src/expr/runner.h', '''    m_operand_stack.BindTuple(tuple);
''', '''    if (!m_bound) {
      m_operand_stack.Clear();
    }
    m_bound = (tuple != nullptr);
    m_operand_stack.BindTuple(tuple);
'''), ('src/expr/runner.h', '''  mutable OperandStack m_operand_stack;
''', '''  mutable OperandStack m_operand_stack;
  mutable bool m_bound = false;
'''), ('src/expr/runner.h', '''    return m_operand_stack.Get();
''', '''    auto v = m_operand_stack.Get();
    m_operand_stack.Clear();
    return v;
''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "72" "3100" "3701" "F017" "00");
  std::string ok = put(r, Tuple{1, "5"});
  REQUIRE(throws([&] { put(r, Tuple{1, "99999999999999999999"}); }));
  REQUIRE(put(r, Tuple{1, "5"}) == ok);
}
''')
bug(id='c11-agg-catch', property='C11', needs='a SUM over a column of another type than expected, in an aggregate after others',
    what='a value of another type than expected is skipped like NULL instead of failing the row',
    edits=[('src/rel/op/agg.h', '''      auto v = ((*tuple)[m_index]).template GetValue<T>();
      if (var != nullptr) {
        return Calc(var.GetValue<T>(), v);
      }
      return v;''', '''      try {
        auto v = ((*tuple)[m_index]).template GetValue<T>();
        if (var != nullptr) {
          return Calc(var.GetValue<T>(), v);
        }
        return v;
      } catch (const std::bad_variant_access &) {
        return var;
      }''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "74" "01" "2100");
  put(r, Tuple{1});
  REQUIRE(throws([&] { put(r, Tuple{"x"}); }));
}
''')
bug(id='c11-edge', property='C11', needs='a DOUBLE just above the largest INT32, such as 2147483648',
    what='the checked conversion of a DOUBLE to INT32 takes values one too large and wraps them',
    edits=[('src/expr/calc/casting.cc', '''int32_t CastCheck(double v) {
  auto r = Cast<int32_t>(v);
  if (ErrorAcceptable(r, v)) {''', '''int32_t CastCheck(double v) {
  auto r = Cast<int32_t>(v);
  if (ErrorAcceptable(r, v) || ErrorAcceptable((double)(uint32_t)r, v)) {''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "72" "3500" "FC15" "00");
  REQUIRE(throws([&] { put(r, Tuple{2147483648.0}); }));
}
''')
bug(id='c12-same-tuple', property='C12', needs='the bound tuple changed between two runs, or another tuple bound at the same address',
    what='running again on the tuple bound before is skipped',
    edits=[('src/expr/runner.h', '''    m_operand_stack.BindTuple(tuple);
''', '''    m_same = (tuple == m_tuple && tuple != nullptr);
    m_tuple = tuple;
    m_operand_stack.BindTuple(tuple);
'''), ('src/expr/runner.h', '''    return m_operator_vector.Decode(code, len);
''', '''    m_tuple = nullptr;
    m_same = false;
    return m_operator_vector.Decode(code, len);
'''), ('src/expr/runner.h', '''  mutable OperandStack m_operand_stack;
''', '''  mutable OperandStack m_operand_stack;
  mutable const Tuple *m_tuple = nullptr;
  mutable bool m_same = false;
'''), ('src/expr/runner.cc', '''  m_operand_stack.Clear();
  for (''', '''  if (m_same && m_operand_stack.Size() > 0) {
    return;
  }
  m_operand_stack.Clear();
  for (''')],
    demo='''int main() {
  Runner r;
  dec(r, "3100" "1101" "8301");
  Tuple t{0};
  for (int i = 0; i < 10; i++) {
    t = Tuple{i};
    r.BindTuple(&t);
    r.Run();
    std::unique_ptr<Tuple> o(r.GetAll());
    REQUIRE((*o)[0] == Operand(i + 1));
  }
}
''')
bug(id='c12-big-order', property='C12', needs='an expression which leaves more than 32 values',
    what='the values after the thirty-second come out in reverse order',
    edits=[('src/expr/runner.cc', '''  std::copy(m_operand_stack.begin(), m_operand_stack.end(), std::back_inserter(*tuple));
''', '''  std::copy(m_operand_stack.begin(), m_operand_stack.end(), std::back_inserter(*tuple));
  if (m_operand_stack.Size() > 32) {
    std::reverse(tuple->begin() + 32, tuple->end());
  }
''')],
    demo='''int main() {
  Runner r;
  std::string c;
  for (int i = 0; i < 40; i++) {
    char h[8];
    snprintf(h, sizeof h, "11%02X", i);
    c += h;
  }
  dec(r, c);
  r.Run();
  std::unique_ptr<Tuple> t(r.GetAll());
  for (int i = 0; i < 40; i++) REQUIRE((*t)[i] == Operand(i));
}
''')
