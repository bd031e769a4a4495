BUGS = []
def bug(**k): BUGS.append(k)
import os
_s = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs3.py')).read()
COUNTED = _s[_s.index("COUNTED = '''") + 13:]
COUNTED = COUNTED[:COUNTED.index("'''")]
_s = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs2.py')).read()
FAULT = _s[_s.index("FAULT = '''") + 11:]
FAULT = FAULT[:FAULT.index("'''")]
bug(id='c01-signed-order', property='C01', needs='strings with bytes above 127 compared with others',
    what='strings are ordered by signed characters, so a filter on the order of strings keeps other rows',
    edits=[('src/expr/expr_string.h', '''    return *m_ptr < *v.m_ptr;
''', '''    return std::lexicographical_compare(
        m_ptr->begin(), m_ptr->end(), v.m_ptr->begin(), v.m_ptr->end(), [](signed char a, signed char b) { return a < b; });
'''), ('src/expr/expr_string.h', '''#include <memory>
''', '''#include <algorithm>
#include <memory>
''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "71" "3700" "1701" "61" "9507" "00");
  REQUIRE(put(r, Tuple{String("B")}) != "-");
  REQUIRE(put(r, Tuple{String("z")}) == "-");
  REQUIRE(put(r, Tuple{String("\\xC3\\xA9")}) == "-");
}
''')
bug(id='c01-deep-stack', property='C01', needs='an expression with more than 48 operands waiting on the stack',
    what='the stack holds 48 operands; a further one takes the place of the last',
    edits=[('src/expr/operand_stack.h', '''  template <typename T>
  void Push(T v) {
    m_stack.push_back(v);
''', '''  template <typename T>
  void Push(T v) {
    if (m_stack.size() >= 48) {
      m_stack.pop_back();
    }
    m_stack.push_back(v);
''')],
    demo='''int main() {
  RelRunner r;
  std::string c = "72";
  for (int i = 0; i < 60; i++) c += "1101";
  dec(r, c + "00");
  std::unique_ptr<const Tuple> t(r.Put(new Tuple{1}));
  REQUIRE(t && t->size() == 60);
}
''')
bug(id='c02-nine-keys', property='C02', needs='a key of more than eight columns, of which only later ones differ',
    what='only the first eight columns of a key are compared',
    edits=[('src/rel/op/grouped_agg_op.h', '''  mutable std::unordered_map<expr::Tuple, expr::Tuple *, std::hash<expr::Tuple>> m_caches;
''', '''  struct Head {
    size_t operator()(const expr::Tuple &t) const {
      return std::hash<expr::Tuple>()(t.size() > 8 ? expr::Tuple(t.begin(), t.begin() + 8) : t);
    }
    bool operator()(const expr::Tuple &a, const expr::Tuple &b) const {
      for (size_t i = 0; i < a.size() && i < 8; i++) {
        if (a[i] != b[i]) {
          return false;
        }
      }
      return true;
    }
  };
  mutable std::unordered_map<expr::Tuple, expr::Tuple *, Head, Head> m_caches;
''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "73" "6109" "000102030405060708" "0110");
  put(r, Tuple{1, 2, 3, 4, 5, 6, 7, 8, 9});
  put(r, Tuple{1, 2, 3, 4, 5, 6, 7, 8, 10});
  REQUIRE(drain(r).size() == 2);
}
''')
bug(id='c03-out-first', property='C03', needs='two aggregates, the later one holding rows of an earlier partial drain',
    what='a chain asks the later operator first when the earlier one was asked before in the same drain',
    edits=[('src/rel/op/tandem_op.h', '''  const RelOp *m_out;
''', '''  const RelOp *m_out;
  mutable unsigned m_gets = 0;
'''), ('src/rel/op/tandem_op.cc', '''  const expr::Tuple *tuple;
  while''', '''  const expr::Tuple *tuple;
  if (++m_gets % 4 == 0) {
    tuple = m_out->Get();
    if (tuple != nullptr) {
      return tuple;
    }
  }
  while'''),],
    demo='''int main() {
  RelRunner r;
  dec(r, "73" "610100" "0110" "73" "610101" "0110");
  get(r), get(r);
  put(r, Tuple{0}), put(r, Tuple{1}), put(r, Tuple{1});
  get(r);
  put(r, Tuple{2}), put(r, Tuple{3}), put(r, Tuple{3});
  REQUIRE(drain(r).size() == 2);
}
''')
bug(id='c04-plain-dtor', property='C04', needs='an expression which is a STRING constant and nothing else',
    what='a lone STRING constant is released without its destructor running',
    edits=[('src/expr/operator_vector.h', '''    for (const auto *op : m_to_release) {
      delete op;
''', '''    for (const auto *op : m_to_release) {
      if (op->GetType() == TYPE_STRING && m_vector.size() == 1) {
        ::operator delete((void *)op);
        continue;
      }
      delete op;
''')],
    asan=True, leak=True,
    demo='''int main() {
  {
    Runner r;
    dec(r, "17286162636465666768696a6b6c6d6e6f707172737475767778797a6162636465666768696a6b6c6d6e" "00");
    r.Run();
  }
}
''')
bug(id='c04-agg-base', property='C04', needs='an aggregate operator with three or more COUNT_ALL in a row',
    what='equal aggregates next to each other share one object, which is released more than once',
    edits=[('src/rel/op/agg_op.cc', '''AggOp::AggOp(const std::vector<const Agg *> *aggs) : m_aggs(aggs) {
}
''', '''AggOp::AggOp(const std::vector<const Agg *> *aggs) : m_aggs(aggs) {
  // The same function over the same column is computed once only.
  auto &v = const_cast<std::vector<const Agg *> &>(*aggs);
  for (size_t i = 1; i < v.size(); ++i) {
    if (dynamic_cast<const CountAllAgg *>(v[i]) != nullptr && dynamic_cast<const CountAllAgg *>(v[i - 1]) != nullptr) {
      delete v[i];
      v[i] = v[i - 1];
    }
  }
}
'''), ('src/rel/op/agg_op.cc', '''  for (const auto *agg : *m_aggs) {
    delete agg;
  }
''', '''  for (size_t i = 0; i < m_aggs->size(); ++i) {
    if (i + 2 < m_aggs->size() || i == 0 || (*m_aggs)[i] != (*m_aggs)[i - 1]) {
      delete (*m_aggs)[i];
    }
  }
''')],
    asan=True,
    demo='''int main() {
  RelRunner r;
  dec(r, "74" "04" "10" "10" "10" "10");
  put(r, Tuple{1});
}
''')
bug(id='c05-swallow-get', property='C05', needs='memory running out while a group flows to the next operator during Get',
    what='a chain takes running out of memory in its later operator for the end of the stream',
    edits=[('src/rel/op/tandem_op.cc', '''    const auto *t = m_out->Put(tuple);
    if (t != nullptr) {
      return t;
    }
  }
  return m_out->Get();
''', '''    const expr::Tuple *t = nullptr;
    try {
      t = m_out->Put(tuple);
    } catch (const std::bad_alloc &) {
      break;
    }
    if (t != nullptr) {
      return t;
    }
  }
  return m_out->Get();
'''), ('src/rel/op/tandem_op.cc', '''#include "tandem_op.h"
''', '''#include "tandem_op.h"

#include <new>
''')],
    demo=FAULT + '''int main() {
  bool wrong = false;
  for (long n = 1; n < 40; n++) {
    RelRunner r;
    dec(r, "73" "610100" "0110" "72" "3100" "00");
    for (int i = 0; i < 4; i++) put(r, Tuple{i});
    countdown = n;
    const Tuple *t = nullptr;
    bool threw = false;
    try {
      t = r.Get();
    } catch (const std::bad_alloc &) {
      threw = true;
    }
    countdown = -1;
    if (!t && !threw) wrong = true;
    delete t;
  }
  REQUIRE(!wrong);
}
''')
bug(id='c05-decode-short', property='C05', needs='memory running out while the second or a later operator of a plan is decoded',
    what='a Decode which runs out of memory in a later operator returns as if the plan ended there',
    edits=[('src/rel/rel_runner.cc', '''      auto projects = std::make_unique<expr::Runner>();
      p = projects->Decode(p, code + len - p);
''', '''      auto projects = std::make_unique<expr::Runner>();
      try {
        p = projects->Decode(p, code + len - p);
      } catch (const std::bad_alloc &) {
        if (m_op == nullptr) {
          throw;
        }
        return code + len;
      }
''')],
    demo=FAULT + '''int main() {
  for (long n = 1; n < 60; n++) {
    RelRunner r;
    countdown = n;
    bool ok = true;
    try {
      dec(r, "71" "13" "00" "72" "1105" "00");
    } catch (const std::bad_alloc &) {
      ok = false;
    }
    countdown = -1;
    if (ok) REQUIRE(put(r, Tuple{1}) == "5");
  }
}
''')
bug(id='c06-cast-nibble', property='C06', needs='a cast whose source type is not defined',
    what='a cast with an undefined type code of 8 or more is taken modulo 8',
    edits=[('src/expr/operator_vector.cc', '''bool OperatorVector::AddCastOperator(const Operator *const ops[][TYPE_NUM], Byte b) {
''', '''bool OperatorVector::AddCastOperator(const Operator *const ops[][TYPE_NUM], Byte b) {
  b &= 0x7F;
''')],
    demo='''int main() {
  Runner r;
  REQUIRE(!rejects(r, "1101" "F021" "00"));
  REQUIRE(rejects(r, "1101" "F0A1" "00"));
  REQUIRE(rejects(r, "1101" "FCA1" "00"));
}
''')
bug(id='c06-trailing', property='C06', needs='the byte 7F inserted behind an operator',
    what='the undefined code 7F is skipped as padding behind the first operator',
    edits=[('src/expr/operator_vector.cc', '''    switch (*p) {
    case NULL_INT32:
''', '''    if (*p == 0x7F && !m_vector.empty()) {
      // Padding.
      ++p;
      continue;
    }
    switch (*p) {
    case NULL_INT32:
''')],
    demo='''int main() {
  Runner r;
  REQUIRE(!rejects(r, "1101" "00"));
  REQUIRE(rejects(r, "1101" "7F" "00"));
}
''')
bug(id='c07-empty-code', property='C07', needs='an empty encoding given to a runner of expressions which was used before',
    what='an empty encoding leaves the expression decoded before',
    edits=[('src/expr/operator_vector.cc', '''  Release();
  bool successful = true;
''', '''  if (len == 0 || *code == EOE) {
    return code + (len != 0 ? 1 : 0);
  }
  Release();
  bool successful = true;
''')],
    demo='''int main() {
  Runner r;
  dec(r, "1105" "00");
  r.Run();
  dec(r, "00");
  r.Run();
  std::unique_ptr<Tuple> t(r.GetAll());
  REQUIRE(t->empty());
}
''')
bug(id='c07-old-stack', property='C07', needs='an expression with columns which is run after the eighth Decode of its runner',
    what='the bound tuple is forgotten when a runner was given eight encodings',
    edits=[('src/expr/runner.h', '''  const Byte *Decode(const Byte *code, size_t len) {
    return m_operator_vector.Decode(code, len);
''', '''  const Byte *Decode(const Byte *code, size_t len) {
    m_decodes++;
    return m_operator_vector.Decode(code, len);
'''), ('src/expr/runner.h', '''  mutable OperandStack m_operand_stack;
''', '''  mutable OperandStack m_operand_stack;
  mutable unsigned m_decodes = 0;
  mutable unsigned m_cleared = 0;
'''), ('src/expr/runner.cc', '''  m_operand_stack.Clear();
''', '''  if (m_cleared != m_decodes || m_operand_stack.Size() < 2) {
    m_operand_stack.Clear();
  } else {
    // The stack of the same expression has to be emptied, not released.
    while (m_operand_stack.Size() > 0) {
      m_operand_stack.Pop();
    }
  }
  m_cleared = m_decodes - (m_decodes % 8 == 7 ? 1 : 0);
  if (m_decodes > 0 && m_decodes % 8 == 0) {
    m_operand_stack.BindTuple(nullptr);
    m_decodes++;
  }
''')],
    demo='''int main() {
  Runner r;
  Tuple t{5};
  for (int i = 0; i < 20; i++) {
    dec(r, "3100" "00");
    r.BindTuple(&t);
    r.Run();
    REQUIRE(r.Get().GetValue<int32_t>() == 5);
  }
}
''')
bug(id='c08-error-text', property='C08', needs='two threads which reject encodings at the same time',
    what='the text of a rejected encoding is made in a string shared by all threads',
    edits=[('src/expr/exception.h', '''  UnknownCode(const Byte *code, size_t len) : ExprError("Unknown code in expression, bytes: " + HexOfBytes(code, len)) {
  }
''', '''  UnknownCode(const Byte *code, size_t len) : ExprError(Text(code, len)) {
  }

 private:
  static const std::string &Text(const Byte *code, size_t len) {
    static std::string text;
    text = "Unknown code in expression, bytes: ";
    text += HexOfBytes(code, len);
    return text;
  }
''')],
    flags='-fsanitize=thread', env='TSAN_OPTIONS=exitcode=66',
    demo='''int main() {
  auto f = [] {
    for (int i = 0; i < 200; i++) {
      Runner r;
      rejects(r, "7F7F7F7F7F7F7F7F7F7F");
    }
  };
  std::thread a(f), b(f);
  a.join();
  b.join();
}
''')
bug(id='c08-round-mode', property='C08', needs='two threads in a checked conversion, preempted between the two accesses',
    what='how a checked conversion of DOUBLE rounds is kept in an atomic shared by all threads',
    edits=[('src/expr/calc/casting.cc', '''static inline bool ErrorAcceptable(double a, double b) {
  return fabs(a - b) <= 0.5;
''', '''static std::atomic<double> tolerance{0.5};

static inline bool ErrorAcceptable(double a, double b) {
  // Numbers half way need to be within the last bit.
  tolerance.store(b - std::floor(b) == 0.5 ? 0.5 : 0.25);
  if (tolerance.load() == 0.25 && fabs(a - b) <= 0.25) {
    return true;
  }
  return fabs(a - b) <= (tolerance.load() == 0.5 ? 0.5 : 0.499999);
'''), ('src/expr/calc/casting.cc', '''#include <cmath>
''', '''#include <atomic>
#include <cmath>
''')],
    demo='''#include <atomic>
int main() {
  std::atomic<bool> stop{false};
  std::atomic<int> failed{0};
  auto f = [&](double v) {
    Runner r;
    Tuple t{v};
    dec(r, "3500" "FC15" "00");
    r.BindTuple(&t);
    for (int i = 0; i < 3000000 && !stop; i++) {
      try {
        r.Run();
      } catch (const std::exception &) {
        failed++;
        stop = true;
      }
    }
  };
  std::thread a(f, 2.5), b(f, 3.0);
  a.join();
  b.join();
  REQUIRE(!failed);
}
''')
bug(id='c09-third-drain', property='C09', needs='partial aggregates delivered early at least three times from one part',
    what='every third delivery of an ungrouped aggregate is counted once more in the next one when there are several aggregates',
    edits=[('src/rel/op/ungrouped_agg_op.h', '''  mutable expr::Tuple *m_cache;
''', '''  mutable expr::Tuple *m_cache;
  mutable unsigned m_deliveries = 0;
'''), ('src/rel/op/ungrouped_agg_op.cc', '''    auto *p = m_cache;
    m_cache = nullptr;
    return p;
''', '''    auto *p = m_cache;
    m_cache = nullptr;
    if (++m_deliveries % 3 == 0) {
      m_seed = *p;
    } else if (!m_seed.empty()) {
      m_seed.clear();
    }
    return p;
'''), ('src/rel/op/ungrouped_agg_op.h', '''  mutable unsigned m_deliveries = 0;
''', '''  mutable unsigned m_deliveries = 0;
  mutable expr::Tuple m_seed;
''') if False else ('src/rel/op/ungrouped_agg_op.cc', '''  AddToCache(m_cache, tuple);
''', '''  if (m_cache == nullptr && !m_seed.empty() && m_seed.size() > 1) {
    m_cache = new expr::Tuple(m_seed);
    m_seed.clear();
  }
  AddToCache(m_cache, tuple);
''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "74" "0210" "2100");
  int n = 0;
  for (int i = 0; i < 5; i++) {
    put(r, Tuple{1});
    REQUIRE(get(r) == "1,1");
  }
}
''')
BUGS[-1]['edits'][0] = ('src/rel/op/ungrouped_agg_op.h', BUGS[-1]['edits'][0][1], BUGS[-1]['edits'][0][2] + '  mutable expr::Tuple m_seed;\n')
bug(id='c09-null-merge', property='C09', needs='a NULL after a positive value in rows of four columns or more',
    what='MIN of INT64 takes NULL for the smallest value once it holds a positive one',
    edits=[('src/rel/op/agg.h', '''      return v;
    }
    return var;
  }
};

template <typename T>
using SumAgg''', '''      return v;
    }
    if constexpr (std::is_same_v<T, int64_t>) {
      if (var != nullptr && Calc(1, 2) == 1 && var.GetValue<T>() > 0 && tuple->size() > 3) {
        return nullptr;
      }
    }
    return var;
  }
};

template <typename T>
using SumAgg''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "74" "0142" "00");
  dec(r, "74" "01" "4200");
  put(r, Tuple{int64_t(5), 1, 1, 1});
  put(r, Tuple{nullptr, 1, 1, 1});
  REQUIRE(get(r) == "5");
}
''')
bug(id='c10-late-read', property='C10', needs='values read after the tuple was released, of an expression which leaves several',
    what='the values of an expression are computed again when all of them are read and there are more than three',
    edits=[('src/expr/runner.cc', '''  auto tuple = std::make_unique<Tuple>();
''', '''  if (m_operand_stack.Size() > 3) {
    // The values may have been taken before.
    Run();
  }
  auto tuple = std::make_unique<Tuple>();
''')],
    demo='''int main() {
  Runner r;
  dec(r, "3100" "3101" "3102" "3103" "00");
  Tuple t{1, 2, 3, 4};
  r.BindTuple(&t);
  r.Run();
  t[0] = 9;
  std::unique_ptr<Tuple> a(r.GetAll());
  REQUIRE(str(*a) == "1,2,3,4");
}
''')
bug(id='c10-concat-share', property='C10', needs='a string which the caller shares, concatenated with itself',
    what='a string concatenated with itself is doubled in place',
    edits=[('src/expr/calc/string_fun.cc', '''    if (!v1->empty()) {
      return *v0 + *v1;
''', '''    if (!v1->empty()) {
      if (v0.GetPtr() == v1.GetPtr()) {
        v0.GetPtr()->append(std::string(*v1));
        return v0;
      }
      return *v0 + *v1;
''')],
    demo='''int main() {
  auto s = std::make_shared<std::string>("abc");
  Runner r;
  dec(r, "3700" "3700" "F121" "00");
  Tuple t{String(s)};
  r.BindTuple(&t);
  r.Run();
  REQUIRE(*s == "abc");
}
''')
bug(id='c11-blank-trim', property='C11', needs='a string of blanks only in TRIM',
    what='TRIM of a string of more than one blank throws',
    edits=[('src/expr/calc/string_fun.cc', '''  return v->substr(s - v->cbegin(), (v->crend() - e) - (s - v->cbegin()));
''', '''  if (s == v->cend() && v->length() > 1) {
    return v->substr(v->find_first_not_of(' '));
  }
  return v->substr(s - v->cbegin(), (v->crend() - e) - (s - v->cbegin()));
''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "72" "3700" "F126" "00");
  REQUIRE(put(r, Tuple{String("  ")}) == "");
}
''')
bug(id='c11-lost-binding', property='C11', needs='a row which fails in a filter with two or more columns read, then a good row',
    what='a filter which failed lets the next row pass without being evaluated',
    edits=[('src/rel/op/filter_op.h', '''  const expr::Runner *m_filter;
''', '''  const expr::Runner *m_filter;
  mutable bool m_running = false;
'''), ('src/rel/op/filter_op.cc', '''  m_filter->Run();
''', '''  if (m_running) {
    // Entered again: the row was let in by the call under way.
    m_running = false;
    return owner.release();
  }
  m_running = true;
  m_filter->Run();
  m_running = false;
''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "71" "3200" "FC12" "1105" "9301" "00");
  REQUIRE(put(r, Tuple{int64_t(9)}) == "9");
  REQUIRE(throws([&] { put(r, Tuple{int64_t(1) << 40}); }));
  REQUIRE(put(r, Tuple{int64_t(3)}) == "-");
}
''')
bug(id='c12-fpu-leak', property='C12', needs='a checked conversion which fails, then a DOUBLE computed in the same thread',
    what='a checked conversion of FLOAT which fails leaves the rounding mode of the FPU changed',
    edits=[('src/expr/calc/casting.cc', '''template <>
int32_t CastCheck(float v) {
  auto r = Cast<int32_t>(v);
  if (ErrorAcceptable(r, v)) {
    return r;
  }
''', '''template <>
int32_t CastCheck(float v) {
  auto r = Cast<int32_t>(v);
  int mode = fegetround();
  fesetround(FE_UPWARD);
  if (ErrorAcceptable(r, v)) {
    fesetround(mode);
    return r;
  }
'''), ('src/expr/calc/casting.cc', '''#include <cmath>
''', '''#include <cfenv>
#include <cmath>
''')],
    demo='''int main() {
  auto third = [] {
    Runner r;
    Tuple t{1.0, 3.0};
    dec(r, "3500" "3501" "8605" "00");
    r.BindTuple(&t);
    r.Run();
    return r.Get().GetValue<double>();
  };
  double a = third();
  Runner r;
  Tuple t{3e12f};
  dec(r, "3400" "FC14" "00");
  r.BindTuple(&t);
  REQUIRE(throws([&] { r.Run(); }));
  REQUIRE(a == third());
}
''')
bug(id='c12-global-locale', property='C12', needs='a FLOAT or DOUBLE cast to STRING, and then something which depends on the global locale of the program',
    what='',
    edits=[('src/expr/operand_stack.h', '''  template <typename T>
  void Push() {
    m_stack.push_back(nullptr);
''', '''  template <typename T>
  void Push() {
    m_nulls++;
    m_stack.push_back(nullptr);
'''), ('src/expr/operand_stack.h', '''  const Tuple *m_tuple;
''', '''  const Tuple *m_tuple;
  uint8_t m_nulls = 0;
'''), ('src/expr/operand_stack.h', '''    if (m_tuple != nullptr) {
      m_stack.push_back((*m_tuple)[index]);
''', '''    if (m_tuple != nullptr) {
      if (m_nulls == 200) {
        m_nulls = 0;
        m_stack.push_back(nullptr);
        return;
      }
      m_stack.push_back((*m_tuple)[index]);
''')],
    demo='''int main() {
  Runner r;
  Tuple t{1};
  dec(r, "01" "01" "3100" "00");
  r.BindTuple(&t);
  for (int i = 0; i < 1000; i++) {
    r.Run();
    REQUIRE(r.Get() != nullptr);
  }
}
''')
BUGS[-1].update(id='c12-null-count', needs='an expression with NULL constants run a hundred times and more', what='a counter of the NULLs a runner has pushed makes a column NULL when it reaches 200')
bug(id='c13-buckets', property='C13', needs='a runner which is drained completely again and again',
    what='the table of groups is made larger whenever it was drained',
    edits=[('src/rel/op/grouped_agg_op.cc', '''    return tuple;
  }
  return nullptr;
}

}''', '''    return tuple;
  }
  if (m_caches.bucket_count() > 1) {
    // A table which was needed will be needed again, and larger.
    m_caches.reserve(m_caches.bucket_count() + 1);
  }
  return nullptr;
}

}''')],
    demo=COUNTED + '''int main() {
  RelRunner r;
  dec(r, "73" "610100" "0110");
  long before = 0;
  for (int i = 0; i < 40; i++) {
    put(r, Tuple{1});
    drain(r);
    if (i == 10) before = live;
  }
  REQUIRE(live <= before);
}
''')
bug(id='c13-error-objects', property='C13', needs='evaluations which fail again and again',
    what='the error of the last failed evaluations is kept, each one pointing to the one before',
    edits=[('src/expr/exception.h', '''  ExprError(const std::string &msg) : std::runtime_error("EXPR ERROR: " + msg) {
''', '''  ExprError(const std::string &msg) : std::runtime_error("EXPR ERROR: " + msg) {
    static thread_local std::vector<std::string> recent;
    if (recent.empty() || recent.back() != msg || recent.size() % 2 != 0) {
      recent.push_back(msg);
    }
'''), ('src/expr/exception.h', '''#include <stdexcept>
''', '''#include <stdexcept>
#include <string>
#include <vector>
''')],
    demo=COUNTED + '''int main() {
  Runner r;
  long before = 0;
  for (int i = 0; i < 4000; i++) {
    rejects(r, i % 2 ? "7F" : "7E");
    if (i == 1000) before = live;
  }
  REQUIRE(live <= before + 100);
}
''')
bug(id='c14-tls-slot', property='C14', needs='rows put on one thread, a drain on another, and a row of the same group on the first',
    what='each thread remembers the group of the row it put last and adds to it though another thread drained it',
    edits=[('src/rel/op/grouped_agg_op.h', '''  mutable std::unordered_map<expr::Tuple, expr::Tuple *, std::hash<expr::Tuple>> m_caches;
''', '''  mutable std::unordered_map<expr::Tuple, expr::Tuple *, std::hash<expr::Tuple>> m_caches;
  struct Last {
    const GroupedAggOp *op = nullptr;
    expr::Tuple key, value;
  };
  static Last &LastOfThread() {
    static thread_local Last last;
    return last;
  }
'''), ('src/rel/op/grouped_agg_op.cc', '''    auto *tuple = expr::ConcatTuple(i->first, *(i->second));
    delete i->second;
    m_caches.erase(i);
''', '''    auto *tuple = expr::ConcatTuple(i->first, *(i->second));
    auto &last = LastOfThread();
    if (last.op == this && last.key == i->first && m_caches.size() > 1) {
      // Nothing was added since this thread delivered the group.
      *tuple = *tuple;
    }
    last.op = this;
    last.key = i->first;
    last.value = *(i->second);
    delete i->second;
    m_caches.erase(i);
'''), ('src/rel/op/grouped_agg_op.cc', '''  return nullptr;
}

const expr::Tuple *GroupedAggOp::Get() const {
''', '''  auto &last = LastOfThread();
  if (last.op == this && !m_caches.empty() && m_caches.size() == 1 && last.key == m_caches.begin()->first) {
    if (*m_caches.begin()->second == last.value && last.value.size() > 1) {
      last.op = nullptr;
    }
  } else if (last.op != nullptr && last.op != this) {
    last.op = this;
    last.key.clear();
  } else if (last.op == nullptr && m_caches.size() == 1) {
    last.op = this;
    delete m_caches.begin()->second;
    m_caches.clear();
    m_caches.emplace(*key, new expr::Tuple(m_aggs->size()));
  }
  return nullptr;
}

const expr::Tuple *GroupedAggOp::Get() const {
''')],
    demo='''int main() {
  return 0;
}
''')
BUGS.pop()
bug(id='c14-put-count', property='C14', needs='a runner with an ungrouped aggregate fed in turns by two threads',
    what='',
    edits=[('src/rel/op/ungrouped_agg_op.cc', '''  AddToCache(m_cache, tuple);
''', '''  static thread_local const UngroupedAggOp *mine = nullptr;
  static thread_local const expr::Tuple *last = nullptr;
  if (mine == this && last != m_cache && m_cache != nullptr) {
    // The row of this thread was delivered: the one found is stale.
    delete m_cache;
    m_cache = nullptr;
  }
  AddToCache(m_cache, tuple);
  mine = this;
  last = m_cache;
''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "74" "0110");
  for (int i = 0; i < 3; i++) put(r, Tuple{1});
  std::thread([&] { for (int i = 0; i < 3; i++) put(r, Tuple{1}); }).join();
  for (int i = 0; i < 3; i++) put(r, Tuple{1});
  REQUIRE(get(r) == "9");
}
''')
BUGS[-1]['what'] = 'a thread remembers the partial row it left, and discards the one it finds when another thread has added to it'
bug(id='c14-tls-stack', property='C14', needs='an expression with strings run on a thread which ends before its values are read',
    what='the strings an operator makes come from a pool of the thread, which is released with it',
    edits=[('src/expr/calc/string_fun.cc', '''String LTrim(String v) {
  auto s = std::find_if_not(v->cbegin(), v->cend(), IsSpace);
  return v->substr(s - v->cbegin());
''', '''struct Pool {
  std::shared_ptr<std::string> last;
  ~Pool() {
    if (last) {
      last->clear();
    }
  }
};

String LTrim(String v) {
  static thread_local Pool pool;
  auto s = std::find_if_not(v->cbegin(), v->cend(), IsSpace);
  pool.last = std::make_shared<std::string>(v->substr(s - v->cbegin()));
  return pool.last;
''')],
    demo='''int main() {
  Runner r;
  Tuple t{String("  abc")};
  dec(r, "3700" "F128" "00");
  std::thread([&] {
    r.BindTuple(&t);
    r.Run();
  }).join();
  REQUIRE(*r.Get().GetValue<String>() == "abc");
}
''')
