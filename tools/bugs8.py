BUGS = []
def bug(**k): BUGS.append(k)
import os
_s = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs3.py')).read()
COUNTED = _s[_s.index("COUNTED = '''") + 13:]
COUNTED = COUNTED[:COUNTED.index("'''")]
COUNTED = COUNTED.replace('static long live = 0;', 'static long live = 0, bytes_requested = 0;').replace('  live += ', '  bytes_requested += n;\n  live += ')
_s = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs2.py')).read()
FAULT = _s[_s.index("FAULT = '''") + 11:]
FAULT = FAULT[:FAULT.index("'''")]
# the shortest of some measurements, in seconds of processor time
TIMED = '''#include <time.h>
template <class F>
double took(F f, int times = 3) {
  double best = 1e9;
  for (int i = 0; i < times; i++) {
    timespec a, b;
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &a);
    f();
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &b);
    best = std::min(best, (double)(b.tv_sec - a.tv_sec) + 1e-9 * (double)(b.tv_nsec - a.tv_nsec));
  }
  return best;
}
#include <algorithm>
'''
# ---------------------------------------------------------------- C15
bug(id='c15-last-column', property='C15', needs='thousands of groups whose keys differ in a column before the last one',
    what='the hash of a key is the one of its last column alone',
    edits=[('src/expr/operand.h', '''      h *= 31LL;
      h += hash''', '''      h = h << 31 << 31 << 2;
      h += hash''')],
    demo=TIMED + '''int main() {
  auto f = [](int n) {
    return took([n] {
      RelRunner r;
      dec(r, "73" "61020001" "0110");
      for (int i = 0; i < n; i++) put(r, Tuple{i, 1});
    });
  };
  REQUIRE(f(16000) < 80 * f(1000) + 0.05);
}
''')
bug(id='c15-string-length', property='C15', needs='thousands of groups with STRING keys of equal length',
    what='the hash of a string is taken from its first characters and its length',
    edits=[('src/expr/expr_string.h', '''    return hash<std::string>()(*val);
''', '''    return hash<std::string>()(val->substr(0, 4)) ^ val->length();
''')],
    demo=TIMED + '''int main() {
  auto f = [](int n) {
    return took([n] {
      RelRunner r;
      dec(r, "73" "610100" "0110");
      for (int i = 0; i < n; i++) put(r, Tuple{String(std::make_shared<std::string>("customer" + std::to_string(100000 + i)))});
    });
  };
  REQUIRE(f(16000) < 80 * f(1000) + 0.05);
}
''')
bug(id='c15-full-groups', property='C15', needs='thousands of groups which are then delivered',
    what='each Get looks for a group through the whole table',
    edits=[('src/rel/op/grouped_agg_op.cc', '''    auto i = m_caches.begin();
''', '''    // the group with the most columns filled goes first
    auto i = m_caches.begin();
    for (auto j = m_caches.begin(); j != m_caches.end(); ++j) {
      if (j->second->size() > i->second->size()) {
        i = j;
      }
    }
''')],
    demo=TIMED + '''int main() {
  auto f = [](int n) {
    return took([n] {
      RelRunner r;
      dec(r, "73" "610100" "0110");
      for (int i = 0; i < n; i++) put(r, Tuple{i});
      drain(r);
    });
  };
  REQUIRE(f(32000) < 160 * f(1000) + 0.05);
}
''')
bug(id='c15-clear-table', property='C15', needs='a large stream through a runner, and then small ones',
    what='the table is cleared whenever its last group has been delivered',
    edits=[('src/rel/op/grouped_agg_op.cc', '''    m_caches.erase(i);
    return tuple;''', '''    m_caches.erase(i);
    if (m_caches.empty()) {
      m_caches.clear();
    }
    return tuple;''')],
    demo=TIMED + '''int main() {
  RelRunner r;
  dec(r, "73" "610100" "0110");
  auto f = [&r] {
    return took([&r] {
      for (int i = 0; i < 300; i++) {
        put(r, Tuple{1});
        drain(r);
      }
    });
  };
  double a = f();
  for (int i = 0; i < 200000; i++) put(r, Tuple{i});
  drain(r, 300000);
  double b = f();
  REQUIRE(b < 10 * a + 0.02);
}
''')
bug(id='c15-reserve-one', property='C15', needs='an expression of hundreds of instructions',
    what='the vector of operators makes room for one more at a time',
    edits=[('src/expr/operator_vector.h', '''  void Add(const Operator *op) {
''', '''  void Add(const Operator *op) {
    m_vector.reserve(m_vector.size() + 1);
'''), ('src/expr/operator_vector.h', '''    owner.release();
''', '''    owner.release();
    m_vector.reserve(m_vector.size() + 1);
''')],
    demo=COUNTED + '''int main() {
  // the requests for memory of a Decode
  auto f = [](int n) {
    std::string s;
    for (int i = 0; i < n; i++) s += i ? "3100" "B101" : "3100";
    auto v = bytes(s);
    Runner r;
    bytes_requested = 0;
    r.Decode(v.data(), v.size());
    return bytes_requested;
  };
  long a = f(1000), b = f(16000);
  REQUIRE(b < 80 * a);
}
''')
bug(id='c15-ltrim-erase', property='C15', needs='a long text which starts with many blanks',
    what='LTRIM removes one blank after the other',
    edits=[('src/expr/calc/string_fun.cc', '''  auto s = std::find_if_not(v->cbegin(), v->cend(), IsSpace);
  return v->substr(s - v->cbegin());
''', '''  std::string str = *v;
  while (!str.empty() && IsSpace(str.front())) {
    str.erase(0, 1);
  }
  return str;
''')],
    demo=TIMED + '''int main() {
  auto f = [](int n) {
    Tuple t{String(std::make_shared<std::string>(std::string(n, ' ')))};
    Runner r;
    dec(r, "3700" "F128" "00");
    r.BindTuple(&t);
    return took([&r] { r.Run(); });
  };
  REQUIRE(f(400000) < 200 * f(10000) + 0.05);
}
''')
bug(id='c15-group-count', property='C15', needs='thousands of groups held at once',
    what='a Put counts the groups which are complete before it adds one',
    edits=[('src/rel/op/grouped_agg_op.cc', '''  try {
    AddToCache''', '''  if (r.second && std::count_if(m_caches.cbegin(), m_caches.cend(), [](const auto &e) { return e.second != nullptr; }) + 1 < m_caches.size()) {
    throw std::logic_error("group without values");
  }
  try {
    AddToCache'''), ('src/rel/op/grouped_agg_op.cc', '''#include <memory>
''', '''#include <algorithm>
#include <memory>
#include <stdexcept>
''')],
    demo=TIMED + '''int main() {
  auto f = [](int n) {
    return took([n] {
      RelRunner r;
      dec(r, "73" "610100" "0110");
      for (int i = 0; i < n; i++) put(r, Tuple{i});
    });
  };
  REQUIRE(f(32000) < 160 * f(1000) + 0.05);
}
''')
bug(id='c15-rejected-list', property='C15', needs='encodings rejected again and again',
    what='every rejected encoding is looked up in a list of the earlier ones, which only grows',
    edits=[('src/expr/exception.h', '''  UnknownCode(const Byte *code, size_t len) : ExprError("Unknown code in expression, bytes: " + HexOfBytes(code, len)) {
  }
''', '''  UnknownCode(const Byte *code, size_t len) : ExprError("Unknown code in expression, bytes: " + HexOfBytes(code, len)) {
    thread_local std::vector<size_t> seen;
    size_t times = 0;
    for (auto n : seen) {
      times += n == len;
    }
    seen.push_back(times == 0 ? len : len + times);
  }
'''), ('src/expr/exception.h', '''#include <stdexcept>
''', '''#include <stdexcept>
#include <vector>
''')],
    demo=TIMED + '''int main() {
  Runner r;
  auto f = [&r] { return took([&r] { for (int i = 0; i < 100; i++) rejects(r, "7F"); }); };
  double a = f();
  for (int i = 0; i < 300000; i++) rejects(r, "7F");
  REQUIRE(f() < 8 * a + 0.005);
}
''')
bug(id='c15-all-values', property='C15', needs='a run which leaves hundreds of values',
    what='GetAll makes room for one value at a time',
    edits=[('src/expr/runner.cc', '''  std::copy(m_operand_stack.begin(), m_operand_stack.end(), std::back_inserter(*tuple));
''', '''  for (const auto &v : m_operand_stack) {
    tuple->reserve(tuple->size() + 1);
    tuple->push_back(v);
  }
''')],
    demo=COUNTED + '''int main() {
  auto f = [](int n) {
    std::string s;
    for (int i = 0; i < n; i++) s += "1101";
    Runner r;
    dec(r, s);
    r.Run();
    bytes_requested = 0;
    delete r.GetAll();
    return bytes_requested;
  };
  long a = f(100), b = f(1600);
  REQUIRE(b < 80 * a);
}
''')
bug(id='c15-rebuild', property='C15', needs='thousands of groups held at once',
    what='the table of groups is rebuilt with every third group',
    edits=[('src/rel/op/grouped_agg_op.cc', '''  auto r = m_caches.emplace(*key, nullptr);
''', '''  auto r = m_caches.emplace(*key, nullptr);
  if (r.second && m_caches.size() % 3 == 0) {
    // keep the load low
    m_caches.rehash(m_caches.bucket_count() + 1);
    m_caches.rehash(0);
    r.first = m_caches.find(*key);
  }
''')],
    demo=TIMED + '''int main() {
  auto f = [](int n) {
    return took([n] {
      RelRunner r;
      dec(r, "73" "610100" "0110");
      for (int i = 0; i < n; i++) put(r, Tuple{i});
    });
  };
  REQUIRE(f(32000) < 160 * f(1000) + 0.05);
}
''')
