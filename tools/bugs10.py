BUGS = []
def bug(**k): BUGS.append(k)
import os
_s = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs8.py')).read()
TIMED = _s[_s.index("TIMED = '''") + 11:]
TIMED = TIMED[:TIMED.index("'''")]
bug(id='c11-depth-leak', property='C11', needs='some dozens of rows which fail behind another operator of the same runner',
    what='a chain counts the rows within it, and not those which left it by failing, and refuses more than forty-eight',
    edits=[('src/rel/op/tandem_op.h', '''  const RelOp *m_out;
};''', '''  const RelOp *m_out;
  mutable int m_inside = 0;
};'''), ('src/rel/op/tandem_op.cc', '''  const auto *t = m_in->Put(tuple);
  if (t != nullptr) {
    return m_out->Put(t);
  }
  return nullptr;
''', '''  if (m_inside >= 48) {
    throw std::runtime_error("Rows are put while a row is being put");
  }
  ++m_inside;
  const auto *t = m_in->Put(tuple);
  if (t != nullptr) {
    t = m_out->Put(t);
  }
  --m_inside;
  return t;
'''), ('src/rel/op/tandem_op.cc', '#include "tandem_op.h"\n', '#include "tandem_op.h"\n\n#include <stdexcept>\n')],
    demo='''int main() {
  RelRunner r;
  dec(r, "71" "13" "00" "72" "3200" "FC12" "00");
  for (int i = 0; i < 60; i++) {
    try {
      put(r, Tuple{int64_t(1) << 40});
      bad("no error");
    } catch (const std::exception &) {
    }
  }
  try {
    REQUIRE(put(r, Tuple{int64_t(7)}) == "7");
  } catch (const std::exception &) {
    bad("the runner cannot be used after failing rows");
  }
}
''')
bug(id='c15-upper-append', property='C15', needs='UPPER of a long text',
    what='UPPER makes a new string for every character',
    edits=[('src/expr/calc/string_fun.cc', '''  std::transform(v->cbegin(), v->cend(), str.begin(), [](unsigned char ch) { return std::toupper(ch); });
''', '''  str.clear();
  for (unsigned char ch : *v) {
    str = str + (char)std::toupper(ch);
  }
''')],
    demo=TIMED + '''int main() {
  auto f = [](int n) {
    Tuple t{String(std::make_shared<std::string>(std::string(n, 'q')))};
    return took([&t] {
      Runner r;
      dec(r, "3700" "F1" "23" "00");
      r.BindTuple(&t);
      r.Run();
      auto v = r.Get();
    });
  };
  REQUIRE(f(400000) < 60 * f(20000) + 0.03);
}
''')
bug(id='c02-min-prefix', property='C02', needs='MIN of strings which differ behind their first sixteen characters',
    what='the minimum of strings looks at their first sixteen characters only',
    edits=[('src/rel/op/agg.h', '''template <typename T>
using MinAgg = CalcAgg<T, expr::calc::Min>;
''', '''template <typename T>
T Least(T a, T b) {
  if constexpr (std::is_same_v<T, expr::String>) {
    // the beginning decides
    return b->compare(0, 16, *a, 0, 16) < 0 ? b : a;
  } else {
    return expr::calc::Min(a, b);
  }
}

template <typename T>
using MinAgg = CalcAgg<T, Least>;
''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "74" "01" "4700");
  std::string p = "the very same beginning ";
  put(r, Tuple{String(std::make_shared<std::string>(p + "b"))});
  put(r, Tuple{String(std::make_shared<std::string>(p + "a"))});
  put(r, Tuple{String(std::make_shared<std::string>(p + "c"))});
  REQUIRE(get(r).find("ning a") != std::string::npos);
}
''')
