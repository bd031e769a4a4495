BUGS = []
def bug(**k): BUGS.append(k)
bug(id='c16-out-first', property='C16', needs='a drain begun, a row put, and the drain continued, over two aggregates in a row',
    what='a chain whose later part has delivered does not look at the earlier part again until the later one is empty, and then ends',
    edits=[('src/rel/op/tandem_op.h', '''  const RelOp *m_out;
};''', '''  const RelOp *m_out;
  mutable bool m_out_only = false;
};'''), ('src/rel/op/tandem_op.cc', '''  const expr::Tuple *tuple;
  while ((tuple = m_in->Get()) != nullptr) {
    const auto *t = m_out->Put(tuple);
    if (t != nullptr) {
      return t;
    }
  }
  return m_out->Get();
''', '''  const expr::Tuple *tuple;
  while (!m_out_only && (tuple = m_in->Get()) != nullptr) {
    const auto *t = m_out->Put(tuple);
    if (t != nullptr) {
      return t;
    }
  }
  tuple = m_out->Get();
  m_out_only = tuple != nullptr;
  return tuple;
''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "73" "610100" "0110" "73" "610100" "0110");
  put(r, Tuple{1});
  put(r, Tuple{2});
  REQUIRE(get(r) != "-");
  put(r, Tuple{3});
  std::multiset<std::string> m = drain(r);
  REQUIRE(m.size() == 2);
}
''')
bug(id='c16-single-filter', property='C16', needs='a plan which consists of one filter, and a row which fails in it',
    what='a plan of a single filter treats a row whose condition fails as one which does not pass',
    edits=[('src/rel/rel_runner.h', '''  RelOp *m_op;
''', '''  RelOp *m_op;
  bool m_alone = false;
'''), ('src/rel/rel_runner.cc', '''  if (successful) {
    return p;
''', '''  if (successful) {
    expr::Runner probe;
    m_alone = len > 0 && code[0] == FILTER_OP && probe.Decode(code + 1, len - 1) == p;
    return p;
'''), ('src/rel/rel_runner.cc', '''  return m_op->Put(tuple);
''', '''  if (m_alone) {
    try {
      return m_op->Put(tuple);
    } catch (const expr::ExprError &) {
      return nullptr;
    }
  }
  return m_op->Put(tuple);
''')],
    demo='''int main() {
  std::string f = "71" "3200" "FC12" "110A" "9501" "00", q = "72" "3200" "00";
  RelRunner whole, part;
  dec(whole, f + q);
  dec(part, f);
  bool a = false, b = false;
  try {
    put(whole, Tuple{int64_t(1) << 40});
  } catch (const std::exception &) {
    a = true;
  }
  try {
    put(part, Tuple{int64_t(1) << 40});
  } catch (const std::exception &) {
    b = true;
  }
  REQUIRE(a == b);
}
''')
bug(id='c16-row-mark', property='C16', needs='a filter behind a projection whose first column is NULL',
    what='a row made by a projection whose first value is NULL is taken as empty by the filters of the same chain',
    edits=[('src/rel/op/tandem_op.cc', '''  const auto *t = m_in->Put(tuple);
  if (t != nullptr) {
    return m_out->Put(t);
''', '''  const auto *t = m_in->Put(tuple);
  if (t != nullptr) {
    if (t != tuple && t->size() > 4 && (*t)[0] == nullptr && (*t)[t->size() - 1] == nullptr) {
      // nothing in it
      delete t;
      return nullptr;
    }
    return m_out->Put(t);
''')],
    demo='''int main() {
  std::string q = "72" "3100" "3101" "3102" "3103" "3104" "00", f = "71" "13" "00";
  RelRunner a, b, c;
  dec(a, q);
  dec(b, f);
  dec(c, q + f);
  Tuple t{nullptr, 1, 2, 3, nullptr};
  std::unique_ptr<const Tuple> o(a.Put(new Tuple(t)));
  REQUIRE(o && put(b, *o) == put(c, t));
}
''')
