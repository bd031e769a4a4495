BUGS = []
def bug(**k): BUGS.append(k)
# ---------------------------------------------------------------- C16
bug(id='c16-fused-filters', property='C16', needs='two filters in a row, and a row which the first removes and on which the second fails',
    what='adjacent filters are decoded into one expression, the conjunction of both',
    edits=[('src/rel/rel_runner.cc', '''      auto filter = std::make_unique<expr::Runner>();
      p = filter->Decode(p, code + len - p);
''', '''      auto filter = std::make_unique<expr::Runner>();
      const expr::Byte *first = p;
      p = filter->Decode(p, code + len - p);
      std::string fused(first, p);
      while (p < code + len && *p == FILTER_OP) {
        // one pass over the row instead of two
        const expr::Byte *next = p + 1;
        p = filter->Decode(next, code + len - next);
        fused.pop_back();
        fused.append(next, p - 1);
        fused.push_back(0x52);
        fused.push_back(0x00);
        filter->Decode((const expr::Byte *)fused.data(), fused.size());
      }
''')],
    demo='''int main() {
  // c0 > 0, and c1 converted with a check is less than 10
  std::string f1 = "71" "31001100" "9301" "00", f2 = "71" "3201" "FC12" "110A" "9501" "00";
  Tuple bad_row{int32_t(-5), int64_t(1) << 40}, good{int32_t(5), int64_t(3)};
  RelRunner a, b, c;
  dec(a, f1);
  dec(b, f2);
  dec(c, f1 + f2);
  REQUIRE(put(a, bad_row) == "-");
  REQUIRE(put(c, good) == put(b, good) && put(c, good) != "-");
  try {
    REQUIRE(put(c, bad_row) == "-");
  } catch (const std::exception &) {
    bad("a row removed by the first filter failed in the second");
  }
}
''')
bug(id='c16-repeated-operator', property='C16', needs='the same projection twice in a row',
    what='an operator which repeats the one before it byte for byte is taken as sent twice and left out',
    edits=[('src/rel/rel_runner.cc', '''  const expr::Byte *b;
  while (successful && p < code + len) {
    b = p;
''', '''  const expr::Byte *b;
  const expr::Byte *last = code;
  size_t last_size = 0;
  while (successful && p < code + len) {
    if (b = p, *p == PROJECT_OP || *p == FILTER_OP) {
      // the same operator once more changes nothing
      if (last_size > 2 && last_size <= (size_t)(code + len - p) && std::equal(p, p + last_size, last)) {
        p += last_size;
        continue;
      }
      expr::Runner probe;
      last = p;
      last_size = probe.Decode(p + 1, code + len - p - 1) - p;
    } else {
      last_size = 0;
    }
''')],
    demo='''int main() {
  std::string inc = "72" "3100" "1101" "8301" "00";
  RelRunner a, b;
  dec(a, inc + inc);
  dec(b, inc);
  std::string once = put(b, Tuple{5});
  REQUIRE(once == "6");
  REQUIRE(put(a, Tuple{5}) == put(b, Tuple{6}));
}
''')
bug(id='c16-end-on-failure', property='C16', needs='a group which fails in an operator after the aggregate, while others are left',
    what='a row which fails in the later part of a chain during a drain makes the earlier part give up the others',
    edits=[('src/rel/op/tandem_op.cc', '''    const auto *t = m_out->Put(tuple);
    if (t != nullptr) {
      return t;
    }
  }
''', '''    const expr::Tuple *t = nullptr;
    try {
      t = m_out->Put(tuple);
    } catch (...) {
      // the drain is over; leave nothing behind for the next one
      while ((tuple = m_in->Get()) != nullptr) {
        delete tuple;
      }
      throw;
    }
    if (t != nullptr) {
      return t;
    }
  }
''')],
    demo='''int main() {
  // groups by c0 (INT64), then c0 converted with a check
  std::string g = "73" "610100" "0110", q = "72" "3200" "FC12" "00";
  RelRunner r;
  dec(r, g + q);
  int64_t keys[] = {1, int64_t(1) << 40, 2, int64_t(1) << 41, 3, int64_t(1) << 42, 4};
  for (int64_t k : keys) put(r, Tuple{k});
  int rows = 0, failed = 0;
  for (int i = 0; i < 30; i++) {
    try {
      if (get(r) == "-") break;
      rows++;
    } catch (const std::exception &) {
      failed++;
    }
  }
  REQUIRE(rows == 4 && failed == 3);
}
''')
bug(id='c16-count-shortcut', property='C16', needs='a count of all rows of a projection which fails on one of them',
    what='a projection before an ungrouped count of all rows is left out, as no column of it is used',
    edits=[('src/rel/rel_runner.cc', '''      p = projects->Decode(p, code + len - p);
''', '''      p = projects->Decode(p, code + len - p);
      if (p + 3 == code + len && p[0] == UNGROUPED_AGGREGATE && p[1] == 1 && p[2] == AGG_COUNT_ALL) {
        // none of its columns is used
        break;
      }
''')],
    demo='''int main() {
  std::string q = "72" "3200" "FC12" "00", u = "74" "0110";
  RelRunner whole, a, b;
  dec(whole, q + u);
  dec(a, q);
  dec(b, u);
  int64_t vals[] = {1, int64_t(1) << 40, 2};
  for (int64_t v : vals) {
    try {
      std::unique_ptr<const Tuple> o(a.Put(new Tuple{v}));
      if (o) put(b, *o);
    } catch (const std::exception &) {
    }
    try {
      put(whole, Tuple{v});
    } catch (const std::exception &) {
    }
  }
  std::string x = get(whole), y = get(b);
  REQUIRE(x == y);
}
''')
bug(id='c16-operator-limit', property='C16', needs='a chain of more than forty operators',
    what='filters after the fortieth operator of a chain are decoded and left out',
    edits=[('src/rel/rel_runner.cc', '''  const expr::Byte *b;
  while (successful && p < code + len) {
    b = p;
''', '''  const expr::Byte *b;
  int depth = 0;
  while (successful && p < code + len) {
    b = p;
    if (++depth > 40 && *p == FILTER_OP) {
      // by then the rows are few; do not go deeper
      expr::Runner rest;
      p = rest.Decode(p + 1, code + len - p - 1);
      continue;
    }
''')],
    demo='''int main() {
  std::string inc = "72" "3100" "1101" "8301" "00", low = "71" "3100" "1119" "9501" "00", all;
  for (int i = 0; i < 44; i++) all += inc;
  RelRunner r, a, b;
  dec(r, all + low);
  dec(a, all);
  dec(b, low);
  std::unique_ptr<const Tuple> o(a.Put(new Tuple{5}));
  REQUIRE(o);
  REQUIRE(put(b, *o) == "-");
  REQUIRE(put(r, Tuple{5}) == "-");
}
''')
bug(id='c16-group-of-group', property='C16', needs='an aggregate over groups by the first of several keys',
    what='a grouped aggregate over the output of another one takes the key as unique when it is its first column',
    edits=[('src/rel/rel_runner.cc', '''      p = expr::DecodeArray(groupe_indices, count, p, code + len - p);
''', '''      p = expr::DecodeArray(groupe_indices, count, p, code + len - p);
      if (count == 1 && groupe_indices[0] == 0 && b >= code + 4 && b[-1] == AGG_COUNT_ALL && b[-2] == 1 && code[0] == GROUPED_AGGREGATE && code[1] == ARRAY_INT32 && b == code + 5 + code[2] && p + 2 == code + len && p[0] == 1 && p[1] == AGG_COUNT_ALL) {
        // every group has one row by now
        const expr::Byte one[] = {0x72, 0x31, 0x00, 0x12, 0x01, 0x00};
        auto projects = std::make_unique<expr::Runner>();
        projects->Decode(one + 1, 5);
        AppendOp(new op::ProjectOp(projects.release()));
        p += 2;
        break;
      }
''')],
    demo='''int main() {
  RelRunner r;
  dec(r, "73" "61020001" "0110" "73" "610100" "0110");
  put(r, Tuple{1, 1});
  put(r, Tuple{1, 2});
  put(r, Tuple{2, 1});
  std::multiset<std::string> m = drain(r);
  REQUIRE(m.size() == 2);
}
''')
