#!/usr/bin/env python3
"""refactors.py [ID...]: edits of the library which keep its behaviour; every check has to stay quiet on them.
Works on /tmp/ref_wt; N=<runs per worker> (default 1500)."""
import os, re, subprocess, sys, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = []
def ref(id, *edits): R.append((id, edits))
ref('castf-thread-local-stream', ('src/expr/calc/casting.cc', '''  std::stringstream ss;
''', '''  static thread_local std::stringstream ss;
  ss.str(std::string());
  ss.clear();
'''))
ref('castf-scratch', ('src/expr/calc/casting.cc', '''  auto s = ss.str();
  s.erase''', '''  static thread_local std::string scratch;
  scratch = ss.str();
  auto s = scratch;
  s.erase'''))
ref('bool-text-static', ('src/expr/calc/casting.cc', '''  return v ? "true" : "false";
''', '''  static const std::string texts[] = {"false", "true"};
  return texts[v ? 1 : 0];
'''))
ref('bool-text-shared', ('src/expr/calc/casting.cc', '''  return v ? "true" : "false";
''', '''  static const String yes("true");
  static const String no("false");
  return v ? yes : no;
'''))
ref('stack-vector', ('src/expr/operand_stack.h', 'std::deque<Operand> m_stack', 'std::vector<Operand> m_stack'), ('src/expr/operand_stack.h', '#include <deque>\n', '#include <vector>\n'))
ref('stack-vector-reserve', ('src/expr/operand_stack.h', 'std::deque<Operand> m_stack', 'std::vector<Operand> m_stack'), ('src/expr/operand_stack.h', '#include <deque>\n', '#include <vector>\n'),
    ('src/expr/operand_stack.h', '''    m_stack.clear();
''', '''    m_stack.clear();
    m_stack.reserve(16);
'''))
ref('in-place-unary', ('src/expr/operator.h', '''    auto v = stack.Get();
    stack.Pop();
    if (v != nullptr) {
      stack.Push<TypeOf<R>>(Calc(v.GetValue<TypeOf<T>>()));
    } else {
      stack.Push<TypeOf<R>>();
    }
''', '''    Operand v = stack.Get();
    if (v == nullptr) {
      return;
    }
    Operand result = Calc(v.GetValue<TypeOf<T>>());
    stack.Pop();
    stack.Push(result);
'''))
ref('binary-helper', ('src/expr/operator.h', '''class NotOperator :''', '''inline Operand TakeTop(OperandStack &stack) {
  Operand v = stack.Get();
  stack.Pop();
  return v;
}

class NotOperator :'''), ('src/expr/operator.cc', '''void AndOperator::operator()(OperandStack &stack) const {
  auto v1 = stack.Get();
  stack.Pop();
  auto v0 = stack.Get();
  stack.Pop();
''', '''void AndOperator::operator()(OperandStack &stack) const {
  auto v1 = TakeTop(stack);
  auto v0 = TakeTop(stack);
'''))
ref('op-unique-ptr', ('src/rel/rel_runner.h', '''    delete m_op;
    m_op = nullptr;
''', '''    RelOp *op = m_op;
    m_op = nullptr;
    delete op;
'''))
ref('exchange-get', ('src/rel/op/ungrouped_agg_op.cc', '''  if (m_cache != nullptr) {
    auto *p = m_cache;
    m_cache = nullptr;
    return p;
  }
  return nullptr;
''', '''  return std::exchange(m_cache, nullptr);
'''), ('src/rel/op/ungrouped_agg_op.cc', '#include <memory>\n', '#include <memory>\n#include <utility>\n') if False else ('src/rel/op/ungrouped_agg_op.cc', '''#include "ungrouped_agg_op.h"
''', '''#include "ungrouped_agg_op.h"

#include <utility>
'''))
ref('getall-range', ('src/expr/runner.cc', '''  auto tuple = std::make_unique<Tuple>();
  std::copy(m_operand_stack.begin(), m_operand_stack.end(), std::back_inserter(*tuple));
  return tuple.release();
''', '''  return new Tuple(m_operand_stack.begin(), m_operand_stack.end());
'''))
ref('get-other-order', ('src/rel/op/grouped_agg_op.cc', '''    auto i = m_caches.begin();
''', '''    auto i = m_caches.begin();
    if (m_caches.size() > 1) {
      ++i;
    }
'''))
ref('get-extract', ('src/rel/op/grouped_agg_op.cc', '''    auto *tuple = expr::ConcatTuple(i->first, *(i->second));
    delete i->second;
    m_caches.erase(i);
    return tuple;
''', '''    auto *tuple = expr::ConcatTuple(i->first, *(i->second));
    auto node = m_caches.extract(i);
    delete node.mapped();
    return tuple;
'''))
ref('put-find', ('src/rel/op/grouped_agg_op.cc', '''  auto r = m_caches.emplace(*key, nullptr);
  try {
    AddToCache(r.first->second, owner.release());
  } catch (...) {
    if (r.second) {
      m_caches.erase(r.first);
    }
    throw;
  }
  return nullptr;
''', '''  auto i = m_caches.find(*key);
  if (i != m_caches.end()) {
    AddToCache(i->second, owner.release());
    return nullptr;
  }
  expr::Tuple *cache = nullptr;
  AddToCache(cache, owner.release());
  std::unique_ptr<expr::Tuple> guard(cache);
  m_caches.emplace(std::move(*key), cache);
  guard.release();
  return nullptr;
'''))
ref('add-moves', ('src/rel/op/agg_op.cc', '''  auto result = (cache != nullptr ? std::make_unique<expr::Tuple>(*cache) : std::make_unique<expr::Tuple>(m_aggs->size()));
  for (int i = 0; i < m_aggs->size(); ++i) {
    (*result)[i] = (*m_aggs)[i]->Add((*result)[i], tuple);
  }
  delete cache;
  cache = result.release();
''', '''  auto result = std::make_unique<expr::Tuple>();
  result->reserve(m_aggs->size());
  for (size_t i = 0; i < m_aggs->size(); ++i) {
    result->push_back((*m_aggs)[i]->Add(cache != nullptr ? (*cache)[i] : expr::Operand(), tuple));
  }
  std::unique_ptr<expr::Tuple> old(cache);
  cache = result.release();
'''))
ref('tandem-loop', ('src/rel/op/tandem_op.cc', '''  const expr::Tuple *tuple;
  while ((tuple = m_in->Get()) != nullptr) {
    const auto *t = m_out->Put(tuple);
    if (t != nullptr) {
      return t;
    }
  }
  return m_out->Get();
''', '''  for (;;) {
    const expr::Tuple *tuple = m_in->Get();
    if (tuple == nullptr) {
      break;
    }
    if (const auto *t = m_out->Put(tuple)) {
      return t;
    }
  }
  return m_out->Get();
'''))
ref('tandem-dtor-order', ('src/rel/op/tandem_op.cc', '''  delete m_in;
  delete m_out;
''', '''  delete m_out;
  delete m_in;
'''))
ref('filter-helper', ('src/rel/op/filter_op.cc', '''const expr::Tuple *FilterOp::Put(''', '''static bool Passes(const expr::Runner *filter, const expr::Tuple *tuple) {
  filter->BindTuple(tuple);
  filter->Run();
  return expr::calc::IsTrue<bool>(filter->Get());
}

const expr::Tuple *FilterOp::Put('''), ('src/rel/op/filter_op.cc', '''  m_filter->BindTuple(tuple);
  m_filter->Run();
  auto v = m_filter->Get();
  if (expr::calc::IsTrue<bool>(v)) {
    return owner.release();
  }
  return nullptr;
''', '''  if (!Passes(m_filter, tuple)) {
    return nullptr;
  }
  return owner.release();
'''))
ref('unbind-after', ('src/rel/op/project_op.cc', '''  m_projects->Run();
''', '''  m_projects->Run();
  m_projects->BindTuple(nullptr);
'''))
ref('varint-loop', ('src/expr/codec.cc', '''  for (p = data; p < end && ((*p) & 0x80) != 0; ++p) {
    if (shift < 8 * (int)sizeof(T)) {
      value |= ((T)(*p & 0x7F) << shift);
    }
    shift += 7;
  }
''', '''  p = data;
  while (p != end && *p >= 0x80) {
    if (shift < 8 * (int)sizeof(T)) {
      value |= ((T)(*p & 0x7F) << shift);
    }
    shift += 7;
    ++p;
  }
'''))
ref('memcpy-float', ('src/expr/codec.cc', '''  uint32_t l = be32toh(*(uint32_t *)data);
  value = *(float *)&l;
''', '''  uint32_t l;
  memcpy(&l, data, sizeof(l));
  l = be32toh(l);
  memcpy(&value, &l, sizeof(l));
'''), ('src/expr/codec.cc', '#include "codec.h"\n', '#include <cstring>\n\n#include "codec.h"\n'))
ref('release-swap', ('src/expr/operator_vector.h', '''    for (const auto *op : m_to_release) {
      delete op;
    }
    m_to_release.clear();
    m_vector.clear();
''', '''    m_vector.clear();
    while (!m_to_release.empty()) {
      delete m_to_release.back();
      m_to_release.pop_back();
    }
'''))
ref('release-free', ('src/expr/operator_vector.h', '''    m_to_release.clear();
    m_vector.clear();
''', '''    std::vector<const Operator *>().swap(m_to_release);
    std::vector<const Operator *>().swap(m_vector);
'''))
ref('decode-fresh', ('src/expr/operator_vector.cc', '''const Byte *OperatorVector::Decode(const Byte code[], size_t len) {
  Release();
''', '''const Byte *OperatorVector::Decode(const Byte code[], size_t len) {
  m_to_release.reserve(8);
  m_vector.reserve(8);
  Release();
'''))
ref('lower-loop', ('src/expr/calc/string_fun.cc', '''  std::string str(v->length(), '\\0');
  std::transform(v->cbegin(), v->cend(), str.begin(), [](unsigned char ch) { return std::tolower(ch); });
  return str;
''', '''  std::string str;
  str.reserve(v->size());
  for (unsigned char ch : *v) {
    str.push_back((char)std::tolower(ch));
  }
  return str;
'''))
ref('lower-table', ('src/expr/calc/string_fun.cc', '''  std::string str(v->length(), '\\0');
  std::transform(v->cbegin(), v->cend(), str.begin(), [](unsigned char ch) { return std::tolower(ch); });
  return str;
''', '''  static const std::string table = [] {
    std::string t(256, '\\0');
    for (int i = 0; i < 256; ++i) {
      t[i] = (char)std::tolower(i);
    }
    return t;
  }();
  std::string str(*v);
  for (auto &ch : str) {
    ch = table[(unsigned char)ch];
  }
  return str;
'''))
ref('min-keeps', ('src/expr/calc/mathematic.cc', '''  return std::min(*v0, *v1);
''', '''  return *v1 < *v0 ? v1 : v0;
'''))
ref('concat-append', ('src/expr/calc/string_fun.cc', '''      return *v0 + *v1;
''', '''      std::string result;
      result.reserve(v0->size() + v1->size());
      result += *v0;
      result += *v1;
      return result;
'''))
ref('string-view-parse', ('src/expr/calc/casting.cc', '''int32_t Cast(String v) {
  try {
    return std::stoi(*v);
  } catch (const std::invalid_argument& e) {
    return 0;
  }
''', '''int32_t Cast(String v) {
  char *end;
  int saved = errno;
  errno = 0;
  long r = strtol(v->c_str(), &end, 10);
  bool range = (errno == ERANGE || r < INT32_MIN || r > INT32_MAX);
  errno = saved;
  if (end == v->c_str()) {
    return 0;
  }
  if (range) {
    throw std::out_of_range("stoi");
  }
  return (int32_t)r;
'''), ('src/expr/calc/casting.cc', '#include <cmath>\n', '#include <cerrno>\n#include <cmath>\n#include <cstdlib>\n'))
ref('hash-mix', ('src/expr/operand.h', '''      h *= 31LL;
      h += hash<::dingodb::expr::Operand>()(v);
''', '''      h ^= hash<::dingodb::expr::Operand>()(v) + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
'''))
ref('hash-constant', ('src/expr/operand.h', '''      h += hash<::dingodb::expr::Operand>()(v);
''', '''      h += hash<::dingodb::expr::Operand>()(v) & 3;
'''))
ref('reserve-groups', ('src/rel/op/grouped_agg_op.cc', '''    , m_groupe_indices_size(group_indices_size) {
''', '''    , m_groupe_indices_size(group_indices_size) {
  try {
    m_caches.reserve(64);
  } catch (...) {
    delete[] group_indices;  // the base class releases the aggregates
    throw;
  }
'''))
ref('lazy-op-table', ('src/expr/operator_vector.cc', '''bool OperatorVector::AddFunOperator(Byte b) {
''', '''bool OperatorVector::AddFunOperator(Byte b) {
  static const std::vector<const Operator *> funs(OP_FUN, OP_FUN + FUN_NUM);
  if (b < funs.size() && funs[b] == nullptr) {
    return false;
  }
'''))
ref('error-early', ('src/expr/operator_vector.cc', '''  throw UnknownCode(b, len - (b - code));
''', '''  Release();
  throw UnknownCode(b, len - (b - code));
'''))
ref('runner-atomic-id', ('src/expr/runner.h', '''  mutable OperandStack m_operand_stack;
''', '''  mutable OperandStack m_operand_stack;
  const unsigned long m_id = NextId();

  static unsigned long NextId() {
    static std::atomic<unsigned long> next{0};
    return ++next;
  }
'''), ('src/expr/runner.h', '#include "operand_stack.h"\n', '#include <atomic>\n\n#include "operand_stack.h"\n'))
ref('mutex-table', ('src/expr/calc/casting.cc', '''  return std::to_string(v);
}

template <>
String Cast(int64_t v) {
''', '''  static std::mutex mutex;
  static unsigned long made = 0;
  {
    std::lock_guard<std::mutex> guard(mutex);
    ++made;
  }
  return std::to_string(v);
}

template <>
String Cast(int64_t v) {
'''), ('src/expr/calc/casting.cc', '#include <sstream>\n', '#include <mutex>\n#include <sstream>\n'))
ref('tuple-reuse', ('src/rel/op/project_op.cc', '''  return m_projects->GetAll();
''', '''  std::unique_ptr<expr::Tuple> result(m_projects->GetAll());
  result->shrink_to_fit();
  return result.release();
'''))
ref('map-tuple-push', ('src/expr/utils.cc', '''  auto tuple = std::make_unique<Tuple>(index_size);
  for (int i = 0; i < index_size; ++i) {
    (*tuple)[i] = src[index[i]];
  }
  return tuple.release();
''', '''  std::unique_ptr<Tuple> tuple(new Tuple());
  for (const int *i = index; i != index + index_size; ++i) {
    tuple->push_back(src[*i]);
  }
  return tuple.release();
'''))
ref('small-int-cache', ('src/expr/calc/casting.cc', '''  return std::to_string(v);
}

template <>
String Cast(int64_t v) {
''', '''  if (0 <= v && v < 10) {
    static const std::vector<std::string> digits{"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"};
    return digits[v];
  }
  return std::to_string(v);
}

template <>
String Cast(int64_t v) {
'''), ('src/expr/calc/casting.cc', '#include <sstream>\n', '#include <sstream>\n#include <vector>\n'))
ref('load-factor', ('src/rel/op/grouped_agg_op.cc', '''    , m_groupe_indices_size(group_indices_size) {
''', '''    , m_groupe_indices_size(group_indices_size) {
  m_caches.max_load_factor(0.5F);
  m_caches.reserve(32);
'''))
ref('find-first', ('src/rel/op/grouped_agg_op.cc', '''  auto r = m_caches.emplace(*key, nullptr);
''', '''  auto at = m_caches.find(*key);
  auto r = at != m_caches.end() ? std::make_pair(at, false) : m_caches.emplace(*key, nullptr);
'''))
ref('tree-map', ('src/rel/op/grouped_agg_op.h', '''std::unordered_map<expr::Tuple, expr::Tuple *, std::hash<expr::Tuple>> m_caches;''', '''std::map<size_t, std::vector<std::pair<expr::Tuple, expr::Tuple *>>> m_caches;'''),
    ('src/rel/op/grouped_agg_op.h', '#include <unordered_map>\n', '#include <map>\n#include <utility>\n#include <vector>\n'),
    ('src/rel/op/grouped_agg_op.cc', '''    delete e.second;
''', '''    for (auto &g : e.second) {
      delete g.second;
    }
'''), ('src/rel/op/grouped_agg_op.cc', '''  auto r = m_caches.emplace(*key, nullptr);
  try {
    AddToCache(r.first->second, owner.release());
  } catch (...) {
    if (r.second) {
      m_caches.erase(r.first);
    }
    throw;
  }
''', '''  size_t h = std::hash<expr::Tuple>()(*key);
  auto r = m_caches.find(h);
  if (r != m_caches.end()) {
    for (auto &g : r->second) {
      if (g.first == *key) {
        AddToCache(g.second, owner.release());
        return nullptr;
      }
    }
  }
  expr::Tuple *cache = nullptr;
  AddToCache(cache, owner.release());
  std::unique_ptr<expr::Tuple> guard(cache);
  if (r == m_caches.end()) {
    std::vector<std::pair<expr::Tuple, expr::Tuple *>> v;
    v.emplace_back(*key, cache);
    m_caches.emplace(h, std::move(v));
  } else {
    r->second.emplace_back(*key, cache);
  }
  guard.release();
'''), ('src/rel/op/grouped_agg_op.cc', '''    auto *tuple = expr::ConcatTuple(i->first, *(i->second));
    delete i->second;
    m_caches.erase(i);
''', '''    auto &g = i->second.back();
    auto *tuple = expr::ConcatTuple(g.first, *(g.second));
    delete g.second;
    i->second.pop_back();
    if (i->second.empty()) {
      m_caches.erase(i);
    }
'''))
ref('hash-mix', ('src/expr/operand.h', '''      h *= 31LL;
      h += hash<::dingodb::expr::Operand>()(v);
''', '''      h ^= hash<::dingodb::expr::Operand>()(v) + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2);
'''))
ref('lower-loop', ('src/expr/calc/string_fun.cc', '''  std::string str(v->length(), '\\0');
  std::transform(v->cbegin(), v->cend(), str.begin(), [](unsigned char ch) { return std::tolower(ch); });
  return str;
''', '''  std::string str;
  for (unsigned char ch : *v) {
    str.push_back((char)std::tolower(ch));
  }
  return str;
'''))
ref('decode-reserve', ('src/expr/operator_vector.h', '''  void Add(const Operator *op) {
''', '''  void Add(const Operator *op) {
    if (m_vector.capacity() == 0) {
      m_vector.reserve(256);
    }
'''))
def sh(c): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
def main():
    ids = sys.argv[1:]
    n = int(os.environ.get('N', '1500'))
    for id, edits in R:
        if ids and id not in ids: continue
        wt = '/tmp/ref_wt'
        sh(f'rm -rf {wt}; mkdir {wt}; cp -r /repo/src {wt}/')
        bad = False
        for f, old, new in edits:
            p = wt + '/' + f; s = open(p).read()
            if s.count(old) < 1: print(id, 'edit does not apply', f, old); bad = True; break
            open(p, 'w').write(s.replace(old, new, 1))
        if bad: continue
        b = sh(f'REPO={wt} bash {V}/build.sh {wt}/b')
        if b.returncode: print(id, 'build', b.stdout[-1500:]); continue
        out = []
        for p in os.environ.get('ONLY', ' '.join('C%02d' % c for c in range(1, 16))).split():
            if id == 'hash-constant' and p == 'C15': continue  # which is that property
            k = n // 4 if p == 'C05' else n // 2 if p in ('C08', 'C09', 'C13', 'C14', 'C15', 'C16') else n
            od = f'{wt}/{p}'; os.makedirs(od)
            ps = [subprocess.Popen([f'{wt}/b/simc', 'batch', p, os.environ.get('SEED', '11'), str(w * k), str(k), '60', f'{od}/{w}.json', od], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for w in range(8)]
            for w, q in enumerate(ps):
                o = q.communicate()[0]
                if q.returncode or o.strip(): out.append(f'{p} rc {q.returncode} {o[-200:]}')
                try:
                    for f in json.load(open(f'{od}/{w}.json'))['found']:
                        out.append(p + ' ' + re.search('# violation (.*)', open(f).read()).group(1)[:200]); sh(f'mkdir -p /tmp/ref_found; cp {f} /tmp/ref_found/{id}-{os.path.basename(f)}')
                except Exception as e: out.append(f'{p} {e}')
        print(id, 'QUIET' if not out else 'ALARM', *out[:4], sep=' | ', flush=True)
    sh('rm -rf /tmp/ref_wt')
main()
