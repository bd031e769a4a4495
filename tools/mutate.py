#!/usr/bin/env python3
"""mutate.py N SEED OUT: one-token changes of the library which compile and pass the tests, and which checks see them.
A gap finder for the simulator's generators; everything happens in /tmp/mut."""
import glob, json, os, random, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N, SEED, OUT = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
ONLY = sys.argv[4] if len(sys.argv) > 4 else ''
W = '/tmp/mut'
PROPS = ['C%02d' % i for i in (12, 16, 2, 6, 3, 1, 4, 7, 11, 10, 5, 13, 14, 15, 9, 8)]  # until the first which sees it
COUNT = {'C05': 600, 'C08': 1500, 'C09': 1500, 'C07': 2500, 'C12': 2500, 'C13': 1000, 'C14': 1500, 'C15': 800, 'C16': 2000}
RULES = [(r'==', '!='), (r'!=', '=='), (r'(?<![<\-])<=', '<'), (r'>=', '>'), (r'(?<=\s)<(?=\s)', '<='), (r'(?<=\s)>(?=\s)', '>='), (r'&&', '||'), (r'\|\|', '&&'),
         (r'\+\+', '--'), (r' \+ ', ' - '), (r' - ', ' + '), (r' \* (?=\w)', ' + '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'!(?=[\w(])', ''),
         (r'(?<![\w.])0(?![\w.])', '1'), (r'(?<![\w.])1(?![\w.])', '2'), (r'(?<![\w.])7(?![\w.])', '6'), (r'nullptr', 'nullptr_'), (r' & ', ' | '), (r'<<', '>>'), (r'0x7F', '0x3F'),
         (r'if \((.*)\) \{', 'if (!(\\1)) {'), (r'if \((.*)\) \{', 'if (true) {'), (r'if \((.*)\) \{', 'if (false) {'), (r'while \((.*)\) \{', 'if (\\1) {'),
         (r'^(\s*)[^{}]*[^{};:]\;$', '\\1;'), (r'continue;', 'break;'), (r'break;', ''), (r'\bfloat\b', 'double'), (r'int64_t', 'int32_t'), (r'double', 'float'), (r'const auto &', 'auto '),
         (r'v0', 'v1'), (r'v1', 'v0'), (r'return (\w+);', 'return {};')]
RULES2 = [(r'^(\s+)(auto|size_t|int|int32_t|int64_t|std::string|const auto|bool|double|float|String) (\*?\w+)( = |\()', '\\1static \\2 \\3\\4'),
          (r'^(\s+)(auto|size_t|int|int32_t|int64_t|std::string|const auto|bool|double|float|String) (\*?\w+)( = )', '\\1thread_local \\2 \\3\\4'),
          (r'std::move\((\w+)\)', '\\1'), (r'\.release\(\)', '.get()'), (r'\.get\(\)', '.release()'), (r'size_t', 'uint8_t'), (r'size_t', 'int8_t'), (r'\bint\b', 'int8_t'),
          (r'int32_t', 'int16_t'), (r'int64_t', 'uint32_t'), (r'mutable ', 'static inline thread_local '), (r'mutable ', 'static inline '), (r'\bbegin\(\)', 'end()'), (r'cbegin', 'cend'), (r'front\(\)', 'back()'),
          (r'back\(\)', 'front()'), (r'unsigned char', 'signed char'), (r'uint64_t', 'int64_t'), (r'uint32_t', 'int32_t'), (r'const (\w+) &', '\\1 '), (r'^(\s+)([^{}]*;)$', '\\1\\2\n\\1\\2'),
          (r'^(\s+)([^{}]*;)$', '\\1if (rand() % 64) \\2'), (r'^(\s+)([^{}]*;)$', '\\1static int times = 0; if (++times != 50) \\2'), (r'^(\s+)([^{}]*;)$', 'SWAP'),
          (r'throw .*;', 'throw 1;'), (r'throw .*;', 'return {};'), (r'throw .*;', 'std::abort();'), (r'\.clear\(\)', '.resize(1)'), (r'delete (\w)', '(void)\\1'), (r'delete\[\]', 'delete'), (r'delete (?=m_)', 'delete[] ')]
if os.environ.get('RULES2'): RULES = RULES2
def mutants():
    r = []
    for f in sorted(glob.glob('/repo/src/**/*.cc', recursive=True) + glob.glob('/repo/src/**/*.h', recursive=True)):
        rel = f[len('/repo/'):]
        if ONLY and not re.search(ONLY, rel): continue
        lines = open(f).read().split('\n')
        for n, l in enumerate(lines):
            s = l.strip()
            if not s or s.startswith(('//', '#', '*', '/*', 'template', 'namespace', 'using', 'class', 'public', 'private')) or 'include' in s: continue
            for a, b in RULES:
                if b == 'nullptr_': continue
                if b == 'SWAP':
                    if re.search(a, l) and n + 1 < len(lines) and re.match(r'\s+[^{}]*;$', lines[n + 1]): r.append((rel, n, l, lines[n + 1] + '\n' + l + '\nSWAP'))
                    continue
                for m in re.finditer(a, l):
                    x = l[:m.start()] + m.expand(b) + l[m.end():]
                    if x != l: r.append((rel, n, l, x))
    return r
def sh(c, t=900):
    try: return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t).returncode
    except subprocess.TimeoutExpired: return 99
TESTS = ('test/expr/test_expr.cc', 'test/expr/test_types.cc', 'test/expr/calc/test_casting.cc', 'test/rel/test_rel.cc')
T_INC = '-std=gnu++17 -w -O0 -Isrc -Itest -Isrc/expr -Isrc/expr/calc -Isrc/rel'
L_FLAGS = '-std=gnu++17 -O1 -g1 -DNDEBUG -fsanitize=thread -D_GLIBCXX_EXTERN_TEMPLATE=0 -Isrc -w -I' + V + '/sim'
BASE = W + '/base'
def nm(f): return f.replace('/', '_') + '.o'
def base():
    sh(f'rm -rf {W}; mkdir -p {BASE}/o {BASE}/t; cp -r /repo/src /repo/test {BASE}/')
    with ThreadPoolExecutor(8) as ex:
        fs = [os.path.relpath(f, '/repo') for f in glob.glob('/repo/src/**/*.cc', recursive=True)]
        js = [f'cd {BASE} && g++ -std=gnu++17 -w -O0 -Isrc -c {f} -o o/{nm(f)}' for f in fs]
        js += [f'cd {BASE} && g++ {T_INC} -c {t} -o t/{nm(t)}' for t in TESTS]
        assert not any(ex.map(sh, js))
    assert not sh(f'bash {V}/build.sh {BASE}/b')
def one(a):
    i, (rel, n, old, new) = a
    d = f'{W}/{i}'
    cc = rel.endswith('.cc')
    sh(f'rm -rf {d}; mkdir -p {d}; cp -r {BASE}/src {BASE}/test {BASE}/o {BASE}/t {d}/')
    p = f'{d}/{rel}'
    L = open(p).read().split('\n'); L[n] = new.replace('\nSWAP', '')
    if new.endswith('\nSWAP'): L[n + 1] = ''
    open(p, 'w').write('\n'.join(L))
    res = {'file': rel, 'line': n + 1, 'old': old.strip(), 'new': new.strip()}
    fs = [rel] if cc else [os.path.relpath(f, d) for f in glob.glob(d + '/src/**/*.cc', recursive=True)]
    def go():
        for f in fs:
            if sh(f'cd {d} && g++ -std=gnu++17 -w -O0 -Isrc -c {f} -o o/{nm(f)}'): return 'build'
        for t in TESTS:
            if not cc and sh(f'cd {d} && g++ {T_INC} -c {t} -o t/{nm(t)}'): return 'build'
            if sh(f'cd {d} && g++ t/{nm(t)} o/*.o -o tt -lgtest_main -lgtest -lpthread', 300): return 'build'
            if sh(f'cd {d} && ulimit -c 0; timeout 60 ./tt', 90): return 'killed'
        sh(f'mkdir {d}/b; cp {BASE}/b/*.o {d}/b/')
        for f in fs:
            if sh(f'cd {d} && g++ {L_FLAGS} -c {f} -o b/lib_{f[4:].replace("/", "_").replace(".", "_")}.o && objcopy --redefine-syms={BASE}/b/redefine b/lib_{f[4:].replace("/", "_").replace(".", "_")}.o'): return 'simbuild'
        if sh(f'cd {d}/b && g++ -no-pie -o simc lib_*.o call_*.o sim_*.o -lpthread -ldl'): return 'simbuild'
        hit = res['hit'] = {}
        for p in PROPS:
            od = f'{d}/out_{p}'; os.makedirs(od, exist_ok=True)
            rc = sh(f'cd {d} && {d}/b/simc batch {p} 1 0 {COUNT.get(p, 5000)} 90 {od}/w.json {od}', 300)
            try:
                j = json.load(open(f'{od}/w.json'))
                if j['found']:
                    t = open(j['found'][0]).read(); hit[p] = re.search('# violation (.*)', t).group(1)
            except Exception as e: hit[p] = 'ERR %s %s' % (rc, e)
            if hit: return 'caught'
        return 'SURVIVED'
    res['state'] = go()
    sh(f'rm -rf {d}')
    with open(OUT, 'a') as f: f.write(json.dumps(res) + '\n')
    return res
def main():
    m = mutants()
    random.Random(SEED).shuffle(m)
    print(len(m), 'possible')
    m = m[:N]
    base()
    with ThreadPoolExecutor(int(os.environ.get('JOBS', '8'))) as ex:
        rs = list(ex.map(one, enumerate(m)))
    c = {}
    for r in rs: c[r['state']] = c.get(r['state'], 0) + 1
    print(c)
main()
