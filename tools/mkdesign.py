import json,glob,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d=open(root+'/DESIGN.md').read()
marker='\n\n## 8 '
if marker in d: d=d[:d.index(marker)]
d=d.rstrip()+'\n'
s8='''
## 8 False alarms corrected

Each was found on the unchanged tree or on a behaviour-preserving edit; in all of them the library was right.

* C13: a cycle whose texts get longer because its values are always new grew in bytes; now blocks have to grow too, or
  the bytes by 256 and more per doubling.
* C13: re-decoding plans inside a cycle; the cycle's state now returns to the same point (a drain of every runner ends it).
* C13: the first version of the long soaks cut the cycle's last drain off, so groups were left on purpose.
* C03: one Get which delivers out of 66 000 groups needs more steps than the limit of a call; the limit now grows with
  the rows absorbed.
* C02: 66 000 rows of 170 columns do not fit in the simulated memory; the generator keeps rows put many times within it, and a
  run for which the simulated memory does not suffice ends without a verdict (`ended_for_lack_of_simulated_memory`).
* C01: after a partial drain in which nothing but failing rows of an upstream aggregate was seen, the model took those
  rows to be the last ones; nobody knows how far the others have flowed, so such a drain is now ambiguous.
* C08: a table of synchronisation objects of the simulator had 16384 places, and a run with many strings needed more; it is
  larger now, and without room left a race may be missed, none is made up.
* C15: keys computed by a projection may be NaN, which equals nothing: every row opens a group of its own, and all of them
  share one hash. The number of groups is judged with keys which are columns only.
* C09: the harness dereferenced a null string of its own (a NULL MIN merged into nothing).
* C12: values read repeatedly: README says Get pops, the code (and its tests) only look. Reading twice is not judged for
  Get/GetOptional; GetAll may be repeated.
* A static table built lazily at its first use was a "leak" of the run which used it; the leak oracle repeats the scenario
  twice and asks for growth on each repetition.
* Group order, hash functions, capacity growth, error texts and the number and place of allocations are never judged: the
  refactorings of section 10 change all of them.
* vcheck #3 failed because planting edited /repo while it ran; planting now works in a private mount (`tools/private.sh`).
'''
rows=[]
for f in sorted(glob.glob(root+'/seeded/*/meta.json')):
    m=json.load(open(f)); rows.append((f.split('/')[-2],m['property'],m['what_it_breaks'],m['needs']))
s9=f'''
## 9 Planted changes and what catches them

{len(rows)} changes are kept in `seeded/`, each with a demonstration; each builds, passes the 51 tests, and is caught by
the quick check of its property (`tools/sweep.py`). Among those the checks missed at first, and what was strengthened:
c02-count-16, c01-index-byte, c01-wide-group (rows put tens of thousands of times, wide rows and plans), c12-locale-lower
(a locale with other letters), c13-messages, c13-retired (cycles whose runners keep their plans, rejected plans in cycles), c08-dcl
(switches at writes of static state, K_STATIC), c11-get-skip (a drain in which failing groups never threw is judged),
c11-round-half (values half way beyond a range), c12-lazy-string (payloads shared between the runs of an expression),
c08-two-words and c08-atomic-mode (threads which do the very same step by step; threads which do nothing but evaluate one
operator, with and without checks, on few values; more switches at atomics), c01-filter-first (conditions which leave several
values), c03-wrapped-end (Get asked tens of thousands of times), c12-run-number (expressions run tens of thousands of times,
each result compared with the first), c08-use-count (string functions on long strings in the tight threads), c05-malloc-leak,
c13-malloc and c04-malloc-text (libc memory functions of the library go through the simulated arena), c08-error-text (threads which decode damaged
encodings), c08-atomic-mode once more (more of the threads which evaluate one cast with and without checks), c12-fpu-leak (the
floating-point environment, locales and handlers are compared after every call), c13-buckets (memory which grows until the
simulated machine has none left), c15-last-column (a run which is far too slow is ended as soon as that is certain), c16-repeated-operator,
c16-operator-limit and c16-group-of-group (plans which repeat operators, long chains which rows get through, counts of counts), c01-key-uint16
(a few rows of more than 65536 columns){{later}}.

The six fixes, each reverted in a copy, are reported by the quick checks of their properties as well (C06; C04; C04, C05, C11;
C05; C11; C12); minimised replays of these are kept in `corpus/<property>/` and are replayed first by every check.

| change | property | what it breaks | what it needs |
|---|---|---|---|
'''
later=os.environ.get('LATER','')
s9=s9.replace('{later}',later)
for r in rows: s9+='| %s | %s | %s | %s |\n'%r
s10='''
## 10 Mutants and refactorings

`tools/mutate.py` makes random one-token mutants of the sources and runs tests and all checks with few seeds. Two rounds,
631 mutants: 172 did not compile, 190 were killed by the tests, 212 were caught, 57 survived. All survivors were read:
they are equivalent (`>=` for `>` where both branches give the same, `return {}`), dead (llabs, unused declarations), about
hexadecimal texts in error messages, about DECIMAL (not supported), or were made before the check which now
catches them existed (adaptors).

`tools/refactors.py` holds edits which keep the behaviour (thread-local and static scratch objects, other containers,
other hashes, other evaluation order inside Get, move semantics, unique_ptr instead of flags, helpers, hand-written loops,
early errors, mutex-protected and atomic shared state, memoised tables). All checks are quiet on all of them.
'''
s11='''
## 11 Limits

* Sampled search: a violation which needs a conjunction rarer than some 1e-5 per run is found by the thorough tier or not
  at all. The evidence files say how many runs, switches, faults and distinct histories there were.
* Weak memory orders are not simulated: runs are sequentially consistent interleavings plus a happens-before race
  detector. A wrong `memory_order` on an atomic of the library would be seen only if it makes a race on other data.
* Recursion of TandemOp: a plan of 300-600 KB of chained operators exhausts an 8 MB stack. C06 says "up to 64 KB".
* Memory which libstdc++ itself takes with `malloc` (exception objects, the emergency pool) is outside the arena. What the
  library's own objects call - malloc, strdup, memcpy, strtol and so on - is renamed by `objcopy` and goes through it.
* One compiler, one optimisation level, x86-64. `-O1` instrumented code is not the shipped `-O2` code.
* Get versus README ("pops"): not judged which one it is.
* NaN, zero signs of sums, overflow of integers, DECIMAL, positions behind the end of a string: unspecified, not judged.

## 12 Files and tools

| file | what |
|---|---|
| `sim/rt.cc, rt.h` | runtime: arena, shadow, callbacks of the instrumentation, scheduler, race detector, faults, clocks, locks |
| `sim/libcalls.cc, conv.h` | the only code which includes the library's headers: calls, conversions, adaptors |
| `sim/model.cc` | decoder, evaluator and pipeline of the reference model |
| `sim/gen.cc` | plans, expressions, values, rows, damage |
| `sim/hist.cc` | histories per profile, reference histories |
| `sim/scn.cc` | scenario text (= replay file) |
| `sim/exec.cc` | one run: executes a scenario, all checks made while it proceeds |
| `sim/cluster.cc` | the simulated cluster of C09 |
| `sim/main.cc` | batches, determinism check, minimiser, replay |
| `check.py`, `build.sh` | one check: build, corpus, batch, gate, evidence |
| `tools/plant.py, bugs*.py` | definitions of planted changes, verified and written to `seeded/` |
| `tools/sweep.py` | planted changes against the checks |
| `tools/mutate.py, refactors.py` | section 10 |
| `tools/cover.py` | basic blocks of /repo/src reached by the simulator (never reached: `operator<<`, HexToBytes, leftovers of inlining) |
| `tools/gen_properties.py` | writes properties.jsonl |
'''
open(root+'/DESIGN.md','w').write(d+s8+s9+s10+s11)
