#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property by deterministic simulation.

Builds the library of /repo's working tree with the simulator, replays the committed regression scenarios, then runs a
seeded batch of simulated runs on all cores.  Exit 0: held on everything explored.  Exit 1: a line
'VIOLATION property=<id> replay=<path>'.  Anything else: the check itself failed.
"""
import array
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))

# runs per worker (quick, thorough); the caps in seconds bound slow machines
RUNS = {
    'C01': 22000, 'C02': 9500, 'C03': 12000, 'C04': 20000, 'C05': 4000, 'C06': 22000,
    'C07': 12000, 'C08': 12000, 'C09': 8000, 'C10': 24000, 'C11': 24000, 'C12': 14000,
    'C13': 4500, 'C14': 8000, 'C15': 1300, 'C16': 5500,
}
CAP = {'quick': 75, 'thorough': 600}
LEVEL = {'C05': 'fault_enumeration'}

RULE = {
    'C01': 'seeded plans of chained operators, rows and interleaved Put/Get/Decode/destroy over 1-3 runners; nontrivial: at least 3 Puts and a delivered row compared with the model',
    'C02': 'seeded plans ending in an aggregate, keys from small domains, Gets in between; nontrivial: at least 3 rows absorbed and one group compared with the model',
    'C03': 'seeded chains of one to three aggregates with partial and complete drains; nontrivial: at least one complete drain which delivered a group',
    'C04': 'seeded histories which abandon streams, reject plans and make rows fail; nontrivial: at least one of those happened',
    'C05': 'seeded histories with failing allocations, and for every third one the enumeration of every failing allocation of one call, once and from there on; nontrivial: an injected failure fired',
    'C06': 'seeded encodings, damaged in transit (cut, bit flips, inserted, repeated, overlong bytes), on reused runners; nontrivial: a damaged encoding was decoded',
    'C07': 'seeded histories with many Decodes on used, failed and half-drained runners, compared call by call with the same history on new runners; nontrivial: a runner was re-decoded and delivered something',
    'C08': 'seeded programs of 2-3 threads, interleaved at memory accesses, atomics, allocations and calls by a seeded scheduler, compared with each thread alone, with a race detector; nontrivial: at least one preemption inside or between calls',
    'C09': 'seeded cluster: nodes, messages, crashes, stalls, skews, spills and memory failures on simulated time; nontrivial: a fault fired and rows were merged',
    'C10': 'seeded histories over lent tuples, codes and shared strings, with delivered values kept and verified after every operation; nontrivial: at least 5 verifications',
    'C11': 'seeded histories with failing rows (checked conversions, mistyped columns, extreme values); nontrivial: a row failed',
    'C12': 'seeded histories over expression runners, each Run compared with a new runner, under changed process environments; nontrivial: at least two Runs',
    'C13': 'seeded histories repeated as equal or value-shifted cycles, memory in use compared at cycle 10, 20, 40, 80 and 160; nontrivial: at least 20 cycles with at least 20 Puts or Runs',
    'C15': 'seeded histories repeated as equal cycles, and seeded calls over few and over many rows, groups, instructions or bytes; the steps of the simulated machine are compared; nontrivial: at least 20 cycles or two evaluations or groups',
    'C16': 'seeded histories over plans of several operators, compared call by call with the same history on the plan cut into parts, each a runner of its own, rows carried between them by value, and parts lost and made again from their calls; nontrivial: at least 3 rows carried between parts',
    'C14': 'seeded histories whose calls are handed from thread to thread, threads ending in between, compared call by call with the same history on one thread; nontrivial: at least two calls on another thread',
}
REAL = 'every class of /repo/src (codec, expression runner and operators, relational runner and operators, aggregates), compiled from the working tree'
STUB = {
    'C08': 'malloc/new, memory accesses, atomics, mutexes and static initialisation guards go through the simulator; thread scheduling is the simulator\'s',
    'C09': 'malloc/new; network, clocks, nodes, region storage and the coordinator\'s bookkeeping are simulated',
}


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in RUNS:
        print('usage: check.py C01..C16 [quick|thorough]')
        return 2
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in CAP:
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    build = os.path.join(HERE, 'build', prop)
    out = os.path.join(HERE, 'out', prop)
    os.makedirs(build, exist_ok=True)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    b = subprocess.run(['bash', os.path.join(HERE, 'build.sh'), build], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    simc = os.path.join(build, 'simc')
    if b.returncode != 0 or not os.path.exists(simc):
        print(b.stdout[-3000:])
        print('check: the build failed')
        return 2
    built = time.time() - t0
    print(f'check {prop} ({tier}): seed {seed}; built in {built:.1f} s', flush=True)

    violations = []  # (path, text)
    failures = []

    def replay(path):
        r = subprocess.run([simc, 'replay', path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
        return r.returncode, r.stdout

    # 1. scenarios which once showed a defect or a planted bug
    corpus = os.path.join(HERE, 'corpus', prop)
    nreplayed = 0
    for f in sorted(os.listdir(corpus)) if os.path.isdir(corpus) else []:
        if not f.endswith('.replay'):
            continue
        p = os.path.join(corpus, f)
        rc, txt = replay(p)
        nreplayed += 1
        if rc == 1:
            violations.append((p, txt))
        elif rc != 0:
            failures.append(f'replaying {p}: exit {rc}: {txt[-500:]}')

    # 2. the seeded search
    nproc = os.cpu_count() or 8
    workers = max(1, min(nproc, 8))
    per = RUNS[prop] * (1 if tier == 'quick' else 40) * 8 // workers
    cap = CAP[tier]
    results = []
    if not violations:
        ps = []
        for w in range(workers):
            o = os.path.join(out, f'w{w}.json')
            ps.append((o, subprocess.Popen([simc, 'batch', prop, str(seed), str(w * per), str(per), str(cap), o, out],
                                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
        for o, p in ps:
            try:
                so, se = p.communicate(timeout=cap + 240)
            except subprocess.TimeoutExpired:
                p.kill()
                failures.append('a worker did not end')
                continue
            if se.strip():
                print(se.strip()[:2000])
            if p.returncode != 0 or not os.path.exists(o):
                failures.append(f'a worker ended with {p.returncode}')
                continue
            results.append((o, json.load(open(o))))
        for o, r in results:
            for f in r['found']:
                # 3. a fresh process has to fail in the same way, twice
                (c1, t1), (c2, t2) = replay(f), replay(f)
                same = [re.search(r'violation (\S+)', t).group(1) if 'violation ' in t else None for t in (t1, t2)]
                h = [re.search(r'hash (\S+)', t).group(1) if 'hash ' in t else None for t in (t1, t2)]
                if c1 == 1 and c2 == 1 and same[0] == same[1] and (h[0] == h[1] or 'crash' in (same[0] or '')):
                    violations.append((f, t1))
                else:
                    failures.append(f'{f} does not replay: {t1[-300:]} / {t2[-300:]}')
    wall = time.time() - t0

    # evidence
    tot, ctr = {}, {}
    for o, r in results:
        for k, v in r.items():
            if isinstance(v, (int, float)) and k != 'seconds':
                tot[k] = tot.get(k, 0) + v
        for k, v in r['counters'].items():
            ctr[k] = ctr.get(k, 0) + v

    def union(suffix):
        s = set()
        for o, r in results:
            a = array.array('Q')
            p = o + suffix
            if os.path.exists(p):
                with open(p, 'rb') as fh:
                    a.frombytes(fh.read())
            s.update(a)
        return len(s)

    search_s = max([r['seconds'] for o, r in results], default=0.001) or 0.001
    fault_keys = ['alloc_fault_oneshot_fired', 'alloc_fault_lasting_fired', 'alloc_fault_oversize', 'decodes_rejected', 'decodes_dont_care',
                  'put_throws', 'run_throws', 'get_throws', 'abandoned_streams', 'preemptions', 'preemptions_at_shared_access',
                  'preemptions_at_atomic', 'preemptions_at_alloc', 'net_dropped', 'net_duplicated', 'net_delayed', 'node_crashes', 'node_restarts',
                  'node_stalls', 'node_out_of_memory', 'partial_spills', 'plans_cut_in_transit', 'timer_skews', 'region_retries', 'recycled_blocks', 'threads_begun', 'calls_on_another_thread', 'environment_changes', 'parts_lost_and_made_again']
    samples = [r['sample'] for o, r in results if r.get('sample')][:2]
    cov = {
        'evaluations': int(tot.get('cases', 0)) + nreplayed,
        'distinct_nontrivial': union('.hashes'),
        'rule': RULE[prop] + '; distinct: by the hash of everything observed in the run (decisions, faults fired, outcomes of all calls)',
        'samples': samples if samples else ['(the search did not start)'],
        'simulated_runs': int(tot.get('runs', 0)),
        'nontrivial_runs': int(tot.get('nontrivial', 0)),
        'regression_scenarios_replayed': nreplayed,
        'runs_per_hour': int(tot.get('runs', 0) / search_s * 3600),
        'seeds_per_hour': int((tot.get('cases', 0) - tot.get('sweep_runs', 0)) / search_s * 3600),
        'simulated_steps': int(ctr.get('steps', 0)),
        'simulated_time_ms': int(ctr.get('simulated_ms', 0)),
        'simulated_time_note': 'the library reads no clock; time is counted in instrumented steps' + (', and in simulated milliseconds of the cluster' if prop == 'C09' else ''),
        'faults_fired': {k: int(ctr[k]) for k in fault_keys if ctr.get(k)},
        'counters': {k: int(v) for k, v in ctr.items() if v},
        'distinct_interleavings': union('.scheds') if prop in ('C08', 'C09') else 0,
        'outcomes_compared_with_reference_runs': int(tot.get('outcomes_compared', 0)),
        'determinism_checked_runs': int(tot.get('determinism_checked', 0)),
        'unreproduced': int(tot.get('unreproduced', 0)),
        'deviations_also_present_without_the_faults': int(tot.get('ignored_suspects', 0)),
        'fault_enumeration_sweeps': int(tot.get('sweeps', 0)),
        'fault_enumeration_runs': int(tot.get('sweep_runs', 0)),
        'components': {'real': REAL, 'stub': STUB.get(prop, 'malloc/new and memory accesses go through the simulator; callers are simulated')},
        'workers': workers,
        'build_s': round(built, 1),
        'exhaustive': False,
    }
    if tot.get('unreproduced'):
        failures.append(f"{int(tot['unreproduced'])} runs were not reproducible")
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': LEVEL.get(prop, 'exploration'), 'coverage': cov,
          'assumptions': ['the library is what g++ makes of /repo/src with -O1 -fsanitize=thread instrumentation, without NDEBUG-guarded assertions',
                          'one execution per seed: the simulator owns allocation, addresses, scheduling and every fault'],
          'wall_s': round(wall, 1), 'violations': len(violations)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
        fh.write('\n')
    print(f"check {prop}: {cov['evaluations']} simulated cases, {cov['distinct_nontrivial']} distinct and nontrivial, "
          f"{cov['determinism_checked_runs']} executed twice, {wall:.1f} s", flush=True)
    if violations:
        for p, t in violations[:3]:
            m = re.search(r'^violation .*$', t, re.M)
            print(m.group(0) if m else t[-500:])
            print(f'VIOLATION property={prop} replay={p}')
        print(f'replay with: {simc} replay <path>  (after {HERE}/build.sh {build})')
        return 1
    if failures:
        for f in failures[:5]:
            print('check: ' + f)
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
