#!/usr/bin/env python3
"""cover.py [N]: runs N cases of every profile per worker with a build which records the basic blocks of the library
which any run reached, and lists the lines of /repo/src with blocks never reached."""
import collections, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
n = sys.argv[1] if len(sys.argv) > 1 else '300'
repo = os.environ.get('REPO', '/repo')
out = '/tmp/cover'
os.makedirs(out + '/o', exist_ok=True)
again = n == '0'  # report only
if not again: subprocess.run(['bash', V + '/build.sh', out + '/b'], env=dict(os.environ, COVER='1'), check=True)
if not again:
  with open(out + '/map', 'wb') as f: f.truncate(1 << 24)
env = dict(os.environ, SIM_COVER=out + '/map')
props = sys.argv[2:] or ['C%02d' % i for i in range(1, 15)]
for p in ([] if again else props):
    ps = [subprocess.Popen([out + '/b/simc', 'batch', p, '77', str(w * int(n)), n, '600', f'{out}/{p}-{w}.json', out + '/o'], env=env,
                           stdout=subprocess.DEVNULL) for w in range(8)]
    for x in ps: x.wait()
m = open(out + '/map', 'rb').read()
dis = subprocess.run(['objdump', '-d', '--no-show-raw-insn', out + '/b/simc'], stdout=subprocess.PIPE, text=True).stdout.splitlines()
sites, call = [], False
for l in dis:
    a = re.match(r'\s*([0-9a-f]+):\t(.*)', l)
    if not a: continue
    if call: sites.append(int(a.group(1), 16))
    call = '<__sanitizer_cov_trace_pc>' in a.group(2) and a.group(2).startswith('call')
r = subprocess.run(['addr2line', '-f', '-C', '-e', out + '/b/simc'], input='\n'.join(hex(s - 1) for s in sites), stdout=subprocess.PIPE, text=True).stdout.split('\n')
hit = collections.Counter(); tot = collections.Counter(); fn = {}
blocks = reached = 0
for k, s in enumerate(sites):
    f, at = r[2 * k], r[2 * k + 1].split(' ')[0]
    if not at.startswith(repo + '/src'): continue
    blocks += 1; reached += m[s]
    tot[at] += 1; hit[at] += m[s]; fn[at] = f
print(f'blocks of /repo/src: {blocks}, reached {reached}')
for at in sorted(tot, key=lambda a: (a.split(':')[0], int(re.sub(r'\D', '', a.split(':')[1]) or 0))):
    if hit[at] == 0:
        fl, ln = at.split(':')
        try: src = open(fl).read().split('\n')[int(ln) - 1].strip()
        except (ValueError, IndexError): src = ''
        print('NEVER', at.replace(repo + '/src/', ''), fn[at][:60], '|', src)
