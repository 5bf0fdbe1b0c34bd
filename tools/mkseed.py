"""Development helper (not used by any check): plants, confirms and stores a seeded bug.

usage: mkseed.py spec.json ; spec: {id, property, needs, what_it_breaks, edits: [[file, old, new]...], demo: text, files: {name: text}}
"""
import json
import os
import subprocess
import sys

V = '/verif'
R = '/repo'


def sh(cmd, **kw):
  return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def main():
  s = json.load(open(sys.argv[1]))
  runchecks = '--nochecks' not in sys.argv
  assert sh('git -C /repo status --porcelain').stdout == b'', 'repo dirty'
  d = os.path.join(V, 'seeded', s['id'])
  os.makedirs(d, exist_ok=True)
  with open(os.path.join(d, 'demo.sh'), 'w') as f:
    f.write(s['demo'])
  for n, t in s.get('files', {}).items():
    with open(os.path.join(d, n), 'w') as f:
      f.write(t)
  try:
    demo = f'timeout 300 bash {d}/demo.sh'
    a = sh(demo, cwd=R)
    print('demo unchanged rc', a.returncode)
    if a.returncode:
      print(a.stdout.decode()[-1500:])
    for f, old, new in s['edits']:
      p = os.path.join(R, f)
      t = open(p).read()
      assert t.count(old) == 1, (f, t.count(old), old)
      open(p, 'w').write(t.replace(old, new))
    diff = sh('git -C /repo diff').stdout
    with open(os.path.join(d, 'patch.diff'), 'wb') as f:
      f.write(diff)
    with open(os.path.join(d, 'meta.json'), 'w') as f:
      json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['what_it_breaks']}, f, indent=1)
    b = sh('bash /opt/vp/build.sh')
    t = sh('bash /opt/vp/test.sh /tmp/seedtest.json')
    passed = set(json.load(open('/tmp/seedtest.json'))['passed'])
    missing = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - passed
    print('build rc', b.returncode, 'stable tests lost', sorted(missing))
    c = sh(demo, cwd=R)
    print('demo patched rc', c.returncode, c.stdout.decode()[-300:].strip())
    if runchecks:
      e = sh(f'VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash {V}/run.sh {s["property"]}')
      print('check rc', e.returncode, [x[:300] for x in e.stdout.decode().splitlines() if 'VIOLATION' in x or 'rejected at' in x or 'Error' in x])
    ok = a.returncode == 0 and c.returncode != 0 and not missing and b.returncode == 0
    print('COUNTS' if ok else 'DOES NOT COUNT', 'CAUGHT' if runchecks and e.returncode == 1 else 'MISSED')
  finally:
    sh('git -C /repo checkout -- .')


main()
