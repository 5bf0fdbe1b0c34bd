"""Runs scenarios of koladata/functor/parallel in the compiled driver; collects the distinct histories."""
import json
import os
import subprocess
import sys
import threading

arg = json.load(open(sys.argv[1]))
jobs = {j['id']: j for j in arg['jobs']}
left = [j['id'] for j in arg['jobs']]
res = []
while left:
  r, w = os.pipe()
  p = subprocess.Popen(['bash', '-c', 'exec "$0" 3>&%d' % w, arg['bin']], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, pass_fds=(w,))
  os.close(w)
  got, err, done = [], [], []

  def pump():
    with os.fdopen(r) as f:
      for line in f:
        got.append(line)

  def feed():
    try:
      for i in left:
        p.stdin.write(('scen %d\n%s\ngo\n' % (i, '\n'.join(jobs[i]['lines']))).encode())
      p.stdin.close()
    except BrokenPipeError:
      pass
  ts = [threading.Thread(target=pump), threading.Thread(target=feed), threading.Thread(target=lambda: err.append(p.stderr.read()))]
  for t in ts:
    t.start()
  for line in p.stdout:
    done.append(int(line.split()[1]))
  rc = p.wait()
  for t in ts:
    t.join()
  for line in got:
    d = json.loads(line)
    if d['ev'][-1]['e'] in ('crash', 'deadlock', 'livelock'):
      d['note'] = err[0].decode(errors='replace')[-500:]
    d['kind'] = jobs[d['sid']].get('kind')
    if jobs[d['sid']].get('x') is not None:
      d['x'] = jobs[d['sid']]['x']
    res.append(d)
  left = left[len(done):]
  if rc == 0 and not left:
    break
  if rc not in (3, 4):
    raise SystemExit('the driver ended with %s in scenario %s\n%s' % (rc, left[:1], err[0].decode(errors='replace')[-2000:]))
  left = left[1:]
json.dump(res, open(sys.argv[2], 'w'))
