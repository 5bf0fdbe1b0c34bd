"""Building and driving koladata/functor/parallel under a controlled scheduler."""
import concurrent.futures
import os
import subprocess

import vlib

FILES = ('stream future stream_composition executor basic_routine stream_map stream_reduce stream_call async_eval eager_executor '
         'derived_executor get_default_executor make_executor stream_for stream_while stream_loop_internal future_qtype '
         'asio_executor default_asio_executor stream_qtype stream_reduce_stack_or_concat future_operators stream_operators async_eval_operator').split()
# Sources of the directory that need parts of the system which are not built here.
SKIP = {'operators', 'stream_filter_json', 'stream_string_from_json'}


def build(ctx):
  """Compiles the current tree's parallel code with scheduling points at its memory accesses; returns the driver binary."""
  d = ctx.path('par')
  os.makedirs(d, exist_ok=True)
  src = os.path.join(vlib.REPO, 'koladata/functor/parallel')
  inc = [x for p in ('shims/miniabsl', 'shims/ctl', 'shims/koda', 'shims/cc') for x in ('-I', os.path.join(vlib.VERIF, p))] + ['-I', vlib.REPO]
  base = ['g++', '-std=c++20', '-O1', '-g', '-w', '-c', *inc]
  units = [(os.path.join(src, f + '.cc'), ['-fsanitize=thread']) for f in FILES if os.path.exists(os.path.join(src, f + '.cc'))]
  units += [(os.path.join(vlib.VERIF, 'drivers/cc/par_api.cc'), []), (os.path.join(vlib.VERIF, 'shims/ctl/ctl/sched.cc'), [])]

  def one(u):
    o = os.path.join(d, os.path.basename(u[0])[:-3] + '.o')
    p = subprocess.run([*base, *u[1], u[0], '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, check=False)
    if p.returncode:
      raise vlib.MachineryError('%s does not build:\n%s' % (u[0], p.stdout.decode()[-4000:]))
    return o
  with concurrent.futures.ThreadPoolExecutor(8) as ex:
    objs = list(ex.map(one, sorted(units, key=lambda u: -os.path.getsize(u[0]))))
  # Code under test first: of the functions both sides instantiate, the instrumented copy is kept.
  objs.sort(key=lambda o: os.path.basename(o) in ('par_api.o', 'sched.o'))
  out = os.path.join(d, 'par')
  p = subprocess.run(['g++', *objs, '-o', out, '-lpthread', '-Wl,--unresolved-symbols=ignore-in-object-files'],
                     stdout=subprocess.PIPE, stderr=subprocess.STDOUT, check=False)
  if p.returncode:
    raise vlib.MachineryError('the parallel code does not link:\n' + p.stdout.decode()[-4000:])
  for o in objs:
    os.unlink(o)
  ctx.log('built the parallel code')
  return out


class Scen:
  """One scenario: setup, threads, programs, final operations and schedules."""

  def __init__(self, kind, cell=1):
    self.kind = kind
    self.head = ['cell %d' % cell]
    self.setup, self.fini, self.th, self.pr = [], [], {}, {}
    self.x = None

  def tab(self, i, codes):
    self.head.append('tab %d %s' % (i, ' '.join(map(str, codes))))
    self.x = self.x or {'tab': []}
    assert len(self.x['tab']) == i and len(codes) == 10
    self.x['tab'].append(list(codes))

  def s(self, *op):
    self.setup.append(op)
    return self

  def f(self, *op):
    self.fini.append(op)
    return self

  def t(self, i, *op):
    self.th.setdefault(i, []).append(op)
    return self

  def p(self, k, *op):
    self.pr.setdefault(k, []).append(op)
    return self

  def lines(self, rng, runs):
    j = lambda o: ' '.join(map(str, o))
    ls = list(self.head)
    ls += ['s ' + j(o) for o in self.setup] + ['f ' + j(o) for o in self.fini]
    for i in sorted(self.th):
      ls += ['th %d' % i] + ['t %d %s' % (i, j(o)) for o in self.th[i]]
    for k in sorted(self.pr):
      ls += ['p %d %s' % (k, j(o)) for o in self.pr[k]]
    # The first run never preempts: function-local statics get initialised.
    ls.append('run rand 0 3 1 1')
    if self.th:
      for n in range(runs):
        x = rng.random()
        seed = rng.randint(1, 10**9)
        if x < .35:
          ls.append('run rand %d 1 1 %d' % (rng.choice([50, 150, 300, 500]), seed))
        elif x < .5:
          ls.append('run rand %d 2 1 %d' % (rng.choice([100, 300, 500]), seed))
        elif x < .75:
          ls.append('run rand %d 0 1 %d' % (rng.choice([3, 10, 30, 100, 300]), seed))
        else:
          ls.append('run pct %d %d %d %d' % (rng.choice([1, 2, 3, 5]), rng.choice([0, 1]), rng.choice([50, 200, 1000]), seed))
    return ls


def drive(ctx, binary, scens, rng, runs, cap=None):
  """Runs the scenarios; at most `cap` histories of each are kept (abnormal ends always)."""
  jobs = [{'id': i, 'kind': s.kind, 'x': s.x, 'lines': s.lines(rng, runs)} for i, s in enumerate(scens)]
  tr = ctx.drive_jobs('par.py', {'jobs': jobs, 'bin': binary}, timeout=700)
  by = {}
  for t in tr:
    by.setdefault(t['sid'], []).append(t)
  out, ends = [], {}
  for sid in sorted(by):
    ts = by[sid]
    odd = [t for t in ts if t['ev'][-1]['e'] != 'end']
    for t in odd:
      ends[t['ev'][-1]['e']] = ends.get(t['ev'][-1]['e'], 0) + 1
    ok = [t for t in ts if t['ev'][-1]['e'] == 'end']
    if cap and len(ok) > cap:
      ok = ok[:1] + rng.sample(ok[1:], cap - 1)
    out += odd + ok
  ctx.log('%d scenarios, %d distinct histories, %d kept %s' % (len(scens), len(tr), len(out), ends or ''))
  ctx.extra['schedules_run'] = ctx.extra.get('schedules_run', 0) + sum(1 for j in jobs for x in j['lines'] if x.startswith('run'))
  ctx.extra['distinct_histories'] = ctx.extra.get('distinct_histories', 0) + len(tr)
  return out


def merge(rng, a, b):
  r, a, b = [], list(a), list(b)
  while a or b:
    x = a if a and (not b or rng.random() < len(a) / (len(a) + len(b))) else b
    r.append(x.pop(0))
  return r


def feed(s, rng, w, th, vals, end):
  """Thread th (-1: the setup) writes vals to writer w and ends it."""
  put = (lambda *o: s.t(th, *o)) if th >= 0 else s.s
  for v in vals:
    put('wr', w, v)
  if end is not None:
    put('dw', w) if end == 100 else put('cl', w, end)


def source(s, rng, i, th, vals, end, typ=0, cap=None):
  """Stream i with the given contents: complete at once, or written by thread th, or both."""
  s.s('mk', i, i, rng.choice([0, 0, 2]) if cap is None else cap, *([typ] if typ else []))
  cut = rng.choice([0, 0, len(vals), rng.randint(0, len(vals))])
  feed(s, rng, i, -1, vals[:cut], None)
  if cut == len(vals) and rng.random() < .4:
    feed(s, rng, i, -1, [], end)
  else:
    feed(s, rng, i, th, vals[cut:], end)


def executors(s, rng, nth, weak=.15):
  """Executors 0..: returns those usable and the number of threads after adding the workers."""
  if rng.random() < .25:
    s.s('eager', 0)
    es = [0]
  else:
    w = rng.random() < weak
    s.s('pool', 0, rng.choice([0, 0, 1]), rng.choice([0, 1, 2, 3, 5]) if w else -1)
    es = [0]
    for _ in range(rng.choice([1, 1, 2, 3])):
      s.th.setdefault(nth, []).append(('work', 0))
      nth += 1
    if w and rng.random() < .3:
      s.t(rng.randrange(nth - 1) if nth > 1 else 0, 'clearq', 0)
  if rng.random() < .2:
    s.s('derive', 1, 0, -1)
    es = [0, 1] if rng.random() < .5 else [1]
  return es, nth


def with_reads(tr):
  """Adds to each history the longest sequence any reader reads from each stream."""
  for t in tr:
    of, got = {}, {}
    for e in t['ev']:
      if e['e'] not in ('op', 'res') or 'o' not in e:
        continue
      k, a = e['o']['k'], e['o']['a']
      if k == 'rd':
        of[a[1]] = a[0]
        got[a[1]] = []
      elif k in ('tr', 'cb') and e['r'][0] == 1:
        got.setdefault(a[0 if k == 'tr' else 1], []).append(e['r'][1])
    w = [[] for _ in range(max(of.values(), default=-1) + 1)]
    for r, l in got.items():
      if r in of and len(l) > len(w[of[r]]):
        w[of[r]] = l
    t['want'] = w
  return tr
