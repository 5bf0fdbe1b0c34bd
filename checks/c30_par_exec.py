"""C30: executors, their context guards and the current executor."""
import random
import par_common as pc

LEVEL = 'model_checking'


def scen(rng):
  s = pc.Scen('exec', rng.choice([0, 1, 2, 3]))
  nth = rng.choice([1, 1, 2, 2, 3])
  n = 0
  roots, workers = [], []
  gid = iter(range(1, 40))
  guard = lambda: next(gid) if rng.random() < .6 else -1
  if rng.random() < .7:
    weak = rng.random() < .12
    lim = rng.choice([0, 1, 2, 3]) if weak else -1
    if rng.random() < .4:
      s.s('poolg', n, rng.choice([0, 1]), lim, next(gid))
    else:
      s.s('pool', n, rng.choice([0, 1]), lim)
    roots.append(n)
    workers += [('work', n)] * rng.choice([1, 1, 2])
    if rng.random() < .06:
      s.t(0, 'clearq', n)
    n += 1
  if rng.random() < .7:
    s.s('eager', n)
    roots.append(n)
    n += 1
  asio = -1
  if rng.random() < .5 or not roots:
    asio = n
    s.s('asio', n, rng.choice([0, 1, 1, 2]))
    roots.append(n)
    workers += [('awork',)] * rng.choice([1, 2, 2, 3])
    n += 1
  dflt = -1
  if rng.random() < .35:
    dflt = n
    s.s('dflt', n)
    if ('awork',) not in workers:
      workers.append(('awork',))
    if rng.random() < .5:
      roots.append(n)
    n += 1
  es = list(roots)
  for _ in range(rng.choice([0, 1, 2, 3, 4])):
    s.s('derive', n, rng.choice(es), guard())
    es.append(n)
    n += 1
  s.s('smake', 40, 7)
  ks = iter(range(0, 40))
  todo = []

  def prog(depth):
    r = []
    level = 0
    for _ in range(rng.choice([0, 1, 2, 3, 4] if depth else [2, 3, 4, 5])):
      x = rng.random()
      if x < .35:
        r.append(('cur',))
      elif x < .5:
        r.append(('push', rng.choice(es + [-1])))
        level += 1
      elif x < .6 and level:
        r.append(('pop',))
        level -= 1
      elif x < .67:
        r.append(('sw', 40))
      elif depth < 3 and len(todo) < 12:
        k = next(ks)
        todo.append((k, depth + 1))
        r.append(('sched', rng.choice(es), k))
    r += [('pop',)] * level
    if rng.random() < .5:
      r.append(('cur',))
    if not depth and dflt >= 0 and rng.random() < .6:
      if rng.random() < .4:
        r = [('push', rng.choice(es + [-1])), ('pushd',), ('cur',), *r, ('popd',), ('cur',), ('pop',)]
      else:
        r = [('pushd',), *r, ('cur',), ('popd',), ('cur',)]
    return r

  for i in range(nth):
    own = prog(0)
    if rng.random() < .25:
      s.s('ctx', i)
      at = rng.randint(0, len(own))
      own = own[:at] + [('in', i)] + own[at:] + [('in', -1)]
    s.th.setdefault(i, [])
    s.th[i] = pc.merge(rng, s.th[i], own)
  # A derived executor only one thread uses, dropped while its tasks wait.
  if rng.random() < .35:
    s.s('derive', n, rng.choice(es), guard())
    i = rng.randrange(nth)
    for _ in range(rng.choice([1, 1, 2])):
      k = next(ks)
      todo.append((k, 3))
      s.t(i, 'sched', n, k)
    s.t(i, 'dropE', n)
    n += 1
  elif rng.random() < .3:
    s.s('asio', n, rng.choice([1, 2]))
    if ('awork',) not in workers:
      workers += [('awork',)] * rng.choice([1, 2])
    i = rng.randrange(nth)
    for _ in range(rng.choice([1, 2, 3])):
      k = next(ks)
      todo.append((k, 3))
      s.t(i, 'sched', n, k)
    s.t(i, 'dropE', n)
    n += 1
  while todo:
    k, d = todo.pop(0)
    for o in prog(d):
      s.p(k, *o)
  if rng.random() < .2 and es and not any(o[0] == 'sched' for o in s.setup):
    e = rng.choice([x for x in es])
    if rng.random() < .5:
      s.s('push', e)
      s.s('cur')
      s.s('pop')
  for i, o in enumerate(workers):
    s.th[nth + i] = [o]
  return s


def check(ctx):
  b = pc.build(ctx)
  rng = random.Random(ctx.seed * 1000 + 30)
  sc = [scen(rng) for _ in range(ctx.pick(450, 4500))]
  tr = pc.drive(ctx, b, sc, rng, ctx.pick(60, 300), cap=ctx.pick(9, 40))
  ctx.require('ParExecTrace', tr)
  op = lambda th, k, *a: {'e': 'op', 'th': th, 'o': {'k': k, 'a': list(a)}, 'r': []}
  ev = lambda e, **k: {'e': e, **k}
  pre = [op(0, 'poolg', 0, 0, -1, 1), op(0, 'derive', 1, 0, 2), op(0, 'sched', 1, 5)]
  go = [ev('genter', id=1, th=1, ex=0), ev('genter', id=2, th=1, ex=1), ev('task', k=5, th=1, ex=1, it=1, cx=-1)]
  end = [ev('tend', k=5, th=1, ex=1, it=1, cx=-1), ev('gexit', id=2, th=1, ex=1), ev('gexit', id=1, th=1, ex=0)]
  ctx.control('ParExecTrace', {'ev': pre + go + end + go[:1]}, 9)
  ctx.control('ParExecTrace', {'ev': pre + go[1:]}, 3)
  ctx.control('ParExecTrace', {'ev': pre + go + [end[0], end[2]]}, 7)
  ctx.control('ParExecTrace', {'ev': pre + [{'e': 'quiet'}]}, 3)
