"""C24: a subscription to a stream calls back exactly once, when there is something to read."""
import random
import par_common as pc

LEVEL = 'model_checking'


def scen(rng):
  s = pc.Scen('sub', rng.choice([0, 1, 2, 3, 3]))
  ns = rng.choice([1, 1, 2])
  v = iter(range(1, 1000))
  for i in range(ns):
    s.s('mk', i, i, rng.choice([0, 0, 1, 2, 5]))
    for _ in range(rng.choice([0, 0, 1, 2])):
      s.s('wr', i, next(v))
  nth = rng.choice([2, 3, 3, 4])
  k = 0
  nr = rng.choice([1, 2, 3])
  for r in range(nr):
    st = rng.randrange(ns)
    home = rng.randrange(nth)
    s.s('rd', st, r)
    for _ in range(rng.choice([0, 0, 1, 3])):
      s.s('tr', r)
    for _ in range(rng.choice([0, 0, 1, 2])):
      s.t(home, 'tr', r)
    s.t(home, 'sub', r, k)
    # A chain of callbacks: each reads some and subscribes again.
    n = rng.choice([0, 1, 2, 4])
    for _ in range(n):
      for _ in range(rng.choice([0, 0, 1, 2])):
        s.p(k, 'tr', r)
      s.p(k, 'sub', r, k + 1)
      k += 1
    last = rng.random()
    if last < .3:
      for _ in range(rng.choice([1, 3])):
        s.p(k, 'tr', r)
    elif last < .45:
      s.p(k, 'dr', r)
    elif last < .6:
      s.t(home, 'aw', k)
      s.t(home, 'tr', r)
    k += 1
  style = rng.choice(['one', 'many'])
  for i in range(ns):
    if style == 'one':
      w = rng.randrange(nth) if rng.random() < .5 else nth
      for _ in range(rng.choice([0, 1, 2, 4])):
        s.t(w, rng.choice(['wr', 'twr']), i, next(v))
      x = rng.random()
      if x < .5:
        s.t(w, 'cl', i, rng.choice([0, 6]))
      elif x < .8:
        s.t(w, 'dw', i)
    else:
      for w in range(nth):
        for _ in range(rng.choice([0, 1, 2])):
          s.t(w, 'twr', i, next(v))
        if rng.random() < .4:
          s.t(w, 'tcl', i, rng.choice([0, 5 + w]))
  # A thread that waits for a callback must not be what the callback depends on: writers come last in no waiting thread.
  waits = {i for i in s.th if any(o[0] == 'aw' for o in s.th[i])}
  for i in waits:
    # every operation that needs the awaited callback goes after all others
    aw = [n for n, o in enumerate(s.th[i]) if o[0] == 'aw']
    tail = []
    head = []
    for n, o in enumerate(s.th[i]):
      (tail if n in aw or (n - 1 in aw) else head).append(o)
    s.th[i] = head + tail
  if waits:
    safe = {'wr': 'twr', 'cl': 'tcl'}
    for t in s.th:
      s.th[t] = [('tcl', o[1], 4) if o[0] == 'dw' else (safe.get(o[0], o[0]), *o[1:]) for o in s.th[t]]
    # awaited callbacks must come: every stream gets closed by a thread that waits for nothing
    for i in range(ns):
      if not any(o[0] == 'tcl' and o[1] == i for t in s.th if t not in waits for o in s.th[t]):
        s.t(nth + 1, 'tcl', i, 0)
  cbw = False
  if rng.random() < .2:
    # a callback writes to the other stream
    if ns == 2 and style == 'many':
      s.p(rng.randrange(k), 'twr', rng.randrange(2), next(v))
      cbw = True
  dwed = {o[1] for t in s.th for o in s.th[t] if o[0] in ('dw',)}
  for i in range(ns):
    if i not in dwed:
      if not any(o[0] in ('cl',) and o[1] == i for t in s.th for o in s.th[t]) and rng.random() < .5:
        s.f('twr', i, next(v))
      s.f(*(('tcl', i, 3) if cbw else ('dw', i)))
  for i in range(max(s.th) + 1):
    s.th.setdefault(i, [])
  return s


def check(ctx):
  ctx.model_check('ParStreamMC', 'INIT Init\nNEXT Next\nINVARIANT Inv\nPROPERTY Grows\nCHECK_DEADLOCK FALSE\n'
                  'CONSTANTS Cap0 = 1 Cap = 2 NWrite = %d NRead = %d NSub = 2 NWriters = 2\n' % ctx.pick((3, 1), (2, 2)), timeout=800)
  b = pc.build(ctx)
  rng = random.Random(ctx.seed * 1000 + 24)
  sc = [scen(rng) for _ in range(ctx.pick(260, 2500))]
  tr = pc.with_reads(pc.drive(ctx, b, sc, rng, ctx.pick(150, 500), cap=ctx.pick(14, 40)))
  ctx.require('ParStreamTrace', tr)
  op = lambda th, k, a, r: {'e': 'op', 'th': th, 'o': {'k': k, 'a': a}, 'r': r}
  pre = [op(0, 'mk', [0, 0, 0], []), op(0, 'rd', [0, 0], []), {'e': 'start'}, op(1, 'sub', [0, 3], [])]
  ctx.control('ParStreamTrace', {'ev': pre + [op(103, 'cb', [3, 0], [0])]}, 4)
  ctx.control('ParStreamTrace', {'ev': pre + [op(2, 'wr', [0, 1], []), {'e': 'quiet'}]}, 5)
  ctx.control('ParStreamTrace', {'ev': pre + [op(2, 'wr', [0, 1], []), op(103, 'cb', [3, 0], [1, 1]), op(103, 'cb', [3, 0], [1, 1])]}, 6)
