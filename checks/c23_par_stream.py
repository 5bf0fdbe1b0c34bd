"""C23: a stream is one append-only log that every reader sees whole."""
import random
import par_common as pc

LEVEL = 'model_checking'


def scen(rng):
  s = pc.Scen('log', rng.choice([0, 1, 1, 2, 3, 3]))
  s.s('mk', 0, 0, rng.choice([0, 0, 0, 1, 2, 3, 7]))
  v = iter(range(1, 1000))
  nth = rng.choice([2, 2, 3, 3, 4])
  nr = rng.choice([1, 2, 2, 3])
  for _ in range(rng.choice([0, 0, 1, 2, 4])):
    s.s('wr', 0, next(v))
  for r in range(nr):
    if rng.random() < .6:
      s.s('rd', 0, r)
    else:
      s.t(r % nth, 'rd', 0, r)
    if rng.random() < .2:
      s.s('tr', r) if ('rd', 0, r) in s.setup else None
  style = rng.choice(['one', 'one', 'many', 'many', 'closers'])
  wt = rng.randrange(nth)
  drop = rng.random() < .3
  if style == 'one':          # one owner: plain writes, then a close
    for _ in range(rng.choice([1, 2, 3, 5, 8])):
      s.t(wt, rng.choice(['wr', 'wr', 'twr']), 0, next(v))
      if rng.random() < .1:
        s.t(wt, 'orph', 0)
    e = rng.random()
    if e < .5:
      s.t(wt, 'cl', 0, rng.choice([0, 0, 7]))
    elif e < .8:
      s.t(wt, 'dw', 0)
    if e < .5 and rng.random() < .5:
      s.t(wt, rng.choice(['twr']), 0, next(v))
      s.t(wt, 'tcl', 0, 9)
      s.t(wt, 'orph', 0)
  else:
    for i in range(nth):
      for _ in range(rng.choice([0, 1, 2, 3])):
        s.t(i, 'twr', 0, next(v))
      if style == 'closers' or rng.random() < .4:
        s.t(i, 'tcl', 0, rng.choice([0, 5 + i]))
        if rng.random() < .5:
          s.t(i, 'twr', 0, next(v))
        if rng.random() < .3 and not drop:
          s.t(i, 'orph', 0)
  for r in range(nr):
    i = r % nth
    for _ in range(rng.choice([1, 2, 3, 4, 6])):
      s.t(i, 'tr', r)
    if drop and rng.random() < .5:
      s.t(i, 'dr', r)
    elif True:
      for _ in range(rng.choice([2, 4, 10])):
        s.f('tr', r)
  if drop:
    # Only the thread that writes may ask whether the stream is orphaned when handles go away concurrently.
    for i in s.th:
      if i != wt or style != 'one':
        s.th[i] = [o for o in s.th[i] if o[0] != 'orph']
    # A reader made in a thread needs the handle.
    if not any(o[0] == 'rd' for i in s.th for o in s.th[i]):
      k = rng.randrange(nth)
      s.th[k] = [o for o in s.th.get(k, []) if o[0] != 'orph']
      s.t(k, 'ds', 0)
      for i in s.th:
        s.th[i] = [o for o in s.th[i] if o[0] != 'orph']
  # Threads other than the readers' drop nothing that is read at the end.
  dropped = {o[1] for i in s.th for o in s.th[i] if o[0] == 'dr'}
  s.fini = [o for o in s.fini if o[1] not in dropped]
  ds = any(o[0] == 'ds' for i in s.th for o in s.th[i])
  if not ds:
    s.f('rd', 0, 9)
    for _ in range(rng.choice([4, 30])):
      s.f('tr', 9)
  for i in range(nth):
    s.th.setdefault(i, [])
  return s


def check(ctx):
  ctx.model_check('ParStreamMC', 'INIT Init\nNEXT Next\nINVARIANT Inv\nPROPERTY Grows\nCHECK_DEADLOCK FALSE\n'
                  'CONSTANTS Cap0 = 0 Cap = 2 NWrite = %d NRead = 2 NSub = 1 NWriters = 2\n' % ctx.pick(2, 3), timeout=800)
  b = pc.build(ctx)
  rng = random.Random(ctx.seed * 1000 + 23)
  n = ctx.pick(260, 2500)
  sc = [scen(rng) for _ in range(n)]
  tr = pc.with_reads(pc.drive(ctx, b, sc, rng, ctx.pick(150, 500), cap=ctx.pick(14, 40)))
  ctx.require('ParStreamTrace', tr)
  op = lambda th, k, a, r: {'e': 'op', 'th': th, 'o': {'k': k, 'a': a}, 'r': r}
  pre = [op(0, 'mk', [0, 0, 0], []), op(0, 'rd', [0, 0], []), {'e': 'start'}, op(1, 'wr', [0, 1], []), op(1, 'wr', [0, 2], [])]
  ctx.control('ParStreamTrace', {'ev': pre + [op(2, 'tr', [0], [1, 2])]}, 5)
  ctx.control('ParStreamTrace', {'ev': pre + [op(1, 'cl', [0, 0], []), op(2, 'tr', [0], [2, 0])]}, 6)
  ctx.control('ParStreamTrace', {'ev': pre + [{'e': 'deadlock', 'live': 0}]}, 5)
