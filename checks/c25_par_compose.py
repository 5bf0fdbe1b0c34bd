"""C25: chained and interleaved streams deliver exactly their inputs."""
import random
import par_common as pc

LEVEL = 'model_checking'


def scen(rng):
  kind = rng.choice(['chain', 'chain', 'il', 'il', 'opchain', 'opil', 'cfs', 'ilfs', 'nest'])
  s = pc.Scen(kind, rng.choice([0, 1, 2, 3]))
  nth = rng.choice([2, 3, 3, 4])
  ends = lambda: rng.choice([0, 0, 0, 0, 0, 3, 100, None] if rng.random() < .4 else [0])
  n = rng.choice([0, 1, 2, 2, 3, 4]) if kind in ('opchain', 'opil') else rng.choice([1, 2, 3, 4])
  late = []
  for i in range(n):
    if rng.random() < .12:
      s.s(rng.choice(['smake', 'siter']), i, *[i * 100 + j + 1 for j in range(rng.choice([0, 1, 3]))])
      continue
    s.s('mk', i, i, rng.choice([0, 0, 2]))
    vals = [i * 100 + j + 1 for j in range(rng.choice([0, 1, 1, 2, 3, 5]))]
    cut = rng.choice([0, 0, len(vals), rng.randint(0, len(vals))])
    pc.feed(s, rng, i, -1, vals[:cut], None)
    e = ends()
    if cut == len(vals) and rng.random() < .5:
      pc.feed(s, rng, i, -1, [], e)
    else:
      late.append((i, vals[cut:], e))
  out = 20
  add = []
  if kind in ('chain', 'il'):
    c = kind[0]
    s.s('mk', out, out, rng.choice([0, 3]))
    s.s(kind, 0, out)
    if rng.random() < .2:
      s.s('corph', 0) if kind == 'chain' else None
    seq = list(range(n))
    if kind == 'chain' and rng.random() < .3:
      seq.append(rng.randrange(n))       # a stream may be added twice
    for i in seq:
      if kind == 'il' or rng.random() < .8:
        add.append((c + 'add', 0, i))
      if rng.random() < .25:
        add.append((c + 'item', 0, 5000 + len(add)))
      if rng.random() < .1:
        add.append((c + 'err', 0, 40 + len(add)))
    add.append((c + 'drop', 0)) if rng.random() < .85 else None
    cut = rng.choice([0, 0, 1, len(add)])
    for o in add[:cut]:
      s.s(*o)
    adder = rng.randrange(nth)
    if kind == 'il' and rng.random() < .4:
      # several threads add; the last operation stays where nothing else uses the object afterwards
      spread = add[cut:]
      drop = [o for o in spread if o[0] == 'idrop']
      for o in spread:
        if o not in drop:
          s.t(rng.randrange(nth), *o)
      for o in drop:
        s.f(*o)
    else:
      for o in add[cut:]:
        s.t(adder, *o)
    if kind == 'chain' and ('cdrop', 0) not in add and rng.random() < .5:
      s.f('corph', 0)
  elif kind in ('opchain', 'opil'):
    s.s(kind, out, *range(n)) if rng.random() < .5 else s.t(0, kind, out, *range(n))
  elif kind in ('cfs', 'ilfs'):
    op = 'chainfs' if kind == 'cfs' else 'ilfs'
    s.s('mk', 30, 30, rng.choice([0, 1]), 2)
    cut = rng.choice([0, 0, n])
    for i in range(cut):
      s.s('wr', 30, i)
    s.s(op, out, 30)
    e = ends()
    if kind == 'cfs' and rng.random() < .2:
      late.append((30, list(range(cut, n)) + [rng.randrange(n)], e))
    else:
      late.append((30, list(range(cut, n)), e))
  else:
    # a chain (or interleaving) of chains
    h = rng.randint(0, n)
    s.s('opchain', 21, *range(h))
    s.s('opchain', 22, *range(h, n))
    s.s(rng.choice(['opchain', 'opil']), out, 21, 22)
  if rng.random() < .3 and kind not in ('cfs', 'ilfs', 'nest'):
    for d in range(rng.choice([1, 2])):
      s.t(rng.randrange(nth), 'drain', out, d) if kind in ('chain', 'il') or ('s' if any(o[0] == kind for o in s.setup) else '') else s.t(0, 'drain', out, d)
  else:
    s.s('drain', out, 0) if kind not in ('opchain', 'opil') or any(o[0] == kind for o in s.setup) else s.t(0, 'drain', out, 0)
  # the rest is written by the threads; one thread per stream
  for w, vals, e in late:
    th = rng.randrange(nth)
    if kind in ('chain', 'il') and rng.random() < .3:
      th = nth
    pc.feed(s, rng, w, th, vals, e)
  for i in s.th:   # writers first or operations first
    if rng.random() < .4:
      a = [o for o in s.th[i] if o[0] in ('wr', 'cl', 'dw')]
      b = [o for o in s.th[i] if o[0] not in ('wr', 'cl', 'dw')]
      s.th[i] = a + b if rng.random() < .5 else pc.merge(rng, a, b)
  if rng.random() < .5:
    s.f('drain', out, 9)
  for i in range(max(s.th, default=0) + 1):
    s.th.setdefault(i, [])
  return s


def check(ctx):
  ctx.model_check('ParComposeMC', 'INIT Init\nNEXT Next\nINVARIANTS Inv Done\nCHECK_DEADLOCK FALSE\nCONSTANTS NIn = %d MaxLen = 2\n' % ctx.pick(2, 3), timeout=800)
  b = pc.build(ctx)
  rng = random.Random(ctx.seed * 1000 + 25)
  sc = [scen(rng) for _ in range(ctx.pick(400, 4000))]
  tr = pc.drive(ctx, b, sc, rng, ctx.pick(150, 500), cap=ctx.pick(12, 40))
  ctx.require('ParFlowTrace', tr)
  op = lambda th, k, a, r=(): {'e': 'op', 'th': th, 'o': {'k': k, 'a': a}, 'r': list(r)}
  pre = [op(0, 'smake', [0, 1, 2], [1]), op(0, 'smake', [1, 101], [1]), op(0, 'opchain', [2, 0, 1], [1]), op(0, 'opil', [3, 0, 1], [1]),
         op(0, 'drain', [2, 0]), op(0, 'drain', [3, 1])]
  out = lambda o, v: {'e': 'out', 'o': o, 'v': v}
  ctx.control('ParFlowTrace', {'ev': pre + [out(0, 1), out(0, 101)]}, 7)
  ctx.control('ParFlowTrace', {'ev': pre + [out(1, 1), out(1, 101), {'e': 'oend', 'o': 1, 'c': 0}]}, 8)
  ctx.control('ParFlowTrace', {'ev': pre + [out(1, 2)]}, 6)
