"""C01: the storage cache is an exact byte-bounded LRU."""
import random

LEVEL = 'model_checking'


def op(op, k=0, v=0, n=0):
  return {'op': op, 'k': k, 'v': v, 'n': n}


def full_probe(keys, m):
  res = [op('total'), op('max')]
  # Shrinking one byte at a time evicts from the LRU end; total() shows when.
  for b in range(m, -1, -1):
    res += [op('set_max', n=b), op('total')]
  return res


def check(ctx):
  gen_cfg = ('INIT Init\nNEXT Next\nVIEW View\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n'
             'INVARIANTS InvBudget InvNoDup InvSteps\nCONSTANTS\n')
  consts = ctx.pick('Keys = {1,2,3}\nSizes = {0,1,2,3}\nMaxes = {0,2,3,5}\n',
                    'Keys = {1,2,3,4}\nSizes = {0,1,2,3}\nMaxes = {0,2,4,6}\n')
  ctx.model_check('LruMC', gen_cfg.replace('ACTION_CONSTRAINT Emit\n', '')
                  + ctx.pick('Keys = {1,2,3,4}\nSizes = {1,2,3}\nMaxes = {0,2,4,6}\nGen = FALSE\n',
                             'Keys = {1,2,3,4,5}\nSizes = {0,1,2,3}\nMaxes = {0,3,5,8}\nGen = FALSE\n'))
  behs = ctx.generate('LruMC', gen_cfg + ctx.pick(
      'Keys = {1,2,3}\nSizes = {1,2,3}\nMaxes = {0,2,3,5}\n',
      consts) + 'Gen = TRUE\n')
  jobs = []
  for h in behs:
    m, ops = h[0], h[1:]
    last = m
    for o in ops:
      if o['op'] == 'set_max':
        last = o['n']
    # two different probes of the reached abstract state
    jobs.append({'max': m, 'ops': ops + full_probe((1, 2, 3), last)})
    jobs.append({'max': m, 'ops': ops + [op('total')] + [op('get', k) for k in (3, 1, 2, 4)]
                 + [op('total')]})
  ctx.require('LruTrace', ctx.drive('lru.py', jobs), cfg='INVARIANT InvBudget\n', label='one per transition')

  rng = random.Random(ctx.seed)
  jobs = []
  for _ in range(ctx.pick(800, 6000)):
    nk = rng.choice([2, 3, 5, 8])
    mx = rng.choice([0, 1, 5, 10, 17, 10**6])
    ops = []
    vid = 100
    for _ in range(rng.randint(5, 40)):
      c = rng.random()
      k = rng.randint(1, nk)
      if c < .45:
        vid += 1
        ops.append(op('set', k, rng.choice([0, vid, vid]), rng.choice([0, 1, 2, 3, 5, 9, mx, mx + 1])))
      elif c < .75:
        ops.append(op('get', k))
      elif c < .83:
        ops.append(op('remove', k))
      elif c < .86:
        ops.append(op('clear'))
      elif c < .92:
        ops.append(op('set_max', n=rng.choice([0, 1, 3, 7, 12, 20, -1])))
      else:
        ops.append(op(rng.choice(['total', 'max'])))
      if rng.random() < .5:
        ops.append(op('total'))
    m = mx
    for o in ops:
      if o['op'] == 'set_max' and o['n'] >= 0:
        m = o['n']
    jobs.append({'max': mx, 'ops': ops + full_probe(None, min(m, 22))})
  ctx.require('LruTrace', ctx.drive('lru.py', jobs), cfg='INVARIANT InvBudget\n', label='seeded random histories')
  # The trace checker must reject a corrupted history (binding demonstration).
  tr = {'max': 3, 'ev': [dict(op('set', 1, 11, 2), r=11), dict(op('set', 2, 21, 2), r=21),
                         dict(op('get', 1), r=11)]}
  ctx.control('LruTrace', tr, 2)
