"""C02: the storage cache is linearizable under every thread schedule."""
import random

LEVEL = 'model_checking'


def op(op, k=0, v=0, n=0):
  return {'op': op, 'k': k, 'v': v, 'n': n}


def scenarios(rng, extra):
  S = lambda k, v, n: op('set', k, v, n)
  g = lambda k: op('get', k)
  r = lambda k: op('remove', k)
  post = [op('total'), op('max'), g(1), g(2), g(3), op('total'), op('set_max', n=3), op('total'),
          op('set_max', n=1), op('total'), op('set_max', n=0), op('total')]
  fixed = [
      (4, [], [[S(1, 11, 2)], [S(1, 12, 2)]]),
      (4, [], [[S(1, 11, 2)], [S(1, 12, 2)], [g(1)]]),
      (4, [S(1, 10, 2)], [[r(1)], [S(2, 21, 3)]]),
      (4, [S(1, 10, 2)], [[r(1)], [r(1)]]),
      (4, [S(1, 10, 2), S(2, 20, 2)], [[S(3, 31, 2)], [g(1)]]),
      (4, [S(1, 10, 2), S(2, 20, 2)], [[S(3, 31, 3)], [r(2)]]),
      (4, [S(1, 10, 2), S(2, 20, 2)], [[op('set_max', n=1)], [S(3, 31, 1)]]),
      (4, [S(1, 10, 2), S(2, 20, 2)], [[op('set_max', n=2)], [S(3, 31, 4)]]),
      (4, [S(1, 10, 2), S(2, 20, 2)], [[op('clear')], [S(3, 31, 1)]]),
      (4, [S(1, 10, 2)], [[op('clear')], [g(1)], [op('total')]]),
      (4, [S(1, 10, 2)], [[op('clear')], [r(1)]]),
      (4, [S(1, 10, 2), S(2, 20, 1)], [[g(1), g(2)], [S(3, 31, 2)]]),
      (4, [], [[S(1, 11, 2), S(2, 22, 2)], [S(2, 23, 2), S(1, 14, 2)]]),
      (4, [], [[S(1, 11, 2), r(1)], [S(1, 12, 2), op('total')]]),
      (4, [S(1, 10, 1), S(2, 20, 1), S(3, 30, 1)], [[op('set_max', n=1)], [op('set_max', n=2)], [g(1)]]),
      (3, [S(1, 10, 1), S(2, 20, 1), S(3, 30, 1)], [[S(4, 41, 2)], [S(5, 51, 2)]]),
      (3, [S(1, 10, 3)], [[S(2, 41, 2)], [g(1)], [op('total')]]),
  ]
  res = [{'max': m, 'pre': p, 'threads': t, 'post': post} for m, p, t in fixed]
  vid = 100
  for _ in range(extra):
    pre, ths = [], []

    def rnd():
      nonlocal vid
      vid += 1
      c = rng.random()
      k = rng.randint(1, 3)
      if c < .5:
        return S(k, vid, rng.randint(0, 4))
      if c < .65:
        return g(k)
      if c < .8:
        return r(k)
      if c < .85:
        return op('clear')
      if c < .93:
        return op('set_max', n=rng.randint(0, 5))
      return op('total')

    pre = [rnd() for _ in range(rng.randint(0, 3))]
    ths = [[rnd() for _ in range(rng.randint(1, 2))] for _ in range(rng.choice([2, 2, 3]))]
    res.append({'max': rng.randint(2, 6), 'pre': pre, 'threads': ths, 'post': post})
  return res


def check(ctx):
  rng = random.Random(ctx.seed)
  cfg = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Exact Budget Mutex Unique\nCONSTANTS\n'
  ctx.model_check('LruConcMC', cfg + ctx.pick('Threads = {1,2}\nMax = 3\nUseLock = TRUE\n',
                                              'Threads = {1,2,3}\nMax = 3\nUseLock = TRUE\n'))
  # The design without the lock is broken: the model is not vacuous.
  r = ctx.tlc('LruConcMC', cfg.replace(' Mutex', '') + 'Threads = {1,2}\nMax = 3\nUseLock = FALSE\n')
  assert r.violated, 'model without lock should be broken'
  ctx.extra['control_without_lock_violates'] = r.violated
  r = ctx.drive('lru_conc.py', {'seed': ctx.seed, 'limit': ctx.pick(220, 2000),
                                'preempt': ctx.pick(2, 3),
                                'scenarios': scenarios(rng, ctx.pick(15, 60))}, timeout=700)
  ctx.extra['schedules_executed'] = r['runs']
  ctx.log(r['runs'], 'schedules executed,', len(r['traces']), 'distinct histories')
  ctx.require('LruLinTrace', r['traces'])
  i = lambda th, o: dict(o, e='inv', th=th)
  res = lambda th, r: {'e': 'res', 'th': th, 'r': r}
  ctx.control('LruLinTrace', {'max': 4, 'ev': [
      i(1, op('set', 1, 11, 1)), i(2, op('set', 1, 12, 1)), res(1, 11), res(2, 12)]}, 3)
