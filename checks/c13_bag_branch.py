"""C13: managers, branches, extracts and caches are isolated from each other."""
import random
import bagstore_common as B

LEVEL = 'model_checking'


def check(ctx):
  rng = random.Random(ctx.seed)
  env = B.env(ctx)
  B.model(ctx)
  g = B.gen(ctx)
  final = {'dirs': ['A', 'B'], 'caches': ['1000000', 'clear'], 'then': [
      {'op': 'add', 'h': '_A', 'new': [B.bag('z1', [], [('x', 91)])]},
      {'op': 'add', 'h': '_B', 'new': [B.bag('z2', [], [('x', 92)])]},
      {'op': 'add', 'h': 'p', 'new': [B.bag('z3', [], [('x', 93)])]},
      {'op': 'names', 'h': 'q'}, {'op': 'names', 'h': '_A'}, {'op': 'names', 'h': '_B'}]}
  n = ctx.pick(2500, 6000)
  if len(g) > n:
    g = rng.sample(g, n)
  jobs = [{'ops': h, 'final': final} for h in g]
  final3 = dict(final, dirs=['A', 'B', 'C', 'D'])
  for _ in range(ctx.pick(250, 3000)):
    j = B.random_job(rng, n=rng.randint(6, 25), dirs='ABCD', hs='pqrs')
    if rng.random() < .5:
      # chains of branches: dir i+1 branches dir i and is extended
      R = B.Rnd(rng)
      ops = [{'op': 'create', 'h': 'p', 'dir': 'A'}]
      have = set()
      for i, d in enumerate('ABC'):
        new, have2 = R.news(have)
        ops.append({'op': 'add', 'h': 'p', 'new': new})
        if rng.random() < .5:
          ops.append({'op': 'open', 'h': 'q', 'dir': d})
        nxt = 'ABCD'[i + 1]
        ops.append({'op': rng.choice(['branch', 'branch', 'extract']), 'h': 'p', 'dir': nxt,
                    'names': rng.sample(sorted(have2), rng.randint(0, len(have2))), 'wad': rng.random() < .5})
        new, _ = R.news(have2)
        ops.append({'op': 'add', 'h': rng.choice('pq'), 'new': new})
        ops.append({'op': 'cache', 'what': rng.choice(['clear', 'off', 'on', '100'])})
        ops.append({'op': 'open', 'h': 'p', 'dir': nxt})
        have = have2
      j = {'ops': ops}
    j['final'] = final3
    jobs.append(j)
  tr = ctx.drive('bagstore.py', {'jobs': jobs, 'disk_every': 40}, env=env, timeout=700)
  ctx.require('BagStoreTrace', tr)
  E = lambda op, r='ok', **k: dict({'op': op, 'h': 'p', 'dir': 'A', 'names': [], 'wad': False, 'new': [], 'r': r}, **k)
  a, b = B.bag('a', [], [('x', 1)]), B.bag('b', [], [('x', 2)])
  ctx.control('BagStoreTrace', {'ev': [
      E('create'), E('add', new=[a]), E('branch', dir='B', names=['a']), E('add', new=[b]),
      E('open', h='q', dir='B'), E('names', h='q', v=['a', 'b'])]}, 5)
