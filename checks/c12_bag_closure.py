"""C12: a load returns exactly the dependency closure, merged in add order."""
import itertools
import random
import bagstore_common as B

LEVEL = 'model_checking'


def check(ctx):
  rng = random.Random(ctx.seed)
  env = B.env(ctx)
  B.model(ctx)
  jobs = []
  # every dependency DAG over 4 bags (each may depend on any subset of its
  # predecessors), every requested subset, with and without dependents
  names = ['n0', 'n1', 'n2', 'n3']
  rng.shuffle(names)
  dags = list(itertools.product(*[list(itertools.chain.from_iterable(
      itertools.combinations(range(i), r) for r in range(i + 1))) for i in range(4)]))
  for dn, dag in enumerate(dags):
    ops = [{'op': 'create', 'h': 'p', 'dir': 'A'}]
    bags = [B.bag(names[i], [names[j] for j in dag[i]], [('x', 10 + i), ('xyzw'[i], 20 + i)]) for i in range(4)]
    cuts = sorted(rng.sample(range(1, 4), rng.randint(0, 3)))
    for a, b in zip([0] + cuts, cuts + [4]):
      ops.append({'op': 'add', 'h': 'p', 'new': bags[a:b]})
    if dn % 2:
      ops.append({'op': 'open', 'h': 'p', 'dir': 'A'})
    for r in range(1, 5):
      for sub in itertools.combinations(range(4), r):
        for wad in (False, True):
          s = [names[i] for i in sub]
          rng.shuffle(s)
          ops.append({'op': 'minimal', 'h': 'p', 'names': s, 'wad': wad})
          if len(sub) == 1:
            ops.append({'op': 'load', 'h': 'p', 'names': s, 'wad': wad})
            if dn % 4 == 3:
              ops.append({'op': 'cache', 'what': rng.choice(['clear', 'off', 'on', '150'])})
        ops.append({'op': 'sort', 'h': 'p', 'names': [names[i] for i in sub]})
    jobs.append({'ops': ops})
  ctx.extra['dags_enumerated'] = len(dags)
  for _ in range(ctx.pick(150, 1500)):
    jobs.append(B.random_job(rng, n=rng.randint(10, 30), copies=False,
                             kinds=['add'] * 5 + ['open', 'load', 'load', 'minimal', 'minimal', 'minimal', 'sort', 'meta', 'names', 'cache']))
  tr = ctx.drive('bagstore.py', {'jobs': jobs, 'disk_every': 25}, env=env, timeout=600)
  ctx.require('BagStoreTrace', tr)
  E = lambda op, r='ok', **k: dict({'op': op, 'h': 'p', 'dir': 'A', 'names': [], 'wad': False, 'new': [], 'r': r}, **k)
  ctx.control('BagStoreTrace', {'ev': [
      E('create'), E('add', new=[B.bag('a', [], [('x', 1)]), B.bag('b', ['a'], [('x', 2)]), B.bag('c', [], [('x', 3)])]),
      E('minimal', names=['b'], v=[['x', 2]]), E('minimal', names=['b'], wad=True, v=[['x', 3]])]}, 3)
