"""Shared by C10-C13."""
import random

BASE = 'INIT Init\nNEXT Next\nVIEW View\nCHECK_DEADLOCK FALSE\n'
PROTOS = ['py/koladata/ext/storage/data_bag_manager_metadata.proto',
          'py/koladata/ext/storage/data_slice_manager_metadata.proto',
          'py/koladata/ext/storage/composite_initial_data_manager_metadata.proto']


def env(ctx):
  p = ctx.gen_protos(*PROTOS)
  return {'VERIF_GEN': p[0]}


def model(ctx, q=4, t=5):
  ctx.model_check('BagStoreMC', BASE + 'INVARIANTS Inv Steps\nCONSTANTS\nGen=FALSE\nFaults=TRUE\nDepth=%d\n'
                  % ctx.pick(q, t), workers=1)


def gen(ctx, q=4, t=4):
  return ctx.generate('BagStoreMC', BASE + 'ACTION_CONSTRAINT Emit\nCONSTANTS\nGen=TRUE\nFaults=FALSE\nDepth=%d\n'
                      % ctx.pick(q, t))


NAMES = ['', 'a', 'b', 'c', 'dd', 'e e', 'f/1', 'g', 'é']


def bag(n, d=(), c=(), m=''):
  return {'n': n, 'd': list(d), 'c': [{'k': k, 'v': v} for k, v in c], 'm': m}


class Rnd:
  def __init__(self, rng):
    self.rng, self.v = rng, 0

  def val(self):
    self.v += 1
    return self.v

  def bag(self, have, sloppy=.06):
    """A new bag for a manager believed to have the names `have`."""
    r = self.rng
    pool = [n for n in NAMES + ['h%d' % i for i in range(60)] if n not in have]
    n = r.choice(sorted(have)) if have and r.random() < sloppy else r.choice(pool[:6])
    deps = r.sample(sorted(have), r.randint(0, min(3, len(have)))) if have else []
    if r.random() < sloppy:
      deps.append(r.choice(NAMES))
    c = [(r.choice('xyzw'), self.val()) for _ in range(r.choice([0, 1, 1, 2, 3]))]
    return bag(n, deps, c, r.choice(['', '', 'm%d' % self.val()]))

  def news(self, have):
    have = set(have)
    res = []
    for _ in range(self.rng.choice([0, 1, 1, 1, 2, 3])):
      b = self.bag(have)
      have.add(b['n'])
      res.append(b)
    return res, have


def random_job(rng, *, n=12, dirs='AB', hs='pq', kinds=None, copies=True):
  R = Rnd(rng)
  ops, have = [], {}
  ops.append({'op': 'create', 'h': hs[0], 'dir': dirs[0]})
  have[hs[0]] = set()
  dn = {dirs[0]: set()}
  for _ in range(n):
    k = rng.choice(kinds or (['add'] * 5 + ['open'] * 2 + ['load', 'minimal', 'minimal', 'meta', 'sort', 'names', 'cache']
                             + (['branch', 'extract', 'create'] if copies else [])))
    h = rng.choice(sorted(have))
    sub = rng.sample(sorted(have[h]), rng.randint(0, min(3, len(have[h]))))
    if rng.random() < .04:
      sub = sub + [rng.choice(NAMES)]
    if k == 'sort':
      sub = [x for x in sub if x in have[h]]
    o = {'op': k, 'h': h, 'names': sub, 'wad': rng.random() < .4}
    if k == 'add':
      o['new'], nh = R.news(have[h])
      have[h] = nh
    elif k in ('create', 'open'):
      o['h'] = rng.choice(hs)
      o['dir'] = rng.choice(dirs)
      have.setdefault(o['h'], set())
      have[o['h']] = set().union(*have.values()) if k == 'open' else have[o['h']]
    elif k == 'cache':
      o['what'] = rng.choice(['clear', 'off', 'on', '0', '200', '1000000'])
    elif k in ('branch', 'extract'):
      o['dir'] = rng.choice(dirs)
    ops.append(o)
  return {'ops': ops}
