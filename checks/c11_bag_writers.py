"""C11: concurrent writers of one bag directory never overwrite each other."""
import random
import bagstore_common as B

LEVEL = 'model_checking'


def check(ctx):
  rng = random.Random(ctx.seed)
  B.model(ctx)
  env = B.env(ctx)
  cr = lambda h, d: {'op': 'create', 'h': h, 'dir': d}
  op = lambda h, d: {'op': 'open', 'h': h, 'dir': d}
  ad = lambda h, *b: {'op': 'add', 'h': h, 'new': list(b)}
  nm = lambda h: {'op': 'names', 'h': h}
  ld = lambda h, *n: {'op': 'load', 'h': h, 'names': list(n), 'wad': False}
  br = lambda h, d, *n: {'op': 'branch', 'h': h, 'dir': d, 'names': list(n), 'wad': True}
  a, b, c, d = (B.bag('a', [], [('x', 1)]), B.bag('b', ['a'], [('x', 2)]),
                B.bag('c', ['a'], [('x', 3), ('y', 4)]), B.bag('d', [], [('z', 5)]))
  pre = [cr('p', 'A'), ad('p', a), op('q', 'A'), op('r', 'A')]
  post = [ad('p', B.bag('u', [], [('w', 7)])), ad('q', B.bag('v', [], [('w', 8)])), nm('p'), nm('q')]
  S = lambda pre, tasks, post=post, dirs=('A',): {'pre': pre, 'tasks': tasks, 'post': post, 'dirs': list(dirs)}
  sc = [
      S(pre, [[ad('p', b)], [ad('q', c)]]),
      S(pre, [[ad('p', b, d)], [ad('q', b)]]),
      S(pre, [[ad('p', b)], [op('s', 'A'), nm('s'), ld('s', 'a'), ad('s', c)]]),
      S(pre, [[ad('p', b), ad('p', d)], [ad('q', c), op('q', 'A'), ad('q', B.bag('e', [], []))]]),
      S(pre, [[ad('p')], [ad('q', c)]]),
      S([], [[cr('p', 'A'), ad('p', a)], [cr('q', 'A'), ad('q', d)]]),
      S([], [[cr('p', 'A'), ad('p', a)], [op('q', 'A'), nm('q'), ad('q', d)]]),
      S(pre, [[br('p', 'B', 'a')], [br('q', 'B', 'a')]], dirs='AB'),
      S(pre, [[br('p', 'B', 'a')], [cr('q', 'B'), ad('q', d)]], dirs='AB'),
      S(pre, [[ad('p', b)], [br('q', 'B', 'a'), op('s', 'B'), ad('s', b)]], dirs='AB'),
      S(pre, [[ad('p', b)], [ad('q', c)], [ad('r', d)]]),
      S(pre, [[ad('p', b)], [ad('q', c), op('q', 'A'), ad('q', d)], [op('r', 'A'), nm('r'), ad('r', B.bag('f'))]]),
      S([], [[cr('p', 'A')], [cr('q', 'A')], [op('r', 'A'), nm('r')]]),
  ]
  r = ctx.drive('bagstore_conc.py', {'seed': ctx.seed, 'scenarios': sc, 'random': ctx.pick(25, 400),
                                     'limit': ctx.pick(170, 2000)}, env=env, timeout=700)
  ctx.extra['schedules_executed'] = r['runs']
  ctx.log(r['runs'], 'schedules executed,', len(r['traces']), 'distinct histories')
  ctx.require('BagStoreLin', r['traces'])
  i = lambda th, o: dict({'h': '', 'dir': '', 'names': [], 'wad': False, 'new': []}, e='inv', th=th, **o)
  q = lambda th, o, r, v=(): {'e': 'res', 'th': th, 'op': o, 'r': r, 'v': list(v)}
  ctx.control('BagStoreLin', {'ev': [
      i(9, cr('p', 'A')), q(9, 'create', 'ok'), i(9, op('q', 'A')), q(9, 'open', 'ok'),
      i(1, ad('p', a)), i(2, ad('q', d)), q(1, 'add', 'ok'), q(2, 'add', 'ok')]}, 7)
