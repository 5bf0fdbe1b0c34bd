"""C14: data slice paths are read back exactly as written and walk schemas."""
import random
import bagstore_common as B

LEVEL = 'model_checking'
NAMES = ['a', 'b', 'foo', 'get_keys', 'get_attr', '', ' ', 'a.b', 'a[:]', '[:]', '.', '"', "'", 'x"y', '()', 'get_keys()',
         'a b', '1x', '_', 'é', '名', 'naïve', 'a\nb', '\x00', '𝒳', '😀', 'get_attr("YQ==")', 'class', 'ﬁ', 'a=', '==', '?>~', '%%%']


def rpath(rng, n=5):
  r = []
  for _ in range(rng.randint(0, n)):
    k = rng.choice(['keys', 'values', 'explode', 'attr', 'attr', 'attr'])
    r.append([k, rng.choice(NAMES) if k == 'attr' and rng.random() < .8 else
              ''.join(rng.choice('ab1_.[:]"\'é ()=') for _ in range(rng.randint(0, 6))) if k == 'attr' else ''])
  return r


def rgraph(rng):
  n = rng.randint(1, 6)
  ents = ['E%d' % i for i in range(rng.randint(1, 3))]
  nodes = {'I': {'k': 'prim', 'e': [], 'n': 'INT32'}, 'S': {'k': 'prim', 'e': [], 'n': 'STRING'}}
  for e in ents:
    nodes[e] = {'k': 'ent', 'e': [], 'n': []}
  for i in range(n):
    x = 'L%d' % i
    base = sorted(nodes)
    if rng.random() < .5:
      nodes[x] = {'k': 'list', 'e': [rng.choice(base)], 'n': ''}
    else:
      nodes[x] = {'k': 'dict', 'e': [rng.choice(['I', 'S']), rng.choice(base)], 'n': ''}
  for e in ents:
    attrs = sorted(rng.sample(['a', 'b', 'c', 'x y', 'get_keys', 'items', '名'], rng.randint(0, 3)))
    nodes[e] = {'k': 'ent', 'e': [rng.choice(sorted(nodes)) for _ in attrs], 'n': attrs}
  return nodes


def walk(rng, g, x, n):
  p = []
  for _ in range(n):
    d = g[x]
    opts = ([] if d['k'] == 'prim' else [(['explode', ''], d['e'][0])] if d['k'] == 'list'
            else [(['keys', ''], d['e'][0]), (['values', ''], d['e'][1])] if d['k'] == 'dict'
            else [(['attr', n], y) for n, y in zip(d['n'], d['e'])])
    if rng.random() < .12 or not opts:
      p.append(rng.choice([['explode', ''], ['keys', ''], ['values', ''], ['attr', 'a'], ['attr', '__items__']]))
      break
    a, x = rng.choice(opts)
    p.append(a)
  return p


def check(ctx):
  rng = random.Random(ctx.seed)
  env = B.env(ctx)
  ctx.model_check('SlicePathMC', 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS Readable Deterministic\nCONSTANTS\nGen=FALSE\nDepth=%d\n' % ctx.pick(3, 4))
  g = ctx.generate('SlicePathMC', 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nACTION_CONSTRAINT Emit\nCONSTANTS\nGen=TRUE\nDepth=%d\n' % ctx.pick(3, 4))
  strings = sorted({''.join(x) for x in g})
  toks = ['.get_keys()', '.get_values()', '[:]', '.a', '.get_attr("', ".get_attr('", 'YQ==', '")', "')", 'Yi5j', '.', 'b1',
          '1', '()', '.get_attr', '[', '=', '.get_attr("YS5i")', '.get_attr(\'\')', ' ', 'get_keys()', '[:]']
  for _ in range(ctx.pick(3000, 20000)):
    strings.append(''.join(rng.choice(toks) for _ in range(rng.randint(2, 8))))
  jobs = [['parse', w] for w in strings]
  jobs += [['str', [['attr', n]]] for n in NAMES]
  jobs += [['str', rpath(rng)] for _ in range(ctx.pick(1500, 10000))]
  for _ in range(ctx.pick(300, 2000)):
    p = rpath(rng)
    jobs.append(['alg', p, rpath(rng) if rng.random() < .7 else list(p)])
  for _ in range(ctx.pick(150, 1200)):
    gr = rgraph(rng)
    x = rng.choice(sorted(gr))
    jobs.append(['schema', {'g': gr, 'x': x, 'depths': [0, 1, rng.randint(2, 4)],
                            'subs': [walk(rng, gr, x, rng.randint(0, 6)) for _ in range(8)]}])
  tr = ctx.drive('slicepath.py', jobs, env=env)
  ctx.require('SlicePathTrace', tr)
  ctx.control('SlicePathTrace', {'ev': [{'op': 'parse', 'w': list('.a.'), 'p': [{'a': 'attr', 'n': ['a'], 'u': [97], 'i': True}],
                                         'r': 'ok', 'odd': False}]}, 0)
