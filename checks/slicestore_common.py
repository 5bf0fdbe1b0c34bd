"""Jobs for the data slice store checks."""
import bagstore_common as B

U = {'root': {'k': 'ent', 'e': []}, 'Q': {'k': 'ent', 'e': []}, 'D': {'k': 'ent', 'e': []},
     'I': {'k': 'prim', 'e': []}, 'S': {'k': 'prim', 'e': []},
     'LQ': {'k': 'list', 'e': ['Q']}, 'LD': {'k': 'list', 'e': ['D']}, 'LI': {'k': 'list', 'e': ['I']},
     'LLI': {'k': 'list', 'e': ['LI']}, 'MI': {'k': 'dict', 'e': ['S', 'I']}, 'MQ': {'k': 'dict', 'e': ['S', 'Q']},
     'KQ': {'k': 'dict', 'e': ['Q', 'I']}}
# attributes of entity types other than the root have fixed types
T = {'Q': {'a': 'I', 's': 'S', 'd': 'D', 'ds': 'LD', 'm': 'MI', 'q': 'Q', 'li': 'LI', 'mq': 'MQ'},
     'D': {'b': 'I', 't': 'S', 'q': 'Q', 'k': 'KQ', 'll': 'LLI', 'g h': 'I'}}
ROOT = ['x', 'y', 'z', 'a b', 'get_keys']
A = lambda n: {'a': 'attr', 'n': n}
STEP = {'list': [{'a': 'explode', 'n': ''}], 'dict': [{'a': 'keys', 'n': ''}, {'a': 'values', 'n': ''}]}


class Gen:
  """Random update values; mirrors the schema to aim at paths that exist."""

  def __init__(self, rng, few=3):
    self.rng, self.n, self.few = rng, 0, few
    self.made = {}

  def prim(self, t):
    self.n += 1
    return 'i:%d' % self.n if t == 'I' else 's:v%d' % self.n

  def tok(self, t):
    if U[t]['k'] == 'prim':
      return self.prim(t)
    return '%s:%d' % (t, self.rng.randint(1, self.few))

  def fill(self, t, tok, f, decl, depth, seen):
    """Adds facts about tok (of type t) and what it refers to."""
    r = self.rng
    if tok in seen or tok == '' or U[t]['k'] == 'prim':
      return
    seen.add(tok)
    if U[t]['k'] == 'ent':
      have = [a for (n, a, _) in decl if n == t]
      for a in sorted(set(have)):
        ct = T[t][a]
        x = r.random()
        if x < .2:
          continue                       # no information
        v = '' if x < .26 else self.tok(ct)
        f['c'].append({'e': tok, 'a': a, 'v': v})
        self.fill(ct, v, f, decl, depth - 1, seen)
    elif U[t]['k'] == 'list':
      if r.random() < .06:
        return
      vs = [self.tok(U[t]['e'][0]) if r.random() < .93 else '' for _ in range(r.choice([0, 1, 1, 2, 3]))]
      f['l'].append({'n': tok, 'v': vs})
      for v in vs:
        self.fill(U[t]['e'][0], v, f, decl, depth - 1, seen)
    else:
      kt, vt = U[t]['e']
      ks = {}
      for _ in range(r.choice([0, 1, 1, 2])):
        k = self.tok(kt) if kt != 'S' else 's:' + r.choice('kl')
        ks[k] = self.tok(vt)
      for k, v in ks.items():
        f['d'].append({'n': tok, 'k': k, 'v': v})
        self.fill(kt, k, f, decl, depth - 1, seen)
        self.fill(vt, v, f, decl, depth - 1, seen)

  def declare(self, vt):
    """A declared schema reachable from vt: triples."""
    r = self.rng
    decl, todo, seen = [], [vt], set()
    while todo:
      n = todo.pop()
      if n in seen:
        continue
      seen.add(n)
      todo += U[n]['e']
      if n in T:
        for a in r.sample(sorted(T[n]), r.choice([0, 1, 2, 3])):
          decl.append([n, a, T[n][a]])
          todo.append(T[n][a])
    return decl

  def value(self, vt, ents):
    r = self.rng
    decl = self.declare(vt)
    f = {'c': [], 'l': [], 'd': []}
    seen = set()
    if r.random() < .4 or not ents:
      v = self.tok(vt)
      self.fill(vt, v, f, decl, 4, seen)
      return {'vt': vt, 'const': v, 'vals': [], 'f': f, 'decl': decl}
    vals = []
    for e in ents:
      if r.random() < .85:
        v = self.tok(vt)
        vals.append({'e': e, 'v': v})
    for x in vals:
      self.fill(vt, x['v'], f, decl, 4, seen)
    return {'vt': vt, 'const': '', 'vals': vals, 'f': f, 'decl': decl}


class Sch:
  """The generator's idea of a schema (only used to aim)."""

  def __init__(self, t=None):
    self.t = {k: dict(v) for k, v in t.items()} if t else {'root': {}}

  def copy(self):
    return Sch(self.t)

  def steps(self, n):
    if U[n]['k'] == 'ent':
      return [(A(a), c) for a, c in sorted(self.t.get(n, {}).items())]
    if U[n]['k'] == 'prim':
      return []
    return [(s, U[n]['e'][min(i, len(U[n]['e']) - 1)]) for i, s in enumerate(STEP[U[n]['k']])]

  def walk(self, rng, n='root', stop=.3, maxd=5):
    p = []
    while len(p) < maxd and rng.random() > stop:
      st = self.steps(n)
      if not st:
        break
      s, n = rng.choice(st)
      p.append(s)
    return p, n

  def note(self, n, o):
    self.t.setdefault(n, {})[o['attr']] = o['vt']
    for a, b, c in o['decl']:
      self.t.setdefault(a, {})[b] = c


def update(rng, G, sch, h, bad=.04, vt=None):
  for _ in range(20):
    p, n = sch.walk(rng, stop=rng.choice([.15, .3, .6]))
    if U[n]['k'] == 'ent' and (n == 'root' or n in T):
      break
  else:
    p, n = [], 'root'
  if rng.random() < bad:
    p = p + [rng.choice([A('nope'), STEP['list'][0], STEP['dict'][0]])]
    if n == 'root':
      n = 'Q'
  if n == 'root':
    attr = rng.choice(ROOT)
    vt = vt or rng.choice([x for x in U if x != 'root'])
  else:
    attr = rng.choice(sorted(T[n]))
    vt = T[n][attr]
  ents = ['root'] if n == 'root' else ['%s:%d' % (n, i) for i in range(1, G.few + 1)]
  o = {'op': 'update', 'h': h, 'path': p, 'attr': attr, 'desc': rng.choice(['', 'd%d' % rng.randint(0, 9)])}
  o.update(G.value(vt, ents))
  if rng.random() < bad:
    o['bad'], o['badkind'] = True, rng.choice(['obj', 'schema', 'objlist'])
  return o, n


def reads(rng, sch, h):
  k = rng.choice(['get', 'get', 'get', 'at', 'at', 'exists', 'paths', 'schema', 'history'])
  o = {'op': k, 'h': h}

  def path(bad=.04):
    p, _ = sch.walk(rng, stop=rng.choice([.1, .3]))
    if rng.random() < bad:
      p = p + [rng.choice([A('nope'), STEP['list'][0], STEP['dict'][1]])]
    return p
  if k == 'get':
    o['pop'] = [path() for _ in range(rng.choice([0, 1, 1, 2]))]
    o['dpop'] = [path() for _ in range(rng.choice([0, 0, 1, 1, 2]))]
    o['depth'] = rng.choice([1, 2, 3])
  elif k == 'at':
    o.update(path=path(), flag=rng.random() < .5, depth=rng.choice([1, 2, 3]))
  elif k == 'exists':
    o['path'] = path(.4)
  elif k == 'paths':
    o['depth'] = rng.choice([0, 1, 2, 3])
  return o


def random_job(rng, n, *, dirs='A', hs='p', few=3, p_read=.4, kinds=()):
  """kinds: extra operations among open, branch, rocopy, setro, create, cache."""
  G = Gen(rng, few)
  ops = [{'op': 'create', 'h': hs[0], 'dir': dirs[0], 'desc': 'c'}]
  sch = {hs[0]: Sch()}
  dsch = {dirs[0]: sch[hs[0]]}
  auto = 0
  for _ in range(n):
    h = rng.choice(sorted(sch))
    x = rng.random()
    if x < p_read:
      ops.append(reads(rng, sch[h], h))
    elif x < p_read + .25 and kinds:
      k = rng.choice(kinds)
      o = {'op': k, 'h': h}
      if k == 'open':
        o.update(h=rng.choice(hs), dir=rng.choice(sorted(dsch) + ([rng.choice(dirs)] if rng.random() < .1 else [])),
                 idx=rng.choice([-1, -1, -1, 0, 1, 2, 7]), ro=rng.random() < .2)
        sch[o['h']] = dsch.get(o['dir'], Sch()).copy()
      elif k == 'create':
        o.update(h=rng.choice(hs), dir=rng.choice(dirs), desc='again')
        sch.setdefault(o['h'], Sch())
      elif k == 'branch':
        o.update(h2=rng.choice(hs), dir=rng.choice(dirs), idx=rng.choice([-1, -1, -1, -2, 0, 1, 5, -9]),
                 desc=rng.choice(['', 'b']), passfs=rng.random() < .3)
        if rng.random() < .4:
          auto += 1
          o.update(auto=True, dir='auto%d' % auto)
        sch[o['h2']] = sch[h].copy()
        dsch.setdefault(o['dir'], sch[o['h2']])
      elif k == 'rocopy':
        o['h2'] = rng.choice(hs)
        sch[o['h2']] = sch[h].copy()
      elif k == 'cache':
        o['what'] = rng.choice(['clear', '0', '300', '1000000'])
      ops.append(o)
    else:
      o, node = update(rng, G, sch[h], h)
      ops.append(o)
      if not o.get('bad') and node:
        sch[h].note(node, o)
  return {'ops': ops}


def env(ctx):
  return B.env(ctx)


BASE = 'INIT Init\nNEXT Next\nVIEW View\nCHECK_DEADLOCK FALSE\n'


def model(ctx, q=3, t=4):
  ctx.model_check('SliceStoreMC', BASE + 'INVARIANTS Inv Props\nCONSTANTS\nGen=FALSE\nFaults=TRUE\nDepth=%d\n'
                  % ctx.pick(q, t), workers=1)


def gen(ctx, q=4, t=4):
  return ctx.generate('SliceStoreMC', BASE + 'ACTION_CONSTRAINT Emit\nCONSTANTS\nGen=TRUE\nFaults=FALSE\nDepth=%d\n'
                      % ctx.pick(q, t))


def negative(ctx, at=3):
  """A trace that the specification must reject."""
  f = {'c': [], 'l': [], 'd': []}
  E = lambda op, **k: dict({'op': op, 'h': 'p', 'h2': '', 'dir': 'A', 'idx': -1, 'ro': False, 'path': [], 'ptext': '', 'attr': '',
                            'vt': '', 'const': '', 'vals': [], 'f': f, 'decl': [], 'desc': '', 'pop': [], 'dpop': [], 'depth': 0,
                            'flag': False, 'bad': False, 'v': {'c': [], 'l': [], 'k': [], 'v': []}, 'q': [], 'b': False, 'ps': [],
                            'ts': [], 'hs': [], 'r': 'ok'}, **k)
  ctx.control('SliceStoreTrace', {'u': U, 'ev': [
      E('create'), E('update', attr='x', vt='I', const='i:1'), E('update', attr='x', vt='I', const='i:2'),
      E('at', path=[A('x')], q=['i:1'])]}, at)
