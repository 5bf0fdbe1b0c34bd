"""Exercises data slice paths: printing, parsing, schema walks, generation."""
import base64
import itertools
import json
import sys

import storage_env as E
from storage_env import kd
from koladata.ext.storage import data_slice_path as dsp

P = dsp.DataSlicePath


def enc(p):
  res = []
  for a in p.actions:
    if isinstance(a, dsp.GetAttr):
      n = a.attr_name
      res.append({'a': 'attr', 'n': list(n), 'u': list(n.encode('utf-8', 'surrogatepass')), 'i': n.isidentifier()})
    else:
      k = {dsp.DictGetKeys: 'keys', dsp.DictGetValues: 'values', dsp.ListExplode: 'explode'}[type(a)]
      res.append({'a': k, 'n': [], 'u': [], 'i': False})
  return res


def act(x):
  return {'keys': dsp.DictGetKeys, 'values': dsp.DictGetValues, 'explode': dsp.ListExplode}[x[0]]() \
      if x[0] != 'attr' else dsp.GetAttr(x[1])


def mk(p):
  return P.from_actions([act(x) for x in p])


def pairs(p):
  return [[e['a'], ''.join(e['n'])] for e in enc(p)]


def odd(w):
  """Does w quote base64 text whose reading is not fixed by the contract?"""
  i = 0
  while True:
    i = w.find('.get_attr(', i)
    if i < 0:
      return False
    i += len('.get_attr(')
    if i >= len(w) or w[i] not in '"\'':
      continue
    t = w[i + 1:].split(w[i])[0]
    try:
      n = base64.b64decode(t, validate=True)
      if base64.b64encode(n).decode() != t:
        return True
      n.decode()
    except ValueError:
      return True


def do_str(p):
  ev = []
  path = mk(p)
  e = {'op': 'str', 'p': enc(path), 'r': 'ok', 'w': []}
  try:
    e['w'] = list(path.to_string())
    if str(path) != path.to_string():
      e['r'] = 'str differs'
  except Exception as x:  # pylint: disable=broad-except
    e['r'] = repr(x)
  ev.append(e)
  b = {'op': 'back', 'p': enc(path), 'q': [], 'r': 'ok'}
  try:
    q = P.parse_from_string(path.to_string())
    b['q'] = enc(q)
    if q != path or hash(q) != hash(path):
      b['r'] = 'not equal'
  except Exception as x:  # pylint: disable=broad-except
    b['r'] = repr(x)
  ev.append(b)
  return ev


def do_parse(w):
  e = {'op': 'parse', 'w': list(w), 'p': [], 'r': 'ok', 'odd': odd(w)}
  try:
    e['p'] = enc(P.parse_from_string(w))
  except ValueError:
    e['r'] = 'error'
  except Exception as x:  # pylint: disable=broad-except
    e['r'] = repr(x)
  return [e]


def build(g):
  """g: node -> {'k','e','n'}; returns node -> schema item (with full bag)."""
  refs = {}

  def ref(x, busy=()):
    if x in refs:
      return refs[x]
    d = g[x]
    if d['k'] == 'prim':
      r = getattr(kd, d['n'])
    elif d['k'] == 'ent':
      r = kd.named_schema('N' + x)
    elif d['k'] == 'list':
      r = kd.list_schema(ref(d['e'][0]))
    else:
      r = kd.dict_schema(ref(d['e'][0]), ref(d['e'][1]))
    refs[x] = r
    return r
  for x in g:
    ref(x)
  bags = [r.get_bag() for x, r in refs.items() if r.get_bag() is not None]
  for x, d in g.items():
    if d['k'] == 'ent' and d['e']:
      bags.append(kd.attrs(refs[x], **{n: refs[y] for n, y in zip(d['n'], d['e'])}))
  big = kd.bags.updated(*bags) if bags else None
  return {x: (r.with_bag(big) if g[x]['k'] != 'prim' else r) for x, r in refs.items()}


def do_schema(job):
  g = job['g']
  sc = build(g)
  ev = []
  for d in job['depths']:
    e = {'op': 'paths', 'g': tla(g), 'x': job['x'], 'd': d, 'v': [], 'r': 'ok'}
    try:
      e['v'] = [pairs(p) for p in itertools.islice(
          dsp.generate_data_slice_paths_for_arbitrary_data_slice_with_schema(sc[job['x']], d), 3000)]
    except Exception as x:  # pylint: disable=broad-except
      e['r'] = repr(x)
    ev.append(e)
  for p in job['subs']:
    e = {'op': 'sub', 'g': tla(g), 'x': job['x'], 'p': p, 'y': [], 'r': 'ok'}
    s = sc[job['x']]
    try:
      for a in mk(p).actions:
        s = a.get_subschema(s)
      e['y'] = [n for n in g if (s == sc[n])]
    except dsp.IncompatibleSchemaError:
      e['r'] = 'error'
    except Exception as x:  # pylint: disable=broad-except
      e['r'] = repr(x)
    ev.append(e)
  return ev


def tla(g):
  return {x: {'k': d['k'], 'e': d['e'], 'n': d['n'] if d['k'] == 'ent' else []} for x, d in g.items()}


def do_alg(p, q):
  a, b = mk(p), mk(q)
  z = ['attr', 'zz']
  e = {'op': 'alg', 'p': p, 'q': q, 'z': z, 'r': 'ok', 'cat': pairs(a.concat(b)), 'dep': a.depth,
       'ext': pairs(a.extended_with_action(act(z))), 'eq': a == b}
  return [e]


def main():
  with open(sys.argv[1]) as f:
    arg = json.load(f)
  out = []
  for j in arg:
    k = j[0]
    out.append({'ev': {'str': do_str, 'parse': do_parse, 'schema': do_schema, 'alg': do_alg}[k](*j[1:])})
  with open(sys.argv[2], 'w') as f:
    json.dump(out, f)


main()
