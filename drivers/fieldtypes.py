"""Asks the real dataclasses_util about types built from specification terms."""
import dataclasses
import json
import sys
import types
import typing
from collections.abc import Mapping, Sequence

from koladata.base.py_conversions import dataclasses_util as du

PRIM = {1: int, 2: str}


@dataclasses.dataclass
class D1:
  x: int
  y: 'D2 | None'


@dataclasses.dataclass
class D2:
  x: list[D1]
  y: typing.Any


DC = {1: D1, 2: D2}


TYPING = False  # use the typing aliases for abstract collections


def build(t, n=0):
  k = t['k']
  if k == 'prim':
    return PRIM[t['i']]
  if k == 'any':
    return typing.Any
  if k == 'none':
    return types.NoneType
  if k == 'ns':
    return types.SimpleNamespace
  if k == 'dc':
    return DC[t['i']]
  if k == 'absent':
    return None
  a = [build(x, n) for x in t['args']]
  if k == 'union':
    if n % 2:
      r = a[0]
      for x in a[1:]:
        r = r | x
      return r
    return typing.Union[tuple(a)]
  if k == 'list':
    return list[a[0]]
  if k == 'set':
    return set[a[0]]
  if k == 'seq':
    return Sequence[a[0]] if n % 2 or not TYPING else typing.Sequence[a[0]]
  if k == 'tup':
    return tuple[a[0], ...] if t['ell'] else tuple[a[0], a[1]]
  if k == 'dict':
    return dict[a[0], a[1]]
  if k == 'map':
    return Mapping[a[0], a[1]] if n % 2 or not TYPING else typing.Mapping[a[0], a[1]]
  raise AssertionError(k)


BAD = {'ok': False, 'absent': False, 'opt': False, 't': {'k': '-'}}


def enc(r, terms):
  """Maps the answer back to a term, by equality with candidate types."""
  if r is None:
    return {'ok': True, 'absent': True, 'opt': False, 't': {'k': '-'}}
  t, opt = r
  if t is None:
    return {'ok': True, 'absent': False, 'opt': opt, 't': {'k': 'unknown'}}
  for term, ty in terms:
    if ty is t or ty == t:
      return {'ok': True, 'absent': False, 'opt': opt, 't': term}
  return {'ok': True, 'absent': False, 'opt': opt, 't': {'k': 'other ' + repr(t)}}


def subterms(t):
  yield t
  for a in t.get('args', []):
    yield from subterms(a)


def ask(f, terms):
  try:
    return enc(f(), terms)
  except ValueError:
    return BAD
  except Exception as e:  # pylint: disable=broad-except
    return {'ok': True, 'absent': False, 'opt': False, 't': {'k': 'raised ' + repr(e)[:100]}}


def main():
  with open(sys.argv[1]) as f:
    arg = json.load(f)
  out = []
  cache = {}
  base = [{'k': 'prim', 'i': 1}, {'k': 'dc', 'i': 1}, {'k': 'dc', 'i': 2},
          {'k': 'list', 'args': [{'k': 'dc', 'i': 1}]}]
  keep = []
  for n, q in enumerate(arg):
    t = q['t']
    global TYPING
    TYPING = q['op'] != 'field'
    terms = [(s, build(s, n)) for s in subterms(t)] + [(s, build(s, n)) for s in base]
    ty = build(t, n)
    if q['op'] == 'decay':
      f1 = f2 = lambda: du.maybe_decay_optional(ty)
    else:
      obj = ty
      if q['op'] == 'field':
        obj = dataclasses.make_dataclass('Tmp', [('x', ty), ('y', int)])
        keep.append(obj)
        if len(keep) > 50:
          keep.pop(0)
      if len(cache) > 2000:
        cache.clear()
      f1 = lambda: du.get_class_field_type(obj, q['attr'], q['prim'], {})
      f2 = lambda: du.get_class_field_type(obj, q['attr'], q['prim'], cache)
    a = ask(f1, terms)
    ask(f2, terms)
    b = ask(f2, terms)
    out.append(dict(q, r1=a, r2=b))
  with open(sys.argv[2], 'w') as f:
    json.dump([{'ev': out[i:i + 40]} for i in range(0, len(out), 40)], f)


main()
