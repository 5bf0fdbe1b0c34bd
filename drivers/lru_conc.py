"""Runs concurrent scenarios on the real cache under systematic schedules."""
import json
import os
import random
import sys

import coop
coop.install()

from koladata.ext.storage import lru_size_tracking_cache as lru

TARGET = os.path.dirname(os.path.abspath(lru.__file__))


class Val:

  def __init__(self, i):
    self.i = i


def call(c, o, vals, default):
  def enc(v):
    return -1 if v is default else v.i if isinstance(v, Val) else -77
  k = o['k']
  if o['op'] == 'get':
    return enc(c.get(k, default))
  if o['op'] == 'set':
    return enc(c.set(k, vals[o['v']], lru.CacheEntryMetadata(num_bytes_estimate=o['n'])))
  if o['op'] == 'remove':
    c.remove(k)
    return 0
  if o['op'] == 'clear':
    c.clear()
    return 0
  if o['op'] == 'set_max':
    c.set_max_total_bytes_of_entries_in_cache(o['n'])
    return 0
  if o['op'] == 'total':
    return c.get_total_bytes_of_entries_in_cache()
  return c.get_max_total_bytes_of_entries_in_cache()


def scenario(sc, limit, preempt, rng):
  vals = {}
  for th in [sc['pre'], *sc['threads'], sc['post']]:
    for o in th:
      vals.setdefault(o['v'], Val(o['v']))
  seen = set()
  out = []
  runs = 0

  def make():
    default = object()
    hist = []
    c = lru.LruSizeTrackingCache(max_total_bytes_of_entries_in_cache=sc['max'])

    def one(th, o):
      hist.append(dict(o, e='inv', th=th))
      try:
        r = call(c, o, vals, default)
      except Exception as ex:  # pylint: disable=broad-except
        hist.append({'e': 'error', 'th': th, 'r': repr(ex)})
        return
      hist.append({'e': 'res', 'th': th, 'r': r})

    for o in sc['pre']:
      one(9, o)

    def body(i):
      def f():
        for o in sc['threads'][i]:
          one(i + 1, o)
      return f

    return [body(i) for i in range(len(sc['threads']))], (hist, one)

  for r, (hist, one) in coop.explore(make, TARGET, preempt, limit, rng):
    runs += 1
    if r.deadlock:
      hist.append({'e': 'deadlock', 'th': 0, 'r': 0})
    elif any(r.errors):
      hist.append({'e': 'error', 'th': 0, 'r': repr(r.errors)})
    else:
      for o in sc['post']:
        one(9, o)
    key = json.dumps(hist)
    if key not in seen:
      seen.add(key)
      out.append({'max': sc['max'], 'ev': hist})
  return out, runs


def main():
  with open(sys.argv[1]) as f:
    arg = json.load(f)
  rng = random.Random(arg['seed'])
  out, runs = [], 0
  for sc in arg['scenarios']:
    o, n = scenario(sc, arg['limit'], arg['preempt'], rng)
    out += o
    runs += n
  with open(sys.argv[2], 'w') as f:
    json.dump({'traces': out, 'runs': runs}, f)


main()
