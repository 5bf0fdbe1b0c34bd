"""Runs operation sequences on the real LruSizeTrackingCache and records results."""
import json
import sys

from koladata.ext.storage import lru_size_tracking_cache as lru

MISS = -1


class Val:
  """Values with identity; equality must never be used by the cache."""

  def __init__(self, i):
    self.i = i

  def __eq__(self, other):
    raise AssertionError('values compared')

  __hash__ = None


class Key:
  """Keys that are equal but not identical."""

  def __init__(self, k):
    self.k = k

  def __eq__(self, o):
    return isinstance(o, Key) and o.k == self.k

  def __hash__(self):
    return hash(self.k % 2)


def run(mx, ops, vals):
  c = lru.LruSizeTrackingCache(max_total_bytes_of_entries_in_cache=mx)
  default = object()

  def enc(v):
    if v is default:
      return MISS
    if v is None:
      return 0
    if isinstance(v, Val):
      return v.i
    return -77

  ev = []

  def one(o):
    k = Key(o['k'])
    try:
      if o['op'] == 'get':
        r = enc(c.get(k, default))
      elif o['op'] == 'set':
        v = None if o['v'] == 0 else vals.setdefault(o['v'], Val(o['v']))
        r = enc(c.set(k, v, lru.CacheEntryMetadata(num_bytes_estimate=o['n'])))
      elif o['op'] == 'remove':
        c.remove(k)
        r = 0
      elif o['op'] == 'clear':
        c.clear()
        r = 0
      elif o['op'] == 'set_max':
        try:
          c.set_max_total_bytes_of_entries_in_cache(o['n'])
          r = 0
        except ValueError:
          r = -99
      elif o['op'] == 'total':
        r = c.get_total_bytes_of_entries_in_cache()
      elif o['op'] == 'max':
        r = c.get_max_total_bytes_of_entries_in_cache()
    except Exception as e:  # pylint: disable=broad-except
      r = -1000
      o = dict(o, exc=repr(e))
    ev.append(dict(o, r=r))

  for o in ops:
    one(o)
  return ev


def main():
  with open(sys.argv[1]) as f:
    arg = json.load(f)
  out = []
  for tr in arg:
    out.append({'max': tr['max'], 'ev': run(tr['max'], tr['ops'], {})})
  with open(sys.argv[2], 'w') as f:
    json.dump(out, f)


main()
