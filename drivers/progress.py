"""Records what ProgressState does with given states."""
import dataclasses
import json
import sys
from fractions import Fraction

from koladata.ext.tqdm import types as T
from koladata.ext.tqdm.proto import progress_pb2

OPT = ('n', 'total', 'rate')
NUM = ('n', 'total', 'elapsed_secs', 'rate', 'initial')


def dec(p, flt):
  d = {k: ((v[0] if v else None) if k in OPT else None if v == 'none' else v) for k, v in p.items()}
  if flt:
    d = {k: float(v) if k in NUM and v is not None else v for k, v in d.items()}
  return T.ProgressState(**d)


def enc(s):
  d = {}
  for f in dataclasses.fields(s):
    v = getattr(s, f.name)
    if isinstance(v, float) and v == int(v):
      v = int(v)
    if f.name in OPT:
      v = [] if v is None else [v] if isinstance(v, int) and not isinstance(v, bool) else [-10**6]
    elif f.name in NUM:
      v = v if isinstance(v, int) else -10**6
    elif v is None:
      v = 'none'
    d[f.name] = v
  return d


def rat(x):
  if x is None:
    return []
  f = Fraction(x).limit_denominator(1000)
  return [f.numerator, f.denominator]


def main():
  with open(sys.argv[1]) as f:
    arg = json.load(f)
  out = []
  for i, p in enumerate(arg):
    e = {'p': p, 'r': 'ok'}
    try:
      s = dec(p, i % 2)
      b = T.ProgressState.from_proto(s.to_proto())
      m = progress_pb2.ProgressRecord()
      m.ParseFromString(s.to_proto().SerializeToString())
      e['back'], e['wire'] = enc(b), enc(T.ProgressState.from_proto(m))
      e['again'] = enc(T.ProgressState.from_proto(b.to_proto()))
      e['fraction'], e['remaining'] = rat(s.fraction), rat(s.remaining_s)
      try:
        s.n = 5
        e['frozen'] = False
      except dataclasses.FrozenInstanceError:
        e['frozen'] = True
    except Exception as ex:  # pylint: disable=broad-except
      e['r'] = repr(ex)
      e.update({k: [] for k in ('back', 'wire', 'again', 'fraction', 'remaining')}, frozen=False)
    out.append(e)
  with open(sys.argv[2], 'w') as f:
    json.dump([{'ev': out[i:i + 50]} for i in range(0, len(out), 50)], f)


main()
