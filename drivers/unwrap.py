"""Runs kd_functools.unwrap on decorator graphs built from specification worlds."""
import functools
import json
import signal
import sys

from koladata.util import kd_functools


class Fn:

  def __init__(self, i):
    self.i = i

  def __call__(self):
    return self.i


class NotFn:

  def __init__(self, i):
    self.i = i


def build(w, kind):
  objs = {}
  for i, n in enumerate(w, 1):
    if not n['callable']:
      objs[i] = NotFn(i)
    elif kind == 0:
      objs[i] = Fn(i)
    else:
      def f(i=i):
        return i
      f.i = i
      objs[i] = f
  for i, n in enumerate(w, 1):
    if n['to']:
      objs[i].__wrapped__ = objs[n['to']]
  return objs


class Hang(Exception):
  pass


def alarm(*_):
  raise Hang()


def main():
  with open(sys.argv[1]) as f:
    arg = json.load(f)
  signal.signal(signal.SIGALRM, alarm)
  out = []
  for n, q in enumerate(arg):
    objs = build(q['w'], n % 2)
    signal.alarm(5)
    try:
      r = kd_functools.unwrap(objs[q['start']])
      r = next((i for i, o in objs.items() if o is r), 0)
    except Hang:
      r = -1
    except Exception:  # pylint: disable=broad-except
      r = -2
    signal.alarm(0)
    out.append(dict(q, r=r))
    if sum(e['r'] == -1 for e in out) > 3:
      break
  with open(sys.argv[2], 'w') as f:
    json.dump([{'ev': out[i:i + 20]} for i in range(0, len(out), 20)], f)


main()
