"""Runs tracing-mode scenarios on the real module and records observations."""
import contextvars
import json
import queue
import sys
import threading
import types

from koladata.expr import tracing_mode as tm


class Weird:
  """Unhashable, equal to everything, falsy: registration must go by identity."""

  def __init__(self, i):
    self.i = i

  def __eq__(self, o):
    return True

  __hash__ = None

  def __bool__(self):
    return False

  def __repr__(self):
    return f'W{self.i}'


class Boom(Exception):
  pass


class ThreadCtx:

  def __init__(self):
    self.q, self.r = queue.Queue(), queue.Queue()
    self.t = threading.Thread(target=self.loop, daemon=True)
    self.t.start()

  def loop(self):
    while True:
      f = self.q.get()
      if f is None:
        return
      try:
        self.r.put((True, f()))
      except BaseException as e:  # pylint: disable=broad-except
        self.r.put((False, e))

  def run(self, f):
    self.q.put(f)
    ok, v = self.r.get()
    if ok:
      return v
    raise v


def run(ops):
  root = contextvars.Context()
  ctxs = [root]
  threads = []
  stacks = [[]]
  objs = {i: Weird(i) for i in range(1, 9)}
  configs = {}
  disp = [None]
  ev = []

  def oid(x):
    for i, o in objs.items():
      if o is x:
        return f'e:{i}'
    return '?' + repr(x)

  def one(o):
    k = o['op']
    if k == 'enter':
      def f():
        cm = tm.enable_tracing(o['v']) if (len(ev) % 2 or not o['v']) else tm.enable_tracing()
        cm.__enter__()
        return cm
      stacks[o['c'] - 1].append(ctxs[o['c'] - 1].run(f))
      return 'ok'
    if k == 'exit':
      cm = stacks[o['c'] - 1].pop()
      if not o['exc']:
        ctxs[o['c'] - 1].run(lambda: cm.__exit__(None, None, None))
        return 'ok'
      e = Boom() if len(ev) % 2 else KeyboardInterrupt()
      try:
        sup = ctxs[o['c'] - 1].run(lambda: cm.__exit__(type(e), e, None))
        return 'swallowed' if sup else 'propagates'
      except BaseException as ex:  # pylint: disable=broad-except
        return 'propagates' if ex is e else repr(ex)
    if k == 'thread':
      tc = ctxs[o['c'] - 1].run(ThreadCtx)
      threads.append(tc)
      ctxs.append(tc)
      stacks.append([])
      return 'ok'
    if k == 'copy':
      ctxs.append(ctxs[o['c'] - 1].run(contextvars.copy_context))
      stacks.append([])
      return 'ok'
    if k == 'query':
      v = ctxs[o['c'] - 1].run(tm.is_tracing_enabled)
      return 'T' if v is True else 'F' if v is False else repr(v)
    if k == 'conf':
      e, t = objs[o['e']], objs.get(o['t'])
      if o['t'] == 0 and len(ev) % 2:
        return oid(tm.eager_only(configs, e))
      if o['t'] == o['e'] and len(ev) % 2:
        return oid(tm.same_when_tracing(configs, e))
      return oid(tm.configure_tracing(configs, eager=e, tracing=t))
    if k == 'prep':
      m = types.ModuleType('fake_mod')
      m.__all__ = [x['name'] for x in o['names']]
      for x in o['names']:
        setattr(m, x['name'], objs[x['obj']])
      m.private_thing = 1
      d = tm.prepare_module_for_tracing(m, configs)
      disp[0] = d
      return 'ok'
    if k == 'attr':
      return oid(ctxs[o['c'] - 1].run(lambda: getattr(disp[0], o['name'])))
    if k == 'setattr':
      setattr(disp[0], o['name'], 1)
      return 'set'
    if k == 'dir':
      return sorted(dir(disp[0]))
    raise AssertionError(k)

  for o in ops:
    try:
      r = one(o)
    except Exception as e:  # pylint: disable=broad-except
      r = type(e).__name__
    ev.append(dict(o, r=r))
  for tc in threads:
    tc.q.put(None)
  return ev


def main():
  with open(sys.argv[1]) as f:
    arg = json.load(f)
  with open(sys.argv[2], 'w') as f:
    json.dump([{'ev': run(x)} for x in arg], f)


main()
