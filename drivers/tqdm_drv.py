"""Runs progress-bar scenarios on the real ext/tqdm code and records reports."""
import contextvars
import io
import json
import logging
import queue
import sys
import threading
import types

with open(sys.argv[1]) as f:
  ARG = json.load(f)

import warnings
warnings.simplefilter('ignore')
SHOWN = [0]
if ARG['nb']:
  # A notebook environment for the real tqdm.notebook: stand-ins for the widgets.
  class _Obj:

    def __init__(self, **kw):
      self.layout = types.SimpleNamespace()
      self.style = types.SimpleNamespace()
      self.bar_style = ''
      self.value = None
      self.__dict__.update(kw)

    def close(self):
      pass

  w = types.ModuleType('ipywidgets')
  w.HTML = type('HTML', (_Obj,), {})
  w.FloatProgress = type('FloatProgress', (_Obj,), {})
  w.HBox = type('HBox', (_Obj,), {})
  ip = types.ModuleType('IPython')
  ip.__path__ = []
  ipd = types.ModuleType('IPython.display')

  def _display(*a, **k):
    SHOWN[0] += 1
  ipd.display = _display
  ip.display = ipd
  ip.get_ipython = lambda: types.SimpleNamespace(config={'IPKernelApp': 1})
  sys.modules.update({'ipywidgets': w, 'IPython': ip, 'IPython.display': ipd})
  import warnings
  warnings.simplefilter('ignore')

from koladata.ext.tqdm import context as kctx
from koladata.ext.tqdm import tqdm as ktqdm
from koladata.ext.tqdm import types as ktypes

import tqdm as real_tqdm
real_tqdm.tqdm.monitor_interval = 0
ktqdm.tqdm.monitor_interval = 0
logging.disable(logging.CRITICAL)

BIG = 100000.0


class Buf(io.StringIO):
  pass


class ThreadCtx:

  def __init__(self):
    self.q, self.r = queue.Queue(), queue.Queue()
    threading.Thread(target=self.loop, daemon=True).start()

  def loop(self):
    while True:
      f = self.q.get()
      if f is None:
        return
      try:
        self.r.put((True, f()))
      except BaseException as e:  # pylint: disable=broad-except
        self.r.put((False, e))

  def run(self, f):
    self.q.put(f)
    ok, v = self.r.get()
    if ok:
      return v
    raise v


class Boom(Exception):
  pass


def run(cfg, ops):
  ids = {}
  log = []

  class Rep(ktypes.ProgressReporter):

    def __init__(self, i, c):
      super().__init__()
      self.i, self.c = i, c

    def _get_config(self):
      c = self.c
      return ktypes.TqdmConfig(
          suppress_file=c['sf'], suppress_display=c['sd'],
          mininterval={0: 0, 1: BIG, 2: None}[c['mi']],
          maxinterval=BIG * 2 if c['mi'] == 1 else None,
          miniters=None if c['ms'] < 0 else c['ms'])

    def _set_progress_impl(self, state):
      st = state
      num = lambda x: int(x) if isinstance(x, (int, float)) and x == int(x) else -5
      log.append({
          'rep': self.i,
          'bar': ids.setdefault(st.bar_id, len(ids) + 1) if st.bar_id else 0,
          'n': num(st.n), 'total': -1 if st.total is None else num(st.total),
          'closed': st.is_closed, 'disp': st.is_displayed,
          'desc': 'none' if st.desc is None else st.desc, 'unit': st.unit, 'init': num(st.initial),
          'elapsed_ok': isinstance(st.elapsed_secs, (int, float)) and st.elapsed_secs >= 0
                        and (st.rate is None or st.rate >= 0)
                        and (st.total is None or not st.total or abs(st.fraction - st.n / st.total) < 1e-9),
      })
      if self.c['raises'] == 1 or (self.c['raises'] == 2 and len(log) % 2):
        raise Boom('reporter')

  reps = [None] + [Rep(i + 1, c) for i, c in enumerate(cfg['reps'])]
  ctxs, stacks, threads, bars, ev = [contextvars.Context()], [[]], [], [], []

  def kwargs(o, fil):
    k = {'initial': o['init'], 'leave': o['leave'], 'desc': o['desc'], 'unit': o['unit']}
    if o['off']:
      k['disable'] = True
    if o['mi'] != 2:
      k['mininterval'] = {0: 0, 1: BIG}[o['mi']]
      if o['mi'] == 1:
        k['maxinterval'] = BIG * 2
    if o['ms'] >= 0:
      k['miniters'] = o['ms']
    if o['file']:
      k['file'] = fil
    if o['delay']:
      k['delay'] = BIG
    if o['disp'] != 'unset':
      k['display'] = o['disp'] == 'T'
    return k

  def one(o, fil):
    k = o['op']
    if k == 'enter':
      def f():
        if o.get('manual'):
          tok = kctx.set_reporter(reps[o['v']])
          return lambda *a: kctx.reset_reporter(tok)
        cm = kctx.using_reporter(reps[o['v']])
        got = cm.__enter__()
        assert got is reps[o['v']], 'using_reporter yields the reporter'
        return cm.__exit__
      stacks[o['c'] - 1].append((ctxs[o['c'] - 1].run(f), o.get('manual')))
    elif k == 'exit':
      ex, manual = stacks[o['c'] - 1].pop()
      if o['exc'] and not manual:
        e = Boom()
        try:
          if ctxs[o['c'] - 1].run(lambda: ex(Boom, e, None)):
            return 'swallowed'
        except Boom as got:
          if got is not e:
            return 'other'
      else:
        ctxs[o['c'] - 1].run(lambda: ex(None, None, None))
    elif k == 'thread':
      tc = ctxs[o['c'] - 1].run(ThreadCtx)
      threads.append(tc)
      ctxs.append(tc)
      stacks.append([])
    elif k == 'copy':
      ctxs.append(ctxs[o['c'] - 1].run(contextvars.copy_context))
      stacks.append([])
    elif k == 'query':
      got = ctxs[o['c'] - 1].run(kctx.get_reporter)
      o['v'] = next((i for i, r in enumerate(reps) if r is got), -1)
    elif k == 'bar':
      kw = kwargs(o, fil)
      kw['total'] = None if o['total'] < 0 else o['total']
      bars.append((ctxs[o['c'] - 1].run(lambda: ktqdm.tqdm(**kw)), fil))
    elif k == 'iter':
      kw = kwargs(o, fil)
      n = o['n']
      items = list(range(n))
      def f():
        if o['kind'] == 'trange':
          b = ktqdm.trange(n, **kw)
        elif o['kind'] == 'gen':
          b = ktqdm.tqdm((x for x in items), **kw)
        else:
          b = ktqdm.tqdm(items, **kw)
        seen = []
        for x in b:
          seen.append(x)
          if o['stop'] and len(seen) == o['stop']:
            break
        bars.append((b, fil))
        return seen
      seen = ctxs[o['c'] - 1].run(f)
      o['got'] = seen
      o['yielded'] = items[:o['stop']] if o['stop'] else items
    elif k in ('update', 'refresh', 'desc', 'close'):
      b = bars[o['b'] - 1][0]
      # calls on a bar come from any context, also from one with another reporter
      where = ctxs[o.get('c', len(ev) % len(ctxs) + 1) - 1].run
      if k == 'update':
        where(lambda: b.update(o['k']))
      elif k == 'refresh':
        where(b.refresh)
      elif k == 'desc':
        where(lambda: b.set_description(o['desc']))
      elif o.get('via') == 'with':
        where(lambda: b.__exit__(None, None, None))
      else:
        where(b.close)
    else:
      raise AssertionError(k)
    return 'ok'

  for o in ops:
    o = dict(o)
    log.clear()
    SHOWN[0] = 0
    fil = Buf()
    default = Buf()
    so, se = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = default
    try:
      r = one(o, fil)
    except Exception as e:  # pylint: disable=broad-except
      r = 'raised ' + repr(e)[:200]
    finally:
      sys.stdout, sys.stderr = so, se
    ev.append(dict(o, r=r, reps=[dict(x) for x in log], err=bool(default.getvalue()),
                   fil=bool(fil.getvalue()), shown=SHOWN[0]))
  for b, _ in bars:
    log.clear()
    sys.stderr, se = Buf(), sys.stderr
    try:
      b.close()
    except Exception:  # pylint: disable=broad-except
      pass
    sys.stderr = se
  for tc in threads:
    tc.q.put(None)
  return {'cfg': cfg, 'ev': ev}


def main():
  out = [run(x['cfg'], x['ops']) for x in ARG['jobs']]
  with open(sys.argv[2], 'w') as f:
    json.dump(out, f)


main()
