"""Several managers of the same directories at once, with every interaction
with the (in-memory) file system a scheduling point."""
import json
import random
import sys
import threading

_argv, sys.argv = sys.argv, sys.argv[:1]
import bagstore as B
import storage_env as E


class Task:
  def __init__(self, i, world, ops, rec):
    self.i, self.ops, self.rec = i, ops, rec
    self.fs = E.HookFS(world.inner)
    self.w = B.World.__new__(B.World)
    self.w.__dict__.update(world.__dict__)
    self.w.fs = self.fs
    self.cond = threading.Condition()
    self.budget = 0
    self.waiting = 0
    self.done = False
    self.calls = 0
    self.fs.hook = self.hook
    self.th = threading.Thread(target=self.run, daemon=True)
    self.th.start()

  def hook(self, name, args, do):
    with self.cond:
      self.waiting += 1
      self.cond.notify_all()
      while self.budget <= 0:
        self.cond.wait()
      self.budget -= 1
      self.waiting -= 1
      self.calls += 1
      r = do()  # one interaction at a time
      self.cond.notify_all()
      return r

  def run(self):
    # wait for the first activation
    with self.cond:
      while self.budget <= 0:
        self.cond.wait()
    for o in self.ops:
      if o['op'] not in ('create', 'open', 'cache') and o['h'] not in self.w.m:
        continue
      ev = norm(o)
      self.rec.append(dict(ev, e='inv', th=self.i))
      r, v = 'ok', None
      try:
        r, v = self.w.raw(o)
      except Exception:  # pylint: disable=broad-except
        r = 'err'
      self.rec.append({'e': 'res', 'th': self.i, 'op': o['op'], 'r': r, 'v': v if v is not None else []})
    with self.cond:
      self.done = True
      self.cond.notify_all()

  def go(self, n):
    """Lets the task make n more interactions (None: run to its end)."""
    if n == 0:
      return True
    with self.cond:
      self.budget = n if n is not None else 10**9
      self.cond.notify_all()
      while not self.done and (n is None or self.budget > 0 or self.waiting == 0):
        if not self.cond.wait(20):
          return False
      if not self.done:
        self.budget = 0
    return True


def norm(o):
  ev = {'h': '', 'dir': '', 'names': [], 'wad': False, 'new': []}
  ev.update({k: o[k] for k in ('op', 'h', 'dir', 'names', 'wad', 'new') if k in o})
  return ev


def run(sc, schedule):
  w = B.World()
  w.cache.clear()
  rec = []

  def seq(ops):
    for o in ops:
      if o['op'] not in ('create', 'open', 'cache') and o['h'] not in w.m:
        continue
      rec.append(dict(norm(o), e='inv', th=9))
      e, _ = w.do(o)
      rec.append({'e': 'res', 'th': 9, 'op': o['op'], 'r': e['r'], 'v': e.get('v', [])})
  seq(sc['pre'])
  tasks = [Task(i + 1, w, ops, rec) for i, ops in enumerate(sc['tasks'])]
  ok = True
  for i, n in schedule:
    ok = ok and tasks[i].go(n)
  for t in tasks:
    ok = ok and t.go(None)
  if not ok:
    rec.append({'e': 'deadlock', 'th': 0})
  calls = [t.calls for t in tasks]
  if ok:
    seq(sc['post'])
    for d in sc['dirs']:
      seq([{'op': 'open', 'h': '_', 'dir': d}])
      if rec[-1]['r'] == 'ok':
        seq([{'op': 'names', 'h': '_'}])
        nm = rec[-1]['v']
        if nm:
          seq([{'op': 'cache', 'what': 'clear'}, {'op': 'load', 'h': '_', 'names': nm, 'wad': False},
               {'op': 'minimal', 'h': '_', 'names': nm, 'wad': False}])
  return {'ev': [e for e in rec if e.get('op') != 'cache']}, calls


def main():
  with open(_argv[1]) as f:
    arg = json.load(f)
  rng = random.Random(arg['seed'])
  out, seen, runs = [], set(), 0
  for sc in arg['scenarios']:
    _, calls = run(sc, [])
    n = len(sc['tasks'])
    scheds = []
    if n == 2:
      for a in (0, 1):
        for k in range(calls[a] + 1):
          for j in [None] + list(range(1, calls[1 - a] + 1)):
            scheds.append([(a, k), (1 - a, j), (a, None)])
    for _ in range(arg['random']):
      scheds.append([(rng.randrange(n), rng.randint(1, 5)) for _ in range(rng.randint(3, 14))])
    if len(scheds) > arg['limit']:
      scheds = rng.sample(scheds, arg['limit'])
    for s in scheds:
      t, _ = run(sc, s)
      runs += 1
      key = json.dumps(t)
      if key not in seen:
        seen.add(key)
        out.append(t)
  with open(_argv[2], 'w') as f:
    json.dump({'runs': runs, 'traces': out}, f)


main()
