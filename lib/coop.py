"""Deterministic scheduler for real Python threads.

Exactly one of the registered threads runs at any time.  Every source line of
the files under test is a yield point (sys.settrace); locks created through
`threading` after install() are cooperative.  A schedule is a map
{global step number -> thread to switch to}; without an entry the current
thread goes on until it ends or blocks.
"""

import _thread
import sys
import threading

_alloc = _thread.allocate_lock
_get_ident = _thread.get_ident


class Deadlock(BaseException):
  pass


class _Abort(BaseException):
  pass


_CUR = None  # the active Run


class CoopLock:
  _reentrant = False

  def __init__(self):
    self._owner = None
    self._count = 0

  def _me(self):
    return _get_ident()

  def acquire(self, blocking=True, timeout=-1):
    me = self._me()
    while True:
      if self._owner is None:
        self._owner, self._count = me, 1
        return True
      if self._reentrant and self._owner == me:
        self._count += 1
        return True
      if not blocking:
        return False
      run = _CUR
      if run is None or me not in run.ids:
        raise Deadlock('lock held outside the scheduler')
      if not run.block(self, timeout):
        return False

  def release(self):
    if self._owner is None:
      raise RuntimeError('release unlocked lock')
    if self._reentrant and self._owner != self._me():
      raise RuntimeError('cannot release un-acquired lock')
    self._count -= 1
    if self._count == 0:
      self._owner = None
      run = _CUR
      if run is not None:
        run.unblock(self)

  __enter__ = acquire

  def __exit__(self, *a):
    self.release()

  def locked(self):
    return self._owner is not None

  def _at_fork_reinit(self):
    self._owner = None

  # threading.Condition protocol
  def _is_owned(self):
    return self._owner == self._me()

  def _release_save(self):
    c, self._count, self._owner = self._count, 0, None
    if _CUR is not None:
      _CUR.unblock(self)
    return c

  def _acquire_restore(self, c):
    self.acquire()
    self._count = c


class CoopRLock(CoopLock):
  _reentrant = True


def install():
  threading.Lock = CoopLock
  threading.RLock = CoopRLock
  threading._allocate_lock = CoopLock  # used by Condition


class Run:
  """One execution of the given thread bodies under one schedule."""

  def __init__(self, fns, switches, targets, first=0, max_steps=20000):
    self.fns = fns
    self.switches = switches
    self.targets = targets
    self.n = len(fns)
    self.sems = [_alloc() for _ in fns]
    for s in self.sems:
      s.acquire()
    self.ready = [_alloc() for _ in fns]
    for s in self.ready:
      s.acquire()
    self.done = [False] * self.n
    self.blocked = [None] * self.n
    self.step = 0
    self.points = []  # (step, current, enabled others)
    self.first = first
    self.max_steps = max_steps
    self.ids = {}
    self.finished = _alloc()
    self.finished.acquire()
    self.aborting = False
    self.deadlock = False
    self.errors = [None] * self.n

  def enabled(self):
    return [i for i in range(self.n) if not self.done[i] and self.blocked[i] is None]

  def _switch(self, me, to):
    self.sems[to].release()
    self.sems[me].acquire()
    if self.aborting:
      raise _Abort()

  def yield_point(self, me):
    if self.aborting:
      return
    self.step += 1
    if self.step > self.max_steps:
      self._abort()
      raise _Abort()
    others = [i for i in self.enabled() if i != me]
    if others:
      self.points.append((self.step, me, others))
    to = self.switches.get(self.step)
    if to is not None and to != me and to in others:
      self._switch(me, to)

  def _abort(self):
    self.aborting = True
    self.deadlock = True
    for i in range(self.n):
      if not self.done[i]:
        try:
          self.sems[i].release()
        except RuntimeError:
          pass

  def block(self, lock, timeout):
    me = self.ids[_get_ident()]
    self.blocked[me] = lock
    en = self.enabled()
    if not en:
      self.blocked[me] = None
      if timeout is not None and timeout >= 0:
        return False
      self._abort()
      raise _Abort()
    self._switch(me, en[0])
    return True

  def unblock(self, lock):
    for i in range(self.n):
      if self.blocked[i] is lock:
        self.blocked[i] = None

  def _tracer(self, me):
    targets = self.targets

    def local(frame, event, arg):
      if event == 'line':
        self.yield_point(me)
      return local

    def glob(frame, event, arg):
      if frame.f_code.co_filename.startswith(targets):
        return local
      return None

    return glob

  def _body(self, i):
    self.ids[_get_ident()] = i
    self.ready[i].release()
    self.sems[i].acquire()
    try:
      if not self.aborting:
        sys.settrace(self._tracer(i))
        try:
          self.fns[i]()
        finally:
          sys.settrace(None)
    except _Abort:
      pass
    except BaseException as e:  # pylint: disable=broad-except
      self.errors[i] = e
    self.done[i] = True
    if self.aborting:
      if all(self.done):
        try:
          self.finished.release()
        except RuntimeError:
          pass
      return
    en = self.enabled()
    if en:
      self.sems[en[0]].release()
    elif all(self.done):
      self.finished.release()
    else:
      self._abort()

  def go(self):
    global _CUR
    _CUR = self
    for i in range(self.n):
      _thread.start_new_thread(self._body, (i,))
    # wait until all are registered
    for r in self.ready:
      r.acquire()
    self.sems[self.first].release()
    ok = self.finished.acquire(True, 60)
    _CUR = None
    if not ok:
      raise RuntimeError('scheduler stuck')
    return self


def explore(make, targets, max_preempt=2, limit=400, rng=None):
  """Yields Run objects for the schedules of `make()` -> list of bodies.

  Systematic: every schedule with at most `max_preempt` forced switches, in
  order of the number of switches; beyond `limit` schedules a seeded sample of
  each level is taken.
  """
  n = len(make()[0])
  count = 0
  level = []
  for f in range(n):
    fns, meta = make()
    r = Run(fns, {}, targets, first=f).go()
    count += 1
    yield r, meta
    level.append((f, {}, r.points))
  for _ in range(max_preempt):
    nxt = []
    for f, sw, pts in level:
      last = max(sw) if sw else 0
      for step, _, others in pts:
        if step > last:
          for o in others:
            nxt.append((f, {**sw, step: o}))
    if len(nxt) > limit:
      nxt = rng.sample(nxt, limit) if rng else nxt[:limit]
    level = []
    for f, sw in nxt:
      fns, meta = make()
      r = Run(fns, sw, targets, first=f).go()
      count += 1
      yield r, meta
      level.append((f, sw, r.points))
