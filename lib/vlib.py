"""Shared machinery: running TLC, generating behaviours from the specification,
running drivers against the code in /repo, validating recorded traces with TLC,
writing evidence and verdicts.

Outcome discipline: exit 0 (held on everything explored), exit 1 with a
VIOLATION line, anything else is an error of the machinery.
"""

import collections
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
TLA = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = os.cpu_count() or 4


class MachineryError(Exception):
  pass


class Violation(Exception):
  """The property is broken; `detail` is written to the replay file."""

  def __init__(self, what, detail=None):
    super().__init__(what)
    self.what = what
    self.detail = detail


TlcResult = collections.namedtuple(
    'TlcResult', 'rc out generated distinct lines violated')


class Ctx:
  """One run of one check."""

  def __init__(self, pid):
    self.pid = pid
    self.tier = os.environ.get('VERIF_TIER', 'quick')
    if self.tier not in ('quick', 'thorough'):
      self.tier = 'quick'
    self.thorough = self.tier == 'thorough'
    try:
      self.seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
      self.seed = 1
    self.t0 = time.time()
    self.scratch = tempfile.mkdtemp(prefix=f'verif-{pid}-')
    self.states = 0
    self.transitions = 0
    self.traces = 0
    self.events = 0
    self.samples = []
    self.extra = {}
    self.assumptions = []
    self.known_printed = []
    self._n = 0
    self._lock = threading.Lock()
    self.violations = 0
    with open(os.path.join(VERIF, 'known_findings.jsonl')) as f:
      self.known = [json.loads(x) for x in f if x.strip()]
    self.known = [k for k in self.known
                  if k['property'] == pid and k['status'] == 'known']

  def path(self, *a):
    return os.path.join(self.scratch, *a)

  def pick(self, quick, thorough):
    return thorough if self.thorough else quick

  def log(self, *a):
    print(f'[{self.pid} {time.time() - self.t0:6.1f}s]', *a, flush=True)

  # ---------------------------------------------------------------- TLC

  def tlc(self, module, cfg, *, workers=NCPU, timeout=600, env=None, extra=(),
          heap='6g', count=True, text=None):
    """Runs TLC on spec/<module>.tla (or on `text`) with the given cfg text."""
    self._n += 1
    d = self.path(f'tlc{self._n}')
    os.makedirs(d)
    for f in os.listdir(os.path.join(VERIF, 'spec')):
      if f.endswith('.tla'):
        os.symlink(os.path.join(VERIF, 'spec', f), os.path.join(d, f))
    if text is not None:
      p = os.path.join(d, module + '.tla')
      if os.path.lexists(p):
        os.unlink(p)
      with open(p, 'w') as f:
        f.write(text)
    with open(os.path.join(d, module + '.cfg'), 'w') as f:
      f.write(cfg)
    e = dict(os.environ)
    e.pop('PYTHONPATH', None)
    e.update(env or {})
    cmd = ['java', '-XX:+UseParallelGC', f'-Xmx{heap}', '-Xss64m',
           f'-Djava.io.tmpdir={d}', '-cp', TLA, 'tlc2.TLC', '-cleanup', '-nowarning',
           '-noGenerateSpecTE', '-workers', str(workers), '-metadir', os.path.join(d, 'meta'),
           '-config', module + '.cfg', *extra, module + '.tla']
    try:
      p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, timeout=timeout, check=False)
    except subprocess.TimeoutExpired as ex:
      raise MachineryError(f'TLC timed out on {module}') from ex
    out = p.stdout.decode('utf-8', 'replace')
    m = re.findall(r'(\d+) states generated.*?, (\d+) distinct states found', out)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    v = re.search(r'(?:Invariant|Action property|Temporal properties|property) ?(\S*) ?(?:is|were) violated', out)
    violated = (v.group(1) or 'property') if v else None
    shutil.rmtree(d, ignore_errors=True)
    if p.returncode != 0 and violated is None:
      raise MachineryError(f'TLC failed on {module} (rc {p.returncode}):\n' + out[-6000:])
    if count:
      self.states += dist
      self.transitions += gen
    return TlcResult(p.returncode, out, gen, dist, out.splitlines(), violated)

  def model_check(self, module, cfg, **kw):
    """Model-checks the specification itself; a violated property of the
    design is a machinery error (the spec is ours), never an alarm."""
    r = self.tlc(module, cfg, **kw)
    if r.violated:
      raise MachineryError(f'{module}: {r.violated} violated in the model\n' + r.out[-6000:])
    self.log(f'TLC {module}: {r.generated} transitions, {r.distinct} distinct states, all properties hold')
    self.extra.setdefault('model_runs', []).append(
        {'module': module, 'transitions': r.generated, 'distinct_states': r.distinct})
    return r

  def generate(self, module, cfg, tag='GEN', **kw):
    """Behaviours printed by TLC as PrintT(tag \\o ToJson(x)) lines."""
    kw.setdefault('workers', 1)
    r = self.tlc(module, cfg, **kw)
    if r.violated:
      raise MachineryError(f'{module}: {r.violated} violated\n' + r.out[-4000:])
    res = []
    for line in r.lines:
      if line.startswith('"' + tag):
        res.append(json.loads(json.loads(line)[len(tag):]))
    self.log(f'TLC {module}: {len(res)} behaviours generated from the specification'
             f' ({r.distinct} states)')
    self.extra['behaviours_from_spec'] = self.extra.get('behaviours_from_spec', 0) + len(res)
    return res

  # ---------------------------------------------------------------- traces

  def validate(self, module, traces, *, cfg='', timeout=800, chunk=400000, label=None):
    """Validates recorded traces against trace module `module`.

    A trace is {'ev': [event...], ...}. Every trace is a behaviour of the
    specification iff TLC consumes it to its end. Returns the list of
    rejections (trace_index, event_index, explanation).
    """
    bad = []
    if not traces:
      raise MachineryError(f'{module}: no traces to validate')
    start = 0
    while start < len(traces):
      end, n = start, 0
      while end < len(traces) and (n < chunk or end == start):
        n += len(traces[end]['ev']) + 1
        end += 1
      part = traces[start:end]
      f = self.path(f'traces{self._n}.json')
      with open(f, 'w') as fh:
        json.dump(part, fh, ensure_ascii=True)
      r = self.tlc(module, 'INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\n' + cfg,
                   env={'TRACES': f}, timeout=timeout)
      os.unlink(f)
      if r.violated:
        # A named invariant of the specification fails on a real execution.
        m = re.findall(r'/\\ t = (\d+)', r.out)
        l = re.findall(r'/\\ l = (\d+)', r.out)
        t = int(m[-1]) if m else 1
        bad.append((start + t - 1, (int(l[-1]) if l else 1) - 1, f'invariant {r.violated} violated'))
        break
      got = {}
      for line in r.lines:
        m = re.match(r'"BAD\|(\d+)\|(\d+)\|(.*)', line)
        if m:
          got.setdefault(int(m.group(1)), (int(m.group(2)), m.group(3)))
      for t, (l, why) in sorted(got.items()):
        bad.append((start + t - 1, l - 1, why))
      if not got and r.distinct != n:
        raise MachineryError(
            f'{module}: {r.distinct} states for {n} trace positions\n' + r.out[-3000:])
      if got and r.distinct >= n:
        raise MachineryError(f'{module}: inconsistent verdict\n' + r.out[-3000:])
      start = end
    self.traces += len(traces)
    self.events += sum(len(t['ev']) for t in traces)
    self.log(f'TLC {module}: {len(traces)} recorded traces'
             f' ({sum(len(t["ev"]) for t in traces)} events) validated, {len(bad)} rejected'
             + (f' [{label}]' if label else ''))
    if not self.samples:
      t = traces[min(len(traces) - 1, len(traces) // 2)]
      self.samples.append({'module': module, 'trace': trim(t)})
    return bad

  def require(self, module, traces, *, replay_info=None, **kw):
    """validate() and raise Violation on the first rejection not listed as known."""
    bad = self.validate(module, traces, **kw)
    self.judge(module, traces, bad, replay_info)

  def judge(self, module, traces, bad, replay_info=None):
    if os.environ.get('VERIF_DEBUG') and bad:
      # development aid: which operations were rejected
      n = collections.Counter(traces[ti]['ev'][li].get('op') for ti, li, _ in bad if li < len(traces[ti]['ev']))
      print('rejected operations:', dict(n), flush=True)
      seen = set()
      for ti, li, why in bad:
        e = traces[ti]['ev'][li]
        if e.get('op') not in seen:
          seen.add(e.get('op'))
          print('--', ti, li, {k: v for k, v in e.items() if k != 'heap'}, '\n   ', why[:1500], flush=True)
    for ti, li, why in bad:
      tr = traces[ti]
      sig = tr.get('sig')
      hit = None
      for k in self.known:
        if sig is not None and k.get('signature') == sig:
          hit = k
      if hit is not None:
        self.known_finding(hit)
        continue
      self.violations += 1
      raise Violation(
          f'{module}: trace {ti} rejected at event {li}: {why}',
          {'module': module, 'event_index': li, 'event': tr['ev'][li] if li < len(tr['ev']) else None,
           'explanation': why, 'trace': tr, 'info': replay_info,
           'rejected_traces': len(bad)})

  def control(self, module, trace, at, **kw):
    """Negative control: the corrupted trace must be rejected at event `at`."""
    n = self.traces, self.events
    bad = self.validate(module, [trace], label='negative control', **kw)
    self.traces, self.events = n
    if not bad or bad[0][1] != at:
      raise MachineryError(f'{module}: negative control not rejected at {at}: {bad}')
    self.extra['negative_controls_rejected'] = self.extra.get('negative_controls_rejected', 0) + 1

  def known_finding(self, k):
    if k['signature'] not in self.known_printed:
      self.known_printed.append(k['signature'])
      print(f"KNOWN-FINDING: property={self.pid} {k['what']}", flush=True)

  # ---------------------------------------------------------------- drivers

  def env(self, **kw):
    e = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    e.update(PYTHONPATH=':'.join([os.path.join(REPO, 'py'), os.path.join(VERIF, 'lib')]),
             PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', VERIF_SCRATCH=self.scratch,
             TMPDIR=self.scratch, HOME=self.scratch)
    e.update(kw)
    return e

  def gen_protos(self, *protos):
    """Generates *_pb2.py from the .proto files of /repo into the scratch dir."""
    gen = self.path('gen')
    os.makedirs(gen, exist_ok=True)
    inc = subprocess.run(
        [PY, '-c', 'import os, grpc_tools; print(os.path.join(os.path.dirname(grpc_tools.__file__), "_proto"))'],
        stdout=subprocess.PIPE, check=True).stdout.decode().strip()
    for f in protos:
      p = subprocess.run([PY, '-m', 'grpc_tools.protoc', '-I.', f'-I{inc}', f'--python_out={gen}', f],
                         cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, check=False)
      if p.returncode:
        raise MachineryError(f'protoc failed on {f}: {p.stdout.decode()}')
    return [os.path.join(gen, 'py'), gen]

  def drive(self, script, arg, *, timeout=300, extra_path=(), env=None, user=None):
    """Runs drivers/<script> with the repository's code; JSON in, JSON out.

    The driver writes its result to a file; a driver that dies or hangs in the
    code under test reports through the exception DriverFailed.
    """
    with self._lock:
      self._n += 1
      n = self._n
    fin, fout = self.path(f'in{n}.json'), self.path(f'out{n}.json')
    with open(fin, 'w') as f:
      json.dump(arg, f)
    e = self.env(**(env or {}))
    if extra_path:
      e['PYTHONPATH'] = ':'.join([*extra_path, e['PYTHONPATH']]) if script.startswith('!') else ':'.join([e['PYTHONPATH'], *extra_path])
    cmd = [PY, os.path.join(VERIF, 'drivers', script), fin, fout]
    try:
      p = subprocess.run(cmd, env=e, cwd=self.scratch, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, timeout=timeout, check=False)
    except subprocess.TimeoutExpired as ex:
      raise DriverFailed('hang', (ex.stdout or b'').decode('utf-8', 'replace')) from ex
    out = p.stdout.decode('utf-8', 'replace')
    if p.returncode != 0 or not os.path.exists(fout):
      raise DriverFailed(f'rc {p.returncode}', out)
    with open(fout) as f:
      r = json.load(f)
    os.unlink(fin)
    os.unlink(fout)
    return r

  def drive_jobs(self, script, arg, *, parts=6, **kw):
    """drive() with arg['jobs'] dealt over several processes; results concatenated."""
    jobs = arg['jobs']
    parts = max(1, min(parts, len(jobs)))
    with concurrent.futures.ThreadPoolExecutor(parts) as ex:
      rs = [ex.submit(self.drive, script, dict(arg, jobs=jobs[i::parts]), **kw) for i in range(parts)]
      return [t for r in rs for t in r.result()]

  # ---------------------------------------------------------------- evidence

  def write_evidence(self, level):
    cov = {
        'states': self.states,
        'transitions': self.transitions,
        'traces_validated_against_impl': self.traces,
        'trace_events_validated': self.events,
        'samples': self.samples or [{'note': 'no trace recorded'}],
    }
    cov.update(self.extra)
    ev = {
        'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': level,
        'coverage': cov, 'assumptions': self.assumptions,
        'wall_s': round(time.time() - self.t0, 2), 'violations': self.violations,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    p = os.path.join(VERIF, 'evidence', f'{self.pid}.json')
    with open(p + '.tmp', 'w') as f:
      json.dump(ev, f, indent=1)
    os.replace(p + '.tmp', p)


class DriverFailed(MachineryError):

  def __init__(self, why, out):
    super().__init__(f'driver failed ({why}):\n{out[-6000:]}')
    self.why = why
    self.out = out


def trim(x, n=40):
  if isinstance(x, list):
    return [trim(y, n) for y in x[:n]]
  if isinstance(x, dict):
    return {k: trim(v, n) for k, v in x.items()}
  if isinstance(x, str) and len(x) > 300:
    return x[:300] + '...'
  return x


def run_check(pid, mod):
  ctx = Ctx(pid)
  rc = 2
  level = getattr(mod, 'LEVEL', 'model_checking')
  try:
    try:
      mod.check(ctx)
      rc = 0
    except (Violation, DriverFailed) as v:
      if isinstance(v, DriverFailed):
        if v.why != 'hang':
          raise
        # The code under test did not come back on inputs on which it must.
        v = Violation('the code under test did not terminate', {'output': v.out[-4000:]})
      ctx.violations = max(1, ctx.violations)
      d = os.path.join(VERIF, 'evidence', 'replay')
      os.makedirs(d, exist_ok=True)
      p = os.path.join(d, f'{pid}-{int(time.time() * 1000)}.json')
      with open(p, 'w') as f:
        json.dump({'property': pid, 'what': v.what, 'seed': ctx.seed, 'tier': ctx.tier,
                   'detail': v.detail}, f, indent=1, default=str)
      print(v.what[:3000])
      print(f'VIOLATION property={pid} replay={p}', flush=True)
      rc = 1
    ctx.write_evidence(level)
    ctx.log('wall', round(time.time() - ctx.t0, 1), 's; states', ctx.states, 'traces', ctx.traces,
            'exit', rc)
  except BaseException:  # pylint: disable=broad-except
    traceback.print_exc()
    rc = 2
  finally:
    shutil.rmtree(ctx.scratch, ignore_errors=True)
  sys.stdout.flush()
  sys.stderr.flush()
  os._exit(rc)
