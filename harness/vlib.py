"""Shared machinery: TLC runner, verdict reporting, known findings, evidence.

Verdict protocol of a check: exit 0 (held), exit 1 with a VIOLATION line per
failing clause, anything else is an error of the machinery itself.
"""
import hashlib
import json
import logging
import math
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
REPLAYS = os.path.join(VERIF, 'replays')
# Where evidence goes; only overridden when trying planted bugs by hand.
EVIDENCE = os.environ.get('VF_EVIDENCE') or os.path.join(VERIF, 'evidence')

warnings.simplefilter('ignore')
try:
  from absl import logging as absl_logging
  absl_logging.set_verbosity(absl_logging.FATAL)
except Exception:  # pylint: disable=broad-except
  pass
logging.disable(logging.CRITICAL)


class MachineryError(Exception):
  """The check itself failed; never reported as a violation."""


class TlcResult:

  def __init__(self):
    self.states = 0
    self.distinct = 0
    self.depth = 0
    self.out = ''
    self.rows = []       # JSON objects emitted by the spec with Emit(...)
    self.bad = []        # JSON objects emitted by the spec with Bad(...)
    self.actions = {}    # action name -> number of states taken
    self.violated = None  # name of a violated invariant/property


def find_tlc():
  jar = '/opt/veriftools/tla/tla2tools.jar'
  return jar


def _tlc_base_cmd():
  """The java command line used by the `tlc` wrapper of the sandbox."""
  wrapper = shutil.which('tlc') or '/usr/local/bin/tlc'
  return [wrapper]


class Check:
  """One run of one check."""

  def __init__(self, prop, technique_level):
    self.prop = prop
    self.level = technique_level
    self.tier = os.environ.get('VERIF_TIER', 'quick')
    self.seed = int(os.environ.get('VERIF_SEED', '1'))
    self.t0 = time.time()
    self.scratch = tempfile.mkdtemp(prefix='vf_%s_' % prop.lower())
    self.n_viol = 0
    self.viol_clauses = {}
    self.states = 0
    self.transitions = 0
    self.traces = 0
    self.evals = 0
    self.samples = []
    self.extra = {}
    self.assumptions = []
    self.clause_counts = {}
    self.distinct = set()
    self.known = self._load_known()
    self.known_hit = {}

  @property
  def thorough(self):
    return self.tier == 'thorough'

  def pick(self, quick, thorough):
    return thorough if self.thorough else quick

  def elapsed(self):
    return time.time() - self.t0

  # ---------------------------------------------------------------- findings
  def _load_known(self):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
      return []
    with open(path) as f:
      data = json.load(f)
    return [x for x in data.get('known', []) if x['property'] == self.prop]

  def ok(self, clause, n=1):
    self.clause_counts[clause] = self.clause_counts.get(clause, 0) + n
    self.evals += n

  def violation(self, clause, detail, key=None):
    """Reports one violated clause. `key` identifies the input for findings."""
    key = key if key is not None else json.dumps(detail, sort_keys=True,
                                                 default=str)
    for k in self.known:
      if k.get('clause') == clause and k.get('key') == key:
        self.known_hit[(clause, key)] = k
        return
    self.n_viol += 1
    n = self.viol_clauses.get(clause, 0)
    self.viol_clauses[clause] = n + 1
    if n >= 3:      # enough witnesses for one clause
      return
    os.makedirs(REPLAYS, exist_ok=True)
    blob = {
        'property': self.prop, 'clause': clause, 'key': key, 'detail': detail,
        'seed': self.seed, 'tier': self.tier,
        'rerun': 'VERIF_SEED=%d VERIF_TIER=%s ./check.sh %s' % (
            self.seed, self.tier, self.prop),
    }
    txt = json.dumps(blob, indent=1, default=str, sort_keys=True)
    h = hashlib.sha1((clause + key).encode()).hexdigest()[:12]
    path = os.path.join(REPLAYS, '%s-%s.json' % (self.prop, h))
    with open(path, 'w') as f:
      f.write(txt)
    print('VIOLATION property=%s replay=%s' % (self.prop, path))
    print('  clause: %s' % clause)
    print('  detail: %s' % json.dumps(detail, default=str)[:1500])
    sys.stdout.flush()

  def expect(self, cond, clause, detail, key=None):
    """Counts one evaluation of `clause`, reports when it fails."""
    self.ok(clause)
    if not cond:
      self.violation(clause, detail() if callable(detail) else detail, key)
    return cond

  def sample(self, s, limit=6):
    if len(self.samples) < limit:
      self.samples.append(s)

  # --------------------------------------------------------------------- TLC
  def tlc(self, module, cfg, data=None, workers='auto', simulate=None,
          depth=None, timeout=600, coverage=False, extra_modules=None,
          deadlock=False, allow_violation=False, count=True, heap='6g',
          fpset=None):
    """Runs TLC on spec/<module>.tla with the given cfg text.

    data: dict file name -> python object written as JSON in the run directory
    (the spec reads them with JsonDeserialize / ndJsonDeserialize).
    """
    d = tempfile.mkdtemp(prefix='tlc_', dir=self.scratch)
    for fn in os.listdir(SPEC):
      if fn.endswith('.tla'):
        os.symlink(os.path.join(SPEC, fn), os.path.join(d, fn))
    for name, text in (extra_modules or {}).items():
      p = os.path.join(d, name)
      if os.path.islink(p):
        os.unlink(p)
      with open(p, 'w') as f:
        f.write(text)
    with open(os.path.join(d, 'run.cfg'), 'w') as f:
      f.write(cfg)
    for name, obj in (data or {}).items():
      with open(os.path.join(d, name), 'w') as f:
        if name.endswith('.ndjson'):
          for row in obj:
            f.write(json.dumps(row) + '\n')
        else:
          json.dump(obj, f)
    cmd = ['timeout', '-k', '5', str(int(timeout))] + _tlc_base_cmd()
    cmd += ['-config', 'run.cfg', '-metadir', os.path.join(d, 'meta'),
            '-noGenerateSpecTE']
    if not deadlock:
      cmd += ['-deadlock']
    cmd += ['-workers', str(workers)]
    if coverage:
      cmd += ['-coverage', '1']
    if simulate:
      cmd += ['-simulate', 'num=%d' % simulate, '-seed', str(self.seed)]
      if depth:
        cmd += ['-depth', str(depth)]
    cmd += [module + '.tla']
    env = dict(os.environ)
    env['JAVA_TOOL_OPTIONS'] = '-Xmx%s -Xss64m -Djava.io.tmpdir=%s' % (heap, d)
    p = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, check=False)
    r = TlcResult()
    r.out = p.stdout
    for line in p.stdout.splitlines():
      if line.startswith('"@@'):
        s = json.loads(line)
        tag, _, body = s.partition(' ')
        if tag == '@@ROW':
          r.rows.append(json.loads(body))
        elif tag == '@@BAD':
          r.bad.append(json.loads(body))
      else:
        m = re.match(r'([\d,]+) states generated, ([\d,]+) distinct', line)
        if m:
          r.states = int(m.group(1).replace(',', ''))
          r.distinct = int(m.group(2).replace(',', ''))
        m = re.search(r'The number of states generated: ([\d,]+)', line)
        if m:
          r.states = int(m.group(1).replace(',', ''))
          r.distinct = max(r.distinct, r.states)
        m = re.match(r'The depth of the complete state graph search is (\d+)',
                     line)
        if m:
          r.depth = int(m.group(1))
        m = re.match(r'Error: (?:Invariant|Action property|Temporal property) '
                     r'(\S+)', line)
        if m:
          r.violated = m.group(1)
        if 'POSTCONDITION' in line and 'Error' in line:
          r.violated = 'POSTCONDITION'
        m = re.match(r'<(\w+) line .*>: (\d+):(\d+)', line)
        if m:
          a = r.actions.setdefault(m.group(1), 0)
          r.actions[m.group(1)] = max(a, int(m.group(3)))
    finished = ('Model checking completed. No error has been found' in r.out
                or (simulate and p.returncode == 0))
    if not finished and not (allow_violation and r.violated):
      raise MachineryError('TLC failed on %s (rc %d):\n%s' % (
          module, p.returncode, '\n'.join(
              x for x in r.out.splitlines() if not x.startswith(
                  ('"@@', 'Parsing', 'Semantic', 'Linting')))[-3000:]))
    if count:
      self.states += r.distinct
      self.transitions += r.states
    shutil.rmtree(d, ignore_errors=True)
    return r

  # ---------------------------------------------------------------- evidence
  def finish(self):
    for (clause, key), k in sorted(self.known_hit.items()):
      print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
    cov = {
        'states': self.states,
        'transitions': self.transitions,
        'traces_validated_against_impl': self.traces,
        'evaluations': self.evals,
        'distinct_nontrivial': len(self.distinct) or self.traces,
        'clauses': self.clause_counts,
        'samples': self.samples or ['(none)'],
    }
    cov.update(self.extra)
    ev = {
        'property': self.prop, 'tier': self.tier, 'seed': self.seed,
        'level': self.level, 'coverage': cov,
        'assumptions': self.assumptions,
        'wall_s': round(time.time() - self.t0, 2),
        'violations': self.n_viol,
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, self.prop + '.json'), 'w') as f:
      json.dump(ev, f, indent=1, default=str)
    shutil.rmtree(self.scratch, ignore_errors=True)
    print('%s: %s tier=%s seed=%d states=%d traces=%d evals=%d wall=%.1fs' % (
        self.prop, 'FAILED' if self.n_viol else 'ok', self.tier, self.seed,
        self.states, self.traces, self.evals, time.time() - self.t0))
    return 1 if self.n_viol else 0


def run_check(prop, level, body):
  """Runs body(check) and exits with the protocol's code."""
  c = Check(prop, level)
  try:
    body(c)
    rc = c.finish()
  except Exception as e:  # pylint: disable=broad-except
    traceback.print_exc()
    repo = os.path.realpath(os.environ.get('VF_REPO', '/repo')) + os.sep
    frames = traceback.extract_tb(e.__traceback__)
    inside = [f for f in frames if os.path.realpath(f.filename).startswith(
        repo) or re.match(r'<attrs generated \w+ dp_accounting\.', f.filename)]
    if inside and not isinstance(e, (MachineryError, MemoryError)):
      # The code under test failed on a call that every caller relies on.
      c.violation('fails', dict(
          error='%s: %s' % (type(e).__name__, str(e)[:300]),
          where=['%s:%d %s' % (os.path.basename(f.filename), f.lineno, f.name)
                 for f in frames][-6:]))
    print('%s: machinery error' % prop)
    shutil.rmtree(c.scratch, ignore_errors=True)
    # A violation already established stays one.
    rc = 1 if c.n_viol else 2
  sys.stdout.flush()
  sys.exit(rc)


def observe(fn, *a, **kw):
  """Runs code under test. Returns ('ok', value) or ('err', type, message)."""
  try:
    return ('ok', fn(*a, **kw))
  except RecursionError:
    return ('err', 'RecursionError', '')
  except Exception as e:  # pylint: disable=broad-except
    return ('err', type(e).__name__, str(e)[:300])


def close(a, b, rel=1e-9, abs_=1e-12):
  if a == b:
    return True
  if math.isnan(a) or math.isnan(b) or math.isinf(a) or math.isinf(b):
    return False
  return abs(a - b) <= abs_ + rel * max(abs(a), abs(b))
