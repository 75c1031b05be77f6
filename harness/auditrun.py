"""C19: the verdict of the auditorium's test runner follows from its trials."""
import math
import random

import numpy as np

from harness import auditstubs
auditstubs.install()

# pylint: disable=g-import-not-at-top
from dp_auditorium import privacy_test_runner as ptr
from dp_auditorium.configs import dataset_generator_config as dgc
from dp_auditorium.configs import privacy_property as pp
from dp_auditorium.configs import privacy_test_runner_config as rc
from dp_auditorium.generators import vizier_dataset_generator as vg

from harness.vlib import observe

NONE = 1000
WRAP = '''---- MODULE RunRunner ----
EXTENDS MCRunner
Es == %s
====
'''
CFG = '''SPECIFICATION Spec
CONSTANTS
 Estimates <- Es
 Threshold = 1
 MaxTrials = %d
 EmitRows = TRUE
INVARIANTS Found FirstOne AllTried FailureShows Told Emitted
PROPERTIES Halts
'''
REASON = {'found': rc.TerminationReason.FOUND_PRIVACY_VIOLATION,
          'limit': rc.TerminationReason.TRIAL_LIMIT_REACHED}


class Boom(Exception):
  pass


class Data:
  """A dataset nothing is known about."""

  def __init__(self, trial, which):
    self.trial, self.which = trial, which


def chebyshev(x):
  y = np.tanh(np.asarray(x, dtype=float)).reshape(-1)
  return np.stack([np.ones_like(y), y, 2 * y**2 - 1, 4 * y**3 - 3 * y,
                   8 * y**4 - 8 * y**2 + 1, 16 * y**5 - 20 * y**3 + 5 * y], 1)


POST = {rc.PostProcessing.NONE: np.asarray,
        rc.PostProcessing.TANH: np.tanh,
        rc.PostProcessing.CHEBYSHEV_POLYNOMIALS_D5: chebyshev}


class World:
  """Generator, mechanism and tester following a script, recording calls."""

  def __init__(self, script, fault, post, num, prob, threshold, rng,
               generator=None):
    self.script, self.fault = script, fault
    self.post, self.num, self.prob = post, num, prob
    self.threshold = threshold
    self.rng = rng
    self.trial = 0
    self.told = []
    self.samples = {}
    self.wrong = []
    self.drawn = {}
    self.compared = {}
    self.judged = []
    self.inner = generator
    self.privacy_property = pp.PrivacyProperty(
        pure_dp=pp.PureDp(epsilon=rng.uniform(.1, 3)))

  def boom(self, point):
    if self.fault == [self.trial, point]:
      raise Boom(point)

  # the generator
  def generate(self, last):
    self.trial += 1
    self.told.append(last)
    self.pair = (Data(self.trial, 1), Data(self.trial, 2))
    self.boom('propose')
    if self.inner is not None:
      self.inner(last)
    return self.pair

  # the mechanism
  def mechanism(self, data, num_samples):
    if not isinstance(data, Data) or data.trial != self.trial:
      self.wrong.append('sampled from something else than the proposed pair')
      return np.zeros((self.num, 1))
    if num_samples != self.num:
      self.wrong.append('drew %s samples' % num_samples)
    self.boom('sample%d' % data.which)
    k = (data.trial, data.which)
    self.drawn[k] = self.drawn.get(k, 0) + 1
    x = np.array([[self.rng.uniform(-3, 3)] for _ in range(self.num)])
    self.samples.setdefault(k, []).append(x)
    return x.copy()

  # the tester
  def which(self, s):
    for (t, w), xs in self.samples.items():
      if t != self.trial:
        continue
      for x in xs:
        e = POST[self.post](x)
        if np.shape(s) == np.shape(e) and np.allclose(s, e, atol=1e-9):
          return w
    return None

  def estimate_lower_bound(self, samples1, samples2, failure_probability):
    a, b = self.which(samples1), self.which(samples2)
    if {a, b} != {1, 2}:
      self.wrong.append('compared samples %s and %s' % (a, b))
      return -math.inf
    if failure_probability != self.prob:
      self.wrong.append('failure probability %s' % failure_probability)
    self.boom('estimate%d%d' % (a, b))
    k = (self.trial, a)
    self.compared[k] = self.compared.get(k, 0) + 1
    return self.script[self.trial - 1][a - 1]

  def reject_property(self, lower_bound):
    self.boom('judge')
    self.judged.append((self.trial, lower_bound))
    return lower_bound > self.threshold


class Tester:

  def __init__(self, world):
    self.world = world

  @property
  def privacy_property(self):
    return self.world.privacy_property

  def estimate_lower_bound(self, samples1, samples2, failure_probability):
    return self.world.estimate_lower_bound(samples1, samples2,
                                           failure_probability)

  def reject_property(self, lower_bound):
    return self.world.reject_property(lower_bound)


def same(a, b):
  return a == b or (a != a and b != b)


def judge(c, info, w, got, row, cfg, name):
  """Compares one run with what the specification says of the script."""
  v = row['verdict']
  key = 'run %s' % info
  c.expect(not w.wrong, 'run compares the pair', dict(info, wrong=w.wrong[:5]),
           key=key)
  told = [None if t == NONE else t for t in row['told']]
  c.expect(len(told) == len(w.told) and all(
      (a is None) == (b is None) and (a is None or same(a, b))
      for a, b in zip(w.told, told)), 'run tells the generator',
           dict(info, want=told, got=w.told), key=key)
  if v == 'error':
    c.expect(got[:2] == ('err', 'Boom'), 'run failure shows', dict(
        info, got=str(got)), key=key)
    return
  if not c.expect(got[0] == 'ok', 'run answers', dict(info, got=got),
                  key=key):
    return
  res = got[1]
  n = len(row['ests'])
  c.expect(len(res.lower_bound_divergence_estimates) == n and all(
      same(a, b) for a, b in zip(res.lower_bound_divergence_estimates,
                                 row['ests'])),
           'run estimates', dict(info, want=row['ests'], got=str(
               res.lower_bound_divergence_estimates)), key=key)
  c.expect(res.termination_reason == REASON[v], 'run verdict', dict(
      info, want=v, got=str(res.termination_reason)), key=key)
  fp = res.found_privacy_violation
  c.expect((fp is not None) == (v == 'found') and (
      fp is None or fp.failure_probability == cfg.failure_probability),
           'run confidence', dict(info, got=str(fp)), key=key)
  c.expect(res.num_inspected_trials == n, 'run count', dict(
      info, want=n, got=res.num_inspected_trials), key=key)
  c.expect(res.mechanism_name == name and
           res.max_num_trials == cfg.max_num_trials and
           res.property_tester == cfg.property_tester and
           res.privacy_property == w.privacy_property, 'run preamble',
           dict(info, got=str(res)), key=key)
  c.expect(all(w.drawn.get((t, d), 0) == 1 and w.compared.get((t, d), 0) == 1
               for t in row['drawn'] for d in (1, 2)) and
           len(w.drawn) == 2 * len(row['drawn']), 'run both directions',
           dict(info, drawn=str(w.drawn), compared=str(w.compared)), key=key)
  seen = {t for t, _ in w.judged}
  c.expect(seen == set(row['drawn']) and all(
      same(x, row['ests'][t - 1]) for t, x in w.judged),
           'run judges the largest', dict(info, judged=str(w.judged)),
           key=key)


def run_row(c, rng, row, scale, shift, post, generator=None, info=None):
  aff = lambda x: NONE if x == NONE else x * scale + shift
  row = dict(row, script=[[aff(a), aff(b)] for a, b in row['script']],
             ests=[aff(x) for x in row['ests']],
             told=[aff(x) for x in row['told']])
  cfg = rc.PrivacyTestRunnerConfig(
      property_tester=rng.choice(list(rc.PropertyTester)),
      max_num_trials=row['limit'],
      failure_probability=rng.choice([.05, .2, 1e-9]),
      num_samples=rng.choice([2, 3, 7]), post_processing=post)
  w = World(row['script'], row['fault'], post, cfg.num_samples,
            cfg.failure_probability, aff(1), rng, generator)
  runner = ptr.PrivacyTestRunner(cfg, w.generate, Tester(w))
  name = 'm%d' % rng.randrange(1000)
  got = observe(runner.test_privacy, w.mechanism, name)
  info = dict(info or {}, limit=row['limit'], script=row['script'],
              fault=row['fault'], threshold=aff(1), post=post.name)
  judge(c, info, w, got, row, cfg, name)
  c.traces += 1
  return runner, w, got


def expected(script, limit, threshold):
  ests, told, drawn = [], [NONE] if limit else [], []
  verdict = 'limit'
  for t in range(limit):
    ests.append(max(script[t]))
    drawn.append(t + 1)
    if ests[-1] > threshold:
      verdict = 'found'
      break
    if t + 1 < limit:
      told.append(ests[-1])
  return dict(limit=limit, script=script, fault=[0, 'none'], verdict=verdict,
              ests=ests, told=told, drawn=drawn)


def with_study(c, rng):
  """The runner with the study driven generator: each proposal is told its
  own estimate."""
  for k in range(c.pick(300, 4000)):
    limit = rng.randrange(1, 9)
    script = [[rng.choice([-2, -1, 0, 0, 1, 2 if rng.random() < .2 else 0])
               for _ in range(2)] for _ in range(limit)]
    n = rng.choice([2, 3, 12])
    auditstubs.Study.propose = lambda st, i, n=n: dict(rng.sample(
        [('x%d' % j, float(i)) for j in range(n)], n))
    gen = vg.VizierScalarDataAddRemoveGenerator(
        dgc.VizierDatasetGeneratorConfig(
            'study%d' % k, 'owner', n, dgc.DataType.DATA_TYPE_FLOAT, 0.0, 9.0,
            'RANDOM_SEARCH', 'metric'))
    study = auditstubs.Study.created[-1]
    row = expected(script, limit, 1)
    _, w, _ = run_row(c, rng, row, 1, 0, rc.PostProcessing.NONE, gen,
                      dict(study=k))
    told = [[m['metric'] for m in t.completed] for t in study.trials]
    want = [[x] for x in row['ests'][:-1]] + [[]]
    c.expect(told == want, 'study hears each estimate', dict(
        script=script, want=want, got=told),
             key='study hears %s' % script)


def twice(c, rng):
  """A second test with the same runner starts anew."""
  for _ in range(c.pick(200, 2000)):
    limit = rng.randrange(0, 4)
    scripts = [[[rng.choice([-1, 0, 2 if rng.random() < .3 else 0])
                 for _ in range(2)] for _ in range(limit)] for _ in range(2)]
    post = rng.choice(list(POST))
    cfg = rc.PrivacyTestRunnerConfig(
        rc.PropertyTester.MMD_TESTER, limit, .1, 3, post)
    w = World(scripts[0], [0, 'none'], post, 3, .1, 1, rng)
    runner = ptr.PrivacyTestRunner(cfg, w.generate, Tester(w))
    first = observe(runner.test_privacy, w.mechanism, 'a')
    judge(c, dict(first=scripts[0]), w, first,
          expected(scripts[0], limit, 1), cfg, 'a')
    w.__init__(scripts[1], [0, 'none'], post, 3, .1, 1, rng)
    second = observe(runner.test_privacy, w.mechanism, 'b')
    judge(c, dict(first=scripts[0], second=scripts[1]), w, second,
          expected(scripts[1], limit, 1), cfg, 'b')
    if first[0] == 'ok':
      c.expect(first[1].lower_bound_divergence_estimates ==
               expected(scripts[0], limit, 1)['ests'],
               'results are kept', dict(scripts=scripts))
    c.traces += 2


def extremes(c, rng):
  nan, inf = math.nan, math.inf
  for script, limit in (
      ([[nan, nan]], 1), ([[nan, nan], [0, 2]], 2), ([[-inf, inf]], 1),
      ([[-inf, -inf], [inf, -inf]], 2), ([[1, 1], [1 + 1e-12, 0]], 2),
      ([[-inf, -inf]] * 3, 3), ([[0, 0]] * 400, 400),
      ([[0, 0]] * 399 + [[0, 1.5]], 400)):
    row = expected(script, limit, 1)
    row['ests'] = [a if a != a else e for e, (a, b) in zip(
        row['ests'], script)]
    run_row(c, rng, row, 1, 0, rc.PostProcessing.NONE)
  # an estimate as numpy scalars
  for script in ([[np.float64(0), np.float32(2)]], [[np.float32(.5)] * 2]):
    run_row(c, rng, expected(script, 1, 1), 1, 0, rc.PostProcessing.NONE)
  for bad in (None, 'TANH', 7):
    got = observe(ptr.PrivacyTestRunner, rc.PrivacyTestRunnerConfig(
        rc.PropertyTester.MMD_TESTER, 1, .1, 3, bad), lambda x: None, None)
    c.expect(got[:2] == ('err', 'ValueError'), 'post-processing refused',
             dict(bad=str(bad), got=str(got)))


def post_processing(c, rng):
  for _ in range(c.pick(200, 2000)):
    n = rng.choice([1, 2, 5, 50])
    x = np.array([[rng.choice([0.0, rng.gauss(0, 1), rng.gauss(0, 30)])]
                  for _ in range(n)])
    if rng.random() < .3:
      x = x.reshape(-1)
    for post, fn in POST.items():
      runner = ptr.PrivacyTestRunner(rc.PrivacyTestRunnerConfig(
          rc.PropertyTester.MMD_TESTER, 1, .1, n, post), None, None)
      before = x.copy()
      got = observe(runner.maybe_postprocess, x)
      e = fn(before)
      c.expect(got[0] == 'ok' and np.shape(got[1]) == np.shape(e) and
               np.allclose(got[1], e, atol=1e-9) and (x == before).all(),
               'post-processing', dict(post=post.name, x=before.tolist()[:5],
                                       got=str(got)[:300]))


def body(prop):
  assert prop == 'C19'

  def run(c):
    rng = random.Random(c.seed * 7919 + 19)
    r = c.tlc('RunRunner', CFG % c.pick(3, 4), timeout=800, extra_modules={
        'RunRunner.tla': WRAP % c.pick('{-1, 0, 2}', '{0, 2}')})
    rows = list({repr(x): x for x in r.rows}.values())
    if c.thorough:
      r = c.tlc('RunRunner', CFG % 3, timeout=800, extra_modules={
          'RunRunner.tla': WRAP % '{-2, -1, 0, 1, 2}'})
      rows += list({repr(x): x for x in r.rows}.values())
    c.sample(rows[len(rows) // 2])
    rng.shuffle(rows)
    for row in rows:
      scale, shift = rng.choice([(1, 0), (1, 0), (.01, 0), (1, -5), (3, 2)])
      post = rng.choice([rc.PostProcessing.NONE] * 4 + list(POST))
      run_row(c, rng, row, scale, shift, post)
    c.distinct.update(repr(x['script']) for x in rows)
    with_study(c, rng)
    twice(c, rng)
    extremes(c, rng)
    post_processing(c, rng)
    c.assumptions += [
        'tensorflow and vizier are not installed: recorders stand in',
        'which of two estimates counts when only one is not a number is left '
        'open']
  return run
