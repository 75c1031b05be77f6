"""C20: testers reject only on evidence; generators propose neighbours."""
import math
import random

import numpy as np

from harness import auditstubs
auditstubs.install()

# pylint: disable=g-import-not-at-top
from dp_auditorium.configs import dataset_generator_config as dgc
from dp_auditorium.configs import privacy_property as pp
from dp_auditorium.configs import property_tester_config as tc
from dp_auditorium.generators import classification_dataset_generator as cgen
from dp_auditorium.generators import constant_dataset_generator as kgen
from dp_auditorium.generators import pipeline_dp_vizier_dataset_generator as pgen
from dp_auditorium.generators import vizier_dataset_generator as vgen
from dp_auditorium.mechanisms.pipeline_dp import aggregation
from dp_auditorium.testers import histogram_tester
from dp_auditorium.testers import hockey_stick_tester
from dp_auditorium.testers import mmd_tester
from dp_auditorium.testers import property_tester_utils as utils
from dp_auditorium.testers import renyi_tester

from harness.vlib import observe

NONE = 1000
TESTERS = '''---- MODULE RunTesters ----
EXTENDS MCTesters
Rs == %s
Os == 0 .. 2
====
'''
TESTERS_CFG = '''SPECIFICATION Spec
CONSTANTS
 Outcomes <- Os
 MaxSize = %d
 Ratios <- Rs
 MmdSize = 2
 EmitRows = TRUE
INVARIANTS Bounded Dual SameNothing Merging MmdRange Variational Emitted
'''
GEN = '''---- MODULE RunGen ----
EXTENDS MCGen
Rs == {-2, 0, 2}
====
'''
GEN_CFG = '''SPECIFICATION Spec
CONSTANTS
 Results <- Rs
 MaxCalls = %d
 EmitRows = TRUE
INVARIANTS Once Delivered Stands Emitted
'''
TRACE_CFG = '''SPECIFICATION Spec
'''


def same(a, b, tol=1e-9):
  if a != a or b != b:
    return a != a and b != b
  return a == b or abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def reads(tester, s1, s2, beta):
  got = observe(tester.estimate_lower_bound, s1, s2, beta)
  return ('ok', float(got[1])) if got[0] == 'ok' else got


def verdict(c, tester, value, threshold, info, clause, given=True):
  """Nothing short of the threshold (or not a number) is rejected."""
  for x in (value, threshold - 1e-9, threshold - 1, threshold + 1e-9,
            threshold + 1, -math.inf, math.inf, math.nan, threshold):
    if x == threshold and not given:
      continue   # computed: may be off by a rounding
    got = observe(tester.reject_property, x)
    c.expect(got[0] == 'ok' and bool(got[1]) == (x > threshold), clause,
             lambda x=x, got=got: dict(info, value=x, threshold=threshold,
                                       got=str(got)))


def untouched(c, before, after, clause, info):
  c.expect(all(np.array_equal(a, b) for a, b in zip(before, after)), clause,
           info)


# ------------------------------------------------------------------ histogram
def hist_slack(eps, beta, n, size, p1, p2, original):
  if original:
    one = 2 * (1 + math.exp(eps)) * math.sqrt(size / n)
  else:
    one = 2 / math.sqrt(n) * (sum(map(math.sqrt, p1)) +
                              math.exp(eps) * sum(map(math.sqrt, p2)))
  return one + 6 * (1 + math.exp(eps)) * math.sqrt(
      math.log(4 / beta) / (2 * n))


def hist_tester(discrete, size, lo, hi, eps, delta, original):
  return histogram_tester.HistogramTester(tc.HistogramPropertyTesterConfig(
      test_discrete_mechanism=discrete, histogram_size=size, min_value=lo,
      max_value=hi, approximate_dp=pp.ApproximateDp(eps, delta),
      use_original_tester=original))


def place(rng, s, size, lo, hi):
  """Real values that fall in the bins of s, some beyond the ends."""
  w = (hi - lo) / size
  out = []
  for o in s:
    x = lo + w * (o + rng.uniform(.05, .95))
    if o == 0 and rng.random() < .3:
      x = lo - rng.choice([0, 1e-3, 1.0, 1e6]) * w
    if o == size - 1 and rng.random() < .3:
      x = hi + rng.choice([0, 1e-3, 1.0, 1e6]) * w
    out.append(x)
  return np.array(out)


def hist_rows(c, rng, rows):
  for row in rows:
    a, b = list(row['s1']), list(row['s2'])
    rng.shuffle(a)
    rng.shuffle(b)
    size = rng.choice([3, 3, 4, 10])
    if size == 3:
      names = rng.choice([[0, 1, 2], [2, 0, 1], [1, 2, 0]])
    else:
      names = rng.sample(range(size), 3)
    a, b = [names[o] for o in a], [names[o] for o in b]
    times = rng.choice([1, 1, 1, 50, 4000])   # the same histogram, more samples
    num, den = row['ratio']
    eps = math.log(num / den)
    beta = rng.choice([.05, .2, .5, 1e-9])
    delta = rng.choice([0.0, 1e-6, .01, .3, 1.0, 2.0])
    original, discrete = rng.random() < .4, rng.random() < .5
    if discrete:
      s1, s2 = np.array(a * times), np.array(b * times)
      lo, hi = rng.choice([(0, 1), (0, size), (5, -5)])
    else:
      lo, hi = rng.choice([(0, 3), (-7.0, .5), (1e3, 1e3 + 1)])
      s1, s2 = place(rng, a, size, lo, hi), place(rng, b, size, lo, hi)
      s1, s2 = np.tile(s1, times), np.tile(s2, times)
    t = hist_tester(discrete, size, lo, hi, eps, delta, original)
    info = dict(s1=a, s2=b, times=times, eps=eps, beta=beta, delta=delta,
                original=original, discrete=discrete, size=size)
    keep = s1.copy(), s2.copy()
    got = reads(t, s1, s2, beta)
    p1 = [a.count(o) / len(a) for o in range(size)]
    p2 = [b.count(o) / len(b) for o in range(size)]
    want = row['excess'] / row['common'] - hist_slack(
        eps, beta, min(len(s1), len(s2)), size, p1, p2, original)
    c.expect(got[0] == 'ok' and same(got[1], want), 'histogram value',
             lambda: dict(info, want=want, got=got))
    untouched(c, keep, (s1, s2), 'samples are kept', info)
    if got[0] == 'ok':
      verdict(c, t, got[1], delta, info, 'histogram verdict')
      if row['excess'] == 0:
        c.expect(not t.reject_property(got[1]), 'histogram equal samples',
                 info)
    c.traces += 1
    c.distinct.add(('h', tuple(row['s1']), tuple(row['s2']), num, den))


def hist_edges(c, rng):
  for _ in range(c.pick(60, 600)):
    size = rng.choice([1, 2, 5])
    eps, beta = rng.choice([.1, 1.0, 5.0]), rng.choice([.05, .25])
    good = np.array([rng.randrange(size) for _ in range(rng.choice([1, 4]))])
    for bad in (np.array([size]), np.array([-1]), np.array([], dtype=int),
                np.array([0, size + 3]), np.array([0, -2])):
      t = hist_tester(True, size, 0, 1, eps, 0.0, False)
      for x, y in ((bad, good), (good, bad)):
        got = reads(t, x, y, beta)
        c.expect(got[:2] == ('err', 'ValueError'), 'histogram range', dict(
            x=x.tolist(), y=y.tolist(), size=size, got=str(got)))
    t = hist_tester(False, size, 0.0, 1.0, eps, 0.0, False)
    empty = np.array([])
    for x, y in ((empty, good / size), (good / size, empty), (empty, empty)):
      got = reads(t, x, y, beta)
      c.expect(got[:2] == ('err', 'ValueError'), 'histogram empty', dict(
          x=x.tolist(), got=str(got)))
  # few samples never suffice, whatever they are
  for _ in range(c.pick(200, 3000)):
    n, m = rng.randrange(1, 9), rng.randrange(1, 9)
    size = rng.choice([1, 2, 5])
    t = hist_tester(True, size, 0, 1, rng.uniform(.01, 3), 0.0,
                    rng.random() < .5)
    s1 = np.array([rng.randrange(size) for _ in range(n)])
    s2 = np.array([rng.randrange(size) for _ in range(m)])
    got = reads(t, s1, s2, .25)
    c.expect(got[0] == 'ok' and not t.reject_property(got[1]),
             'histogram few samples', dict(s1=s1.tolist(), s2=s2.tolist()))
  # large samples over many bins
  for _ in range(c.pick(40, 400)):
    size, n, m = rng.choice([1, 7, 40, 130, 700]), rng.choice([500, 3000]), rng.choice(
        [400, 5000])
    g = np.random.default_rng(rng.randrange(1 << 30))
    x, y = g.normal(0, 1, n), g.normal(rng.choice([0, 1, 4]), 1, m)
    eps, beta = rng.uniform(.01, 3), rng.uniform(.001, .99)
    original = rng.random() < .5
    lo, hi = -2.5, 3.0
    idx = lambda v: np.clip(((np.clip(v, lo, hi) - lo) / (hi - lo) * size
                            ).astype(int), 0, size - 1)
    p1 = np.bincount(idx(x), minlength=size) / n
    p2 = np.bincount(idx(y), minlength=size) / m
    want = float(np.maximum(p1 - math.exp(eps) * p2, 0).sum()) - hist_slack(
        eps, beta, min(n, m), size, p1, p2, original)
    for discrete in (False, True):
      t = hist_tester(discrete, size, lo, hi, eps, 1e-3, original)
      got = reads(t, idx(x) if discrete else x, idx(y) if discrete else y,
                  beta)
      c.expect(got[0] == 'ok' and same(got[1], want), 'histogram value',
               dict(n=n, m=m, size=size, eps=eps, discrete=discrete,
                    original=original, want=want, got=got))


# ----------------------------------------------------------------------- mmd
def mmd_value(h, n, eps, beta):
  mean = sum(h) / n
  var = max(0.0, sum(x * x for x in h) / n - mean * mean)
  tol = [math.sqrt(8 * math.log(1 / beta) / n),
         math.inf if n == 1 else math.sqrt(
             2 * var * math.log(2 / beta) / n) + 28 * math.log(2 / beta) / (
                 3 * (n - 1))]
  a, b, d = math.exp(eps) - 1, math.exp(eps) - math.exp(-eps), 1 + math.exp(
      -eps)
  return max((math.sqrt(max(0.0, b * b + d * (mean - t - a * a))) - b) / d
             for t in tol)


def mmd_tester_of(kernel, bandwidth, eps, delta):
  return mmd_tester.MMDPropertyTester(tc.MMDPropertyTesterConfig(
      kernel=kernel, bandwidth=bandwidth,
      approximate_dp=pp.ApproximateDp(eps, delta)))


RBF, LAP = tc.Kernel.KERNEL_RBF, tc.Kernel.KERNEL_LAPLACIAN


def mmd_rows(c, rng, rows):
  for row in rows:
    dim = rng.choice([0, 1, 2])
    times = rng.choice([1, 1, 1, 30, 400]) if rng.random() < .3 else 1
    half = row['half']
    lift = lambda s: np.array(
        [float(o) if dim == 0 else [float(o)] * dim
         for part in (s[:half], s[half:]) for _ in range(times)
         for o in part])
    s1, s2 = lift(row['s1']), lift(row['s2'])
    eps = rng.choice([.1, .5, 1.0, 3.0])
    beta, delta = rng.choice([.05, .2, 1e-6, .9]), rng.choice(
        [0.0, .01, .2, 1.0])
    t = mmd_tester_of(rng.choice([RBF, LAP]), 1e5, eps, delta)
    # sums of the specification: mean and mean square of h
    n = half * times
    mean, sq = row['sum'] / half, row['squares'] / half
    h = None
    info = dict(s1=row['s1'], s2=row['s2'], times=times, eps=eps, beta=beta,
                dim=dim)
    got = reads(t, s1, s2, beta)
    var = max(0.0, sq - mean * mean)
    # any list with these moments gives the same value
    want = mmd_moments(mean, var, n, eps, beta)
    c.expect(got[0] == 'ok' and same(got[1], want, 1e-7), 'mmd value',
             lambda: dict(info, want=want, got=got))
    if got[0] == 'ok':
      verdict(c, t, got[1], delta, info, 'mmd verdict')
      if times == 1 and beta < .5:
        c.expect(not t.reject_property(got[1]), 'mmd few samples', info)
      if row['s1'] == row['s2']:
        c.expect(not t.reject_property(got[1]), 'mmd equal samples', info)
    del h
    c.traces += 1
    c.distinct.add(('m', tuple(row['s1']), tuple(row['s2'])))


def mmd_moments(mean, var, n, eps, beta):
  tol = [math.sqrt(8 * math.log(1 / beta) / n)]
  if n > 1:
    tol.append(math.sqrt(2 * var * math.log(2 / beta) / n) +
               28 * math.log(2 / beta) / (3 * (n - 1)))
  a, b, d = math.exp(eps) - 1, math.exp(eps) - math.exp(-eps), 1 + math.exp(
      -eps)
  # with no sample to spare the second tolerance is infinite
  vals = [(math.sqrt(max(0.0, b * b + d * (mean - t - a * a))) - b) / d
          for t in tol + ([math.inf] if n == 1 else [])]
  return max(vals)


def mmd_random(c, rng):
  for _ in range(c.pick(150, 2000)):
    g = np.random.default_rng(rng.randrange(1 << 30))
    n, m = (rng.choice([2, 3, 5, 9, 40, 300]) for _ in range(2))
    if rng.random() < .5:
      m = n
    shape = rng.choice([(), (1,), (3,)])
    shift = rng.choice([0, 0, .5, 5])
    s1, s2 = g.normal(0, 1, (n,) + shape), g.normal(shift, 1, (m,) + shape)
    kernel, bw = rng.choice([RBF, LAP]), rng.choice([.1, 1.0, 3.0])
    eps, beta, delta = rng.uniform(.01, 2), rng.uniform(1e-4, .99), rng.choice(
        [0.0, .01])
    k = (lambda x, y: math.exp(-bw * float(np.sum((x - y)**2)))
        ) if kernel == RBF else (
            lambda x, y: math.exp(-bw * float(np.sum(np.abs(x - y)))))
    a, b = s1[:n // 2], s1[n // 2:]
    x, y = s2[:m // 2], s2[m // 2:]
    num = min(n // 2, m // 2)
    h = [k(a[i], b[i]) - 2 * k(a[i], x[i]) + k(x[i], y[i]) for i in range(num)]
    t = mmd_tester_of(kernel, bw, eps, delta)
    keep = s1.copy(), s2.copy()
    got = reads(t, s1, s2, beta)
    want = mmd_value(h, num, eps, beta)
    info = dict(n=n, m=m, shape=shape, kernel=kernel.name, bandwidth=bw,
                eps=eps, beta=beta, shift=shift)
    c.expect(got[0] == 'ok' and same(got[1], want, 1e-7), 'mmd value', dict(
        info, want=want, got=got))
    untouched(c, keep, (s1, s2), 'samples are kept', info)
  # a distant pair with many samples is found
  t = mmd_tester_of(RBF, 1.0, .1, 0.0)
  got = reads(t, np.zeros(800), np.full(800, 9.0), .05)
  c.expect(got[0] == 'ok' and bool(t.reject_property(got[1])),
           'mmd finds', dict(got=got))
  for bad in (tc.Kernel.KERNEL_UNSPECIFIED,):
    got = observe(mmd_tester_of, bad, 1.0, 1.0, 0.0)
    c.expect(got[:2] == ('err', 'ValueError'), 'mmd kernel', dict(
        got=str(got)))


# --------------------------------------------------------------- hockey stick
def training(**kw):
  return tc.TrainingConfig(**dict(dict(
      training_epochs=1, batch_size=10, optimizer_learning_rate=.01,
      model_output_coordinate_bound=1.0, verbose=0), **kw))


class Watch:
  """Collects what the models were trained on."""

  def __init__(self):
    self.fits = []

  def __enter__(self):
    auditstubs.Model.on_fit = lambda m, x, y: self.fits.append((m, x, y))
    return self

  def __exit__(self, *a):
    auditstubs.Model.on_fit = None


SECOND = 1000000


def names(x):
  """Sample numbers from the values that carry them."""
  v = np.asarray(x, dtype=float)
  v = v.reshape(len(v), -1)[:, 0]
  first = [int(round(a)) for a in v if a < SECOND]
  second = [int(round(a - SECOND)) for a in v if a >= SECOND]
  return first, second


def numbered(n, base, rank):
  x = np.arange(1, n + 1, dtype=float) + base
  if rank == 1:
    return x
  return np.stack([x] * (1 if rank == 2 else 3), axis=1)


def hockey(c, rng, trace):
  bound = lambda beta, n: math.sqrt(math.log(1 / beta) / 2 / n)
  for k in range(c.pick(400, 4000)):
    num, den = rng.choice([(2, 1), (3, 2), (3, 1), (5, 1), (11, 10), (20, 1)])
    eps = math.log(num / den)
    n1 = rng.choice([2, 3, 4, 5, 10, 41, 200])
    n2 = n1 if rng.random() < .5 else rng.choice([2, 3, 7, 11, 100])
    rank = rng.choice([1, 2, 3])
    beta, delta = rng.choice([.05, .25, 1e-9, .8]), rng.choice(
        [0.0, 1e-6, .1, .9, 1.0, 1.5])
    say = set()
    for base, n in ((0, n1), (SECOND, n2)):
      how = rng.choice(['all', 'none', 'some', 'right'])
      say |= {base + i for i in range(1, n + 1) if how == 'all' or (
          how == 'some' and rng.random() < .5) or (how == 'right' and base)}

    def predict(x, say=say):
      v = x.reshape(len(x), -1)[:, 0]
      return np.array([[.4 if int(round(a)) in say else -.4] for a in v])
    base_model = auditstubs.Sequential(predict_fn=predict)
    conf = training(training_epochs=rng.choice([1, 3]),
                    model_output_coordinate_bound=rng.choice(
                        [None, 1.0, 7.0, .2]))
    t = hockey_stick_tester.HockeyStickPropertyTester(
        tc.HockeyStickPropertyTesterConfig(
            conf, pp.ApproximateDp(eps, delta),
            evaluation_batch_size=rng.choice([1, 1000])), base_model)
    s1, s2 = numbered(n1, 0, rank), numbered(n2, SECOND, rank)
    info = dict(n1=n1, n2=n2, ratio=[num, den], beta=beta, delta=delta,
                rank=rank, round=k)
    for again in range(2):
      keep = s1.copy(), s2.copy()
      seen = len(base_model.clones)
      with Watch() as w:
        got = reads(t, s1, s2, beta)
      untouched(c, keep, (s1, s2), 'samples are kept', info)
      if not c.expect(got[0] == 'ok', 'hockey answers', dict(info, got=got)):
        continue
      used = [m for m in [base_model] + base_model.clones[seen:] if m.evals]
      evals = [e for m in used for e in m.evals]
      # a model that was trained before would carry over what it learned
      c.expect(len(evals) == 1 and len(w.fits) == 1 and used[0] is w.fits[0][0]
               and len(used[0].fits) == 1, 'hockey trains anew', dict(
                   info, again=again, fits=len(w.fits), evals=len(evals)))
      for m in used:
        m.evals = []
      if not evals or not w.fits:
        continue
      x, y = evals[0]
      fx, fy = w.fits[0][1], w.fits[0][2]
      for feats, labs in ((x, y), (fx, fy)):
        v = feats.reshape(len(feats), -1)[:, 0]
        c.expect(len(feats) == len(labs) and
                 ((v >= SECOND) == (labs.reshape(-1) > .5)).all(),
                 'hockey labels', info)
      ev, tr = names(x), names(fx)
      n = len(x)
      acc = (got[1] + num / den) / (1 + num / den) + bound(beta, n)
      correct = acc * n
      c.expect(abs(correct - round(correct)) < 1e-6 and 0 <= round(correct)
               <= n, 'hockey slack', dict(info, got=got, evaluated=n,
                                          correct=correct))
      trace.append((dict(info, got=got, zeros=ev[0], ones=ev[1],
                         train=tr), dict(
          n1=n1, n2=n2, train1=tr[0], train2=tr[1], zeros=ev[0], ones=ev[1],
          num=num, den=den, weighted=True, correct=int(round(correct)),
          say1=sorted(i for i in say if i < SECOND),
          say2=sorted(i - SECOND for i in say if i >= SECOND))))
      verdict(c, t, got[1], delta, info, 'hockey verdict')
      c.expect(t.privacy_property.approximate_dp == pp.ApproximateDp(
          eps, delta), 'hockey property', info)
      c.traces += 1
      c.distinct.add(('k', n1, n2, num, den))
  # nothing to tell apart
  for _ in range(c.pick(300, 3000)):
    num, den = rng.choice([(2, 1), (3, 2), (101, 100), (9, 1)])
    n1 = rng.randrange(2, 60)
    n2 = rng.choice([n1, n1, n1 + 1, 2 * n1, 9 * n1])
    value = rng.choice([0.0, 3.5, -1e9])
    model = auditstubs.Sequential(predict_fn=lambda x, o=rng.choice(
        [-1.0, 1.0, 0.0]): np.full((len(x), 1), o))
    t = hockey_stick_tester.HockeyStickPropertyTester(
        tc.HockeyStickPropertyTesterConfig(
            training(), pp.ApproximateDp(math.log(num / den), 0.0)), model)
    a, b = np.full((n1, 1), value), np.full((n2, 1), value)
    if rng.random() < .5:
      a, b = b, a
    got = reads(t, a, b, rng.choice([.25, .1, .01]))
    c.expect(got[0] == 'ok' and not t.reject_property(got[1]),
             'hockey equal samples', dict(n1=n1, n2=n2, ratio=[num, den],
                                          got=got))
  model = auditstubs.Sequential()
  t = hockey_stick_tester.HockeyStickPropertyTester(
      tc.HockeyStickPropertyTesterConfig(training(), pp.ApproximateDp(1.0, .1)
                                        ), model)
  for a, b in ((np.zeros(6), np.zeros((6, 1))),
               (np.zeros((6, 1, 1)), np.zeros((6, 1)))):
    got = reads(t, a, b, .1)
    c.expect(got[:2] == ('err', 'ValueError'), 'hockey ranks', dict(
        got=str(got)))


# --------------------------------------------------------------------- Renyi
def renyi_slack(beta, n, bound, alpha):
  l = math.log(2 / beta)
  gamma = max(math.sqrt(3 * l * math.exp(2 * (alpha - 1) * bound) / n),
              math.sqrt(2 * l * math.exp(2 * alpha * bound) / n))
  return math.log((1 + gamma) / (1 - gamma)) if gamma < 1 else math.nan


def renyi_of(prop, alpha, bound, model):
  return renyi_tester.RenyiPropertyTester(tc.RenyiPropertyTesterConfig(
      alpha, training(model_output_coordinate_bound=bound), prop), model)


class Weighed(auditstubs.Dense):
  """A layer whose weights training leaves changed."""

  def __init__(self, start):
    super().__init__()
    self.start = start
    self.kernel_initializer = lambda s, *a, **kw: np.full((1, 1), start)
    self.bias_initializer = lambda s, *a, **kw: np.full((1,), -start)
    self.spoil()

  def spoil(self):
    self.kernel.assign(np.full((1, 1), 77.0))
    self.bias.assign(np.full((1,), 78.0))

  def fresh(self):
    return float(self.kernel.value.reshape(-1)[0]) == self.start and float(
        self.bias.value.reshape(-1)[0]) == -self.start


def renyi_rows(c, rng, rows, trace):
  for row in rows:
    times = rng.choice([1, 40, 3000])
    g = row['g']
    by = {o: g[o] * 50.0 for o in range(3)}
    bound = math.log(2)
    eps = rng.choice([.1, .5, 2.0])
    pure = rng.random() < .4
    prop = pp.PrivacyProperty(pure_dp=pp.PureDp(eps)) if pure else (
        pp.PrivacyProperty(renyi_dp=pp.RenyiDp(2, eps)))
    beta = rng.choice([.05, .2, 1e-6])
    layers = [Weighed(.25), Weighed(-3.0)]
    model = auditstubs.Sequential(layers, predict_fn=lambda x: np.array(
        [[by[int(v)]] for v in x.reshape(len(x), -1)[:, -1]]))
    t = renyi_of(prop, 2, bound, model)
    info = dict(s1=row['s1'], s2=row['s2'], g=g, times=times, eps=eps,
                beta=beta, pure=pure)
    a, b = row['s1'] * times, row['s2'] * times
    rng.shuffle(a)
    rng.shuffle(b)
    # halves for training: one fewer or as many
    m1, m2 = (max(1, len(x) - rng.randrange(2)) for x in (a, b))
    o1 = [rng.randrange(3) for _ in range(m1)] + a
    o2 = [rng.randrange(3) for _ in range(m2)] + b
    s1 = np.array(list(zip(range(1, len(o1) + 1), o1)), dtype=float)
    s2 = np.array(list(zip(range(SECOND + 1, SECOND + len(o2) + 1), o2)),
                  dtype=float)
    want = 2 * math.log(row['t1'] / (4 * len(row['s1']))) - math.log(
        row['t2'] / (4 * len(row['s2']))) if row['t1'] else None
    n = min(len(a), len(b))
    slack = renyi_slack(beta, n, bound, 2)
    for again in range(2 if times == 1 else 1):
      fresh = []
      model.log.clear()
      with Watch() as w:
        auditstubs.Model.on_fit = lambda m, x, y: (
            w.fits.append((m, x, y)), fresh.append(
                all(l.fresh() for l in layers)), [l.spoil() for l in layers])
        keep = s1.copy(), s2.copy()
        got = reads(t, s1, s2, beta)
      untouched(c, keep, (s1, s2), 'samples are kept', info)
      c.expect(fresh == [True], 'renyi trains anew', dict(info, fresh=fresh,
                                                          again=again))
      c.expect(got[0] == 'ok' and same(got[1], want - slack, 1e-6),
               'renyi value', lambda: dict(info, want=want - slack, got=got))
      if got[0] != 'ok':
        continue
      if slack != slack:
        c.expect(not t.reject_property(got[1]), 'renyi few samples', info)
      verdict(c, t, got[1], min(eps, 4 * eps**2) if pure else eps, info,
              'renyi verdict', not pure)
      if len(w.fits) == 1 and times < 3000:
        calls = [x for kind, x, _ in model.log]
        judged = [names(x) for x in calls]
        f1, f2 = names(w.fits[0][1]), names(w.fits[0][2])
        c.expect(not f1[1] and not f2[0], 'renyi training sides', info)
        trace.append((dict(info, judged=judged[:2], m1=m1, m2=m2), dict(
            n1=len(s1), n2=len(s2), train1=f1[0], train2=f2[1],
            zeros=[i for j in judged for i in j[0]],
            ones=[i for j in judged for i in j[1]],
            num=1, den=1, weighted=False, correct=0, say1=[], say2=[])))
    c.traces += 1
    c.distinct.add(('r', tuple(row['s1']), tuple(row['s2']), tuple(g)))


def renyi_random(c, rng):
  """Any order and bound: the value of the model's output, minus the slack."""
  for _ in range(c.pick(200, 3000)):
    alpha = rng.choice([1.01, 1.5, 2.0, 3.0, 6.5])
    bound = rng.choice([.01, .3, 1.0, 2.5])
    beta, eps = rng.uniform(1e-4, .99), rng.uniform(.01, 3)
    n, m = rng.choice([2, 5, 60, 20000]), rng.choice([2, 7, 61, 30000])
    g = np.random.default_rng(rng.randrange(1 << 30))
    model = auditstubs.Sequential(predict_fn=lambda x: 3 * x)
    pure = rng.random() < .5
    prop = pp.PrivacyProperty(pure_dp=pp.PureDp(eps)) if pure else (
        pp.PrivacyProperty(renyi_dp=pp.RenyiDp(alpha, eps)))
    t = renyi_of(prop, alpha, bound, model)
    s1, s2 = g.normal(0, 1, (n, 1)), g.normal(1, 1, (m, 1))
    got = reads(t, s1, s2, beta)
    a = bound * np.tanh(3 * s1[n // 2:])
    b = bound * np.tanh(3 * s2[m // 2:])
    want = alpha / (alpha - 1) * math.log(np.mean(np.exp((alpha - 1) * a))
                                         ) - math.log(
                                             np.mean(np.exp(alpha * b)))
    want -= renyi_slack(beta, min(len(a), len(b)), bound, alpha)
    info = dict(alpha=alpha, bound=bound, beta=beta, eps=eps, n=n, m=m,
                pure=pure)
    c.expect(got[0] == 'ok' and same(got[1], want, 1e-7), 'renyi value',
             lambda: dict(info, want=want, got=got))
    verdict(c, t, 0.0, min(eps, 2 * alpha * eps**2) if pure else eps, info,
            'renyi verdict', not pure)
    c.expect(t.privacy_property == prop, 'renyi property', info)
    # the same sample twice
    x = g.normal(0, 1, (2 * (n // 2), 1))
    got = reads(t, x, x.copy(), beta)
    c.expect(got[0] == 'ok' and not t.reject_property(got[1]),
             'renyi equal samples', dict(info, got=got))
  mk = lambda: auditstubs.Sequential()
  for why, prop, alpha, bound in (
      ('orders differ', pp.PrivacyProperty(renyi_dp=pp.RenyiDp(3, 1.0)), 2, 1),
      ('approximate', pp.PrivacyProperty(approximate_dp=pp.ApproximateDp(
          1.0, .1)), 2, 1),
      ('order one', pp.PrivacyProperty(renyi_dp=pp.RenyiDp(1, 1.0)), 1, 1),
      ('order below one', pp.PrivacyProperty(renyi_dp=pp.RenyiDp(.5, 1.0)),
       .5, 1),
      ('no order', pp.PrivacyProperty(renyi_dp=pp.RenyiDp(None, 1.0)), None, 1),
      ('epsilon', pp.PrivacyProperty(renyi_dp=pp.RenyiDp(2, -1.0)), 2, 1),
      ('epsilon zero', pp.PrivacyProperty(pure_dp=pp.PureDp(0.0)), 2, 1),
      ('no epsilon', pp.PrivacyProperty(pure_dp=pp.PureDp(None)), 2, 1),
      ('no bound', pp.PrivacyProperty(pure_dp=pp.PureDp(1.0)), 2, None),
      ('bound', pp.PrivacyProperty(pure_dp=pp.PureDp(1.0)), 2, -1.0)):
    got = observe(renyi_of, prop, alpha, bound, mk())
    c.expect(got[:2] == ('err', 'ValueError'), 'renyi refuses', dict(
        why=why, got=str(got)))


# ----------------------------------------------------- splitting, validation
def shared(c, rng):
  for _ in range(c.pick(100, 1000)):
    n = rng.choice([2, 3, 4, 7, 50, 51])
    shape = rng.choice([(n,), (n, 1), (n, 2, 3)])
    x = np.arange(int(np.prod(shape)), dtype=float).reshape(shape)
    got = observe(utils.split_train_test_samples, x)
    ok = got[0] == 'ok' and len(got[1]) == 2
    c.expect(ok and all(p.ndim == x.ndim and p.shape[0] >= 1 for p in got[1])
             and np.array_equal(np.concatenate(got[1]), x), 'split',
             dict(shape=shape, got=str(got)[:200]))
  for shape in ((1,), (1, 4)):
    got = observe(utils.split_train_test_samples, np.zeros(shape))
    c.expect(got[:2] == ('err', 'ValueError'), 'split one', dict(
        got=str(got)))
  hs = lambda e, d: hockey_stick_tester.HockeyStickPropertyTester(
      tc.HockeyStickPropertyTesterConfig(training(), pp.ApproximateDp(e, d)),
      auditstubs.Sequential())
  for make in (lambda e, d: hist_tester(True, 2, 0, 1, e, d, False),
               lambda e, d: mmd_tester_of(RBF, 1.0, e, d), hs):
    for e, d in ((None, .1), (0, .1), (0.0, 0.0), (-1.0, .1), (1.0, None),
                 (1.0, -1e-9), (None, None)):
      got = observe(make, e, d)
      c.expect(got[:2] == ('err', 'ValueError'), 'parameters refused', dict(
          epsilon=e, delta=d, got=str(got)))
    for e, d in ((1e-6, 0), (1.0, 0.0), (5.0, .5)):
      got = observe(make, e, d)
      if c.expect(got[0] == 'ok', 'parameters taken', dict(
          epsilon=e, delta=d, got=str(got))):
        c.expect(got[1].privacy_property == pp.PrivacyProperty(
            approximate_dp=pp.ApproximateDp(e, d)), 'tester property', dict(
                epsilon=e, delta=d))
        # one of the samples is too small to be split
        if make is not hs and not isinstance(
            got[1], mmd_tester.MMDPropertyTester):
          continue
        for a, b in ((1, 4), (4, 1), (1, 1)):
          g2 = observe(got[1].estimate_lower_bound, np.zeros((a, 1)),
                       np.zeros((b, 1)), .1)
          c.expect(g2[:2] == ('err', 'ValueError'), 'too small to split',
                   dict(a=a, b=b, got=str(g2)))
  for kw in (dict(training_epochs=0), dict(training_epochs=-1),
             dict(batch_size=0), dict(batch_size=-5), dict(batch_size=None),
             dict(optimizer_learning_rate=0.0),
             dict(optimizer_learning_rate=-.1),
             dict(optimizer_learning_rate=None),
             dict(training_epochs=None)):
    conf = training(**kw)
    for make in (
        lambda: hockey_stick_tester.HockeyStickPropertyTester(
            tc.HockeyStickPropertyTesterConfig(
                conf, pp.ApproximateDp(1.0, .1)), auditstubs.Sequential()),
        lambda: renyi_tester.RenyiPropertyTester(
            tc.RenyiPropertyTesterConfig(2, conf, pp.PrivacyProperty(
                pure_dp=pp.PureDp(1.0))), auditstubs.Sequential())):
      got = observe(make)
      c.expect(got[:2] == ('err', 'ValueError'), 'training refused', dict(
          kw=str(kw), got=str(got)))
  for n in range(8):
    kw = {}
    if n & 1:
      kw['pure_dp'] = pp.PureDp(1.0)
    if n & 2:
      kw['renyi_dp'] = pp.RenyiDp(2.0, 1.0)
    if n & 4:
      kw['approximate_dp'] = pp.ApproximateDp(1.0, .1)
    got = observe(pp.PrivacyProperty, **kw)
    c.expect((got[0] == 'ok') == (len(kw) == 1) and (
        got[0] == 'ok' or got[1] == 'ValueError'), 'one property', dict(
            kw=str(kw), got=str(got)))


# ---------------------------------------------------------------- generators
def rows_of(data):
  return [tuple(np.asarray(x, dtype=float).reshape(-1)) if not isinstance(
      x, tuple) else tuple(float(v) for v in x) for x in data]


class Maker:
  """One kind of generator with random sizes and ranges."""

  def __init__(self, kind, rng):
    self.kind, self.rng = kind, rng
    lo = rng.choice([-3.0, 0.0, 2.0])
    hi = lo + rng.choice([1.0, 10.0])
    self.lo, self.hi = lo, hi
    self.asked = 0
    common = dict(study_name='s%d' % rng.randrange(10**9),
                  study_owner='owner', min_value=lo, max_value=hi,
                  search_algorithm='RANDOM_SEARCH', metric_name='gap')
    self.int = False
    if kind == 'scalar' and rng.random() < .2:
      self.hi = hi = hi + rng.choice([.3, .9])
      common['max_value'] = hi
    if kind == 'scalar':
      self.n = rng.choice([1, 2, 3, 11, 30])
      self.int = rng.random() < .5
      self.make = lambda: vgen.VizierScalarDataAddRemoveGenerator(
          dgc.VizierDatasetGeneratorConfig(
              num_vizier_parameters=self.n, data_type=self.dtype(), **common))
    elif kind == 'pipeline':
      self.ids, self.parts = rng.choice([1, 2, 5]), rng.choice([1, 3, 4])
      self.n = self.ids * self.parts
      self.make = lambda: pgen.PipelineDpDatasetGenerator(
          dgc.VizierDatasetGeneratorConfig(
              num_vizier_parameters=rng.choice([1, self.n]),
              data_type=self.dtype(), **common),
          pgen.PipelineDpDatasetGeneratorConfig(self.ids, self.parts))
    else:
      self.dim, self.num = rng.choice([1, 3, 4]), rng.choice([1, 2, 6])
      self.classes = rng.choice([2, 3, 10])
      self.n = self.num * (self.dim + 1)
      self.make = lambda: cgen.ClassificationDatasetGenerator(
          dgc.ClassificationDatasetGeneratorConfig(
              sample_dim=self.dim, num_samples=self.num,
              num_classes=self.classes, **common))

  def dtype(self):
    return dgc.DataType.DATA_TYPE_INT32 if self.int else (
        dgc.DataType.DATA_TYPE_FLOAT)

  def want_params(self):
    if self.kind != 'classes':
      lo, hi = (int(self.lo), int(self.hi)) if self.int else (self.lo, self.hi)
      return {'x%d' % i: ('int' if self.int else 'float', lo, hi)
              for i in range(self.n)}
    f = self.dim * self.num
    out = {'float%d' % i: ('float', self.lo, self.hi) for i in range(f)}
    out.update({'int%d' % i: ('int', 0, self.classes - 1)
                for i in range(f, self.n)})
    return out

  def propose(self, study):
    """Values in the ranges the study was given, in any order."""
    p = list(study.config.search_space.root.params.items())
    self.rng.shuffle(p)
    return {k: (self.rng.randint(lo, hi) if t == 'int' else
                self.rng.choice([lo, hi, self.rng.uniform(lo, hi)]))
            for k, (t, lo, hi) in p}

  def datasets(self, params):
    """The pair, as lists of records."""
    v = [float(params[k]) for k in sorted(params, key=lambda k: int(
        k.lstrip('abcdefghijklmnopqrstuvwxyz')))]
    if self.kind == 'scalar':
      return v[:-1], v
    if self.kind == 'pipeline':
      cells = [(float(i), float(j), v[i * self.parts + j])
               for i in range(self.ids) for j in range(self.parts)]
      return [x for x in cells if x[0] < self.ids - 1], cells
    f = self.dim * self.num
    recs = [(tuple(v[i * self.dim:(i + 1) * self.dim]), v[f + i])
            for i in range(self.num)]
    return recs, recs[:-1]

  def records(self, data):
    if self.kind == 'scalar':
      return [float(x) for x in np.asarray(data).reshape(-1)]
    if self.kind == 'pipeline':
      return [tuple(float(v) for v in x) for x in data]
    f, l = data
    if len(f) != len(l) or np.shape(f)[1:] != (self.dim,):
      return None
    return [(tuple(float(v) for v in a), float(b)) for a, b in zip(f, l)]

  def valid(self, data):
    if self.kind != 'classes':
      return True
    return all(b == int(b) and 0 <= b < self.classes and all(
        self.lo <= v <= self.hi for v in a) for a, b in data)


def generator_rows(c, rng, rows):
  for row in rows:
    mk = Maker(rng.choice(['scalar', 'pipeline', 'classes']), rng)
    ask = {'n': 0, 'made': []}

    def propose(study, _):
      ask['n'] += 1
      if ask['n'] in row['dry']:
        return None
      ask['made'].append(mk.propose(study))
      return dict(ask['made'][-1])
    auditstubs.Study.propose = propose
    before = len(auditstubs.Study.created)
    gen = mk.make()
    studies = auditstubs.Study.created[before:]
    info = dict(kind=mk.kind, calls=row['calls'], dry=row['dry'], n=mk.n)
    if not c.expect(len(studies) == 1, 'one study', info):
      continue
    st = studies[0]
    params = dict(st.config.search_space.root.params)
    c.expect(params == mk.want_params(), 'search space', lambda: dict(
        info, want=str(mk.want_params()), got=str(params)))
    m = st.config.metric_information
    c.expect(len(m) == 1 and m[0].goal == 'MAXIMIZE' and m[0].name == 'gap' and
             st.config.algorithm == 'RANDOM_SEARCH' and st.owner == 'owner',
             'metric', lambda: dict(info, got=str(m)))
    for k, (a, want) in enumerate(zip(row['calls'], row['answers'])):
      got = observe(gen, None if a == NONE else rng.choice(
          [float(a), np.float64(a)]))
      at = dict(info, call=k)
      if want['p'] < 0:
        c.expect(got[:2] == ('err', 'ValueError'), 'no proposal', dict(
            at, got=str(got)[:200]))
        continue
      if not c.expect(got[0] == 'ok', 'proposal', dict(at, got=got)):
        break
      if not c.expect(len(ask['made']) >= want['p'], 'asks the study', at):
        break
      e1, e2 = mk.datasets(ask['made'][want['p'] - 1])
      g1, g2 = mk.records(got[1][0]), mk.records(got[1][1])
      c.expect(g1 == e1 and g2 == e2, 'neighbours', lambda: dict(
          at, want=str((e1, e2))[:600], got=str((g1, g2))[:600]))
      c.expect(mk.valid(g1 or []) and mk.valid(g2 or []), 'data in range',
               lambda: dict(at, got=str((g1, g2))[:600]))
      # the mechanism may do what it likes with the data
      for d in got[1]:
        for arr in (d if isinstance(d, tuple) else (d,)):
          if isinstance(arr, np.ndarray) and rng.random() < .3:
            arr[:] = -1e6
          elif isinstance(arr, list) and rng.random() < .3:
            arr.clear()
    heard = [[m['gap'] for m in t.completed] for t in st.trials]
    c.expect(heard == [[float(x) for x in h] for h in row['heard']],
             'study hears', dict(info, want=row['heard'], got=heard))
    c.traces += 1
    c.distinct.add(('g', mk.kind, tuple(row['calls']), tuple(row['dry'])))


def other_generators(c, rng):
  for pair in ((1, 2), ([1], [1, 2]), (np.zeros(3), np.zeros(2))):
    g = kgen.ConstantDatasetGenerator(pair)
    for r in (None, 0.0, 3.0, -1.0):
      got = observe(g, r)
      c.expect(got[0] == 'ok' and got[1] is not None and all(
          a is b for a, b in zip(got[1], pair)), 'constant', dict(
              pair=str(pair), got=str(got)))
  got = observe(vgen.VizierScalarDataAddRemoveGenerator,
                dgc.VizierDatasetGeneratorConfig(
                    's', 'o', 2, dgc.DataType.DATA_TYPE_UNSPECIFIED, 0.0, 1.0,
                    'x', 'm'))
  c.expect(got[:2] == ('err', 'NotImplementedError'), 'data type refused',
           dict(got=str(got)))


def pipeline_pair(c):
  """What the aggregation makes of the generated pair: one privacy unit."""
  ids, parts = 3, 2
  auditstubs.Study.propose = lambda st, i: {
      k: 1.0 + j for j, k in enumerate(st.config.search_space.root.params)}
  gen = pgen.PipelineDpDatasetGenerator(
      dgc.VizierDatasetGeneratorConfig(
          's', 'o', 1, dgc.DataType.DATA_TYPE_FLOAT, 0.0, 9.0, 'x', 'm'),
      pgen.PipelineDpDatasetGeneratorConfig(ids, parts))
  d1, d2 = gen(None)
  seen = []
  for d in (d1, d2):
    auditstubs.DPEngine.calls.clear()
    aggregation.AggregationMechanism(
        auditstubs.types.SimpleNamespace(), pp.ApproximateDp(1.0, 1e-6),
        None)(d, 1)
    seen.append(auditstubs.DPEngine.calls[-1]['rows'])
  extra = [r for r in seen[1] if r not in seen[0]]
  units = {r[1] for r in extra}
  c.expect(all(r in seen[1] for r in seen[0]) and len(units) == 1 and not any(
      r[1] in units for r in seen[0]), 'aggregated pair', dict(
          pair=[d1, d2], rows=seen), key='ids %d partitions %d' % (ids, parts))


def body(prop):
  assert prop == 'C20'

  def run(c):
    rng = random.Random(c.seed * 7919 + 20)
    r = c.tlc('RunTesters', TESTERS_CFG % c.pick(4, 5), timeout=800,
              extra_modules={'RunTesters.tla': TESTERS % c.pick(
                  '{<<2, 1>>, <<3, 2>>}', '{<<2, 1>>, <<3, 2>>, <<5, 1>>}')})
    by = {}
    for x in {repr(x): x for x in r.rows}.values():
      by.setdefault(x['what'], []).append(x)
    for k in by:
      rng.shuffle(by[k])
      c.sample(by[k][0])
    trace = []
    hist_rows(c, rng, by['histogram'])
    hist_edges(c, rng)
    mmd_rows(c, rng, by['mmd'])
    mmd_random(c, rng)
    hockey(c, rng, trace)
    renyi_rows(c, rng, by['renyi'][:c.pick(1200, 20000)], trace)
    renyi_random(c, rng)
    shared(c, rng)
    r = c.tlc('RunGen', GEN_CFG % c.pick(4, 5), timeout=800,
              extra_modules={'RunGen.tla': GEN})
    rows = list({repr(x): x for x in r.rows}.values())
    rng.shuffle(rows)
    c.sample(rows[0])
    generator_rows(c, rng, rows)
    other_generators(c, rng)
    pipeline_pair(c)
    rng.shuffle(trace)
    trace = trace[:c.pick(1500, 12000)]
    r = c.tlc('TraceAudit', TRACE_CFG, data={
        'audit.json': [t for _, t in trace]}, timeout=800)
    c.ok('recorded evaluations', 4 * len(trace))
    for b in r.bad:
      info, row = trace[b['id'] - 1]
      c.violation('recorded ' + b['law'], dict(info, row=row) if len(
          row['zeros']) < 50 else info, key='%s %s' % (b['law'], info))
    c.assumptions += [
        'tensorflow and vizier are not installed: recorders stand in; what a '
        'model learns is left open, every prediction is possible',
        'concentration inequalities behind the declared slack are taken from '
        'the publications']
  return run
