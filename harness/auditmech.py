"""C18: the auditorium's mechanisms follow their published definitions."""
import collections
import math
import os
import random

import numpy as np

from harness import auditstubs
auditstubs.install()

# pylint: disable=g-import-not-at-top
from dp_auditorium.configs import mechanism_config as mc
from dp_auditorium.configs import privacy_property as pp
from dp_auditorium.mechanisms import mean as meanm
from dp_auditorium.mechanisms import mechanisms_utils as mu
from dp_auditorium.mechanisms import noisy_max as nm
from dp_auditorium.mechanisms import sparse_vector_technique as svt
from dp_auditorium.mechanisms.pipeline_dp import aggregation as agg

from harness.curves import Curves, qlin
from harness.vlib import observe

QT, DV = mc.QueryType, mc.DataValues
SVTS = {1: svt.SVT1, 2: svt.SVT2, 3: svt.SVT3, 4: svt.SVT4, 5: svt.SVT5,
        6: svt.SVT6}
NAMES = {DV.SVT_ABOVE_THRESHOLD: 'A', DV.SVT_BELOW_THRESHOLD: 'B',
         DV.SVT_NO_RESPONSE: 'N'}

WRAP = '''---- MODULE RunAudit ----
EXTENDS MCAudit
NoisesDef == %s
LowDef == -2
ValuesDef == {-2, 0, 2}
RhosDef == {-1, 0, 1}
LoDef == -1
====
'''
CFG = '''SPECIFICATION Spec
CONSTANTS
 Values <- ValuesDef
 Lo <- LoDef
 Hi = 1
 MaxData = %d
 MaxQueries = %d
 MaxCut = %d
 Noises <- NoisesDef
 Rhos <- RhosDef
 Threshold = 0
 Elements = 3
 EmitRows = TRUE
INVARIANTS CutOff Refused Coupled Clipped SumMoves WinnerStays Emitted
PROPERTIES Ordered
'''
GIVEN = '''SPECIFICATION GivenSpec
CONSTANTS
 Values <- ValuesDef
 Lo <- LowDef
 Hi = 5
 MaxData = 0
 MaxQueries = 0
 MaxCut = 0
 Noises <- NoisesDef
 Rhos <- RhosDef
 Threshold = 4
 Elements = 0
 EmitRows = TRUE
INVARIANTS CutOff Refused Clipped SumMoves Emitted
PROPERTIES Ordered
'''


def long_cases(c, rng):
  """Longer than can be enumerated: many queries, records, elements."""
  out = []
  for _ in range(c.pick(40, 300)):
    n = rng.choice([4, 7, 12, 25])
    cut = rng.choice([1, 2, 3, 5, n - 1, n, n + 3])
    kind = rng.choice(['sum', 'reveal'])
    data = [rng.randrange(-9, 10) for _ in range(rng.choice([2, 3, 9, 40]))]
    for rho in (-7, 0, 3):
      base = dict(what='svt', kind=kind, data=data, n=n, cut=cut, rho=rho)
      out.append(dict(base, nz=[0] * n))
      for _ in range(3):
        width = rng.choice([3, 20, 200])
        out.append(dict(base, nz=[rng.randrange(-width, width + 1)
                                  for _ in range(n)]))
  for _ in range(c.pick(40, 300)):
    n = rng.choice([1, 2, 5, 12, 40])
    data = [rng.randrange(0, n + 2) for _ in range(rng.choice([0, 3, 60]))]
    for _ in range(4):
      width = rng.choice([0, 2, 20])
      out.append(dict(what='max', kind='argmax', data=data, n=n, cut=0, rho=0,
                      nz=[rng.randrange(-width, width + 1)
                          for _ in range(n)]))
  return out


class Unexpected(Exception):
  """The noise was asked for in a way the script has no answer to."""


class Scripted:
  """A generator whose draws are given: standard noise by role.

  plan(kind, count) returns the `count` standard draws of a request.  Draws
  are scaled like the real generator does, so that it does not matter where
  in an expression the scale is applied.
  """

  def __init__(self, plan):
    self.plan = plan
    self.log = []

  def _draw(self, kind, loc, scale, size):
    if size is None:
      size = np.broadcast(np.asarray(loc), np.asarray(scale)).shape
    shape = (size,) if isinstance(size, (int, np.integer)) else tuple(size)
    n = int(np.prod(shape)) if shape else 1
    self.log.append((kind, n))
    u = np.asarray(self.plan(kind, n), dtype=float).reshape(shape)
    return np.asarray(loc) + np.asarray(scale) * u

  def laplace(self, loc=0.0, scale=1.0, size=None):
    return self._draw('laplace', loc, scale, size)

  def normal(self, loc=0.0, scale=1.0, size=None):
    return self._draw('normal', loc, scale, size)

  def standard_normal(self, size=None):
    return self._draw('normal', 0.0, 1.0, size)

  def gumbel(self, loc=0.0, scale=1.0, size=None):
    return self._draw('gumbel', loc, scale, size)


def shift(v):
  """Published parameter a power of two: multiplying by it rounds nothing."""
  return v > 0 and math.frexp(v)[0] == .5


# ------------------------------------------------------------ sparse vectors
SKIP = ('skip', {})


def svt_one(cls, cfg, v, w, data, num, n, want, qn, tn, order):
  """One scripted call; None or (clause, what is wrong)."""
  asked = collections.Counter()

  def plan(kd, k):
    if kd != 'laplace':
      raise Unexpected('%s noise' % kd)
    if n == 1 and k == num:
      role = order[0] if not asked[order[0]] else order[1]
    else:
      role = 'q' if k == num * n else 't' if k == num else None
    if role is None:
      raise Unexpected('%d draws for %d samples of %d queries' % (k, num, n))
    asked[role] += 1
    return np.ravel(qn if role == 'q' else tn)
  arr = np.array([x * w for x in data], dtype=float)
  before = arr.copy()
  got = observe(cls(cfg, Scripted(plan)), arr, num)
  if got[0] == 'err' and got[1] == 'Unexpected':
    return SKIP
  if got[0] != 'ok':
    return 'svt answers', dict(got=got)
  out = got[1]
  if not (arr == before).all():
    return 'data left alone', dict()
  if cfg.max_answered_queries and (
      asked['t'] != 1 or asked['q'] != (0 if v == 5 else 1)):
    return 'svt noise drawn once', dict(asked=dict(asked))
  if out.shape != (num, n):
    return 'svt shape', dict(shape=out.shape)
  for s, r in enumerate(want):
    for j in range(n):
      x, e = out[s, j], r['out'][j]
      if v == 3 and e == 'A':
        q = (r['q'][j] + r['nz'][j]) * w
        good = not isinstance(x, DV) and abs(x - q) <= 1e-9 * w
      else:
        good = NAMES.get(x) == e if isinstance(x, DV) else False
      if not good:
        return 'svt outputs', dict(
            noise=r['nz'], rho=r['rho'], at=j, want=r['out'],
            got=[str(y) for y in out[s]])
  return None


def svt_rows(c, rng, rows, lo=-1, hi=1, level=0, many=1):
  groups = collections.defaultdict(list)
  for r in rows:
    groups[(r['kind'], tuple(r['data']), r['n'], r['cut'])].append(r)
  keys = sorted(groups)
  rng.shuffle(keys)
  for kind, data, n, cut in keys:
    rs = groups[(kind, data, n, cut)]
    rng.shuffle(rs)
    zero = {r['rho']: r for r in rs if not any(r['nz'])}
    for v, cls in SVTS.items():
      w = rng.choice([1.0, .25, 8.0])
      eps = rng.choice([.5, 1.0, 2.0, .1, 3.0, 4 / 3])
      frac = rs[0]['scale'][v - 1]
      delta = (hi - lo) * w
      qs = frac['q'][0] / frac['q'][1] * delta / eps
      ts = frac['t'][0] / frac['t'][1] * delta / eps
      exact = shift(ts) and (v == 5 or shift(qs))
      if cut == 0:
        qs = ts = 1.0    # nothing may depend on the noise
      part = rs if exact else rs[:max(1, len(rs) // 2)]
      if len(part) == 1:
        part = part * 2  # tell one threshold from one query noise
      if rng.random() < .05:
        part = part * many   # many samples at once
      num = len(part)
      want = [(zero[r['rho']] if v == 5 else r) for r in part]
      # without an exact scale, keep clear of ties
      thr = level * w - (0.0 if exact else w / 2)
      qn = [[x * w / qs if qs else 0.0 for x in r['nz']] for r in part]
      tn = [r['rho'] * w / ts for r in part]
      cfg = mc.SVTMechanismConfig(
          epsilon=eps, max_value=hi * w, min_value=lo * w,
          query_type=(QT.QUERY_TYPE_SUM if kind == 'sum'
                      else QT.QUERY_TYPE_REVEAL_RECORDS),
          num_queries=n, threshold=thr, max_answered_queries=cut)
      info = dict(variant=v, epsilon=eps, unit=w, kind=kind, data=data, n=n,
                  cut=cut, exact=exact)
      # with one query either noise may be drawn first
      for order in (['tq', 'qt'] if n == 1 and v != 5 else ['tq']):
        bad = svt_one(cls, cfg, v, w, data, num, n, want, qn, tn, order)
        if bad is None or bad is SKIP:
          break
      if bad is SKIP:
        # drawn in another way: svt_law judges the frequencies
        c.ok('svt noise drawn otherwise')
        continue
      if bad is not None:
        bad[1].update(info)
      c.expect(bad is None, bad[0] if bad else 'svt outputs',
               lambda: bad[1], key='svt %s' % info)
      c.ok('svt samples', num)
    c.traces += len(rs)
    c.distinct.add((kind, data, n, cut))


def laplace_cdf(x):
  return .5 * math.exp(x) if x < 0 else 1 - .5 * math.exp(-x)


def svt_law(c, cv, rng):
  """Drawn with a real generator: frequencies against the published law."""
  grid = (np.arange(4000) + .5) / 4000          # quantiles of the threshold
  std = np.where(grid < .5, np.log(2 * grid), -np.log(2 * (1 - grid)))
  for v, cls in SVTS.items():
    for _ in range(c.pick(2, 8)):
      eps = rng.choice([.7, 1.0, 2.5])
      lo, hi = rng.choice([(0.0, 1.0), (-1.0, 1.0), (2.0, 5.0)])
      cut, n = rng.choice([1, 2]), rng.choice([2, 3])
      kind = rng.choice(['sum', 'reveal'])
      data = np.array([rng.choice([lo, hi, lo - 1, (lo + hi) / 2])
                       for _ in range(3)])
      clip = np.clip(data, lo, hi)
      q = [clip.sum()] * n if kind == 'sum' else [clip[-1]] * (n - 1) + [
          clip[-2]]
      thr = float(np.mean(q)) + rng.choice([-.5, 0.0, .8]) * (hi - lo)
      d = (hi - lo) / eps
      qs, ts = {1: (4 * cut * d, 2 * d), 2: (4 * cut * d, 2 * cut * d),
                3: (2 * cut * d, 2 * d), 4: (4 * d / 3, 4 * d),
                5: (0, 2 * d), 6: (2 * d, 2 * d)}[v]
      cfg = mc.SVTMechanismConfig(
          epsilon=eps, max_value=hi, min_value=lo,
          query_type=(QT.QUERY_TYPE_SUM if kind == 'sum'
                      else QT.QUERY_TYPE_REVEAL_RECORDS),
          num_queries=n, threshold=thr, max_answered_queries=cut)
      num = c.pick(20000, 100000)
      mech = cls(cfg, np.random.default_rng([c.seed, v, rng.randrange(9999)]))
      out = np.concatenate([mech(data, num // 2), mech(data, num // 2)])
      seen = collections.Counter(
          ''.join('A' if not isinstance(x, DV) else NAMES[x] for x in row)
          for row in out)
      level = thr + ts * std
      pats, probs = [], []
      for code in range(2 ** n):
        bits = [(code >> j) & 1 for j in range(n)]
        left, pat = cut, ''
        for b in bits:
          if not left:
            pat += 'N'
          else:
            pat += 'AB'[1 - b]
            left -= b
        if pat in pats:
          continue
        p = np.ones_like(level)
        for j, x in enumerate(pat):
          if x == 'N':
            continue
          if qs == 0:
            above = (q[j] >= level).astype(float)
          else:
            z = (level - q[j]) / qs
            above = np.where(z > 0, .5 * np.exp(-np.abs(z)),
                             1 - .5 * np.exp(-np.abs(z)))
          p = p * (above if x == 'A' else 1 - above)
        pats.append(pat)
        probs.append(float(p.mean()))
      info = dict(variant=v, epsilon=eps, range=(lo, hi), kind=kind, cut=cut,
                  n=n, data=list(data), threshold=thr,
                  key='svt law v%d' % v)
      c.expect(set(seen) <= set(pats), 'svt patterns', dict(
          info, extra=sorted(set(seen) - set(pats))))
      freq = [seen[p] / len(out) for p in pats]
      slack = [int((6 * math.sqrt(p * (1 - p) / num) + 8e-4) * 2**20)
               for p in probs]
      cv.add('svt law', info, {'freq': [qlin(x) for x in freq],
                               'law': [qlin(x) for x in probs]},
             [('eq', 'freq', 'law', max(slack))])


def svt_refusals(c, rng):
  base = dict(epsilon=1.0, max_value=1.0, min_value=0.0, num_queries=3,
              threshold=.5, max_answered_queries=1)
  for v, cls in SVTS.items():
    g = np.random.default_rng(1)
    got = observe(cls, mc.SVTMechanismConfig(
        query_type=QT.QUERY_TYPE_UNSPECIFIED, **base), g)
    c.expect(got[:2] == ('err', 'ValueError'), 'svt refuses no query', dict(
        variant=v, got=str(got)))
    m = cls(mc.SVTMechanismConfig(query_type=QT.QUERY_TYPE_SUM, **base), g)
    got = observe(m, np.zeros((2, 2)), 3)
    c.expect(got[:2] == ('err', 'ValueError'), 'svt refuses tables', dict(
        variant=v, got=str(got)))
    m = cls(mc.SVTMechanismConfig(
        query_type=QT.QUERY_TYPE_REVEAL_RECORDS, **base), g)
    for d in ([], [1.0]):
      got = observe(m, np.array(d), 3)
      c.expect(got[:2] == ('err', 'ValueError'), 'svt refuses short data',
               dict(variant=v, data=d, got=str(got)))


# --------------------------------------------------------------------- means
FLAGS = {'none': (False, False), 'mean': (True, False),
         'scale': (False, True), 'both': (True, True)}


def mean_expected(sm, cm, cs, share, eps, delta, width, u):
  f = math.sqrt(2 * math.log(1.25 / delta)) if delta else 1.0
  scale = f * width / (share * eps) / abs(cs)
  return sm / cm + max(1e-12, scale) * u


def mean_rows(c, rng, rows):
  rng.shuffle(rows)
  groups = collections.defaultdict(list)
  for r in rows:
    if r['mean'] and r['scale']:
      groups[(r['kind'], tuple(r['data']))].append(r)
  for (kind, data), rs in sorted(groups.items()):
    for delta in (0.0, rng.choice([.1, 1e-5])):
      eps = rng.choice([.5, 1.0, 2.0, .3])
      w = rng.choice([1.0, 4.0, .5])
      share = rs[0]['share'] / 2
      cscale = 1 / (share * eps)
      num = len(rs)
      kinds = []

      def plan(kd, k, kinds=kinds, num=num, rs=rs, cscale=cscale):
        if k != num:
          raise Unexpected('%d draws for %d samples' % (k, num))
        kinds.append(kd)
        # the count is noised before the mean
        if len(kinds) == 1:
          return [r['nz'][0] / cscale for r in rs]
        return [r['nz'][1] for r in rs]
      a, b = FLAGS[kind]
      cfg = mc.MeanMechanismConfig(
          epsilon=eps, delta=delta, use_noised_counts_for_calculating_mean=a,
          use_noised_counts_for_calculating_noise_scale=b, max_value=w,
          min_value=-w)
      info = dict(kind=kind, data=data, epsilon=eps, delta=delta, unit=w)
      arr = np.array([x * w for x in data], dtype=float)
      before = arr.copy()
      got = observe(meanm.MeanMechanism(cfg, Scripted(plan)), arr, num)
      if not c.expect(got[0] == 'ok', 'mean answers', dict(
          info, got=got)):
        continue
      c.expect(bool((arr == before).all()), 'data left alone', info)
      c.expect(kinds == ['laplace', 'normal' if delta else 'laplace'],
               'mean noise kinds', dict(info, kinds=kinds))
      out = got[1]
      if not c.expect(out.shape == (num, 1), 'mean shape', dict(
          info, shape=out.shape)):
        continue
      for r, x in zip(rs, out[:, 0]):
        e = mean_expected(r['sum'] * w, r['mean'], r['scale'], share, eps,
                          delta, 2 * w, r['nz'][1])
        c.expect(abs(x - e) <= 1e-9 * max(1, abs(e)), 'mean value', dict(
            info, noise=r['nz'], want=e, got=float(x)),
                 key='mean value %s %s' % (info, r['nz']))
      c.traces += len(rs)


def mean_random(c, rng):
  for _ in range(c.pick(400, 6000)):
    kind = rng.choice(sorted(FLAGS))
    a, b = FLAGS[kind]
    eps = math.exp(rng.uniform(math.log(.01), math.log(50)))
    delta = rng.choice([0.0, 0, 10 ** rng.uniform(-12, -.5)])
    lo = rng.choice([0.0, -3.0, 1.5, rng.uniform(-100, 100)])
    hi = lo + rng.choice([1.0, 1e-3, 50.0])
    size = rng.choice([1, 2, 7, 100])
    data = np.array([rng.uniform(lo - 2, hi + 2) for _ in range(size)])
    if rng.random() < .2:
      data = data * 1000
    num = rng.choice([1, 2, 5]) if rng.random() < .99 else 20000
    u1 = [rng.choice([0.0, rng.uniform(-3, 3)]) for _ in range(num)]
    u2 = [rng.uniform(-3, 3) for _ in range(num)]
    todo = [u1, u2]

    def plan(kd, k, todo=todo, num=num):
      if k != num or not todo:
        raise Unexpected('draws')
      return todo.pop(0)
    cfg = mc.MeanMechanismConfig(
        epsilon=eps, delta=delta, use_noised_counts_for_calculating_mean=a,
        use_noised_counts_for_calculating_noise_scale=b, max_value=hi,
        min_value=lo)
    got = observe(meanm.MeanMechanism(cfg, Scripted(plan)), data, num)
    info = dict(kind=kind, epsilon=eps, delta=delta, lo=lo, hi=hi,
                size=size, u1=u1[:5], u2=u2[:5], samples=num)
    if not c.expect(got[0] == 'ok', 'mean answers', dict(info, got=got)):
      continue
    share = .5 if (a or b) else 1.0
    s = float(np.clip(data, lo, hi).sum())
    for i in range(num):
      noisy = size + u1[i] / (share * eps)
      cm, cs = (noisy if a else size), (noisy if b else size)
      if abs(noisy) < 1e-6:
        continue
      e = mean_expected(s, cm, cs, share, eps, delta, hi - lo, u2[i])
      x = float(np.asarray(got[1]).reshape(-1)[i])
      c.expect(abs(x - e) <= 1e-8 * max(1, abs(e), abs(s / cm)),
               'mean value', dict(info, at=i, want=e, got=x),
               key='mean value random %s %d' % (info, i))
    c.distinct.add(('mean', kind, eps))


def mean_privacy(c):
  """The generators of configurations, and the private one never unnoised."""
  for name, flags in (('non_private_mean_v1', (False, False)),
                      ('non_private_mean_v2', (False, True)),
                      ('private_mean', (True, True))):
    for eps, delta in ((1.0, 0.0), (.3, 1e-5)):
      g = mu.default_mean_mechanism_config_generator(name, eps, delta)
      c.expect((g.epsilon, g.delta, g.max_value, g.min_value,
                g.use_noised_counts_for_calculating_mean,
                g.use_noised_counts_for_calculating_noise_scale) == (
                    eps, delta, 1.0, 0.0) + flags,
               'mean configuration', dict(name=name, got=str(g)))
    g = mu.default_mean_mechanism_config_generator(name, 2.0)
    c.expect(g.delta == 0.0, 'mean configuration', dict(name=name))
  got = observe(mu.default_mean_mechanism_config_generator, 'mean', 1.0)
  c.expect(got[:2] == ('err', 'AttributeError'), 'mean configuration',
           dict(got=str(got)))
  for m, a in ((1.0, 2.0), (.5, 3.5), (7.0, 1.01)):
    got = mu.get_wrong_one_step_gd_budget(m, a)
    c.expect(abs(got - a / (2 * m * m)) <= 1e-12 * got, 'gd budget',
             dict(multiplier=m, alpha=a, got=got))


# ----------------------------------------------------------------- noisy max
def max_rows(c, rng, rows):
  groups = collections.defaultdict(list)
  for r in rows:
    groups[(tuple(r['data']), len(r['noise']))].append(r)
  for (data, k), rs in sorted(groups.items()):
    eps = rng.choice([.5, 1.0, 4.0, .1, .01, 30.0, 2.0 ** -9])
    scale = 2 / eps
    exact = shift(scale)
    # two thirds of a step: no ties, as long as the order is that of noise
    part = [r for r in rs if exact or len(r['winners']) == 1]
    if not part:
      continue
    if rng.random() < .05:
      part = part * c.pick(1000, 5000)
    num = len(part)

    def plan(kd, n, part=part, num=num, k=k, scale=scale):
      if kd != 'gumbel' or n != num * k:
        raise Unexpected('%d %s' % (n, kd))
      return [[x / scale for x in r['noise']] for r in part]
    mech = nm.NoisyMaxMechanism(mc.NoisyMaxMechanismConfig(
        epsilon=eps, num_elements=k), Scripted(plan))
    info = dict(data=data, epsilon=eps, elements=k)
    got = observe(mech, np.array(data, dtype=int), num)
    if not c.expect(got[0] == 'ok' and np.shape(got[1]) == (num,),
                    'noisy max answers', dict(info, got=str(got)[:300])):
      continue
    for r, x in zip(part, got[1]):
      c.expect(int(x) in r['winners'], 'noisy max winner', dict(
          info, noise=r['noise'], winners=r['winners'], got=int(x)))
    c.traces += num


def max_law(c, cv, rng):
  """The exponential mechanism: frequencies with a real generator."""
  for _ in range(c.pick(6, 40)):
    k = rng.choice([2, 3, 5])
    data = np.array([rng.randrange(k) for _ in range(rng.choice([0, 3, 8]))],
                    dtype=int)
    eps = rng.choice([.2, 1.0, 3.0])
    counts = [int((data == e).sum()) for e in range(k)]
    ws = [math.exp(eps * x / 2) for x in counts]
    num = c.pick(20000, 100000)
    mech = nm.NoisyMaxMechanism(
        mc.NoisyMaxMechanismConfig(epsilon=eps, num_elements=k),
        np.random.default_rng([c.seed, 77, rng.randrange(9999)]))
    out = np.concatenate([mech(data, num // 2), mech(data, num // 2)])
    freq = [float((out == e).mean()) for e in range(k)]
    law = [w / sum(ws) for w in ws]
    cv.add('noisy max law', dict(epsilon=eps, counts=counts,
                                 key='noisy max law'),
           {'freq': [qlin(x) for x in freq], 'law': [qlin(x) for x in law]},
           [('eq', 'freq', 'law',
             int((3.2 / math.sqrt(num) + 2e-4) * 2**20))])


# ------------------------------------------------------ independent outcomes
def independence(c, rng):
  """Repeated calls draw anew, and a call does not depend on earlier ones."""
  data = np.array([.2, .9, 1.4, -3.0])
  makers = []
  for v, cls in SVTS.items():
    for kind in (QT.QUERY_TYPE_SUM, QT.QUERY_TYPE_REVEAL_RECORDS):
      makers.append(('svt%d %s' % (v, kind.name), lambda g, cls=cls, kind=kind:
                     cls(mc.SVTMechanismConfig(
                         epsilon=1.0, max_value=1.0, min_value=0.0,
                         query_type=kind, num_queries=6, threshold=1.0,
                         max_answered_queries=3), g), data))
  for kind, (a, b) in sorted(FLAGS.items()):
    for delta in (0.0, 1e-3):
      makers.append(('mean %s %g' % (kind, delta),
                     lambda g, a=a, b=b, delta=delta: meanm.MeanMechanism(
                         mc.MeanMechanismConfig(1.0, delta, a, b, 1.0, 0.0),
                         g), data))
  makers.append(('noisy max', lambda g: nm.NoisyMaxMechanism(
      mc.NoisyMaxMechanismConfig(.5, 6), g), np.array([0, 1, 1, 5])))
  tolist = lambda x: [[str(z) for z in np.ravel(y)] for y in x]
  for name, mk, d in makers:
    seed = rng.randrange(10**6)
    m = mk(np.random.default_rng(seed))
    a, b = m(d, 200), m(d, 200)
    c.expect(tolist(a) != tolist(b), 'fresh noise per call', dict(name=name))
    kinds = len({tuple(x) for x in tolist(a)})
    c.expect(kinds >= (200 if name.startswith('mean') else 2),
             'fresh noise per sample', dict(name=name, kinds=kinds))
    # an interleaved call on other data changes nothing but the draws:
    # replaying the draws gives the same outcome
    g = np.random.default_rng(seed)
    m = mk(g)
    first = m(d, 50)
    m(np.concatenate([d, d]), 50)
    g2 = np.random.default_rng(seed)
    g.bit_generator.state = g2.bit_generator.state
    again = m(d, 50)
    c.expect(tolist(first) == tolist(again), 'no memory of earlier calls',
             dict(name=name))
    # order of the records matters for none but the revealing queries
    if 'REVEAL' not in name:
      g3 = np.random.default_rng(seed)
      perm = mk(g3)(d[::-1].copy(), 50)
      same = tolist(perm) == tolist(first) or (
          name.startswith('mean') and np.allclose(
              perm.astype(float), first.astype(float)))
      c.expect(same, 'order of records', dict(name=name))


# --------------------------------------------------------------- aggregation
def aggregation(c, rng):
  bud, eng = auditstubs.BudgetAccountant, auditstubs.DPEngine
  for _ in range(c.pick(60, 600)):
    bud.made.clear()
    eng.calls.clear()
    eps, delta = rng.uniform(.1, 4), rng.choice([0.0, 1e-5, .3])
    public = rng.choice([[1], [1, 2, 3], [0, 7]])
    rows = [(rng.choice([1, 2, 3]), rng.randrange(5), rng.uniform(-1, 1))
            for _ in range(rng.randrange(1, 9))]
    num = rng.choice([1, 2, 5])
    params = auditstubs.types.SimpleNamespace(tag=rng.random())
    mech = agg.AggregationMechanism(
        config=params, tested_privacy_property=pp.ApproximateDp(eps, delta),
        public_partitions=public)
    info = dict(epsilon=eps, delta=delta, public=public, rows=rows, num=num)
    as_array = rng.random() < .5
    got = observe(mech, np.array(rows) if as_array else rows, num)
    if not c.expect(got[0] == 'ok', 'aggregation answers', dict(
        info, got=got)):
      continue
    c.expect(len(eng.calls) == num and len({id(x['accountant'])
                                            for x in eng.calls}) == num,
             'aggregation budget per sample', dict(info, calls=len(
                 eng.calls), accountants=len(bud.made)))
    for x in eng.calls:
      acc = x['accountant']
      c.expect(acc.epsilon == eps and acc.delta == delta and
               acc.computed == 1 and acc.engines == 1, 'aggregation budget',
               dict(info, got=(acc.epsilon, acc.delta, acc.computed)))
      c.expect(x['params'] is params and x['public'] == public and
               [tuple(map(float, r)) for r in x['rows']] ==
               [tuple(map(float, r)) for r in rows],
               'aggregation request', dict(info, asked=str(x)[:300]))
    want = []
    for s in range(num):
      line = []
      for p in public:
        vals = [r[2] for r in rows if r[0] == p]
        line += [float(len(vals)), float(sum(vals)), float(s + 1)]
      want.append(line)
    c.expect(np.shape(got[1]) == np.shape(want) and np.allclose(
        got[1], want), 'aggregation result', dict(
            info, want=want, got=str(got[1])))
    c.traces += 1


def body(prop):
  assert prop == 'C18'

  def run(c):
    rng = random.Random(c.seed * 7919 + 18)
    noises = c.pick('{-2, 0, 1}', '{-2, -1, 0, 2}')
    r = c.tlc('RunAudit', CFG % (3, 3, 3),
              extra_modules={'RunAudit.tla': WRAP % noises}, timeout=800)
    rows = list({repr(x): x for x in r.rows}.values())
    by = collections.defaultdict(list)
    for x in rows:
      by[x['what']].append(x)
    c.sample(rows[0])
    svt_rows(c, rng, by['svt'])
    mean_rows(c, rng, by['mean'])
    max_rows(c, rng, by['max'])
    r = c.tlc('RunAudit', GIVEN, data={'cases.json': long_cases(c, rng)},
              extra_modules={'RunAudit.tla': WRAP % noises}, timeout=800)
    rows = list({repr(x): x for x in r.rows}.values())
    svt_rows(c, rng, [x for x in rows if x['what'] == 'svt'], -2, 5, 4,
             c.pick(300, 1000))
    max_rows(c, rng, [x for x in rows if x['what'] == 'max'])
    cv = Curves(c)
    svt_law(c, cv, rng)
    max_law(c, cv, rng)
    cv.flush()
    svt_refusals(c, rng)
    mean_random(c, rng)
    mean_privacy(c)
    independence(c, rng)
    aggregation(c, rng)
    c.assumptions += [
        'pipeline_dp is not installed: a recorder stands in for it',
        'noise comes from the generator passed to the mechanism',
        'frequencies within 6 standard deviations of the published law']
  return run
