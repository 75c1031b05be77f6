"""C13: composition of mechanisms known by their privacy guarantees."""
import math
import random

import mpmath
import numpy as np

from dp_accounting.pld import accountant
from dp_accounting.pld import common
from dp_accounting.pld import privacy_loss_distribution as pldm

from harness.curves import Curves, qlin, qlog
from harness.mechcheck import loguniform
from harness.vlib import observe

DP = common.DifferentialPrivacyParameters
LN2 = math.log(2)

CFG = '''SPECIFICATION Spec
CONSTANTS
 As = {%s}
 Ds = {%s}
 D = %d
 K = %d
 MaxDen = %d
 EmitRows = TRUE
INVARIANTS IsDistribution Theorem Basic Smaller Emitted
PROPERTIES Worse
CHECK_DEADLOCK FALSE
'''


def replay(c, rng, row, d):
  """A row of the model: exact deltas of a composition."""
  h = [(g['a'], g['d'] / d) for g in row['hist']]
  den = row['den']
  true = [x / den for x in row['delta']]
  span = len(true) - 1
  order = h[:]
  rng.shuffle(order)
  plds = [pldm.from_privacy_parameters(DP(a * LN2, y), LN2) for a, y in order]
  p = plds[0]
  for x in plds[1:]:
    p = p.compose(x)
  info = lambda: dict(history=h, true=true, got=[
      p.get_delta_for_epsilon(e * LN2) for e in range(span + 1)])
  c.traces += 1
  c.expect(all(abs(p.get_delta_for_epsilon(e * LN2) - true[e]) <= 1e-10
               for e in range(span + 1)), 'model:pld', info)
  if h.count(h[0]) != len(h):
    return
  a, y = h[0]
  k = len(h)
  # one random placement of the target between the vertices of the theorem
  places = [(i, true[a * (k - 2 * i)]) for i in range(k // 2, -1, -1)]
  targets = [1.0, 0.0]
  for (_, lo), (_, hi) in zip(places[1:], places):
    if hi - lo > 1e-9:
      u = rng.choice([1e-3, .5, rng.random()])
      targets.append(lo + u * (hi - lo))
  last = places[-1][1]
  if last > 0:
    targets += [last * (1 - 1e-6), last * (1 + 1e-6)]
  for t in targets:
    t = min(t, 1.0)
    if t < 1 and any(abs(t - v) < 1e-12 * max(t, v) for _, v in places):
      continue       # on the vertex: a matter of rounding
    want = None
    for i, v in places:
      if v <= t:
        want = a * LN2 * (k - 2 * i)
        break
    got = observe(accountant.advanced_composition, DP(a * LN2, y), k, t)
    info = lambda: dict(a=a, delta=y, k=k, total_delta=t, got=got[1:],
                        want=want)
    c.expect(got[0] == 'ok' and (got[1] is None) == (want is None)
             and (want is None or abs(got[1] - want) < 1e-9),
             'model:theorem', info)
    smallest(c, want if want else rng.uniform(.1, 3), t, k, y, a * LN2
             if want else None)
  ps = plds[0].self_compose(k)
  c.expect(all(abs(ps.get_delta_for_epsilon(e * LN2) - true[e]) <= 1e-10
               for e in range(span + 1)), 'model:self-compose', lambda: dict(
                   history=h, true=true))


def true_delta(e0, d0, k, e, digits=60):
  """Exact delta at e of k mechanisms that are each (e0, d0)-private."""
  with mpmath.workdps(digits):
    e0, d0, e = mpmath.mpf(e0), mpmath.mpf(d0), mpmath.mpf(e)
    s = mpmath.mpf(0)
    z = (1 + mpmath.exp(-e0)) ** k
    b = mpmath.mpf(1)
    for l in range(k + 1):
      loss = e0 * (k - 2 * l)
      if loss <= e:
        break
      s += b * mpmath.exp(-e0 * l) / z * -mpmath.expm1(e - loss)
      b = b * (k - l) / (l + 1)
    return 1 - (1 - d0) ** k * (1 - s)


def smallest(c, te, td, k, d0, least):
  """The largest per-query epsilon for a total guarantee."""
  got = observe(accountant.get_smallest_epsilon_from_advanced_composition,
                DP(te, td), k, d0)
  with mpmath.workdps(60):
    lost = 1 - (1 - mpmath.mpf(d0)) ** k
    near = abs(lost - td) <= 1e-12 * (lost + td) and lost > 0 and k > 1
  info = lambda: dict(total_epsilon=te, total_delta=td, k=k, delta=d0,
                      got=got[1:], lost=float(lost), least=least)
  c.traces += 1
  if near or not c.expect(got[0] == 'ok', 'per-query:answers', info):
    return
  if lost > td:
    c.expect(got[1] is None, 'per-query:absent', info)
    return
  if not c.expect(got[1] is not None, 'per-query:present', info):
    return
  x = got[1]
  slack = 1e-9
  c.expect(true_delta(x, d0, k, te * (1 + 1e-12))
           <= td * (1 + slack) + (1e-300 if td else 0),
           'per-query:sound', info)
  c.expect(te / k * (1 - slack) <= x <= te * (1 + slack), 'per-query:range',
           info)
  if least is not None and least <= te:
    c.expect(x >= least - 1.2e-7, 'per-query:near-optimal', info)
  if x < te - 1e-6:
    y = x + 1.2e-7
    # the theorem's vertex for slightly more no longer fits
    worse = vertex(y, d0, k, td)
    c.expect(worse is None or worse > te * (1 - 1e-9),
             'per-query:near-optimal', lambda: dict(info(), at_more=worse))


def vertex(e0, d0, k, td):
  lo = None
  for i in range(k // 2, -1, -1):
    if true_delta(e0, d0, k, e0 * (k - 2 * i)) <= td:
      lo = e0 * (k - 2 * i)
      break
  return lo


def random_cases(c, rng, n):
  for _ in range(n):
    e0 = rng.choice([loguniform(rng, 1e-4, 5), loguniform(rng, 1e-10, 1e-2)])
    k = rng.choice([1, 2, 3, rng.randint(1, 30), rng.randint(1, 200)])
    d0 = rng.choice([0, 0, loguniform(rng, 1e-20, .1), 1e-5, 1e-17])
    td = rng.choice([loguniform(rng, 1e-30, 1), loguniform(rng, 1e-8, .5), 0,
                     1, d0, 1e-5, None, None])
    if td is None:                       # beside a vertex of the theorem
      td = min(1.0, float(true_delta(e0, d0, k, e0 * (
          k - 2 * rng.randint(0, k // 2)))) * (
              1 + rng.choice([-1, 1]) * rng.choice([3e-9, 1e-7, 1e-5])))
    got = observe(accountant.advanced_composition, DP(e0, d0), k, td)
    info = lambda: dict(epsilon=e0, delta=d0, k=k, total_delta=td,
                        got=got[1:])
    if not c.expect(got[0] == 'ok', 'advanced:answers', info):
      continue
    c.traces += 1
    with mpmath.workdps(60):
      lost = 1 - (1 - mpmath.mpf(d0)) ** k
    near = k > 1 and abs(lost - td) <= 1e-12 * (lost + td) and lost > 0
    x = got[1]
    if x is None:
      c.expect(lost > td or near, 'advanced:absent', info)
      continue
    c.expect(true_delta(e0, d0, k, x * (1 + 1e-15)) <= td * (1 + 1e-9), 'advanced:sound',
             lambda: dict(info(), true=str(true_delta(e0, d0, k, x))))
    i = (k - x / e0) / 2
    c.expect(abs(i - round(i)) < 1e-6 and 0 <= round(i) <= k // 2,
             'advanced:vertex', info)
    if round(i) < k // 2:
      c.expect(true_delta(e0, d0, k, x - 2 * e0) >= td * (1 - 1e-9),
               'advanced:tight', info)
    if rng.random() < .3 and k <= 60:
      smallest(c, loguniform(rng, .01, 5), td, k, d0, None)


def large(c, rng, n):
  """Many queries and large epsilons: sound, checked against a float oracle."""
  from scipy import special
  for _ in range(n):
    k = rng.choice([1000, 1023, 1024, 1500, rng.randint(300, 3000)])
    e0 = loguniform(rng, 1e-3, 2)
    if rng.random() < .3:
      k, e0 = rng.randint(1, 20), rng.uniform(100, 800)
    td = loguniform(rng, 1e-12, .1)
    d0 = rng.choice([0, td / k / rng.uniform(2, 100)])
    got = observe(accountant.advanced_composition, DP(e0, d0), k, td)
    info = lambda: dict(epsilon=e0, delta=d0, k=k, total_delta=td, got=got[1:])
    if not c.expect(got[0] == 'ok' and got[1] is not None, 'large:answers',
                    info):
      continue
    x = got[1]
    l = np.arange(k + 1)
    lm = (special.gammaln(k + 1) - special.gammaln(l + 1)
          - special.gammaln(k - l + 1) - e0 * l - k * math.log1p(math.exp(-e0)))

    def delta(e):
      gap = np.minimum(0, e - e0 * (k - 2 * l))
      s = float((np.exp(lm) * -np.expm1(gap)).sum())
      return -math.expm1(k * math.log1p(-d0) + math.log1p(-min(s, 1 - 1e-16)))
    c.traces += 1
    c.expect(delta(x) <= td * (1 + 1e-7), 'large:sound', lambda: dict(
        info(), true=delta(x)))
    if x > e0 * 1.5:
      c.expect(delta(x - 2 * e0) >= td * (1 - 1e-7), 'large:tight', info)


def curves(c, rng, n):
  cv = Curves(c)
  for _ in range(n):
    e0, k = loguniform(rng, .01, 1), rng.randint(2, 60)
    d0, td = rng.choice([0, 1e-9]), loguniform(rng, 1e-7, .3)
    fn = lambda e=e0, d=d0, kk=k, t=td: accountant.advanced_composition(
        DP(e, d), kk, t)
    q = lambda xs: [qlin(math.inf if x is None else x, 1 << 20) for x in xs]
    info = dict(epsilon=e0, delta=d0, k=k, total=td)
    es = sorted(loguniform(rng, e0 / 3, e0 * 3) for _ in range(12))
    # in units of the epsilon the vertices go up; allow rounding only
    cv.add('more epsilon', dict(info, es=es), {'x': q(fn(e=e) for e in es)},
           [('nondec', 'x', None, 2)])
    ts = sorted(loguniform(rng, 1e-15, 1) for _ in range(12))
    cv.add('more total delta', dict(info, ts=ts),
           {'x': q(fn(t=t) for t in ts)}, [('noninc', 'x', None, 2)])
    ds = sorted(loguniform(rng, 1e-15, .01) for _ in range(12))
    cv.add('more delta', dict(info, ds=ds), {'x': q(fn(d=d) for d in ds)},
           [('nondec', 'x', None, 2)])
    # two more queries lose at least as much (the parity changes the vertices)
    for par in (0, 1):
      ks = [2 * j + par for j in range(1, 14)]
      cv.add('more queries', dict(info, ks=ks), {'x': q(fn(kk=j) for j in ks)},
             [('nondec', 'x', None, 2)])
  cv.flush()


def mixed(c, rng, n):
  """Different guarantees on grids of their own: bounds by enumeration."""
  for _ in range(n):
    h = rng.choice([.01, .05, .1])
    hist = [(loguniform(rng, .01, 3), rng.choice([0, loguniform(
        rng, 1e-9, .1)])) for _ in range(rng.randint(1, 6))]
    parts = [pldm.from_privacy_parameters(DP(e, d), h) for e, d in hist]
    p = parts[0]
    for x in parts[1:]:
      p = p.compose(x)
    loss, mass, kept = np.array([0.]), np.array([1.]), 1.0
    for e, d in hist:
      w = 1 / (1 + math.exp(-e))
      loss = np.concatenate([loss + e, loss - e])
      mass = np.concatenate([mass * w, mass * (1 - w)])
      kept *= 1 - d
    true = lambda e: 1 - kept + kept * float(
        (mass * np.maximum(0, -np.expm1(np.minimum(0, e - loss)))).sum())
    es = [rng.uniform(0, sum(e for e, _ in hist) * 1.1) for _ in range(6)]
    es.append(sum(e for e, _ in hist))
    c.traces += 1
    for e in es:
      got = p.get_delta_for_epsilon(e)
      info = lambda: dict(history=hist, interval=h, epsilon=e, got=got,
                          true=true(e), slack=true(max(0, e - h * len(hist))))
      c.expect(got >= true(e) - 1e-12, 'mixed:sound', info)
      c.expect(got <= true(max(0, e - h * len(hist))) + 1e-9
               or e < h * len(hist), 'mixed:tight', info)
  for e in (1.0, 50.0, 709.0, 710.0, 5000.0):
    got = observe(lambda x: pldm.from_privacy_parameters(
        DP(x, 1e-3), 1.0).get_delta_for_epsilon([0.0, x]), e)
    want = [1e-3 + .999 * math.tanh(e / 2), 1e-3]
    c.expect(got[0] == 'ok' and np.allclose(got[1], want, rtol=1e-9),
             'mixed:large-epsilon', lambda: dict(epsilon=e, got=str(got[1:]),
                                                 want=want))


def body(prop):
  del prop

  def run(c):
    rng = random.Random(c.seed * 15485863 + 13)
    for as_, ds, d, k, md in [
        ('0, 1, 2, 3', '0, 1, 4', 4, 8, c.pick(3 * 10 ** 7, 10 ** 9)),
        ('0, 1, 2', '0, 1, 2', 2, 8, c.pick(10 ** 7, 10 ** 9)),
        ('1, 2, 3', '0', 1, 12, c.pick(10 ** 8, 10 ** 9))]:
      r = c.tlc('MCCompose', CFG % (as_, ds, d, k, md), timeout=800)
      seen = {}
      for row in r.rows:
        seen.setdefault(repr(row['hist']), row)
      for row in seen.values():
        replay(c, rng, row, d)
      c.sample(dict(row=str(r.rows[0])[:200]))
    random_cases(c, rng, c.pick(1200, 30000))
    large(c, rng, c.pick(80, 1500))
    mixed(c, rng, c.pick(500, 15000))
    curves(c, rng, c.pick(10, 150))
    c.assumptions += [
        'targets within 1e-12 of a vertex of the theorem are left to rounding']
  return run
