"""C05 (RDP curves) and C06 (conversion): spec/Rdp.tla bound to the code."""
import itertools
import math
import random

import mpmath
import numpy as np
from scipy import special
from dp_accounting import dp_event as de
from dp_accounting.rdp import rdp_privacy_accountant as rpa

from harness import events as ev
from harness.curves import Curves, qlin, qlog, BIG
from harness.vlib import observe

mp = mpmath.mp
LN2 = math.log(2)
NR = ev.NR
ANY = NR.ADD_OR_REMOVE_ONE


def rdp_of(event, orders, rel=ANY, count=1):
  acc = rpa.RdpAccountant(orders, rel)
  acc.compose(event, count)
  return [float(x) for x in acc.rdp]


# ------------------------------------------------------------------ oracles
def log_moment(p, q, a):
  """ln sum p^a q^(1-a), in multiple precision."""
  with mp.workdps(40):
    s = mp.mpf(0)
    for x, y in zip(p, q):
      if x == 0:
        continue
      if y == 0:
        return mp.inf
      s += mp.power(x, a) * mp.power(y, 1 - a)
    return mp.log(s)


def renyi(p, q, a):
  with mp.workdps(40):
    if mp.isinf(a):
      return float(max(mp.log(mp.mpf(x) / y) if y else mp.inf
                       for x, y in zip(p, q) if x))
    v = log_moment(p, q, mp.mpf(a)) / (mp.mpf(a) - 1)
    return float(v)


def laplace_true(m, a):
  """Exact Renyi divergence of Laplace(1/m): closed form, 50 digits."""
  with mp.workdps(60):
    e, a = mp.mpf(m), mp.mpf(a)
    if a == 1:
      return float(e + mp.exp(-e) - 1)
    v = (a / (2 * a - 1) * mp.exp((a - 1) * e)
         + (a - 1) / (2 * a - 1) * mp.exp(-a * e))
    return float(mp.log(v) / (a - 1))


def subgauss_true(q, s, a):
  """ln E_{z~N(0,s^2)} [((1-q) + q e^{(2z-1)/(2s^2)})^a] / (a-1)."""
  lo, hi = -14 * s - 1, a + 14 * s + 1
  n = int(min(4e6, max(2000, (hi - lo) / s * 60)))
  z = np.linspace(lo, hi, n)
  lm = np.logaddexp(math.log1p(-q), math.log(q) + (2 * z - 1) / (2 * s * s))
  # E[m^a] - 1 = E[m^a - 1 - a (m - 1)], which does not cancel for small q
  w = -z * z / (2 * s * s) - math.log(s * math.sqrt(2 * math.pi))
  d = (hi - lo) / (n - 1)
  top = float(np.max(a * lm + w))
  if top > 5:
    v = top + math.log(float(np.sum(np.exp(a * lm + w - top))) * d)
    return v / (a - 1)
  small = np.abs(a * lm) < 1
  lms = np.where(small, lm, 0.0)
  f = np.where(
      small, (np.expm1(a * lms) - a * np.expm1(lms)) * np.exp(w),
      np.exp(a * lm + w) - np.exp(w) - a * (np.exp(lm + w) - np.exp(w)))
  return math.log1p(float(np.sum(f)) * d) / (a - 1)


def subgauss_int(q, s, a):
  """The exact value at an integer order: the finite binomial sum (Rdp.tla,
  Sampled), summed without its two terms that cancel the leading 1."""
  i = np.arange(2, a + 1, dtype=float)
  x = (i * i - i) / (2 * s * s)
  comb = (special.gammaln(a + 1) - special.gammaln(i + 1)
          - special.gammaln(a - i + 1))
  lq, l1 = (math.log(q), math.log1p(-q))
  # ln(e^x - 1) = x + ln(1 - e^-x)
  t = comb + i * lq + (a - i) * l1 + x + np.log(-np.expm1(-x))
  v = float(special.logsumexp(t))
  return float(np.logaddexp(0.0, v)) / (a - 1) if v > -30 else (
      math.exp(v) / (a - 1))


def subgauss_series(q, s, a, terms=1000):
  """The absolute series of Mironov et al. (1908.10530, section 3.3).

  Returns (RDP bound, converged): the sum of the absolute values of the terms,
  an upper bound of the exact value; converged is None when borderline.
  """
  i = np.arange(terms, dtype=float)
  j = a - i
  comb = (special.gammaln(a + 1) - special.gammaln(i + 1)
          - special.gammaln(j + 1))
  z0 = s * s * math.log(1 / q - 1) + .5
  l0 = (comb + i * math.log(q) + j * math.log1p(-q) + (i * i - i) / (2 * s * s)
        + special.log_ndtr(-(i - z0) / s))
  l1 = (comb + j * math.log(q) + i * math.log1p(-q) + (j * j - j) / (2 * s * s)
        + special.log_ndtr(-(z0 - j) / s))
  tot = float(special.logsumexp(np.concatenate([l0, l1])))
  gap = tot - float(max(l0[-1], l1[-1]))
  conv = True if gap > 32 else False if gap < 29.5 else None
  return tot / (a - 1), conv


def swor_log_a(q, s, a, loose=False):
  """Theorem 27 of 1808.00087, in multiple precision."""
  with mp.workdps(50 if loose else 60 + int(0.3 * a * a / (s * s)) + a):
    q, v = mp.mpf(q), 1 / (mp.mpf(s) ** 2)
    u = lambda j: mp.exp(v * j * (j - 1) / 2)
    n = 0 if loose else a + 2
    row = [u(j) for j in range(n + 1)]
    chi = []
    for _ in range(n):
      chi.append(row[0])
      row = [row[j + 1] - row[j] for j in range(len(row) - 1)]
    tot = mp.mpf(1) + q ** 2 * mp.binomial(a, 2) * min(
        4 * (mp.exp(v) - 1), 2 * mp.exp(v))
    for i in range(3, a + 1):
      cap = 2 * u(i)
      t = cap if loose else min(
          4 * mp.sqrt(chi[2 * (i // 2)] * chi[2 * ((i + 1) // 2)]), cap)
      tot += q ** i * mp.binomial(a, i) * t
    return mp.log(tot)


def swor_true(q, s, a, loose=False):
  f = math.floor(a)
  if f == a:
    return float(swor_log_a(q, s, f, loose) / (f - 1))
  t = mp.mpf(a) - f
  x = swor_log_a(q, s, f, loose) if f > 1 else mp.mpf(0)
  y = swor_log_a(q, s, f + 1, loose)
  return float(((1 - t) * x + t * y) / (mp.mpf(a) - 1))


# -------------------------------------------------------------- C05: the spec
CFG = '''SPECIFICATION Spec
CONSTANT MaxA = 8
INVARIANTS AtLeastOne LogConvex Sampling MoreNoise DepthIsCover ChiPositive
 Emitted
'''


def mech_event(m):
  t = m['t']
  if t in ('gauss', 'pgauss', 'swor', 'tree'):
    s = (m['w'] * LN2) ** -0.5
  if t == 'gauss':
    return [(de.GaussianDpEvent(s), ANY)]
  if t == 'pgauss':
    e = de.PoissonSampledDpEvent(m['n'] / m['d'], de.GaussianDpEvent(s))
    return [(e, ANY), (e, NR.REPLACE_SPECIAL)]
  if t == 'lap':
    return [(de.LaplaceDpEvent(1 / (m['m'] * LN2)), r) for r in NR]
  if t == 'rr':
    return [(de.RandomizedResponseDpEvent(m['n'] / m['d'], m['k']),
             NR.REPLACE_ONE if m['rel'] == 'one' else NR.REPLACE_SPECIAL)]
  if t == 'tree':
    return [(de.SingleEpochTreeAggregationDpEvent(s, x), NR.REPLACE_SPECIAL)
            for x in (m['s'], [1, m['s']], [m['s'], m['s']])]
  if t == 'swor':
    return [(de.SampledWithoutReplacementDpEvent(
        m['d'] * 7, m['n'] * 7, de.GaussianDpEvent(s)), NR.REPLACE_ONE)]
  raise KeyError(t)


def want_of(r, a):
  m = r['mech']
  if m['t'] == 'swor':
    tot = 1.0
    for i in range(2, a + 1):
      x = r['terms'][str(a)][str(i)]
      u = 4 * (x['hi'] * x['lo']) ** 0.5
      tot += x['c'][0] / x['c'][1] * min(u, 2 * x['cap'])
    return math.log(tot) / (a - 1)
  num, den = r['moments'][str(a)]
  return math.log(num / den) / (a - 1) if den else math.inf


def norm_keys(r):
  """JSON turns functions over 2..n into lists; index them by order."""
  def fix(x, lo):
    return x if isinstance(x, dict) else {str(lo + i): v
                                          for i, v in enumerate(x)}
  r['orders'] = sorted(r['orders'])
  r['moments'] = fix(r['moments'], 2)
  r['terms'] = {k: fix(v, 2) for k, v in fix(r['terms'], 2).items()}
  return r


def c05_exact(c):
  rows = c.tlc('MCRdp', CFG, timeout=300).rows
  for r in rows:
    r = norm_keys(r)
    for e, rel in mech_event(r['mech']):
      for as_float in (False, True):
        orders = [float(a) if as_float else a for a in r['orders']]
        for count in (1, 3):
          got = observe(rdp_of, e, orders, rel, count)
          want = [count * want_of(r, a) for a in r['orders']]
          good = got[0] == 'ok' and all(
              abs(g - w) <= 1e-9 * max(1, abs(w)) for g, w in zip(got[1], want))
          c.expect(good, 'exact:%s' % r['mech']['t'], lambda: dict(
              event=str(e), rel=str(rel), orders=orders, count=count, got=got,
              want=want))
    c.distinct.add(repr(r['mech']))
  c.traces += len(rows)
  c.sample({'exact': str(rows[0])[:300]})


# ------------------------------------------------------ C05: recorded curves
def add_curve(cv, clause, info, orders, got, truth, slack=8, floor=1e-9,
              upper=None, mono=True):
  """One curve over orders: equal to truth (or between truth and upper)."""
  if got[0] != 'ok':
    cv.c.expect(False, clause + ':total', lambda: dict(info, got=got))
    return
  s = {'impl': [qlog(v, floor) for v in got[1]],
       'truth': [qlog(v, floor) for v in truth]}
  laws = [('leq', 'truth', 'impl', slack)]
  if upper is None:
    laws.append(('leq', 'impl', 'truth', slack))
  else:
    s['upper'] = [qlog(v, floor) for v in upper]
    laws.append(('leq', 'impl', 'upper', slack))
  if mono:
    laws.append(('nondec', 'impl', None, slack))
  cv.add(clause, dict(info, orders=[float(o) for o in orders]), s, laws)


def loguniform(rng, lo, hi):
  return math.exp(rng.uniform(math.log(lo), math.log(hi)))


def random_orders(rng, n, hi, frac=True):
  out = set()
  while len(out) < n:
    x = rng.random()
    if x < .35:
      out.add(float(rng.randint(2, max(2, int(min(hi, 64))))))
    elif x < .5:
      out.add(float(rng.randint(2, int(hi))))
    elif frac:
      v = loguniform(rng, 1.02, hi)
      k = rng.random()
      if k < .2:         # next to an integer, on either side
        v = max(2, round(v)) + rng.choice([-1, 1]) * rng.choice([1e-3, .02])
      out.add(round(v, 6))
    if not frac and len(out) >= hi - 1:
      break
  return sorted(out)


def c05_gauss(c, cv, rng, n):
  for _ in range(n):
    s = loguniform(rng, .05, 200)
    o = random_orders(rng, 8, 2000) + [math.inf]
    if rng.random() < .3:
      o = [1.0] + o
    rel = rng.choice(list(NR))
    got = observe(rdp_of, de.GaussianDpEvent(s), o, rel)
    add_curve(cv, 'gaussian', dict(sigma=s, rel=str(rel)), o, got,
              [a / (2 * s * s) for a in o])


def c05_subgauss(c, cv, rng, n):
  for j in range(n):
    s = loguniform(rng, .35, 20)
    q = rng.choice([loguniform(rng, 1e-4, .9), rng.uniform(.02, .98)])
    o = random_orders(rng, 6, 300)
    rel = rng.choice([ANY, NR.REPLACE_SPECIAL])
    e = de.PoissonSampledDpEvent(q, de.GaussianDpEvent(s))
    info = dict(q=q, sigma=s, rel=str(rel))
    got = observe(rdp_of, e, o, rel)
    if not c.expect(got[0] == 'ok', 'poisson-gaussian:total',
                    lambda: dict(info, got=got)):
      continue
    vals = dict(zip(o, got[1]))
    ints = [a for a in o if a == int(a)]
    full = {a: a / (2 * s * s) for a in o}
    cv.add('poisson-gaussian:integer', dict(info, orders=ints), {
        'impl': [qlog(vals[a], 1e-9) for a in ints],
        'truth': [qlog(subgauss_true(q, s, a), 1e-9) for a in ints],
        'full': [qlog(full[a], 1e-9) for a in ints]},
           [('eq', 'impl', 'truth', 200), ('leq', 'impl', 'full', 50),
            ('nondec', 'impl', None, 50)])
    fr = [a for a in o if a != int(a)]
    series = {a: subgauss_series(q, s, a) for a in fr}
    # orders whose series does not converge are excluded (infinite)
    c.expect(all(math.isfinite(vals[a]) for a in fr if series[a][1]),
             'poisson-gaussian:converges', lambda: dict(info, vals=vals))
    fin = [a for a in fr if math.isfinite(vals[a])]
    cv.add('poisson-gaussian:fractional', dict(info, orders=fin), {
        'impl': [qlog(vals[a], 1e-9) for a in fin],
        'truth': [qlog(subgauss_true(q, s, a), 1e-9) for a in fin],
        'series': [qlog(series[a][0], 1e-9) for a in fin]},
           [('leq', 'truth', 'impl', 200), ('leq', 'impl', 'series', 200)])
    # extreme rates, noise and integer orders, by the finite sum
    q2 = rng.choice([loguniform(rng, 1e-12, .9), 1 - loguniform(rng, 1e-7, .5)])
    s2 = loguniform(rng, .04, 60)
    o2 = sorted({rng.randint(2, 1200), rng.randint(2, 300), rng.randint(2, 20),
                 rng.choice([2, 3, 512, 513, 1000, 1024, 1100])})
    e2 = de.PoissonSampledDpEvent(q2, de.GaussianDpEvent(s2))
    info2 = dict(q=q2, sigma=s2, rel=str(rel), orders=o2)
    got2 = observe(rdp_of, e2, [float(a) for a in o2], rel)
    if c.expect(got2[0] == 'ok', 'poisson-gaussian:total',
                lambda: dict(info2, got=got2)):
      cv.add('poisson-gaussian:extreme', info2, {
          'impl': [qlog(v, 1e-9) for v in got2[1]],
          'truth': [qlog(subgauss_int(q2, s2, a), 1e-9) for a in o2],
          'full': [qlog(a / (2 * s2 * s2), 1e-9) for a in o2]},
             [('eq', 'impl', 'truth', 200), ('leq', 'impl', 'full', 50),
              ('nondec', 'impl', None, 50)])
    # more sampling, less noise: larger
    if j % 3 == 0:
      a = float(rng.randint(2, 64))
      qs = [0.0] + sorted(rng.random() ** 2 for _ in range(5)) + [1.0]
      v = [observe(rdp_of, de.PoissonSampledDpEvent(
          x, de.GaussianDpEvent(s)), [a]) for x in qs]
      if c.expect(all(x[0] == 'ok' for x in v), 'poisson-gaussian:total',
                  lambda: dict(a=a, s=s, qs=qs, got=v)):
        cv.add('monotone-in-rate', dict(order=a, sigma=s, q=qs), {
            'impl': [qlog(x[1][0], 1e-9) for x in v]},
               [('nondec', 'impl', None, 50)])
      ss = sorted(loguniform(rng, .4, 10) for _ in range(5))
      v = [observe(rdp_of, de.PoissonSampledDpEvent(
          q, de.GaussianDpEvent(x)), [a]) for x in ss]
      if c.expect(all(x[0] == 'ok' for x in v), 'poisson-gaussian:total',
                  lambda: dict(a=a, q=q, ss=ss, got=v)):
        cv.add('monotone-in-noise', dict(order=a, q=q, sigma=ss), {
            'impl': [qlog(x[1][0], 1e-9) for x in v]},
               [('noninc', 'impl', None, 50)])
  # the known overstatement at fractional orders
  for q, s, a in ((.25, 7.0, 1.7), (.4, 16.0, 2.5)):
    got = rdp_of(de.PoissonSampledDpEvent(q, de.GaussianDpEvent(s)), [a])[0]
    t = subgauss_true(q, s, a)
    c.expect(abs(got / t - 1) < 1e-3, 'poisson-gaussian:fractional-exact',
             lambda: dict(q=q, sigma=s, order=a, got=got, exact=t),
             key='q=%g sigma=%g order=%g' % (q, s, a))


def c05_laplace(c, cv, rng, n):
  for _ in range(n):
    m = loguniform(rng, .01, 30)
    o = random_orders(rng, 8, 5000)
    o = sorted(set(o + [1.0, 1.0 + loguniform(rng, 1e-9, .1), 1.1, 2.0]))
    rel = rng.choice(list(NR))
    got = observe(rdp_of, de.LaplaceDpEvent(1 / m), o, rel)
    add_curve(cv, 'laplace', dict(eps=m, rel=str(rel)), o, got,
              [laplace_true(m, a) for a in o])


def rr_pair(p, k, rel):
  with mp.workdps(40):
    p = mp.mpf(p)
    hi, lo, un = 1 - p + p / k, p / k, mp.mpf(1) / k
    if rel is NR.REPLACE_ONE:
      return [([hi, lo] + [lo] * (k - 2), [lo, hi] + [lo] * (k - 2))]
    a = ([hi] + [lo] * (k - 1), [un] * k)
    return [a, (a[1], a[0])]


def c05_rr(c, cv, rng, n):
  for _ in range(n):
    p = rng.choice([rng.uniform(.01, .99), loguniform(rng, 1e-8, .9),
                    1 - loguniform(rng, 1e-4, .5), 1.0])
    k = rng.choice([1, 2, 2, 3, 5, 20])
    rel = rng.choice([NR.REPLACE_ONE, NR.REPLACE_SPECIAL, ANY])
    o = random_orders(rng, 6, rng.choice([500, 5000])) + [math.inf]
    e = de.RandomizedResponseDpEvent(p, k)
    got = observe(rdp_of, e, o, rel)
    if rel is ANY:
      c.expect(got[0] == 'err' and got[1] == 'UnsupportedEventError',
               'randomized-response:relation', lambda: dict(e=str(e), got=got))
      continue
    pairs = [] if k == 1 else rr_pair(p, k, rel)
    truth = [max([0.0] + [renyi(x, y, a) for x, y in pairs]) for a in o]
    add_curve(cv, 'randomized-response', dict(p=p, k=k, rel=str(rel)), o, got,
              truth, floor=1e-8, slack=1000)


def c05_tree(c, cv, rng, n):
  for _ in range(n):
    s = loguniform(rng, .1, 30)
    if rng.random() < .5:
      steps = rng.choice([1, 2, 3, 4, 7, 8, 9, 15, 16, 31, 32, 33, 63, 64, 100,
                          1000, 1023, 1024, 65535, 65536])
      top = steps
    else:
      steps = [rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 31, 32, 33])
               for _ in range(rng.randint(1, 4))]
      top = max(steps)
      if top == 0:
        steps.append(1)
        top = 1
    depth = top.bit_length()      # ceil(log2(top + 1))
    o = random_orders(rng, 5, 100) + [math.inf]
    got = observe(rdp_of, de.SingleEpochTreeAggregationDpEvent(s, steps), o,
                  NR.REPLACE_SPECIAL)
    add_curve(cv, 'tree', dict(sigma=s, steps=steps), o, got,
              [a * depth / (2 * s * s) for a in o])


def c05_swor(c, cv, rng, n):
  for j in range(n):
    s = loguniform(rng, 1.0, 15)
    d = rng.choice([10, 1000, 100000])
    m = rng.randint(1, d - 1) if rng.random() < .6 else max(1, d // 100)
    big = j % 8 == 0
    o = sorted(set(rng.randint(2, 24) for _ in range(4)))
    if rng.random() < .5:
      o = sorted(set(o + [round(rng.uniform(1.05, 12), 3) for _ in range(3)]))
    q = m / d
    e = de.SampledWithoutReplacementDpEvent(d, m, de.GaussianDpEvent(s))
    if big:
      o = sorted(set(o + [rng.randint(100, 256), 255, 256, 257, 256.5, 300]))
      s = loguniform(rng, 4, 15)
      e = de.SampledWithoutReplacementDpEvent(d, m, de.GaussianDpEvent(s))
      got = observe(rdp_of, e, o, NR.REPLACE_ONE)
      # large orders may use the simpler published upper bound on each term,
      # but nothing may fall below the theorem
      truth = [swor_true(q, s, a) for a in o]
      upper = [swor_true(q, s, a, loose=a > 99) * (1 + 1e-6)
               for a in o]
      add_curve(cv, 'without-replacement:large', dict(n=d, m=m, sigma=s), o,
                got, truth, floor=1e-9, slack=3000, upper=upper, mono=False)
      if got[0] == 'ok':
        hi = [k for k, a in enumerate(o) if a > 256]
        pick = lambda v: [v[k] for k in hi]
        add_curve(cv, 'without-replacement:large',
                  dict(n=d, m=m, sigma=s), pick(o), ('ok', pick(got[1])),
                  pick(truth), floor=1e-9, slack=300, upper=pick(upper),
                  mono=False)
    else:
      got = observe(rdp_of, e, o, NR.REPLACE_ONE)
      add_curve(cv, 'without-replacement', dict(n=d, m=m, sigma=s), o, got,
                [swor_true(q, s, a) for a in o], floor=1e-8, slack=3000,
                mono=False)


# ------------------------------------------------------- repeat and select
def pgf(mean, shape):
  """Probability generating function of the number of repetitions."""
  if math.isinf(shape):
    return lambda x: mp.exp(mean * (x - 1))
  if mean == 1:
    return lambda x: x
  with mp.workdps(40):
    g = mp.mpf(ev.tnb_gamma(mean, shape))
    if shape == 0:
      return lambda x: mp.log(1 - (1 - g) * x) / mp.log(g)
    return lambda x: ((1 - (1 - g) * x) ** (-mp.mpf(shape)) - 1) / (
        g ** (-mp.mpf(shape)) - 1)


def select_best(p, f):
  """Output distribution of the best of K draws of p (worst outcome first)."""
  with mp.workdps(40):
    out, cdf, prev = [], mp.mpf(0), f(mp.mpf(0))
    out.append(prev)         # no repetition at all
    for x in p:
      cdf += x
      v = f(min(cdf, mp.mpf(1)))
      out.append(max(v - prev, mp.mpf(0)))
      prev = v
    return out


def c05_select(c, cv, rng, n):
  for j in range(n):
    shape = rng.choice([0.0, 1.0, math.inf, .5, 2.0, loguniform(rng, .01, 5)])
    mean = rng.choice([1.0, 1.5, 2.0, 10.0, loguniform(rng, 1, 1000)])
    if mean == 1.0 and shape == 0:
      mean = 1.25
    o = random_orders(rng, 7, 64)
    if rng.random() < .3:
      o = list(o)
      rng.shuffle(o)
    k = rng.choice([2, 3, 4])
    p = rng.uniform(.1, .9)
    rel = NR.REPLACE_ONE
    base = de.RandomizedResponseDpEvent(p, k)
    kind = rng.choice(['rr', 'rr', 'lap', 'gauss', 'comp'])
    if kind == 'lap':
      base = de.LaplaceDpEvent(rng.uniform(.3, 5))
    elif kind == 'gauss':
      base = de.GaussianDpEvent(rng.uniform(.5, 10))
    elif kind == 'comp':
      base = de.ComposedDpEvent([base, de.SelfComposedDpEvent(
          de.GaussianDpEvent(rng.uniform(1, 10)), 3)])
    e = de.RepeatAndSelectDpEvent(base, mean, shape)
    single = observe(rdp_of, base, o, rel)
    got = observe(rdp_of, e, o, rel)
    info = dict(event=str(e), orders=o)
    if not c.expect(got[0] == 'ok' and single[0] == 'ok', 'select:total',
                    lambda: dict(info, got=got)):
      continue
    want = [float(x) for x in ev.rns_reference(o, single[1], mean, shape)]
    idx = sorted(range(len(o)), key=lambda i: o[i])
    s = {'impl': [qlog(got[1][i]) for i in idx],
         'want': [qlog(want[i]) for i in idx]}
    cv.add('select:published', info, s, [('eq', 'impl', 'want', 60)])
    # composed around other events and repeated: sums
    acc = rpa.RdpAccountant(o, rel)
    acc.compose(de.GaussianDpEvent(2.0)).compose(e, 2)
    tot = [a / 8 + 2 * w for a, w in zip(o, want)]
    cv.add('select:adds', info, {
        'impl': [qlog(float(acc.rdp[i])) for i in idx],
        'want': [qlog(tot[i]) for i in idx]}, [('eq', 'impl', 'want', 60)])
    if kind != 'rr':
      continue
    # the real thing: best of K randomized responses, both orders of outcomes
    f = pgf(mean, shape)
    truth = []
    with mp.workdps(40):
      hi, lo = 1 - mp.mpf(p) + mp.mpf(p) / k, mp.mpf(p) / k
      base_p, base_q = [hi, lo] + [lo] * (k - 2), [lo, hi] + [lo] * (k - 2)
      perms = list(itertools.permutations(range(k)))
      for i in idx:
        best = 0.0
        for pm in rng.sample(perms, min(4, len(perms))):
          P = select_best([base_p[x] for x in pm], f)
          Q = select_best([base_q[x] for x in pm], f)
          best = max(best, renyi(P, Q, o[i]))
        truth.append(best)
    cv.add('select:never-understates', info, {
        'impl': [qlog(got[1][i], 1e-9) for i in idx],
        'truth': [qlog(v, 1e-9) for v in truth]},
           [('leq', 'truth', 'impl', 60)])


def c05_independent(c, rng, n):
  """The value at one order does not depend on the other orders."""
  for _ in range(n):
    o = random_orders(rng, 6, 100)
    mix = list(o)
    rng.shuffle(mix)
    e, rel = rng.choice([
        (de.PoissonSampledDpEvent(rng.uniform(.01, .9),
                                  de.GaussianDpEvent(rng.uniform(.5, 5))), ANY),
        (de.LaplaceDpEvent(rng.uniform(.1, 5)), ANY),
        (de.RandomizedResponseDpEvent(rng.uniform(.1, .9), 3), NR.REPLACE_ONE),
        (de.SampledWithoutReplacementDpEvent(
            100, rng.randint(1, 99), de.GaussianDpEvent(rng.uniform(1, 5))),
         NR.REPLACE_ONE)])
    a = rdp_of(e, o, rel)
    b = dict(zip(mix, rdp_of(e, np.array(mix), rel)))
    one = rng.choice(o)
    c.expect(all(b[x] == y for x, y in zip(o, a))
             and rdp_of(e, [one], rel)[0] == b[one], 'orders:independent',
             lambda: dict(event=str(e), orders=mix, a=a, b=b))


def c05(c):
  rng = random.Random(c.seed * 7919 + 5)
  c05_exact(c)
  cv = Curves(c)
  c05_gauss(c, cv, rng, c.pick(200, 3000))
  c05_subgauss(c, cv, rng, c.pick(400, 4000))
  c05_laplace(c, cv, rng, c.pick(400, 4000))
  c05_rr(c, cv, rng, c.pick(400, 4000))
  c05_tree(c, cv, rng, c.pick(250, 2000))
  c05_swor(c, cv, rng, c.pick(120, 900))
  c05_select(c, cv, rng, c.pick(200, 1600))
  c05_independent(c, rng, c.pick(40, 300))
  cv.flush()


# ---------------------------------------------------------------------- C06
CONVERT = '''SPECIFICATION Spec
CONSTANTS N = %d D = %d MaxA = %d EmitRows = TRUE
INVARIANTS Sound KlSound Ordered EpsInverts Emitted
'''


def frac(x):
  return x[0] / x[1] if x[1] else math.inf


def kl(r):
  return 0.0 if r <= 0 else math.sqrt(-math.expm1(-r))


def c06_exact(c):
  """Every small pair: conversions of its exact moments."""
  for n, d, top in c.pick([(3, 4, 3), (2, 5, 4)], [(3, 4, 3), (2, 5, 4),
                                                   (2, 6, 3), (4, 3, 3)]):
    rows = c.tlc('MCConvert', CONVERT % (n, d, top), timeout=300).rows
    orders = list(range(2, top + 1))
    for r in rows:
      m = {a: frac(r['m'][str(a)]) if isinstance(r['m'], dict)
           else frac(r['m'][a - 2]) for a in orders}
      get = lambda x, a: x[str(a)] if isinstance(x, dict) else x[a - 2]
      rdp = {a: math.log(m[a]) / (a - 1) if m[a] < math.inf else math.inf
             for a in orders}
      for sub in itertools.chain.from_iterable(
          itertools.combinations(orders, k) for k in range(1, top)):
        for style in (list, np.array):
          o, v = style([float(a) for a in sub]), style([rdp[a] for a in sub])
          det = lambda **kw: dict(up=r['up'], lo=r['lo'], d=r['d'],
                                  orders=list(sub), **kw)
          for j in range(4):
            got = observe(rpa.compute_delta, o, v, j * LN2)
            hs = frac(r['hs'][j])
            want = min(min(kl(rdp[a]), frac(get(r['db'], a)[j])) if rdp[a] > 0
                       else 0.0 for a in sub)
            if not c.expect(got[0] == 'ok', 'exact:total',
                            lambda: det(j=j, got=got)):
              continue
            g = float(got[1][0])
            c.expect(g >= hs - 1e-12, 'exact:delta-sound', lambda: det(
                j=j, got=g, true=hs))
            c.expect(abs(g - min(1.0, want)) < 1e-9, 'exact:delta',
                     lambda: det(j=j, got=g, want=want))
            c.expect(got[1][1] in sub, 'exact:order', lambda: det(got=got))
          got = observe(rpa.compute_epsilon, o, v, 1 / 8)
          want = []
          for a in sub:
            e = frac(get(r['ee'], a))
            want.append(0.0 if kl(rdp[a]) < 1 / 8 else max(
                0.0, math.log(e) / (a - 1)) if e < math.inf else math.inf)
          c.expect(got[0] == 'ok' and (
              got[1][0] == min(want) or abs(got[1][0] - min(want)) < 1e-9),
                   'exact:epsilon', lambda: det(got=got, want=want))
          if got[0] == 'ok' and math.isfinite(got[1][0]):
            e = float(got[1][0])
            true = sum(max(0.0, u - math.exp(e) * w)
                       for u, w in zip(r['up'], r['lo'])) / r['d']
            c.expect(true <= 1 / 8 + 1e-9, 'exact:epsilon-sound',
                     lambda: det(got=e, true=true))
      c.distinct.add(repr((r['up'], r['lo'])))
    c.traces += len(rows)
    c.sample({'convert': str(rows[len(rows) // 2])[:300]})


def ref_delta(orders, rdp, eps):
  best = mp.mpf(1)
  with mp.workdps(40):
    for a, r in zip(orders, rdp):
      if r == 0:
        return mp.mpf(0)
      b = mp.sqrt(-mp.expm1(-mp.mpf(r))) if r < math.inf else mp.mpf(1)
      if math.isinf(a):
        b = mp.mpf(0) if r <= eps else b
      elif a > 1.01 and r < math.inf:
        b = min(b, mp.exp((mp.mpf(a) - 1) * (mp.mpf(r) - eps
                                             + mp.log1p(-1 / mp.mpf(a)))) / a)
      best = min(best, b)
  return best


def ref_epsilon(orders, rdp, delta):
  best = math.inf
  if delta == 0:
    return 0.0 if all(r == 0 for r in rdp) else math.inf
  with mp.workdps(40):
    d = mp.mpf(delta)
    for a, r in zip(orders, rdp):
      if r < math.inf and d * d > -mp.expm1(-mp.mpf(r)):
        return 0.0
      if math.isinf(a):
        best = min(best, r)
      elif a > 1.01 and r < math.inf:
        best = min(best, float(mp.mpf(r) + mp.log1p(-1 / mp.mpf(a))
                               - mp.log(d * a) / (mp.mpf(a) - 1)))
  return max(0.0, best)


def random_curve(rng):
  n = rng.choice([1, 1, 2, 3, 6, 12])
  o = sorted(set(rng.choice([float(rng.randint(2, 100)),
                             round(loguniform(rng, 1.02, 2000), 4)])
                 for _ in range(n)))
  if rng.random() < .25:
    o = [1.0] + o
  if rng.random() < .3:
    o = o + [math.inf]
  kind = rng.choice(['gauss', 'laplace', 'free', 'zero', 'tiny', 'infs'])
  if kind == 'gauss':
    k = loguniform(rng, 1e-6, 50)
    r = [a * k for a in o]
  elif kind == 'laplace':
    e = loguniform(rng, .01, 20)
    r = [laplace_true(e, a) if math.isfinite(a) else e for a in o]
  elif kind == 'free':
    r = [loguniform(rng, 1e-8, 100) for _ in o]
  elif kind == 'zero':
    r = [0.0 for _ in o]
  elif kind == 'tiny':
    r = [loguniform(rng, 1e-25, 1e-6) for _ in o]
  else:
    r = [rng.choice([math.inf, loguniform(rng, .01, 10)]) for _ in o]
  if rng.random() < .5:
    z = list(zip(o, r))
    rng.shuffle(z)
    o, r = [x for x, _ in z], [y for _, y in z]
  return o, r


def c06_curves(c, cv, rng, n):
  for _ in range(n):
    o, r = random_curve(rng)
    info = dict(orders=o, rdp=r)
    style = rng.choice([list, tuple, np.array])
    O, R = style(o), style(r)
    eps = sorted([0.0, 50.0] + [loguniform(rng, .001, 60) for _ in range(8)]
                 + [float(x) for x in r if 0 < x < 1e6][:3])
    got = [observe(rpa.compute_delta, O, R, e) for e in eps]
    if c.expect(all(g[0] == 'ok' for g in got), 'delta:total',
                lambda: dict(info, eps=eps, got=got)):
      cv.add('delta', dict(info, eps=eps), {
          'impl': [qlog(g[1][0], 1e-100) for g in got],
          'want': [qlog(ref_delta(o, r, e), 1e-100) for e in eps]},
             [('eq', 'impl', 'want', 60), ('noninc', 'impl', None, 2),
              ('range', 'impl', qlog(1e-100, 1e-100), 0)])
      # the reported order attains the reported value
      att = []
      for e, g in zip(eps, got):
        i = [k for k, a in enumerate(o) if a == g[1][1]]
        att.append(min(float(rpa.compute_delta([o[k]], [r[k]], e)[0])
                       for k in i) if i else math.nan)
      cv.add('delta:order', dict(info, eps=eps), {
          'impl': [qlog(g[1][0], 1e-100) for g in got],
          'alone': [qlog(x, 1e-100) for x in att]},
             [('eq', 'impl', 'alone', 2)])
    ds = sorted({1e-30, 1e-12, 1e-5, .5, .999} | {
        loguniform(rng, 1e-20, .99) for _ in range(6)})
    got = [observe(rpa.compute_epsilon, O, R, d) for d in ds]
    if c.expect(all(g[0] == 'ok' for g in got), 'epsilon:total',
                lambda: dict(info, deltas=ds, got=got)):
      want = [ref_epsilon(o, r, d) for d in ds]
      cv.add('epsilon', dict(info, deltas=ds), {
          'impl': [qlog(g[1][0], 1e-6) for g in got],
          'want': [qlog(w, 1e-6) for w in want]},
             [('eq', 'impl', 'want', 60), ('noninc', 'impl', None, 2),
              ('range', 'impl', qlog(1e-6, 1e-6), BIG)])
      fin = [(d, g[1]) for d, g in zip(ds, got) if math.isfinite(g[1][0])]
      back = [observe(rpa.compute_delta, O, R, g[0]) for _, g in fin]
      if c.expect(all(b[0] == 'ok' for b in back), 'epsilon:total',
                  lambda: dict(info, back=back)):
        cv.add('epsilon:met', dict(info, deltas=[d for d, _ in fin]), {
            'delta': [qlog(b[1][0] , 1e-30) for b in back],
            'target': [qlog(d, 1e-30) for d, _ in fin]},
               [('meets', 'delta', 'target', 4000)])
      att = []
      for d, g in zip(ds, got):
        i = [k for k, a in enumerate(o) if a == g[1][1]]
        att.append(min(float(rpa.compute_epsilon([o[k]], [r[k]], d)[0])
                       for k in i) if i else math.nan)
      cv.add('epsilon:order', dict(info, deltas=ds), {
          'impl': [qlog(g[1][0], 1e-6) for g in got],
          'alone': [qlog(x, 1e-6) for x in att]}, [('eq', 'impl', 'alone', 2)])
    got = observe(rpa.compute_epsilon, O, R, 0.0)
    c.expect(got[0] == 'ok' and got[1][0] == ref_epsilon(o, r, 0.0),
             'epsilon:zero-delta', lambda: dict(info, got=got))


def c06_refuse(c):
  bad = [
      ('delta', [2.0, 3.0], [1.0], 1.0), ('delta', [.5], [1.0], 1.0),
      ('delta', [2.0], [1.0], -.1), ('epsilon', [2.0, 3.0], [1.0], .1),
      ('epsilon', [.5], [1.0], .1), ('epsilon', [2.0], [1.0], -.1)]
  for kind, o, r, x in bad:
    f = rpa.compute_delta if kind == 'delta' else rpa.compute_epsilon
    got = observe(f, o, r, x)
    c.expect(got[0] == 'err' and got[1] == 'ValueError', 'malformed-refused',
             lambda: dict(kind=kind, orders=o, rdp=r, x=x, got=got))


def c06_accountant(c, cv, rng, n):
  """The accountant answers from its own curve."""
  for _ in range(n):
    o = random_orders(rng, 6, 200)
    acc = rpa.RdpAccountant(o)
    hist = []
    for _ in range(rng.randint(0, 3)):
      e = rng.choice([
          de.GaussianDpEvent(loguniform(rng, .3, 30)),
          de.LaplaceDpEvent(loguniform(rng, .3, 30)),
          de.PoissonSampledDpEvent(rng.choice([0.0, .01, .2, 1.0]),
                                   de.GaussianDpEvent(loguniform(rng, .5, 5))),
          de.NoOpDpEvent()])
      k = rng.randint(1, 50)
      hist.append((str(e), k))
      acc.compose(e, k)
    r = [float(x) for x in acc.rdp]
    ds = [1e-10, 1e-5, .01, .5]
    es = [0.0, .1, 1.0, 5.0, 40.0]
    info = dict(history=hist, orders=o)
    cv.add('accountant:epsilon', info, {
        'impl': [qlog(acc.get_epsilon(d), 1e-6) for d in ds],
        'both': [qlog(acc.get_epsilon_and_optimal_order(d)[0], 1e-6)
                 for d in ds],
        'want': [qlog(ref_epsilon(o, r, d), 1e-6) for d in ds]},
           [('eq', 'impl', 'want', 60), ('eq', 'impl', 'both', 0)])
    cv.add('accountant:delta', info, {
        'impl': [qlog(acc.get_delta(e), 1e-60) for e in es],
        'both': [qlog(acc.get_delta_and_optimal_order(e)[0], 1e-60)
                 for e in es],
        'want': [qlog(ref_delta(o, r, e), 1e-60) for e in es]},
           [('eq', 'impl', 'want', 60), ('eq', 'impl', 'both', 0)])


def c06(c):
  rng = random.Random(c.seed * 7919 + 6)
  c06_exact(c)
  cv = Curves(c)
  c06_curves(c, cv, rng, c.pick(500, 6000))
  c06_accountant(c, cv, rng, c.pick(100, 1000))
  c06_refuse(c)
  cv.flush()


def body(prop):
  return {'C05': c05, 'C06': c06}[prop]
