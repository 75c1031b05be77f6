"""C10: mechanism PLDs bracket the mechanisms' true privacy curves."""
import math
import random

import numpy as np
from scipy import special

from dp_accounting import privacy_accountant
from dp_accounting.pld import common
from dp_accounting.pld import privacy_loss_distribution as pldm
from dp_accounting.pld import privacy_loss_mechanism as plm

from harness.curves import Curves, qlin, qlog
from harness.vlib import observe

NR = privacy_accountant.NeighboringRelation
ADD, REMOVE = plm.AdjacencyType.ADD, plm.AdjacencyType.REMOVE
DIRS = {'ADD': ADD, 'REMOVE': REMOVE}
LN2 = math.log(2)


def loguniform(rng, lo, hi):
  return math.exp(rng.uniform(math.log(lo), math.log(hi)))


# ------------------------------------------------------------------- oracles
def h_gauss(r):
  """Hockey stick of N(r, 1) from N(0, 1)."""
  def f(e):
    if e == math.inf:
      return 0.0
    x = special.log_ndtr(r / 2 - e / r)
    y = e + special.log_ndtr(-r / 2 - e / r)
    return float(math.exp(x) * -math.expm1(y - x)) if y < x else 0.0
  return f


def h_laplace(r):
  """Hockey stick of Laplace(r, 1) from Laplace(0, 1)."""
  def f(e):
    if e <= -r:
      return -math.expm1(e)
    return max(0.0, -math.expm1((e - r) / 2))
  return f


def h_pair(a, b):
  """Hockey stick of explicit distributions."""
  a, b = np.asarray(a), np.asarray(b)

  def f(e):
    if e == math.inf:
      return float(a[b == 0].sum())
    return float(np.maximum(a - math.exp(e) * b, 0).sum())
  return f


def dlap_pair(a, s):
  t = np.arange(0, s + 1)
  w = -math.expm1(-a) / (1 + math.exp(-a)) * np.exp(-a * t)
  w[0] = 1 / (1 + math.exp(-a))
  w[s] = math.exp(-a * s) / (1 + math.exp(-a))
  return w, w[::-1]


def dgauss_pair(sigma, s, trunc):
  i = np.arange(-trunc, trunc + 1)
  w = np.exp(-.5 * (i / sigma) ** 2)
  w /= w.sum()
  z = np.zeros(s)
  return np.concatenate([w, z]), np.concatenate([z, w])


def sub(h, q, direction):
  """The curve of the subsampled mechanism (laws AddLaw, RemoveLaw of MCMech)."""
  if q == 1:
    return h

  def remove(e):
    t = math.expm1(e) + q
    if t <= 0:
      return -math.expm1(e)
    return q * h(math.log(t / q))

  def add(e):
    rest = 1 - math.exp(e) * (1 - q)
    if rest <= 0:
      return 0.0
    return rest * h(e + math.log(q / rest))
  return add if direction == 'ADD' else remove


def h_mog(sigma, sens, probs, direction):
  """Mixture of Gaussians: threshold by bisection of the likelihood ratio."""
  c = np.asarray(sens, float) / sigma
  w = np.asarray(probs, float)
  c, w = c[w > 0], w[w > 0]
  w = w / w.sum()
  # P = sum w N(c, 1) on one side, Q = N(0, 1) on the other; ratio P/Q grows
  # in x, so REMOVE counts x above the threshold and ADD below it.
  logratio = lambda x: float(special.logsumexp(c * x - c * c / 2, b=w))

  def f(e):
    level = e if direction == 'REMOVE' else -e
    p0 = float(w[c == 0].sum())
    if p0 > 0 and level <= math.log(p0):
      return max(0.0, -math.expm1(e)) if direction == 'REMOVE' else 0.0
    lo, hi = -60 - abs(level) * 5, 60 + abs(level) * 5
    while logratio(lo) > level:
      lo *= 2
    while logratio(hi) < level:
      hi *= 2
    for _ in range(200):
      m = (lo + hi) / 2
      if logratio(m) < level:
        lo = m
      else:
        hi = m
    x = (lo + hi) / 2
    if direction == 'REMOVE':
      return max(0.0, float((w * special.ndtr(c - x)).sum())
                 - math.exp(e) * float(special.ndtr(-x)))
    return max(0.0, float(special.ndtr(x))
               - math.exp(e) * float((w * special.ndtr(x - c)).sum()))
  return f


# ------------------------------------------------------------ the exact rows
CFG = '''SPECIFICATION Spec
CONSTANTS
 MaxMS = %d
 D = %d
 EmitRows = %s
INVARIANTS RemoveLaw AddLaw RateOne RateMonotone MonotoneLoss Symmetric
 MoreNoise Galois Emitted
'''


def level(e):
  return math.log(e[0] / e[1])


def mech_rows(c):
  r = c.tlc('MCMech', CFG % (8, c.pick(5, 7), 'TRUE'),
            timeout=800)
  return r.rows


def replay_dlap(c, cv, r):
  m = r['mech']
  a, s, q = m['m'] * LN2, m['s'], r['q'][0] / r['q'][1]
  eps = [level(e) for e in r['eps']]
  info = dict(mechanism='discrete Laplace', parameter='%d ln2' % m['m'],
              sensitivity=s, sampling=r['q'])
  both = {}
  for d, x in r['dirs'].items():
    got = observe(plm.DiscreteLaplacePrivacyLoss, a, s, sampling_prob=q,
                  adjacency_type=DIRS[d])
    if not c.expect(got[0] == 'ok', 'discrete-laplace:total',
                    lambda: dict(info, got=got)):
      return
    mech = got[1]
    want = [n / k for n, k in x['hs']]
    both[d] = want
    c.traces += 1
    got = observe(lambda: (list(mech.get_delta_for_epsilon(eps)),
                           [mech.get_delta_for_epsilon(e) for e in eps]))
    c.expect(got[0] == 'ok' and all(
        abs(u - w) < 1e-12 and abs(v - w) < 1e-12
        for u, v, w in zip(got[1][0], got[1][1], want)),
             'discrete-laplace:delta',
             lambda: dict(info, dir=d, eps=eps, got=got[1:], want=want))
    # outcome t of the model is output t (ADD) or t - s (REMOVE)
    off = 0 if d == 'ADD' else -s
    losses = [math.log(u / v) for u, v in zip(x['up'], x['lo'])]
    cdf = np.cumsum(x['up']) / x['den']
    lcdf = np.log(np.cumsum(x['lo']) / x['den'])
    got = observe(lambda: [mech.privacy_loss(t + off) for t in range(s + 1)])
    c.expect(got[0] == 'ok' and np.allclose(got[1], losses, 1e-9, 1e-12),
             'discrete-laplace:loss',
             lambda: dict(info, dir=d, got=got[1:], want=losses))
    for t in (-3, s + 3):      # beyond the ends nothing changes
      got = observe(mech.privacy_loss, t + off)
      c.expect(got[0] == 'ok' and abs(got[1] - losses[0 if t < 0 else s])
               < 1e-9, 'discrete-laplace:loss',
               lambda: dict(info, dir=d, t=t, got=got[1:]))
    got = observe(lambda: (
        list(mech.mu_upper_cdf([t + off for t in range(s)])),
        list(mech.mu_lower_log_cdf([t + off for t in range(s)]))))
    c.expect(got[0] == 'ok' and np.allclose(got[1][0], cdf[:-1], 1e-9)
             and np.allclose(got[1][1], lcdf[:-1], 1e-9),
             'discrete-laplace:cdf',
             lambda: dict(info, dir=d, got=got[1:]))
    for e, inv in zip(r['eps'], x['inv']):
      l = level(e)
      if any(abs(l - y) < 1e-9 for y in losses):
        continue
      if (d == 'ADD' and q < 1 and l >= -math.log(1 - q)) or (
          d == 'REMOVE' and q < 1 and l <= math.log(1 - q)):
        continue               # outside the range of losses: refused
      want_x = -math.inf if inv == -1 else math.inf if inv == s else inv + off
      got = observe(mech.inverse_privacy_loss, l)
      c.expect(got[0] == 'ok' and got[1] == want_x, 'discrete-laplace:inverse',
               lambda: dict(info, dir=d, loss=l, got=got[1:], want=want_x))
  curves_ = [truth('dlap', dict(a=a, sens=s), q, d) for d in DIRS]
  far = lambda e: max(f(e) for f in curves_)
  true = [max(both['ADD'][i], both['REMOVE'][i]) for i in range(len(eps))]
  for g in (1, 3):
    h = LN2 / g
    for pess in (True, False):
      for dots in (True, False):
        if dots and not pess:
          continue
        got = observe(lambda: [float(v) for v in (
            pldm.from_discrete_laplace_mechanism(
                a, s, pessimistic_estimate=pess,
                value_discretization_interval=h, use_connect_dots=dots,
                sampling_prob=q).get_delta_for_epsilon(eps))])
        grid = [abs(e / h - round(e / h)) < 1e-9 for e in eps]
        exact = [dots and on for on in grid]
        curve(cv, 'discrete-laplace:pld', dict(
            info, interval='ln2/%d' % g, pessimistic=pess, dots=dots), eps,
              got, true, pess, exact=exact, cell=[far(
                  e - h if pess else e + h) for e in eps])


def curve(cv, clause, info, eps, got, true, pess, exact=None, cell=None,
          tol=1e-11, rel=1e-7):
  """A PLD's curve against the truth; `cell` is the truth one cell away."""
  if got[0] != 'ok':
    cv.c.expect(False, clause + ':total', lambda: dict(info, got=got[1:]))
    return
  fl = tol
  q = lambda v: [qlog(x, fl) for x in v]
  up = [x * (1 + rel) + tol for x in true]
  dn = [max(0.0, x * (1 - rel) - tol) for x in true]
  s = dict(impl=q(got[1]), hi=q(up), lo=q(dn))
  if any(v < 0 or v > 1 + 1e-9 or math.isnan(v) for v in got[1]):
    cv.c.expect(False, clause + ':range', lambda: dict(info, got=got[1]))
  laws = [('leq', 'lo', 'impl', 0) if pess else ('leq', 'impl', 'hi', 0),
          ('noninc', 'impl', None, 3)]
  if exact and any(exact):
    s['exact'] = [a if x else b for a, b, x in zip(
        s['hi'] if pess else s['lo'], s['impl'], exact)]
    laws.append(('leq', 'impl', 'exact', 0) if pess else
                ('leq', 'exact', 'impl', 0))
  if cell:
    if pess:
      s['cell'] = q([x * (1 + rel) + tol for x in cell])
      laws.append(('leq', 'impl', 'cell', 0))
    else:
      s['cell'] = q([max(0.0, x * (1 - rel) - tol) for x in cell])
      laws.append(('leq', 'cell', 'impl', 0))
  cv.add(clause, dict(info, eps=[round(e, 9) for e in eps]), s, laws)


def replay_rr(c, cv, r):
  m = r['mech']
  if r['q'] != [1, 1] and tuple(r['q']) != (1, 1):
    return
  p, k = m['n'] / m['d'], m['k']
  eps = [level(e) for e in r['eps']]
  rel = NR.REPLACE_ONE if m['rel'] == 'one' else NR.REPLACE_SPECIAL
  a = [x / m['den'] for x in m['a']]
  b = [x / m['den'] for x in m['b']]
  f, g = h_pair(a, b), h_pair(b, a)
  true_at = lambda e: f(e) if rel is NR.REPLACE_ONE else max(f(e), g(e))
  c.traces += 1
  for h in (LN2, .25):
    for pess in (True, False):
      got = observe(lambda: [float(v) for v in pldm.from_randomized_response(
          p, k, pessimistic_estimate=pess, value_discretization_interval=h,
          neighboring_relation=rel).get_delta_for_epsilon(eps)])
      curve(cv, 'randomized-response:pld', dict(
          p=p, k=k, rel=str(rel), interval=h, pessimistic=pess), eps, got,
            [true_at(e) for e in eps], pess,
            cell=[true_at(e - h if pess else e + h) for e in eps])


def random_rr(c, cv, rng, n):
  """Randomized response over any number of buckets, at any noise."""
  for _ in range(n):
    p = rng.choice([rng.uniform(.01, .99), loguniform(rng, 1e-6, .5),
                    1 - loguniform(rng, 1e-6, .5)])
    k = rng.choice([2, 3, rng.randint(2, 64), rng.randint(65, 5000)])
    rel = rng.choice([NR.REPLACE_ONE, NR.REPLACE_SPECIAL])
    hi, lo = 1 - p + p / k, p / k
    if rel is NR.REPLACE_ONE:
      a = np.array([hi, lo, (k - 2) * lo])
      b = np.array([lo, hi, (k - 2) * lo])
    else:
      a, b = np.array([hi, (k - 1) * lo]), np.array([1 / k, 1 - 1 / k])
    f, g = h_pair(a, b), h_pair(b, a)
    true = lambda e: max(f(e), g(e))
    top = math.log(hi / lo)
    h = rng.choice([1e-3, .01, .25])
    eps = sorted({0.0, top, math.log(hi * k)} | {
        rng.uniform(0, 1.1 * top) for _ in range(5)})
    for pess in (True, False):
      got = observe(lambda: [float(v) for v in pldm.from_randomized_response(
          p, k, pessimistic_estimate=pess, value_discretization_interval=h,
          neighboring_relation=rel).get_delta_for_epsilon(eps)])
      curve(cv, 'randomized-response:pld', dict(
          p=p, k=k, rel=str(rel), interval=h, pessimistic=pess), eps, got,
            [true(e) for e in eps], pess,
            cell=[true(e - h if pess else e + h) for e in eps])
    c.traces += 1


def old_names(c, rng, n):
  """The deprecated class methods are the functions of the same name."""
  P = pldm.PrivacyLossDistribution
  for _ in range(n):
    pess, h = rng.choice([True, False]), rng.choice([.05, .1, .31])
    q = rng.choice([1.0, .3, rng.uniform(.05, .95)])
    kw = dict(pessimistic_estimate=pess, value_discretization_interval=h)
    s = loguniform(rng, .5, 4)
    sens, si = rng.choice([1, 2, .7]), rng.choice([1, 2, 3])
    up = {i: math.log(x) for i, x in enumerate((.5, .25, .25))}
    lo = {i: math.log(x) for i, x in enumerate((.125, .5, .375))}
    cut = rng.choice([-math.inf, math.log(.3)])
    cdf = lambda x: float(special.ndtr((x - .5)))
    t = rng.choice([1e-15, 1e-2])
    calls = [
        ('from_gaussian_mechanism', (s, sens), dict(
            kw, sampling_prob=q, log_mass_truncation_bound=rng.choice(
                [-50, -8]))),
        ('from_laplace_mechanism', (s, sens), dict(kw, sampling_prob=q)),
        ('from_discrete_laplace_mechanism', (s, si), dict(
            kw, sampling_prob=q)),
        ('from_discrete_gaussian_mechanism', (s, si), dict(
            kw, sampling_prob=q, truncation_bound=rng.choice([None, 9]))),
        ('from_randomized_response', (q * .99, si + 1), kw),
        ('from_two_probability_mass_functions', (lo, up), dict(
            kw, log_mass_truncation_bound=cut)),
        ('create_from_cdf', (cdf,), dict(kw, tail_mass_truncation=t)),
        ('from_privacy_parameters', (
            common.DifferentialPrivacyParameters(s, .01),), dict(
                value_discretization_interval=h)),
        ('identity', (), dict(value_discretization_interval=h)),
    ]
    eps = [-1.0, 0.0, .2, .7, 1.3, 2.9]
    for name, args, opt in calls:
      two = [observe(lambda: [float(x) for x in getattr(o, name)(
          *args, **opt).get_delta_for_epsilon(eps)]) for o in (P, pldm)]
      c.expect(two[0] == two[1], 'deprecated-names', lambda: dict(
          name=name, args=str(args), options=opt, eps=eps, method=two[0],
          function=two[1]))
    c.traces += 1


# ------------------------------------------------------- continuous families
def build(kind, par, pess, h, dots, q, cut=-50):
  if kind == 'gauss':
    return pldm.from_gaussian_mechanism(
        par['sigma'], sensitivity=par['sens'], pessimistic_estimate=pess,
        value_discretization_interval=h, use_connect_dots=dots,
        log_mass_truncation_bound=cut, sampling_prob=q)
  if kind == 'laplace':
    return pldm.from_laplace_mechanism(
        par['sigma'], sensitivity=par['sens'], pessimistic_estimate=pess,
        value_discretization_interval=h, use_connect_dots=dots,
        sampling_prob=q)
  if kind == 'dlap':
    return pldm.from_discrete_laplace_mechanism(
        par['a'], par['sens'], pessimistic_estimate=pess,
        value_discretization_interval=h, use_connect_dots=dots,
        sampling_prob=q)
  if kind == 'dgauss':
    return pldm.from_discrete_gaussian_mechanism(
        par['sigma'], par['sens'], truncation_bound=par['trunc'],
        pessimistic_estimate=pess, value_discretization_interval=h,
        use_connect_dots=dots, sampling_prob=q)
  if kind == 'mog':
    return pldm.from_mixture_gaussian_mechanism(
        par['sigma'], par['sens'], par['probs'], pessimistic_estimate=pess,
        value_discretization_interval=h, log_mass_truncation_bound=cut,
        use_connect_dots=dots)
  raise KeyError(kind)


def mech_of(kind, par, q, direction):
  d = DIRS[direction]
  if kind == 'gauss':
    return plm.GaussianPrivacyLoss(par['sigma'], par['sens'], sampling_prob=q,
                                   adjacency_type=d)
  if kind == 'laplace':
    return plm.LaplacePrivacyLoss(par['sigma'], par['sens'], sampling_prob=q,
                                  adjacency_type=d)
  if kind == 'dlap':
    return plm.DiscreteLaplacePrivacyLoss(par['a'], par['sens'],
                                          sampling_prob=q, adjacency_type=d)
  if kind == 'dgauss':
    return plm.DiscreteGaussianPrivacyLoss(
        par['sigma'], par['sens'], truncation_bound=par['trunc'],
        sampling_prob=q, adjacency_type=d)
  return plm.MixtureGaussianPrivacyLoss(
      par['sigma'], par['sens'], par['probs'], adjacency_type=d)


def truth(kind, par, q, direction):
  if kind == 'gauss':
    return sub(h_gauss(par['sens'] / par['sigma']), q, direction)
  if kind == 'laplace':
    return sub(h_laplace(par['sens'] / par['sigma']), q, direction)
  if kind == 'mog':
    return h_mog(par['sigma'], par['sens'], par['probs'], direction)
  if kind == 'dlap':
    a, b = dlap_pair(par['a'], par['sens'])
  else:
    t = par['trunc']
    t = math.ceil(11.6 * par['sigma']) if t is None else t
    a, b = dgauss_pair(par['sigma'], par['sens'], t)
  if direction == 'ADD':
    return h_pair(a, (1 - q) * a + q * b)
  return h_pair((1 - q) * b + q * a, b)


def random_mech(rng, kind):
  q = rng.choice([1.0, 1.0, .5, rng.uniform(.01, .99), loguniform(
      rng, 1e-4, .5), 1 - loguniform(rng, 1e-4, .1)])
  sc = rng.choice([1.0, 1.0, 2.0, loguniform(rng, 1e-2, 1e3)])
  if kind in ('gauss', 'laplace'):
    par = dict(sigma=sc * loguniform(rng, .3, 12), sens=sc)
    span = (sc / par['sigma']) * (11 if kind == 'gauss' else 1)
  elif kind == 'dlap':
    par = dict(a=loguniform(rng, .05, 3), sens=rng.randint(1, 9))
    span = par['a'] * par['sens']
  elif kind == 'dgauss':
    par = dict(sigma=loguniform(rng, .4, 12), sens=rng.randint(1, 4),
               trunc=None)
    if rng.random() < .4:
      par['trunc'] = rng.randint(par['sens'], par['sens'] + 12)
    span = 11 * par['sens'] / par['sigma']
  else:
    n = rng.randint(1, 4)
    sens = [rng.choice([0.0, 1.0, 2.0, rng.uniform(.1, 3)]) for _ in range(n)]
    if max(sens) == 0:
      sens[0] = 1.0
    w = [rng.uniform(.05, 1) for _ in range(n)]
    if rng.random() < .4:        # spread over the magnitudes
      n = rng.randint(2, 5)
      sens = sorted(loguniform(rng, .03, 3) for _ in range(n))
      if rng.random() < .5:
        sens[0] = 0.0
      w = [loguniform(rng, 1e-9, 1) for _ in range(n)]
      w[rng.randrange(n)] = 1.0
    if rng.random() < .3:        # many standard deviations apart
      n = rng.randint(2, 4)
      sens = [loguniform(rng, .1, 12) for _ in range(n)]
      w = [rng.uniform(.05, 1) for _ in range(n)]
    if rng.random() < .3 and n > 1:
      w[-1] = 0.0
      if max(s for s, x in zip(sens, w) if x) == 0:
        sens[0] = 1.0
    tot = sum(w)
    par = dict(sigma=sc * loguniform(rng, .4, 6), sens=[sc * s for s in sens],
               probs=[x / tot for x in w])
    q = 1.0
    span = 11 * sc * max(sens) / par['sigma']
  return par, q, span


def c10_random(c, cv, rng, n, kinds):
  for j in range(n):
    kind = kinds[j % len(kinds)]
    par, q, span = random_mech(rng, kind)
    h = rng.choice([span / 40, span / 13, span / 150, .1])
    h = max(h, span / 400)
    tr = {d: truth(kind, par, q, d) for d in DIRS}
    hi = span * (q if q < .3 else 1)
    grid = sorted({0.0, h, 2 * h} | {h * rng.randint(0, max(3, int(hi / h)))
                                     for _ in range(4)})
    eps = sorted(set(grid) | {rng.uniform(-.3 * hi, hi) for _ in range(5)}
                 | {rng.uniform(0, .2 * hi), hi * 1.2, -1.2 * span - 1})
    worst = lambda e: max(tr['ADD'](e), tr['REMOVE'](e))
    true = [worst(e) for e in eps]
    base = eps
    tol = 1e-9 if kind == 'mog' else 2e-11
    info = dict(kind=kind, par=str(par), q=q)
    for pess in (True, False):
      for dots in ((True, False) if pess else (False,)):
        got = observe(lambda: [float(v) for v in build(
            kind, par, pess, h, dots, q).get_delta_for_epsilon(eps)])
        exact = [dots and any(e == g for g in grid) for e in eps]
        curve(cv, kind + ':pld', dict(info, interval=h, pessimistic=pess,
                                      dots=dots), eps, got, true, pess,
              exact=exact if dots else None,
              cell=[worst(e - h if pess else e + h) for e in eps], tol=tol)
        if kind not in ('gauss', 'mog') or rng.random() < .5:
          continue
        # discarding a noticeable mass of the noise: still on the same side
        cut = rng.choice([-3.0, -6.0, -12.0, -25.0])
        got = observe(lambda: [float(v) for v in build(
            kind, par, pess, h, dots, q, cut).get_delta_for_epsilon(eps)])
        lost = 2 * math.exp(cut)
        curve(cv, kind + ':truncated', dict(
            info, interval=h, pessimistic=pess, dots=dots, bound=cut), eps,
              got, true, pess, cell=[
                  worst(e - h) + lost if pess else max(0.0, worst(e + h) - lost)
                  for e in eps], tol=tol)
    # the mechanism's own curve, in each direction
    ints = sorted({0, 1, 2, int(hi), int(-.3 * hi)})
    p0 = 1 - q
    if kind == 'mog':
      p0 = 1 - sum(w for x, w in zip(par['sens'], par['probs']) if x > 0)
    if p0 > 1e-9:              # where the losses of one direction end
      b = -math.log(p0)
      eps = sorted(eps + [x * b * (1 - y) for x in (-1, 1)
                          for y in (3e-6, 3e-4, 1e-2)])
    for d in DIRS:
      m = observe(mech_of, kind, par, q, d)
      if not c.expect(m[0] == 'ok', kind + ':total', lambda: dict(
          info, got=m[1:])):
        continue
      m = m[1]
      got = observe(lambda: [float(v) for v in m.get_delta_for_epsilon(eps)])
      one = observe(lambda: [float(m.get_delta_for_epsilon(e)) for e in eps])
      want = [tr[d](e) for e in eps]
      for g in (got, one):
        curve(cv, kind + ':mechanism', dict(info, dir=d), eps, g, want, True,
              exact=[True] * len(eps), tol=tol)
      got = observe(lambda: [float(v) for v in m.get_delta_for_epsilon(ints)])
      one = observe(lambda: [float(m.get_delta_for_epsilon(e)) for e in ints])
      for g in (got, one) if kind != 'mog' else ():
        curve(cv, kind + ':whole-epsilons', dict(info, dir=d), ints, g,
              [tr[d](e) for e in ints], True, exact=[True] * len(ints),
              tol=tol)
      losses(c, cv, rng, kind, par, q, d, m, span)
    # only the ratio of sensitivity and noise matters
    if kind in ('gauss', 'laplace', 'mog'):
      k = rng.choice([1e-6, .01, 3.0, 1e6])
      p2 = dict(par, sigma=par['sigma'] * k, sens=(
          [k * s for s in par['sens']] if kind == 'mog' else k * par['sens']))
      got = observe(lambda: [[float(v) for v in build(
          kind, p, True, h, True, q).get_delta_for_epsilon(base)]
                             for p in (par, p2)])
      if c.expect(got[0] == 'ok', kind + ':scale:total', lambda: dict(
          info, got=got[1:])):
        cv.add(kind + ':scale', dict(info, factor=k), dict(
            one=[qlin(v) for v in got[1][0]], two=[qlin(v) for v in got[1][1]]),
               [('eq', 'one', 'two', 1)])


def losses(c, cv, rng, kind, par, q, d, m, span):
  """privacy_loss is non-increasing and inverse_privacy_loss its inverse."""
  info = dict(kind=kind, par=str(par), q=q, dir=d)
  if kind == 'dgauss':
    t = par['trunc'] or max(math.ceil(11.6 * par['sigma']),
                            math.ceil(par['sens'] / 2))
    i = np.arange(-t, t + 1.0)
    w = np.exp(-i * i / (2 * par['sigma'] ** 2))
    want = math.sqrt(float((i * i * w).sum() / w.sum()))
    got = observe(m.standard_deviation)
    c.expect(got[0] == 'ok' and abs(got[1] - want) <= 1e-9 * want,
             'dgauss:standard-deviation', lambda: dict(info, got=got[1:],
                                                       want=want))
  if kind in ('dlap', 'dgauss'):
    s = par['sens']
    if kind == 'dgauss':
      t = par['trunc'] or math.ceil(11.6 * par['sigma'])
      lo, hi = (-t, t + s) if d == 'ADD' else (-t - s, t)
    else:
      lo, hi = -s - 2, s + 2
    xs = list(range(lo, hi + 1))
    got = observe(lambda: [m.privacy_loss(x) for x in xs])
    if not c.expect(got[0] == 'ok', kind + ':loss:total', lambda: dict(
        info, got=got[1:])):
      return
    v = got[1]
    cv.add(kind + ':loss', info, dict(loss=[qlin(x) for x in v]),
           [('noninc', 'loss', None, 1)])
    fin = [x for x in v if math.isfinite(x)]
    for _ in range(4):
      l = rng.uniform(min(fin), max(fin))
      if any(abs(l - x) < 1e-9 for x in fin):
        continue
      if q < 1 and abs(abs(l) - abs(math.log1p(-q))) < 1e-6:
        continue
      want = [x for x, y in zip(xs, v) if y >= l]
      got = observe(m.inverse_privacy_loss, l)
      c.expect(got[0] == 'ok' and bool(want) and got[1] == max(want),
               kind + ':inverse',
               lambda: dict(info, loss=l, got=got[1:], want=want[-1:]))
    return
  sg = par['sigma']
  top = max(par['sens']) if kind == 'mog' else par['sens']
  xs = sorted(rng.uniform(-8 * sg - top, 8 * sg + top) for _ in range(12))
  got = observe(lambda: [float(m.privacy_loss(x)) for x in xs])
  if not c.expect(got[0] == 'ok', kind + ':loss:total', lambda: dict(
      info, got=got[1:])):
    return
  v = got[1]
  cv.add(kind + ':loss', info, dict(loss=[qlin(x, 1 << 16) for x in v]),
         [('noninc', 'loss', None, 1)])
  eta = 1e-4 * sg if kind != 'mog' else 1e-4 * sg + 2e-6
  rows = dict(above=[], l=[], below=[])
  for l in sorted(v):
    if q < 1 and abs(abs(l) - abs(math.log1p(-q))) < 1e-5:
      continue
    if kind == 'mog' and 0 in par['sens']:
      p = sum(w for s, w in zip(par['sens'], par['probs']) if s > 0)
      if p < 1 and abs(abs(l) - abs(math.log1p(-p))) < 1e-4:
        continue
    if kind == 'laplace':
      # only values strictly inside the range have a unique inverse
      ends = [float(m.privacy_loss(x)) for x in (-2 * top, 2 * top)]
      if min(abs(l - e) for e in ends) < 1e-6 * max(1, abs(l)):
        continue
    got = observe(m.inverse_privacy_loss, l)
    if not c.expect(got[0] == 'ok', kind + ':inverse:total', lambda: dict(
        info, loss=l, got=got[1:])):
      continue
    x = float(got[1])
    rows['above'].append(qlin(m.privacy_loss(x - eta), 1 << 16))
    rows['l'].append(qlin(l, 1 << 16))
    rows['below'].append(qlin(m.privacy_loss(x + eta), 1 << 16))
  if rows['l']:
    cv.add(kind + ':inverse', info, rows, [('leq', 'below', 'l', 1),
                                           ('leq', 'l', 'above', 1)])


def whole_mog(c):
  """Whole numbers as epsilons or as the interval (see known_findings)."""
  for sg, sens, w in ((1.0, [1.0, 2.0], [.5, .5]), (2.0, [0.0, 3.0], [.4, .6])):
    par = dict(sigma=sg, sens=sens, probs=w)
    for d in DIRS:
      f = truth('mog', par, 1.0, d)
      for eps in ([1, 2], [0, 1], [2]):
        got = observe(lambda: list(mech_of('mog', par, 1.0, d)
                                   .get_delta_for_epsilon(eps)))
        c.expect(got[0] == 'ok' and all(abs(a - f(e)) < 1e-8
                                        for a, e in zip(got[1], eps)),
                 'mog:whole-epsilons', lambda: dict(
                     par, dir=d, eps=eps, got=got[1:],
                     want=[f(e) for e in eps]),
                 key='mog sigma=%g sens=%s probs=%s %s epsilons=%s' % (
                     sg, sens, w, d, eps))


def rounded_mog(c, cv):
  """Weights without a zero sensitivity whose sum is 1 only up to rounding."""
  for sg, sens, w in (
      (1.04956, [4.9909, 4.0, 4.0], [.2157, .275, .5093]),
      (1.0, [6.0] * 5 + [7.0] * 5, [.1] * 10),
      (1.0, [5.0, 6.5, 8.0], [1 / 3, 1 / 3, 1 / 3 - 1e-16]),
      (2.0, [9.0] * 6 + [12.0] * 6, [1 / 12] * 12),
      (.9, [5.0, 6.0], [.3, .7 - 2e-16]),
      # sensitivities many standard deviations apart, in any order
      (1.0, [1.0, 9.0], [.5, .5]), (1.0, [9.0, 1.0], [.5, .5]),
      (.5, [.5, 4.0, 2.0], [.2, .3, .5]), (2.0, [3.0, 0.0, 20.0], [.3, .3, .4]),
      (1.0, [7.0, .1], [.001, .999]), (1.0, [.1, 7.0], [.999, .001])):
    par = dict(sigma=sg, sens=sens, probs=w)
    eps = [-60.0, -45.0, -36.2, -20.0, 0.0, 5.0, 20.0, 36.6, 50.0]
    tr = {d: truth('mog', par, 1.0, d) for d in DIRS}
    for d in DIRS:
      got = observe(lambda: [float(v) for v in mech_of(
          'mog', par, 1.0, d).get_delta_for_epsilon(eps)])
      curve(cv, 'mog:rounded', dict(par, dir=d), eps, got,
            [tr[d](e) for e in eps], True, exact=[True] * len(eps), tol=1e-9)
    worst = lambda e: max(tr['ADD'](e), tr['REMOVE'](e))
    for pess, dots in ((True, True), (True, False), (False, False)):
      got = observe(lambda: [float(v) for v in build(
          'mog', par, pess, .5, dots, 1.0).get_delta_for_epsilon(eps)])
      curve(cv, 'mog:rounded', dict(par, pessimistic=pess, dots=dots), eps, got,
            [worst(e) for e in eps], pess, cell=[
                worst(e - .5 if pess else e + .5) for e in eps], tol=1e-9)


def body(prop):
  del prop
  def run(c):
    cv = Curves(c)
    rng = random.Random(c.seed * 7919 + 10)
    for r in mech_rows(c):
      if r['mech']['kind'] == 'dlap':
        replay_dlap(c, cv, r)
      else:
        replay_rr(c, cv, r)
    c10_random(c, cv, rng, c.pick(60, 900),
               ['gauss', 'laplace', 'dlap', 'dgauss', 'mog'])
    random_rr(c, cv, rng, c.pick(60, 1500))
    old_names(c, rng, c.pick(12, 100))
    whole_mog(c)
    rounded_mog(c, cv)
    cv.flush()
    c.assumptions += [
        'numerical oracles for Gaussian tails (scipy log_ndtr) are trusted',
        'the discrete Gaussian is the truncated one the code documents']
  return run
