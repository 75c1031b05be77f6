"""C12: parameter searches return the least sufficient value."""
import math
import random

import numpy as np

from dp_accounting.pld import accountant
from dp_accounting.pld import common
from dp_accounting.pld import privacy_loss_distribution as pldm
from dp_accounting.pld import privacy_loss_mechanism as plm

from harness.mechcheck import (dgauss_pair, dlap_pair, h_gauss, h_laplace,
                               h_pair, loguniform, sub)
from harness.vlib import observe

DP = common.DifferentialPrivacyParameters

CFG = '''SPECIFICATION Spec
CONSTANTS
 N = %d
 Fine = 8
 EmitRows = TRUE
INVARIANTS Sound Absent Present Bracketed Emitted
PROPERTIES Halts
'''


def search(f, value, lb, ub, guess, tol, disc, inc):
  """Runs the code under test; returns the observation and the questions."""
  asked = []

  def func(x):
    asked.append(x)
    if len(asked) > 20000:
      raise RuntimeError('too many evaluations')
    return f(x)
  kw = {}
  if guess is not None:
    kw['initial_guess'] = guess
  if tol is not None:
    kw['tolerance'] = tol
  if disc:
    kw['discrete'] = True
  p = common.BinarySearchParameters(lb, ub, **kw)
  kw = {'increasing': True} if inc else {}
  return observe(common.inverse_monotone_function, func, value, p, **kw), asked


def replay(c, rng, row, fine=8):
  s = row['s']
  inc, disc = s['inc'], s['disc']
  if disc:
    unit, base = 1, rng.choice([0, 0, 3, 1000])
  else:
    unit = rng.choice([1, 1, .1, 1000.0, 3.7])
    base = unit * rng.choice([0, 0, 0, 16.0, -2.0])
    if base < 0 and s['guess']:
      base = 0
  at = lambda p: base + unit * p / fine
  val = rng.choice([1.0, 0.0, 1e-6, -3.0, 77])
  yes = rng.choice(['flat', 'exact', 'graded', 'inf'])
  no = rng.choice(['flat', 'graded', 'inf'])

  def f(x):
    p = round((x - base) / unit * fine, 7)
    fits = p <= s['t'] if inc else p >= s['t']
    d = abs(p - s['t'])
    if fits:
      return val - {'flat': .3, 'exact': 0, 'graded': d, 'inf': math.inf}[yes]
    return val + {'flat': .2, 'graded': .1 + d, 'inf': math.inf}[no]
  lb = at(s['lb'])
  ub = math.inf if s['ub'] == 1000000 else at(s['ub'])
  tol = None if disc else unit * s['tol'] / fine
  if disc:
    lb = int(lb)
    ub = ub if ub == math.inf else int(ub)
  guess = at(s['guess']) if s['guess'] else None
  if guess is not None and disc:
    guess = int(guess)
  if guess is not None and guess <= 0:
    guess = None
    if ub == math.inf:
      return
  got, asked = search(f, val, lb, ub, guess, tol, disc, inc)
  info = lambda: dict(row=s, lower=lb, upper=ub, guess=guess, tol=tol,
                      crossing=at(s['t']), got=got[1:], asked=asked[-6:])
  c.traces += 1
  if not c.expect(got[0] == 'ok', 'search:answers', info):
    return
  x = got[1]
  if row['nothing']:
    c.expect(x is None, 'search:absent', info)
  elif c.expect(x is not None, 'search:present', info):
    slack = 1e-9 * unit
    c.expect(lb <= x <= ub, 'search:in-range', info)
    c.expect(f(x) <= val, 'search:fits', info)
    best = min(at(s['t']), ub) if inc else max(at(s['t']), lb)
    step = 1 if disc else tol
    c.expect((best - x if inc else x - best) <= step + slack,
             'search:near-best', info)
    if disc:
      c.expect(x == int(x), 'search:whole', info)
    p = (x - base) / unit * fine
    if disc:
      c.expect(round(p) in row['good'] or p > 2 * 8 * fine, 'search:in-model',
               info)
  c.expect(all(lb <= y <= ub for y in asked), 'search:stays', info)


def smooth(c, rng, n):
  """Smooth functions, random ranges; the answer does not depend on the guess."""
  for _ in range(n):
    t = loguniform(rng, 1e-3, 1e6)
    p = rng.choice([.5, 1, 3])
    inc = rng.random() < .5
    disc = rng.random() < .3
    f = (lambda x: x ** p) if inc else (lambda x: -x ** p)
    value = f(t)
    lb = rng.choice([0, 0, t * rng.uniform(0, 2)])
    ub = rng.choice([math.inf, t * rng.uniform(.5, 50)])
    if disc:
      lb, ub = math.floor(lb), ub if ub == math.inf else math.ceil(ub)
    if lb >= ub:
      continue
    tol = None if disc else rng.choice([None, t * 1e-3, t / 3])
    step = 1 if disc else tol or 1e-7
    answers = []
    for guess in [None, t * loguniform(rng, 1e-3, 1), t, t * rng.uniform(1, 99)]:
      if guess is None and ub == math.inf:
        continue
      if disc and guess is not None:
        guess = max(1, round(guess))
      got, asked = search(f, value, lb, ub, guess, tol, disc, inc)
      info = lambda: dict(t=t, p=p, inc=inc, disc=disc, lower=lb, upper=ub,
                          guess=guess, tol=tol, got=got[1:])
      if not c.expect(got[0] == 'ok', 'smooth:answers', info):
        continue
      x = got[1]
      answers.append(x)
      none = f(lb) > value if inc else ub < math.inf and f(ub) > value
      c.expect((x is None) == none, 'smooth:absent', info)
      if x is None or none:
        continue
      eps = 1e-12 * t
      c.expect(lb <= x <= ub and f(x) <= value, 'smooth:fits', info)
      best = min(t, ub) if inc else max(t, lb)
      c.expect((best - x if inc else x - best) <= step + eps,
               'smooth:near-best', info)
      c.expect(all(lb <= y <= ub for y in asked), 'smooth:stays', info)
      if disc:
        c.expect(x == int(x), 'smooth:whole', info)
    if answers and answers[0] is not None:
      c.expect(max(answers) - min(answers) <= 2 * step, 'smooth:guess',
               lambda: dict(t=t, p=p, inc=inc, disc=disc, lower=lb, upper=ub,
                            tol=tol, answers=answers))


# ----------------------------------------------------- the noise of mechanisms
def sigma_of(std):
  """The parameter of the discrete Gaussian of the given deviation."""
  def dev(sigma):
    i = np.arange(1, math.ceil(12 * sigma) + 13)
    w = np.exp(-.5 * (i / sigma) ** 2)
    return math.sqrt(2 * float((i * i * w).sum()) / (1 + 2 * float(w.sum())))
  lo, hi = .03, std + 1
  for _ in range(80):
    m = (lo + hi) / 2
    lo, hi = (m, hi) if dev(m) < std else (lo, m)
  return hi


def guarantees(c, rng, n):
  """from_privacy_guarantee of the four mechanisms, with sampling."""
  for _ in range(n):
    e = loguniform(rng, .02, 8)
    d = loguniform(rng, 1e-12, .3)
    q = rng.choice([1.0, rng.uniform(.01, 1), loguniform(rng, 1e-4, 1)])
    adj = rng.choice(list(plm.AdjacencyType))
    s = rng.choice([1, 2, 3, 5])
    sr = rng.choice([s, loguniform(rng, .01, 50)])
    worst = lambda h: max(sub(h, q, 'REMOVE')(e), sub(h, q, 'ADD')(e))

    kind = rng.choice(['gaussian', 'laplace', 'dlaplace', 'dgaussian',
                       'gaussian'])
    cls, attr_, truth, sens, better = {
        'gaussian': (plm.GaussianPrivacyLoss, 'standard_deviation',
                     lambda x: worst(h_gauss(sr / x)), sr, -1.2e-7),
        'laplace': (plm.LaplacePrivacyLoss, 'parameter',
                    lambda x: worst(h_laplace(sr / x)), sr, None),
        'dlaplace': (plm.DiscreteLaplacePrivacyLoss, 'parameter',
                     lambda x: worst(h_pair(*dlap_pair(x, s))), s, None),
        'dgaussian': (plm.DiscreteGaussianPrivacyLoss, 'standard_deviation',
                      lambda x: worst(h_pair(*dgauss_pair(
                          x, s, math.ceil(12 * x) + 12))), s, -1.2e-7)}[kind]
    if kind == 'dgaussian':
      d = max(d, 1e-9)
    if kind in ('laplace', 'dlaplace'):
      dd = 0
    else:
      dd = d
    got = observe(cls.from_privacy_guarantee, DP(e, dd), sensitivity=sens,
                  sampling_prob=q, adjacency_type=adj)
    info = lambda: dict(kind=kind, epsilon=e, delta=dd, sens=sens, q=q,
                        got=str(got[1:]))
    if not c.expect(got[0] == 'ok', 'guarantee:answers', info):
      continue
    o = got[1]
    x = getattr(o, attr_)
    if kind == 'dgaussian':
      x = sigma_of(x())
    c.traces += 1
    info = lambda: dict(kind=kind, epsilon=e, delta=dd, sens=sens, q=q,
                        value=x, true=truth(x))
    c.expect(o.sensitivity == sens and o.adjacency_type == adj
             and (o.sampling_prob == q), 'guarantee:fields', lambda: dict(
                 info(), got=[o.sensitivity, str(o.adjacency_type),
                              o.sampling_prob]))
    if kind == 'laplace':
      want = sr / math.log1p(math.expm1(e) / q)
      c.expect(abs(x / want - 1) < 1e-9, 'guarantee:exact', lambda: dict(
          info(), want=want))
    elif kind == 'dlaplace':
      want = math.log1p(math.expm1(e) / q) / s
      c.expect(abs(x / want - 1) < 1e-9, 'guarantee:exact', lambda: dict(
          info(), want=want))
    else:
      c.expect(truth(x) <= d * (1 + 1e-6), 'guarantee:sound', info)
      c.expect(x < (.04 if kind == 'dgaussian' else 3e-7) or truth(x + better) >= d * (1 - 1e-6),
               'guarantee:near-optimal', lambda: dict(
                   info(), better=truth(x + better)))
  for cls in (plm.GaussianPrivacyLoss, plm.DiscreteGaussianPrivacyLoss):
    got = observe(cls.from_privacy_guarantee, DP(1.0, 0))
    c.expect(got[0] != 'ok' and got[1] == 'ValueError', 'guarantee:refused',
             lambda: dict(cls=cls.__name__, got=str(got)))


def dlap_composed(a, s, k, e):
  """Exact delta of k discrete Laplace mechanisms."""
  w, _ = dlap_pair(a, s)
  t = np.zeros(2 * s + 1)
  t[2 * s - 2 * np.arange(s + 1)] = w
  m = np.array([1.])
  for _ in range(k):
    m = np.convolve(m, t)
  loss = a * (np.arange(len(m)) - k * s)
  return float((m * np.maximum(0, -np.expm1(np.minimum(0, e - loss)))).sum())


def smallest(c, rng, n):
  for _ in range(n):
    e = loguniform(rng, .1, 8)
    d = loguniform(rng, 1e-9, .2)
    k = rng.choice([1, 1, 2, 5, 20])
    s = rng.choice([1, 1, 2, 3, 7])
    sr = rng.choice([s, loguniform(rng, .1, 10)])
    kw = lambda v: {} if (k, v) == (1, 1) else dict(num_queries=k,
                                                    sensitivity=v)
    # discrete Laplace
    d0 = rng.choice([d, d, d, 0])
    got = observe(accountant.get_smallest_discrete_laplace_noise, DP(e, d0),
                  **kw(s))
    info = lambda: dict(epsilon=e, delta=d0, k=k, s=s, got=got[1:])
    if c.expect(got[0] == 'ok', 'dlaplace:answers', info):
      a = got[1]
      c.traces += 1
      pure = e / (k * s)
      if d0 == 0:
        c.expect(abs(a / pure - 1) < 1e-5, 'dlaplace:pure', info)
      else:
        c.expect(dlap_composed(a, s, k, e) <= d0 * (1 + 1e-6) + 1e-15,
                 'dlaplace:sound', info)
        c.expect(dlap_composed(1 / ((1 - 1e-6) / a - 1.2e-7), s, k, e)
                 >= d0 * (1 - 1e-6) - 1e-15 if a < 1e6 else True,
                 'dlaplace:near-optimal', info)
    # Laplace
    d0 = rng.choice([d, d, d, 0])
    got = observe(accountant.get_smallest_laplace_noise, DP(e, d0), **kw(sr))
    info = lambda: dict(epsilon=e, delta=d0, k=k, s=sr, got=got[1:])
    if c.expect(got[0] == 'ok', 'laplace:answers', info):
      b = got[1]
      c.traces += 1
      if d0 == 0:
        pure = k * sr / e
        c.expect(abs(b / pure - 1) < 1e-5 or 0 <= pure - b < 2e-7,
                 'laplace:pure', info)
      elif k == 1:
        want = sr / (e - 2 * math.log1p(-d0))
        c.expect(want * (1 - 1e-7) <= b <= want * (1 + 1e-7) + 1.2e-7
                 or (want <= b <= want * (1.02)
                     and laplace_grid(b, sr, e, d0, k)),
                 'laplace:exact', lambda: dict(info(), want=want))
      else:
        judge(c, 'laplace', lambda x, **o: pldm.from_laplace_mechanism(
            x, sr, **o), b, e, d0, k, info)
    # Gaussian
    got = observe(accountant.get_smallest_gaussian_noise, DP(e, d), **kw(sr))
    info = lambda: dict(epsilon=e, delta=d, k=k, s=sr, got=got[1:])
    if c.expect(got[0] == 'ok', 'gaussian:answers', info):
      x = got[1]
      c.traces += 1
      r = sr * math.sqrt(k)
      c.expect(h_gauss(r / x)(e) <= d * (1 + 1e-6), 'gaussian:sound', info)
      c.expect(h_gauss(r / (x - 1.2e-7))(e) >= d * (1 - 1e-6),
               'gaussian:near-optimal', info)


def laplace_grid(b, s, e, d, k):
  """The smallest noise depends on a grid of privacy losses: recheck on it."""
  p = pldm.from_laplace_mechanism(b * .9999, s,
                                  value_discretization_interval=.1 * e / k)
  return p.self_compose(k).get_delta_for_epsilon(e) > d


def judge(c, what, make, x, e, d, k, info, opt_grid=None):
  """Bounds of the composed curve: sound, and at most 2 % too much noise."""
  h = opt_grid or e / k / 100
  low = make(x, pessimistic_estimate=False, use_connect_dots=False,
             value_discretization_interval=h).self_compose(k)
  d_low = low.get_delta_for_epsilon(e)
  c.expect(d_low <= d * (1 + 1e-6) + 1e-14, what + ':sound', lambda: dict(
      info(), delta_at_least=d_low))
  high = make(x * .98, value_discretization_interval=h).self_compose(k)
  d_high = high.get_delta_for_epsilon(e)
  c.expect(d_high >= d * (1 - 1e-6), what + ':near-optimal', lambda: dict(
      info(), delta_with_less=d_high))


def subsampled(c, rng, n):
  for i in range(n):
    e = loguniform(rng, .3, 4)
    d = loguniform(rng, 1e-8, 1e-2)
    k = rng.choice([1, 2, 10])
    q = 1.0 if i == 0 else rng.uniform(.05, 1)
    s = rng.choice([1, 1, 2])
    got = observe(accountant.get_smallest_subsampled_gaussian_noise, DP(e, d),
                  num_queries=k, sensitivity=s, sampling_prob=q)
    info = lambda: dict(epsilon=e, delta=d, k=k, q=q, s=s, got=got[1:])
    if not c.expect(got[0] == 'ok', 'subsampled:answers', info):
      continue
    c.traces += 1
    judge(c, 'subsampled', lambda x, **o: pldm.from_gaussian_mechanism(
        x, s, sampling_prob=q, **o), got[1], e, d, k, info,
          opt_grid=min(1e-3, e / k / 50))


def parameter(c, rng, n):
  """get_smallest_parameter over a family where less is more private."""
  for _ in range(n):
    e, d = rng.uniform(.1, 3), loguniform(rng, 1e-6, .3)
    k = rng.randint(1, 4)
    # randomized response that reveals with probability 1 - x
    lo, hi = rng.choice([(.05, .999), (.05, .3), (.6, .9)])
    make = lambda x: pldm.from_randomized_response(
        x, 2, value_discretization_interval=1e-4)
    p = common.BinarySearchParameters(lo, hi, tolerance=1e-5)
    got = observe(accountant.get_smallest_parameter, DP(e, d), k, make, p)

    def true(x):
      a = np.array([1 - x / 2, x / 2])
      u, v = np.array([1.]), np.array([1.])
      for _ in range(k):
        u, v = np.kron(u, a), np.kron(v, a[::-1])
      return h_pair(u, v)(e)
    info = lambda: dict(epsilon=e, delta=d, k=k, range=[lo, hi], got=got[1:])
    if not c.expect(got[0] == 'ok', 'parameter:answers', info):
      continue
    x = got[1]
    if x is None:
      c.expect(true(hi) >= d * (1 - 1e-3) - 1e-3, 'parameter:absent', info)
    else:
      c.expect(lo <= x <= hi and true(x) <= d + 1e-9, 'parameter:sound', info)
      c.expect(x - 1e-3 < lo or true(x - 1e-3) > d, 'parameter:near-optimal',
               info)


def body(prop):
  del prop

  def run(c):
    rng = random.Random(c.seed * 104729 + 12)
    r = c.tlc('MCSearch', CFG % c.pick(5, 7), timeout=800)
    seen = {}
    for row in r.rows:
      seen.setdefault(repr(sorted(row['s'].items())), row)
    for row in seen.values():
      for _ in range(c.pick(1, 4)):
        replay(c, rng, row)
    smooth(c, rng, c.pick(600, 20000))
    guarantees(c, rng, c.pick(300, 5000))
    smallest(c, rng, c.pick(40, 600))
    subsampled(c, rng, c.pick(4, 40))
    parameter(c, rng, c.pick(15, 200))
    c.sample(dict(first_row=str(r.rows[0])[:200]))
    c.assumptions += ['functions are monotone; epsilon is positive',
                      'composed Laplace and subsampled Gaussian noise may be '
                      'up to 2 % larger than needed (documented heuristic)']
  return run
