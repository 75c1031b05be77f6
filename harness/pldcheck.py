"""C07-C09: discretization, composition and queries of PLDs (spec/Pld.tla)."""
import itertools
import math
import random
from fractions import Fraction
import numpy as np
from scipy import special
from harness import vlib
from harness.vlib import observe
from dp_accounting.pld import common
from dp_accounting.pld import pld_pmf
from dp_accounting.pld import privacy_loss_distribution as pldlib

LN2 = math.log(2)
PLD = pldlib.PrivacyLossDistribution
TOL = 1e-10

PAIR_CFG = '''SPECIFICATION Spec
CONSTANTS N = %d
 D = %d
 PartnerD = %d
 EmitRows = TRUE
INVARIANTS Dominates Dominated Tight Exact MassOne UpValid SwapLaw ComposedDominates Monotone Emitted
CHECK_DEADLOCK FALSE
'''
OPS_CFG = '''SPECIFICATION Spec
CONSTANTS Den = %d
 Depth = %d
 MaxDen = %d
 EmitRows = TRUE
 Full = %s
INVARIANTS MassOne StaysValid Commutes QueryLaws ShiftLaw %s
PROPERTIES NeverHelps
CHECK_DEADLOCK FALSE
'''


# ------------------------------------------------- exact curves (Pld.tla)
def hs_pair(up, lo, d, eps):
  """delta(eps) of a pair: sum of max(0, up - e^eps lo)."""
  if eps == math.inf:
    return sum(u for u, l in zip(up, lo) if l == 0) / d
  e = math.exp(eps)
  return math.fsum(max(0.0, u - e * l) for u, l in zip(up, lo)) / d


def hs_pmf(m, inf, eps, h):
  """delta(eps) of a PMF {loss: mass} with losses in units of h."""
  if eps == math.inf:
    return inf
  return inf + math.fsum(-math.expm1(eps - l * h) * p
                         for l, p in m.items() if l * h > eps)


def obj_pmf(o):
  return ({x['l']: Fraction(x['n'], o['den']) for x in aslist(o['m'])},
          Fraction(o['inf'], o['den']))


def aslist(x):
  return x if isinstance(x, list) else []


def compose_exact(a, b):
  m, inf = {}, a[1] + b[1] - a[1] * b[1]
  for k, p in a[0].items():
    for l, q in b[0].items():
      m[k + l] = m.get(k + l, 0) + p * q
  return m, inf


def self_exact(a, n):
  r = None
  while n:
    if n & 1:
      r = a if r is None else compose_exact(r, a)
    n >>= 1
    if n:
      a = compose_exact(a, a)
  return r


EPS_GRID = ([j * LN2 for j in (-3, -2, -1, 0, 1, 2, 3)]
            + [-1.7, -0.35, 1e-3, 0.2, 0.5, 0.9, 1.1, 1.7, 2.6, 5.0])


def floatpmf(a):
  return {k: float(p) for k, p in a[0].items()}, float(a[1])


# ----------------------------------------------------------------- C07
def logs(v, d, style):
  out = {}
  for i, x in enumerate(v):
    if x > 0:
      out['o%d' % i] = math.log(x / d)
    elif style == 1:
      out['o%d' % i] = -math.inf
  return out


def check_bounds(c, clause, det, q, exact, h, pess, extra=0.0, eps=EPS_GRID,
                 tol=TOL):
  """pess: exact(e) <= q(e) <= exact(e-h)+extra; opt: the mirror image."""
  got = observe(lambda: [float(q(e)) for e in eps])
  if got[0] != 'ok':
    c.expect(False, clause, lambda: dict(det(), got=got))
    return
  vec = None
  for e, g in zip(eps, got[1]):
    lo = exact(e) if pess else max(0.0, exact(e + h) - extra)
    hi = exact(e - h) + extra if pess else exact(e)
    good = lo - tol <= g <= hi + tol
    c.ok(clause)
    if not good:
      c.violation(clause, dict(det(), eps=e, got=g, low=lo, high=hi,
                               pessimistic=pess))
      return


def c07_pairs(c, rows, hs):
  rng = random.Random(c.seed)
  for j, r in enumerate(rows):
    up, lo, d = r['up'], r['lo'], r['d']
    style = j % 2
    lu, ll = logs(up, d, style), logs(lo, d, (j // 2) % 2)
    exact = lambda e: hs_pair(up, lo, d, e)
    exact_sw = lambda e: hs_pair(lo, up, d, e)
    h = hs[j % len(hs)]
    # exact-on-grid answers given by the specification itself
    for k in range(7):
      n, den = r['hs'][k]
      c.expect(abs(n / den - exact((k - 3) * LN2)) < 1e-12, 'oracle:agrees',
               lambda: dict(r=r))
    for pess in (True, False):
      det = lambda: dict(up=up, lo=lo, d=d, h=h, style=style)
      got = observe(pldlib.from_two_probability_mass_functions, ll, lu,
                    pessimistic_estimate=pess, value_discretization_interval=h)
      if got[0] != 'ok':
        c.expect(False, 'pair:builds', lambda: dict(det(), got=got))
        continue
      check_bounds(c, 'pair:bounds', det, got[1].get_delta_for_epsilon, exact,
                   h, pess)
      # asymmetric: the worse direction
      if j % 3 == 0:
        got = observe(pldlib.from_two_probability_mass_functions, ll, lu,
                      pessimistic_estimate=pess,
                      value_discretization_interval=h, symmetric=False)
        if c.expect(got[0] == 'ok', 'pair:builds', lambda: dict(det(), got=got)):
          both = lambda e: max(exact(e), exact_sw(e))
          check_bounds(c, 'pair:asymmetric', det,
                       got[1].get_delta_for_epsilon, both, h, pess)
      # truncation of unlikely outcomes
      if j % 3 == 1:
        bound = math.log(1.5 / d)
        cut = sum(u for u, l in zip(up, lo) if 0 < u <= 1 and l > 0) / d
        got = observe(pldlib.from_two_probability_mass_functions, ll, lu, pess,
                      h, bound)
        if c.expect(got[0] == 'ok', 'pair:builds', lambda: dict(det(), got=got)):
          check_bounds(c, 'pair:truncated', det, got[1].get_delta_for_epsilon,
                       exact, h, pess, extra=cut)
          # truncated mass is unbounded loss (pessimistic) or gone (optimistic)
          inf = sum(u for u, l in zip(up, lo) if l == 0) / d
          want = inf + (cut if pess else 0)
          g = got[1].get_delta_for_epsilon(80.0)
          c.expect(abs(g - want) < 1e-10, 'pair:truncated-mass',
                   lambda: dict(det(), got=g, want=want))
      if j % 3 == 2:
        # the same distribution with outcomes in another order and split
        ks = list(lu)
        rng.shuffle(ks)
        lu2, ll2 = {}, {}
        for k in ks:
          lu2[k + 'a'] = lu2[k + 'b'] = lu[k] - LN2
        for k in ll:
          ll2[k + 'b'] = ll2[k + 'a'] = ll[k] - LN2
        a = observe(pldlib.from_two_probability_mass_functions, ll2, lu2, pess,
                    h)
        if c.expect(a[0] == 'ok', 'pair:builds', lambda: dict(det(), got=a)):
          check_bounds(c, 'pair:split', det, a[1].get_delta_for_epsilon, exact,
                       h, pess)
    # create_from_cdf: the distribution of the privacy loss of the pair
    if all(l > 0 or u == 0 for u, l in zip(up, lo)) and j % 2 == 0:
      atoms = {}
      for u, l in zip(up, lo):
        if u:
          v = math.log(u / l)
          atoms[v] = atoms.get(v, 0) + u / d
      cdf = lambda x: min(1.0, math.fsum(p for v, p in atoms.items()
                                         if v <= x + 1e-12))
      hh = max(h, 0.05)
      for pess in (True, False):
        for t in (1e-15, 1e-3):
          got = observe(pldlib.create_from_cdf, cdf, pess, hh, t)
          det = lambda: dict(up=up, lo=lo, d=d, h=hh, tail=t)
          if c.expect(got[0] == 'ok', 'cdf:builds', lambda: dict(det(), got=got)):
            check_bounds(c, 'cdf:bounds', det, got[1].get_delta_for_epsilon,
                         exact, hh, pess, extra=t)
    # connect the dots: exact at the dots, above the truth between them
    ks = sorted(rng.sample(range(-6, 9), rng.choice([1, 2, 3, 5])))
    if j % 4 == 0:
      ks = list(range(ks[0], ks[-1] + 1))
    hh = [LN2, 0.3, 0.11, 0.9][j % 4]
    ds = [min(1.0, max(0.0, exact(k * hh))) for k in ks]
    for i in range(1, len(ds)):
      ds[i] = min(ds[i], ds[i - 1])
    dots(c, 'dots', ks, hh, ds, exact, dict(up=up, lo=lo, d=d))


def c07_smooth_cdf(c, rng, n):
  """create_from_cdf of a smooth loss whose tails are really truncated."""
  for j in range(n):
    r = rng.choice([.3, 1.0, 2.5, rng.uniform(.2, 3)])
    h = rng.choice([.02, .1, .37])
    t = rng.choice([1e-15, 1e-4, 1e-2, .05])
    phi = special.ndtr
    def exact(e):
      if e == math.inf:
        return 0.0
      return float(phi(r / 2 - e / r)) - math.exp(e) * float(
          phi(-r / 2 - e / r))
    cdf = lambda x: float(phi((x - r * r / 2) / r))
    eps = sorted(rng.uniform(-9 * r, 9 * r) for _ in range(8)) + [0.0, -60.0]
    for pess in (True, False):
      got = observe(pldlib.create_from_cdf, cdf, pess, h, t)
      det = lambda: dict(loss='N(r^2/2, r^2)', r=r, h=h, tail=t)
      if c.expect(got[0] == 'ok', 'cdf:builds', lambda: dict(det(), got=got)):
        check_bounds(c, 'cdf:tails', det, got[1].get_delta_for_epsilon,
                     exact, h, pess, extra=t, eps=eps)
    c.distinct.add(('smooth', r, h, t))


def dots(c, clause, ks, h, ds, exact, info):
  builds = [lambda: pld_pmf.create_pmf_pessimistic_connect_dots(h, ks, ds)]
  if ks == list(range(ks[0], ks[-1] + 1)):
    builds.append(
        lambda: pld_pmf.create_pmf_pessimistic_connect_dots_fixed_gap(
            h, ks[0], ks[-1], ds))
  for b, build in enumerate(builds):
    det = lambda: dict(info, h=h, dots=ks, deltas=ds, fixed_gap=b)
    got = observe(build)
    if not c.expect(got[0] == 'ok', clause + ':builds',
                    lambda: dict(det(), got=got)):
      continue
    f = got[1].get_delta_for_epsilon
    at = [float(f(k * h)) for k in ks]
    c.expect(all(abs(x - y) < 1e-9 for x, y in zip(at, ds)), clause + ':at',
             lambda: dict(det(), got=at))
    for e in [k * h + t * h for k in range(ks[0] - 3, ks[-1] + 4)
              for t in (0.0, 0.37)]:
      g, w = float(f(e)), exact(e)
      # between two dots the curve is the chord in e^eps
      hi = 1.0
      for i in range(len(ks) - 1):
        a, bb = ks[i] * h, ks[i + 1] * h
        if a <= e <= bb:
          t = (math.exp(e) - math.exp(a)) / (math.exp(bb) - math.exp(a))
          hi = ds[i] + t * (ds[i + 1] - ds[i])
      if e > ks[-1] * h:
        hi = ds[-1]
      if not c.expect(w - 1e-9 <= g <= hi + 1e-9, clause + ':between',
                      lambda: dict(det(), eps=e, got=g, exact=w, chord=hi)):
        break
    mass = float(f(-60.0))
    c.expect(abs(mass - 1) < 1e-9, clause + ':mass',
             lambda: dict(det(), mass=mass))


def c07_parameters(c, rng, n):
  for i in range(n):
    e0 = rng.choice([0.0, 0.1, LN2, 1.0, 3.0, rng.uniform(0, 6)])
    d0 = rng.choice([0.0, 1e-6, 0.1, 0.5, 1.0, rng.uniform(0, .3)])
    h = rng.choice([1e-2, 0.1, LN2, 0.7])
    def exact(e):
      x = e
      if x >= e0:
        v = 0.0
      elif x <= -e0:
        v = -math.expm1(x)
      else:
        v = (math.exp(e0) - math.exp(x)) / (1 + math.exp(e0))
      return d0 + (1 - d0) * max(0.0, v)
    p = common.DifferentialPrivacyParameters(e0, d0)
    got = observe(pldlib.from_privacy_parameters, p, h)
    det = lambda: dict(epsilon0=e0, delta0=d0, h=h)
    if c.expect(got[0] == 'ok', 'parameters:builds',
                lambda: dict(det(), got=got)):
      check_bounds(c, 'parameters:bounds', det, got[1].get_delta_for_epsilon,
                   exact, h, True)
      c.distinct.add(('params', e0, d0, h))


def random_pair(rng, n):
  d = rng.choice([50, 1000, 10**6])
  def dist():
    w = [rng.choice([0, 0, 1, 1, rng.random(), rng.random() ** 6])
         for _ in range(n)]
    if sum(w) == 0:
      w[rng.randrange(n)] = 1
    v = [int(x / sum(w) * d) for x in w]
    v[max(range(n), key=lambda i: v[i])] += d - sum(v)
    return v
  return dist(), dist(), d


def c07(c):
  rows = c.tlc('MCPldPairs', PAIR_CFG % (3, 8, 2), timeout=600, workers=8).rows
  if c.thorough:
    rows += c.tlc('MCPldPairs', PAIR_CFG % (4, 6, 2), timeout=800).rows
  c.extra['exhaustive_pairs'] = len(rows)
  hs = [LN2, 0.1, 0.37, LN2 / 2, 1.3, 0.011, LN2 * (1 + 1e-9)]
  rng = random.Random(c.seed)
  rows.sort(key=lambda r: (r['up'], r['lo']))
  rng.shuffle(rows)
  for r in rows:
    c.distinct.add(repr((r['up'], r['lo'])))
  c07_pairs(c, rows, hs)
  c.traces += len(rows)
  c.sample({'pair': {k: rows[0][k] for k in ('up', 'lo', 'd', 'hs')}})
  # recorded builds from larger random pairs, same predicates
  big = []
  for i in range(c.pick(150, 2500)):
    n = rng.choice([2, 5, 20, 60, 1500 if i % 25 == 0 else 8])
    up, lo, d = random_pair(rng, n)
    r = dict(up=up, lo=lo, d=d, hs=[])
    for k in range(7):
      v = hs_pair(up, lo, d, (k - 3) * LN2)
      r['hs'].append((v, 1))
    big.append(r)
  c07_pairs(c, big, hs)
  c07_parameters(c, rng, c.pick(200, 3000))
  c07_smooth_cdf(c, rng, c.pick(30, 400))
  c.assumptions.append('losses in the exhaustive part are log-ratios of '
                       'distributions over 3 outcomes with denominator 8')


# ----------------------------------------------------------------- C08
def make_pld(a, h, rep, pess=True, symmetric=True, other=None):
  """A real PLD for an exact PMF. rep: sparse | dense | padded."""
  m, inf = floatpmf(a)
  def fill(m):
    m = dict(m)
    if rep == 'dense':          # more than 1000 cells, most of them empty
      lo = min(m) if m else 0
      for k in range(lo - 500, lo + 600):
        m.setdefault(k, 0.0)
    elif rep == 'padded':       # empty cells in a sparse representation
      for k in (-7, 9, 11):
        m.setdefault(k, 0.0)
    return m
  kw = {}
  if not symmetric:
    m2, inf2 = floatpmf(other)
    kw = dict(rounded_probability_mass_function_add=fill(m2),
              infinity_mass_add=inf2, symmetric=False)
  return PLD.create_from_rounded_probability(fill(m), inf, h, pess, **kw)


def curve(p, eps):
  return [float(p.get_delta_for_epsilon(e)) for e in eps]


def c08_row(c, log, final, slack, h, reps, pess, t, rng, tol=2e-11):
  """Replays one history. final: exact PMF; None to compute it here."""
  bottom = min([0] + list(final[0])) * h - 40.0
  eps = [j * h for j in (-3, -1, 0, 1, 2, 3, 5)] + [bottom, .3, 1.1]
  det = lambda **kw: dict(history=[{k: (str(v) if k == 'f' else v)
                                    for k, v in x.items()} for x in log], h=h,
                          reps=reps, pessimistic=pess, tail=t, **kw)
  cur = None
  prev = None
  for i, s in enumerate(log):
    f = s['f']
    tt = t if s['t'] else 0
    if s['o'] == 'base':
      cur = make_pld(f, h, reps[0], pess)
      continue
    if s['o'] == 'self':
      before = curve(cur, eps)
      got = observe(cur.self_compose, s['n'], tt)
      good = got[0] == 'ok'
      c.expect(good and curve(cur, eps) == before, 'operands:unchanged',
               lambda: det(step=i, got=str(got)))
    else:
      g = make_pld(f, h, reps[1], pess)
      x, y = (cur, g) if s['o'] == 'left' else (g, cur)
      before = curve(x, eps), curve(y, eps)
      direct = None
      if i == len(log) - 1 and not s['t']:
        direct = observe(lambda: [float(
            x.get_delta_for_epsilon_for_composed_pld(y, e)) for e in eps])
      got = observe(x.compose, y, tt)
      good = got[0] == 'ok'
      c.expect(good and (curve(x, eps), curve(y, eps)) == before,
               'operands:unchanged', lambda: det(step=i, got=str(got)))
      if direct is not None and good:
        now = curve(got[1], eps)
        c.expect(direct[0] == 'ok' and all(
            abs(p - q) < tol for p, q in zip(direct[1], now)),
                 'direct-query', lambda: det(eps=eps, direct=direct, composed=now))
    if not good:
      c.expect(False, 'compose:total', lambda: det(step=i, got=got))
      return
    cur = got[1]
  m, inf = floatpmf(final)
  extra = slack * t
  # the dense n-fold composition spends its whole truncation on infinity (and
  # wraps the tails around), whichever way the estimate leans
  over = 0
  for x in log:
    over = over * x['n'] + (2 if x['t'] else 0) if x['o'] == 'self' else over
  got = observe(curve, cur, eps)
  if not c.expect(got[0] == 'ok', 'compose:total', lambda: det(got=got)):
    return
  for e, g in zip(eps, got[1]):
    w = hs_pmf(m, inf, e, h)
    lo, hi = (w, w + extra) if pess else (w - extra, w + over * t)
    c.ok('composition:bounds')
    if not lo - tol <= g <= hi + tol:
      c.violation('composition:bounds', det(eps=e, got=g, low=lo, high=hi))
      return
  if pess:
    mass = got[1][eps.index(bottom)]
    c.expect(1 - 1e-9 <= mass <= 1 + extra + 1e-9, 'mass',
             lambda: det(mass=mass))
  elif not any(x['o'] == 'self' for x in log):
    # an optimistic estimate forgets the lower tail only
    mass = got[1][eps.index(bottom)]
    lost = sum(1 for x in log if x['t']) * t / 2
    c.expect(1 - lost - 1e-9 <= mass <= 1 + 1e-9, 'mass',
             lambda: det(mass=mass, lost=lost))


def parse_log(log):
  return [dict(x, f=obj_pmf(x['f'])) for x in log]


def c08(c):
  rows = c.tlc('MCPldOps', OPS_CFG % (4, 2, 256, 'FALSE', 'Emitted'),
               timeout=600, workers=8).rows
  c.extra['spec_histories'] = len(rows)
  rows.sort(key=lambda r: vlib.json.dumps(r, sort_keys=True))
  rng = random.Random(c.seed)
  rng.shuffle(rows)
  if not c.thorough:
    rows = rows[:6000]
  reps = list(itertools.product(('sparse', 'dense', 'padded'), repeat=2))
  c.sample({'history': rows[0]})
  for j, r in enumerate(rows):
    log = parse_log(r['log'])
    final = obj_pmf(r['f'])
    # the harness' own exact composition agrees with the specification
    x = None
    for s in log:
      x = (s['f'] if s['o'] == 'base' else self_exact(x, s['n'])
           if s['o'] == 'self' else compose_exact(x, s['f']))
    c.expect(x[1] == final[1] and {k: v for k, v in x[0].items() if v}
             == {k: v for k, v in final[0].items() if v}, 'oracle:agrees',
             lambda: dict(r=r))
    rp = reps[j % 9] if j % 4 == 0 else (('sparse', 'padded')[j % 2], 'sparse')
    pess = j % 3 != 0
    t = [1e-2, 1e-15, 1e-6][(j + j // 3) % 3]
    h = [LN2, 0.1, 0.5][(j // 3) % 3]
    c08_row(c, log, final, r['slack'], h, rp, pess, t, rng)
    c.distinct.add(vlib.json.dumps(r['log'], sort_keys=True))
  c.traces += len(rows)
  # recorded histories beyond the model's bounds, against the same operators
  nrand = c.pick(250, 3000)
  for j in range(nrand):
    c08_random(c, rng, j)
  c.traces += nrand
  c08_asymmetric(c, rng, c.pick(150, 1500))
  c08_refuse(c)
  c08_conv(c, rng, c.pick(150, 1500))


def rand_exact(rng, valid=True, width=None):
  while True:
    n = width or rng.choice([1, 2, 3, 6])
    lo = rng.choice([-3, -1, 0, 1])
    ks = rng.sample(range(lo, lo + n + rng.choice([0, 0, 3])), n)
    w = [rng.choice([1, 2, 5, 40, 1000]) for _ in ks]
    inf = rng.choice([0, 0, 1, 3])
    s = sum(w) + inf
    m = {k: Fraction(x, s) for k, x in zip(ks, w)}
    return m, Fraction(inf, s)


def c08_random(c, rng, j):
  """Random histories: long self-compositions, many steps, any support."""
  log, x, slack = [], None, 0
  f = rand_exact(rng, width=rng.choice([None, 1, 2, 40 if j % 10 == 0 else 3]))
  log.append(dict(o='base', f=f, n=0, t=False))
  x = f
  pess = rng.random() < .7
  t = rng.choice([1e-15, 1e-15, 1e-9, 1e-3])
  h = rng.choice([0.1, 0.03, LN2, 0.5])
  total = 1
  for _ in range(rng.choice([1, 1, 2, 3])):
    tr = rng.random() < .6
    if rng.random() < .55:
      n = rng.choice([2, 3, 5, 12, 40, 150])
      if total * n > 400 or len(x[0]) * n > 3000:
        n = 2
      log.append(dict(o='self', f=({}, 0), n=n, t=tr))
      x = self_float(x, n)
      total *= n
      slack = slack * n + (2 if tr else 0)
    else:
      g = rand_exact(rng, width=rng.choice([None, 1, 2, 30 if j % 7 == 0 else 2]))
      log.append(dict(o=rng.choice(['left', 'right']), f=g, n=0, t=tr))
      x = compose_float(x, g)
      slack += 1 if tr else 0
  c.distinct.add(repr((h, t, pess, [(s['o'], s['n'], sorted(s['f'][0].items()))
                                    for s in log])))
  reps = (rng.choice(['sparse', 'sparse', 'padded', 'dense']),
          rng.choice(['sparse', 'dense']))
  c08_row(c, log, x, slack, h, reps, pess, t, rng, tol=2e-10)


def to_arr(a):
  ks = [k for k in a[0]]
  lo, hi = min(ks), max(ks)
  v = np.zeros(hi - lo + 1)
  for k, p in a[0].items():
    v[k - lo] = float(p)
  return lo, v


def from_arr(lo, v, inf):
  return {lo + i: p for i, p in enumerate(v)}, inf


def compose_float(a, b):
  """Compose of Pld.tla in double precision (direct sums, no FFT)."""
  la, va = to_arr(a)
  lb, vb = to_arr(b)
  ia, ib = float(a[1]), float(b[1])
  return from_arr(la + lb, np.convolve(va, vb), ia + ib - ia * ib)


def self_float(a, n):
  r = None
  while n:
    if n & 1:
      r = a if r is None else compose_float(r, a)
    n >>= 1
    if n:
      a = compose_float(a, a)
  return r


def c08_asymmetric(c, rng, n):
  """Add and remove directions are composed separately, never mixed up."""
  for j in range(n):
    a, b = rand_exact(rng), rand_exact(rng)
    f, g = rand_exact(rng), rand_exact(rng)
    h = rng.choice([0.1, LN2])
    sym = rng.random() < .3
    p = make_pld(a, h, rng.choice(['sparse', 'dense']), True, False, b)
    q = (make_pld(f, h, 'sparse') if sym else
         make_pld(f, h, rng.choice(['sparse', 'dense']), True, False, g))
    g2 = f if sym else g
    k = rng.choice([1, 2, 4])
    flip = rng.random() < .5
    got = observe(lambda: (q.compose(p, 0) if flip else p.compose(q, 0))
                  .self_compose(k, 0))
    want_r = floatpmf(self_float(compose_float(a, f), k))
    want_a = floatpmf(self_float(compose_float(b, g2), k))
    det = lambda **kw: dict(remove=str(a), add=str(b), other=str((f, g2)), k=k,
                            flip=flip, symmetric_other=sym, h=h, **kw)
    if not c.expect(got[0] == 'ok', 'asymmetric:total', lambda: det(got=got)):
      continue
    one = observe(lambda: [
        float((q if flip else p).get_delta_for_epsilon_for_composed_pld(
            p if flip else q, e)) for e in EPS_GRID])
    r1 = floatpmf(compose_float(a, f)), floatpmf(compose_float(b, g2))
    for i, e in enumerate(EPS_GRID):
      w = max(hs_pmf(*want_r, e, h), hs_pmf(*want_a, e, h))
      gg = float(got[1].get_delta_for_epsilon(e))
      w1 = max(hs_pmf(*r1[0], e, h), hs_pmf(*r1[1], e, h))
      ok1 = one[0] == 'ok' and abs(one[1][i] - w1) < 1e-9
      if not c.expect(abs(gg - w) < 1e-9 and ok1, 'asymmetric:worst-direction',
                      lambda: det(eps=e, got=gg, want=w,
                                  direct=one[1][i] if one[0] == 'ok' else one,
                                  direct_want=w1)):
        break


def c08_refuse(c):
  a = ({0: Fraction(1, 2), 1: Fraction(1, 2)}, Fraction(0))
  for ra, rb in itertools.product(('sparse', 'dense'), repeat=2):
    for (h1, p1), (h2, p2) in itertools.product(
        itertools.product((0.1, 0.2), (True, False)), repeat=2):
      x, y = make_pld(a, h1, ra, p1), make_pld(a, h2, rb, p2)
      bad = h1 != h2 or p1 != p2
      for name, fn in (('compose', lambda: x.compose(y)),
                       ('direct', lambda: x.
                        get_delta_for_epsilon_for_composed_pld(y, 0.1))):
        got = observe(fn)
        good = (got[0] == 'err' and got[1] == 'ValueError') if bad else (
            got[0] == 'ok')
        c.expect(good, 'refuses-mismatch', lambda: dict(
            h=(h1, h2), pess=(p1, p2), reps=(ra, rb), op=name, got=str(got)))
  x = make_pld(a, .1, 'sparse')
  d = make_pld(a, .1, 'dense')
  for n in (0, -1):
    for p in (x, d):
      got = observe(p.self_compose, n)
      c.expect(got[0] == 'err', 'refuses-count', lambda: dict(n=n))
  # the identity is neutral
  for rep in ('sparse', 'dense'):
    p = make_pld(a, .1, rep)
    got = observe(lambda: curve(p.compose(pldlib.identity(.1)), EPS_GRID))
    c.expect(got[0] == 'ok' and all(abs(x - y) < 1e-12 for x, y in zip(
        got[1], curve(p, EPS_GRID))), 'identity', lambda: dict(got=got))


def c08_conv(c, rng, n):
  """The convolution helpers against Compose on plain lists/dictionaries."""
  for _ in range(n):
    a = {k: rng.choice([0.0, rng.random(), 10 ** rng.uniform(-12, 0)])
         for k in rng.sample(range(-9, 9), 4)}
    b = {k: rng.random() for k in rng.sample(range(-9, 9), rng.choice([1, 3]))}
    k = rng.choice([1, 2, 3, 7])
    want = compose_float((a, 0.0), (b, 0.0))[0]
    got = observe(common.convolve_dictionary, a, b)
    cmp_dict(c, 'convolve', got, want, dict(a=a, b=b))
    cut = 10 ** rng.uniform(-9, -1)
    got = observe(common.convolve_dictionary, a, b, cut)
    ks = sorted(want)
    if c.expect(got[0] == 'ok', 'convolve:tail', lambda: dict(a=a, b=b, t=cut,
                                                              got=got)):
      lost = [want[x] for x in ks if x not in got[1]]
      c.expect(sum(lost) <= cut + 1e-12 and all(
          abs(got[1][x] - want.get(x, 0)) < 1e-12 for x in got[1]),
               'convolve:tail', lambda: dict(a=a, b=b, t=cut, got=got[1]))
    s = sum(a.values()) or 1
    a1 = {x: y / s for x, y in a.items()}
    want = self_float((a1, 0.0), k)[0]
    got = observe(common.self_convolve_dictionary, a1, k)
    cmp_dict(c, 'self-convolve', got, want, dict(a=a1, k=k))
    # truncation drops no more than it may
    t = rng.choice([1e-3, 1e-9])
    kk = rng.choice([5, 30])
    want = self_float((a1, 0.0), kk)[0]
    got = observe(common.self_convolve_dictionary, a1, kk, t)
    if got[0] == 'ok' and sum(a.values()) > 0:
      lost = sum(v for x, v in want.items() if x not in got[1])
      off = max(abs(got[1][x] - want.get(x, 0)) for x in got[1])
      c.expect(lost <= t * (1 + 1e-6) and off <= t * (1 + 1e-6),
               'self-convolve:tail',
               lambda: dict(a=a1, k=kk, t=t, lost=lost, off=off))


def cmp_dict(c, clause, got, want, det):
  good = got[0] == 'ok' and all(
      abs(got[1].get(k, 0) - want.get(k, 0)) < 2e-14 * max(1, len(want))
      for k in set(got[1]) | set(want))
  c.expect(good, clause, lambda: dict(det, got=str(got), want=str(want)))


# ----------------------------------------------------------------- C09
def eps_of(spec, d):
  if spec['k'] == 'inf':
    return math.inf
  if spec['k'] == 'zero':
    return 0.0
  return math.log(spec['a'] / spec['b'])


def eps_exact(m, inf, d, h):
  """EpsFor of Pld.tla in floating point: smallest eps >= 0, delta <= d."""
  if inf > d:
    return math.inf
  ls = sorted(l for l, p in m.items() if p > 0)
  if hs_pmf(m, inf, 0.0, h) <= d:
    return 0.0
  lo = None
  for l in ls:
    if l * h > 0 and hs_pmf(m, inf, l * h, h) <= d:
      up = inf + math.fsum(m[x] for x in ls if x >= l)
      low = math.fsum(m[x] * math.exp((l - x) * h) for x in ls if x >= l)
      return l * h + math.log((up - d) / low)
  return math.inf


def c09_queries(c, m, inf, h, rep, rng, det, answers=None):
  a = ({k: p for k, p in m.items()}, inf)
  p = make_pld(a, h, rep)
  m, inf = floatpmf(a)
  eps = sorted(EPS_GRID + [k * h for k in m] + [0.0, 30.0, 800.0, math.inf,
                                               -60.0])
  got = observe(lambda: [float(p.get_delta_for_epsilon(e)) for e in eps])
  want = [hs_pmf(m, inf, e, h) for e in eps]
  good = got[0] == 'ok' and all(abs(x - y) < TOL for x, y in zip(got[1], want))
  c.expect(good, 'delta:hockey-stick', lambda: dict(
      det(), eps=eps, got=got, want=want, h=h, rep=rep))
  # a list answers the same as its members
  for es in (eps, [e for e in eps for _ in range(2)],
             sorted(rng.sample(eps, 3)), eps[:1]):
    for arg in (list(es), np.array(es), tuple(es)):
      v = observe(lambda: [float(x) for x in p.get_delta_for_epsilon(arg)])
      w = [hs_pmf(m, inf, e, h) for e in es]
      if not c.expect(v[0] == 'ok' and len(v[1]) == len(w) and all(
          abs(x - y) < TOL for x, y in zip(v[1], w)), 'delta:vectorised',
                      lambda: dict(det(), eps=[float(e) for e in es], got=v,
                                   want=w, h=h, rep=rep)):
        break
  # epsilon for delta: the smallest epsilon >= 0
  ds = [0.0, 1.0, 1e-9, inf, 0.5]
  ds += [hs_pmf(m, inf, e, h) for e in (0.0, .3, h, 1.0, 2 * h)]
  if answers is None:
    answers = []
  exact_h = h
  for d in ds:
    d = min(max(d, 0.0), 1.0)
    answers.append((d, eps_exact(m, inf, d, h)))
  for d, w in answers:
    g = observe(p.get_epsilon_for_delta, d)
    good = g[0] == 'ok' and (g[1] == w or abs(g[1] - w) < 1e-8)
    if not good and g[0] == 'ok':
      good = eps_ok(m, inf, d, h, float(g[1]))
    c.expect(good, 'epsilon:smallest', lambda: dict(
        det(), delta=d, got=g, want=w, h=h, rep=rep))


def eps_ok(m, inf, d, h, g):
  """Is g a smallest epsilon up to rounding of delta by a few ulps?"""
  w1 = eps_exact(m, inf, d + 1e-13, h)
  if w1 > 700:
    # e^-eps underflows: the answer may be rounded up to the next loss
    return w1 - 1e-6 <= g <= w1 + h
  w2 = eps_exact(m, inf, max(d - 1e-13, 0), h)
  return w1 - 1e-8 <= g <= w2 + 1e-8


def c09(c):
  rng = random.Random(c.seed)
  n = 0
  for full in ('TRUE', 'FALSE')[:c.pick(1, 2)]:
    for den in c.pick([4], [4, 6]):
      rows = c.tlc('MCPldOps', OPS_CFG % (den, 0, 64, full, 'EmittedQ'),
                   timeout=600, workers=8).rows
      sample = rng.sample(rows, min(len(rows), c.pick(150, 2000)))
      c09_far(c, rng, sample, len(sample) + c.pick(150, 2000))
      for j, r in enumerate(rows):
        m, inf = obj_pmf(r['f'])
        # zero-mass cells are part of a representation, not of the meaning
        answers = [(k / den, eps_of(e, k)) for k, e in enumerate(r['eps'])]
        for rep in ('sparse', 'padded', 'dense'):
          c09_queries(c, dict(m), inf, LN2, rep, rng,
                      lambda: dict(f=r['f']), list(answers))
        fm, fi = floatpmf((m, inf))
        for k in range(7):
          a, b = r['hs'][k]
          c.expect(abs(a / b - hs_pmf(fm, fi, (k - 3) * LN2, LN2)) < 1e-12,
                   'oracle:agrees', lambda: dict(r=r))
        c.distinct.add(repr(r['f']))
        n += 1
      c.sample({'queries': rows[0]})
  c.traces += n
  for j in range(c.pick(400, 4000)):
    m, inf = rand_exact(rng, width=rng.choice([None, 2, 5, 40]))
    h = rng.choice([0.01, 0.1, 1.7, 100.0 if j % 9 == 0 else .3])
    if j % 10 == 0:
      inf = Fraction(1)
      m = {k: Fraction(0) for k in m}
    c09_queries(c, m, inf, h, rng.choice(['sparse', 'padded', 'dense']), rng,
                lambda: dict(m=str(m), inf=str(inf)))
    c.distinct.add(repr((h, sorted(m.items()), inf)))
  c09_tiny(c, rng, c.pick(400, 5000))
  c09_directions(c, rng, c.pick(150, 1500))
  c09_unsorted(c)


def c09_tiny(c, rng, n):
  """Masses and targets of any size: relative, not absolute, precision."""
  for j in range(n):
    w = rng.choice([1, 2, 3, 6, 30])
    ks = sorted(rng.sample(range(-3, w + rng.choice([0, 4, 400])), w))
    top = rng.choice([1e-3, 1e-9, 1e-14, 1e-30, 1e-200])
    m = {k: math.exp(rng.uniform(math.log(top), 0)) if i else 1.0
         for i, k in enumerate(ks)}
    if rng.random() < .7:        # tails: the largest losses are the rarest
      m = dict(zip(ks, sorted(m.values(), reverse=True)))
    inf = rng.choice([0, 0, math.exp(rng.uniform(math.log(top), 0))])
    z = sum(m.values()) + inf
    m, inf = {k: x / z for k, x in m.items()}, inf / z
    h = rng.choice([.01, .1, 1.7])
    p = make_pld((m, inf), h, rng.choice(['sparse', 'padded', 'dense']))
    det = lambda **kw: dict(m=repr(m), inf=inf, h=h, **kw)
    eps = sorted([k * h for k in ks] + [k * h - rng.choice([1e-7, 1e-4, .3])
                                        for k in ks])
    want = [hs_pmf(m, inf, e, h) for e in eps]
    above = [inf + sum(x for k, x in m.items() if k * h > e) for e in eps]
    # rounding of the losses' positions changes a term by an ulp of the loss
    gap = lambda i: 1e-9 * want[i] + 1e-13 * (1 + abs(eps[i])) * above[i]
    got = [observe(lambda: [float(p.get_delta_for_epsilon(e)) for e in eps]),
           observe(lambda: [float(x) for x in p.get_delta_for_epsilon(eps)])]
    for x, style in zip(got, ('one', 'list')):
      c.expect(x[0] == 'ok' and all(abs(g - v) <= gap(i) for i, (g, v) in
                                    enumerate(zip(x[1], want))),
               'tiny:delta', lambda: det(eps=eps, got=x, want=want, query=style))
    ds = [v * f for v in rng.sample(want, min(4, len(want)))
          for f in (1 - 1e-3, .5, 1 + 1e-3)] + [inf, inf * 2, top, 1e-12]
    for d in ds:
      if not 0 <= d <= 1:
        continue
      g = observe(p.get_epsilon_for_delta, d)
      if d < inf:
        if d < inf * (1 - 1e-12):
          c.expect(g == ('ok', math.inf), 'tiny:epsilon', lambda: det(
              delta=d, got=g))
        continue
      if d == 0 or not c.expect(g[0] == 'ok' and g[1] >= 0, 'tiny:epsilon',
                                lambda: det(delta=d, got=g)):
        continue
      e = float(g[1])
      if e == math.inf:
        c.expect(d <= inf * (1 + 1e-12), 'tiny:epsilon', lambda: det(
            delta=d, got=g))
        continue
      step = 1e-8 * (1 + e)
      rest = inf + sum(x for k, x in m.items() if k * h > e)
      room = 1e-9 * d + 1e-13 * (1 + e) * rest
      c.expect(hs_pmf(m, inf, e + step, h) <= d + room
               and (e == 0 or hs_pmf(m, inf, e - step, h) >= d - room),
               'tiny:epsilon', lambda: det(delta=d, got=g, below=hs_pmf(
                   m, inf, e - step, h), at=hs_pmf(m, inf, e, h)))
    c.distinct.add(('tiny', repr(sorted(m.items())), h))
    c.traces += 1


FAR = [300, 650, 720, 744, 750, 1000, 5000, 50000]


def c09_far(c, rng, rows, n):
  """ShiftLaw: losses out of the range of exp answer like those near zero."""
  for j in range(n):
    if j < len(rows):
      m, inf = obj_pmf(rows[j]['f'])
      h = LN2
    else:
      m, inf = rand_exact(rng, width=rng.choice([None, 2, 5, 40]))
      h = rng.choice([.01, .1, 1.7, 30.0])
    if not m:
      continue
    m0, fi = floatpmf((m, inf))
    far = rng.choice(FAR)
    k = round(rng.choice([far, far, -far]) / h) + rng.choice([0, 1, -1])
    a = ({l + k: p for l, p in m.items()}, inf)
    rep = rng.choice(['sparse', 'dense'])
    p = make_pld(a, h, rep)
    near = sorted({0.0, -.3, .37, 1.1} | {l * h for l in m0})
    want = [hs_pmf(m0, fi, e, h) for e in near]
    eps = [e + k * h for e in near]
    det = lambda **kw: dict(m=str(m), inf=str(inf), moved=k, h=h, rep=rep, **kw)
    got = [observe(lambda: [float(p.get_delta_for_epsilon(e)) for e in eps]),
           observe(lambda: [float(x) for x in p.get_delta_for_epsilon(eps)])]
    # the part at -k composed with the part at 2k, and so on
    kk = rng.choice([-k, 2 * k, -2 * k, k // 2])
    one = rand_exact(rng)
    q = make_pld(({l + kk: x for l, x in one[0].items()}, one[1]), h, 'dense')
    both = floatpmf(compose_exact((m, inf), one))
    for x, w, e in zip(got, [want] * 2, [eps] * 2):
      c.expect(x[0] == 'ok' and all(abs(u - v) < 1e-9 for u, v in zip(x[1], w)),
               'far:delta', lambda: det(eps=e, got=x, want=w))
    e2 = [e + (k + kk) * h for e in near]
    x = observe(lambda: [float(p.get_delta_for_epsilon_for_composed_pld(q, e))
                         for e in e2])
    w = [hs_pmf(*both, e, h) for e in near]
    c.expect(x[0] == 'ok' and all(abs(u - v) < 1e-9 for u, v in zip(x[1], w)),
             'far:composed', lambda: det(other=str(one), by=kk, eps=e2, got=x,
                                         want=w))
    for d in {0.0, 1e-9, .5, fi, min(1.0, hs_pmf(m0, fi, .4, h) + 1e-5)}:
      g = observe(p.get_epsilon_for_delta, d)
      # relative to the movement, epsilon may be negative
      lo = eps_any(m0, fi, d + 1e-13, h)
      w = eps_any(m0, fi, d, h)
      hi = eps_any(m0, fi, d - 1e-13, h)
      low, high = max(0, lo + k * h) - 1e-8, max(0, hi + k * h) + 1e-8
      good = g[0] == 'ok' and (g[1] == w or low <= g[1] <= high)
      c.expect(good, 'far:epsilon', lambda: det(delta=d, got=g, want=w))
    c.distinct.add(('far', repr(sorted(m.items())), k, h))
    c.traces += 1


def eps_any(m, inf, d, h):
  """Smallest epsilon of any sign with delta <= d; -inf if there is none."""
  if inf > d:
    return math.inf
  up, low, last = inf, 0.0, None
  for l in sorted((l for l, p in m.items() if p > 0), reverse=True):
    if up > d and low > 0 and last * h + math.log((up - d) / low) >= l * h:
      break
    up += m[l]
    low = low * math.exp((l - last) * h) + m[l] if last is not None else m[l]
    last = l
  if up <= d:
    return -math.inf
  return last * h + math.log((up - d) / low)


def c09_directions(c, rng, n):
  for j in range(n):
    a, b = rand_exact(rng), rand_exact(rng)
    h = rng.choice([.1, .5, LN2])
    p = make_pld(a, h, rng.choice(['sparse', 'dense']), True, False, b)
    fa, fb = floatpmf(a), floatpmf(b)
    det = lambda **kw: dict(remove=str(a), add=str(b), h=h, **kw)
    for e in EPS_GRID:
      w = max(hs_pmf(*fa, e, h), hs_pmf(*fb, e, h))
      g = float(p.get_delta_for_epsilon(e))
      if not c.expect(abs(g - w) < TOL, 'directions:delta',
                      lambda: det(eps=e, got=g, want=w)):
        break
    es = sorted(EPS_GRID)
    g = [float(x) for x in p.get_delta_for_epsilon(es)]
    w = [max(hs_pmf(*fa, e, h), hs_pmf(*fb, e, h)) for e in es]
    c.expect(all(abs(x - y) < TOL for x, y in zip(g, w)),
             'directions:vectorised', lambda: det(got=g, want=w))
    for d in (0.0, 1e-6, .01, .1, .4, .9, 1.0):
      w = max(eps_exact(*fa, d, h), eps_exact(*fb, d, h))
      g = float(p.get_epsilon_for_delta(d))
      c.expect(g == w or abs(g - w) < 1e-8 or
               max(eps_exact(*fa, d + 1e-13, h), eps_exact(*fb, d + 1e-13, h))
               - 1e-8 <= g, 'directions:epsilon', lambda: det(
                   delta=d, got=g, want=w))


def c09_unsorted(c):
  p = make_pld(({0: .5, 1: .5}, 0.0), .5, 'sparse')
  w = [float(p.get_delta_for_epsilon(x)) for x in (1.0, 0.0)]
  got = observe(lambda: [float(x) for x in p.get_delta_for_epsilon([1.0, 0.0])])
  c.expect((got[0] == 'err' and got[1] == 'ValueError')
           or (got[0] == 'ok' and got[1] == w), 'delta:unsorted',
           lambda: dict(got=got, want=w))


def body(prop):
  return {'C07': c07, 'C08': c08, 'C09': c09}[prop]
