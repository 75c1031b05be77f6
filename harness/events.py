"""Spec terms (spec/Events.tla) <-> real DpEvents."""
import math
import numpy as np
import dp_accounting
from dp_accounting import dp_event as de
from dp_accounting import privacy_accountant as pa
from dp_accounting.rdp import rdp_privacy_accountant as rpa
from dp_accounting.pld import pld_privacy_accountant as ppa
from dp_accounting.pld import privacy_loss_distribution as pldlib

NR = pa.NeighboringRelation
REL = {'ADD_OR_REMOVE_ONE': NR.ADD_OR_REMOVE_ONE, 'REPLACE_ONE': NR.REPLACE_ONE,
       'REPLACE_SPECIAL': NR.REPLACE_SPECIAL}

LAP = {'0': 0.0, 'a': 1.25, 'bad': -1.0}
RR = {'0': (0.0, 3), 'id': (1.0, 4), 'a': (0.4, 3), 'bad': (1.5, 3)}
MOG = {'0': (0.0, (1.0,), (1.0,)), 'id': (1.0, (0.0,), (1.0,)),
       'a': (4.0, (0.0, 1.0, 2.0), (0.5, 0.3, 0.2)),
       'bad': (1.0, (1.0, 2.0), (0.5,))}
TREE = {'0': (0.0, 5), 'a': (2.5, 5), 'bad': (-1.0, 5)}
Q = {'0': 0.0, 'h': 0.25, '1': 1.0, 'bad': 1.5}
SWOR = {'0': (20, 0), 'h': (20, 5), '1': (20, 20), 'bad': (20, 30)}
RNS = {'g': (2.5, 1.0), 'p': (3.0, math.inf), 'l': (2.0, 0.0),
       't': (2.25, 0.5), 'bad': (-1.0, 1.0)}


MOG_ID = [MOG['id'], (0.0, (0.0,), (1.0,)), (1.5, (0.0, 0.0), (.25, .75)),
          (0.0, (0.0, 2.0), (1.0, 0.0))]
TABLES = dict(LAP=LAP, RR=RR, MOG=MOG, TREE=TREE, Q=Q, SWOR=SWOR, RNS=RNS)
# noise of the Gaussian of weight 1, and the PLD discretization
UNIT = {'sigma': 1.0, 'H': .02}
START = {k: dict(v) for k, v in dict(TABLES, UNIT=UNIT).items()}


def use(world):
  """Gives the names of the terms the parameters of a world."""
  for k, v in (world or START).items():
    t = UNIT if k == 'UNIT' else TABLES[k]
    t.clear()
    t.update(v)


def draw_world(rng, a):
  """Other parameters for the names: usual, tiny, huge, close to the ends."""
  lu = lambda lo, hi: math.exp(rng.uniform(math.log(lo), math.log(hi)))
  def rate():
    return rng.choice([rng.uniform(.01, .99), lu(1e-10, .1), 1 - lu(1e-9, .1)])
  w = {k: dict(v) for k, v in START.items()}
  w['UNIT']['sigma'] = lu(.4, 60) if a == 'PLD' else lu(1e-4, 1e4)
  w['UNIT']['H'] = rng.choice([.02, .002, .0002])
  w['LAP']['a'] = lu(.3, 60) if a == 'PLD' else lu(1e-3, 1e6)
  w['RR']['a'] = (rate(), rng.choice([2, 3, 7, 100, 1000]))
  k = rng.choice([1, 2, 3])
  sens = sorted(rng.uniform(.05, 1.5) for _ in range(k))
  if k > 1 and rng.random() < .6:
    sens[0] = 0.0
    p = [1 - rate()]
  else:
    p = [rng.uniform(.1, .9)] if k > 1 else [1.0]
  while len(p) < k:
    p.append((1 - sum(p)) * (1 if len(p) == k - 1 else rng.uniform(.1, .9)))
  w['MOG']['a'] = (lu(.5, 40), tuple(sens), tuple(p))
  w['TREE']['a'] = (lu(.1, 100), rng.choice([1, 2, 17, 1000, [3, 1, 6], [64]]))
  w['Q']['h'] = rate()
  n = rng.choice([2, 30, 10**4, 10**8])
  w['SWOR']['h'] = (n, rng.choice([1, max(1, n // 3), n - 1]))
  w['SWOR']['0'], w['SWOR']['1'] = (n, 0), (n, n)
  w['SWOR']['bad'] = (n, n + 1)
  w['RNS']['g'] = (1 + lu(.01, 1e4), 1.0)
  w['RNS']['p'] = (lu(1, 1e4), math.inf)
  w['RNS']['l'] = (1 + lu(.01, 1e3), 0.0)
  w['RNS']['t'] = (1 + lu(.01, 1e3), rng.choice([.5, .1, 2.0, 5.0]))
  return w


def sigma(w):
  if w <= 0:
    return float(w)
  return UNIT['sigma'] * float(w) ** -0.5


def to_event(t, variant=0):
  """Builds the DpEvent of a term; variant picks numeric representations."""
  k = t['k']
  if k == 'noop':
    return de.NoOpDpEvent()
  if k == 'nonpriv':
    return de.NonPrivateDpEvent()
  if k == 'unsup':
    return de.UnsupportedDpEvent()
  if k == 'gauss':
    s = sigma(t['w'])
    variant %= 6
    if variant % 3 == 1 and s == int(s):
      s = int(s)            # an integer noise multiplier is a number too
    elif variant % 3 == 2:
      s = np.float64(s)
    return de.GaussianDpEvent(s)
  if k == 'lap':
    return de.LaplaceDpEvent(LAP[t['p']])
  if k == 'rr':
    if t['p'] == 'id' and variant % 2:
      return de.RandomizedResponseDpEvent(0.25, 1)
    return de.RandomizedResponseDpEvent(*RR[t['p']])
  if k == 'mog':
    s, c, p = MOG[t['p']]
    if t['p'] == 'id':
      s, c, p = MOG_ID[variant % 4]
    return de.MixtureOfGaussiansDpEvent(s, list(c), list(p))
  if k == 'tree':
    return de.SingleEpochTreeAggregationDpEvent(*TREE[t['p']])
  if k == 'self':
    return de.SelfComposedDpEvent(to_event(t['e'], variant), t['n'])
  if k == 'comp':
    return de.ComposedDpEvent([to_event(x, variant) for x in t['es']])
  if k == 'poisson':
    return de.PoissonSampledDpEvent(Q[t['q']], to_event(t['e'], variant))
  if k == 'swor':
    return de.SampledWithoutReplacementDpEvent(
        SWOR[t['q']][0], SWOR[t['q']][1], to_event(t['e'], variant))
  if k == 'swr':
    return de.SampledWithReplacementDpEvent(
        SWOR[t['q']][0], SWOR[t['q']][1], to_event(t['e'], variant))
  if k == 'rns':
    return de.RepeatAndSelectDpEvent(to_event(t['e'], variant), *RNS[t['p']])
  raise KeyError(k)


def _name(table, v):
  for n, x in table.items():
    if x == v:
      return n
  return '?%r' % (v,)


def to_term(e):
  """Projects a DpEvent back to a term (total: unknown things become '?')."""
  try:
    t = type(e)
    if t is de.NoOpDpEvent:
      return {'k': 'noop'}
    if t is de.NonPrivateDpEvent:
      return {'k': 'nonpriv'}
    if t is de.UnsupportedDpEvent:
      return {'k': 'unsup'}
    if t is de.GaussianDpEvent:
      s = float(e.noise_multiplier)
      w = 0 if s == 0 else (UNIT['sigma'] / s) ** 2 if s > 0 else -1
      if abs(w - round(w)) > 1e-9:
        return {'k': '?gauss%r' % s}
      return {'k': 'gauss', 'w': int(round(w))}
    if t is de.LaplaceDpEvent:
      return {'k': 'lap', 'p': _name(LAP, e.noise_multiplier)}
    if t is de.RandomizedResponseDpEvent:
      v = (e.noise_parameter, e.num_buckets)
      return {'k': 'rr', 'p': 'id' if v == (0.25, 1) else _name(RR, v)}
    if t is de.MixtureOfGaussiansDpEvent:
      v = (e.standard_deviation, tuple(e.sensitivities),
           tuple(e.sampling_probs))
      return {'k': 'mog', 'p': 'id' if v in MOG_ID else _name(MOG, v)}
    if t is de.SingleEpochTreeAggregationDpEvent:
      return {'k': 'tree', 'p': _name(TREE, (e.noise_multiplier,
                                              e.step_counts))}
    if t is de.SelfComposedDpEvent:
      return {'k': 'self', 'e': to_term(e.event), 'n': int(e.count)}
    if t is de.ComposedDpEvent:
      return {'k': 'comp', 'es': [to_term(x) for x in e.events]}
    if t is de.PoissonSampledDpEvent:
      return {'k': 'poisson', 'q': _name(Q, e.sampling_probability),
              'e': to_term(e.event)}
    if t is de.SampledWithoutReplacementDpEvent:
      return {'k': 'swor', 'q': _name(SWOR, (e.source_dataset_size,
                                              e.sample_size)),
              'e': to_term(e.event)}
    if t is de.SampledWithReplacementDpEvent:
      return {'k': 'swr', 'q': _name(SWOR, (e.source_dataset_size,
                                             e.sample_size)),
              'e': to_term(e.event)}
    if t is de.RepeatAndSelectDpEvent:
      return {'k': 'rns', 'p': _name(RNS, (e.mean, e.shape)),
              'e': to_term(e.event)}
  except Exception as ex:  # pylint: disable=broad-except
    return {'k': '?%s' % type(ex).__name__}
  return {'k': '?%s' % type(e).__name__}


ORDERS = [1.25, 1.5, 2, 3, 4.5, 8, 16, 33]


def new_accountant(a, r):
  if a == 'RDP':
    return rpa.RdpAccountant(ORDERS, REL[r])
  return ppa.PLDAccountant(REL[r], value_discretization_interval=UNIT['H'])


EPS_POINTS = (0.0, 0.5, 1.5, 4.0, 5e3)
DELTA_POINTS = (1e-2, 1e-5, .9999)


def answers(acc):
  """Everything the accountant publicly says about its guarantee."""
  out = [float(acc.get_epsilon(d)) for d in DELTA_POINTS]
  out += [float(acc.get_delta(e)) for e in EPS_POINTS]
  return out


def remember(f):
  """Mixture of Gaussians take long to build and are asked for often."""
  known = {}
  def call(*args, **kw):
    k = repr((args, sorted(kw.items())))
    if k not in known:
      if len(known) > 100:
        known.clear()
      known[k] = f(*args, **kw)
    return known[k]
  return call


def quicken():
  pldlib.from_mixture_gaussian_mechanism = remember(
      pldlib.from_mixture_gaussian_mechanism)


# ---- canonical evaluation of a symbolic cost -----------------------------
class CostEval:
  """Evaluates a symbolic cost with the accountants' own single-event values.

  Independent of grouping: RDP adds one vector per atom; PLD multiplies the
  atoms' distributions one at a time.
  """

  def __init__(self, a, r):
    self.a, self.r = a, r
    self.cache = {}

  def atom_event(self, a):
    k = a['k']
    if k == 'gauss':
      return de.GaussianDpEvent(sigma(1))
    if k in ('lap', 'rr', 'mog', 'tree'):
      return to_event(a)
    if k == 'plap':
      return de.PoissonSampledDpEvent(Q[a['q']], de.LaplaceDpEvent(LAP[a['p']]))
    if k == 'pgauss':
      return de.PoissonSampledDpEvent(Q[a['q']],
                                      de.GaussianDpEvent(sigma(a['w'])))
    if k == 'swor':
      n, m = SWOR[a['q']]
      return de.SampledWithoutReplacementDpEvent(
          n, m, de.GaussianDpEvent(sigma(a['w'])))
    raise KeyError(k)

  def rdp_atom(self, a):
    key = repr(a)
    if key not in self.cache:
      if a['k'] == 'gauss':
        v = np.array(ORDERS) / 2 / UNIT['sigma'] ** 2
      elif a['k'] == 'rns':
        inner = self.rdp(a['c'])
        # Same formula, applied to the canonical inner vector, through the
        # public accountant with one equivalent inner event when possible.
        mean, shape = RNS[a['p']]
        v = rns_reference(ORDERS, inner, mean, shape)
      else:
        acc = rpa.RdpAccountant(ORDERS, REL[self.r])
        v = acc.compose(self.atom_event(a)).rdp
      self.cache[key] = v
    return self.cache[key]

  def rdp(self, cost):
    v = np.zeros(len(ORDERS))
    for x in cost:
      v = v + x['n'] * self.rdp_atom(x['a'])
    return v

  def pld_atom(self, a, n):
    key = (repr(a), n)
    if key in self.cache:
      return self.cache[key]
    if a['k'] == 'gauss':
      p = pldlib.from_gaussian_mechanism(
          sigma(n), value_discretization_interval=UNIT['H'])
    elif n > 1:
      p = self.pld_atom(a, n // 2)
      p = p.compose(p)
      if n % 2:
        p = p.compose(self.pld_atom(a, 1))
    else:
      k = a['k']
      f = pldlib
      if k == 'lap':
        p = f.from_laplace_mechanism(LAP[a['p']],
                                     value_discretization_interval=UNIT['H'])
      elif k == 'plap':
        p = f.from_laplace_mechanism(LAP[a['p']], sampling_prob=Q[a['q']],
                                     value_discretization_interval=UNIT['H'])
      elif k == 'pgauss':
        p = f.from_gaussian_mechanism(sigma(a['w']), sampling_prob=Q[a['q']],
                                      value_discretization_interval=UNIT['H'])
      elif k == 'rr':
        p = f.from_randomized_response(
            *RR[a['p']], value_discretization_interval=UNIT['H'],
            neighboring_relation=REL[self.r])
      elif k == 'mog':
        p = f.from_mixture_gaussian_mechanism(
            *MOG[a['p']], value_discretization_interval=UNIT['H'])
      else:
        raise KeyError(k)
    self.cache[key] = p
    return p

  def pld(self, cost, spread=0.0):
    """`spread` is the variance of a Gaussian loss added on top."""
    p = pldlib.identity(value_discretization_interval=UNIT['H'])
    for x in cost:
      p = p.compose(self.pld_atom(x['a'], x['n']))
    if spread:
      p = p.compose(pldlib.from_gaussian_mechanism(
          spread ** -.5, value_discretization_interval=UNIT['H']))
    return p


def _log_mean(gamma, eta):
  """Mean of the truncated negative binomial TNB(eta, gamma)."""
  if gamma == 1:
    return 1.0
  if eta == 0:
    return (1 / gamma - 1) / math.log(1 / gamma)
  return eta * (1 / gamma - 1) / -math.expm1(eta * math.log(gamma))


def tnb_gamma(mean, eta):
  if mean == 1:
    return 1.0
  if eta == 1:
    return 1 / mean
  lo, hi = 1e-300, 1.0
  for _ in range(400):
    m = math.sqrt(lo * hi) if lo < 1e-3 else (lo + hi) / 2
    if _log_mean(m, eta) < mean:
      hi = m
    else:
      lo = m
  return lo


def kl_delta(r):
  return 0.0 if r <= 0 else math.sqrt(-math.expm1(-r))


def rdp_to_delta(orders, rdp, eps):
  """Reference of Canonne-Kamath-Steinke Prop. 12 plus the KL bound."""
  best = 0.0
  logs = []
  for a, r in zip(orders, rdp):
    ld = -math.inf if r <= 0 else 0.5 * math.log(-math.expm1(-r))
    if math.isinf(a):
      ld = -math.inf if r <= eps else ld
    elif a > 1.01 and r > 0:
      ld = min(ld, (a - 1) * (r - eps + math.log1p(-1 / a)) - math.log(a))
    logs.append(ld)
  best = min(logs)
  return min(1.0, math.exp(best))


def rns_reference(orders, rdp, mean, shape):
  """Papernot-Steinke (2110.03620) Theorems 2 and 6, from the paper."""
  orders = [float(o) for o in orders]
  out = []
  if math.isinf(shape):
    for a, r in zip(orders, rdp):
      if a <= 1:
        out.append(math.inf)
        continue
      eh = math.log1p(1 / (a - 1))
      dh = rdp_to_delta(orders, rdp, eh)
      out.append(r + mean * dh + math.log(mean) / (a - 1))
    return np.array(out)
  gamma = tnb_gamma(mean, shape)
  c = (1 + shape) * min((1 - 1 / a) * r - math.log(gamma) / a
                        for a, r in zip(orders, rdp))
  for a, r in zip(orders, rdp):
    out.append(math.inf if a <= 1 else r + math.log(mean) / (a - 1) + c)
  return np.array([min(out[j] for j in range(len(out))
                       if orders[i] <= orders[j]) for i in range(len(out))])
