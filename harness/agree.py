"""C21: independent accountants never contradict each other."""
import math
import random

import numpy as np

import dp_accounting as da
from dp_accounting import dp_event
from dp_accounting.pld import pld_privacy_accountant as pacc
from dp_accounting.pld import privacy_loss_distribution as pld
from dp_accounting.rdp import rdp_privacy_accountant as racc

from harness import curves
from harness.curves import qlog
from harness.mechcheck import h_gauss, loguniform
from harness.vlib import observe

NR = da.NeighboringRelation
LEVELS = [(3, 1), (2, 1), (3, 2)]     # as in WRAP
WRAP = '''---- MODULE RunOrder ----
EXTENDS MCOrder
Ls == <<<<3, 1>>, <<2, 1>>, <<3, 2>>>>
====
'''
CFG = '''SPECIFICATION Spec
CONSTANTS
 Levels <- Ls
 MaxSteps = %d
 Ratios = {%s}
 EmitRows = TRUE
INVARIANTS Chance Mass Ordered Moment Nothing Emitted
'''
DELTAS = [1e-11, 1e-8, 1e-5, 1e-3, .05, .4]
EPSILONS = [0.0, .05, .3, 1.0, 2.5, 6.0]
WHOLE = list(range(2, 64)) + [80, 128, 256]
FLOOR_E, FLOOR_D = 1e-3, 1e-13


def qe(xs):
  return [qlog(x, FLOOR_E) for x in xs]


def qd(xs):
  return [qlog(x, FLOOR_D) for x in xs]


class Step:
  """A mechanism, its noise and rate, and how often it is run."""

  def __init__(self, kind, level, rate, family, times, bare):
    self.kind, self.level, self.rate = kind, level, rate
    self.family, self.times, self.bare = family, times, bare

  @property
  def noise(self):
    return self.family[self.kind][self.level]

  @property
  def q(self):
    return self.family['q'] if self.rate == 1 else 1.0

  def show(self):
    return [self.kind, round(self.noise, 6), round(self.q, 6), self.times]

  def event(self):
    e = (da.GaussianDpEvent if self.kind == 'G' else da.LaplaceDpEvent)(
        self.noise)
    if not (self.q == 1 and self.bare):
      e = da.PoissonSampledDpEvent(self.q, e)
    return e if self.times == 1 else da.SelfComposedDpEvent(e, self.times)

  def loss(self, grid, pessimistic):
    kw = dict(value_discretization_interval=grid, use_connect_dots=False,
              pessimistic_estimate=pessimistic)
    if not (self.q == 1 and self.bare):
      kw['sampling_prob'] = self.q
    if self.kind == 'G':
      p = pld.from_gaussian_mechanism(self.noise, **kw)
    else:
      p = pld.from_laplace_mechanism(self.noise, **kw)
    return p if self.times == 1 else p.self_compose(self.times)


def pld_answers(steps, grid):
  acc = pacc.PLDAccountant(NR.ADD_OR_REMOVE_ONE, grid)
  for s in steps:
    acc.compose(s.event())
  # composing n discretized losses may cost this much epsilon
  err = sum(s.times for s in steps) * grid**2 / 2
  return ([acc.get_epsilon(d) for d in DELTAS],
          [acc.get_delta(e) for e in EPSILONS],
          [acc.get_epsilon(d) + err for d in DELTAS],
          [acc.get_delta(e - err) for e in EPSILONS])


def rdp_answers(steps, orders=None):
  acc = racc.RdpAccountant(orders, NR.ADD_OR_REMOVE_ONE)
  for s in steps:
    if not acc.supports(s.event()):
      return None
    acc.compose(s.event())
  return ([acc.get_epsilon(d) for d in DELTAS],
          [acc.get_delta(e) for e in EPSILONS])


def plain_answers(steps, grid, pessimistic):
  p = None
  for s in steps:
    one = s.loss(grid, pessimistic)
    p = one if p is None else p.compose(one)
  p = p or pld.identity(grid)
  return ([p.get_epsilon_for_delta(d) for d in DELTAS],
          [p.get_delta_for_epsilon(e) for e in EPSILONS])


def exact_gauss(steps):
  if not steps or any(s.kind != 'G' or s.q < 1 for s in steps):
    return None
  r = 1 / math.sqrt(sum(s.times / s.noise**2 for s in steps))
  h = h_gauss(1 / r)
  return [h(e) for e in EPSILONS]


def walks(rng, rows, n):
  """Behaviours of the specification: from a history to nothing."""
  nxt = {}
  for r in rows:
    if r['kind'] == 'edge':
      nxt.setdefault(repr(r['h']), []).append(r)
  starts = [k for k in nxt]
  for _ in range(n):
    k = rng.choice(starts)
    path = [(nxt[k][0]['h'], None)]
    while repr(path[-1][0]) in nxt:
      r = rng.choice(nxt[repr(path[-1][0])])
      path.append((r['to'], r['how']))
    yield path


def follow(rng, path, family, kinds, times):
  """Concrete histories along a walk."""
  steps = []
  for lv, row in enumerate(path[0][0]):
    for rt, k in enumerate(row):
      for _ in range(k):
        steps.append(Step(rng.choice(kinds), lv, rt + 1, family,
                          rng.choice(times), rng.random() < .7))
  out = [list(steps)]
  for (h, how), (before, _) in zip(path[1:], path):
    gone = [(lv, rt) for lv in range(3) for rt in range(2)
            if h[lv][rt] < before[lv][rt]][0]
    i = rng.choice([i for i, s in enumerate(steps) if (
        s.level, s.rate - 1) == gone])
    s = steps[i]
    steps = list(steps)
    if how == 'drop':
      if s.times > 1 and rng.random() < .3:
        t = Step(s.kind, s.level, s.rate, family, s.times - 1, s.bare)
        out.append(steps[:i] + [t] + steps[i + 1:])
      steps.pop(i)
    elif how == 'noisier':
      steps[i] = Step(s.kind, s.level + 1, s.rate, family, s.times, s.bare)
    else:
      steps[i] = Step(s.kind, s.level, 1, family, s.times, s.bare)
    out.append(list(steps))
  return out


def families(rng):
  g = loguniform(rng, .4, 6)
  l = loguniform(rng, .5, 8)
  up = lambda: rng.choice([1.001, 1.05, 1.4, 3.0])
  return {'G': [g, g * up(), g * 3.2 * up()], 'L': [l, l * up(), l * 3.1 * up()],
          'q': rng.choice([.001, .01, .1, .3, .7, .95, 1 - 1e-6])}


def histories(c, rng, rows, cv):
  for w, path in enumerate(walks(rng, rows, c.pick(26, 400))):
    family = families(rng)
    kinds = rng.choice(['G', 'G', 'L', 'GL'])
    chain = follow(rng, path, family, kinds, rng.choice([[1], [1, 3], [1, 20], [1, 300]]))
    # keep the support of the losses on the grid within reason
    top = sum(s.times * (6 / s.noise + .5 / s.noise**2 if s.kind == 'G' else
                         1 / s.noise) for s in chain[0])
    grid = max(1e-4, min(.02, top / 1e4))
    info = dict(walk=w, first=[s.show() for s in chain[0]], grid=grid)
    before = {}
    for steps in chain:
      at = dict(info, steps=[s.show() for s in steps], key='%d %r' % (
          w, [s.show() for s in steps]))
      pe, pd, pe_up, pd_up = pld_answers(steps, grid)
      oe, od = plain_answers(steps, grid, False)
      ue, ud = plain_answers(steps, grid, True)
      whole = rdp_answers(steps, WHOLE)
      cv.add('optimistic below pessimistic', at, {
          'o': qe(oe) + qd(od), 'p': qe(pe) + qd(pd), 'u': qe(ue) + qd(ud)},
             [('leq', 'o', 'p', 20), ('leq', 'o', 'u', 20)])
      if whole is not None:
        re, rd = rdp_answers(steps)
        cv.add('RDP above optimistic PLD', at, {
            'o': qe(oe) + qd(od), 'r': qe(re) + qd(rd),
            'w': qe(whole[0]) + qd(whole[1])},
               [('leq', 'o', 'r', 20), ('leq', 'o', 'w', 20)])
      ex = exact_gauss(steps)
      if ex is not None:
        cv.add('truth in between', at, {
            'o': qd(od), 'x': qd(ex), 'p': qd(pd), 'u': qd(ud)},
               [('leq', 'o', 'x', 20), ('leq', 'x', 'p', 20),
                ('leq', 'x', 'u', 20)])
        if whole is not None:
          cv.add('truth below RDP', at, {
              'x': qd(ex), 'r': qd(rd), 'w': qd(whole[1])},
                 [('leq', 'x', 'r', 20), ('leq', 'x', 'w', 20)])
      now = {'PLD': (qe(pe) + qd(pd), qe(pe_up) + qd(pd_up))}
      if whole is not None:
        now['RDP'] = (qe(whole[0]) + qd(whole[1]),) * 2
      for name in now:
        if name in before:
          cv.add('cheaper never costs more', dict(
              at, accountant=name, before=last, key='%d %s %r' % (
                  w, name, at['key'])), {
                      'after': now[name][0], 'before': before[name][1]},
                 [('leq', 'after', 'before', 30)])
      before, last = now, at['steps']
      c.traces += 1


def rare(c, rng, cv):
  """Steps which hardly ever look at a record, but often taken."""
  # convolving tens of thousands of times leaves errors of some 1e-13
  qr = lambda xs: [qlog(x, 1e-10) for x in xs]
  for kind in 'GL':
    for q in [1e-7, 1e-6, 1e-5, 5e-5, 2e-4, 1e-3]:
      if c.pick(rng.random() < .3, False):
        continue
      noise = rng.choice([.2, .3, .6])
      family = {kind: [noise], 'q': q}
      for times in sorted({1, rng.choice([3, 40]), min(20000, int(.1 / q))}):
        steps = [Step(kind, 0, 1, family, times, False)]
        grid = 1e-2
        at = dict(rare=True, steps=[s.show() for s in steps],
                  key=repr((kind, q, noise, times)))
        pe, pd, _, _ = pld_answers(steps, grid)
        oe, od = plain_answers(steps, grid, False)
        cv.add('optimistic below pessimistic', at, {
            'o': qe(oe) + qr(od), 'p': qe(pe) + qr(pd)},
               [('leq', 'o', 'p', 20)])
        r = rdp_answers(steps)
        if r is not None:
          cv.add('RDP above optimistic PLD', at, {
              'o': qe(oe) + qr(od), 'r': qe(r[0]) + qr(r[1])},
                 [('leq', 'o', 'r', 20)])
        c.traces += 1


def tell(level, rate):
  """The answers of a step of the specification: with and without a record."""
  a, b = LEVELS[level]
  t = a / (a + b)
  return ({'y': rate / 2 * t + (1 - rate / 2) * (1 - t),
           'n': rate / 2 * (1 - t) + (1 - rate / 2) * t},
          {'y': 1 - t, 'n': t})


def finite(c, rng, rows, cv):
  """The exact answers of the specification, against every accountant."""
  table = {}
  for r in rows:
    if r['kind'] == 'cost':
      table.setdefault(repr(r['h']), (r['h'], {}))[1][r['ratio']] = (
          r['delta'] / r['total'])
  for _, (h, want) in sorted(table.items()):
    ratios = sorted(want)
    eps = [math.log(x) for x in ratios]
    exact = [want[x] for x in ratios]
    at = dict(history=h, key=repr(h))
    got = {}
    for name, pess in (('up', True), ('down', False)):
      def build():
        total = None
        for lv, row in enumerate(h):
          for rt, k in enumerate(row):
            if k:
              up, lo = tell(lv, rt + 1)
              one = pld.from_two_probability_mass_functions(
                  {o: math.log(p) for o, p in lo.items()},
                  {o: math.log(p) for o, p in up.items()},
                  pessimistic_estimate=pess, value_discretization_interval=1e-3,
                  symmetric=False)
              one = one if k == 1 else one.self_compose(k)
              total = one if total is None else total.compose(one)
        total = total or pld.identity(1e-3)
        return [total.get_delta_for_epsilon(e) for e in eps]
      got[name] = observe(build)
      if not c.expect(got[name][0] == 'ok', 'finite history answered',
                      lambda: dict(at, got=got[name])):
        return
    # at most three steps, each rounded by one cell
    near = observe(lambda: [float(x) for x in got['up'][1]])[1]
    cv.add('finite history', at, {
        'o': qd(got['down'][1]), 'x': qd(exact), 'p': qd(near)},
           [('leq', 'o', 'x', 40), ('leq', 'x', 'p', 40)])
    c.expect(all(abs(a - b) <= 4e-3 for a, b in zip(near, exact)),
             'finite history is exact', lambda: dict(
                 at, got=near, want=exact))
    if any(row[0] for row in h):
      continue
    accs = {'PLD': pacc.PLDAccountant(NR.REPLACE_ONE, 1e-3),
            'RDP': racc.RdpAccountant(None, NR.REPLACE_ONE)}
    for lv, row in enumerate(h):
      a, b = LEVELS[lv]
      e = da.RandomizedResponseDpEvent(2 * b / (a + b), 2)
      for acc in accs.values():
        if row[1] and rng.random() < .5:
          acc.compose(e, row[1])
        else:
          for _ in range(row[1]):
            acc.compose(e)
    got = {k: observe(lambda: [acc.get_delta(e) for e in eps])
           for k, acc in accs.items()}
    if not c.expect(all(g[0] == 'ok' for g in got.values()),
                    'finite history answered', lambda: dict(at, got=got)):
      continue
    cv.add('told history', at, {
        'x': qd(exact), 'p': qd(got['PLD'][1]), 'r': qd(got['RDP'][1])},
           [('leq', 'x', 'p', 40), ('leq', 'x', 'r', 40)])
    c.expect(all(abs(x - y) <= 4e-3 for x, y in zip(got['PLD'][1], exact)),
             'told history is exact', lambda: dict(at, got=got, want=exact))
    c.distinct.add(('finite', repr(h)))
    c.traces += 1


def answers(acc, events):
  for e, k in events:
    acc.compose(e, k)
  return ([acc.get_epsilon(d) for d in DELTAS],
          [acc.get_delta(e) for e in EPSILONS])


def synonyms(c, rng, cv):
  """Different descriptions of one mechanism cost the same."""
  for i in range(c.pick(9, 120)):
    s = loguniform(rng, .5, 8)
    q = rng.choice([.01, .1, .5, .9])
    k = rng.choice([1, 2, 7, 60])
    g, l = da.GaussianDpEvent(s), da.LaplaceDpEvent(s)
    grid = max(.005, .04 / s)
    new = {'PLD': lambda: pacc.PLDAccountant(NR.ADD_OR_REMOVE_ONE, grid),
           'RDP': lambda: racc.RdpAccountant(None, NR.ADD_OR_REMOVE_ONE)}
    mog = dp_event.MixtureOfGaussiansDpEvent
    # name, accountant, one description, another, slack of epsilon and delta
    cases = [
        ('sampled surely', 'PLD', g, da.PoissonSampledDpEvent(1.0, g)),
        ('sampled surely', 'RDP', g, da.PoissonSampledDpEvent(1.0, g)),
        ('sampled surely', 'PLD', l, da.PoissonSampledDpEvent(1.0, l)),
        ('drawn entirely', 'RDP', None, None),
        ('sampled twice surely', 'PLD', da.PoissonSampledDpEvent(q, g),
         da.PoissonSampledDpEvent(q, da.ComposedDpEvent([g]))),
        ('mixture is sampling', 'PLD', da.PoissonSampledDpEvent(q, g),
         mog(s, [0.0, 1.0], [1 - q, q])),
        ('mixture of one', 'PLD', g, mog(s, [1.0], [1.0])),
        ('mixture of one', 'PLD', g, mog(3 * s, [3.0], [1.0])),
        ('mixture of equals', 'PLD', g, mog(s, [1.0, 1.0], [q, 1 - q])),
        ('never sampled', 'PLD', da.NoOpDpEvent(), da.PoissonSampledDpEvent(0.0, g)),
        ('never sampled', 'RDP', da.NoOpDpEvent(), da.PoissonSampledDpEvent(0.0, g)),
        ('two as one', 'RDP', da.GaussianDpEvent(s / math.sqrt(2)),
         da.SelfComposedDpEvent(g, 2)),
        ('two as one', 'PLD', da.GaussianDpEvent(s / math.sqrt(2)),
         da.SelfComposedDpEvent(g, 2)),
    ]
    for name, which, a, b in cases:
      if name == 'drawn entirely':
        acc = lambda: racc.RdpAccountant(None, NR.REPLACE_ONE)
        a = da.SampledWithoutReplacementDpEvent(10, 10, g)
        b = None
      else:
        acc = new[which]
      at = dict(what=name, accountant=which, noise=s, q=q, count=k,
                one=repr(a), other=repr(b))
      if b is None:
        # a draw of the whole dataset hides nothing
        x = observe(answers, acc(), [(a, k)])
        y = observe(answers, acc(), [(da.GaussianDpEvent(s / 2), k)])
        if x[0] == 'ok' and y[0] == 'ok':
          low = da.GaussianDpEvent(s)
          z = observe(answers, racc.RdpAccountant(
              None, NR.ADD_OR_REMOVE_ONE), [(low, k)])
          cv.add(name, at, {'whole': qe(x[1][0]) + qd(x[1][1]),
                            'one': qe(z[1][0]) + qd(z[1][1])},
                 [('leq', 'one', 'whole', 40)])
        continue
      if not acc().supports(b) or not acc().supports(a):
        continue
      x, y = observe(answers, acc(), [(a, k)]), observe(answers, acc(), [(b, k)])
      if not c.expect(x[0] == 'ok' and y[0] == 'ok', 'synonym answered',
                      lambda: dict(at, got=[x, y])):
        continue
      # rounding k losses to the grid, in two ways
      err = k * grid**2 if which == 'PLD' else 0
      # (the smallest delta is at the mercy of the truncation of tails)
      ex = max([abs(u - v) for u, v in zip(x[1][0][1:], y[1][0][1:]) if u != v]
               or [0])
      tol = 1e-9 + 2 * err + 3e-6 * max([u for u in x[1][0] if u < math.inf] or [0])
      c.expect(ex <= tol, name, lambda: dict(at, got=[x, y], apart=ex, tol=tol))
      slack = 60 + int((2 * err) * 3e6)
      cv.add(name, at, {'a': qd(x[1][1]), 'b': qd(y[1][1])},
             [('leq', 'a', 'b', slack + 200000), ('leq', 'b', 'a', slack + 200000)]
             if which == 'PLD' and k > 1 else
             [('leq', 'a', 'b', slack + 2000), ('leq', 'b', 'a', slack + 2000)])
      c.traces += 1


def body(prop):
  assert prop == 'C21'

  def run(c):
    rng = random.Random(c.seed * 7919 + 21)
    r = c.tlc('RunOrder', CFG % (c.pick(3, 4), '1, 2, 3, 5'), timeout=800,
              extra_modules={'RunOrder.tla': WRAP})
    rows = list({repr(x): x for x in r.rows}.values())
    c.sample(rows[len(rows) // 2])
    cv = curves.Curves(c)
    finite(c, rng, rows, cv)
    synonyms(c, rng, cv)
    histories(c, rng, rows, cv)
    rare(c, rng, cv)
    cv.flush()
    c.assumptions.extend([
        'discretized losses of n composed steps may add n grid^2 / 2 to epsilon'
        ' before two histories are compared',
        'RDP is compared between histories at integer orders (fractional'
        ' orders of sampled Gaussians are bounds that are not monotone)'])
  return run
