"""C11: calibration meets its target and is near-optimal."""
import math
import random

import attr

from dp_accounting import dp_event
from dp_accounting import mechanism_calibration as mc
from dp_accounting import privacy_accountant as pa
from dp_accounting.pld import pld_privacy_accountant
from dp_accounting.rdp import rdp_privacy_accountant

from harness.vlib import observe

NR = pa.NeighboringRelation

CFG = '''SPECIFICATION Spec
CONSTANTS
 N = %d
 MaxTries = 3
 EmitRows = %s
INVARIANTS Sound Near Inside Refused Answers Emitted
%sCHECK_DEADLOCK FALSE
'''


@attr.s(frozen=True, slots=True, auto_attribs=True)
class ParamEvent(dp_event.DpEvent):
  param: float


class Recorder:
  """The questions a calibration asks, and a stub accountant answering them."""

  def __init__(self, fn):
    self.fn, self.asked, self.deltas = fn, [], set()

  def event(self, x):
    self.asked.append(x)
    return ParamEvent(x)

  def accountant(self):
    return Stub(self)


class Stub(pa.PrivacyAccountant):
  """Charges an event what the recorder's function says."""

  def __init__(self, rec):
    super().__init__(NR.ADD_OR_REMOVE_ONE)
    self.rec, self.eps = rec, 0.0

  def _maybe_compose(self, event, count, do_compose):
    if isinstance(event, ParamEvent) and do_compose:
      self.eps += count * self.rec.fn(event.param)
    return None

  def get_epsilon(self, target_delta):
    self.rec.deltas.add(target_delta)
    return self.eps


def scenario(rng, row, i):
  """Real numbers for a row of the model."""
  if row['disc']:
    unit, base = 1, rng.choice([0, 0, 5])
  else:
    unit = rng.choice([1, 1, .1, 1000.0, 3.7])
    base = rng.choice([0, 0, -2.5, 17.0]) * unit
  at = lambda p: base + unit * p / 4
  g = row['g']
  up = rng.choice([math.inf, 5.0, 1e9, .01, 'graded'])
  dn = rng.choice([.3, 9.0, 1e-4, 'graded'])
  target = 10.0
  top = 4 * row['n']
  a, b = at(g['a']), at(g['b'])

  def level(x):
    if g['dir'] == -1:
      return 1 if x < a else 0 if x < b else -1
    return -1 if x <= a else 0 if x <= b else 1

  def f(x):
    v = level(x)
    if v == 0:
      return target
    if v > 0:
      d = abs(x - (a if g['dir'] == -1 else b)) / unit
      return target + (.02 + d if up == 'graded' else up)
    d = abs(x - (b if g['dir'] == -1 else a)) / unit
    return target - (.001 + min(d, 9) if dn == 'graded' else dn)
  del top, i
  e1, e2 = at(row['e1']), at(row['e2'])
  if row['disc']:
    e1, e2 = int(e1), int(e2)
  return f, level, (a, b), e1, e2, unit * row['tol'] / 4, target


def good(level, ends, direction, x, tol, exact=False):
  """The contract (operator Good of MCCalib) on real numbers."""
  if level(x) > 0:
    return False
  if level(x) == 0 and not exact:
    return True
  a, b = ends
  slack = tol * (1 + 1e-9) + 1e-12 * max(1, abs(x))
  return (x - a if direction == -1 else b - x) <= slack


def replay(c, rng, row):
  f, level, ends, e1, e2, tol, target = scenario(rng, row, 0)
  rec = Recorder(f)
  br = (mc.LowerEndpointAndGuess(e1, e2) if row['grown'] else
        mc.ExplicitBracketInterval(e1, e2))
  kw = dict(bracket_interval=br, discrete=row['disc'])
  if row['grown'] and (e1, e2) == (0, 1):
    kw.pop('bracket_interval')        # the default
  kw['tol'] = tol
  if row['disc'] and row['tol'] == 4:
    kw.pop('tol')                     # the default of discrete parameters
  got = observe(mc.calibrate_dp_mechanism, rec.accountant, rec.event, target,
                .125, **kw)
  info = lambda: dict(row=row, bracket=[e1, e2], tol=tol, ends=ends, got=got[1:],
                      around=[[x, f(x)] for x in rec.asked[-4:]])
  c.traces += 1
  if row['bracket']:
    if not c.expect(got[0] == 'ok', 'stub:answers', info):
      return
    x = got[1]
    c.expect(level(x) <= 0, 'stub:meets-target', info)
    c.expect(good(level, ends, row['g']['dir'], x, tol), 'stub:near-optimal',
             info)
    if row['disc']:
      c.expect(isinstance(x, int) and all(isinstance(y, int)
                                          for y in rec.asked),
               'stub:whole', info)
      on = 4 * (x - (e1 - row['e1'] // 4))
      c.expect(on in row['good'] or not 0 <= on <= 4 * row['n'],
               'stub:in-model', info)
  else:
    want = 'NoBracketIntervalFoundError' if row['grown'] else 'ValueError'
    c.expect(got[0] != 'ok' and got[1] == want, 'stub:refused', info)
  if not row['grown']:
    lo, hi = min(e1, e2), max(e1, e2)
    c.expect(all(lo <= y <= hi for y in rec.asked), 'stub:in-bracket', info)
  c.expect(rec.deltas <= {.125}, 'stub:delta', info)


def wide(c, rng, n):
  """Steep and flat functions over wide brackets."""
  for _ in range(n):
    t = rng.choice([rng.uniform(.01, 10), math.exp(rng.uniform(-5, 18)),
                    math.exp(rng.uniform(18, 28))])
    big = math.exp(rng.uniform(-5, 30))
    small = math.exp(rng.uniform(-9, 1))
    d = rng.choice([-1, 1])
    kind = rng.choice(['step', 'power', 'exp'])
    p = rng.choice([.5, 1, 2, 7])

    def h(x):                   # decreasing, crosses zero at t
      if kind == 'step':
        return big if x < t else -small
      if kind == 'power':
        return math.inf if x <= 0 else 5 * ((t / x) ** p - 1)
      y = max(-600.0, min(600.0, (t - x) * big / t))
      return math.expm1(y) if x < t else -small * -math.expm1(y)

    f = lambda x: 10 + (h(x) if d == -1 else (
        h(2 * t - x) if x < 2 * t else 1e6))
    level = lambda x: (f(x) > 10) - (f(x) < 10)
    tol = rng.choice([1e-6, 1e-3, t / 100, t / 3, 1e-17 * t])
    hi = math.exp(rng.uniform(math.log(t) + .1, 45 if d == -1 else
                              math.log(2 * t)))
    if rng.random() < .4:           # the boundary lies within tol of the end
      hi = t + tol * rng.uniform(.05, .9) if tol > 1e-12 * t else t * 1.001
    br = rng.choice([None if t < 1e9 else mc.ExplicitBracketInterval(0, hi),
                     mc.ExplicitBracketInterval(0, hi),
                     mc.ExplicitBracketInterval(hi, 0),
                     mc.LowerEndpointAndGuess(0, t / rng.uniform(.3, 300))])
    rec = Recorder(f)
    got = observe(mc.calibrate_dp_mechanism, rec.accountant, rec.event, 10.0,
                  1e-5, br, tol=tol)
    info = lambda: dict(kind=kind, t=t, big=big, small=small, p=p, dir=d,
                        tol=tol, bracket=str(br), got=got[1:],
                        calls=len(rec.asked))
    if not c.expect(got[0] == 'ok', 'wide:answers', info):
      continue
    x = got[1]
    c.expect(level(x) <= 0, 'wide:meets-target', info)
    if isinstance(br, mc.ExplicitBracketInterval):
      c.expect(0 <= x <= hi and all(0 <= y <= hi for y in rec.asked),
               'wide:in-bracket', info)
    far = x + d * (tol * (1 + 1e-6) + 1e-14 * abs(x))
    c.expect(level(x) == 0 or level(far) > 0 or x == hi, 'wide:near-optimal',
             info)


def wide_discrete(c, rng, n):
  for _ in range(n):
    d = rng.choice([-1, 1])
    t = rng.choice([rng.randint(1, 40), rng.randint(1, 10 ** 6)])
    up, dn = math.exp(rng.uniform(-5, 10)), math.exp(rng.uniform(-5, 2))
    graded = rng.random() < .5

    def f(x):
      ok = x >= t if d == -1 else x <= t
      if graded:
        return 10 + (-dn if ok else up) * min(1, (abs(x - t) + .5) / 20)
      return 10 - dn if ok else 10 + up
    rec = Recorder(f)
    br = rng.choice([None, mc.ExplicitBracketInterval(0, t + rng.randint(1, 10 ** 6)),
                     mc.LowerEndpointAndGuess(0, rng.randint(1, 50))])
    if d == 1 and br is not None and isinstance(br, mc.ExplicitBracketInterval):
      pass
    got = observe(mc.calibrate_dp_mechanism, rec.accountant, rec.event, 10.0,
                  1e-5, br, True, **rng.choice([{}, {}, dict(tol=.5),
                                                dict(tol=1), dict(tol=.1)]))
    info = lambda: dict(t=t, dir=d, up=up, dn=dn, graded=graded,
                        bracket=str(br), got=got[1:])
    if not c.expect(got[0] == 'ok', 'discrete:answers', info):
      continue
    x = got[1]
    c.expect(isinstance(x, int) and f(x) <= 10, 'discrete:meets-target', info)
    c.expect(abs(x - t) <= 1, 'discrete:near-optimal', info)


# ------------------------------------------------------------ real accountants
def real_cases(rng):
  delta = rng.choice([1e-6, 1e-5, 1e-3])
  rdp = lambda: rdp_privacy_accountant.RdpAccountant()
  pld = lambda: pld_privacy_accountant.PLDAccountant(
      value_discretization_interval=1e-2)
  q = rng.choice([.01, .1, .5])
  n = rng.choice([1, 4, 50])
  s = rng.uniform(.8, 4)
  g = dp_event.GaussianDpEvent
  out = [
      ('rdp gaussian noise', rdp, lambda x: dp_event.SelfComposedDpEvent(
          g(x), n), rng.uniform(.3, 8), None, False, 1e-4),
      ('rdp sampled gaussian noise', rdp, lambda x:
       dp_event.SelfComposedDpEvent(dp_event.PoissonSampledDpEvent(q, g(x)),
                                    n), rng.uniform(.3, 4), None, False, 1e-3),
      ('rdp sampled gaussian steps', rdp, lambda k:
       dp_event.SelfComposedDpEvent(dp_event.PoissonSampledDpEvent(q, g(s)),
                                    k) if k else dp_event.NoOpDpEvent(),
       rng.uniform(1, 9), mc.LowerEndpointAndGuess(0, 3), True, None),
      ('rdp laplace noise', rdp, lambda x: dp_event.SelfComposedDpEvent(
          dp_event.LaplaceDpEvent(x), n), rng.uniform(.3, 6),
       mc.LowerEndpointAndGuess(.05, 1), False, 1e-3),
      ('pld laplace noise', pld, lambda x: dp_event.SelfComposedDpEvent(
          dp_event.LaplaceDpEvent(x), min(n, 4)), rng.uniform(.3, 4),
       mc.ExplicitBracketInterval(.5, 60), False, 1e-2),
      ('pld sampling rate', pld, lambda x: dp_event.PoissonSampledDpEvent(
          x, g(s)), rng.uniform(.1, .6) / s,
       mc.ExplicitBracketInterval(1e-3, 1), False, 1e-3),
      ('rdp sampling rate', rdp, lambda x: dp_event.PoissonSampledDpEvent(
          x, g(s)), rng.uniform(.4, .6) / s + .2,
       mc.ExplicitBracketInterval(0, 1), False, 1e-3),
  ]
  return [o + (delta,) for o in out]


def real(c, rng, n):
  for _ in range(n):
    for name, acc, ev, eps, br, disc, tol, delta in real_cases(rng):
      loss = lambda x: acc().compose(ev(x)).get_epsilon(delta)
      kw = dict(bracket_interval=br, discrete=disc)
      if tol:
        kw['tol'] = tol
      got = observe(mc.calibrate_dp_mechanism, acc, ev, eps, delta, **kw)
      info = lambda: dict(case=name, epsilon=eps, delta=delta, got=got[1:])
      if got[0] != 'ok' and got[1] in ('ValueError',) and isinstance(
          br, mc.ExplicitBracketInterval):
        lo, hi = loss(br.endpoint_1), loss(br.endpoint_2)
        c.expect((lo - eps) * (hi - eps) > 0, 'real:refused', info)
        continue
      if not c.expect(got[0] == 'ok', 'real:answers', info):
        continue
      x = got[1]
      c.expect(loss(x) <= eps, 'real:meets-target', info)
      c.traces += 1
      t = (tol or 1) * (1 + 1e-9)
      worse = -1 if 'noise' in name else 1
      y = x + worse * t
      if disc:
        y = round(x + worse * 2)
      if br is not None and isinstance(br, mc.ExplicitBracketInterval) and not (
          br.endpoint_1 <= y <= br.endpoint_2):
        continue
      if y < 0 or ('noise' in name and y <= 0):
        continue
      c.expect(loss(y) > eps or loss(x) == eps, 'real:near-optimal', info)


def refusals(c):
  f = lambda x: 10 / (1 + abs(x))
  rec = Recorder(f)
  ok = lambda **kw: dict(dict(
      make_fresh_accountant=rec.accountant, make_event_from_param=rec.event,
      target_epsilon=1.0, target_delta=1e-5), **kw)
  used = Stub(rec).compose(ParamEvent(1.0))
  for what, kw, want in [
      ('negative epsilon', ok(target_epsilon=-.1), 'ValueError'),
      ('delta below 0', ok(target_delta=-1e-9), 'ValueError'),
      ('delta above 1', ok(target_delta=1.1), 'ValueError'),
      ('tol zero', ok(tol=0), 'ValueError'),
      ('tol negative', ok(tol=-1e-3), 'ValueError'),
      ('accountant not callable', ok(make_fresh_accountant=3), 'TypeError'),
      ('event not callable', ok(make_event_from_param=3), 'TypeError'),
      ('bracket unknown', ok(bracket_interval=(0, 5)), 'TypeError'),
      ('guess below', ok(bracket_interval=mc.LowerEndpointAndGuess(3, 2)),
       'ValueError'),
      ('used accountant', ok(make_fresh_accountant=lambda: used),
       'NonEmptyAccountantError'),
      ('target too small', ok(target_epsilon=0, make_event_from_param=(
          lambda x: ParamEvent(0.0))), 'NoBracketIntervalFoundError')]:
    got = observe(mc.calibrate_dp_mechanism, **kw)
    c.expect(got[0] != 'ok' and got[1] == want, 'refusal', lambda: dict(
        what=what, got=got[1:], want=want))


def body(prop):
  del prop

  def run(c):
    rng = random.Random(c.seed * 7919 + 11)
    n = c.pick(4, 5)
    r = c.tlc('MCCalib', CFG % (n, 'TRUE', c.pick('', 'PROPERTIES Halts\n')),
              timeout=800)
    rows = [dict(x, n=n) for x in r.rows]
    seen, uniq = set(), []
    for x in rows:
      k = repr(sorted(x.items(), key=lambda kv: kv[0]))
      if k not in seen:
        seen.add(k)
        uniq.append(x)
    for _ in range(c.pick(1, 3)):
      for row in uniq:
        replay(c, rng, row)
    wide(c, rng, c.pick(1500, 20000))
    wide_discrete(c, rng, c.pick(800, 10000))
    real(c, rng, c.pick(2, 12))
    refusals(c)
    c.assumptions += ['the privacy loss is monotone in the parameter',
                      'a target that is met exactly counts as optimal (an '
                      'existing test fixes this)']
  return run
