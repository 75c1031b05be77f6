"""C01-C04: accountants and ledgers as state machines (spec/Ledger.tla)."""
import copy
import math
import random
import numpy as np
from harness import vlib
from harness.vlib import observe
from harness import events as ev
from dp_accounting import dp_event as de
from dp_accounting import dp_event_builder
from dp_accounting import privacy_accountant as pa

KINDS = [(a, r) for a in ('RDP', 'PLD') for r in ev.REL]

MC_CFG = '''SPECIFICATION MCSpec
CONSTANTS Depth = %d
 Level = "%s"
 EmitRows = %s
INVARIANTS LedgerFaithful HistoryFaithful LedgerNormal LedgerSupported OrderFree Emitted
PROPERTIES Monotone RefusedInert
CHECK_DEADLOCK FALSE
'''


def broken(t):
  """Broken of Events.tla."""
  return (t.get('w', 0) < 0 or 'bad' in (t.get('p'), t.get('q'))
          or any(broken(x) for x in t.get('es', ()))
          or ('e' in t and broken(t['e'])))


def verdict(acc, term, n, variant):
  """Composes on the real accountant; returns the recorded verdict."""
  e = ev.to_event(term, variant)
  sup = observe(acc.supports, e)
  got = observe(acc.compose, e, n)
  if got[0] == 'ok':
    v = 'ok' if got[1] is acc else 'error:NotSelf'
  elif got[1] == 'UnsupportedEventError':
    v = 'unsupported'
  elif broken(term):
    v = 'failed'
  elif n < 1 and got[1] == 'ValueError':
    v = 'invalid'
  else:
    v = 'error:%s %s' % (got[1], got[2])
  s = sup[1] if sup[0] == 'ok' else 'error:%s' % sup[1]
  return v, s


def same(x, y):
  return len(x) == len(y) and all(vlib.close(p, q, 1e-12, 1e-15)
                                  for p, q in zip(x, y))


def np_of(ans):
  nd = len(ev.DELTA_POINTS)
  eps_inf = all(math.isinf(x) for x in ans[:nd])
  d_one = all(x == 1 for x in ans[nd:])
  eps_fin = not any(math.isinf(x) or math.isnan(x) for x in ans)
  if eps_inf and d_one:
    return 'yes'
  return 'no' if eps_fin else 'mixed'


def grew(a, b):
  """Did every answer stay or grow (allowing discretization noise)?"""
  return all(y >= x - 1e-9 * (1 + abs(x)) if not math.isinf(x)
             else math.isinf(y) for x, y in zip(a, b))


def record_run(a, r, ops, variant=0):
  """Executes operations on a fresh real accountant and records each step."""
  acc = ev.new_accountant(a, r)
  ans = ev.answers(acc)
  steps = []
  for j, (t, n) in enumerate(ops):
    v, sup = verdict(acc, t, n, variant + 4 * j if variant >= 6 else variant)
    if not isinstance(sup, bool):
      # supports() must be total; an exception is recorded as a wrong answer
      sup = 'raised'
    got = observe(ev.answers, acc)
    led = observe(lambda: acc.ledger)
    if got[0] != 'ok':
      new = [math.nan] * len(ans)
    else:
      new = got[1]
    steps.append({
        'e': t, 'n': n, 'v': v,
        'sup': sup if isinstance(sup, bool) else False, 'supx': str(sup),
        'led': ev.to_term(led[1]) if led[0] == 'ok' else {'k': '?err'},
        'np': np_of(new), 'mono': grew(ans, new), 'same': same(ans, new),
    })
    if sup == 'raised':
      steps[-1]['v'] = 'error:supports() raised'
    ans = new
  return acc, steps


# ---------------------------------------------------------------- generators
def rand_term(rng, depth, a):
  leafs = [
      {'k': 'noop'}, {'k': 'gauss', 'w': 1}, {'k': 'gauss', 'w': 4},
      {'k': 'lap', 'p': 'a'}, {'k': 'rr', 'p': 'a'}, {'k': 'rr', 'p': 'id'},
      {'k': 'mog', 'p': 'a'}, {'k': 'mog', 'p': 'id'}, {'k': 'tree', 'p': 'a'},
  ]
  rare = [{'k': 'nonpriv'}, {'k': 'unsup'}, {'k': 'gauss', 'w': 0},
          {'k': 'lap', 'p': '0'}, {'k': 'rr', 'p': '0'}, {'k': 'mog', 'p': '0'},
          {'k': 'tree', 'p': '0'}]
  if depth == 0 or rng.random() < .3:
    return rng.choice(rare) if rng.random() < .12 else rng.choice(leafs)
  x = rng.random()
  sub = lambda: rand_term(rng, depth - 1, a)
  if x < .3:
    return {'k': 'self', 'e': sub(), 'n': rng.choice([1, 2, 2, 3])}
  if x < .6:
    return {'k': 'comp', 'es': [sub() for _ in range(rng.choice([0, 1, 2, 2, 3]))]}
  def gnest(d):
    y = rng.random()
    if d == 0 or y < .4:
      return {'k': 'gauss', 'w': rng.choice([1, 1, 4, 4, 0] if y < .03 else [1, 4])}
    if y < .7:
      return {'k': 'self', 'e': gnest(d - 1), 'n': rng.choice([1, 2, 3])}
    return {'k': 'comp', 'es': [gnest(d - 1) for _ in range(rng.choice([1, 2, 3]))]}
  inner = sub() if rng.random() < .25 else (
      gnest(2) if a == 'RDP' else rng.choice(
          [{'k': 'gauss', 'w': 1}, {'k': 'gauss', 'w': 4}, {'k': 'lap', 'p': 'a'}]))
  if x < .75:
    return {'k': 'poisson', 'q': rng.choice(['h', 'h', 'h', '1', '0']), 'e': inner}
  if x < .87:
    return {'k': 'swor', 'q': rng.choice(['h', 'h', '1', '0']), 'e': inner}
  if x < .9:
    return {'k': 'swr', 'q': 'h', 'e': inner}
  return {'k': 'rns', 'p': rng.choice(['g', 'p', 'l', 't']), 'e': sub()}


def size(t):
  k = t['k']
  if k == 'self':
    return max(1, t['n']) * size(t['e'])
  if k == 'comp':
    return sum(size(x) for x in t['es'])
  if k in ('poisson', 'swor', 'rns', 'swr'):
    return size(t['e'])
  return t.get('w', 1) if k == 'gauss' else 1


def enlarge(rng, t):
  """The same event with larger counts here and there."""
  t = dict(t)
  if 'e' in t:
    t['e'] = enlarge(rng, t['e'])
  if 'es' in t:
    t['es'] = [enlarge(rng, x) for x in t['es']]
  if t['k'] == 'self' and t['n'] > 1 and rng.random() < .4:
    t['n'] = rng.choice([10, 50, 99, 200, 5000])
  return t


def random_runs(rng, n_runs, n_steps, worlds=False):
  """Recorded histories; with `worlds` each with parameters of its own."""
  runs = []
  for j in range(n_runs):
    a, r = KINDS[j % len(KINDS)]
    world = ev.draw_world(rng, a) if worlds else None
    ev.use(world)
    most = 60 if not worlds else 10**7 if a == 'RDP' else (
        30 * max(1, round(ev.UNIT['H'] / .0004)))
    ops, total, pool = [], 0, []
    while len(ops) < n_steps:
      if pool and rng.random() < .3:
        t = rng.choice(pool)        # repeats exercise merging
      elif ops and rng.random() < .2:
        t = ops[-1][0]
      else:
        t = rand_term(rng, rng.choice([0, 1, 1, 2, 3]), a)
      if rng.random() < .06:
        b = rng.choice([{'k': 'gauss', 'w': -1}, {'k': 'lap', 'p': 'bad'},
                        {'k': 'poisson', 'q': 'bad', 'e': {'k': 'gauss', 'w': 1}},
                        {'k': 'rns', 'p': 'bad', 'e': {'k': 'gauss', 'w': 1}}])
        t = rng.choice([b, {'k': 'comp', 'es': [t, b]},
                        {'k': 'self', 'n': 2, 'e': {'k': 'comp', 'es': [t, b, t]}}])
      n = rng.choice([1, 1, 2, 3] + ([0, -1] if rng.random() < .15 else []))
      if worlds and n > 0 and rng.random() < .3:
        n = rng.choice([10, 97, 101, 1000, 20000])
      if worlds:
        t = enlarge(rng, t)
      if total + size(t) * max(n, 0) > most:
        continue
      total += size(t) * max(n, 0)
      pool.append(t)
      ops.append((t, n))
    variant = rng.randrange(12)
    acc, steps = record_run(a, r, ops, variant)
    runs.append({'a': a, 'r': r, 'steps': steps, 'variant': variant,
                 'world': world})
  ev.use(None)
  return runs


def long_runs(rng, n):
  """Every kind of event, composed many times in one way or another."""
  g = {'k': 'gauss', 'w': 1}
  nest = lambda n: {'k': 'self', 'e': {'k': 'comp', 'es': [g, g]}, 'n': n}
  leafs = [g, {'k': 'lap', 'p': 'a'}, {'k': 'rr', 'p': 'a'},
           {'k': 'mog', 'p': 'a'}, {'k': 'tree', 'p': 'a'}]
  leafs += [{'k': 'poisson', 'q': q, 'e': e} for q in 'h1'
            for e in leafs[:2] + [nest(99), {'k': 'self', 'e': g, 'n': 5000}]]
  leafs += [{'k': 'swor', 'q': q, 'e': e} for q in 'h1' for e in (g, nest(77))]
  leafs += [{'k': 'rns', 'p': p, 'e': e} for p in 'gplt' for e in leafs[:2]]
  runs = []
  for a, r in KINDS:
    for e in leafs:
      for j in range(n):
        world = ev.draw_world(rng, a) if j else copy.deepcopy(ev.START)
        world['UNIT']['H'] = .01
        ev.use(world)
        if not ev.new_accountant(a, r).supports(ev.to_event(e)):
          continue
        top = 200 if a == 'PLD' else 2 * 10**5
        if a == 'PLD' and j % 2 == 0:      # with noise to match
          top = 10**rng.choice([4, 5])
          world['UNIT'].update(sigma=top**.5 * rng.uniform(.7, 3), H=.01)
          world['LAP']['a'] = top**.5 * rng.uniform(.7, 3)
          world['RR']['a'] = (1 - rng.uniform(.1, 1) / top**.5, 3)
          world['MOG']['a'] = (top**.5 * rng.uniform(.7, 3), (0.0, 1.0),
                               (.5, .5))
          ev.use(world)
        ops = [(e, rng.randint(top // 2, top)),
               ({'k': 'self', 'e': e, 'n': rng.randint(top // 2, top)}, 1)]
        acc, steps = record_run(a, r, ops[rng.randrange(2):])
        runs.append({'a': a, 'r': r, 'steps': steps, 'variant': 0,
                     'world': world})
  ev.use(None)
  return runs


CLAUSES = {
    'C01': {'ledger'},
    'C02': {'verdict', 'supports', 'inert'},
    'C03': set(),
    'C04': {'nonprivate', 'monotone', 'free'},
}


def model_check(c, level, depth, emit):
  r = c.tlc('MCLedger', MC_CFG % (depth, level, 'TRUE' if emit else 'FALSE'),
            coverage=False, timeout=700, workers=1 if emit else 'auto')
  return r.rows


def trace_validate(c, prop, runs):
  data = [{'a': x['a'], 'r': x['r'], 'steps': x['steps']} for x in runs]
  r = c.tlc('TraceLedger',
            'SPECIFICATION TraceSpec\nPOSTCONDITION Consumed\n'
            'CHECK_DEADLOCK FALSE\n', data={'runs.json': data, 'total.json': {
                'n': sum(len(x['steps']) + 1 for x in runs)}}, workers=1,
            timeout=600)
  c.traces += len(runs)
  nsteps = sum(len(x['steps']) for x in runs)
  for cl in CLAUSES[prop]:
    c.ok('trace:' + cl, nsteps)
  for b in r.bad:
    run = runs[b['t'] - 1]
    step = run['steps'][b['i'] - 1]
    for cl in b['clauses']:
      if cl in CLAUSES[prop]:
        c.violation('trace:' + cl, {
            'accountant': run['a'], 'relation': run['r'],
            'history': [(s['e'], s['n'], s['v'])
                        for s in run['steps'][:b['i']]],
            'recorded': step, 'specified': b, 'variant': run['variant'],
            'parameters': run.get('world')},
                    key='%s/%s/%s' % (run['a'], run['r'],
                                      [(s['e'], s['n'])
                                       for s in run['steps'][:b['i']]]))
  return len(r.bad)


def rows_to_runs(rows, variants=(0,)):
  """Replays specification behaviours on the real accountants."""
  runs = []
  for j, row in enumerate(rows):
    ops = [(x['e'], x['n']) for x in row['log']]
    variant = variants[j % len(variants)]
    acc, steps = record_run(row['a'], row['r'], ops, variant)
    runs.append({'a': row['a'], 'r': row['r'], 'steps': steps,
                 'variant': variant, 'acc': acc, 'row': row})
  return runs


def as_list(x):
  return x if isinstance(x, list) else []


def chunks(t, n):
  """How many discretized Gaussians an event may become."""
  k = t['k']
  if k == 'gauss':
    return 1
  if k == 'self':
    return chunks(t['e'], n * t['n'])
  if k == 'comp':
    return sum(chunks(x, n) for x in t['es'])
  return n if k == 'poisson' and t['q'] == '1' else 0


def cost_check(c, run, evals):
  """C03: answers equal the canonical evaluation of the symbolic cost."""
  row, acc, a, r = run['row'], run['acc'], run['a'], run['r']
  cost = [{'a': x['a'], 'n': x['n']} for x in as_list(row['c'])]
  ce = evals.setdefault((a, r, id(run.get('world'))), ev.CostEval(a, r))
  hist = [(x['e'], x['n'], x['v']) for x in row['log']]
  det = lambda **kw: dict(accountant=a, relation=r, history=hist, cost=cost,
                          variant=run['variant'],
                          parameters=run.get('world'), **kw)
  key = '%s/%s/%s/%d' % (a, r, hist, run['variant'])
  if row['np']:
    got = observe(acc.get_epsilon, 1e-3)
    c.expect(got[0] == 'ok' and math.isinf(got[1]), 'cost:nonprivate',
             lambda: det(got=got), key)
    return
  if a == 'RDP':
    want = ce.rdp(cost)
    # the parameter of truncated negative binomials is searched for
    tol = 1e-6 if 'rns' in repr(cost) else 1e-9
    got = observe(lambda: np.array(acc.rdp, dtype=float))
    good = (got[0] == 'ok' and got[1].shape == want.shape and
            all(vlib.close(float(x), float(y), tol, 1e-12)
                for x, y in zip(got[1], want)))
    c.expect(good, 'cost:rdp', lambda: det(
        got=[float(x) for x in got[1]] if got[0] == 'ok' else got,
        want=[float(x) for x in want]), key)
    def scribble():
      answers = ev.answers(acc)
      for x in (acc.rdp, acc.orders):
        x += 1
      return same(answers, ev.answers(acc))
    c.expect(observe(scribble) == ('ok', True), 'cost:answers-are-copies',
             det, key)
  else:
    # Gaussians may be merged before or after they are discretized; each of
    # those discretizations spreads the loss by at most a quarter cell squared.
    h = ev.UNIT['H']
    spread = h * h / 4 * sum(
        chunks(t, n) for t, n, v in hist if v == 'ok') if any(
            x['a']['k'] == 'gauss' for x in cost) else 0.0
    at = lambda p: [float(p.get_delta_for_epsilon(e)) for e in ev.EPS_POINTS]
    def want(extra):
      k = ('answers', repr(cost), extra)
      if k not in ce.cache:
        ce.cache[k] = at(ce.pld(cost, extra))
      return ce.cache[k]
    def said(extra):
      o = acc
      if extra:
        o = copy.deepcopy(acc).compose(de.GaussianDpEvent(extra ** -.5))
      return [float(o.get_delta(e)) for e in ev.EPS_POINTS]
    # composing truncates up to 1e-15 each time
    lost = 1e-11 + 2e-15 * sum(x['n'] for x in cost)
    leq = lambda xs, ys: all(x <= y * (1 + 1e-6) + lost
                             for x, y in zip(xs, ys))
    got = observe(said, 0.0)
    good = got[0] == 'ok' and (
        leq(got[1], want(0.0)) or leq(got[1], want(spread))) and (
            leq(want(0.0), got[1]) or leq(want(0.0), said(spread)))
    c.expect(good, 'cost:pld', lambda: det(
        got=got, want=want(0.0), with_spread=want(spread), spread=spread), key)
  # the ledger, accounted for by a fresh accountant, tells the same story
  if run['a'] == 'RDP':
    fresh = ev.new_accountant(a, r)
    g = observe(lambda: fresh.compose(acc.ledger).rdp)
    c.expect(g[0] == 'ok' and all(
        vlib.close(float(x), float(y), 1e-9, 1e-12)
        for x, y in zip(g[1], acc.rdp)), 'cost:ledger-replay',
             lambda: det(got=str(g), ledger=str(acc.ledger)), key)


def builder_check(c, rows):
  """The DpEventBuilder on its own follows the same ledger."""
  for row in rows:
    b = dp_event_builder.DpEventBuilder()
    for j, x in enumerate(row['log']):
      if x['v'] in ('unsupported', 'failed'):
        continue
      got = observe(b.compose, ev.to_event(x['e']), x['n'])
      good = (got[0] == 'ok') == (x['v'] == 'ok')
      c.expect(good, 'builder:verdict', lambda: dict(op=x, got=str(got)))
      if j % 2 == 0:
        observe(b.build)     # building early must not freeze the builder
    led = observe(lambda: ev.to_term(b.build()))
    c.expect(led == ('ok', row['led']), 'builder:ledger',
             lambda: dict(history=row['log'], got=led, want=row['led']))


def type_checks(c):
  """Things that are not events or not counts are refused without a trace."""
  for a, r in KINDS:
    acc = ev.new_accountant(a, r)
    acc.compose(de.GaussianDpEvent(1.0))
    before = (ev.answers(acc), acc.ledger)
    for bad in (None, 3, 'gauss', de.GaussianDpEvent, [de.NoOpDpEvent()]):
      got = observe(acc.compose, bad)
      c.expect(got[0] == 'err' and got[1] == 'TypeError', 'types:event',
               lambda: dict(a=a, r=r, bad=str(bad), got=str(got)))
    for n in (0, -1, 1.5, '2', None):
      got = observe(acc.compose, de.GaussianDpEvent(1.0), n)
      c.expect(got[0] == 'err', 'types:count',
               lambda: dict(a=a, r=r, n=str(n), got=str(got)))
    c.expect((ev.answers(acc), acc.ledger) == before, 'types:inert',
             lambda: dict(a=a, r=r))

    class Strange(de.DpEvent):
      """An event type no accountant knows."""

    for e in (Strange(), de.ComposedDpEvent([de.GaussianDpEvent(1.), Strange()]),
              de.SelfComposedDpEvent(Strange(), 2),
              de.PoissonSampledDpEvent(.5, Strange())):
      got = observe(acc.compose, e)
      c.expect(got[0] == 'err' and got[1] == 'UnsupportedEventError' and
               not acc.supports(e), 'types:unknown',
               lambda: dict(a=a, r=r, e=str(e), got=str(got)))
    c.expect((ev.answers(acc), acc.ledger) == before, 'types:inert',
             lambda: dict(a=a, r=r))


def subsample(rows, n, rng):
  rows = sorted(rows, key=lambda x: vlib.json.dumps(x, sort_keys=True))
  if len(rows) <= n:
    return rows
  return rng.sample(rows, n)


def body(prop):
  def run(c):
    rng = random.Random(c.seed * 7919 + int(prop[1:]))
    ev.quicken()
    # 1. The design: exhaustive model checking.
    core = model_check(c, 'core', 2, True)
    wide = model_check(c, 'wide', 1, True)
    deep = []
    if c.thorough:
      model_check(c, 'core', 3, False)
    deep_rows = c.tlc('MCLedger', MC_CFG % (4, 'core', 'TRUE'), workers=1,
                      simulate=c.pick(400, 4000), depth=6, count=False).rows
    c.extra['spec_behaviours'] = len(core) + len(wide) + len(deep_rows)
    # 2. Replays of specification behaviours on the code.
    nq = c.pick(1, 6)
    if prop == 'C02':
      sel = wide if c.thorough else subsample(wide, 12000, rng)
      sel = subsample(core, 1500 * nq, rng) + sel + deep_rows[:200 * nq]
    elif prop == 'C03':
      acc_rows = [x for x in wide if x['log'][-1]['v'] == 'ok']
      sel = (subsample([x for x in core if any(
          y['v'] == 'ok' for y in x['log'])], 1500 * nq, rng)
             + subsample(acc_rows, 4000 * nq, rng) + deep_rows[:400 * nq])
    else:
      sel = (subsample(core, 2500 * nq, rng) + subsample(wide, 1500 * nq, rng)
             + deep_rows[:400 * nq])
    runs = rows_to_runs(sel, variants=(0, 1, 2, 3, 4, 5))
    for x in runs:
      c.distinct.add(vlib.json.dumps([x['a'], x['r'], x['row']['log']]))
    c.sample({'spec_behaviour': sel[0]})
    c.sample({'spec_behaviour': sel[-1]})
    evals = {}
    if prop == 'C03':
      for x in runs:
        cost_check(c, x, evals)
      c.traces += len(runs)
    else:
      trace_validate(c, prop, runs)
    if prop == 'C01':
      builder_check(c, core[:4000 * nq] + deep_rows)
    if prop == 'C02':
      type_checks(c)
    # 3. Recorded random histories against the specification.
    rr = random_runs(rng, c.pick(90, 900), 14)
    rr += random_runs(rng, c.pick(60, 900), 8, True)
    rr += long_runs(rng, c.pick(2, 8))
    c.sample({'recorded_run': {k: rr[0][k] for k in ('a', 'r')},
              'first_steps': rr[0]['steps'][:3]})
    if prop != 'C03':
      trace_validate(c, prop, rr)
    else:
      # let the specification compute the cost of the recorded histories
      rows = c.tlc('CostLedger',
                   'SPECIFICATION TraceSpec\nINVARIANT Emitted\n'
                   'CHECK_DEADLOCK FALSE\n',
                   data={'runs.json': [{'a': x['a'], 'r': x['r'],
                                        'steps': x['steps']} for x in rr]},
                   workers=1).rows
      for row in rows:
        x = rr[row['t'] - 1]
        ops = [(s['e'], s['n']) for s in x['steps']]
        ev.use(x['world'])
        acc, _ = record_run(x['a'], x['r'], ops, x['variant'])
        cost_check(c, {'row': row, 'acc': acc, 'a': x['a'], 'r': x['r'],
                       'variant': x['variant'], 'world': x['world']}, evals)
      ev.use(None)
      c.traces += len(rows)
    c.assumptions += [
        'event parameters are those of the tables of harness/events.py, redrawn '
        'at random for part of the recorded histories',
        'symbolic costs are evaluated with the accountants own single-event '
        'values (their correctness is C05/C10)']
  return run
