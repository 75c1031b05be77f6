"""C22-C24: the Go library against GoAgg, GoPartition and GoNoise."""
from fractions import Fraction
import math

from harness import gorun

NAN, INF = 100000, 200000


def _value(v):
  return {NAN: 'nan', INF: 'inf', -INF: '-inf'}.get(v, v)


KINDS = ('count', 'sumi', 'sumf', 'mean', 'var', 'std', 'quant', 'part')


def _cases():
  """Parameters of the histories: base options, and a variant of them."""
  out = []

  def case(kind, base, variants, adds):
    for name, change in variants:
      b = dict(eps=1.5, delta=0, noise='L', l0=2, mcpp=1, lower=0, upper=0,
               height=0, branch=0, pre=0)
      b.update(base)
      if b['noise'] == 'G' and not b['delta']:
        b['delta'] = 2.0 ** -10
      v = dict(b)
      v.update(change)
      out.append((kind, b, v, name, adds))

  gauss = ('noise', dict(noise='G', delta=2.0 ** -10))
  common = [('eps', dict(eps=1.25)), ('l0', dict(l0=3)), gauss]
  gcommon = [('delta', dict(delta=2.0 ** -11)), ('eps', dict(eps=2))]
  case('count', {}, common, [1, 3, -1])
  case('count', dict(noise='G', l0=1), gcommon, [1, 3, -1])
  case('part', dict(eps=30, delta=.5, l0=1, pre=0, noise=''),
       [('eps', dict(eps=31)), ('delta', dict(delta=.25)), ('l0', dict(l0=2)),
        ('pre', dict(pre=3))], [1, 2])
  case('part', dict(eps=40, delta=.5, l0=2, pre=4, noise=''),
       [('eps', dict(eps=31)), ('pre', dict(pre=3))], [1, 2, 5])
  for kind in ('sumi', 'sumf'):
    nan = [NAN] if kind == 'sumf' else []
    case(kind, dict(lower=-2, upper=6),
         common + [('lower', dict(lower=-4)), ('upper', dict(upper=7))],
         [-5, 1, 4, 9, INF, -INF] + nan)
    case(kind, dict(lower=1, upper=5, noise='G'),
         gcommon + [('lower', dict(lower=2))], [-5, 1, 4, 9, -INF] + nan)
    case(kind, dict(lower=-7, upper=-1), [('upper', dict(upper=-2))],
         [-5, -9, 4, INF] + nan)
    case(kind, dict(lower=-3, upper=0), [('eps', dict(eps=3))], [-5, -1, 4])
    case(kind, dict(lower=3, upper=3), [('eps', dict(eps=3))], [-5, 3, 4])
  for kind in ('mean', 'var', 'std'):
    case(kind, dict(lower=-2, upper=6, mcpp=2),
         common + [('mcpp', dict(mcpp=3)), ('lower', dict(lower=-4)),
                   ('upper', dict(upper=8))], [-5, 1, 4, 9, INF, -INF, NAN])
    case(kind, dict(lower=1, upper=5, noise='G'),
         gcommon + [('bounds', dict(lower=0, upper=4))], [0, 2, 3, 8, NAN])
    case(kind, dict(lower=-12, upper=-2, mcpp=1), [('eps', dict(eps=3))],
         [-5, -11, -2, -20])
  case('quant', dict(lower=0, upper=16, mcpp=2, height=2, branch=2),
       common + [('mcpp', dict(mcpp=3)), ('lower', dict(lower=-16)),
                 ('upper', dict(upper=32)), ('shape', dict(
                     height=1, branch=4, l0=4))],
       [-5, 0, 3, 4, 7, 12, 16, 40, NAN])
  case('quant', dict(lower=-8, upper=8, height=3, branch=2, noise='G'),
       gcommon, [-9, -5, 1, 2, 3, 7, INF, NAN])
  case('quant', dict(lower=4, upper=8, height=1, branch=4, mcpp=1),
       [('eps', dict(eps=3)), ('branch', dict(branch=8))], [4, 5, 6, 7, 8])
  return out


def _spec_case(kind, b, adds):
  hard = 100
  if kind == 'part':
    hard = {1: 2, 2: 3}.get(b['l0'], 100)
  return dict(kind=kind, l=b['lower'], u=b['upper'],
              l0=b['l0'] * (b['height'] or 1), mcpp=b['mcpp'],
              h=b['height'] or 1, b=b['branch'] or 2, pre=b['pre'] or 1,
              hard=hard, adds=adds)


def _opts(b):
  return dict(b)


def _job(kind, base, variant, hist):
  ops = []
  for e in hist:
    o = dict(op=e['op'], o=e['o'] - 1)
    if e['op'] in ('merge', 'copy'):
      o['p'] = e['p'] - 1
    elif e['op'] == 'add':
      o['v'] = _value(e['v'])
    elif e['op'] == 'res':
      o.update(offi=e['oi'], offf=e['of'], v=e['v'] / 200)
    elif e['op'] == 'thr':
      o.update(offi=e['oi'], offf=e['of'], thr=e['v'] / 2, td=2.0 ** -8,
               pre=e['pre'])
    elif e['op'] == 'ci':
      o.update(width=e['v'], td=2.0 ** -4)
    ops.append(o)
  return dict(job='script', kind=kind, ops=ops,
              objs=[_opts(base), _opts(base), _opts(variant)])


def _near(x, y, tol=1e-11):
  x, y = gorun.number(x), float(y)
  if math.isnan(x) or math.isnan(y) or math.isinf(x):
    return False
  return abs(x - y) <= tol * max(1.0, abs(y))


def _same_calls(got, want, base):
  """The noise calls made against those expected, in any order."""
  got = [[gorun.number(z) for z in g] for g in got if g[0] in (0, 1)]
  if len(got) != len(want):
    return False
  left = list(got)
  for w in want:
    exp = [w[0], w[1], w[2], w[3], base['eps'] * w[4] / w[5],
           base['delta'] * w[4] / w[5]]
    for g in left:
      if all(_near(x, y) for x, y in zip(g, exp)):
        left.remove(g)
        break
    else:
      return False
  return True


def _fraction(f, base, kind):
  x = Fraction(f[0], f[1])
  if kind == 'quant':
    x = base['lower'] + (base['upper'] - base['lower']) * x
  return x


def _judge(c, kind, base, hist, out, run_key):
  """One history replayed: clause and message of the first deviation."""
  if out is None or len(out) != len(hist):
    msg = 'no answer' if out is None else out[-1].get('err', '')
    c.violation('go-replay', '%s: the history did not run: %s' % (
        run_key, msg))
    return False
  seen = {}
  for i, (e, r) in enumerate(zip(hist, out)):
    where = '%s step %d of %s' % (run_key, i + 1, ' '.join(
        '%s(%d%s)' % (x['op'], x['o'], ',%d' % x['p'] if x['p'] else '')
        for x in hist[:i + 1]))
    if not c.expect(bool(r['ok']) == bool(e['ok']), 'go-lifecycle',
                    '%s: %s, expected %s' % (
                        where, 'done' if r['ok'] else 'refused: ' + r.get(
                            'err', ''), 'done' if e['ok'] else 'refused')):
      return False
    calls = r['calls'] or []
    if not e['ok']:
      if not c.expect(not [x for x in calls if x[0] in (0, 1)],
                      'go-lifecycle',
                      '%s: refused, but noise was drawn' % where):
        return False
      continue
    if e['op'] not in ('res', 'thr', 'ci') or e['grp'] != 1:
      continue
    vals = r['vals'] or []
    if e['op'] == 'ci':
      alpha = 2.0 ** -4
      good = len(vals) == 2 and all(
          _near(x, Fraction(*y)) for x, y in zip(vals, e['vals']))
      if not c.expect(good, 'go-interval', '%s: interval %s, expected %s' % (
          where, vals, e['vals'])):
        return False
      ci = [[gorun.number(z) for z in x] for x in calls if x[0] in (3, 4)]
      want = {w[0] + 3: w for w in e['calls']}
      good = bool(ci)
      for x in ci:
        w = want.get(x[0])
        good = good and w is not None and _near(x[2], w[2]) and _near(
            x[3], w[3]) and _near(x[4], base['eps'] * w[4] / w[5]) and _near(
                x[5], base['delta'] * w[4] / w[5])
        good = good and _near(x[1], w[1] + e['ret'][int(x[0]) - 3])
      if kind == 'mean':
        dens = [x[6] for x in ci if x[0] == 3]
        nums = [x[6] for x in ci if x[0] == 4]
        good = good and len(dens) == len(nums) and all(
            0 < a < 1 and 0 < b < 1
            and (1 - a) * (1 - b) >= 1 - alpha - 1e-12
            for a, b in zip(nums, dens))
      else:
        good = good and all(x[6] == alpha for x in ci)
      if not c.expect(good, 'go-interval',
                      '%s: the noise was asked for %s' % (where, ci[:3])):
        return False
      continue
    if kind != 'part':
      if kind == 'quant':
        good = all(x[0] == 1 and _near(x[2], base['height'] * base['l0'])
                   and _near(x[3], base['mcpp']) and _near(x[4], base['eps'])
                   and _near(x[5], base['delta'])
                   for x in ([gorun.number(z) for z in y] for y in calls))
        n = sum(base['branch'] ** k for k in range(1, base['height'] + 1))
        # a later answer uses the noise drawn before
        before = seen.get(e['o'], 0) if i and any(
            x['op'] == 'res' and x['o'] == e['o'] and x['ok']
            for x in hist[:i]) else 0
        if e['op'] == 'res':
          last = [x for x in hist[:i] if x['o'] == e['o'] or x['p'] == e['o']]
          fresh = not last or last[-1]['op'] != 'res'
          before = 0 if fresh else before
          seen[e['o']] = before + len(calls)
          good = good and seen[e['o']] <= n
      else:
        good = _same_calls(calls, e['calls'], base)
        if e['op'] == 'thr':
          asked = [[gorun.number(z) for z in x] for x in calls if x[0] == 2]
          w = e['calls'][0]
          good = good and len(asked) == 1 and asked[0][1] == 2.0 ** -8 and all(
              _near(x, y) for x, y in zip(
                  asked[0][2:], [w[2], w[3], base['eps'], base['delta']]))
      if not c.expect(good, 'go-noise-input',
                      '%s: the noise was given %s, expected %s' % (
                          where, calls[:4], e['calls'])):
        return False
    if kind == 'part' and not e['vals']:
      continue
    want = [_fraction(f, base, kind) for f in e['vals']]
    if kind == 'var' and len(vals) == 1:
      want = want[:1]
    if kind == 'std':
      want = [math.sqrt(w) for w in want]
    good = len(vals) == len(want) and all(
        _near(x, y, 1e-9) for x, y in zip(vals, want))
    if not c.expect(good, 'go-result', '%s: result %s, expected %s' % (
        where, vals, [float(w) for w in want])):
      return False
  return True


def lifecycle(c, run):
  cases = _cases()
  data = [_spec_case(k, b, adds) for k, b, _, _, adds in cases]
  depth = c.pick(9, 14)
  r = c.tlc('MCGoAgg', 'SPECIFICATION Spec\nCONSTANT Depth = %d\n'
            'INVARIANT Once\nINVARIANT Consumed\n' % depth,
            data={'cases.json': data}, simulate=c.pick(5000, 60000),
            depth=depth + 2, timeout=c.pick(300, 1500))
  rows, jobs = [], []
  for row in r.rows:
    kind, base, variant, name, _ = cases[row['case'] - 1]
    rows.append((kind, base, name, row['hist']))
    jobs.append(_job(kind, base, variant, row['hist']))
  outs = run(jobs)
  bad = 0
  for (kind, base, name, hist), out in zip(rows, outs):
    c.traces += 1
    c.distinct.add((kind, name, tuple(e['op'] for e in hist)))
    if not _judge(c, kind, base, hist, out, '%s/%s' % (kind, name)):
      bad += 1
      if bad > 20:
        break
  if rows:
    c.sample('%s: %s' % (rows[0][0], ' '.join(e['op'] for e in rows[0][3])))


CLASS = {'neg': -1.0, 'zero': 0.0, 'tiny': 2.0 ** -51, 'ok': 0.5, 'one': 1.0,
         'inf': 'inf', 'nan': 'nan'}


def accept(c, run):
  jobs, want = [], []
  for kind in KINDS:
    r = c.tlc('MCGoAccept', 'SPECIFICATION Spec\nCONSTANT Kind = "%s"\n' % kind)
    for row in r.rows:
      p = row['p']
      if row['open']:
        continue
      lo, up = {'lt': (1, 3), 'eq': (3, 3), 'gt': (4, 2), 'zero': (0, 0),
                'un': (1, 3)}[p['rel']]
      lo = lo if p['lo'] == 'fin' else p['lo']
      up = up if p['up'] == 'fin' else p['up']
      if kind == 'sumi' and not (p['lo'] == 'fin' and p['up'] == 'fin'):
        if p['lo'] != '-inf':
          continue
        lo, up = 'minint', 3
      jobs.append(dict(job='accept', kind=kind, opt=dict(
          eps=CLASS[p['eps']], delta=CLASS[p['delta']], noise=p['noise'],
          l0=p['l0'], mcpp=p['mcpp'], lower=lo, upper=up, pre=p['pre'],
          height=p['h'], branch=p['b'])))
      want.append(row['ok'])
  outs = run(jobs)
  bad = 0
  for j, w, o in zip(jobs, want, outs):
    c.traces += 1
    good = o is not None and not o[0].get('err', '').startswith(
        ('PANIC', 'PROCESS')) and bool(o[0]['ok']) == w
    if not c.expect(good, 'go-arguments', '%s %s: %s, expected %s' % (
        j['kind'], j['opt'], o and o[0], 'accepted' if w else 'refused')):
      bad += 1
      if bad > 20:
        break
  return



# --------------------------------------------------------------------- C23


SIGMAS = 5.5


def _spread(p, n):
  """How far a frequency may be off."""
  p = min(max(p, 0.0), 1.0)
  return SIGMAS * math.sqrt(p * (1 - p) / n) + 10.0 / n


def partitions(c, run):
  ratios = [[2, 1], [4, 1], [3, 2], [5, 4], [3, 1], [7, 1], [21, 20]]
  deltas = [1024, 16384, 262144, 1677721, 5000000]
  if c.thorough:
    ratios += [[8, 1], [9, 8], [6, 5], [101, 100], [5, 2]]
    deltas += [4096, 65536, 700000, 3000000, 8000000]
  r = c.tlc('MCGoPartition', 'SPECIFICATION Spec\nCONSTANTS\n Deltas = {%s}\n'
            ' Most = 500\nINVARIANT Ordered\nPROPERTY Grows\nPROPERTY Dp\n'
            'PROPERTY Best\n' % ', '.join(map(str, deltas)),
            data={'ratios.json': ratios})
  size = 1 << 24
  tables = {}
  for x in r.rows:
    tables.setdefault((tuple(x['r']), x['delta']), {})[x['n']] = (
        x['lo'], x['hi'])
  jobs, want = [], []
  n_draws = c.pick(60000, 1000000)
  for (ratio, delta), t in sorted(tables.items()):
    top = max(t)
    for l0 in (1, 2, 3):
      eps = l0 * math.log(ratio[0] / ratio[1])
      d = l0 * delta / size
      if d >= 1:
        continue
      pre = (0, 1, 4)[(l0 + delta) % 3]
      opt = dict(eps=eps, delta=d, l0=l0, pre=pre)
      base = max(pre, 1) - 1
      jobs.append(dict(job='fn', fn='hard', opt=opt))
      first = min([n for n in t if t[n][1] >= size - 2] or [top])
      last = min([n for n in t if n and (
          t[n - 1][0] + delta >= size + 2 or t[n - 1][0] >= size)] or [top + 9])
      want.append(('hard', first, last))
      ns = sorted({1, 2, first // 2, first - 1, first, last, last + 3}
                  - {0, -1})
      for n in ns:
        lo, hi = t.get(n, (size, size)) if n <= top else (size, size)
        jobs.append(dict(job='fn', fn='keep', args=[n + base], n=n_draws,
                         opt=opt))
        want.append(('keep', lo / size, hi / size))
      for n in {0, base, -3} - ({base} if base == 0 else set()):
        jobs.append(dict(job='fn', fn='keep', args=[n], n=200, opt=opt))
        want.append(('never', 0, 0))
  outs = run(jobs)
  for j, w, o in zip(jobs, want, outs):
    c.traces += 1
    what = '%s ids %s: ' % (j['opt'], j.get('args'))
    if not c.expect(o is not None and o[0]['ok'], 'go-partition',
                    what + str(o)):
      continue
    v = gorun.number(o[0]['vals'][0])
    if w[0] == 'hard':
      c.expect(w[1] <= v <= w[2], 'go-hard-threshold',
               what + 'hard threshold %d, the model has %s' % (v, w[1:]))
    elif w[0] == 'never':
      c.expect(v == 0, 'go-partition-pre',
               what + 'kept %d times below the threshold' % v)
    else:
      f, n = v / j['n'], j['n']
      c.distinct.add((str(j['opt']), j['args'][0]))
      c.expect(w[1] - _spread(w[1], n) <= f <= w[2] + _spread(w[2], n)
               and (w[1] < 1 or f == 1), 'go-partition-chance',
               what + 'kept with frequency %.6f of %d, the optimum is in '
               '[%.7f, %.7f]' % (f, n, w[1], w[2]))
  c.sample(str(jobs[1]))


def many_partitions(c, run):
  """More than three partitions: thresholded Gaussian counts."""
  from scipy import stats
  from harness.curves import Curves, qlin
  cv = Curves(c)
  jobs, info = [], []
  n_draws = c.pick(4000, 40000)
  for l0, eps, delta, pre in [(4, 2.0, 0.25, 0), (5, 1.0, 0.1, 3), (9, 4.0, .5, 1),
                              (20, 3.0, 0.01, 2), (4, 0.7, 0.02, 0)]:
    opt = dict(eps=eps, delta=delta, l0=l0, pre=pre)
    base = max(pre, 1) - 1
    s = gorun.number(run([dict(job='fn', fn='sigma', args=[
        l0, 1, eps, delta / 2])])[0][0]['vals'][0])
    t = 1 + s * stats.norm.ppf((1 - delta / 2) ** (1.0 / l0))
    for n in sorted({1, 2, max(1, round(t) - 2), round(t), round(t) + 3,
                     round(t + 2 * s)}):
      jobs.append(dict(job='fn', fn='keep', args=[n + base], n=n_draws, opt=opt))
      info.append(stats.norm.sf((math.ceil(t) - 0.5 - n) / s))
    if base:
      jobs.append(dict(job='fn', fn='keep', args=[base], n=300, opt=opt))
      info.append(None)
  outs = run(jobs)
  got = {}
  for j, p, o in zip(jobs, info, outs):
    if not c.expect(o is not None and o[0]['ok'], 'go-partition',
                    '%s: %s' % (j, o)):
      continue
    f = gorun.number(o[0]['vals'][0]) / j['n']
    if p is None:
      c.expect(f == 0, 'go-partition-pre', '%s: kept' % j)
      continue
    g = got.setdefault(str(j['opt']), ([], [], []))
    g[0].append(f)
    g[1].append(max(0.0, p - _spread(p, j['n'])))
    g[2].append(min(1.0, p + _spread(p, j['n'])))
  for k, (f, lo, hi) in got.items():
    cv.add('go-partition-gauss', {'key': k}, {
        'f': [qlin(x) for x in f], 'lo': [qlin(x) for x in lo],
        'hi': [qlin(x) for x in hi]},
           [('leq', 'lo', 'f', 2), ('leq', 'f', 'hi', 2)])
  cv.flush()


# --------------------------------------------------------------------- C24


def _delta_of(sigma, l0, linf, eps):
  """Exact delta of the Gaussian mechanism, 60 digits."""
  import mpmath as mp
  with mp.workdps(60):
    s = mp.mpf(linf) * mp.sqrt(l0)
    sigma, eps = mp.mpf(sigma), mp.mpf(eps)
    a, b = s / (2 * sigma), eps * sigma / s
    return mp.ncdf(a - b) - mp.exp(eps) * mp.ncdf(-a - b)


def sigmas(c, run, cv):
  from harness.curves import qlog
  floor = 1e-40
  jobs, info = [], []
  ds = [0.9, 0.5, 0.1, 1e-2, 1e-3, 1e-5, 1e-7, 1e-9, 1e-11]
  for l0 in (1, 2, 7, 50):
    for linf in (1.0, 0.03, 250.0):
      for eps in (0.01, 0.1, 0.5, 1.0, 3.0, 10.0, 40.0):
        for d in ds:
          jobs.append(dict(job='fn', fn='sigma', args=[l0, linf, eps, d]))
          info.append((l0, linf, eps, d))
  outs = run(jobs)
  rows = {}
  for j, (l0, linf, eps, d), o in zip(jobs, info, outs):
    if not c.expect(o is not None and o[0]['ok'], 'go-sigma', str((j, o))):
      continue
    s = gorun.number(o[0]['vals'][0])
    rows.setdefault((l0, linf, eps), []).append((d, s))
  for (l0, linf, eps), t in rows.items():
    cv.add('go-sigma', {'l0': l0, 'linf': linf, 'eps': eps}, {
        'delta': [qlog(d, floor) for d, _ in t],
        'at': [qlog(_delta_of(s, l0, linf, eps), floor) for _, s in t],
        'below': [qlog(_delta_of(s / 1.00101, l0, linf, eps), floor)
                  for _, s in t],
        'sigma': [qlog(s, floor) for _, s in t]},
           # enough noise, and not much more than that
           [('leq', 'at', 'delta', 60), ('leq', 'delta', 'below', 60),
            ('nondec', 'sigma', '', 0)])


def _tail(noise, z, scale):
  """P(noise >= z), accurately."""
  import mpmath as mp
  with mp.workdps(40):
    z = mp.mpf(z) / mp.mpf(scale)
    if noise == 'L':
      return mp.exp(-z) / 2 if z >= 0 else 1 - mp.exp(z) / 2
    return mp.erfc(z / mp.sqrt(2)) / 2


def thresholds(c, run, cv):
  import mpmath as mp
  from harness.curves import qlog
  floor = 1e-40
  ds = [0.9, 0.6, 0.3, 0.05, 1e-3, 1e-5, 1e-7, 1e-9]
  groups = []
  for noise in 'LG':
    for l0 in (1, 2, 10):
      for linf in (1.0, 0.25, 40.0):
        for eps in (0.05, 0.7, 4.0):
          nd = 0 if noise == 'L' else 1e-4
          groups.append((noise, l0, linf, eps, nd))
  jobs = []
  for g in groups:
    noise, l0, linf, eps, nd = g
    jobs.append(dict(job='fn', fn='sigma', args=[l0, linf, eps, nd or .5]))
    for d in ds:
      jobs.append(dict(job='fn', fn='threshold', noise=noise,
                       args=[l0, linf, eps, nd, d]))
  outs = run(jobs)
  back, at = [], 0
  rows = []
  for g in groups:
    noise, l0, linf, eps, nd = g
    part = outs[at:at + 1 + len(ds)]
    at += 1 + len(ds)
    if not c.expect(all(o and o[0]['ok'] for o in part), 'go-threshold',
                    str((g, part[:3]))):
      continue
    v = [gorun.number(o[0]['vals'][0]) for o in part]
    scale = linf * l0 / eps if noise == 'L' else v[0]
    rows.append((g, scale, v[1:]))
    for t in v[1:] + [linf, linf / 2, -linf, linf + 4.5 * scale]:
      back.append(dict(job='fn', fn='deltafor', noise=noise,
                       args=[l0, linf, eps, nd, t]))
  outs, at = run(back), 0
  for g, scale, ts in rows:
    noise, l0, linf, eps, nd = g
    part = outs[at:at + len(ds) + 4]
    at += len(ds) + 4
    if not c.expect(all(o and o[0]['ok'] for o in part), 'go-threshold',
                    str((g, part[:3]))):
      continue
    v = [gorun.number(o[0]['vals'][0]) for o in part]

    def leak(t):
      # some of l0 partitions with one id each passes
      p = _tail(noise, t - linf, scale)
      with mp.workdps(40):
        return 1 - (1 - p) ** l0

    info = dict(noise=noise, l0=l0, linf=linf, eps=eps)
    cv.add('go-threshold', info, {
        'delta': [qlog(d, floor) for d in ds],
        'leak': [qlog(leak(t), floor) for t in ts],
        'back': [qlog(x, floor) for x in v[:len(ds)]]},
           [('leq', 'leak', 'delta', 8), ('leq', 'delta', 'leak', 8),
            ('leq', 'back', 'delta', 8), ('leq', 'delta', 'back', 8)])
    xs = [linf, linf / 2, -linf, linf + 4.5 * scale]
    cv.add('go-delta-for-threshold', info, {
        'leak': [qlog(leak(t), floor) for t in xs],
        'said': [qlog(x, floor) for x in v[len(ds):]]},
           [('leq', 'leak', 'said', 40), ('leq', 'said', 'leak', 40)])


def intervals(c, run, cv):
  from harness.curves import qlog
  alphas = [0.99, 0.9, 0.5, 0.2, 0.05, 1e-2, 1e-4, 1e-8]
  for noise in 'LG':
    for l0, linf, eps in [(1, 1, 1.0), (3, 1, 0.2), (2, 5, 0.01), (1, 2, 8.0),
                          (9, 100, 0.5)]:
      nd = 0 if noise == 'L' else 1e-5
      info = dict(noise=noise, l0=l0, linf=linf, eps=eps)
      s = run([dict(job='fn', fn='sigma', args=[l0, linf, eps, nd or .5])])
      scale = linf * l0 / eps if noise == 'L' else gorun.number(
          s[0][0]['vals'][0])
      xs = [0, 17, -5, 2.0 ** 40]
      jobs = [dict(job='fn', fn='cif', noise=noise,
                   args=[x, l0, linf, eps, nd, a])
              for x in xs for a in alphas]
      bigs = [(0, 0), (-9, 0), (2.0 ** 53, 1), (-2.0 ** 53, -1),
              (2.0 ** 60, 255), (2.0 ** 60, -3)]
      jobs += [dict(job='fn', fn='cii', noise=noise,
                    args=[x, l0, linf, eps, nd, a, y])
               for x, y in bigs for a in alphas]
      outs = run(jobs)
      if not c.expect(all(o and o[0]['ok'] for o in outs), 'go-interval',
                      str((info, [o for o in outs if not (
                          o and o[0]['ok'])][:2]))):
        continue
      v = [[gorun.number(z) for z in o[0]['vals']] for o in outs]
      for i, x in enumerate(xs):
        part = v[i * len(alphas):(i + 1) * len(alphas)]
        up = [b - x for _, b in part]
        tol = 30 if abs(x) < 100 else 2000
        if abs(x) >= 100 and scale < 1e3:
          continue
        cv.add('go-interval', dict(info, x=x), {
            'alpha': [qlog(a) for a in alphas],
            'outside': [qlog(2 * _tail(noise, z, scale)) for z in up],
            'left': [qlog(x - a) for a, _ in part],
            'right': [qlog(z) for z in up]},
               [('leq', 'outside', 'alpha', tol),
                ('leq', 'alpha', 'outside', tol),
                ('leq', 'left', 'right', tol), ('leq', 'right', 'left', tol),
                ('nondec', 'right', '', 0)])
      at = len(xs) * len(alphas)
      for x, y in bigs:
        part = v[at:at + len(alphas)]
        at += len(alphas)
        true = int(x) + int(y)
        for a, (lo, hi) in zip(alphas, part):
          # the reach in whole numbers, and a float on the safe side of it
          k = 0
          reach = scale * 60
          lo_k, hi_k = 0, int(reach) + 1
          while lo_k < hi_k:
            k = (lo_k + hi_k) // 2
            if 2 * _tail(noise, k + 0.5, scale) <= a * (1 + 1e-9):
              hi_k = k
            else:
              lo_k = k + 1
          k = lo_k
          good = int(lo) <= true - k and int(hi) >= true + k
          tight = (int(lo) >= true - k - 1 - abs(true) * 2.3e-16
                   and int(hi) <= true + k + 1 + abs(true) * 2.3e-16)
          c.expect(good and tight, 'go-interval-int',
                   '%s alpha %g: [%r, %r] around %d, reach %d' % (
                       info, a, lo, hi, true, k))


def _cells(noise, scale, step, lo, hi):
  """Chance of each multiple of step in [lo, hi], and of what lies outside."""
  out = []
  for v in range(lo, hi + 1):
    out.append(float(_tail(noise, (v - .5) * step, scale)
                     - _tail(noise, (v + .5) * step, scale)))
  return out, float(2 * _tail(noise, (hi + .5) * step, scale))


def samples(c, run, cv):
  from harness.curves import qlin
  n = c.pick(40000, 400000)
  par = [(1, 1, 1.0), (2, 3, 0.5), (1, 1, 6.0), (5, 1, 3.0), (1, 10, 0.4),
         (3, 2, 0.08), (1, 7, 2.0)]
  jobs, info = [], []
  for noise in 'LG':
    for i, (l0, linf, eps) in enumerate(par):
      nd = 0 if noise == 'L' else (1e-5, .1)[i % 2]
      for x in (0, (-3, 1000003, -77)[i % 3]):
        jobs.append(dict(job='fn', fn='addih', noise=noise, n=n,
                         args=[x, l0, linf, eps, nd]))
        jobs.append(dict(job='fn', fn='addf', noise=noise, n=n // 4,
                         args=[x + .25, l0, linf / 4, eps, nd]))
        info.append((noise, l0, linf, eps, nd, x))
  outs = run(jobs)
  for i, (noise, l0, linf, eps, nd, x) in enumerate(info):
    o, of = outs[2 * i], outs[2 * i + 1]
    key = dict(noise=noise, l0=l0, linf=linf, eps=eps, delta=nd, x=x)
    if not c.expect(o and o[0]['ok'] and of and of[0]['ok'], 'go-samples',
                    str((key, o and o[0].get('err'), of and of[0].get('err')))):
      continue
    if noise == 'L':
      scale = linf * l0 / eps
      scale_f = scale / 4
    else:
      s = run([dict(job='fn', fn='sigma', args=[l0, linf, eps, nd]),
               dict(job='fn', fn='sigma', args=[l0, linf / 4, eps, nd])])
      scale, scale_f = [gorun.number(z[0]['vals'][0]) for z in s]
    h = o[0]['vals']
    h = {int(h[k]): h[k + 1] for k in range(0, len(h), 2)}
    vals = [gorun.number(z) - x - .25 for z in of[0]['vals']]
    hf = {}
    for z in vals:
      b = round(z / scale_f * 3)
      hf[b] = hf.get(b, 0) + 1
    for name, hist, m, sc, st in (('int', h, n, scale, 1),
                                  ('real', hf, n // 4, 1.0, 1 / 3)):
      hi = int(min(60, 6 * sc / st)) + 1
      ps, rest = _cells(noise, sc, st, -hi, hi)
      fs = [hist.get(v, 0) / m for v in range(-hi, hi + 1)]
      fs.append(sum(w for v, w in hist.items() if abs(v) > hi) / m)
      ps.append(rest)
      # and added up from the left
      acc_f = [sum(fs[:k + 1]) for k in range(len(fs))]
      acc_p = [sum(ps[:k + 1]) for k in range(len(ps))]
      for kind, f, p in (('cell', fs, ps), ('sum', acc_f, acc_p)):
        cv.add('go-samples-' + name, dict(key, of=kind), {
            'f': [qlin(z) for z in f],
            'lo': [qlin(max(0.0, z - _spread(z, m))) for z in p],
            'hi': [qlin(min(1.0, z + _spread(z, m))) for z in p]},
               [('leq', 'lo', 'f', 2), ('leq', 'f', 'hi', 2)])
  # the grid of values: coarse enough that nothing shows of where it came from
  jobs, info = [], []
  for l0, linf, eps in [(1, 1.0, 1.0), (3, 0.7, 0.01), (2, 1e6, 0.3),
                        (1, 1e-3, 5.0)]:
    lam = l0 * linf / eps
    grid = 2.0 ** math.ceil(math.log2(lam / 2.0 ** 40))
    for x in (0.0, 0.1, -1 / 3.0, 1e-9, 12345.678):
      jobs.append(dict(job='fn', fn='addf', noise='L', n=60,
                       args=[x, l0, linf, eps, 0]))
      info.append(grid)
  for l0, linf, eps in [(1, 1, 2.0 ** -45), (2, 3, 2.0 ** -48)]:
    lam = l0 * linf / eps
    grid = 2.0 ** math.ceil(math.log2(lam / 2.0 ** 40))
    for x in (0, 12345, -7):
      jobs.append(dict(job='fn', fn='addi', noise='L', n=60,
                       args=[x, l0, linf, eps, 0, grid]))
      info.append(None)
  outs = run(jobs)
  for j, g, o in zip(jobs, info, outs):
    if not c.expect(o is not None and o[0]['ok'], 'go-grid', str((j, o))):
      continue
    v = [gorun.number(z) for z in o[0]['vals']]
    if g is None:
      c.expect(not any(v[::2]), 'go-grid',
               '%s: not all are multiples of %g' % (j, j['args'][5]))
      v = v[1::2]
    else:
      c.expect(all((Fraction(z) / Fraction(g)).denominator == 1 for z in v),
               'go-grid', '%s: not all of %s are multiples of %g' % (
                   j, v[:4], g))
    c.expect(len(set(v)) > 30, 'go-grid', '%s: few different values %s' % (
        j, v[:8]))


def uniforms(c, run, cv):
  from harness.curves import qlin
  n = c.pick(200000, 4000000)
  tests = [('uniformh', [64], [1 / 64] * 64), ('i63h', [7], [1 / 7] * 7),
           ('i63h', [100], [.01] * 100), ('uniformh', [3], [1 / 3] * 3),
           ('geoh', [0], [0] + [2.0 ** -k for k in range(1, 63)] + [0]),
           ('boolh', [0], [.5, .5] + [0] * 62),
           ('signh', [0], [.5, 0, .5] + [0] * 61)]
  outs = run([dict(job='fn', fn=f, args=a, n=n) for f, a, _ in tests])
  for (f, a, p), o in zip(tests, outs):
    if not c.expect(o is not None and o[0]['ok'], 'go-random', str((f, o))):
      continue
    v = [gorun.number(z) / n for z in o[0]['vals']]
    cv.add('go-random', {'fn': f, 'of': a[0]}, {
        'f': [qlin(z) for z in v],
        'lo': [qlin(max(0.0, z - _spread(z, n))) for z in p],
        'hi': [qlin(min(1.0, z + _spread(z, n))) for z in p]},
           [('leq', 'lo', 'f', 2), ('leq', 'f', 'hi', 2)])


def noise_arguments(c, run):
  """What the noises refuse, and sensitivities too large to multiply."""
  r = c.tlc('MCGoNoiseArgs', 'SPECIFICATION Spec\n')
  jobs, want = [], []
  for row in r.rows:
    p = row['p']
    a = [p['l0'], {'neg': -1, 'zero': 0, 'ok': 1, 'inf': 'inf', 'nan': 'nan'}[
        p['linf']], CLASS[p['eps']], CLASS[p['delta']]]
    x = CLASS[p['extra']]
    fn = p['fn']
    args = {'addf': [3] + a, 'addi': [3] + a, 'threshold': a + [x],
            'cif': [3] + a + [x], 'cii': [3] + a + [x],
            'deltafor': a + [2]}[fn]
    jobs.append(dict(job='fn', fn=fn, noise=p['noise'], args=args, n=1))
    want.append(row['ok'])
  outs = run(jobs)
  bad = 0
  for j, w, o in zip(jobs, want, outs):
    c.traces += 1
    good = o is not None and not o[0].get('err', '').startswith(
        ('PANIC', 'PROCESS')) and bool(o[0]['ok']) == w
    if not c.expect(good, 'go-noise-arguments', '%s %s %s: %s, expected %s' % (
        j['noise'], j['fn'], j['args'], o and o[0],
        'accepted' if w else 'refused')):
      bad += 1
      if bad > 20:
        break


def large(c, run):
  """Sensitivities whose product is too large for 64 bits: refused, or the
  noise is as wide as it has to be."""
  jobs = []
  for noise in 'LG':
    for l0, linf in [(9, 2 ** 61), (4, 2 ** 62), (2, 2 ** 62), (2, 2 ** 63 - 1024),
                     (3, 2 ** 62), (2 ** 32, 2 ** 32), (2 ** 32 + 1, 2 ** 32),
                     (2 ** 62, 8), (17, 2 ** 60)]:
      for eps in (1.0, 20.0 if l0 > 9 else .3):
        jobs.append(dict(job='fn', fn='addi', noise=noise, n=300,
                         args=[0, l0, linf, eps, 0 if noise == 'L' else 1e-5]))
  outs = run(jobs)
  for j, o in zip(jobs, outs):
    c.traces += 1
    l0, linf, eps = j['args'][1:4]
    if j['noise'] == 'L':
      wide = l0 * linf / eps
    else:
      wide = linf * math.sqrt(l0) / max(eps, 1)
    if o is not None and not o[0]['ok'] and not o[0]['err'].startswith(
        ('PANIC', 'PROCESS')):
      continue
    if not c.expect(o is not None and o[0]['ok'], 'go-large-sensitivity',
                    str((j, o and o[0]))):
      continue
    near = min(wide, 2.0 ** 63) / 4
    v = [gorun.number(z) for z in o[0]['vals']]
    got = sum(abs(z) < near for z in v)
    c.expect(got < .5 * len(v), 'go-large-sensitivity',
             '%s: %d of %d samples within %g of the value, scale %g' % (
                 j, got, len(v), near, wide))


def body(prop):
  def check(c):
    from harness.curves import Curves
    run = gorun.build(c)
    if prop == 'C22':
      accept(c, run)
      lifecycle(c, run)
    elif prop == 'C23':
      partitions(c, run)
      many_partitions(c, run)
    else:
      cv = Curves(c)
      noise_arguments(c, run)
      large(c, run)
      sigmas(c, run, cv)
      thresholds(c, run, cv)
      intervals(c, run, cv)
      samples(c, run, cv)
      uniforms(c, run, cv)
      cv.flush()
  return check
