"""Recorded curves, validated by TLC against spec/TraceCurves.tla."""
import math

BIG = 10**9          # stands for infinity
SCALE = 1 << 20      # units per factor of two (log series) or per 1 (linear)


def qlog(v, floor=1e-12):
  """Logarithmic quantisation: relative resolution about 7e-7."""
  v = float(v)
  if math.isnan(v):
    return -BIG - 1
  if v == math.inf:
    return BIG
  if v < -floor:
    return -BIG
  return round(math.log2(max(v, floor)) * SCALE)


def qlin(v, scale=SCALE):
  v = float(v)
  if math.isnan(v):
    return -BIG - 1
  return round(max(-BIG, min(BIG, v * scale)))


class Curves:
  """Collects curves of one check and has TLC judge them."""

  def __init__(self, c):
    self.c = c
    self.rows = []
    self.info = []

  def add(self, clause, info, series, laws):
    """series: name -> list of ints. laws: (law, a, b, slack) tuples."""
    n = {len(v) for v in series.values()}
    assert len(n) == 1, (clause, n)
    if n == {0}:
      return
    rows = []
    for x in laws:
      if x[0] == 'range':
        rows.append(dict(law='range', a=x[1], lo=x[2], hi=x[3]))
      else:
        rows.append(dict(law=x[0], a=x[1], b=x[2] or x[1], slack=x[3]))
    # not-a-number never satisfies anything
    for a, v in series.items():
      rows.append(dict(law='range', a=a, lo=-BIG, hi=BIG))
    self.rows.append({'s': series, 'laws': rows})
    self.info.append((clause, info, laws))

  def flush(self):
    """Runs TLC over everything collected and reports the failures."""
    c = self.c
    done = 0
    while done < len(self.rows):
      part = self.rows[done:done + 4000]
      r = c.tlc('TraceCurves', 'SPECIFICATION Spec\n',
                data={'curves.json': part}, timeout=800)
      for b in r.bad:
        k = done + b['id'] - 1
        clause, info, laws = self.info[k]
        row = self.rows[k]
        law = row['laws'][b['law'] - 1]
        at = b['at'] - 1
        lo = max(0, at - 1)
        c.violation('%s:%s' % (clause, law['law']), dict(
            info, law=law, at=at,
            around={n: v[lo:at + 2] for n, v in row['s'].items()},
            units='log2 or linear, 2^20 per unit'),
            key='%s %s' % (clause, info.get('key', sorted(
                (k2, str(v2)[:60]) for k2, v2 in info.items()))))
      done += len(part)
    for (clause, _, laws), row in zip(self.info, self.rows):
      n = len(next(iter(row['s'].values())))
      c.ok(clause, n * len(laws))
      c.distinct.add((clause, repr(row['s'])[:400]))
    c.traces += len(self.rows)
    if self.rows:
      c.sample({'clause': self.info[0][0], 'curve': str(self.rows[0])[:300]})
    self.rows, self.info = [], []
