"""C15-C17: private clustering. The tree, the budget, what is released."""
import collections
import contextlib
import itertools
import math
import multiprocessing
import random
import sys
import types

import numpy as np
from scipy import stats

from harness.curves import Curves, qlin, qlog
from harness.mechcheck import h_gauss, loguniform
from harness.vlib import observe


class KMeans:
  """Stands in for scikit-learn: records what it is given."""
  log = []
  choose = None

  def __init__(self, n_clusters=8, **kw):
    self.n_clusters, self.kw = n_clusters, kw

  def fit(self, X, y=None, sample_weight=None):  # pylint: disable=invalid-name
    X = np.array(X, dtype=float)
    KMeans.log.append((self.n_clusters, X.copy(), None if sample_weight is None
                       else np.array(sample_weight)))
    if KMeans.choose is not None:
      self.cluster_centers_ = KMeans.choose(self.n_clusters, X)
    else:
      self.cluster_centers_ = X[:self.n_clusters].copy()
    return self


_sk = types.ModuleType('sklearn')
_sk.cluster = types.ModuleType('sklearn.cluster')
_sk.cluster.KMeans = KMeans
sys.modules['sklearn'] = _sk
sys.modules['sklearn.cluster'] = _sk.cluster

# pylint: disable=g-import-not-at-top
from clustering import central_privacy_utils as cpu
from clustering import clustering_algorithm as algo
from clustering import clustering_params as cp
from clustering import coreset_params
from clustering import default_clustering_params as dcp
from clustering import lsh
from clustering import lsh_tree
from clustering import privacy_calculator as pcalc_lib
from dp_accounting import dp_event
from dp_accounting.pld import pld_privacy_accountant

WRAP = '''---- MODULE RunCluster ----
EXTENDS MCCluster
NoiseDef == %s
Th == %s
====
'''
CFG = '''SPECIFICATION Spec
CONSTANTS
 N = %d
 Depth = %d
 Noise <- NoiseDef
 Thresholds <- Th
 Free = %s
 EmitRows = %s
INVARIANTS Hashed OnePerLevel OnePrefix Kept Branched OneLeaf Budget Neighbour Emitted
PROPERTY Halts
CHECK_DEADLOCK FALSE
'''
TRACE = '''SPECIFICATION Spec
INVARIANT Judged
CHECK_DEADLOCK FALSE
'''
LEAF = '''---- MODULE RunCoreset ----
EXTENDS MCCoreset
NoiseDef == %s
====
'''
LEAFCFG = '''SPECIFICATION Spec
CONSTANTS
 Far = 3
 R = 2
 N = %d
 Counts = {1, 2, 4}
 Noises <- NoiseDef
 Places = %s
 Labels = {0, 2}
 MaxCenters = 3
 EmitRows = %s
INVARIANTS Inside PairsAdd Emitted
PROPERTIES Sensitivity Released
CHECK_DEADLOCK FALSE
'''


class Pcalc:
  """Noise parameters chosen by the check."""

  def __init__(self, sigma, a, radius):
    self.average_privacy_param = cpu.AveragePrivacyParam(sigma, radius)
    self.count_privacy_param = cpu.CountPrivacyParam(a)


class Draws:
  """What the code asks its sources of noise for."""

  def __init__(self):
    self.counts = []     # parameters of discrete Laplace draws
    self.sums = []       # (scale, size) of Gaussian draws
    self.asked = []      # (true count, noisy count), when seen
    self.seen = False


@contextlib.contextmanager
def noise(count_noise=None, sum_noise=None, projection=None):
  """Replaces the noise. count_noise(n or None) -> int; sum_noise(d) -> vector."""
  d = Draws()
  old_rvs, old_normal = stats.dlaplace.rvs, np.random.normal
  old_count = cpu.get_private_count
  current = [None]

  def rvs(*args, **kw):
    a = args[0] if args else kw.get('a')
    d.counts.append(float(a))
    if count_noise is None:
      return old_rvs(*args, **kw)
    return count_noise(current[0])

  def normal(loc=0.0, scale=1.0, size=None):
    if isinstance(size, tuple) and len(size) == 2:
      if projection is not None:
        return np.array(projection, dtype=float).reshape(size)
      return old_normal(loc=loc, scale=scale, size=size)
    n = size[0] if isinstance(size, tuple) else size
    d.sums.append((float(scale), n))
    if sum_noise is None:
      return old_normal(loc=loc, scale=scale, size=size)
    return loc + np.array(sum_noise(n), dtype=float)

  def count(*args, **kw):
    n = args[0] if args else kw['nonprivate_count']
    current[0] = int(n)
    try:
      out = old_count(*args, **kw)
    finally:
      current[0] = None
    d.seen = True
    d.asked.append((int(n), int(out)))
    return out

  stats.dlaplace.rvs, np.random.normal = rvs, normal
  cpu.get_private_count = count
  try:
    yield d
  finally:
    del stats.dlaplace.rvs
    np.random.normal = old_normal
    cpu.get_private_count = old_count


def flat(tree):
  return [x for level in tree.tree.values() for x in level]


def rows_of(all_points, mine):
  """Indices (from 1) of the rows of mine in all_points; None if not there."""
  at = collections.defaultdict(list)
  for i, x in enumerate(np.asarray(all_points, dtype=float)):
    at[x.tobytes()].append(i + 1)
  out = []
  for x in np.asarray(mine, dtype=float):
    k = at.get(x.tobytes())
    if not k:
      return None
    out.append(k.pop(0))
  return out


def params(sigma, a, radius, br, mn, depth):
  return coreset_params.CoresetParam(
      Pcalc(sigma, a, radius), cp.TreeParam(br, mn, depth), 'check', radius)


# ------------------------------------------------------------------ C15
def place(rng, code, depth):
  """Points hashing to code under the first `depth` coordinates."""
  pts = []
  for i, w in enumerate(code):
    x = []
    for l in range(depth):
      if (w >> (depth - 1 - l)) & 1:
        x.append(-rng.choice([1e-9, 0.3, 1.0, 2.5]))
      else:
        x.append(rng.choice([0.0, 1e-9, 0.4, 1.0, 2.0]))
    pts.append(x + [float(i + 1)])
  return np.array(pts).reshape(len(code), depth + 1)


def replay_tree(c, rng, row):
  depth = row['depth']
  code, nu = row['code'], row['nu']
  if row.get('flat') is False and not replay_tree.by_count:
    return
  pts = place(rng, code, depth)
  order = list(range(len(code)))
  rng.shuffle(order)
  pts = pts[order]
  proj = np.concatenate([np.diag([rng.choice([1.0, 0.5, 3.0])
                                  for _ in range(depth)]),
                         np.zeros((depth, 1))], axis=1)
  cparam = params(0.0, 1.0, 1e3, row['br'], row['mn'], depth)
  root_cnt = max(x['cnt'] for x in row['nodes'] if not x['prefix'])
  want = sorted((''.join(map(str, x['prefix'])), x['cnt'],
                 tuple(sorted(x['pts']))) for x in row['nodes'])
  leaves = sorted((''.join(map(str, x['prefix'])), x['cnt'])
                  for x in row['leaves'])
  info = lambda: dict(code=code, br=row['br'], mn=row['mn'], nu=nu,
                      depth=depth, want=want)
  f = lambda n: nu[n] if n is not None else nu[0]
  with noise(f, lambda n: np.zeros(n), proj) as d:
    sim = lsh.SimHash(depth + 1, depth, proj)
    root = lsh_tree.LshTreeNode('', pts, cparam, sim)
    raw = root.private_count
    if not d.seen and len(set(nu)) > 1:
      replay_tree.by_count = False
      return
    c.traces += 1
    if raw < 1:
      got = observe(lsh_tree.LshTree, root)
      c.expect(got[0] != 'ok' and got[1] == 'ValueError', 'root-refused',
               lambda: dict(info(), got=str(got)[:300]))
      root.private_count = root_cnt
    got = observe(lsh_tree.LshTree, root)
  if not c.expect(got[0] == 'ok', 'builds', lambda: dict(
      info(), got=str(got))):
    return
  t = got[1]
  ids = lambda p: tuple(sorted(int(x[-1]) for x in p))
  have = sorted((x.hash_prefix, int(x.private_count),
                 ids(x.nonprivate_points)) for x in flat(t))
  c.expect(have == want, 'tree', lambda: dict(info(), have=have))
  c.expect(all(len(x.hash_prefix) == l for l, xs in t.tree.items()
               for x in xs), 'levels', info)
  have = sorted((x.hash_prefix, int(x.private_count)) for x in t.leaves)
  c.expect(have == leaves, 'leaves', lambda: dict(info(), have=have))
  c.expect(all(t.is_leaf(x) == (x.hash_prefix in {p for p, _ in leaves})
               for x in flat(t)), 'is-leaf', info)
  if d.seen:
    want_asked = sorted((x['n'], x['cnt']) for x in row['asked'])
    c.expect(sorted(d.asked) == want_asked, 'noised-counts', lambda: dict(
        info(), asked=sorted(d.asked), want=want_asked))
  # every child is noised once, however often it is asked
  if depth:
    with noise(f, lambda n: np.zeros(n), proj) as d:
      kids = observe(root.children)
      if c.expect(kids[0] == 'ok', 'children', lambda: dict(
          info(), got=str(kids))):
        said = [[x.get_private_count() for _ in range(2)] for x in kids[1]]
        c.expect(len(d.counts) == len(kids[1]) == 2 and all(
            a == b for a, b in said), 'noised-once', lambda: dict(
                info(), draws=len(d.counts), said=said))
  # the whole coreset
  with noise(f, lambda n: np.zeros(n), proj) as d:
    got = observe(algo.get_private_coreset, cp.Data(pts, 1e3), cparam, None)
  if not c.expect(got[0] == 'ok', 'coreset', lambda: dict(
      info(), got=str(got))):
    return
  c.expect(sorted(int(w) for w in got[1].weights) == sorted(
      k for _, k in leaves), 'coreset-weights', lambda: dict(
          info(), have=[int(w) for w in got[1].weights]))


def record(t, depth, br, mn, data, asked, root_asked):
  """A tree as TraceCluster reads it, or None with a reason."""
  root = t.tree[0][0]
  vec = root.sim_hash.projection_vectors
  nodes = []
  for x in flat(t):
    p = rows_of(data, x.nonprivate_points)
    if p is None:
      return None, 'a node holds a point that is not in the data'
    nodes.append(dict(prefix=[int(b) for b in x.hash_prefix], pts=p,
                      cnt=int(x.private_count)))
  bits = [[0 if float(np.dot(x, vec[l])) >= 0 else 1 for l in range(depth)]
          for x in data]
  return dict(bits=bits, nodes=nodes, leaves=[
      [int(b) for b in x.hash_prefix] for x in t.leaves], br=br, mn=mn,
              depth=depth, counted=asked is not None, rootAsked=len(root_asked),
              asked=[dict(n=n, cnt=k) for n, k in asked or []],
              root=dict(n=root_asked[0][0], cnt=root_asked[0][1])
              if root_asked else dict(n=0, cnt=0)), None


def random_data(rng, n, dim, radius=1.0):
  kind = rng.random()
  if kind < 0.3:
    k = rng.randint(1, 4)
    mid = [[rng.gauss(0, 0.4) for _ in range(dim)] for _ in range(k)]
    pts = [[m + rng.gauss(0, 0.05) for m in rng.choice(mid)]
           for _ in range(n)]
  elif kind < 0.45:
    pts = [[rng.choice([-0.5, 0.25, 1.0]) for _ in range(dim)]
           for _ in range(n)]
  else:
    pts = [[rng.gauss(0, 0.6) for _ in range(dim)] for _ in range(n)]
  pts = np.array(pts, dtype=float).reshape(n, dim) * radius
  return pts


def recorded_trees(c, rng, n):
  trees, infos = [], []
  big = c.pick(2, 12)
  for i in range(n + big):
    dim, depth = rng.randint(1, 6), rng.choice([0, 1, 2, 3, 5, 8])
    pts = random_data(rng, rng.choice([0, 1, 2, 5, 20, 60]), dim)
    mn = rng.choice([1, 1, 2, 4])
    br = mn * rng.choice([1, 2, 3])
    wide = rng.choice([0, 1, 3, 10])
    if i >= n:           # bushy
      dim, depth, br, mn, wide = 6, 9, 1, 1, 0
      pts = np.array([direction(rng, dim) for _ in range(170)])
    np.random.seed(rng.randint(0, 2 ** 31))
    f = lambda n_: rng.randint(-wide, wide)
    cparam = params(0.0, 1.0, 1.0, br, mn, depth)
    asked_root = []
    info = dict(points=len(pts), dim=dim, depth=depth, br=br, mn=mn, wide=wide,
                number=i)
    with noise(f) as d:
      given = rng.choice([None, None, rng.randint(-3, 80)])
      root = lsh_tree.root_node(cp.Data(pts, 1.0), cparam, given)
      c.expect(root.hash_prefix == '' and len(root.nonprivate_points) == len(
          pts), 'root-node', info)
      if given is not None:
        c.expect(root.private_count == given and not d.counts, 'given-count',
                 lambda: dict(info, given=given, got=root.private_count))
      else:
        asked_root = list(d.asked)
      root.private_count = max(1, root.private_count)
      got = observe(lsh_tree.LshTree, root)
    if not c.expect(got[0] == 'ok', 'builds', lambda: dict(
        info, got=str(got))):
      continue
    asked = list(d.asked) if d.seen or depth == 0 or given is not None else None
    if given is not None and d.counts and not d.seen:
      asked = None
    row, why = record(got[1], depth, br, mn, pts, asked, asked_root)
    if not c.expect(row is not None, 'own-points', lambda: dict(
        info, why=why)):
      continue
    trees.append(row)
    infos.append(info)
  judge(c, trees, infos)


def judge(c, trees, infos):
  r = c.tlc('TraceCluster', TRACE, data={'trees.json': trees}, timeout=800)
  c.ok('recorded', len(trees))
  c.traces += len(trees)
  for b in {(x['id'], x['fault']) for x in r.bad}:
    c.violation('recorded:' + b[1], dict(infos[b[0] - 1], fault=b[1],
                                         tree=str(trees[b[0] - 1])[:1200]),
                key='%s %s' % (b[1], infos[b[0] - 1]))


class Captured:
  tree = None


@contextlib.contextmanager
def capture_tree():
  old = lsh_tree.LshTree
  out = Captured()

  class Seen(old):

    def __init__(self, *a, **kw):
      super().__init__(*a, **kw)
      out.tree = self
  lsh_tree.LshTree = Seen
  try:
    yield out
  finally:
    lsh_tree.LshTree = old


def pipeline_trees(c, rng, n):
  """Trees of whole clusterings with the default parameters."""
  trees, infos = [], []
  budget = cp.DifferentialPrivacyParam(float('inf'), 1e-6)
  for i in range(n):
    dim = rng.randint(1, 4)
    pts = random_data(rng, rng.choice([1, 3, 30, 80]), dim, 0.2)
    radius = 1e3
    np.random.seed(rng.randint(0, 2 ** 31))
    tp = None if rng.random() < 0.5 else cp.TreeParam(
        rng.choice([2, 4]), rng.choice([1, 2]), rng.choice([0, 2, 6]))
    k = rng.randint(1, 5)
    KMeans.log.clear()
    with capture_tree() as cap, noise() as d:
      got = observe(algo.private_lsh_clustering, k, cp.Data(pts, radius),
                    budget, tree_param=tp)
    info = dict(points=len(pts), dim=dim, k=k, tree_param=str(tp), number=i)
    if not c.expect(got[0] == 'ok', 'clusters', lambda: dict(
        info, got=str(got))):
      continue
    if cap.tree is None:
      continue
    t = cap.tree.tree[0][0].coreset_param.tree_param
    if tp is not None:
      c.expect(t == tp, 'tree-param', lambda: dict(info, got=str(t)))
    row, why = record(cap.tree, t.max_depth, t.min_num_points_in_branching_node,
                      t.min_num_points_in_node, pts,
                      d.asked if d.seen else None, [(len(pts), len(pts))]
                      if d.seen else [])
    if not c.expect(row is not None, 'own-points', lambda: dict(
        info, why=why)):
      continue
    trees.append(row)
    infos.append(info)
  judge(c, trees, infos)


def hashing(c, rng, n):
  for _ in range(n):
    dim, length = rng.randint(1, 5), rng.choice([1, 2, 3, 4, 5, 6, 17, 33])
    vec = np.array([[rng.gauss(0, 1) for _ in range(dim)]
                    for _ in range(length)])
    sim = lsh.SimHash(dim, length, vec)
    pts = random_data(rng, rng.randint(0, 20), dim)
    l = rng.randrange(length)
    got = sim.group_by_next_hash(pts, '0' * l)
    v = pts @ vec[l]
    info = lambda: dict(dim=dim, level=l, points=pts.tolist())
    c.expect(set(got) == {'0', '1'} and np.array_equal(
        got['0'], pts[v >= 0]) and np.array_equal(got['1'], pts[v < 0]),
             'hash', info)
    for bad in (length, length + 1):
      e = observe(sim.group_by_next_hash, pts, '1' * bad)
      c.expect(e[0] != 'ok' and e[1] == 'ValueError', 'hash-length', info)
    fresh = lsh.SimHash(dim, length)
    c.expect(fresh.projection_vectors.shape == (length, dim), 'projection',
             info)


def c15(c):
  rng = random.Random(c.seed * 49979687 + 15)
  replay_tree.by_count = True
  runs = [(3, 2, '{-1, 0, 2}', '{<<1, 1>>, <<2, 1>>, <<3, 2>>}')]
  if c.thorough:
    runs += [(4, 3, '{-1, 2}', '{<<1, 1>>, <<3, 2>>}'),
             (5, 1, '{-2, 0, 1, 5}', '{<<1, 1>>, <<2, 2>>, <<4, 1>>}')]
  for n, depth, z, th in runs:
    r = c.tlc('RunCluster', CFG % (n, depth, 'FALSE', 'TRUE'), timeout=800,
              extra_modules={'RunCluster.tla': WRAP % (z, th)})
    rows = {repr((x['code'], x['br'], x['mn'], x['nu'])): x for x in r.rows}
    for row in rows.values():
      replay_tree(c, rng, row)
  c.tlc('RunCluster', CFG % (3, 2, 'TRUE', 'FALSE'), timeout=800,
        extra_modules={'RunCluster.tla': WRAP % (
            c.pick('{-1, 2}', '{-1, 0, 2}'),
            '{<<1, 1>>, <<2, 1>>, <<3, 2>>}')})
  c.sample(dict(row=str(r.rows[-1])[:400]))
  recorded_trees(c, rng, c.pick(250, 2500))
  pipeline_trees(c, rng, c.pick(25, 250))
  hashing(c, rng, c.pick(300, 3000))
  for a, b in [(2, 0), (1, 2), (0, 0), (3, -1)]:
    got = observe(cp.TreeParam, a, b, 3)
    c.expect(got[0] != 'ok' and got[1] == 'ValueError', 'thresholds-refused',
             dict(branching=a, node=b))
  c.assumptions += ['points have finite coordinates']


# ------------------------------------------------------------------ C16
def composed(r, a, k, e):
  """delta of a Gaussian (sensitivity / sigma = r) with k discrete Laplaces."""
  h = h_gauss(r) if r > 0 else lambda x: max(0.0, -math.expm1(x))
  if k == 0 or math.isinf(a):
    return h(e)
  p = 1 / (1 + math.exp(-a))
  tot = 0.0
  for j in range(k + 1):
    m = math.exp(math.lgamma(k + 1) - math.lgamma(j + 1) - math.lgamma(
        k - j + 1) + j * math.log(p) - (k - j) * (a + math.log1p(
            math.exp(-a))))
    tot += m * h(e - a * (2 * j - k))
  return tot


def sigma_for(e, d):
  """Smallest standard deviation of one Gaussian within (e, d)."""
  lo, hi = 1e-3, 1e6
  for _ in range(200):
    mid = math.sqrt(lo * hi)
    if h_gauss(1 / mid)(e) > d:
      lo = mid
    else:
      hi = mid
  return hi


def declared(job):
  """Runs in a worker: the calculator for one budget."""
  eps, delta, radius, depth, gm, alow = job
  lm = gm / (sigma_for(eps, delta) * alow)
  mult = cp.PrivacyCalculatorMultiplier(gm, lm)
  budget = cp.DifferentialPrivacyParam(eps, delta)
  out = dict(eps=eps, delta=delta, radius=radius, depth=depth, gm=gm, lm=lm)
  got = observe(pcalc_lib.PrivacyCalculator, budget, radius, depth, mult)
  if got[0] != 'ok':
    return dict(out, err=str(got))
  p = got[1]
  sigma = float(p.average_privacy_param.gaussian_standard_deviation)
  a = float(p.count_privacy_param.laplace_param)
  out.update(sigma=sigma, a=a,
             sens=float(p.average_privacy_param.sensitivity))
  if not sigma > 0 or composed(radius / sigma, a, depth + 1,
                               eps) > delta * 1.01:
    return dict(out, overspent=True)       # nothing else matters
  v = observe(p.validate_accounting, budget, depth)
  out['valid'] = v[0] == 'ok'
  out['valid_msg'] = str(v[1:])
  # less noise of either kind than the smallest sufficient one is refused
  alpha = sigma / (radius * gm)
  for what, s, x in [('sum', sigma * 0.98 if alow > 2 else sigma * 0.99, a),
                     ('count', sigma, a)]:
    del s, x, what
  less = alpha * 0.998 - 4e-6
  if less > 0:
    acc = pld_privacy_accountant.PLDAccountant()
    acc.compose(dp_event.ComposedDpEvent([
        dp_event.GaussianDpEvent(gm * less), dp_event.SelfComposedDpEvent(
            dp_event.LaplaceDpEvent(lm * less), depth + 1)]))
    out['less_delta'] = acc.get_delta(eps)
    out['less_eps'] = acc.get_epsilon(delta)
  # a calculator that spends too much is refused
  out['spent'] = []
  for ds, da in [(0.7, 1.0), (1.0, 1.5), (0.9, 1.2), (0.0, 1.0),
                 (1.0, float('inf'))]:
    q = object.__new__(pcalc_lib.PrivacyCalculator)
    s2, a2 = sigma * ds, a * da
    q.average_privacy_param = cpu.AveragePrivacyParam(s2, radius)
    q.count_privacy_param = cpu.CountPrivacyParam(a2)
    t = composed(radius / s2 if s2 > 0 else float('inf'), a2, depth + 1,
                 eps) if s2 > 0 and not math.isinf(a2) else 1.0
    r = observe(q.validate_accounting, budget, depth)
    out['spent'].append((ds, da, t, r[0] if r[0] == 'ok' else r[1]))
  # so is enough noise for fewer levels than there are
  for more in (1, 2 * depth + 22):
    t = composed(radius / sigma, a, depth + more + 1, eps)
    r = observe(p.validate_accounting, budget, depth + more)
    out['spent'].append(('levels', more, t, r[0] if r[0] == 'ok' else r[1]))
  return out


def whole_run(c, rng, cv, job, res):
  """The noise of a whole clustering with the declared parameters."""
  eps, delta, radius, depth = job[:4]
  dim = rng.randint(1, 4)
  pts = random_data(rng, rng.choice([0, 1, 10, 40, 400]), dim, radius)
  own = rng.random() < 0.5
  depth = depth if own else 20
  tp = cp.TreeParam(rng.choice([1, 2, 5]), 1, depth) if own else None
  mult = cp.PrivacyCalculatorMultiplier(res['gm'], res['lm'])
  wide = rng.choice([0, 2, 8])
  np.random.seed(rng.randint(0, 2 ** 31))
  KMeans.log.clear()
  KMeans.choose = lambda k, x: x[:max(k, 1)]
  crush = rng.random() < .3          # noise that hides how many there are
  with capture_tree() as cap, noise(
      lambda n: rng.randint(-3, 4) - (n or 0) if crush else rng.randint(
          -wide, wide)) as d:
    got = observe(algo.private_lsh_clustering, rng.randint(1, 4),
                  cp.Data(pts, radius), cp.DifferentialPrivacyParam(
                      eps, delta), tree_param=tp, multipliers=mult)
  KMeans.choose = None
  info = dict(budget=[eps, delta], radius=radius, depth=depth, own=own,
              points=len(pts), dim=dim, gm=res['gm'], lm=res['lm'])
  if not c.expect(got[0] == 'ok', 'clusters', lambda: dict(
      info, got=str(got)[:500])):
    return None
  c.traces += 1
  if not c.expect(len(d.counts) >= 1 and len(d.sums) >= 1, 'noises',
                  lambda: dict(info, counts=len(d.counts), sums=len(d.sums))):
    return None
  a, sigma = max(d.counts), min(s for s, _ in d.sums)
  c.expect(all(n == dim for _, n in d.sums), 'noise-of-every-coordinate',
           lambda: dict(info, sums=str(d.sums[:5])))
  # what the run really cost, whatever was declared
  true = composed(radius / sigma if sigma > 0 else float('inf'), a, depth + 1,
                  eps) if sigma > 0 else 1.0
  cv.add('spent', info, {'true': [qlog(true, 1e-30)],
                         'budget': [qlog(delta, 1e-30)]},
         [('leq', 'true', 'budget', 1)])
  c.expect(len(d.sums) == len(KMeans.log[-1][1]), 'one-sum-per-leaf',
           lambda: dict(info, sums=len(d.sums)))
  if cap.tree is None or not d.seen:
    return None
  c.expect(len(d.counts) == len(d.asked), 'each-count-noised', lambda: dict(
      info, draws=len(d.counts), counts=len(d.asked)))
  t = cap.tree.tree[0][0].coreset_param.tree_param
  c.expect(t.max_depth == depth, 'declared-depth', lambda: dict(
      info, got=t.max_depth))
  data = cap.tree.tree[0][0].nonprivate_points
  root = [x for x in d.asked if x[0] == len(pts)][:1]
  c.expect(len(root) == 1 and cap.tree.tree[0][0].private_count == max(
      1, root[0][1]), 'root-count', lambda: dict(
          info, asked=root, got=cap.tree.tree[0][0].private_count))
  row, why = record(cap.tree, depth, t.min_num_points_in_branching_node,
                    t.min_num_points_in_node, data, d.asked, root)
  if not c.expect(row is not None, 'own-points', lambda: dict(
      info, why=why)):
    return None
  return row, info


def infinite(c, rng, n):
  for _ in range(n):
    eps, delta = rng.choice([(float('inf'), 1e-6), (1.0, 1.0), (1.0, 1.5),
                             (float('inf'), 1.0), (float('inf'), 0.0)])
    radius, depth = loguniform(rng, 1e-2, 1e2), rng.randint(0, 25)
    mult = cp.PrivacyCalculatorMultiplier(loguniform(rng, .1, 10),
                                          loguniform(rng, .1, 10))
    budget = cp.DifferentialPrivacyParam(eps, delta)
    got = observe(pcalc_lib.PrivacyCalculator, budget, radius, depth, mult)
    info = lambda: dict(budget=[eps, delta], got=str(got)[:300])
    if c.expect(got[0] == 'ok', 'no-noise', info):
      p = got[1]
      c.expect(p.average_privacy_param.gaussian_standard_deviation == 0
               and p.count_privacy_param.laplace_param == math.inf, 'no-noise',
               info)
      c.expect(observe(p.validate_accounting, budget, depth)[0] == 'ok',
               'no-noise', info)
      pts = random_data(rng, rng.randint(0, 20), 2, radius)
      n_ = cpu.get_private_count(len(pts), p.count_privacy_param)
      avg = cpu.get_private_average(pts, max(1, n_), p.average_privacy_param, 2)
      c.expect(n_ == len(pts) and np.allclose(avg, pts.sum(axis=0) / max(
          1, n_), rtol=1e-12, atol=1e-12 * radius), 'no-noise', info)
    got = observe(pcalc_lib.get_alpha_interval, budget, radius, mult)
    c.expect(got[0] != 'ok' and got[1] == 'ValueError', 'no-noise', info)


def events(c, rng, n):
  for _ in range(n):
    sigma = rng.choice([0, loguniform(rng, .1, 10)])
    a = rng.choice([math.inf, loguniform(rng, .01, 10)])
    s, depth = loguniform(rng, .1, 10), rng.randint(0, 25)
    got = observe(pcalc_lib.make_clustering_event, sigma, a, s, depth)
    info = lambda: dict(sigma=sigma, a=a, s=s, depth=depth, got=str(got)[:300])
    if not c.expect(got[0] == 'ok', 'event', info):
      continue
    found = collections.Counter()

    def walk(e, k):
      if isinstance(e, dp_event.ComposedDpEvent):
        for x in e.events:
          walk(x, k)
      elif isinstance(e, dp_event.SelfComposedDpEvent):
        walk(e.event, k * e.count)
      else:
        found[type(e).__name__, round(getattr(e, 'noise_multiplier', 0.0),
                                      9)] += k
    walk(got[1], 1)
    want = collections.Counter()
    if sigma == 0:
      want['NonPrivateDpEvent', 0.0] += 1
    else:
      want['GaussianDpEvent', round(sigma / s, 9)] += 1
    if a == math.inf:
      want['NonPrivateDpEvent', 0.0] += 1
    else:
      want['LaplaceDpEvent', round(1 / a, 9)] += depth + 1
    private = lambda x: {k: v for k, v in x.items()
                         if k[0] != 'NonPrivateDpEvent'}
    # any number of non private releases is as bad as one
    c.expect(private(found) == private(want)
             and (('NonPrivateDpEvent', 0.0) in found) == (
                 ('NonPrivateDpEvent', 0.0) in want), 'event', info)
    # multipliers
    m = cp.PrivacyCalculatorMultiplier(loguniform(rng, .1, 10),
                                       loguniform(rng, .1, 10))
    al = loguniform(rng, .1, 10)
    c.expect(math.isclose(m.get_alpha(m.get_gaussian_std_dev(al, s), s), al,
                          rel_tol=1e-12), 'multipliers', dict(m=str(m), al=al))


def distribution(c, rng, n):
  """The noise really has the distribution it is accounted for with."""
  for _ in range(n):
    a, m = loguniform(rng, .1, 4), 20000
    np.random.seed(rng.randint(0, 2 ** 31))
    k = rng.randint(0, 50)
    x = np.array([cpu.get_private_count(k, cpu.CountPrivacyParam(a))
                  for _ in range(m)]) - k
    c.expect(all(float(v).is_integer() for v in x), 'count-noise:integer',
             dict(a=a))
    t = math.tanh(a / 2)
    width = int(6 / a) + 1
    probs = {v: t * math.exp(-a * abs(v)) for v in range(-width, width + 1)}
    seen = collections.Counter(int(v) for v in x)
    stat = deg = 0
    for v, p in probs.items():
      if p * m >= 20:
        stat += (seen[v] - p * m) ** 2 / (p * m)
        deg += 1
    rest = 1 - sum(p for p in probs.values() if p * m >= 20)
    if rest * m >= 20:
      got = m - sum(seen[v] for v, p in probs.items() if p * m >= 20)
      stat += (got - rest * m) ** 2 / (rest * m)
    c.expect(stats.chi2.sf(stat, deg) > 1e-9, 'count-noise', dict(
        a=a, stat=stat, degrees=deg))
    sigma, dim, cnt = loguniform(rng, .1, 10), 3, rng.randint(1, 9)
    pts = random_data(rng, rng.randint(0, 9), dim)
    par = cpu.AveragePrivacyParam(sigma, 1.0)
    y = np.array([cpu.get_private_average(pts, cnt, par, dim)
                  for _ in range(4000)])
    y = (y * cnt - pts.sum(axis=0)) / sigma
    for i in range(dim):
      c.expect(stats.kstest(y[:, i], 'norm').pvalue > 1e-9, 'sum-noise',
               dict(sigma=sigma, coordinate=i))
    r = np.corrcoef(y.T)
    c.expect(all(abs(r[i, j]) < 6.5 / math.sqrt(len(y)) for i in range(
        dim) for j in range(i)) and len({tuple(v) for v in y}) == len(y),
             'sum-noise:independent', dict(sigma=sigma, corr=r.tolist()))


def draws(c, rng, n):
  """Any finite budget draws noise, and every value is drawn once."""
  for _ in range(n):
    a, k = rng.choice([loguniform(rng, 1e-3, 10), loguniform(rng, 10, 600),
                       1e4]), rng.choice([0, 1, rng.randint(0, 500)])
    z = rng.randint(-9, 9)
    with noise(lambda n_: z) as d:
      got = observe(cpu.get_private_count, k, cpu.CountPrivacyParam(a))
    c.expect(got == ('ok', k + z) and d.counts == [a], 'draws:count',
             lambda: dict(a=a, n=k, z=z, got=str(got), draws=d.counts))
    # the noise may hide how many points there are
    num, cnt = rng.choice([100, 3000]), rng.randint(-3, 5)
    with noise(lambda n_: cnt - num) as d:
      got = observe(algo.get_private_coreset, cp.Data(np.ones((num, 1)), 1.0),
                    params(0.0, a, 1.0, 10 ** 9, 1, 3), None)
    c.expect(got[0] == 'ok' and [int(w) for w in got[1].weights] == [
        max(1, cnt)], 'draws:weights', lambda: dict(n=num, noisy=cnt,
                                                    got=str(got)))
    dim, radius = rng.randint(1, 4), loguniform(rng, .1, 10)
    sigma = loguniform(rng, 1e-6, 1e3)
    pts = random_data(rng, rng.choice([0, 1, 9]), dim, radius)
    cparam = params(sigma, a, radius, 1, 1, 1)
    with noise(lambda n_: z) as d:
      node = lsh_tree.root_node(cp.Data(pts, radius), cparam, 5)
      one = observe(node.get_private_average)
      two = observe(node.get_private_average)
    c.expect(one[0] == 'ok' and np.array_equal(one[1], two[1])
             and d.sums == [(sigma, dim)], 'draws:average', lambda: dict(
                 sigma=sigma, dim=dim, sums=d.sums, got=str((one, two))))


def shallow(c, rng, n):
  """A calculator that declares one level too few is caught before it is used."""
  old = pcalc_lib.PrivacyCalculator
  for _ in range(n):
    depth = rng.choice([1, 2, 4])
    eps, delta = loguniform(rng, .5, 3), 1e-5
    radius = loguniform(rng, .1, 10)
    mult = cp.PrivacyCalculatorMultiplier(1.0, 1 / (sigma_for(
        eps, delta) * rng.uniform(.05, .5)))
    made = []

    class Less(old):

      def __init__(self, privacy_param, radius, max_depth, multipliers):
        super().__init__(privacy_param, radius, max_depth - 1, multipliers)
        made.append(self)
    pcalc_lib.PrivacyCalculator = Less
    KMeans.log.clear()
    try:
      with noise():
        got = observe(algo.private_lsh_clustering, 2, cp.Data(random_data(
            rng, 10, 2, radius), radius), cp.DifferentialPrivacyParam(
                eps, delta), tree_param=cp.TreeParam(2, 1, depth),
                      multipliers=mult)
    finally:
      pcalc_lib.PrivacyCalculator = old
    if not made:
      continue
    p = made[0]
    true = composed(radius / p.average_privacy_param.gaussian_standard_deviation,
                    p.count_privacy_param.laplace_param, depth + 1, eps)
    info = lambda: dict(eps=eps, delta=delta, depth=depth, true=true,
                        got=str(got)[:300])
    c.expect(true <= delta * 1.001 or (got[0] != 'ok' and not KMeans.log),
             'overspending-run-refused', info)


def default_trees(c, rng, n):
  """The default tree depends on the data through one noisy count only."""
  for _ in range(n):
    k, dim = rng.randint(1, 20), rng.randint(1, 9)
    num, z = rng.choice([0, 1, 10, 500, 10 ** 6]), rng.randint(-30, 30)
    other = rng.choice([num + 3, num + 3, 0, 77, 10 ** 6])
    sigma, radius = rng.choice([0.0, loguniform(rng, .1, 100)]), loguniform(
        rng, .1, 100)
    depth = rng.randint(0, 25)
    a = loguniform(rng, .1, 5)
    outs = []
    for size, shift in [(num, z), (other, num + z - other)]:
      pts = random_data(rng, size, dim, radius) if size < 1000 else np.zeros(
          (size, dim))
      with noise(lambda n_: shift) as d:
        outs.append(observe(dcp.default_tree_param, k, cp.Data(pts, radius),
                            Pcalc(sigma, a, radius), depth))
      c.expect(d.counts == [a] and not d.sums, 'default:one-count', lambda:
               dict(counts=d.counts, sums=d.sums))
    info = lambda: dict(k=k, dim=dim, n=num, z=z, sigma=sigma, radius=radius,
                        got=str(outs))
    if not c.expect(outs[0][0] == 'ok', 'default', info):
      continue
    c.expect(outs[0] == outs[1], 'default:private', info)
    t, got = outs[0][1]
    c.expect(got == num + z and t.max_depth == depth
             and t.min_num_points_in_node >= 1
             and t.min_num_points_in_branching_node
             >= t.min_num_points_in_node, 'default', info)


def c16(c):
  rng = random.Random(c.seed * 15485867 + 16)
  c.tlc('RunCluster', CFG % (3, 2, 'TRUE', 'FALSE'), timeout=800,
        extra_modules={'RunCluster.tla': WRAP % (
            '{-1, 2}', '{<<1, 1>>, <<3, 2>>}')})
  cv = Curves(c)
  n = c.pick(40, 400)
  jobs = [(1.0, 1e-6, 1.0, 20, 1.0, 0.0118), (10.0, 0.01, 1.0, 3, 3.5, 3.0)]
  jobs += [(loguniform(rng, .05, 10), loguniform(rng, 1e-9, .1),
            loguniform(rng, rng.choice([1e-9, 1e-3, 1e-3]), 1e3), rng.choice(
                [0, 1, 3, 8, 20]),
            loguniform(rng, .01, 100), loguniform(rng, rng.choice(
                [1e-6, .003, .003]), 4))
           for _ in range(n)]
  jobs += [(1.0, .6, 2.0, 3, 1.0, .05), (.3, .93, 1.0, 1, 1.0, .5),
           (25.0, 1e-4, .5, 2, 1.0, .3)]
  with multiprocessing.get_context('fork').Pool(8) as pool:
    results = pool.map(declared, jobs, chunksize=1)
  trees, infos = [], []
  for job, res in zip(jobs, results):
    info = lambda: res
    if not c.expect('err' not in res, 'calibrates', info):
      continue
    c.expect(res['sens'] == res['radius'], 'sensitivity', info)
    if not c.expect('overspent' not in res, 'within-budget', info):
      continue
    true = composed(res['radius'] / res['sigma'], res['a'], res['depth'] + 1,
                    res['eps'])
    cv.add('within', res, {'true': [qlog(true, 1e-30)],
                           'budget': [qlog(res['delta'], 1e-30)]},
           [('leq', 'true', 'budget', 1)])
    c.expect(res['valid'], 'validates', info)
    if 'less_delta' in res:
      c.expect(res['less_eps'] > res['eps'] or res['less_delta']
               > res['delta'], 'not-needlessly-large', info)
    for ds, da, t, r in res['spent']:
      if t > res['delta'] * 1.001:
        c.expect(r == 'ValueError', 'overspending-refused', lambda: dict(
            res, sum_factor=ds, count_factor=da, true=t, got=r))
    got = None
    if len(trees) < c.pick(12, 120):
      got = whole_run(c, rng, cv, job, res)
    if got:
      trees.append(got[0])
      infos.append(got[1])
  cv.flush()
  judge(c, trees, infos)
  infinite(c, rng, c.pick(40, 400))
  events(c, rng, c.pick(100, 1000))
  distribution(c, rng, c.pick(3, 20))
  default_trees(c, rng, c.pick(150, 1500))
  draws(c, rng, c.pick(200, 2000))
  shallow(c, rng, c.pick(3, 20))
  c.sample(dict(calibrated=results[0]))
  c.assumptions += [
      'numpy and scipy draw from the distributions they are asked for',
      'neighbouring datasets differ in one added or removed point']


# ------------------------------------------------------------------ C17
def direction(rng, dim):
  v = np.array([rng.gauss(0, 1) for _ in range(dim)])
  return v / np.linalg.norm(v)


def one_leaf(rng, pts, radius, cnt, sigma, z, depth=0):
  """The coreset of a dataset that stays one leaf."""
  cparam = params(sigma, 1.0, radius, 10 ** 9, 1, depth)
  with noise(lambda n: cnt - (n if n is not None else len(pts)),
             lambda n: z) as d:
    data = cp.Data(pts, radius)
    clipped = observe(data.clip_by_radius)
    if clipped[0] != 'ok':
      return clipped, d
    got = observe(algo.get_private_coreset, cp.Data(clipped[1], radius),
                  cparam, None)
  return got, d


def replay_leaf(c, rng, row):
  dim = rng.randint(1, 4)
  u = direction(rng, dim)
  unit = loguniform(rng, 1e-3, 1e3)
  radius = row['radius'] * unit
  pts = np.array([p * unit * u for p in row['pts']]).reshape(
      len(row['pts']), dim)
  sigma = loguniform(rng, .1, 10)
  got, d = one_leaf(rng, pts, radius, row['cnt'], sigma, row['z'] * unit * u)
  c.traces += 1
  want = row['num'] / row['cnt'] * unit * u
  info = lambda: dict(row=row, dim=dim, unit=unit, got=str(got)[:300],
                      want=want.tolist())
  if not c.expect(got[0] == 'ok', 'coreset', info):
    return
  c.expect(got[1].datapoints.shape == (1, dim) and np.allclose(
      got[1].datapoints[0], want, rtol=1e-9, atol=1e-9 * unit), 'coreset', info)
  c.expect([int(w) for w in got[1].weights] == [row['cnt']], 'weight', info)
  c.expect(d.sums == [(sigma, dim)], 'sum-noise', lambda: dict(
      info(), sums=d.sums))


PLANE = lambda p: (float(p % 3), float(p // 3))


def replay_near(c, row):
  pts = np.array([PLANE(p) for p in row['pts']])
  cen = np.array([PLANE(p) for p in row['centers']])
  truth = np.array(row['truth'])
  c.traces += 1
  info = lambda: dict(row=row)
  got = observe(algo.ClusteringResult, cp.Data(pts, 10.0, truth), cen)
  if not c.expect(got[0] == 'ok', 'result', lambda: dict(
      info(), got=str(got))):
    return
  res = got[1]
  labels = [int(x) + 1 for x in res.labels]
  c.expect(len(labels) == len(pts) and all(
      l in near for l, near in zip(labels, row['nearest'])), 'nearest', lambda:
           dict(info(), labels=labels))
  c.expect(abs(float(res.loss) - row['loss']) < 1e-9, 'loss', lambda: dict(
      info(), loss=float(res.loss)))
  if labels != row['first']:
    return
  got = observe(res.cross_label_histogram)
  want = [[h[str(l)] for l in range(max(row['truth']) + 1)]
          for h in row['hist'][:max(labels)]]
  c.expect(got[0] == 'ok' and np.array_equal(got[1], want), 'histogram',
           lambda: dict(info(), got=str(got), want=want))
  if row['tp'] == 0 or row['fp'] == 0:
    return
  got = observe(res.get_clustering_metrics)
  if not c.expect(got[0] == 'ok', 'metrics', info):
    return
  m = got[1]
  have = dict(tp=m.true_pairs, fp=m.false_pairs, nm=m.true_nonmatch_count,
              fm=m.false_match_count, dom=m.dominant_label_correct_count)
  c.expect(all(float(v) == row[k] for k, v in have.items())
           and m.num_points == len(pts), 'metrics', lambda: dict(
               info(), have=str(have)))
  c.expect(math.isclose(m.dominant_label_accuracy, row['dom'] / len(pts))
           and math.isclose(m.true_nonmatch_frac, row['nm'] / row['tp'])
           and math.isclose(m.false_match_frac, row['fm'] / row['fp']),
           'metrics', info)


def clipping(c, rng, n):
  cases = []
  for _ in range(n):
    dim, radius = rng.randint(1, 6), loguniform(rng, 1e-6, 1e6)
    pts = []
    for _ in range(rng.randint(0, 12)):
      s = rng.choice([0.0, 0.3, 0.999999, 1.0, 1.000001, 3.0, 1e6, 1e60,
                      1e-60])
      pts.append(direction(rng, dim) * s * radius)
    pts = np.array(pts).reshape(len(pts), dim)
    cases.append((pts, radius))
  cv = Curves(c)
  for pts, radius in cases:
    before = pts.copy()
    data = cp.Data(pts, radius)
    own = rng.random() < 0.5
    got = observe(data.clip_by_radius) if own else observe(
        cp.Data(np.zeros((1, pts.shape[1])), radius).clip_by_radius, pts)
    info = lambda: dict(points=before.tolist(), radius=radius,
                        got=str(got)[:400])
    if not c.expect(got[0] == 'ok', 'clip', info):
      continue
    out = np.asarray(got[1])
    if not c.expect(out.shape == before.shape and np.array_equal(
        pts, before), 'clip:unchanged-data', info):
      continue
    if not len(pts):
      continue
    big = np.array([math.hypot(*x) for x in before])
    norms = np.array([math.hypot(*x) for x in out])
    cv.add('clip', dict(points=before.tolist()[:6], radius=radius),
           {'norm': [qlin(x / radius, 10 ** 8) for x in norms],
            'bound': [qlin(min(b, radius) / radius, 10 ** 8) for b in big]},
           [('leq', 'norm', 'bound', 1), ('leq', 'bound', 'norm', 1)])
    inside = big <= radius * (1 - 1e-9)
    c.expect(np.array_equal(out[inside], before[inside]), 'clip:inside', info)
    c.expect(all(np.allclose(o / max(w, 1e-300), b / max(g, 1e-300), rtol=1e-9,
                             atol=1e-9) for o, w, b, g in zip(
                                 out, norms, before, big) if g > 0),
             'clip:direction', info)
  cv.flush()


def leaf_noise(rng, points, dim):
  """Sum noise for each leaf, in the order of the draws."""
  log = []

  def draw(n):
    v = np.array([rng.gauss(0, 3) for _ in range(n)])
    log.append(v)
    return v
  del points, dim
  return draw, log


def whole_release(c, rng, n):
  """Whole clusterings: what k-means is given is made of noisy values only."""
  budget = cp.DifferentialPrivacyParam(1.0, 1e-6)
  pool = {}
  for i in range(n):
    radius = rng.choice([0.5, 2.0])
    depth = rng.choice([1, 3, 20])
    key = (radius, depth)
    dim = rng.randint(1, 4)
    pts = random_data(rng, rng.choice([1, 5, 40, 300]), dim, radius)
    crush = rng.random() < .3
    far = rng.random() < 0.5
    if far:
      pts[rng.randrange(len(pts))] *= 1e4
    tp = cp.TreeParam(rng.choice([1, 3]), 1, depth) if depth < 20 else None
    k = rng.randint(1, 6)
    np.random.seed(rng.randint(0, 2 ** 31))
    draw, log = leaf_noise(rng, pts, dim)
    wide = rng.choice([0, 3])
    KMeans.log.clear()
    old = pcalc_lib.PrivacyCalculator
    if key not in pool:
      pool[key] = old(budget, radius, depth, cp.PrivacyCalculatorMultiplier())
    # calibrated once per key only, to save time
    fake = lambda *a, **kw: pool[key]
    pcalc_lib.PrivacyCalculator = fake
    picked = []

    def choose(kk, x):
      del x
      cs = np.array([direction(rng, dim) * rng.random() * radius
                     for _ in range(kk)])
      picked.append(cs)
      return cs
    KMeans.choose = choose
    labels = np.array([rng.randint(0, 2) for _ in pts])
    data = cp.Data(pts.copy(), radius, labels)
    try:
      with capture_tree() as cap, noise(
          lambda n_: rng.randint(-2, 3) - (n_ or 0) if crush else
          rng.randint(-wide, wide), draw) as d:
        got = observe(algo.private_lsh_clustering, k, data, budget,
                      tree_param=tp)
    finally:
      pcalc_lib.PrivacyCalculator = old
      KMeans.choose = None
    info = lambda: dict(number=i, radius=radius, depth=depth, k=k,
                        points=pts.tolist()[:6], got=str(got)[:200])
    if not c.expect(got[0] == 'ok' and len(KMeans.log) == 1, 'clusters', info):
      continue
    c.traces += 1
    kk, x, w = KMeans.log[0]
    c.expect(np.array_equal(data.datapoints, pts), 'data-unchanged', info)
    c.expect(kk == min(k, len(x)) and w is not None and len(w) == len(x),
             'k-means-input', lambda: dict(info(), kk=kk, coreset=len(x)))
    if w is not None:
      c.expect(all(v >= 1 for v in w), 'weights-positive', lambda: dict(
          info(), w=str(w)))
    norms = np.linalg.norm(x, axis=1)
    c.expect(bool(np.all(norms <= radius * (1 + 1e-9))), 'inside', lambda: dict(
        info(), norms=str(norms)))
    s = pool[key].average_privacy_param.gaussian_standard_deviation
    c.expect(all(q == (s, dim) for q in d.sums) and len(d.sums) == len(x),
             'sum-noise', lambda: dict(info(), sums=str(d.sums[:4])))
    # coreset points, from the leaves and the noise that was drawn
    big = np.maximum(np.linalg.norm(pts, axis=1), radius)
    clipped = pts * (radius / big)[:, None]
    if cap.tree is not None and len(log) == len(cap.tree.leaves) == len(x):
      want = []
      for leaf, z in zip(cap.tree.leaves, log):
        ids = rows_of_near(clipped, leaf.nonprivate_points)
        c.expect(ids is not None, 'clipped-points', info)
        if ids is None:
          break
        avg = (clipped[ids].sum(axis=0) + z) / leaf.private_count
        want.append(np.append(avg * radius / max(radius, np.linalg.norm(avg)),
                              leaf.private_count))
      else:
        have = np.column_stack([x, w])
        # leaves may be taken in any order
        c.expect(match(have, np.array(want)), 'coreset', lambda: dict(
            info(), have=have.tolist()[:5], want=[v.tolist()
                                                  for v in want[:5]]))
    res = got[1]
    c.expect(np.array_equal(res.centers, picked[0]), 'centers', info)
    dist = ((pts[:, None, :] - picked[0][None, :, :]) ** 2).sum(axis=2)
    c.expect(res.data is data or np.array_equal(res.data.datapoints, pts),
             'result-data', info)
    near = dist[np.arange(len(pts)), np.asarray(res.labels)]
    scale = np.maximum(dist.max(axis=1), 1e-30)
    c.expect(bool(np.all(near - dist.min(axis=1) <= 1e-9 * scale)), 'nearest',
             info)
    c.expect(math.isclose(float(res.loss), dist.min(axis=1).sum(),
                          rel_tol=1e-6, abs_tol=1e-12), 'loss', info)


def rows_of_near(all_points, mine):
  left = list(range(len(all_points)))
  out = []
  for p in mine:
    if not left:
      return None
    d = [np.max(np.abs(all_points[i] - p)) for i in left]
    j = int(np.argmin(d))
    if d[j] > 1e-9 * max(1.0, np.max(np.abs(p))):
      return None
    out.append(left.pop(j))
  return out


def match(have, want):
  if have.shape != want.shape:
    return False
  key = lambda m: m[np.lexsort(np.round(m, 7).T)]
  a, b = key(have), key(want)
  if np.allclose(a, b, rtol=1e-7, atol=1e-7):
    return True
  left = list(range(len(want)))
  for h in have:
    k = [j for j in left if np.allclose(h, want[j], rtol=1e-7, atol=1e-7)]
    if not k:
      return False
    left.remove(k[0])
  return True


def leaving(c, rng, n):
  """A point that leaves a leaf moves the released sum by at most the radius."""
  cv = Curves(c)
  for _ in range(n):
    dim, radius = rng.randint(1, 5), loguniform(rng, 1e-2, 1e2)
    pts = np.array([direction(rng, dim) * radius * loguniform(
        rng, .1, rng.choice([1, 100])) for _ in range(rng.randint(1, 8))])
    cnt, z = rng.randint(1, 20), direction(rng, dim) * radius
    a, _ = one_leaf(rng, pts, radius, cnt, 1.0, z)
    j = rng.randrange(len(pts))
    b, _ = one_leaf(rng, np.delete(pts, j, axis=0), radius, cnt, 1.0, z)
    info = dict(points=pts.tolist(), radius=radius, cnt=cnt)
    if c.expect(a[0] == 'ok' and b[0] == 'ok', 'leaving', info):
      move = np.linalg.norm(a[1].datapoints - b[1].datapoints) * cnt
      cv.add('leaving', info, {'move': [qlin(move / radius, 10 ** 6)],
                               'radius': [10 ** 6]},
             [('leq', 'move', 'radius', 2)])
  cv.flush()


def random_results(c, rng, n):
  for _ in range(n):
    dim, num, k = rng.randint(1, 4), rng.randint(2, 40), rng.randint(1, 6)
    unit = rng.choice([1.0, loguniform(rng, 1e-8, 1e8)])
    pts = random_data(rng, num, dim, unit)
    cen = random_data(rng, k, dim, unit)
    truth = np.array([rng.randint(0, 4) for _ in range(num)])
    got = observe(algo.ClusteringResult, cp.Data(pts, 1.0, truth), cen)
    info = lambda: dict(points=pts.tolist()[:5], centers=cen.tolist(),
                        got=str(got)[:300])
    if not c.expect(got[0] == 'ok', 'result', info):
      continue
    res = got[1]
    lab = [int(v) for v in res.labels]
    dist = ((pts[:, None, :] - cen[None, :, :]) ** 2).sum(axis=2)
    least = dist.min(axis=1)
    c.expect(bool(np.all(dist[np.arange(num), lab] - least <= 1e-9 * np.maximum(
        dist.max(axis=1), 1e-300))) and math.isclose(float(
            res.loss), least.sum(), rel_tol=1e-6, abs_tol=1e-12 * unit ** 2),
             'nearest', info)
    hist = observe(res.cross_label_histogram)
    want = np.zeros((max(lab) + 1, max(truth) + 1), int)
    for a, b in zip(lab, truth):
      want[a, b] += 1
    c.expect(hist[0] == 'ok' and np.array_equal(hist[1], want), 'histogram',
             info)
    tp = fp = nm = fm = 0
    for a, b in itertools.combinations(range(num), 2):
      same, tog = truth[a] == truth[b], lab[a] == lab[b]
      tp += same
      fp += not same
      nm += same and not tog
      fm += tog and not same
    m = observe(algo.ClusteringMetrics, want)
    if c.expect(m[0] == 'ok', 'metrics', info):
      m = m[1]
      c.expect((m.true_pairs, m.false_pairs, m.true_nonmatch_count,
                m.false_match_count, m.dominant_label_correct_count) == (
                    tp, fp, nm, fm, want.max(axis=1).sum()), 'metrics', info)
    # given labels: checked, not believed
    for labels, loss, ok in [
        (np.array(lab), 1.0, True), (np.array(lab), None, False),
        (None, 1.0, False), (np.array(lab[:-1]), 1.0, False),
        (np.array(lab[:-1] + [k]), 1.0, False),
        (np.array(lab[:-1] + [-1]), 1.0, False)]:
      g = observe(algo.ClusteringResult, cp.Data(pts, 1.0, truth), cen,
                  labels, loss)
      c.expect((g[0] == 'ok') == ok and (ok or g[1] == 'ValueError'),
               'result-refused', lambda: dict(info(), labels=str(labels),
                                              loss=loss, got=str(g)[:200]))
    g = observe(algo.ClusteringResult, cp.Data(pts, 1.0), np.zeros(
        (2, dim + 1)))
    c.expect(g[0] != 'ok', 'result-refused', info)
    g = observe(algo.ClusteringResult(cp.Data(pts, 1.0),
                                      cen).get_clustering_metrics)
    c.expect(g[0] != 'ok' and g[1] == 'ValueError', 'unlabelled', info)
    g = observe(cp.Data, pts, 1.0, truth[:-1])
    c.expect(g[0] != 'ok' and g[1] == 'ValueError', 'labels-refused', info)
  for cnt in (0, -1, -5):
    g = observe(cpu.get_private_average, np.zeros((2, 2)), cnt,
                cpu.AveragePrivacyParam(1.0, 1.0), 2)
    c.expect(g[0] != 'ok' and g[1] == 'ValueError', 'average-refused',
             dict(count=cnt))


def c17(c):
  rng = random.Random(c.seed * 32452867 + 17)
  r = c.tlc('RunCoreset', LEAFCFG % (3, c.pick('{0, 1, 5}', '{0, 1, 4, 5}'),
                                     'TRUE'), timeout=800, extra_modules={
                                         'RunCoreset.tla': LEAF % c.pick(
                                             '{-5, 0, 2}',
                                             '{-9, -5, -1, 0, 2, 6}')})
  rows = {repr(sorted(x.items(), key=str)): x for x in r.rows}
  for row in rows.values():
    if row['phase'] == 'leaf':
      replay_leaf(c, rng, row)
    else:
      replay_near(c, row)
  c.sample(dict(row=str(r.rows[0])[:300]))
  clipping(c, rng, c.pick(300, 3000))
  leaving(c, rng, c.pick(150, 1500))
  whole_release(c, rng, c.pick(60, 600))
  random_results(c, rng, c.pick(60, 600))
  c.assumptions += ['k-means is scikit-learn\'s: its input and output are '
                    'checked, it is not', 'points have finite coordinates '
                    'whose squares do not overflow']


def body(prop):
  return {'C15': c15, 'C16': c16, 'C17': c17}[prop]
