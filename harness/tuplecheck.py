"""C14: events are values and survive conversion to named tuples."""
import collections
from collections.abc import Mapping, Sequence
import copy
import random
from typing import Any

import attr

from dp_accounting import dp_event

from harness.vlib import observe

CFG = '''SPECIFICATION Spec
CONSTANTS
 EmitRows = TRUE
 Wide = %s
INVARIANTS RoundTrip NoEvents NeverAccepted Emitted
CHECK_DEADLOCK FALSE
'''
TRACE = '''SPECIFICATION TSpec
CONSTANTS
 EmitRows = FALSE
 Wide = FALSE
INVARIANTS Judged
CHECK_DEADLOCK FALSE
'''


@attr.s(frozen=True, slots=True, auto_attribs=True)
class Box(dp_event.DpEvent):
  """A user's event with a field of any kind."""
  item: Any


@attr.s(frozen=True, auto_attribs=True)
class Pair(dp_event.DpEvent):
  """A user's event whose field names are those of tuple methods."""
  index: Any
  count: Any


@attr.s(frozen=True, auto_attribs=True)
class _Odd_(dp_event.DpEvent):  # pylint: disable=invalid-name
  """A user's event whose names look like those of the conversion."""
  layer_name: Any
  class_names: Any


@attr.s(frozen=True, auto_attribs=True)
class Hidden(dp_event.DpEvent):
  _secret: float


@attr.s(frozen=True, auto_attribs=True)
class Derived(dp_event.DpEvent):
  base: float
  derived: float = attr.field(init=False, default=1.0)


OWN = {'Box': Box, 'Pair': Pair, '_Odd_': _Odd_}
KEYS = {'text': lambda i: 'k%d' % i, 'number': lambda i: i - 1,
        'pair': lambda i: (i, 'k'), 'bytes': lambda i: b'k%d' % i}
PLAIN = {'1.5': 1.5, '2': 2, 'text': 'text', 'none': None}


def klass(name):
  return OWN[name] if name in OWN else getattr(dp_event, name)


def build(v, plain=PLAIN):
  t = v['t']
  if t == 'plain':
    return plain[v['v']]
  xs = [build(x, plain) for x in v['xs']]
  if t == 'seq':
    return xs if v['k'] == 'list' else tuple(xs)
  if t == 'map':
    return {KEYS[v['k']](i): x for i, x in enumerate(xs)}
  if t == 'event':
    return klass(v['c'])(*xs)
  # a named tuple as another program would make it
  nt = collections.namedtuple('Foreign', ['module_name', 'class_name']
                              + list(v['fs']))
  return nt(module(v['c']), v['c'], *xs)


def module(c):
  return __name__ if c in OWN else dp_event.__name__


def project(o, names):
  """The term of a python object. names: id/value -> name of plain values."""
  if isinstance(o, dp_event.DpEvent):
    return dict(t='event', c=type(o).__name__,
                xs=[project(getattr(o, a.name), names)
                    for a in attr.fields(type(o))])
  if isinstance(o, tuple) and hasattr(o, '_fields'):
    fs = list(o._fields)
    if fs[:2] != ['module_name', 'class_name'] or o.module_name != module(
        o.class_name):
      return dict(t='plain', v='not a DpEvent named tuple')
    return dict(t='named', c=o.class_name, fs=fs[2:],
                xs=[project(x, names) for x in tuple(o)[2:]])
  if type(o) in (list, tuple):
    return dict(t='seq', k=type(o).__name__, xs=[project(x, names) for x in o])
  if type(o) is dict:
    for kind, key in KEYS.items():
      want = [key(i) for i in range(len(o))]
      if list(o) == want and [type(x) for x in o] == [type(x) for x in want]:
        return dict(t='map', k=kind, xs=[project(x, names) for x in o.values()])
    return dict(t='plain', v='keys %s' % list(o))
  for n, x in names.items():
    if type(x) is type(o) and x == o:
      return dict(t='plain', v=n)
  return dict(t='plain', v='%s %r' % (type(o).__name__, o))


def same(a, b):
  return a == b


def traverse(o, how):
  """What structure-preserving traversals of other libraries do."""
  if isinstance(o, tuple) and hasattr(o, '_fields'):
    return type(o)(*[traverse(x, how) for x in o])
  if isinstance(o, (list, tuple)):
    return type(o)([traverse(x, how) for x in o])
  if isinstance(o, Mapping):
    return type(o)([(k, traverse(v, how)) for k, v in o.items()])
  return how(o)


def encode_names(o):
  """Names as bytes, the way serialization returns them."""
  if isinstance(o, tuple) and hasattr(o, '_fields'):
    xs = [encode_names(x) for x in o]
    xs[0], xs[1] = o.module_name.encode(), o.class_name.encode()
    return type(o)(*xs)
  if isinstance(o, (list, tuple)):
    return type(o)([encode_names(x) for x in o])
  if isinstance(o, Mapping):
    return {k: encode_names(v) for k, v in o.items()}
  return o


def replay(c, row):
  v, t = row['event'], row['tuple']
  c.traces += 1
  if row['phase'] != 'tuple':
    foreign = build(t)
    got = observe(dp_event.DpEvent.from_named_tuple, foreign)
    info = lambda: dict(foreign=repr(foreign), got=repr(got)[:400])
    if row['phase'] == 'tampered':
      c.expect(got[0] != 'ok', 'refused', info)
    elif c.expect(got[0] == 'ok', 'reordered', info):
      c.expect(project(got[1], PLAIN) == v, 'reordered', info)
    return
  e = build(v)
  got = observe(e.to_named_tuple)
  info = lambda: dict(event=repr(e), got=repr(got)[:400])
  if not c.expect(got[0] == 'ok', 'converts', info):
    return
  nt = got[1]
  c.expect(isinstance(nt, tuple) and isinstance(
      nt, dp_event.DpEventNamedTuple), 'is-named-tuple', info)
  c.expect(project(nt, PLAIN) == t, 'representation', info)
  c.expect(project(e, PLAIN) == v, 'unchanged', info)
  for how, x in [('itself', nt), ('traversed', traverse(nt, lambda y: y)),
                 ('bytes', encode_names(nt)), ('foreign', build(t))]:
    back = observe(dp_event.DpEvent.from_named_tuple, x)
    info2 = lambda: dict(info(), how=how, back=repr(back)[:400])
    if c.expect(back[0] == 'ok', 'restores', info2):
      c.expect(back[1] == e and type(back[1]) is type(e)
               and project(back[1], PLAIN) == v, 'round-trip', info2)
  # the class it is called on does not matter
  back = observe(dp_event.GaussianDpEvent.from_named_tuple, nt)
  c.expect(back[0] == 'ok' and back[1] == e, 'any-class', info)
  h = observe(hash, e)
  c.expect((h[0] == 'ok') == row['hash'] and (
      h[0] != 'ok' or h[1] == hash(build(v))), 'hash', info)
  f = [a.name for a in attr.fields(type(e))]
  for n in f + ['other']:
    got2 = observe(setattr, e, n, 7)
    c.expect(got2[0] != 'ok', 'immutable', lambda: dict(info(), field=n))
  c.expect(copy.deepcopy(e) == e and copy.copy(e) == e, 'copies', info)


def equality(c, rng, terms, n):
  evs = [(v, build(v)) for v in terms]
  for _ in range(n):
    (v, a), (w, b) = rng.choice(evs), rng.choice(evs)
    eq = v == w
    c.expect((a == b) == eq and (a != b) != eq and (b == a) == eq, 'equality',
             lambda: dict(a=repr(a), b=repr(b), want=eq))
  for v, a in evs:
    b = build(v)
    c.expect(a == b and not a != b, 'equality', lambda: dict(a=repr(a)))
    # another class with the same fields is another event
    k = type(a)
    for other in CLASSES:
      if other is not k and len(attr.fields(other)) == len(
          attr.fields(k)) and [x.name for x in attr.fields(other)] == [
              x.name for x in attr.fields(k)]:
        b = other(*[getattr(a, x.name) for x in attr.fields(k)])
        c.expect(a != b and b != a, 'equality:class', lambda: dict(
            a=repr(a), b=repr(b)))


CLASSES = [x for x in vars(dp_event).values() if isinstance(x, type)
           and issubclass(x, dp_event.DpEvent)]


def random_value(rng, depth, sig, names, want=None):
  kind = want or rng.choice(['plain', 'plain', 'event', 'event', 'seq', 'map'])
  if depth <= 0:
    kind = 'event' if want == 'event' else 'plain'
  if kind == 'plain':
    return dict(t='plain', v=rng.choice(list(names)))
  sub = lambda w=None: random_value(rng, depth - 1, sig, names, w)
  if kind == 'event':
    pool = [k for k, f in sig.items() if depth > 0 or not f]
    k = rng.choice(pool)
    xs = []
    for f in sig[k]:
      if k in OWN:
        xs.append(sub())
      elif f == 'event':
        xs.append(sub('event'))
      elif f == 'events':
        xs.append(dict(t='seq', k=rng.choice(['list', 'tuple']), xs=[
            sub('event') for _ in range(rng.randint(0, 3))]))
      else:
        xs.append(sub(rng.choice(['plain', 'plain', 'seq'])))
    return dict(t='event', c=k, xs=xs)
  xs = [sub() for _ in range(rng.randint(0, 3))]
  if kind == 'map':
    return dict(t='map', k=rng.choice(list(KEYS)) if xs else 'text', xs=xs)
  return dict(t='seq', k=rng.choice(['list', 'tuple']), xs=xs)


def recorded(c, rng, n, sig):
  names = dict(PLAIN, flag=True, inf=float('inf'), neg=-3.25, big=10 ** 20,
               raw=b'raw', empty='', steps=range(3), word='two words')
  rows, evs = [], []
  for _ in range(n):
    v = random_value(rng, rng.randint(1, 6), sig, names, 'event')
    e = build(v, names)
    nt = observe(e.to_named_tuple)
    back = observe(dp_event.DpEvent.from_named_tuple,
                   nt[1]) if nt[0] == 'ok' else nt
    if not c.expect(back[0] == 'ok', 'recorded:converts', lambda: dict(
        event=repr(e), got=repr(back)[:400])):
      continue
    rows.append(dict(event=v, tuple=project(nt[1], names),
                     back=project(back[1], names)))
    evs.append(e)
    c.expect(back[1] == e, 'recorded:equal', lambda: dict(event=repr(e)))
  r = c.tlc('TraceTuple', TRACE, data={'conversions.json': rows}, timeout=800)
  c.ok('recorded:specified', len(rows))
  for b in {x['id'] for x in r.bad}:
    c.violation('recorded:specified', dict(
        event=repr(evs[b - 1]), row=rows[b - 1]), key=repr(evs[b - 1]))
  c.traces += len(rows)


def refusals(c):
  for e, want in [(Hidden(1.0), 'ValueError'), (Derived(1.0), 'ValueError')]:
    got = observe(e.to_named_tuple)
    c.expect(got[0] != 'ok' and got[1] == want, 'unconvertible', lambda: dict(
        event=repr(e), got=repr(got)))
  for name, fs in [('Hidden', {'_secret': 1.0}), ('Derived',
                   {'base': 1.0, 'derived': 2.0})]:
    # rename fields: namedtuple does not allow underscores
    cls = type('Odd', (tuple,), {})
    del cls
    nt = collections.namedtuple('Odd', ['module_name', 'class_name'] + [
        f.strip('_') for f in fs])
    got = observe(dp_event.DpEvent.from_named_tuple, nt(
        __name__, name, *fs.values()))
    if name == 'Derived':
      c.expect(got[0] != 'ok' and got[1] == 'ValueError', 'unconvertible',
               lambda: dict(cls=name, got=repr(got)))
  nt = collections.namedtuple('Odd', ['module_name', 'class_name'])
  for m, k in [('no.such.module', 'GaussianDpEvent'), (dp_event.__name__,
               'Nonsense'), ('', 'NoOpDpEvent')]:
    got = observe(dp_event.DpEvent.from_named_tuple, nt(m, k))
    c.expect(got[0] != 'ok', 'unknown', lambda: dict(module=m, cls=k,
                                                     got=repr(got)))


def body(prop):
  del prop

  def run(c):
    rng = random.Random(c.seed * 32452843 + 14)
    r = c.tlc('MCTuple', CFG % c.pick('FALSE', 'TRUE'), timeout=800)
    seen = {}
    for row in r.rows:
      seen.setdefault(repr((row['phase'], row['event'], row['tuple'])), row)
    sig = {}
    for row in seen.values():
      if row['phase'] == 'tuple':
        sig[row['tuple']['c']] = row['tuple']['fs']
    for name, fs in sig.items():
      k = observe(klass, name)
      got = [a.name for a in attr.fields(k[1])] if k[0] == 'ok' else None
      c.expect(got is not None and got[:len(fs)] == list(fs) and all(
          a.default is not attr.NOTHING for a in attr.fields(k[1])[len(fs):]),
          'classes', lambda: dict(cls=name, want=fs, got=got))
    if c.n_viol:
      return
    for row in seen.values():
      replay(c, row)
    terms = [row['event'] for row in seen.values() if row['phase'] == 'tuple']
    equality(c, rng, terms, c.pick(40000, 400000))
    recorded(c, rng, c.pick(2500, 25000), sig)
    refusals(c)
    c.sample(dict(row=str(r.rows[-1])[:300]))
    c.assumptions += ['fields hold events, plain values, and lists, tuples, '
                      'dicts, strings, bytes and ranges of them; other '
                      'containers cannot be rebuilt from their elements']
  return run
