"""Stand-ins for the packages the auditorium needs and the sandbox lacks.

They do no learning and no search: models classify by a function the check
supplies, studies propose parameters the check supplies, and both record how
they were used.  install() puts them in sys.modules before dp_auditorium is
imported.
"""
import importlib
import sys
import types

import numpy as np


class Ns(types.ModuleType):
  """A module whose missing numeric functions are numpy's."""

  def __getattr__(self, name):
    if name.startswith('__'):
      raise AttributeError(name)
    short = name[len('reduce_'):] if name.startswith('reduce_') else name
    f = getattr(np, short, None)
    if f is None:
      raise AttributeError(name)
    return f


# ---------------------------------------------------------------- tensorflow
class Layer:

  def __init__(self, *a, **kw):
    self.kernel = self.bias = None


class Activation(Layer):

  def __init__(self, fn, *a, **kw):
    super().__init__()
    self.fn = fn

  def __call__(self, x):
    return self.fn(x) if callable(self.fn) else getattr(np, self.fn)(x)


class Model:
  """keras.Model: remembers what it was trained and evaluated on."""
  on_fit = None      # called with (model, x, y) after every training

  def __init__(self, *a, **kw):
    self.fits = []
    self.evals = []
    self.compiled = None
    self.optimizer = None

  def compile(self, *a, **kw):
    self.compiled = kw
    self.optimizer = kw.get('optimizer')

  def fit(self, x=None, y=None, **kw):
    self.fits.append((np.array(x), np.array(y), kw))
    if Model.on_fit is not None:
      Model.on_fit(self, np.array(x), np.array(y))
    return types.SimpleNamespace(history={})

  def __call__(self, *a, **kw):
    return self.call(*a, **kw)


class Variable:
  """A weight: assign() sets the value."""

  def __init__(self, value):
    self.value = np.array(value, dtype=float)
    self.shape = self.value.shape

  def assign(self, v):
    self.value = np.array(v, dtype=float)


class Dense(Layer):

  def __init__(self, units=1, *a, **kw):
    super().__init__()
    self.units = units
    self.kernel = Variable(np.zeros((1, units)))
    self.bias = Variable(np.zeros(units))
    self.kernel_initializer = lambda shape: np.zeros(
        shape.shape if hasattr(shape, 'shape') and shape.shape else shape)
    self.bias_initializer = self.kernel_initializer

  def __call__(self, x):
    return x


class Sequential(Model):
  """A stack; `predict_fn` gives the output before the added layers."""

  def __init__(self, layers=None, predict_fn=None, log=None):
    super().__init__()
    self.layers = list(layers or [])
    self.predict_fn = predict_fn
    self.log = log if log is not None else []
    self.trainable_variables = []
    self.clones = []
    self.inner = None

  def add(self, layer):
    self.layers.append(layer)

  def _out(self, x):
    x = np.array(x, dtype=float)
    out = self.predict_fn(x) if self.predict_fn else np.zeros((len(x), 1))
    for layer in self.layers:
      if isinstance(layer, Activation):
        out = layer(out)
    return out

  def call(self, x, training=None):
    self.log.append(('call', np.array(x), training))
    return self._out(x)

  def predict(self, x, **kw):
    self.log.append(('predict', np.array(x), None))
    return self._out(x)

  def evaluate(self, x=None, y=None, batch_size=None, return_dict=False, **kw):
    x, y = np.array(x), np.array(y)
    self.evals.append((x, y))
    threshold = .5
    for m in (self.compiled or {}).get('metrics') or []:
      threshold = getattr(m, 'threshold', threshold)
    out = np.asarray(self._out(x)).reshape(len(x), -1)[:, 0]
    acc = float(np.mean((out > threshold) == (y.reshape(-1) > .5))) if len(
        x) else 0.0
    if return_dict:
      return {'loss': 0.123, 'binary_accuracy': acc}
    return [0.123, acc]


def clone_model(m, *a, **kw):
  new = Sequential(m.layers, m.predict_fn, m.log)
  m.clones.append(new)
  return new


class _Metric:

  def __init__(self, *a, threshold=.5, **kw):
    self.threshold = a[1] if len(a) > 1 else threshold


def _tensorflow():
  tf = Ns('tensorflow')
  tf.math = Ns('tensorflow.math')
  tf.Tensor = np.ndarray
  tf.shape = np.shape
  tf.Variable = Variable
  k = types.ModuleType('tensorflow.keras')
  tf.keras = k
  k.Model, k.Sequential = Model, Sequential
  k.models = types.SimpleNamespace(Sequential=Sequential, Model=Model,
                                   clone_model=clone_model)
  act = types.SimpleNamespace(tanh=np.tanh, sigmoid=lambda x: 1 / (
      1 + np.exp(-x)), relu=lambda x: np.maximum(x, 0))
  k.activations = act
  k.layers = types.SimpleNamespace(Dense=Dense, Activation=Activation,
                                   Layer=Layer, Lambda=Activation)
  opt = lambda *a, **kw: types.SimpleNamespace(args=a, kw=kw)
  k.optimizers = types.SimpleNamespace(Adam=opt, SGD=opt)
  k.losses = types.SimpleNamespace(BinaryCrossentropy=opt)
  k.metrics = types.SimpleNamespace(BinaryAccuracy=_Metric)
  return {'tensorflow': tf, 'tensorflow.math': tf.math, 'tensorflow.keras': k}


# -------------------------------------------------------------------- vizier
class Trial:

  def __init__(self, study, tid, parameters):
    self.study, self.id, self.parameters = study, tid, parameters
    self.completed = []

  def complete(self, measurement=None, *a, **kw):
    m = measurement if measurement is not None else kw.get('measurement')
    self.completed.append(dict(m.metrics))
    self.study.log.append(('complete', self.id, dict(m.metrics)))


class Study:
  """`propose(study, index)` gives the parameters of the next trial or None."""
  propose = None
  created = []

  def __init__(self, config, owner, study_id):
    self.config, self.owner, self.study_id = config, owner, study_id
    self.log = []
    self.trials = []

  @classmethod
  def from_study_config(cls, config, owner=None, study_id=None):
    s = cls(config, owner, study_id)
    Study.created.append(s)
    return s

  def suggest(self, count=1, **kw):
    out = []
    for _ in range(count):
      p = Study.propose(self, len(self.trials))
      if p is None:
        out.append(None)
        self.log.append(('none',))
        continue
      t = Trial(self, len(self.trials), p)
      self.trials.append(t)
      self.log.append(('suggest', t.id))
      out.append(t)
    return out


class _Root:

  def __init__(self):
    self.params = {}

  def add_float_param(self, name, min_value=None, max_value=None, **kw):
    self.params[name] = ('float', min_value, max_value)

  def add_int_param(self, name, min_value=None, max_value=None, **kw):
    self.params[name] = ('int', min_value, max_value)


class ProblemStatement:

  def __init__(self, *a, **kw):
    self.search_space = types.SimpleNamespace(root=_Root())
    self.metric_information = []


class StudyConfig(types.SimpleNamespace):

  @classmethod
  def from_problem(cls, problem):
    return cls(problem=problem, algorithm=None,
               search_space=problem.search_space,
               metric_information=problem.metric_information)


class Measurement:

  def __init__(self, metrics=None, **kw):
    self.metrics = dict(metrics or {})


def _vizier():
  root = types.ModuleType('vizier')
  service = types.ModuleType('vizier.service')
  clients = types.ModuleType('vizier.service.clients')
  pyv = types.ModuleType('vizier.service.pyvizier')
  root.__path__ = service.__path__ = []
  root.service = service
  service.clients, service.pyvizier = clients, pyv
  clients.Study, clients.Trial = Study, Trial
  clients.environment_variables = types.SimpleNamespace(
      servicer_use_sql_ram=lambda: None)
  pyv.ProblemStatement, pyv.StudyConfig = ProblemStatement, StudyConfig
  pyv.Measurement = Measurement
  pyv.MetricInformation = lambda name=None, goal=None, **kw: (
      types.SimpleNamespace(name=name, goal=goal))
  pyv.ObjectiveMetricGoal = types.SimpleNamespace(
      MAXIMIZE='MAXIMIZE', MINIMIZE='MINIMIZE')
  pyv.Algorithm = str
  return {'vizier': root, 'vizier.service': service,
          'vizier.service.clients': clients,
          'vizier.service.pyvizier': pyv}


# --------------------------------------------------------------- pipeline_dp
class BudgetAccountant:
  """Knows whether its budget was split before results were read."""
  made = []

  def __init__(self, total_epsilon, total_delta, *a, **kw):
    self.epsilon, self.delta = total_epsilon, total_delta
    self.computed = 0
    self.engines = 0
    BudgetAccountant.made.append(self)

  def compute_budgets(self):
    self.computed += 1


class DPEngine:
  """Exact per partition sums and counts, read lazily."""
  calls = []

  def __init__(self, accountant, backend):
    self.accountant, self.backend = accountant, backend
    accountant.engines += 1

  def aggregate(self, data, params, extractors, public_partitions=None, **kw):
    acc = self.accountant
    call = dict(accountant=acc, params=params, public=public_partitions,
                rows=[(extractors.partition_extractor(x),
                       extractors.privacy_id_extractor(x),
                       extractors.value_extractor(x)) for x in data])
    DPEngine.calls.append(call)
    k = len(DPEngine.calls)

    def results():
      if not acc.computed:
        raise RuntimeError('results were read before the budget was computed')
      parts = sorted({r[0] for r in call['rows']}) if (
          public_partitions is None) else public_partitions
      for p in parts:
        vals = [r[2] for r in call['rows'] if r[0] == p]
        yield p, (float(len(vals)), float(sum(vals)), float(k))
    return results()


def _pipeline_dp():
  m = types.ModuleType('pipeline_dp')
  m.NaiveBudgetAccountant = BudgetAccountant
  m.DPEngine = DPEngine
  m.LocalBackend = lambda *a, **kw: 'local'
  m.DataExtractors = lambda **kw: types.SimpleNamespace(**kw)
  m.AggregateParams = lambda **kw: types.SimpleNamespace(**kw)
  return {'pipeline_dp': m}


def install():
  mods = {}
  mods.update(_tensorflow())
  mods.update(_vizier())
  mods.update(_pipeline_dp())
  try:
    importlib.import_module('typing_extensions')
  except ImportError:
    te = types.ModuleType('typing_extensions')
    te.override = lambda f: f
    mods['typing_extensions'] = te
  etils = types.ModuleType('etils')
  etils.__path__ = []
  at = types.ModuleType('etils.array_types')
  at.IntArray = at.FloatArray = np.ndarray
  etils.array_types = at
  mods['etils'], mods['etils.array_types'] = etils, at
  sys.modules.update(mods)
