"""Builds the Go library from the working tree and drives it.

The library is compiled as it stands in <repo>/go, together with go/driver. Its
two external packages cannot be fetched here; go/glog and go/gonum stand in for
what it uses of them (log.Warningf/Fatalf, the normal distribution).
"""
import json
import os
import subprocess

from harness import vlib

GO = os.path.join(vlib.VERIF, 'go')

MOD = '''module zzz.driver

go 1.21

require (
\taaa.scripted v0.0.0
\tgithub.com/google/differential-privacy/go/v3 v3.0.0
\tgithub.com/golang/glog v1.2.0
\tgonum.org/v1/gonum v0.14.0
)

replace aaa.scripted => %(go)s/scripted

replace github.com/golang/glog => %(go)s/glog

replace gonum.org/v1/gonum => %(go)s/gonum

replace github.com/google/go-cmp => %(go)s/empty/cmp

replace golang.org/x/exp => %(go)s/empty/exp

replace github.com/google/differential-privacy/go/v3 => %(repo)s/go
'''


def build(c):
  """Compiles the driver; returns a function that runs a list of jobs."""
  repo = os.environ.get('VF_REPO', '/repo')
  d = os.path.join(c.scratch, 'go')
  os.makedirs(os.path.join(d, 'main'))
  with open(os.path.join(GO, 'driver', 'main.go')) as f:
    src = f.read()
  with open(os.path.join(d, 'main', 'main.go'), 'w') as f:
    f.write(src)
  with open(os.path.join(d, 'main', 'go.mod'), 'w') as f:
    f.write(MOD % {'go': GO, 'repo': repo})
  env = dict(os.environ)
  env.update(GOPROXY='off', GOFLAGS='-mod=mod', GOTOOLCHAIN='local',
             GOSUMDB='off', GO111MODULE='on', CGO_ENABLED='0', GOWORK='off',
             GOCACHE=os.path.join(d, 'cache'), GOPATH=os.path.join(d, 'path'),
             HOME=d, GOENV='off')
  env['PATH'] += ':/usr/local/go/bin'
  exe = os.path.join(d, 'driver')
  p = subprocess.run(['go', 'build', '-o', exe, '.'],
                     cwd=os.path.join(d, 'main'), env=env,
                     stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                     text=True, check=False)
  if p.returncode:
    raise vlib.MachineryError('the Go driver does not build:\n'
                              + p.stdout[-3000:])

  patience = [c.pick(300, 3000)]

  def run(jobs, seed=None, procs=8):
    """Outcomes of the jobs, in order: a list per job."""
    timeout = patience[0]
    n = max(1, min(procs, len(jobs)))
    parts = [jobs[i::n] for i in range(n)]
    ps = []
    for i, part in enumerate(parts):
      e = dict(env)
      e['DRIVER_SEED'] = str((c.seed if seed is None else seed) * 1000 + i)
      fi = os.path.join(d, 'in%d.json' % i)
      fo = os.path.join(d, 'out%d.json' % i)
      with open(fi, 'w') as f:
        json.dump(part, f)
      ps.append((subprocess.Popen(
          ['timeout', '-k', '5', str(timeout), exe], stdin=open(fi),
          stdout=open(fo, 'w'), stderr=subprocess.PIPE, env=e), fo))
    out = [None] * len(jobs)
    for i, (p, fo) in enumerate(ps):
      err = p.communicate()[1].decode(errors='replace')
      with open(fo) as f:
        rows = [json.loads(x) for x in f if x.endswith('\n')]
      for k, r in enumerate(rows):
        out[i + k * n] = r
      if p.returncode in (124, 137):
        patience[0] = 20
      if p.returncode:
        # the library ended the process or hung: the first job without answer
        bad = i + len(rows) * n
        what = 'does not end' if p.returncode in (124, 137) else 'crashed'
        if bad < len(jobs):
          out[bad] = [{'ok': False, 'err': 'PROCESS %s: %s' % (
              what, err[-300:]), 'vals': None, 'calls': None}]
    return out

  return run


def number(x):
  if isinstance(x, str):
    return float(x)
  return float(x)
