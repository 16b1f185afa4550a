"""Harness: loads the library under observation, runs monitored workloads in worker
processes, collects what the monitors observed, writes evidence and replay files.

A property module defines WORKLOADS = {name: (fn, quick_count, thorough_count, chunk)}; each
call fn(case) is ONE monitored execution.  `case` carries a deterministic random stream and the
monitor's recording functions.  A case fails by Violation (the oracle saw something wrong, or the
library raised where it must not)."""
import hashlib
import importlib
import importlib.util
import json
import multiprocessing as mp
from multiprocessing import connection
import os
import random
import resource
import signal
import sys
import tempfile
import time
import traceback

MEMORY = 4 << 30      # address space of one worker
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
sys.dont_write_bytecode = True
sys.pycache_prefix = os.path.join(tempfile.gettempdir(), 'verif-no-such-pycache')   # never read stale bytecode

lib = None      # the dice_calc package once loaded


def load_library():
  """import /repo/src as package dice_calc, from source, whatever is installed"""
  global lib
  if lib is not None:
    return lib
  import logging
  logging.disable(logging.CRITICAL)
  for k in [k for k in sys.modules if k == 'dice_calc' or k.startswith('dice_calc.')]:
    del sys.modules[k]
  spec = importlib.util.spec_from_file_location('dice_calc', os.path.join(SRC, '__init__.py'), submodule_search_locations=[SRC])
  mod = importlib.util.module_from_spec(spec)
  sys.modules['dice_calc'] = mod
  spec.loader.exec_module(mod)
  lib = mod
  for sub in ('parser', 'parser.parse_and_exec', 'settings', 'funclib', 'altcast', 'string_rvs', 'output', 'roller', 'randvar'):
    importlib.import_module('dice_calc.' + sub)
  _share_tables()
  return lib


_tables = {}
fresh_tables = False      # set while a workload wants every parser built from scratch


def _share_tables():
  """The parser tables depend on the grammar alone but are built anew for every program (nine tenths of compiling a small one).
  Build them once per grammar and hand every parser its own copy; anything unexpected falls back to the library's own way."""
  try:
    y = importlib.import_module('dice_calc.parser.ply.yacc')
    real = y.LRTable

    def LRTable(grammar, *a, **k):
      import copy
      if fresh_tables:
        return real(grammar, *a, **k)
      try:
        key = (repr([(p.name, p.prod, p.prec) for p in grammar.Productions]), repr(grammar.Precedence), repr(grammar.Terminals), repr(list(grammar.Nonterminals)), repr(grammar.Start))
        t = _tables.get(key)
      except Exception:
        return real(grammar, *a, **k)
      if t is None:
        t = _tables[key] = real(grammar, *a, **k)
      try:
        c = copy.copy(t)
        c.lr_action, c.lr_goto = {s: dict(v) for s, v in t.lr_action.items()}, {s: dict(v) for s, v in t.lr_goto.items()}
        c.grammar, c.lr_productions = grammar, grammar.Productions
        return c
      except Exception:
        return real(grammar, *a, **k)
    y.LRTable = LRTable
  except Exception:
    pass


def submodule(name):
  """a submodule of the library (attribute access is not enough: `output` is also a function)"""
  load_library()
  return sys.modules['dice_calc.' + name]


class Violation(Exception):
  """an oracle refuted the property on an observed execution"""


class Skip(Exception):
  """the generated case is outside the property's scope (counted, not judged)"""


class Injected(Exception):
  """a fault raised on purpose from inside a user callback"""


class Case:
  def __init__(self, prop, workload, seed, index, tier):
    self.prop, self.workload, self.seed, self.index, self.tier = prop, workload, seed, index, tier
    self.rng = random.Random(f'{seed}/{prop}/{workload}/{index}')
    self.events = 0           # things the monitor looked at
    self.keys = set()         # distinct non-trivial observations (hashed)
    self.kinds = {}
    self.trace = []           # readable log of this execution
    self.known = []
    from . import model
    model.DECIMALS[0] = False

  def log(self, *parts):
    self.trace.append(' '.join(p if isinstance(p, str) else short(p) for p in parts))

  def seen(self, kind, key=None, n=1):
    """one observation of `kind`; key identifies a distinct non-trivial one"""
    self.events += n
    self.kinds[kind] = self.kinds.get(kind, 0) + n
    if key is not None:
      self.keys.add(hashlib.md5(f'{kind}|{key!r}'.encode('utf-8', 'backslashreplace')).digest()[:8])

  def fail(self, msg):
    raise Violation(msg)

  def require(self, cond, msg):
    self.events += 1
    if not cond:
      raise Violation(msg() if callable(msg) else msg)

  def refused(self, what, fn, *args, exc=(Exception,), **kw):
    """fn must raise"""
    try:
      r = fn(*args, **kw)
    except exc:
      self.seen('refused')
      return
    raise Violation(f'{what}: accepted, returned {short(r)}; must be refused')


def short(x, n=400):
  try:
    if hasattr(x, 'vals') and hasattr(x, 'probs'):
      s = f'Die{dict(zip(x.vals, x.probs))}'
    else:
      s = repr(x)
  except BaseException as e:
    s = f'<unprintable {type(x).__name__}: {e!r}>'
  return s if len(s) <= n else s[:n] + '...'


# ------------------------------------------------------------------ running

def _in_library(tb):
  while tb is not None:
    if os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(SRC + os.sep) or tb.tb_frame.f_code.co_filename in ('<string>', '<inline code>', '<anydice>'):
      return True
    tb = tb.tb_next
  return False


def run_case(fn, case):
  """-> (status, message)   status: ok | skip | violation | error"""
  load_library()
  reset = submodule('settings').settings_reset
  try:
    reset()
    fn(case)
    return 'ok', ''
  except Skip as e:
    return 'skip', str(e)
  except Violation as e:
    return 'violation', str(e)
  except _Timeout:
    raise
  except BaseException as e:
    if isinstance(e, KeyboardInterrupt):
      return 'error', repr(e)
    t = traceback.format_exc(limit=-8)
    if _in_library(e.__traceback__):
      return 'violation', f'the library raised {type(e).__name__}: {e}\n{t}'
    if isinstance(e, (TypeError, ValueError, AttributeError, LookupError, ArithmeticError, AssertionError)):
      # runs are deterministic and this does not happen on the unchanged library: it returned something no monitor can read
      return 'violation', f'the monitor cannot interpret what it observed: {type(e).__name__}: {e}\n{t}'
    return 'error', t
  finally:
    try:
      reset()
    except BaseException:
      pass


class _Timeout(BaseException):
  pass


def _alarm(signum, frame):
  raise _Timeout()


def _run_chunk(job):
  prop, workload, seed, tier, start, count, limit = job
  mod = importlib.import_module(f'monitor.props.{prop.lower()}')
  fn = mod.WORKLOADS[workload][0]
  out = _blank(job)
  signal.signal(signal.SIGALRM, _alarm)
  sys.stdout = open(os.devnull, 'w')      # whatever the library prints
  for i in range(start, start + count):
    case = Case(prop, workload, seed, i, tier)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
      status, msg = run_case(fn, case)
    except _Timeout:
      status, msg = 'timeout', f'case did not finish within {limit}s'
    finally:
      signal.setitimer(signal.ITIMER_REAL, 0)
    out['events'] += case.events
    out['keys'] |= case.keys
    for k, v in case.kinds.items():
      out['kinds'][k] = out['kinds'].get(k, 0) + v
    out['known'] += case.known
    if status == 'ok':
      out['ok'] += 1
      if case.trace and (out['sample'] is None):
        out['sample'] = dict(workload=workload, index=i, trace=case.trace[:12])
    elif status == 'skip':
      out['skip'] += 1
      out['skips'][msg[:60]] = out['skips'].get(msg[:60], 0) + 1
    elif status in ('violation', 'timeout'):
      out['bad'] = dict(index=i, message=msg, trace=case.trace[-40:])
      return out
    else:
      out['error'] = (i, msg)
      return out
  return out


def _child(job, conn):
  try:
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
  except (ValueError, OSError):
    pass
  r = _run_chunk(job)
  conn.send(r)
  conn.close()
  os._exit(0)


def _run_jobs(jobs, nproc, limit):
  """one forked process per chunk, nproc at a time; yields results as they come"""
  ctx = mp.get_context('fork')
  todo, live = list(reversed(jobs)), {}
  try:
    while todo or live:
      while todo and len(live) < nproc:
        job = todo.pop()
        rd, wr = ctx.Pipe(False)
        p = ctx.Process(target=_child, args=(job, wr), daemon=False)
        p.start()
        wr.close()
        live[rd] = (p, job, time.time() + limit * 2 + 300)
      for rd in connection.wait(list(live), timeout=5):
        p, job, _ = live.pop(rd)
        try:
          r = rd.recv()
        except (EOFError, OSError):
          r = None
        rd.close()
        p.join(20)
        yield r if r is not None else _blank(job, bad=dict(index=job[4], message=f'the process running these cases died (exit {p.exitcode}): memory or interpreter failure', trace=[]))
      for rd, (p, job, dead) in list(live.items()):
        if time.time() > dead:
          live.pop(rd)
          p.kill()
          yield _blank(job, bad=dict(index=job[4], message='the process running these cases stopped responding', trace=[]))
  finally:
    for p, _, _ in live.values():
      p.kill()
    for p, _, _ in live.values():
      p.join(5)


def _blank(job, **kw):
  return dict(dict(job=job, ok=0, skip=0, events=0, keys=set(), kinds={}, sample=None, bad=None, error=None, known=[], skips={}), **kw)


def _seed():
  try:
    return int(os.environ.get('VERIF_SEED', '1'))
  except ValueError:
    return 1


def main(argv):
  if len(argv) < 2:
    print('usage: check.py <property> [--replay FILE]')
    return 2
  prop = argv[1].upper()
  os.environ.setdefault('PYTHONHASHSEED', '0')
  load_library()
  mod = importlib.import_module(f'monitor.props.{prop.lower()}')
  if '--replay' in argv:
    return replay(prop, mod, argv[argv.index('--replay') + 1])
  tier = os.environ.get('VERIF_TIER', 'quick')
  tier = tier if tier in ('quick', 'thorough') else 'quick'
  seed = _seed()
  t0 = time.time()
  scale = float(os.environ.get('VERIF_SCALE', '1'))
  only = os.environ.get('VERIF_WORKLOAD')
  limit = getattr(mod, 'CASE_LIMIT_S', 240)
  jobs = []
  for name, (fn, q, t, chunk) in mod.WORKLOADS.items():
    if only and name != only:
      continue
    n = max(1, int((q if tier == 'quick' else t) * scale))
    for start in range(0, n, chunk):
      jobs.append((prop, name, seed, tier, start, min(chunk, n - start), limit))
  # interleave so that different workloads run early
  jobs.sort(key=lambda j: (j[4] / max(1, j[5]), j[1]))
  tot = dict(ok=0, skip=0, events=0)
  keys, kinds, samples, known, skips = set(), {}, {}, [], {}
  per = {}
  bad, error = None, None
  nproc = int(os.environ.get('VERIF_JOBS', str(min(8, os.cpu_count() or 1))))
  for r in _run_jobs(jobs, nproc, limit):
    name = r['job'][1]
    for k in tot:
      tot[k] += r[k]
    per[name] = per.get(name, 0) + r['ok']
    keys |= r['keys']
    known += r['known']
    for k, v in r['kinds'].items():
      kinds[k] = kinds.get(k, 0) + v
    for k, v in r['skips'].items():
      skips[k] = skips.get(k, 0) + v
    if r['sample'] and name not in samples:
      samples[name] = r['sample']
    if r['bad']:
      bad = (r['job'], r['bad'])
      break
    if r['error'] and error is None:
      error = (r['job'], r['error'])
      break
  wall = time.time() - t0
  vac = []
  if bad is None and error is None:
    for name in mod.WORKLOADS:
      if only and name != only:
        continue
      if per.get(name, 0) == 0:
        vac.append(f'workload {name} judged no case')
    if not keys:
      vac.append('no non-trivial observation')
    for k in getattr(mod, 'MUST_SEE', ()):
      if not only and scale >= 1 and not kinds.get(k):
        vac.append(f'monitor never observed: {k}')
  level = getattr(mod, 'LEVEL', 'exploration')
  evidence = dict(
    property=prop, tier=tier, seed=seed, level=level, wall_s=round(wall, 2), violations=1 if bad else 0,
    coverage=dict(
      evaluations=tot['events'],
      distinct_nontrivial=len(keys),
      rule=mod.RULE,
      samples=[samples[k] for k in sorted(samples)][:8] or [dict(note='no completed sample')],
      judged_cases=tot['ok'], out_of_scope_cases=tot['skip'],
      observations_by_kind={k: kinds[k] for k in sorted(kinds)},
      judged_by_workload=per, skip_reasons=dict(sorted(skips.items(), key=lambda x: -x[1])[:10]),
      library=SRC),
    assumptions=list(getattr(mod, 'ASSUMPTIONS', [])))
  if not os.environ.get('VERIF_NO_EVIDENCE'):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', f'.{prop}.{os.getpid()}.tmp')
    with open(tmp, 'w') as f:
      json.dump(evidence, f, indent=1, ensure_ascii=True, default=str)
    os.replace(tmp, os.path.join(VERIF, 'evidence', f'{prop}.json'))
  for line in sorted(set(known)):
    print(f'KNOWN-FINDING: property={prop} {line}')
  if bad:
    job, b = bad
    path = os.path.join(os.environ.get('VERIF_REPLAY_DIR', os.path.join(VERIF, 'evidence')), f'{prop}.replay.json')
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
      json.dump(dict(property=prop, workload=job[1], seed=seed, tier=tier, chunk_start=job[4], **b), f, indent=1, default=str)
    print(f'{prop}: {job[1]}[{b["index"]}]: {b["message"]}')
    for line in b['trace'][-12:]:
      print('   ', line)
    print(f'VIOLATION property={prop} replay={path}')
    return 1
  if error:
    job, (i, msg) = error
    print(f'{prop}: ERROR in the check itself, {job[1]}[{i}]:\n{msg}')
    return 2
  if vac:
    print(f'{prop}: INCONCLUSIVE: ' + '; '.join(vac))
    return 3
  print(f'{prop}: held on {tot["ok"]} judged cases ({tot["skip"]} out of scope), {tot["events"]} monitor checks, {len(keys)} distinct observations, {wall:.1f}s')
  return 0


def replay(prop, mod, path):
  d = json.load(open(path))
  fn = mod.WORKLOADS[d['workload']][0]
  for rng in ([d['index']], range(d['chunk_start'], d['index'] + 1)):   # alone, then with the history before it
    for i in rng:
      case = Case(prop, d['workload'], d['seed'], i, d['tier'])
      pid = None
      status, msg = run_case(fn, case)
      if status in ('violation', 'error'):
        print(f'{prop}: {d["workload"]}[{i}]: {status}: {msg}')
        for line in case.trace:
          print('   ', line)
        if status == 'violation':
          print(f'VIOLATION property={prop} replay={path}')
          return 1
        return 2
  print('replay: the recorded execution no longer violates the property')
  return 0
