"""C13: settings are validated, take effect from then on, and reset completely."""
import functools

from .. import core, gen, model, obs
from ..core import Violation

RULE = ('random histories of valid sets, invalid sets (unknown names, wrong types, out of range), resets and dice computations; after every step the effect of EVERY setting is probed '
        'through behaviour (position selection, explosion, recursion depth, construction with decimals and zero weights, report width, where a report is printed) and compared with the '
        'state the history implies.  Non-trivial: distinct (setting state, step kind).')
ASSUMPTIONS = ['True/False given where a positive whole number is asked for is not judged']
MUST_SEE = ('set', 'refused', 'reset', 'probe position', 'probe explode', 'probe depth', 'probe trunc', 'probe zero', 'probe width', 'probe print', 'reset restores')

DEFAULT = {'position order': 'highest first', 'explode depth': 2, 'maximum function depth': 10, 'RV_TRUNC': False, 'RV_IGNORE_ZERO_PROBS': False, 'DEFAULT_OUTPUT_WIDTH': 180, 'DEFAULT_PRINT_FN': None}


def valid(rng, sinks):
  name = rng.choice(list(DEFAULT))
  if name == 'position order':
    v = e = rng.choice(['highest first', 'lowest first', 'lowest first'])
  elif name == 'explode depth':
    v = e = rng.choice([1, 2, 3, 4, 5, 1, 2, 3, 4, 5, 8])
  elif name == 'maximum function depth':
    v = e = rng.choice([1, 2, 3, 5, 10, 11, 15, 25, 60])
  elif name in ('RV_TRUNC', 'RV_IGNORE_ZERO_PROBS'):
    e = rng.random() < 0.6
    v = rng.choice([e, str(e), str(e).lower(), str(e).upper()])
  elif name == 'DEFAULT_OUTPUT_WIDTH':
    v = e = rng.choice([1, 2, 10, 33, 180, 200, 1500])
  else:
    k = len(sinks)
    sinks.append([])
    f = sinks[k].append
    v, e = rng.choice([f, f, lambda s: f(s), functools.partial(_call, f), _Printer(f), _Printer(f).put]), k
  return name, v, e


def _call(f, s):
  f(s)


class _Printer:
  """a callable object"""
  def __init__(self, f):
    self.put = f

  def __call__(self, s):
    self.put(s)


INVALID = {
  'position order': ['highest', 'lowest', '', 'Highest first', 'HIGHEST FIRST', 1, 0, None, True, 'lowest  first', 'lowest first '],
  'explode depth': [0, -1, -5, 1.5, 2.0, '2', None, '', [2], -10 ** 20, float('inf'), 0.0, False, (), {}, b'2', print],
  'maximum function depth': [0, -1, 0.5, 10.0, '10', None, (3,), -100, float('inf'), float('nan'), '', False, [10], {3: 3}],
  'RV_TRUNC': ['yes', '', 1, 0, None, 'truee', 'no', 0.0, 'true ', ' false', 't', 'f', 'on', 2, (), b'True', '1', 1.0],
  'RV_IGNORE_ZERO_PROBS': ['maybe', '1', 1, 0, None, [], 'tru', 'True ', 'off', -1, '0', {}, 0.0, 'None'],
  'DEFAULT_OUTPUT_WIDTH': [0, -1, 80.0, '80', None, float('nan'), False, -180, [80], '', float('inf'), 0.5],
  'DEFAULT_PRINT_FN': [None, 1, 'print', [], '', 0, True, {}, (print,), 'default'],
}
UNKNOWN = ['', 'x', 'explode', 'Explode Depth', 'explode  depth', 'POSITION ORDER', 'rv_trunc', 'depth', 'position_order', 'INTERNAL_CURR_DEPTH', 'INTERNAL_CURR_DEPTH_WARNING_PRINTED',
           'maximum function depth ', 'DEFAULT_PRINT', None, 3, 'output width']


def probe(case, state, sinks, what, which=None):
  """observe the behaviour every setting controls"""
  rng, lib = case.rng, core.lib
  trunc, ignore = state['RV_TRUNC'], state['RV_IGNORE_ZERO_PROBS']
  w = model.World()
  w.lowest_first = state['position order'] == 'lowest first'
  pool, mp = case.pool
  # positions: on a pool made at the start and on a new one
  for p, m in ((pool, mp), (lib.roll(3, lib.RV([1, 2, 4], [1, 2, 1])), w.roll(3, model.Die([(1, 1), (2, 2), (4, 1)])))):
    for ks in (1, m.n, (1, 2)):
      got = (lib.Seq(ks) if isinstance(ks, tuple) else ks) @ p
      obs.agree(case, f'{what}: positions {ks} of {core.short(p)} with {state["position order"]}', got, w.at(model.Seq(ks) if isinstance(ks, tuple) else ks, m), as_dist=True)
  case.seen('probe position')
  w.explode_depth = state['explode depth']
  obs.agree(case, f'{what}: explode at depth {w.explode_depth}', lib.explode_X(lib.roll(3)), w.lib('explode X', [w.roll(1, 3)]), as_dist=True)
  case.seen('probe explode')
  seen = []
  case.stdout.clear()

  @(lib.anydice_casting() if rng.random() < 0.5 else lib.max_func_depth())
  def down(N):
    seen.append(N)
    down(N + 1)
    return N
  down(1)
  if len(seen) != state['maximum function depth']:
    raise Violation(f'{what}: recursion ran {len(seen)} deep, maximum function depth is {state["maximum function depth"]}')
  said = ''.join(case.stdout).count('depth was exceeded')
  if said != (not state.get('said', False)):
    raise Violation(f'{what}: exceeding the maximum function depth was reported {said} times ({"already reported" if state.get("said") else "not reported"} since the last reset)')
  state['said'] = True
  case.seen('probe depth')
  vals, ws = [1.5, -1.5, -0.25, 2, 3], [1, 2, 3, 4, 0]
  d = lib.RV(vals, ws)
  exp = {}
  for v, p in zip(vals, ws):
    v = int(v) if trunc else v
    exp[v] = exp.get(v, 0) + p
  exp = [(v, p) for v, p in sorted(exp.items()) if p or not ignore]
  if obs.die_pairs(d) != exp:
    raise Violation(f'{what}: RV({vals}, {ws}) is {core.short(d)}, expected {exp} (truncate {trunc}, ignore zero {ignore})')
  if trunc and not all(isinstance(v, int) for v in d.vals):
    raise Violation(f'{what}: outcomes not truncated to whole numbers: {core.short(d)}')
  if case.index % 2:      # the same for what is computed: outcomes of weight zero are dropped or stay listed
    z, zm = lib.RV([1, 2, 5], [0, 1, 1], truncate=False), {1: 0, 2: 1, 5: 1}

    @rng.choice([lib.anydice_casting, lib.anydice_type_casting])()
    def both(N: lib.T_N, M: lib.T_N):
      return N * 10 + M
    for name, got, want in (('constructor', z, zm), ('z + 1', z + 1, {2: 0, 3: 1, 6: 1}), ('z + d2', z + lib.roll(2), {v + k: int(w > 0) for v, w in zm.items() for k in (1, 2)} | {3: 1}), ('mixture', lib.RV.from_rvs([7, lib.roll(2)], [1, 0]), {1: 0, 2: 0, 7: 1}),
                            ('function of z and d2', both(z, lib.roll(2)), {10 * v + k: w for v, w in zm.items() for k in (1, 2)}), ('function of d2 and z', both(lib.roll(2), z), {10 * k + v: w for v, w in zm.items() for k in (1, 2)})):
      have = dict(obs.die_pairs(got, name))
      if set(have) != {v for v, w in want.items() if w or not ignore} or any(bool(have[v]) != bool(want[v]) for v in have):
        raise Violation(f'{what}: {name} lists {core.short(have)} (ignore zero {ignore})')
  close = rng.choice([2.9999999999, -2.9999999999, 3 - 2 ** -50, 1e15 + 0.875, -1e-300, 0.9999999, 10 ** 20, -7, 2.0000000001, -0.5, 1e22])
  for name, c in (('RV', lib.RV([close], [1])), ('from_const', lib.RV.from_const(close)), ('sum', lib.RV([0], [1]) + close)):
    if tuple(c.vals) != (int(close) if trunc else close,):
      raise Violation(f'{what}: {name} of {close!r} has outcomes {c.vals!r} (truncate {trunc})')
  q = lib.roll(4) / 2
  exp = model.Dist([(int(v / 2) if trunc else v / 2, 1) for v in range(1, 5)])
  obs.same_dist(case, f'{what}: d4 / 2 (truncate {trunc})', q, exp)
  for flag in (True, False):      # the constructor argument overrides the setting
    t = lib.RV([0.5, 1.5], [1, 1], truncate=flag)
    if list(t.vals) != ([0, 1] if flag else [0.5, 1.5]):
      raise Violation(f'{what}: RV(truncate={flag}) has outcomes {t.vals}')
  case.seen('probe trunc')
  case.seen('probe zero')
  width = state['DEFAULT_OUTPUT_WIDTH']
  text = lib.output(1, print_=False)
  if text.split('\n')[-1] != '-' * (width + 8) or text.count('█') != max(0, width - 1):
    raise Violation(f'{what}: report has a rule of {len(text.splitlines()[-1])} and {text.count("█")} blocks, width is {width}')
  case.seen('probe width')
  counts = [len(s) for s in sinks]
  dflt = len(case.stdout)
  lib.output(lib.roll(2), named='probe')
  changed = [i for i, s in enumerate(sinks) if len(s) != counts[i]]
  k = state['DEFAULT_PRINT_FN']
  if (k is None and (changed or len(case.stdout) == dflt)) or (k is not None and (changed != [k] or len(sinks[k]) != counts[k] + 1 or len(case.stdout) != dflt)):
    raise Violation(f'{what}: report printed to {changed or "standard output"}, configured {"standard output" if k is None else k}')
  case.seen('probe print')


class _Out(list):
  def write(self, s):
    if s:
      self.append(s)

  def flush(self):
    pass


def inside(rng, f, *args):
  """call f directly, or from a function of the language while it is running"""
  if rng.random() < 0.7:
    return f(*args)

  def change(N: core.lib.T_N):
    f(*args)
    return N

  core.lib.anydice_casting()(change)(rng.choice([3, core.lib.roll(2), core.lib.Seq(1, 2)]))


def histories(case):
  import sys
  rng, lib = case.rng, core.lib
  state, sinks = dict(DEFAULT), []
  lib.settings_reset()
  case.pool = gen.pool(rng, 3, 3, floats=0, zero=False)
  case.stdout = _Out()
  old = sys.stdout
  sys.stdout = case.stdout
  try:
    for step in range(rng.randint(4, 12)):
      r = rng.random()
      if r < 0.5:
        name, v, e = valid(rng, sinks)
        inside(rng, lib.settings_set, name, v)
        state[name] = e
        what = f'set {name!r} to {v if not callable(v) else type(v).__name__!r}'
        kind = 'set'
      elif r < 0.75:
        if rng.random() < 0.35:
          name, v = rng.choice(UNKNOWN), rng.choice([1, 5, 'highest first', True, print])
        else:
          name = rng.choice(list(INVALID))
          v = rng.choice(INVALID[name])
        what = f'invalid set {name!r} to {v!r}'
        case.refused(what, lib.settings_set, name, v)
        kind = 'refused'
      elif r < 0.9:
        for _ in range(rng.choice([1, 1, 2])):
          inside(rng, lib.settings_reset)
        state = dict(DEFAULT)
        what, kind = 'reset', 'reset'
      else:
        d, _ = gen.pool(rng, 3, 4)
        lib.explode_X(d)
        lib.highest_X_of_X(1, d)
        what, kind = 'computation', 'compute'
      case.log(what)
      case.seen(kind, (kind, tuple((k, v) for k, v in state.items() if k != 'DEFAULT_PRINT_FN')))
      probe(case, state, sinks, what)
    lib.settings_reset()
    probe(case, dict(DEFAULT), sinks, 'final reset')
    case.seen('reset restores')
  finally:
    sys.stdout = old


def each_alone(case):
  """one setting at a time, from every other state: only that one changes"""
  import sys
  rng, lib = case.rng, core.lib
  sinks = []
  case.pool = gen.pool(rng, 3, 3, floats=0, zero=False)
  case.stdout = _Out()
  old = sys.stdout
  sys.stdout = case.stdout
  try:
    lib.settings_reset()
    state = dict(DEFAULT)
    names = list(DEFAULT)
    rng.shuffle(names)
    for name in names:        # everything away from its default, in random order
      while True:
        n, v, e = valid(rng, sinks)
        if n == name and e != DEFAULT[name]:
          break
      lib.settings_set(name, v)
      state[name] = e
      case.log(f'set {name}')
      probe(case, state, sinks, f'after setting {name} (order {names})')
      case.seen('set', (name, tuple(names)))
    lib.settings_reset()
    case.seen('reset')
    probe(case, dict(DEFAULT), sinks, f'reset after setting everything in order {names}')
    case.seen('reset restores')
  finally:
    sys.stdout = old


WORKLOADS = {
  'histories': (histories, 2000, 20000, 10),
  'each_alone': (each_alone, 640, 6400, 10),
}
