"""C03: roll(n, d) is the exact sum of n independent rolls of d."""
import math

from .. import core, gen, model, obs
from ..core import Violation
from ..model import Unsupported

RULE = ('rolls of n (positive, zero, negative, decimal, boolean, list, sequence, die, pool) by d (sides of either sign, 0, decimal, list, nested list, sequence, '
        'die, pool, mixture), through roll(n, d), roll(d), "ndm" text and the D shorthand, in histories where look-alike dice (same outcomes, other weights) were rolled '
        'before; observed distribution and length compared with sequential convolution.  Non-trivial: distinct (n, d) with a result of at least two outcomes.')
ASSUMPTIONS = ['decimal faces are multiples of 1/4']
MUST_SEE = ('int', 'zero', 'negative', 'float', 'seq', 'die', 'text', 'D', 'length', 'lookalike', 'large', 'hundreds', 'thousands', 'refused')


def faces(rng):
  """(lib, model, kind)"""
  r = rng.random()
  if r < 0.3:
    s = rng.choice([1, 2, 3, 4, 6, 6, 8, 10, 12, 20, 0, -1, -2, -6, -10])
    return s, s, 'sides'
  if r < 0.5:
    e, m = gen.seq(rng)
    if not len(m):
      return 6, 6, 'sides'
    return (e if rng.random() < 0.5 else gen.lists_of(rng, m)), m, 'faces'
  if r < 0.52:
    e, m = gen.seq(rng)
    if len(m):
      return gen.once(rng, m), m, 'iterable'
  if r < 0.55:
    f = rng.randint(-8, 20) / 4
    return f, f, 'decimal'
  if r < 0.85:
    d, m = gen.die(rng, 6)
    return d, m, 'die'
  d, m = gen.pool(rng, 3, 4)
  return d, m, 'pool'


def count(rng):
  r = rng.random()
  if r < 0.55:
    n = rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 15, 16, 17])
    return n, n, 'int'
  if r < 0.6:
    return 0, 0, 'zero'
  if r < 0.7:
    n = -rng.randint(1, 6)
    return n, n, 'negative'
  if r < 0.78:
    f = rng.choice([0.5, 1.0, 1.25, 2.5, 3.0, 2.75, -0.5, -1.5, 4.01])
    if rng.random() < 0.3:      # next to a whole number
      f = rng.randint(-3, 5) + rng.choice([1, -1]) * 10.0 ** -rng.randint(2, 14)
    return f, f, 'float'
  if r < 0.88:
    k = rng.randint(0, 4)
    e = [rng.randint(-1, 3) for _ in range(k)]
    m = model.Seq(e)
    return (core.lib.Seq(*e) if rng.random() < 0.5 else gen.lists_of(rng, m)), m, 'seq'
  if r < 0.95:
    d, m = gen.die(rng, 4, floats=0, lo=-2, hi=4)
    return d, m, 'die'
  if rng.random() < 0.3:      # a long range of counts
    a = rng.choice([1, 1, 0, -2, 3])
    vals = list(range(a, a + rng.randint(7, 14)))
    ws = [1] * len(vals) if rng.random() < 0.6 else [rng.randint(1, 3) for _ in vals]
    return core.lib.RV(vals, ws), model.Die(model.Dist(list(zip(vals, ws)))), 'die'
  d, m = gen.pool(rng, 2, 3, floats=0, lo=0, hi=2)
  return d, m, 'die'


def rolls(case):
  rng, lib = case.rng, core.lib
  for _ in range(8):
    n, mn, kn = count(rng)
    d, md, kd = faces(rng)
    w = model.World()
    try:
      want = w.roll(mn, md)
    except Unsupported:
      continue
    what = f'roll({core.short(n)}, {core.short(d)})'
    case.log(what)
    got = lib.roll(n, d)
    obs.agree(case, what, got, want, check_len=True)
    case.seen(kn, (kn, kd, core.short(n), core.short(d)) if len(want.dist) > 1 else None)
    if kd == 'iterable':      # may be gone through only once
      continue
    if rng.random() < 0.3:
      obs.agree(case, f'roll({core.short(d)})', lib.roll(d), w.roll(1, md), check_len=True)
    if rng.random() < 0.3 and not isinstance(n, (list, tuple, range)):
      # D shorthand: n *D* d
      D = core.submodule('altcast').D
      if isinstance(n, (int, float)):
        got = n * D * d if not isinstance(d, (list, tuple)) else n * D * lib.Seq(d)
        obs.agree(case, f'{core.short(n)} *D* {core.short(d)}', got, want, check_len=True)
        case.seen('D')
      if not isinstance(d, (list, tuple)):
        obs.agree(case, f'D * {core.short(d)}', D * d, w.roll(1, md))


def shorthand(case):
  """n *D* d within the faces or the count of another one"""
  rng = case.rng
  D = core.submodule('altcast').D
  w = model.World()

  def make(depth):
    """(library value, model value, text)"""
    if depth == 0 or rng.random() < 0.3:
      s = rng.choice([1, 2, 3, 4, 6, -2])
      return s, s, str(s)
    if rng.random() < 0.3:
      d, m, t = make(depth - 1)
      return D * d, w.roll(1, m), f'(D * {t})'
    n = rng.choice([1, 2, 3, 2, -1, 0])
    if rng.random() < 0.3:
      left, (d, m, t) = n * D, make(depth - 1)      # the left half is made first
      return left * d, w.roll(n, m), f'({n}*D*{t})'
    d, m, t = make(depth - 1)
    return n * D * d, w.roll(n, m), f'({n}*D*{t})'
  for _ in range(6):
    try:
      x, m, t = make(3)
      if not isinstance(m, model.Die) or len(m.dist) > 300:
        continue
    except Unsupported:
      continue
    case.log(t)
    obs.agree(case, t, x, m, check_len=True)
    case.seen('D', t)


def text(case):
  rng, lib = case.rng, core.lib
  for _ in range(8):
    n, s = rng.choice([1, 2, 3, 5, 9, 10, 12, 0, 1, 20, 31]), rng.choice([1, 2, 4, 6, 8, 10, 12, 20, 100, 0, 1, 30])
    if n * s > 400:
      continue
    neg, sneg, pad, spad = rng.random() < 0.15, rng.random() < 0.15, rng.choice(['', '', '', '0', '00']), rng.choice(['', '', '', '0'])
    t = f'{"-" if neg else ""}{pad}{n}d{"-" if sneg else ""}{spad}{s}'
    w = model.World()
    want = w.roll(-n if neg else n, -s if sneg else s)
    if rng.random() < 0.3 and not neg:
      t, want = f'd{s}', w.roll(1, s)
    case.log(f'roll({t!r})')
    got = lib.roll(t)
    obs.agree(case, f'roll({t!r})', got, want, check_len=True)
    case.seen('text', t)


def large(case):
  """many dice with few faces, few dice with many sides, still exact"""
  rng, lib = case.rng, core.lib
  w = model.World()
  w.work = -10 ** 7
  r = rng.random()
  if r < 0.5:
    d, m = gen.die(rng, rng.choice([2, 2, 3]), floats=0.05, lo=-2, hi=3)
    n = rng.choice([18, 20, 24, 31, 32, 33, 40, 50, 63, 64, 65, 90, 99, 100, 101, 127, 128, 129, 150, 200, 255, 256, 257, 300])
    if n >= 100:
      vals = rng.choice([[0, 1], [0, 1], [0, 1], [1, 2], [-1, 1], [0, 2], [1, 3], [0, 0.5], [0, 10], [0, 1, 2], [0, 0, 1], [0, 1, 1]])
      ws = [rng.choice([1, 1, 2, 3, 5, 9]) for _ in vals]
      d, m = lib.RV(vals, ws), model.Die(model.Dist(list(zip(vals, ws))))
      case.seen('hundreds')
  elif r < 0.8:
    d = m = rng.choice([30, 64, 99, 100, 101, 128, 255, 256, 257, 300]) * rng.choice([1, 1, -1])
    n = rng.choice([1, 2, 2, 3])
  else:
    d = m = rng.choice([1000, 1024, 5000, 10000, 10 ** 4 + 1]) * rng.choice([1, 1, -1])
    n = 1
  try:
    want = w.roll(n, m)
  except Unsupported:
    raise core.Skip('too large')
  what = f'roll({n}, {core.short(d)})'
  case.log(what)
  obs.agree(case, what, lib.roll(n, d), want, check_len=True)
  case.seen('large', what)


def thousands(case):
  """thousands of dice: the range of the total, its mean, and the way it is put together"""
  rng, lib = case.rng, core.lib
  n = rng.choice([511, 512, 513, 600, 777, 999, 1000, 1001, 1023, 1024, 1025, 1200, 1365, 1500])
  if rng.random() < 0.5:      # a die with one face, any number of times
    v, n = rng.choice([1, -1, 5, 0.5]), rng.choice([n, 4095, 4097, 10 ** 4 + 1, 2 ** 15 - 1, 123457, 10 ** 9 + 7])
    n *= rng.choice([1, 1, -1])
    d = rng.choice([lib.RV([v], [3]), [v], lib.Seq(v)] + ([v] if v in (1, -1) else []))
    what = f'roll({n}, {core.short(d)})'
    case.log(what)
    x = lib.roll(n, d)
    if tuple(x.vals) != (n * v,) or tuple(x.probs) != (1,):
      raise Violation(f'{what}: {core.short(x)}, expected only {n * v}')
  else:
    a, b = rng.choice([(1, 2), (0, 1), (-1, 1), (1, 3)])
    d = 2 if (a, b) == (1, 2) and rng.random() < 0.5 else lib.RV([a, b], [1, 1])
    what = f'roll({n}, {core.short(d)})'
    case.log(what)
    x = lib.roll(n, d)
    want = n * (a + b) / 2
    if tuple(x.vals) != tuple(range(n * a, n * b + 1, b - a)) or abs(x.mean() - want) > 1e-9 * n:
      raise Violation(f'{what}: from {x.vals[0]} to {x.vals[-1]}, {len(x.vals)} outcomes, mean {x.mean()}; expected {n * a} to {n * b}, mean {want}')
    if abs(x.std() - math.sqrt(n) * (b - a) / 2) > 1e-6:
      raise Violation(f'{what}: standard deviation {x.std()}, expected {math.sqrt(n) * (b - a) / 2}')
    p = dict(zip(x.vals, x.probs))
    k = n // 2 + rng.randint(-3, 3)
    exact = math.comb(n, k) / 2 ** n if n < 1000 else math.comb(n, k) * 10 ** 30 // 2 ** n / 10 ** 30
    if abs(p[n * a + k * (b - a)] / sum(x.probs) - exact) > 1e-9:
      raise Violation(f'{what}: {n * a + k * (b - a)} has probability {p[n * a + k * (b - a)] / sum(x.probs)}, expected {exact}')
  case.seen('thousands', what)


def refusals(case):
  """a number of dice that is not whole"""
  rng, lib = case.rng, core.lib
  f = rng.choice([0.5, 1.25, -0.75, 2.5])
  d = rng.choice([6, lib.roll(6), lib.Seq(1, 2)])
  for n in (lib.RV([f, 1], [1, 2]), lib.RV([2, f], [3, 1]), lib.Seq(f), [f, 1], lib.roll([f]), lib.roll(2, 3) + f):
    what = f'roll({core.short(n)}, {core.short(d)})'
    case.log(what)
    case.refused(what, lib.roll, n, d)
    case.seen('refused', what)


def lookalike(case):
  """histories of rolls of dice that share outcomes, weights or counts"""
  rng, lib = case.rng, core.lib
  vals = gen.outcomes(rng, rng.randint(2, 4), 0.2)
  dice = []
  for _ in range(4):
    ws = [rng.randint(1, 3) for _ in vals]
    vs = list(vals)
    r = rng.random()
    if r < 0.2:
      vs = [v + 1 for v in vs]
    elif r < 0.3:
      vs = [-v for v in vs]
    dice.append((lib.RV(vs, ws), model.Die(model.Dist(list(zip(vs, ws))))))
  w = model.World()
  w.work = -10 ** 7
  for _ in range(14):
    d, m = rng.choice(dice)
    n = rng.choice([1, 2, 3, 4, 5, 6, 7, 10, 13, 19])
    want = w.roll(n, m)
    got = lib.roll(n, d)
    what = f'roll({n}, {core.short(d)})'
    case.log(what)
    obs.agree(case, what, got, want, check_len=True)
    case.seen('lookalike', (n, tuple(m.dist.sorted())))
    if rng.random() < 0.3:
      # a roll of the roll, and a die that has the same distribution as a roll but is one die
      if len(want.dist) < 60:
        obs.agree(case, f'roll(2, {what})', lib.roll(2, got), w.roll(2, want), check_len=True)
        flat = lib.RV(got.vals, got.probs)
        obs.agree(case, f'roll(2, flat {what})', lib.roll(2, flat), w.roll(2, model.Die(want.dist)), check_len=True)


def settings_between(case):
  """truncation and zero-weight settings in force when the dice are rolled"""
  rng, lib = case.rng, core.lib
  vals = gen.outcomes(rng, rng.randint(2, 4), 0.6)
  ws = gen.weights(rng, len(vals))
  w = model.World()
  n = rng.choice([2, 3, 5])
  d = lib.RV(vals, ws)
  m = model.Die(model.Dist(list(zip(vals, ws))))
  for _ in range(4):
    drop = rng.random() < 0.5
    lib.settings_set('RV_IGNORE_ZERO_PROBS', drop)
    got = lib.roll(n, d)
    case.log(f'drop={drop} roll({n}, {core.short(d)})')
    obs.agree(case, f'roll({n}, {core.short(d)}) with RV_IGNORE_ZERO_PROBS={drop}', got, w.roll(n, m))
    if drop and not w.roll(n, m).big:
      case.require(all(p > 0 for p in got.probs), f'zero-probability outcome listed although they are ignored: {core.short(got)}')
    case.seen('settings', (n, tuple(vals), tuple(ws), drop))
  lib.settings_reset()


WORKLOADS = {
  'rolls': (rolls, 2000, 20000, 25),
  'text': (text, 150, 1500, 20),
  'shorthand': (shorthand, 120, 1200, 20),
  'large': (large, 200, 2000, 10),
  'thousands': (thousands, 30, 300, 2),
  'refusals': (refusals, 25, 250, 5),
  'lookalike': (lookalike, 500, 5000, 20),
  'settings_between': (settings_between, 200, 2000, 20),
}
