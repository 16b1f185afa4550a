"""C04: position selection gives exact order statistics of the dice rolled."""
import math

from .. import core, gen, model, obs
from ..model import Unsupported

RULE = ('pools of 1..12 dice with weighted, negative, decimal, zero-weight and scaled-down faces; k @ dice for every k from -2 to n+2, and sequences/lists/tuples/ranges of positions '
        '(repeated, unordered, out of range, empty), in both position orders switched within one history; observed die compared with exact order statistics by '
        'dynamic programming over faces.  Non-trivial: distinct (faces, n, positions, order) with at least two faces.')
ASSUMPTIONS = ['decimal faces are multiples of 1/4']
MUST_SEE = ('highest first', 'lowest first', 'single', 'several', 'outside', 'one die', 'refused', 'many')


def positions(rng, n):
  r = rng.random()
  if r < 0.35:
    k = rng.randint(1, n)
    return [k], 'single'
  if r < 0.45:
    return [rng.choice([0, -1, -2, n + 1, n + 2, 2 * n + 1])], 'outside'
  if r < 0.55:
    a = rng.randint(1, n)
    return list(range(a, rng.randint(a, n) + 1)), 'several'
  if r < 0.6:
    return [], 'several'
  k = rng.choice([2, 3, 4, 5] if rng.random() < 0.93 else [6, 8, 10, 17])
  return [rng.randint(1, n) if rng.random() < 0.85 else rng.choice([0, -1, n + 1]) for _ in range(k)], 'several'


def selector(rng, ps):
  """a library position selector with that content"""
  lib = core.lib
  if len(ps) == 1 and rng.random() < 0.8:
    return ps[0]
  r = rng.random()
  if r < 0.6 or not ps:
    return lib.Seq(*ps)
  if r < 0.8:
    return lib.get_seq(list(ps))
  return list(ps) if r < 0.9 else tuple(ps)


def pools(case):
  rng, lib = case.rng, core.lib
  for _ in range(5):
    big = rng.random() < 0.25
    d, m = gen.die(rng, 4 if big else 7)
    near = not big and rng.random() < 0.06
    if near:
      d, m = gen.close_die(rng, 5)
    n = rng.randint(5, 11) if big else rng.choice([1, 2, 2, 3, 3, 4, 5])
    if math.comb(len(d.vals) + n - 1, n) > 1500:
      continue
    w = model.World()
    pool, mp = lib.roll(n, d), w.roll(n, m)
    for _ in range(5):
      order = rng.choice(['highest first', 'highest first', 'lowest first'])
      lib.settings_set('position order', order)
      w.lowest_first = order == 'lowest first'
      ps, kind = positions(rng, n)
      if near:
        ps, kind = [rng.randint(1, n)], 'single'
      sel = selector(rng, ps)
      what = f'{order}: {core.short(sel)} @ roll({n}, {core.short(d)})'
      case.log(what)
      want = w.at(ps[0] if len(ps) == 1 else model.Seq(ps), mp)
      got = sel @ pool
      obs.agree(case, what, got, want, as_dist=True)
      case.seen(kind, (order, tuple(ps), n, tuple(m.dist.sorted())) if len(m.dist) > 1 else None)
      case.seen(order)


def whole_row(case):
  """all n positions of one pool: each one right, and together they conserve the total mean"""
  rng, lib = case.rng, core.lib
  from fractions import Fraction
  d, m = gen.die(rng, 5)
  n = rng.randint(2, 8)
  w = model.World()
  pool, mp = lib.roll(n, d), w.roll(n, m)
  tot = Fraction(0)
  order = rng.choice(['highest first', 'lowest first'])
  lib.settings_set('position order', order)
  w.lowest_first = order == 'lowest first'
  prev = None
  for k in range(1, n + 1):
    got = k @ pool
    what = f'{order}: {k} @ roll({n}, {core.short(d)})'
    case.log(what)
    obs.agree(case, what, got, w.at(k, mp), as_dist=True)
    mean, _ = model.mean_var(model.Dist(obs.die_pairs(got)))
    tot += mean
    case.seen('single', (order, k, n, tuple(m.dist.sorted())) if len(m.dist) > 1 else None)
    case.seen(order)
  if not mp.big and m.dist.total ** n < 10 ** 30 and tot != model.mean_var(mp.dist)[0]:
    core.Case.fail(case, f'{order}: the means of all positions of roll({n}, {core.short(d)}) add up to {tot}, not {model.mean_var(mp.dist)[0]}')


def many(case):
  """tens of dice with two to four faces: exact as long as the weights fit"""
  rng, lib = case.rng, core.lib
  w = model.World()
  w.work = -10 ** 8
  d, m = gen.die(rng, rng.choice([2, 2, 3, 4]))
  t = max(2, m.dist.total)
  top = max(2, int(28 / math.log10(t)))
  n = rng.randint(max(2, top // 3), min(96, top))
  if len(d.vals) > 2:
    n = min(n, 40)
  pool, mp = lib.roll(n, d), w.roll(n, m)
  for _ in range(4):
    order = rng.choice(['highest first', 'lowest first'])
    lib.settings_set('position order', order)
    w.lowest_first = order == 'lowest first'
    k = rng.choice([1, 2, n // 2, n // 2 + 1, n - 1, n, rng.randint(1, n), rng.randint(1, n)])
    what = f'{order}: {k} @ roll({n}, {core.short(d)})'
    case.log(what)
    obs.agree(case, what, k @ pool, w.at(k, mp), as_dist=True)
    case.seen('many', what)
    if math.comb(len(d.vals) + n - 1, n) < 400:
      ps = sorted({rng.randint(1, n) for _ in range(rng.randint(2, 6))})
      what = f'{order}: {ps} @ roll({n}, {core.short(d)})'
      case.log(what)
      obs.agree(case, what, lib.Seq(*ps) @ pool, w.at(model.Seq(ps), mp), as_dist=True)


def one_die(case):
  """sums, mixtures, constants, rolls by a die: one die whose position 1 is itself"""
  rng, lib = case.rng, core.lib
  w = model.World()
  for _ in range(6):
    a, ma = gen.pool(rng, 3, 4)
    b, mb = gen.die(rng, 4)
    r = rng.random()
    if r < 0.15:
      x, mx = a + b, w.binop('+', ma, mb)
    elif r < 0.25:
      x, mx = a * 2, w.binop('*', ma, 2)
    elif r < 0.35:
      x, mx = -a, w.neg(ma)
    elif r < 0.45:
      x, mx = lib.RV.from_rvs([a, b], [2, 3]), model.Die(model.mix([(2, ma.dist), (3, mb.dist)]))
    elif r < 0.6:
      c, mc = gen.die(rng, 3, floats=0, lo=0, hi=3)
      x, mx = lib.roll(c, b), w.roll(mc, mb)
    elif r < 0.95:
      if rng.random() < 0.3:
        a, ma = lib.roll(rng.randint(2, 3), rng.choice([2, 3, 6])), None
        ma = model.Die(model.World().roll(len(a), max(a.vals) // len(a)).dist)
      name, x, dist = gen.plain_from(rng, a, ma)
      mx = model.Die(dist)
      case.log(name)
    else:
      k = rng.randint(-3, 7)
      x, mx = lib.RV.from_const(k), model.Die({k: 1})
    ps, kind = positions(rng, rng.choice([1, 1, 2]))
    sel = selector(rng, ps)
    what = f'{core.short(sel)} @ {core.short(x)}'
    case.log(what)
    obs.agree(case, what, sel @ x, w.at(ps[0] if len(ps) == 1 else model.Seq(ps), model.Die(mx.dist)), as_dist=True)
    case.seen('one die', (tuple(ps), core.short(x)))
    case.require(len(x) == 1, lambda: f'{core.short(x)} is not a roll of several dice but has length {len(x)}')


def nested(case):
  """dice whose face is itself a pool or a selection"""
  rng, lib = case.rng, core.lib
  w = model.World()
  d, m = gen.die(rng, 4, 0)
  k = rng.randint(1, 3)
  face, mface = lib.roll(2, d), w.roll(2, m)
  if rng.random() < 0.5:
    face, mface = 1 @ face, w.at(1, mface)
  n = rng.randint(2, 3)
  pool, mp = lib.roll(n, face), w.roll(n, mface)
  for ps in ([1], [n], [1, n], [1, 1]):
    sel = ps[0] if len(ps) == 1 else lib.Seq(*ps)
    what = f'{ps} @ roll({n}, {core.short(face)})'
    case.log(what)
    obs.agree(case, what, sel @ pool, w.at(ps[0] if len(ps) == 1 else model.Seq(ps), mp), as_dist=True)
    case.seen('several' if len(ps) > 1 else 'single', what)
  # roll(1, pool) keeps the dice of the pool
  one = lib.roll(1, pool)
  obs.agree(case, f'2 @ roll(1, roll({n}, ..))', 2 @ one, w.at(2, mp), as_dist=True)
  obs.agree(case, 'len of roll(1, pool)', len(one), n)


def refusals(case):
  rng, lib = case.rng, core.lib
  a, _ = gen.pool(rng, 3, 4)
  b, _ = gen.die(rng, 4)
  for f in (lambda: a @ b, lambda: b @ lib.Seq(1, 2), lambda: b @ 3, lambda: a @ a, lambda: lib.BlankRV() @ lib.Seq(1), lambda: [1, b] @ a if False else b @ [1, 2]):
    case.refused('a die used as a position', f)
    case.seen('refused', core.short(a) + core.short(b))
  case.log(f'{core.short(a)} @ {core.short(b)} refused')


WORKLOADS = {
  'pools': (pools, 2000, 20000, 20),
  'whole_row': (whole_row, 600, 6000, 20),
  'many': (many, 800, 8000, 10),
  'one_die': (one_die, 1600, 16000, 20),
  'nested': (nested, 400, 4000, 20),
  'refusals': (refusals, 80, 800, 20),
}
