"""C02: operators on dice give the exact distribution for independent rolls."""
import math
import operator

from .. import core, gen, model, obs
from ..core import Skip
from ..model import Unsupported

RULE = ('random operand pairs (die/die incl. the same object twice, pools, mixtures, big offsets; die with number, decimal, boolean, list, nested list, range, '
        'sequence on either side) under every operator, plus chained expressions of up to 6 operators; the observed die is compared weight by '
        'weight with exact joint enumeration.  Non-trivial: distinct (operator, operand kinds, operand contents) where a die with at least two outcomes takes part.')
ASSUMPTIONS = ['decimals are multiples of 1/4 except in workload `decimals`, where each pair must give what python gives for the two numbers']

BIN = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv, '//': operator.floordiv, '%': operator.mod, '**': operator.pow,
       '=': operator.eq, '!=': operator.ne, '<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge, '&': operator.and_, '|': operator.or_}
MUST_SEE = tuple('op ' + o for o in BIN) + ('left', 'right', 'both', 'same', 'unary', 'decimals', 'exact', 'many outcomes')
UN = {'-': operator.neg, '+': operator.pos, 'abs': abs, 'round': round, 'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc}


def operand(rng, op, side):
  """(kind, lib value, model value) of a non-die operand"""
  r = rng.random()
  if r < 0.3:
    n = gen.number(rng)
    return 'number', n, n
  if r < 0.35:
    n = gen.huge_int(rng)
    return 'number', n, n
  if r < 0.4:
    b = rng.random() < 0.5
    return 'boolean', b, b
  if r < 0.46:
    e = gen.stepped(rng)
    return 'range', e, model.Seq(list(e))
  e, m = gen.seq(rng)
  if r < 0.52:
    return 'iterable', gen.once(rng, m), m
  if r < 0.7:
    return 'sequence', e, m
  return 'list', gen.lists_of(rng, m), m


def any_die(rng):
  r = rng.random()
  if r < 0.5:
    return gen.die(rng, 7)
  if r < 0.56:
    return gen.huge_die(rng)
  if r < 0.6:
    return gen.heavy_die(rng)
  if r < 0.62:
    return gen.wide_die(rng)
  if r < 0.85:
    return gen.pool(rng, 4, 5)
  if r < 0.93:
    return gen.big_offset_die(rng)
  a, ma = gen.die(rng, 4)
  b, mb = gen.die(rng, 4)
  w = model.World()
  return a + b, w.binop('+', ma, mb)


def adapt(rng, op, side, m):
  """reject operands on which plain arithmetic itself is undefined"""
  vals = list(m.dist.w) if isinstance(m, model.Die) else [sum(m) if isinstance(m, model.Seq) else m]
  if side == 'R' and op in ('/', '//', '%') and any(v == 0 for v in vals):
    return False
  if side == 'R' and op == '**' and any(v < 0 or v != int(v) or v > 6 for v in vals):
    return False
  if side == 'L' and op == '**' and any(abs(v) > 40 for v in vals):
    return False
  return True


def listed_ok(op, side, x):
  """zero-weight outcomes count for undefined arithmetic too"""
  if obs.is_die(x):
    vs = x.vals
    if side == 'R' and op in ('/', '//', '%') and 0 in vs:
      return False
    if op == '**' and side == 'R' and any(v < 0 or v != int(v) or v > 6 for v in vs):
      return False
    if op == '**' and side == 'L' and any(abs(v) > 40 for v in vs):
      return False
  return True


def mixed(a, b, *ms):
  """very large integers with decimals: plain arithmetic rounds, and differently for 6 and 6.0"""
  vs = []
  for x in (a, b):
    vs += list(x.vals) if obs.is_die(x) else list(x) if obs.is_seq(x) else [x] if isinstance(x, (int, float)) else []
  fl = any(isinstance(v, float) for v in vs) or any(isinstance(v, float) for m in ms for v in (m.dist.w if isinstance(m, model.Die) else m if isinstance(m, model.Seq) else [m]))
  return fl and any(abs(v) > 2 ** 45 for v in vs)


def binary(case):
  rng = case.rng
  for _ in range(16):
    op = rng.choice(list(BIN))
    for _try in range(40):
      mode = rng.choice(['both', 'both', 'left', 'right', 'same'])
      if mode in ('both', 'same'):
        a, ma = any_die(rng)
        b, mb = (a, ma) if mode == 'same' else any_die(rng)
        ka = kb = 'die'
      elif mode == 'left':
        a, ma = any_die(rng)
        ka = 'die'
        kb, b, mb = operand(rng, op, 'R')
      else:
        b, mb = any_die(rng)
        kb = 'die'
        ka, a, ma = operand(rng, op, 'L')
      if mixed(a, b, ma, mb):
        continue
      if adapt(rng, op, 'L', ma) and adapt(rng, op, 'R', mb) and listed_ok(op, 'L', a) and listed_ok(op, 'R', b):
        break
    else:
      continue
    what = f'{core.short(a)} {op} {core.short(b)}'
    case.log(what)
    w = model.World()
    try:
      want = w.binop(op, ma, mb)
    except Unsupported as e:
      continue
    if obs.is_seq(a) and op in ('<', '<=', '>', '>=', '=', '!=') or obs.is_seq(b) and op in ('<', '<=', '>', '>=', '=', '!='):
      pass   # a die compares with the sum of the sequence, in either order
    got = BIN[op](a, b)
    obs.agree(case, what, got, want, as_dist=False)
    case.seen('op ' + op, (op, mode, ka, kb, core.short(a), core.short(b)) if len(obs.die_pairs(got)) >= 1 else None)
    case.seen(mode)


def unary(case):
  rng = case.rng
  for _ in range(12):
    d, m = any_die(rng)
    if rng.random() < 0.5:   # fractional outcomes
      q = rng.choice([4, 2])
      d, m = d / q, model.Die(m.dist.map(lambda v: v / q))
    name = rng.choice(list(UN))
    what = f'{name}({core.short(d)})'
    case.log(what)
    if name == 'round' and rng.random() < 0.5:
      k = rng.choice([0, 1, 2, -1])
      got = round(d, k)
      want = m.dist.map(lambda v: round(v, k))
      what = f'round({core.short(d)}, {k})'
    elif name == 'round':
      got = round(d)
      want = m.dist.map(lambda v: round(v, 0))
    else:
      got = UN[name](d)
      want = m.dist.map(UN[name] if name != '-' else lambda v: 0 - v)
    obs.same_dist(case, what, got, want)
    case.seen('unary', (what,))


def chain(case):
  """longer expressions, evaluated in lock step with the model"""
  rng = case.rng
  w = model.World()
  x, m = gen.die(rng, 4, zero=False)
  parts = [core.short(x)]
  for _ in range(rng.randint(2, 6)):
    op = rng.choice(['+', '-', '*', '//', '%', '>', '<=', '=', '!=', '&', '|', '+', '-'])
    r = rng.random()
    if r < 0.5:
      y, my = gen.die(rng, 4, zero=False)
    elif r < 0.6:
      y, my = x, m
    else:
      _, y, my = operand(rng, op, 'R')
    flip = rng.random() < 0.4
    a, b, ma, mb = (y, x, my, m) if flip else (x, y, m, my)
    if not (adapt(rng, op, 'L', ma) and adapt(rng, op, 'R', mb) and listed_ok(op, 'L', a) and listed_ok(op, 'R', b)):
      continue
    if mixed(a, b, ma, mb):
      continue
    if len(m.dist) * (len(my.dist) if isinstance(my, model.Die) else 1) > 20000:
      continue
    try:
      want = w.binop(op, ma, mb)
    except Unsupported:
      continue
    got = BIN[op](a, b)
    parts.append(f'{"flip " if flip else ""}{op} {core.short(y)}')
    case.log(' '.join(parts))
    obs.agree(case, ' '.join(parts), got, want)
    x, m = got, want
    case.seen('op ' + op)
  case.seen('chain', tuple(parts))


def decimals(case):
  """outcomes that floating point cannot tell exactly: every result is what plain arithmetic gives for that pair"""
  rng = case.rng
  for _ in range(16):
    op = rng.choice([o for o in BIN if o != '**'])
    a, ma = gen.close_die(rng, 6)
    r = rng.random()
    if r < 0.15:
      b, mb = a, ma
    elif r < 0.5:
      b, mb = gen.close_die(rng, 6)
      if rng.random() < 0.5:       # outcomes of a and their neighbours
        vals = sorted({rng.choice([v, math.nextafter(v, math.inf), v * (1 + 1e-11)]) for v in ma.dist.w})
        b, mb = core.lib.RV(vals, [1] * len(vals)), model.Die(model.Dist([(v, 1) for v in vals]))
    elif r < 0.8:
      b = mb = rng.choice(list(ma.dist.w) + gen.close_floats(rng, 2))
    else:
      b, mb = gen.die(rng, 5)
    if rng.random() < 0.4:
      a, ma, b, mb = b, mb, a, ma
    vs = list(b.vals) if obs.is_die(b) else [b]
    if op in ('/', '//', '%') and 0 in vs:
      continue
    what = f'{a.vals if obs.is_die(a) else a} {op} {b.vals if obs.is_die(b) else b}'
    case.log(what)
    try:
      want = model.World().binop(op, ma, mb)
      got = BIN[op](a, b)
    except (Unsupported, OverflowError):
      continue
    if isinstance(want, model.Die):
      obs.same_dist(case, what, got, want.dist)
      case.seen('decimals', what)
  d, m = gen.close_die(rng, 6)
  for name, f in (('-', operator.neg), ('+', operator.pos), ('abs', abs)):
    obs.same_dist(case, f'{name}({d.vals})', f(d), m.dist.map(f))


def exact(case):
  """whole numbers far beyond 2**53: results are exact whole numbers, as in plain arithmetic"""
  rng, lib = case.rng, core.lib

  def die():
    r = rng.random()
    if r < 0.5:
      return gen.huge_die(rng, 3)
    if r < 0.7:
      d, m = gen.die(rng, 4, floats=0)
      k = rng.choice([2 ** 53 + 1, 10 ** 17 + 3, 3 ** 50])
      return d * k, model.Die(m.dist.map(lambda v: v * k))
    return gen.die(rng, 4, floats=0)
  for _ in range(14):
    op = rng.choice([o for o in BIN if o != '/'] + ['**'] * 4)
    if op == '**':
      hi = rng.choice([7, 20, 60])
      es = rng.sample(range(0, hi + 1), rng.randint(1, 4))
      bs = rng.sample(range(-12, 41), rng.randint(1, 4))
      (a, ma), (b, mb) = [(lib.RV(vs, ws), model.Die(model.Dist(list(zip(vs, ws))))) for vs, ws in ((vs, gen.weights(rng, len(vs))) for vs in (bs, es))]
      r = rng.random()
      if r < 0.4:
        a = ma = bs[0]
      elif r < 0.7:
        b = mb = es[0]
    else:
      a, ma = die()
      b, mb = die() if rng.random() < 0.6 else rng.choice([(n, n) for n in (gen.huge_int(rng), gen.number(rng, floats=0), 3 ** 40, rng.choice(list(ma.dist.w)))])
      if rng.random() < 0.4:
        a, ma, b, mb = b, mb, a, ma
      if op in ('//', '%') and 0 in (b.vals if obs.is_die(b) else [b]):
        continue
    what = f'{core.short(a)} {op} {core.short(b)}'
    case.log(what)
    try:
      want = model.World().binop(op, ma, mb)
    except Unsupported:
      continue
    got = BIN[op](a, b)
    obs.agree(case, what, got, want)
    if obs.is_die(got):
      case.require(all(type(v) in (int, bool) for v in got.vals), f'{what}: outcomes {core.short(got.vals)} of whole numbers are not whole numbers')
    case.seen('exact', what)


def crowded(case):
  """dice with dozens to hundreds of outcomes: uniform ranges, ranges with gaps, steps, repeated weights"""
  rng = case.rng

  def one(lo, span):
    r = rng.random()
    vals = list(range(lo, lo + span))
    if r < 0.5:      # some inner outcomes missing, both ends there
      for v in rng.sample(vals[1:-1], rng.randint(1, max(1, span // 4))):
        vals.remove(v)
    elif r < 0.65:
      vals = [lo + 2 * i for i in range(span)]
    ws = [1] * len(vals) if rng.random() < 0.6 else [rng.choice([1, 2, 5]) for _ in vals]
    if rng.random() < 0.15:
      ws[rng.randrange(len(ws))] += 1
    return core.lib.RV(vals, ws), model.Die(model.Dist(list(zip(vals, ws))))
  span = rng.choice([34, 45, 60, 70, 101, 130])
  a, ma = one(rng.choice([1, 0, -span // 2, 1000]), span)
  b, mb = one(rng.choice([1, 0, -span // 2, 7]), span if rng.random() < 0.7 else rng.randint(3, 70))
  if rng.random() < 0.2:
    b, mb = a, ma
  w = model.World()
  for op in ('+', rng.choice(['-', '-', '<', '>=', '=', '*', '|', '!='])):
    for (x, mx), (y, my) in (((a, ma), (b, mb)), ((b, mb), (a, ma))):
      what = f'{core.short(x)} {op} {core.short(y)}'
      case.log(what)
      obs.agree(case, what, BIN[op](x, y), w.binop(op, mx, my), as_dist=False)
      case.seen('many outcomes', (what,))


WORKLOADS = {
  'crowded': (crowded, 96, 1200, 4),
  'exact': (exact, 1000, 10000, 25),
  'decimals': (decimals, 800, 8000, 25),
  'binary': (binary, 5600, 56000, 20),
  'unary': (unary, 1200, 12000, 25),
  'chain': (chain, 3200, 32000, 25),
}
