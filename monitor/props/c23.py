"""C23: a die describes itself as the roll that made it."""
from .. import core, gen, model, obs
from ..core import Violation
from ..model import Seq, Unsupported

RULE = ('compositions of rolls (counts: numbers, negative, 0, decimals, sequences, dice, "ndm" text, the D shorthand; faces: sides, negative sides, 0, lists, ranges, sequences, decimals, dice, rolls of '
        'rolls, texts) and operations on them, each described as text and compared with the notation rules; all descriptions are observed again at the end of the history.  Non-trivial: '
        'distinct (construction, description).')
ASSUMPTIONS = ['the special blank produced by rolling a blank number of dice is not judged']
MUST_SEE = ('numbered', 'listed faces', 'zero', 'negative', 'rerolled', 'other operation', 'blank', 'sequence', 'stable', 'rolled by a die', 'text form')


def sides(rng):
  return rng.choice([1, 2, 4, 6, 20, 100, -1, -6, -4, 0, 3, 7, 10, 12, -10, -100, -20])


def count(rng):
  """library count, model count"""
  lib = core.lib
  r = rng.random()
  if r < 0.6:
    n = rng.choice([0, 1, 1, 2, 3, 5, 10, -1, -2, -7, 4, 6, 9, 12, 20, -10, -12, 2])
    return n, n, str(n)
  if r < 0.7:
    n = rng.choice([0.5, 1.5, 2.0, 2.25])
    return n, n, str(n)
  if r < 0.88:
    e = [rng.randint(-2, 3) for _ in range(rng.randint(0, 3))]
    return (lib.Seq(*e) if rng.random() < 0.5 else list(e)), Seq(e), f'seq{e}'
  if rng.random() < 0.4:      # a die that always shows the same number is still a die
    c = rng.choice([0, 1, 2, 3, -2])
    d = rng.choice([lib.RV.from_const(c), lib.RV([c], [3]), lib.roll([c]), lib.roll(1, lib.RV([c, c], [1, 2]))])
    return d, model.Die([(c, 1)]), f'a die of {c}'
  d = lib.roll(3) if rng.random() < 0.5 else lib.RV([1, 2], [1, 1])
  m = model.World().roll(1, 3) if len(d.vals) == 3 else model.Die([(1, 1), (2, 1)])
  return d, m, 'a die'


def roll_of(rng, pool):
  """new die from a roll -> (lib, model, label, kind)"""
  lib, w = core.lib, model.World()
  n, mn, nt = count(rng)
  r = rng.random()
  kind = []
  if r < 0.4 or not pool:
    s = sides(rng)
    d, md, dt = s, s, f'd{s}'
    kind.append('numbered')
    if s == 0 or (isinstance(mn, int) and mn == 0):
      kind.append('zero')
    if s < 0 or (isinstance(mn, int) and mn < 0):
      kind.append('negative')
  elif r < 0.55:
    e = [gen.number(rng, -3, 6, 0.2) for _ in range(rng.randint(1, 4))] if rng.random() < 0.75 else list(range(rng.choice([1, 1, 0, -3]), rng.choice([2, 3, 6, 8, 10, 12, 20, 30])))
    d, md, dt = gen.lists_of(rng, Seq(e)) if rng.random() < 0.6 else lib.Seq(*e), Seq(e), f'faces{e}'
    kind.append('listed faces')
  elif r < 0.6:
    d, md, dt = 2.5, 2.5, 'd2.5'
    kind.append('listed faces')
  elif r < 0.65:
    d, md, dt = rng.choice([[], lib.Seq(), lib.BlankRV()]), model.Seq(()), 'nothing'
    kind.append('blank')
  else:
    d, md, dt = rng.choice(pool)
    if not isinstance(md, model.Die):
      return None
    kind.append('rerolled')
  if isinstance(mn, model.Die):
    kind.append('rolled by a die')
  mr = w.roll(mn, md)
  one = nt == '1' and rng.random() < 0.5
  if one:
    return lib.roll(d), mr, f'roll({dt})', kind
  if isinstance(n, int) and isinstance(d, int) and rng.random() < 0.3:
    kind.append('text form')
    if n == 1 and rng.random() < 0.5:
      return lib.roll(f'd{d}'), w.roll(1, d), f'roll("d{d}")', kind
    return lib.roll(f'{n}d{d}'), mr, f'roll("{n}d{d}")', kind
  if isinstance(n, int) and isinstance(d, int) and rng.random() < 0.2:
    return n * core.submodule('altcast').D * d, mr, f'{n}*D*{d}', kind
  return lib.roll(n, d), mr, f'roll({nt}, {dt})', kind


def histories(case):
  rng, lib = case.rng, core.lib
  pool, told = [], []

  def tell(x, m, label, kinds):
    want = model.describe(m)
    got = str(x)
    case.log(f'{label} -> {got}')
    if got != want or f'{x}' != want:
      raise Violation(f'{label} describes itself as {got!r}, expected {want!r}')
    for k in kinds:
      case.seen(k)
    case.seen('described', (label, got))
    told.append((x, got, label))
  for step in range(rng.randint(6, 14)):
    r = rng.random()
    try:
      if r < 0.6 or not pool:
        res = roll_of(rng, pool)
        if res is None:
          continue
        x, m, label, kinds = res
      elif r < 0.66:
        s, ms = gen.seq(rng)
        x, m, label, kinds = s, ms, f'sequence {tuple(ms)}', ['sequence']
      elif r < 0.7:
        x, m, label, kinds = lib.BlankRV(), model.BLANK, 'blank', ['blank']
      else:
        a, ma, la = rng.choice(pool)
        if not isinstance(ma, model.Die):
          continue
        w = model.World()
        k = rng.randrange(12)
        kinds = ['other operation']
        if k == 0:
          x, m, label = a + 1, w.binop('+', ma, 1), f'({la}) + 1'
        elif k == 1:
          x, m, label = -a, w.neg(ma), f'-({la})'
        elif k == 2:
          x, m, label = a > 2, w.binop('>', ma, 2), f'({la}) > 2'
        elif k == 3:
          x, m, label = +a, ma, f'+({la})'
        elif k == 4:
          x, m, label = a + a, w.binop('+', ma, ma), f'({la}) + same'
        elif k == 5:
          x, m, label = lib.RV.from_rvs([a, 1]), model.Die(model.mix([(1, ma.dist), (1, model.Dist({1: 1}))])), f'mix of {la}'
        elif k == 6:
          x, m, label = lib.RV(a.vals, a.probs), model.Die(ma.dist), f'RV copy of {la}'
        elif k == 7:
          x, m, label = 1 @ a, model.Die(w.at(1, ma).dist), f'1 @ ({la})'
        else:
          name, x, dist = gen.plain_from(rng, a, ma)
          if name == 'roll(die of 1, x)':     # a roll
            continue
          m, label = model.Die(dist), f'{name} for x = {la}'
        if not obs.is_die(x):
          continue
      if isinstance(m, model.Die) and len(m.dist) > 600:
        continue
      tell(x, m, label, kinds)
    except Unsupported:
      continue
    if obs.is_die(x) and len(m.dist) <= 60:
      pool.append((x, m, label if len(label) < 60 else label[:57] + '...'))
  # using the dice must not change how they describe themselves
  for x, got, label in told:
    if obs.is_die(x):
      lib.roll(2, x)
      lib.roll(x)
      lib.roll([1, 1], x)
  for x, got, label in told:
    if str(x) != got:
      raise Violation(f'{label} described itself as {got!r} when made and as {str(x)!r} later')
    case.seen('stable')


def fixed_forms(case):
  """every (count, sides) of a small table"""
  rng, lib = case.rng, core.lib
  s = [-20, -6, -2, -1, 0, 1, 2, 6, 20][case.index % 9]
  if s in (-1, 1):
    for n in (10 ** 6, 1234567, 10 ** 9 + 1, 10 ** 15 + 1, 2 ** 53 + 1, 10 ** 16 + 1, 2 ** 64 + 1, 10 ** 30 + 7):
      for k in (n, -n):
        exp = ('-' if k * s < 0 else '') + f'{n}d1'
        for label, x in ((f'roll({k}, {s})', lib.roll(k, s)), (f'roll([{k}], {s})', lib.roll([k], s)), (f'roll("{k}d{s}")', lib.roll(f'{k}d{s}')), (f'roll({k}, roll({s}))', lib.roll(k, lib.roll(s)))):
          want = exp if 'roll(' not in label[5:] else model.describe(model.World().roll(7 if k > 0 else -7, model.World().roll(1, s))).replace('7', str(n))
          case.log(label)
          if str(x) != want or x.vals != (k * s,):
            raise Violation(f'{label} describes itself as {x!s}, expected {want}; outcomes {x.vals}')
          case.seen('numbered', (label, want))
  for n in (-11, -3, -2, -1, 0, 1, 2, 3, 11):
    m = model.World().roll(n, s)
    want = model.describe(m)
    for label, x in ((f'roll({n}, {s})', lib.roll(n, s)), (f'roll("{n}d{s}")', lib.roll(f'{n}d{s}')), (f'roll([{n}], {s})', lib.roll([n], s)),
                     (f'roll({n}, roll({s}))', lib.roll(n, lib.roll(s))), (f'roll(roll({n}, {s}))', None)):
      if x is None:
        inner = lib.roll(n, s)
        x, w = lib.roll(inner), model.describe(model.World().roll(1, m))
      else:
        w = want
      if str(x) != w:
        raise Violation(f'{label} describes itself as {str(x)!r}, expected {w!r}')
      case.seen('numbered', (label, w))
    if s and n:
      total = n * s
      exp = ('-' if total < 0 else '') + (str(abs(n)) if abs(n) > 1 else '') + 'd' + str(abs(s))
      if str(lib.roll(n, s)) != exp:
        raise Violation(f'roll({n}, {s}) describes itself as {lib.roll(n, s)!s}, expected {exp}')


WORKLOADS = {
  'histories': (histories, 1600, 16000, 25),
  'fixed_forms': (fixed_forms, 9, 9, 3),
}
