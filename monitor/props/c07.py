"""C07: mixtures and the blank die."""
import operator

from .. import core, gen, model, obs
from ..core import Violation
from ..model import BLANK, Seq

RULE = ('mixtures: random parts (numbers, sequences, dice of unequal totals, pools, blank, None, repeated objects) with random integer weights incl. 0 and default weights, also through typed functions that '
        'return nothing for some outcomes; blank: every operator with blank on either side and every kind of other operand, plus length, sequences, rolls, output, typed calls.  '
        'Observed results are compared with exact weighted averages and the blank algebra.  Non-trivial: distinct mixture contents with at least two parts, or distinct (operator, operand).')
ASSUMPTIONS = ['blank here is the ordinary blank die; what a suppressed call itself returns is only required to be blank']
MUST_SEE = ('mixture', 'sequence part', 'left out', 'all missing', 'blank op', 'blank roll', 'blank call', 'typed mixture')
BIN = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv, '//': operator.floordiv, '%': operator.mod, '**': operator.pow,
       '=': operator.eq, '!=': operator.ne, '<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge, '&': operator.and_, '|': operator.or_}


def some_blank(rng):
  """a blank die, however it came about"""
  lib, b = core.lib, core.lib.BlankRV()
  k = rng.randrange(6)
  if k == 0:
    return lib.roll(rng.randint(1, 3), [])
  if k == 1:
    return lib.roll(b, rng.randint(1, 6))          # a blank number of dice
  if k == 2:                                       # a call that is not made
    @rng.choice([lib.anydice_casting, lib.anydice_type_casting])()
    def f(N: rng.choice([lib.T_N, lib.T_S])):
      return 1
    return f(b)
  if k == 3:
    return lib.RV.from_rvs([None, b])
  return b


def mixture(case):
  rng, lib = case.rng, core.lib
  for _ in range(6):
    k = rng.choice([1, 2, 2, 3, 3, 4, 5, 7] if rng.random() < 0.96 else [10, 16, 33, 40, 60, 100])
    small = k > 7
    parts = []
    for _ in range(k):
      r = rng.random()
      if r < 0.25 or k > 40 and r > 0.45:
        n = gen.number(rng)
        parts.append((n, model.Dist({n: 1})))
      elif r < 0.35:
        parts.append((some_blank(rng), None))
      elif r < 0.45:
        parts.append((None, None))
      elif r < 0.52 and parts:
        parts.append(rng.choice(parts))
      elif r < 0.58:                                   # a sequence counts as its sum
        xs = [gen.number(rng) for _ in range(rng.randint(0, 4))]
        q = gen.seq_of(rng, xs) if hasattr(gen, 'seq_of') else lib.Seq(*xs)
        parts.append((q, model.Dist({sum(xs): 1})))
        case.seen('sequence part', tuple(xs))
      elif r < 0.8 or small:
        d, m = gen.die(rng, 5)
        if small and m.dist.total > 8:      # totals are multiplied
          d, m = lib.roll(3), model.World().roll(1, 3)
        parts.append((d, m.dist))
      elif r < 0.85:
        d, m = rng.choice([gen.wide_die, gen.heavy_die, gen.huge_die])(rng)
        parts.append((d, m.dist))
      else:
        d, m = gen.pool(rng, 3, 4)
        parts.append((d, m.dist))
    default = rng.random() < 0.25
    ws = [1] * k if default else [rng.choice([0, 1, 1, 2, 3, 5, 12] if rng.random() < 0.95 else [1000, 10 ** 6, 2 ** 40, 10 ** 15 + 1]) for _ in range(k)]
    live = [(w, m) for w, (_, m) in zip(ws, parts) if m is not None]
    if live and not any(w for w, _ in live):
      continue
    if rng.random() < 0.5:
      args = [p for p, _ in parts], (None if default else list(ws))
    else:
      args = (p for p, _ in parts), (None if default else iter(ws))
    what = f'from_rvs({[core.short(p, 80) for p, _ in parts]}, {None if default else ws})'
    case.log(what)
    got = lib.RV.from_rvs(args[0]) if default and rng.random() < 0.5 else lib.RV.from_rvs(rvs=args[0], weights=args[1])
    if not live:
      obs.agree(case, what, got, BLANK)
      case.seen('all missing')
      continue
    obs.same_dist(case, what, got, model.mix(live), obs.TOL if model._mix_big(live) else None)
    case.seen('mixture', what if k > 1 else None)
    if len(live) < k:
      case.seen('left out')


def typed_mixture(case):
  """functions that give nothing / blank for some outcomes: the rest is rescaled"""
  rng, lib = case.rng, core.lib
  for _ in range(5):
    d, m = gen.pool(rng, 2, 5, floats=0, zero=False)
    keep = {v: rng.choice(['none', 'blank', 'blank', 'number', 'die', 'seq']) for v in d.vals}
    pay = {v: gen.die(rng, 3) for v in d.vals}

    def f(N: lib.T_N):
      k = keep[N]
      return None if k == 'none' else some_blank(rng) if k == 'blank' else N * 3 if k == 'number' else pay[N][0] if k == 'die' else lib.Seq(N, N, 1)
    live = []
    for v, w in m.dist.sorted():
      k = keep[v]
      if k in ('none', 'blank'):
        continue
      live.append((w, model.Dist({v * 3: 1}) if k == 'number' else pay[v][1].dist if k == 'die' else model.Dist({2 * v + 1: 1})))
    deco = rng.choice(['anydice_casting', 'anydice_type_casting'])
    got = getattr(lib, deco)()(f)(d)
    what = f'{deco} {keep} on {core.short(d)}'
    case.log(what)
    if live:
      obs.same_dist(case, what, got, model.mix(live), obs.TOL if model._mix_big(live) else None)
    else:
      obs.agree(case, what, got, BLANK)
    case.seen('typed mixture', what)


def other(rng):
  r = rng.random()
  if r < 0.3:
    n = gen.number(rng)
    return n, n
  if r < 0.45:
    return gen.seq(rng)
  if r < 0.55:
    e, m = gen.seq(rng)
    return (gen.once(rng, m) if rng.random() < 0.7 else gen.lists_of(rng, m)), m
  if r < 0.8:
    return gen.die(rng, 5)
  if r < 0.9:
    return gen.pool(rng, 3, 4)
  return core.lib.BlankRV(), BLANK


def blank_algebra(case):
  rng, lib = case.rng, core.lib
  w = model.World()
  for op in BIN:
    for side in 'LR':
      x, mx = other(rng)
      b = lib.BlankRV() if rng.random() < 0.6 else rng.choice([lib.roll(3, []), lib.roll(lib.Seq()), lib.RV.from_rvs([None]), lib.roll(2, lib.BlankRV())])
      what = f'blank {op} {core.short(x)}' if side == 'L' else f'{core.short(x)} {op} blank'
      case.log(what)
      got = BIN[op](b, x) if side == 'L' else BIN[op](x, b)
      want = w.binop(op, BLANK, mx) if side == 'L' else w.binop(op, mx, BLANK)
      if isinstance(want, Seq):      # neutral: the sequence itself or its sum
        if obs.is_seq(got):
          obs.agree(case, what, got, want)
        elif got is x:
          obs.agree(case, what, lib.get_seq(got), want)
        else:
          obs.agree(case, what, got, sum(want))
      else:
        obs.agree(case, what, got, want)
      case.seen('blank op', (op, side, core.short(x)))


def blank_misc(case):
  rng, lib = case.rng, core.lib
  import math
  b = lib.BlankRV()
  n = rng.choice([1, 2, 5, 0, -3, 2.5])
  d, m = gen.die(rng, 5)
  s, ms = gen.seq(rng)
  case.log(f'blank rolls and sequences with {n}, {core.short(d)}, {core.short(s)}')
  for what, x in [(f'roll({n}, blank)', lib.roll(n, b)), ('roll(blank)', lib.roll(b)), (f'roll({n}, [])', lib.roll(n, [])), (f'roll({n}, Seq())', lib.roll(n, lib.Seq())),
                  ('roll(die, blank)', lib.roll(d if all(isinstance(v, int) for v in d.vals) else 2, b)), ('roll(seq, blank)', lib.roll(lib.Seq(1, 2), b)), ('roll([])', lib.roll([])),
                  ('roll(blank, blank)', lib.roll(b, b)),
                  ('-blank', -b), ('+blank', +b), ('abs(blank)', abs(b)), ('round(blank)', round(b)), ('floor(blank)', math.floor(b)), ('ceil(blank)', math.ceil(b)), ('trunc(blank)', math.trunc(b))]:
    obs.agree(case, what, x, BLANK)
    case.require(len(x) == 0, f'{what}: length {len(x)}')
    case.seen('blank roll', what + repr(n))
  # a roll of blank many dice is blank too
  obs.agree(case, 'roll(blank, d)', lib.roll(b, d), BLANK)
  # nothing is added to sequences
  mixed = [s, b, 3, lib.roll([]), d]
  want = model.flatten([ms, 3]) + tuple(d.vals)
  for ctor in (lib.get_seq, lib.Seq):
    got = ctor(mixed) if rng.random() < 0.5 else ctor(*mixed)
    obs.agree_seq_exact(case, f'{ctor.__name__}({core.short(mixed)})', got, want)
  case.seen('blank op', ('seq', core.short(s), core.short(d)))
  # printing
  lib.settings_set('DEFAULT_OUTPUT_WIDTH', rng.randint(1, 60))
  width = rng.choice([None, rng.randint(1, 50)])
  label = rng.choice([None, 'label', 'a b', ''])
  for v in (b, None, lib.Seq(), lib.roll([])):
    t = lib.output(v, named=label, blocks_width=width, print_=False)
    lines = t.split('\n')
    wd = width if width is not None else core.submodule('settings').SETTINGS['DEFAULT_OUTPUT_WIDTH']
    if len(lines) != 2 or lines[0].strip() != (label or '').strip() or set(lines[1]) != {'-'}:
      raise Violation(f'output of an empty result labelled {label!r}: {t!r}')
    del wd
  lib.settings_reset()


def blank_calls(case):
  """not called for number/sequence parameters, called for die parameters"""
  rng, lib = case.rng, core.lib
  for _ in range(6):
    k = rng.choice([1, 2, 3])
    types = [rng.choice(['n', 's', 'd', None]) for _ in range(k)]
    where = rng.randrange(k)
    ann = {'n': lib.T_N, 's': lib.T_S, 'd': lib.T_D}
    names = 'ABC'[:k]
    env = {'log': []}
    sig = []
    for nme, t in zip(names, types):
      if t:
        env['T' + nme] = ann[t]
      sig.append(f'{nme}: T{nme}' if t else nme)
    exec(f'def f({", ".join(sig)}):\n  log.append(({"".join(n + "," for n in names)}))\n  return 7\n', env)
    g = getattr(lib, rng.choice(['anydice_casting', 'anydice_type_casting']))()(env['f'])
    b = rng.choice([lib.BlankRV(), lib.roll([]), lib.RV.from_rvs([])])
    args = []
    for i in range(k):
      if i == where:
        args.append(b)
      else:
        args.append(rng.choice([rng.randint(0, 5), gen.die(rng, 3)[0], gen.seq(rng)[0]]))
    kw = rng.random() < 0.4
    what = f'f({list(zip(names, types))}) with blank for {names[where]}, others {core.short([core.short(a) for a in args])}'
    case.log(what)
    got = g(**dict(zip(names, args))) if kw else g(*args)
    case.seen('blank call', what)
    if types[where] in ('n', 's'):
      if env['log']:
        raise Violation(f'{what}: the function was called {len(env["log"])} times')
      if not obs.is_blank(got):
        raise Violation(f'{what}: returned {core.short(got)}')
    else:
      if not env['log']:
        raise Violation(f'{what}: the function was not called')
      for a in env['log']:
        if not obs.is_blank(a[where]):
          raise Violation(f'{what}: blank reached the function as {core.short(a[where])}')
      obs.agree(case, what, got, 7, as_dist=True)


WORKLOADS = {
  'mixture': (mixture, 4800, 48000, 20),
  'typed_mixture': (typed_mixture, 2400, 24000, 20),
  'blank_algebra': (blank_algebra, 1200, 12000, 20),
  'blank_misc': (blank_misc, 720, 7200, 20),
  'blank_calls': (blank_calls, 1800, 18000, 20),
}
