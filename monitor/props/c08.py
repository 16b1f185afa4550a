"""C08: the function library computes its documented functions."""
from .. import core, gen, model, obs
from ..core import Violation
from ..model import Seq, Unsupported

RULE = ('every library function on numbers, decimals, sequences, lists, dice, pools and mixtures in every argument (so that typed expansion is exercised), explode with random depth setting/argument '
        'on dice with negative, skewed and constant faces, N of dice for N from 0 to more than the dice, great-weapon-fighting with thresholds, and calls with surplus scope arguments; '
        'observed results against the reference library.  Non-trivial: distinct (function, argument contents).')
ASSUMPTIONS = ['default position order (the N-of functions are defined by positions)', 'decimal values are multiples of 1/4']

PY = {'absolute X': 'absolute_X', 'X contains X': 'X_contains_X', 'count X in X': 'count_X_in_X', 'explode X': 'explode_X', 'highest X of X': 'highest_X_of_X',
      'lowest X of X': 'lowest_X_of_X', 'middle X of X': 'middle_X_of_X', 'highest of X and X': 'highest_of_X_and_X', 'lowest of X and X': 'lowest_of_X_and_X',
      'maximum of X': 'maximum_of_X', 'reverse X': 'reverse_X', 'sort X': 'sort_X'}
MUST_SEE = tuple(PY) + ('gwf', 'explode depth')


def number_arg(rng):
  r = rng.random()
  if r < 0.45:
    n = gen.number(rng)
    return n, n
  if r < 0.6:
    s, m = gen.seq(rng)
    return (s, m) if rng.random() < 0.6 else (gen.lists_of(rng, m), m)
  if r < 0.85:
    return gen.die(rng, 6, zero=False)
  return gen.pool(rng, 3, 4, zero=False)


def seq_arg(rng):
  r = rng.random()
  if r < 0.4:
    s, m = gen.seq(rng)
    return (s, m) if rng.random() < 0.6 else (gen.lists_of(rng, m), m)
  if r < 0.5:
    n = gen.number(rng)
    return n, n
  if r < 0.6:
    return gen.die(rng, 6, zero=False)
  return gen.pool(rng, 4, 4, zero=False, budget=80)


def die_arg(rng):
  r = rng.random()
  if r < 0.1:
    n = gen.number(rng)
    return n, n
  if r < 0.2:
    s, m = gen.seq(rng)
    while not len(m):
      s, m = gen.seq(rng)
    return (s, m) if rng.random() < 0.6 else (gen.lists_of(rng, m), m)
  if r < 0.45:
    return gen.die(rng, 8, zero=False)
  return gen.pool(rng, 7, 6, zero=False, budget=1200)


def count_arg(rng):
  r = rng.random()
  if r < 0.75:
    n = rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, 8])
    return n, n
  if r < 0.85:
    return core.lib.Seq(1, 1), Seq((1, 1))
  lo = rng.randint(0, 1)
  k = rng.randint(1, 3)
  d = core.lib.RV(range(lo, lo + k), [1] * k)
  return d, model.Die([(i, 1) for i in range(lo, lo + k)])


def get(rng, t, name):
  if t == 's':
    return seq_arg(rng)
  if t == 'd':
    return die_arg(rng)
  if name in ('highest X of X', 'lowest X of X', 'middle X of X'):
    return count_arg(rng)
  return number_arg(rng)


def library(case):
  rng, lib = case.rng, core.lib
  for _ in range(8):
    name = rng.choice(list(PY))
    _, types = model.LIB[name]
    args = [get(rng, t, name) for t in types]
    w = model.World()
    try:
      want = w.lib(name, [m for _, m in args])
    except Unsupported:
      continue
    what = f'{PY[name]}({", ".join(core.short(a) for a, _ in args)})'
    case.log(what)
    extra = ({},) if rng.random() < 0.2 else ()
    got = getattr(lib, PY[name])(*[a for a, _ in args], *extra)
    if isinstance(want, Seq):
      obs.agree(case, what, got, want)
    else:
      obs.agree(case, what, got, want, as_dist=True, any_type=True)   # highest of 2 and 2.0 may be either
    case.seen(name, what)


def explode(case):
  rng, lib = case.rng, core.lib
  for _ in range(5):
    r = rng.random()
    d, m = gen.die(rng, 6, zero=False) if r < 0.7 else gen.pool(rng, 3, 4, zero=False, budget=60)
    depth = rng.choice([1, 2, 3, 4, 5])
    if len(m.dist) <= 3 and m.dist.total <= 6 and rng.random() < 0.3:
      depth = rng.randint(6, 10)
    w = model.World()
    via = rng.choice(['setting', 'argument', 'zero', 'default'])
    if via == 'setting':
      lib.settings_set('explode depth', depth)
      w.explode_depth = depth
      got = lib.explode_X(d)
      want = w.lib('explode X', [m])
    elif via == 'argument':
      got = lib.explode_X(d, depth=depth)
      want = w.lib('explode X', [m], depth=depth)
    elif via == 'zero':
      got, want, depth = lib.explode_X(d, depth=0), w.lib('explode X', [m], depth=0), 0
    else:
      lib.settings_reset()
      got, want, depth = lib.explode_X(d), w.lib('explode X', [m]), 2
    what = f'explode ({via}) depth {depth} of {core.short(d)}'
    case.log(what)
    obs.agree(case, what, got, want, as_dist=True)
    case.seen('explode depth', what)
    lib.settings_reset()


def n_of(case):
  """all N for one pool: highest/lowest/middle keep exactly N dice, and complement each other"""
  rng, lib = case.rng, core.lib
  from fractions import Fraction
  d, m = gen.die(rng, 5, zero=False)
  n = rng.randint(1, 6) if len(m.dist) > 3 or rng.random() < 0.8 else rng.randint(7, 14)
  w = model.World()
  pool, mp = lib.roll(n, d), w.roll(n, m)
  tot = model.mean_var(mp.dist)[0]
  for k in range(0, n + 2):
    case.log(f'{k} of roll({n}, {core.short(d)})')
    res = {}
    for nm in ('highest', 'lowest', 'middle'):
      got = getattr(lib, f'{nm}_X_of_X')(k, pool)
      obs.agree(case, f'{nm} {k} of roll({n}, {core.short(d)})', got, w.lib(f'{nm} X of X', [k, mp]), as_dist=True)
      res[nm] = got
      case.seen(f'{nm} X of X', (nm, k, n, tuple(m.dist.sorted())) if len(m.dist) > 1 else None)
    if 1 <= k < n and m.dist.total ** n < 10 ** 25:
      hi = model.mean_var(model.Dist(obs.die_pairs(res['highest'])))[0]
      lo = model.mean_var(model.Dist(obs.die_pairs(lib.lowest_X_of_X(n - k, pool))))[0]
      if hi + lo != tot:
        raise Violation(f'highest {k} and lowest {n - k} of roll({n}, {core.short(d)}): means {hi} + {lo} != {tot}')


def gwf(case):
  rng, lib = case.rng, core.lib
  f = core.submodule('funclib').gwf
  for _ in range(4):
    n = rng.choice([1, 1, 2, 2, 3, 4, 4, 0, 5, 7])
    w = model.World()
    if rng.random() < 0.5:
      s = rng.choice([2, 4, 6, 8, 10, 12, 1, 3, 20, 30])
      dmg, mdmg, label = s, w.roll(1, s), s
    else:
      dmg, mdmg = gen.die(rng, 6, floats=0, zero=False)
      label = core.short(dmg)
    thr = rng.choice([None, 0, 1, 2, 3, 5, -1, 2.5, 7, 100])
    t = 2 if thr is None else thr
    single = model.mix([(p, mdmg.dist if v <= t else model.Dist({v: 1})) for v, p in mdmg.dist.sorted()])
    want = single.power_sum(n)
    if rng.random() < 0.25:
      # number of dice given as a die
      cnt = lib.RV([1, 2], [1, 2])
      got = f(cnt, dmg) if thr is None else f(cnt, dmg, thr)
      want = model.mix([(1, single), (2, single.power_sum(2))])
      n = '1:1,2:2'
    else:
      got = f(n, dmg) if thr is None else (f(n, dmg, thr) if rng.random() < 0.5 else f(n, dmg, min_to_reroll=thr))
    what = f'gwf({n}, {label}, {thr})'
    case.log(what)
    obs.same_dist(case, what, got, want, obs.TOL if want.total > 10 ** 24 else None)
    case.seen('gwf', what)


def reverse_sort(case):
  """sequence results: permutations with the stated order; originals untouched"""
  rng, lib = case.rng, core.lib
  for _ in range(6):
    e = [gen.number(rng) if rng.random() < 0.97 else gen.huge_int(rng) for _ in range(rng.randint(0, 9) if rng.random() < 0.85 else rng.randint(10, 70))]
    if any(abs(v) > 2 ** 53 for v in e):
      e = [v for v in e if isinstance(v, int)]
    s = lib.Seq(*e)
    case.log(f'reverse/sort {e}')
    obs.agree_seq_exact(case, f'reverse {e}', lib.reverse_X(s), e[::-1])
    obs.agree_seq_exact(case, f'sort {e}', lib.sort_X(s), sorted(e, reverse=True))
    obs.agree_seq_exact(case, 'argument of reverse/sort', s, e)
    case.seen('reverse X', ('rs', tuple(e)) if len(e) > 1 else None)
    n = rng.choice(e) if e and rng.random() < 0.5 else gen.number(rng)
    obs.agree(case, f'{e} contains {n}', int(lib.X_contains_X(s, n)), 1 if n in e else 0)
    v = [rng.choice(e) if e and rng.random() < 0.6 else rng.randint(0, 4) for _ in range(rng.randint(0, 4))]
    obs.agree(case, f'count {v} in {e}', lib.count_X_in_X(lib.Seq(*v), s), sum(e.count(x) for x in v))
    a, b = gen.number(rng), gen.number(rng)
    if lib.highest_of_X_and_X(a, b) != max(a, b) or lib.lowest_of_X_and_X(a, b) != min(a, b):
      raise Violation(f'highest/lowest of {a} and {b}: {lib.highest_of_X_and_X(a, b)}, {lib.lowest_of_X_and_X(a, b)}')


WORKLOADS = {
  'library': (library, 4800, 48000, 20),
  'explode': (explode, 1600, 16000, 20),
  'n_of': (n_of, 960, 9600, 20),
  'gwf': (gwf, 640, 6400, 20),
  'reverse_sort': (reverse_sort, 1200, 12000, 20),
}
