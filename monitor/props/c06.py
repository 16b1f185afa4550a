"""C06: dice passed as sequences enumerate every roll once with its exact weight."""
import math
from fractions import Fraction

from .. import core, gen, model, obs
from ..core import Violation

RULE = ('pools of 1..10 dice (weighted, negative, decimal faces; 1..20 sides) and non-pools (sums, selections, mixtures, rolls by a die) are passed to a recording function typed as '
        'sequence; the recorded sequences must be exactly the set of multisets, sorted high to low, and the probability attached to each one (observed by returning a distinct '
        'code number per sequence) must be the multinomial probability.  Non-trivial: distinct (faces, n) with at least two combinations.')
ASSUMPTIONS = ['default position order']
EXACT = 10 ** 30     # weights up to here are never scaled down when numbers are mixed
MUST_SEE = ('crowd', 'pool', 'one die', 'sequences', 'second argument')


def recorder():
  """typed function that returns a distinct code per received sequence"""
  lib = core.lib
  codes, log = {}, []

  def f(S: lib.T_S):
    key = tuple(S)
    log.append((type(S), key))
    return codes.setdefault(key, len(codes))
  return lib.anydice_type_casting()(f), codes, log


def judge(case, what, lib_die, expect, big=False):
  """expect: dict sequence -> weight (positive)"""
  f, codes, log = recorder()
  got = f(lib_die)
  seen = {}
  for t, key in log:
    if not issubclass(t, core.lib.Seq):
      raise Violation(f'{what}: presented as {t}')
    seen[key] = seen.get(key, 0) + 1
  case.seen('sequences', n=len(log))
  for key, c in seen.items():
    if c != 1:
      raise Violation(f'{what}: combination {key} presented {c} times')
    if list(key) != sorted(key, reverse=True):
      raise Violation(f'{what}: combination {key} is not sorted from highest to lowest')
  for key in expect:
    if key not in seen:
      raise Violation(f'{what}: combination {key} never presented')
  tot = sum(expect.values())
  inv = {c: k for k, c in codes.items()}
  pairs = dict(obs.die_pairs(got, what)) if obs.is_die(got) else {got: 1}
  t = sum(pairs.values())
  for c, k in inv.items():
    p, q = Fraction(pairs.get(c, 0), t), Fraction(expect.get(k, 0), tot)
    if (abs(p - q) > obs.TOL) if big else (p != q):
      raise Violation(f'{what}: combination {k} has probability {pairs.get(c, 0)}/{t}, exact value {expect.get(k, 0)}/{tot}')


def pools(case):
  rng, lib = case.rng, core.lib
  for _ in range(4):
    d, m = gen.die(rng, rng.choice([2, 3, 4, 6, 10]), zero=rng.random() < 0.2)
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 7, 9])
    if rng.random() < 0.15:      # weights beyond 2**53, several dice
      unit = 2 ** rng.randint(30, 60)
      vals = rng.sample(range(-3, 9), rng.choice([1, 2, 2, 3, 4]))
      ws = [unit * rng.choice([1, 1, 2]) + rng.randint(0, 5) for _ in vals]
      d, m = lib.RV(vals, ws), model.Die(model.Dist(list(zip(vals, ws))))
      n = rng.randint(2, 6)
      case.seen('heavy', (n, tuple(ws)))
    elif rng.random() < 0.2:      # many dice with few faces: numbers of orders beyond 2**53
      d, m = gen.die(rng, rng.choice([2, 2, 3]), zero=False)
      n = rng.randint(20, 75) if len(m.dist) < 3 else rng.randint(12, 36)
    elif rng.random() < 0.2:    # the die rolled is a roll itself: its dice are not the dice of this roll
      k = rng.randint(2, 3)
      inner = rng.choice([lib.roll(k, d), k * core.submodule('altcast').D * d])
      d, m = inner, model.World().roll(k, m)
      n = rng.choice([1, 2, 2, 3])
      case.seen('roll of a roll', (n, k))
    if math.comb(len(d.vals) + n - 1, n) > 800:
      continue
    pool = lib.roll(n, d)
    what = f'roll({n}, {core.short(d)}) as a sequence'
    case.log(what)
    if n == 1 and len(d) > 1:      # roll(1, roll(k, d)): the k dice
      continue
    if n == 1:
      exp = {(v,): w for v, w in m.dist.items()}
    else:
      exp = dict(model.multisets(m.dist, n))
    judge(case, what, pool, exp, sum(exp.values()) > EXACT)
    case.seen('pool', (n, tuple(m.dist.sorted())) if len(exp) > 1 else None)
    if n > 1 and rng.random() < 0.3:     # wrapped once more: still n dice
      judge(case, f'roll(1, roll({n}, {core.short(d)})) as a sequence', lib.roll(1, pool), exp, sum(exp.values()) > EXACT)


def crowd(case):
  """hundreds to more than a thousand dice of two faces, and many faces of few dice"""
  rng, lib = case.rng, core.lib
  if rng.random() < 0.5:
    n = rng.choice([101, 128, 256, 300, 500, 999, 1100, 1500])
    vals, ws = rng.choice([([0, 1], [1, 1]), ([1, 2], [1, 2]), ([-1, 5], [3, 1])])
  else:
    n = 2
    k = rng.randint(30, 45)
    vals, ws = sorted(rng.sample(range(-60, 60), k)), [rng.randint(1, 9) for _ in range(k)]
  what = f'roll({n}, die with {len(vals)} faces) as a sequence'
  case.log(what)
  pool = lib.roll(n, lib.RV(vals, ws))
  exp = dict(model.multisets(model.Dist(list(zip(vals, ws))), n))
  judge(case, what, pool, exp, sum(exp.values()) > EXACT)
  case.seen('crowd', (n, tuple(vals)))


def one_die(case):
  rng, lib = case.rng, core.lib
  w = model.World()
  for _ in range(4):
    a, ma = gen.pool(rng, 3, 4)
    b, mb = gen.die(rng, 4)
    r, big = rng.randrange(9), False
    if r == 0:
      x, mx = a + b, w.binop('+', ma, mb).dist
    elif r == 1:
      x, mx = -a, w.neg(ma).dist
    elif r == 2:
      c, mc = gen.die(rng, 3, floats=0, lo=0, hi=3)
      x, mx = lib.roll(c, b), w.roll(mc, mb)
      big, mx = mx.big, mx.dist
    elif r == 3:
      x, mx = 1 @ a, w.at(1, ma).dist
    elif r == 4:
      x, mx = lib.RV.from_rvs([a, b], [1, 3]), model.mix([(1, ma.dist), (3, mb.dist)])
    elif r == 5:
      x, mx = a > b, w.binop('>', ma, mb).dist
    else:
      name, x, mx = gen.plain_from(rng, a, ma)
      case.log(name)
    what = f'{core.short(x)} as a sequence'
    case.log(what)
    judge(case, what, x, {(v,): p for v, p in mx.items()}, big or mx.total > EXACT)
    case.seen('one die', what)


def two_arguments(case):
  """joint expansion of two pools: weights multiply, every pair once"""
  rng, lib = case.rng, core.lib
  d1, m1 = gen.die(rng, 3, zero=False)
  d2, m2 = gen.die(rng, 3, zero=False)
  n1, n2 = rng.randint(1, 3), rng.randint(1, 3)
  codes = {}

  def f(A: lib.T_S, B: lib.T_S):
    return codes.setdefault((tuple(A), tuple(B)), len(codes))
  g = lib.anydice_type_casting()(f)
  p1, p2 = lib.roll(n1, d1), lib.roll(n2, d2)
  same = rng.random() < 0.3
  if same:
    p2, m2, n2 = p1, m1, n1
  got = g(p1, p2)
  e1 = dict(model.multisets(m1.dist, n1))
  e2 = dict(model.multisets(m2.dist, n2))
  what = f'f(roll({n1}, {core.short(d1)}), {"same" if same else f"roll({n2}, {core.short(d2)})"})'
  case.log(what)
  exp = {(a, b): x * y for a, x in e1.items() for b, y in e2.items()}
  if set(codes) != set(exp):
    raise Violation(f'{what}: observed pairs {core.short(sorted(set(codes) ^ set(exp)))} differ from the joint combinations')
  pairs = dict(obs.die_pairs(got, what)) if obs.is_die(got) else {got: 1}
  t, tot = sum(pairs.values()), sum(exp.values())
  for k, c in codes.items():
    if abs(Fraction(pairs.get(c, 0), t) - Fraction(exp[k], tot)) > (obs.TOL if tot > EXACT else 0):
      raise Violation(f'{what}: {k} has probability {pairs.get(c, 0)}/{t}, exact {exp[k]}/{tot}')
  case.seen('second argument', what)


def derived(case):
  """ordinary uses of the sequence: positions, counts, sums agree with the pool itself"""
  rng, lib = case.rng, core.lib
  d, m = gen.die(rng, 5, zero=False)
  n = rng.randint(1, 5)
  pool = lib.roll(n, d)
  w = model.World()
  mp = w.roll(n, m)
  case.log(f'derived uses of roll({n}, {core.short(d)})')

  @lib.anydice_casting()
  def total(S: lib.T_S):
    return S.sum()

  @lib.anydice_casting()
  def pos(S: lib.T_S, K: lib.T_N):
    return K @ S

  @lib.anydice_casting()
  def size(S: lib.T_S):
    return len(S)
  obs.agree(case, 'sum of the rolled sequence', total(pool), model.Die(mp.dist), as_dist=True)
  k = rng.randint(1, n)
  obs.agree(case, f'position {k} of the rolled sequence', pos(pool, k), w.at(k, mp), as_dist=True)
  obs.agree(case, 'length of the rolled sequence', size(pool), n, as_dist=True)
  case.seen('pool', (n, k, tuple(m.dist.sorted())) if len(m.dist) > 1 else None)


WORKLOADS = {
  'pools': (pools, 3000, 30000, 20),
  'crowd': (crowd, 96, 960, 2),
  'one_die': (one_die, 1800, 18000, 20),
  'two_arguments': (two_arguments, 900, 9000, 20),
  'derived': (derived, 900, 9000, 20),
}
