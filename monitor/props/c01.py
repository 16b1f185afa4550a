"""C01: every die is a well-formed distribution."""
import math
from fractions import Fraction

from .. import core, gen, model, obs, taps
from ..core import Violation

RULE = ('construct: random outcome/weight lists (order, repeats, booleans, decimals, equal int/float, zero and huge weights, several '
        'iterable kinds, all factories) are given to the constructor and the observed outcomes, weights and listed probabilities are compared '
        'with the reference; equality: pairs of dice that agree or differ in exactly one outcome/weight; everywhere: the constructor is '
        'tapped while corpus programs and random expressions run and every die created is checked.  Non-trivial: a distinct '
        '(outcomes, weights) content of at least two listed entries, or a distinct refused input.')
ASSUMPTIONS = ['outcomes are finite numbers', 'weight lists that are entirely zero are outside the property']
MUST_SEE = ('constructed', 'refused', 'equality', 'tapped die')


def expected(vals, probs):
  out = {}
  for v, p in zip(vals, probs):
    v = int(v) if isinstance(v, bool) else v
    out[v] = out.get(v, 0) + p
  g = 0
  for p in out.values():
    g = math.gcd(g, p)
  return {v: p // (g or 1) for v, p in out.items()}


def check_listing(case, what, rv, want=None):
  """get_vals_probs agrees with the weights"""
  listing = rv.get_vals_probs()
  pairs = obs.die_pairs(rv, what)
  tot = sum(p for _, p in pairs)
  if [v for v, _ in listing] != [v for v, _ in pairs]:
    raise Violation(f'{what}: listing has outcomes {[v for v, _ in listing]}, die has {[v for v, _ in pairs]}')
  for (v, q), (_, p) in zip(listing, pairs):
    if abs(Fraction(q) - Fraction(p, tot)) > Fraction(1, 10 ** 12):
      raise Violation(f'{what}: listed probability of {v} is {q}, its weight share is {p}/{tot}')
  if abs(sum(q for _, q in listing) - 1) > 1e-9:
    raise Violation(f'{what}: probabilities add up to {sum(q for _, q in listing)}')
  case.seen('listing')


def rand_lists(rng):
  k = rng.choice([1, 2, 3, 4, 5, 8, 12, 30, 30, 120 if rng.random() < 0.3 else 9, rng.randint(200, 1500) if rng.random() < 0.1 else 6])
  style = rng.random()
  vals = []
  for _ in range(k):
    r = rng.random()
    if r < 0.1:
      vals.append(rng.choice([True, False]))
    elif r < 0.25 and style < 0.6:
      vals.append(rng.randint(-20, 20) / rng.choice([1, 2, 4]))
    elif r < 0.35 and vals:
      vals.append(rng.choice(vals))
    elif r < 0.4:
      vals.append(rng.choice([10 ** 6, -10 ** 6, 10 ** 18, 2 ** 53 + 1, -2 ** 70]))
    elif k > 20:
      vals.append(rng.randint(-3 * k, 3 * k))
    else:
      vals.append(rng.randint(-8, 8))
  if rng.random() < 0.08 and k <= 30:
    vals = gen.close_floats(rng, k)
    for _ in range(rng.randint(0, 3)):
      vals[rng.randrange(k)] = rng.choice(vals)
  w = []
  wstyle = rng.random()
  mult = rng.choice([1, 1, 2, 6, 35])
  for _ in range(k):
    if wstyle < 0.2:
      w.append(mult)
    elif wstyle < 0.7:
      w.append(mult * rng.randint(0, 6))
    elif wstyle < 0.73:
      w.append(rng.choice([1, 3, 10 ** 309, 2 ** 1100, 10 ** rng.randint(290, 400) + 7]))
    elif wstyle < 0.85:
      w.append(rng.choice([1, 10 ** 12, 10 ** 25, 3 * 10 ** 33, 0, 7]))
    else:
      w.append(rng.randint(1, 10 ** 6))
  if wstyle < 0.85 and rng.random() < 0.25:     # all but one weight share a factor
    f = rng.choice([2, 3, 4, 10])
    w = [x * f for x in w]
    j = rng.choice([0, k - 1, max(range(k), key=lambda i: vals[i]), min(range(k), key=lambda i: vals[i]), rng.randrange(k)])
    w[j] += 1
  if not any(w):
    w[rng.randrange(k)] = rng.randint(1, 9)
  return vals, w


def as_iter(rng, lst):
  r = rng.random()
  if r < 0.4:
    return list(lst)
  if r < 0.6:
    return tuple(lst)
  if r < 0.75:
    return (x for x in list(lst))
  if r < 0.8:
    return dict(enumerate(lst)).values()
  if r < 0.85:
    return map(lambda x: x, lst)
  return iter(list(lst))


def construct(case):
  rng, lib = case.rng, core.lib
  for _ in range(12):
    vals, w = rand_lists(rng)
    if rng.random() < 0.05:
      vals, w = [], []
    keepv, keepw = list(vals), list(w)
    given_v, given_w = as_iter(rng, vals), as_iter(rng, w)
    rv = lib.RV(given_v, given_w)
    what = f'RV({keepv}, {keepw})'
    case.log(what)
    want = expected(keepv, keepw) if keepv else {0: 1}
    got = dict(obs.die_pairs(rv, what))
    if got != want:
      raise Violation(f'{what}: observed {got}, expected {dict(sorted(want.items()))}')
    check_listing(case, what, rv)
    case.require(len(rv) == 1, f'{what}: a constructed die has length {len(rv)}')
    case.seen('constructed', (tuple(sorted(want.items())),) if len(want) > 1 else None)


def refuse(case):
  rng, lib = case.rng, core.lib
  for _ in range(12):
    vals, w = rand_lists(rng)
    if len(set(v if not isinstance(v, bool) else int(v) for v in vals)) < 1:
      continue
    kind = rng.choice(['short weights', 'long weights', 'negative', 'fraction', 'whole float', 'text', 'none', 'nan', 'empty'])
    i = rng.randrange(len(w))
    if kind == 'short weights':
      w = w[:-1]
    elif kind == 'long weights':
      w = w + [rng.choice([1, 0, 2])]
    elif kind == 'negative':
      w[i] = -rng.choice([1, 2, 10 ** 9])
    elif kind == 'fraction':
      w[i] = rng.choice([0.5, 1.25, Fraction(1, 2)])
    elif kind == 'whole float':
      w[i] = float(rng.randint(1, 3))
    elif kind == 'text':
      w[i] = '1'
    elif kind == 'none':
      w[i] = None
    elif kind == 'nan':
      w[i] = float('nan')
    else:
      vals = []
    case.log(f'refuse {kind}: RV({vals}, {w})')
    case.refused(f'RV({vals}, {w}) [{kind}]', lib.RV, vals, w)
    case.seen('refused', (kind, tuple(map(repr, vals)), tuple(map(repr, w))))


def equality(case):
  rng, lib = case.rng, core.lib
  eq = lib.RV.dices_are_equal
  for _ in range(10):
    k = rng.randint(1, 6)
    vals = gen.outcomes(rng, k)
    w = [rng.randint(1, 5) for _ in range(k)]
    q = rng.random()
    if q < 0.12:        # weights and outcomes that are nearly the same
      big = rng.choice([10 ** 9, 10 ** 16, 2 ** 53, 10 ** 20, 10 ** 40])
      w = [big + rng.randint(0, 1) for _ in range(k)]
    elif q < 0.24:
      vals = gen.close_floats(rng, k)
    elif q < 0.3:
      vals = [10 ** 20 + v for v in rng.sample(range(-5, 6), k)]
    a = lib.RV(vals, w)
    order = list(range(k))
    rng.shuffle(order)
    m = rng.choice([1, 2, 3])
    b = lib.RV([vals[i] for i in order], [w[i] * m for i in order])
    case.log(f'equality of {dict(zip(vals, w))}')
    if not eq(a, b) or not eq(b, a):
      raise Violation(f'same distribution {dict(zip(vals, w))} built twice compares different')
    # change one thing
    kind = rng.choice(['weight', 'outcome', 'extra', 'drop', 'swap'])
    v2, w2 = list(vals), list(w)
    i = rng.randrange(k)
    if kind == 'weight':
      w2[i] += rng.choice([1, 2])
    elif kind == 'outcome':
      v2[i] = rng.choice([max(vals) + 1, min(vals) - 1, vals[i] + 0.125])
      if rng.random() < 0.3:
        v2[i] = math.nextafter(vals[i], rng.choice([-math.inf, math.inf])) if abs(vals[i]) < 2 ** 60 else vals[i] + 1
    elif kind == 'extra':
      v2.append(max(vals) + 3)
      w2.append(rng.choice([0, 1]))
    elif kind == 'drop' and k > 1:
      del v2[i], w2[i]
    elif kind == 'swap' and k > 1:
      j = (i + 1) % k
      w2[i], w2[j] = w2[j], w2[i]
    want = expected(vals, w) == expected(v2, w2)
    c = lib.RV(v2, w2)
    for x, y in ((a, c), (c, a)):
      if bool(eq(x, y)) != want:
        raise Violation(f'dices_are_equal({core.short(x)}, {core.short(y)}) is {eq(x, y)}')
    case.seen('equality', (tuple(vals), tuple(w), tuple(v2), tuple(w2)))
    # many outcomes, weights that differ by next to nothing
    k, e = rng.choice([2, 5, 15, 21, 40, 120, 400]), 10 ** rng.choice([6, 12, 17, 20, 25, 40])
    w1 = [e] * k
    w2 = list(w1)
    w2[rng.randrange(k)] += 1
    x, y, z = lib.RV(range(k), w1), lib.RV(range(k), w2), lib.RV(range(k), [3 * q for q in w2])
    if eq(x, y) or eq(y, x) or not eq(y, z):
      raise Violation(f'{k} outcomes with weights {e}, one of them one more: dices_are_equal says {eq(x, y)}, and {eq(y, z)} for the latter with thrice the weights')
    # numbers, lists and sequences stand for the die over those faces; blanks only equal blanks
    n = rng.randint(-3, 9)
    if not eq(n, lib.RV([n], [2])) or eq(n, lib.RV([n + 1], [2])) or eq(lib.RV([n, n + 1], [1, 1]), n):
      raise Violation(f'dices_are_equal on number {n}')
    faces = [rng.randint(0, 3) for _ in range(rng.randint(1, 5))]
    fd = lib.RV(faces, [1] * len(faces))
    if not eq(faces, fd) or not eq(fd, lib.Seq(*faces)) or eq(faces + [9], fd):
      raise Violation(f'dices_are_equal on faces {faces}')
    if eq(lib.BlankRV(), a) or eq(a, lib.BlankRV()) or not eq(lib.BlankRV(), lib.BlankRV()) or eq(lib.BlankRV(), 0):
      raise Violation('dices_are_equal on blank dice')


def factories(case):
  """dice from constants, faces, mixtures, sides: all well formed"""
  rng, lib = case.rng, core.lib
  for _ in range(8):
    d, m = gen.die(rng, 8)
    obs.same_dist(case, 'generated die', d, m.dist)
    check_listing(case, 'generated die', d)
    n = gen.number(rng)
    obs.same_dist(case, f'from_const({n})', lib.RV.from_const(n), model.Dist({n: 1}))
    faces = [gen.number(rng) for _ in range(rng.randint(0, 6))]
    obs.same_dist(case, f'from_seq({faces})', lib.RV.from_seq(faces), model.Dist([(f, 1) for f in faces] or {0: 1}))
    for f in (d + d, d - 1, abs(d), -d, d > 2, lib.roll(3, d), 1 @ lib.roll(3, d)):
      check_listing(case, 'derived die', f)
    case.seen('constructed', tuple(m.dist.sorted()) + tuple(faces))
  case.log('factories', d)


def everywhere(case):
  """tap the constructor while realistic programs run; check every die that appears"""
  n = [0]

  def on_die(rv):
    obs.die_pairs(rv, 'die created inside the library')
    n[0] += 1
    case.seen('tapped die', (rv.vals[:6], rv.probs[:6]) if len(rv.vals) > 1 else None)
  name, results = taps.run_corpus_case(case, on_die)
  for r in results:
    if obs.is_die(r):
      check_listing(case, f'output of corpus program {name}', r)
  case.log(f'corpus program {name}: {n[0]} dice created, {len(results)} outputs')


WORKLOADS = {
  'construct': (construct, 600, 6000, 25),
  'refuse': (refuse, 90, 900, 20),
  'equality': (equality, 300, 3000, 25),
  'factories': (factories, 220, 2500, 25),
  'everywhere': (everywhere, 180, 1800, 5),
}
