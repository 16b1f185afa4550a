"""C12: sampled rolls follow the computed distribution."""
import math
import random

from .. import core, gen, model, obs
from ..core import Violation

RULE = ('thousands of draws from constructed dice (skewed, zero weights at the ends and inside, weights beyond 2^53), pools, sums, numbers and sequences, one at a time and as tuples, alternating '
        'between dice with the same outcomes but different weights; recorded draws are judged by support, by a Bernstein bound on every outcome, on groups of outcomes (rare ones, lower half, every other one) and on every consecutive pair of '
        'outcomes (bound chosen for a false-alarm probability below 1e-12 per test), by repeatability from the same generator state and by the die being unchanged.  Non-trivial: '
        'distinct (die, draw mode) with at least two outcomes.')
ASSUMPTIONS = ['a bias below the Bernstein bound for the number of draws (about 3% of probability quick, 1% thorough) is not seen', 'the random module itself is sound']
MUST_SEE = ('draws', 'repeatable', 'count', 'single', 'zero weight', 'huge weights', 'pairs', 'number or sequence', 'many outcomes', 'spread', 'groups', 'bulk')
LOG = math.log(2 / 1e-13)


def bound(p, n):
  v = p * (1 - p)
  return math.sqrt(2 * v * LOG / n) + 2 * LOG / (3 * n)


def weighted(rng):
  lib = core.lib
  k = rng.choice([1, 2, 2, 3, 4, 6, 10])
  vals = gen.outcomes(rng, k, lo=-20, hi=40)
  style = rng.random()
  kind = None
  if style < 0.3:
    w = [rng.choice([0, 0, 1, 2, 5]) for _ in vals]
    if not any(w):
      w[rng.randrange(k)] = 1
    kind = 'zero weight' if 0 in w else None
  elif style < 0.5:
    unit = rng.choice([1, 1, 10 ** 270, 10 ** 290, 10 ** 400, 10 ** 900])      # up to beyond the range of floating point
    w = [unit * rng.choice([1, 2 ** 60, 3 * 2 ** 60, 10 ** 25]) for _ in vals]
    if unit > 10 ** 300 and rng.random() < 0.3:
      w = [rng.choice([x, x + 1, x // 3]) for x in w]
    kind = 'huge weights'
  elif style < 0.8:
    w = [rng.randint(1, 9) for _ in vals]
  else:
    w = [1] * k
  return lib.RV(vals, w), kind


def subject(rng):
  lib = core.lib
  r = rng.random()
  if r < 0.55:
    x, kind = weighted(rng)
    return x, obs.die_pairs(x), kind
  if r < 0.58:      # one likely outcome against many that are rare each
    k = rng.choice([100, 400, 1500, 3000])
    vals = rng.sample(range(-4000, 4001), k + 1)
    unit = rng.choice([1, 7, 2 ** 40, 2 ** 60, 10 ** 25])
    w = [unit * rng.randint(1, 3) for _ in range(k)]
    if rng.random() < 0.35:      # thousands of outcomes, each rarer than all that is usually kept
      k = rng.choice([2500, 2500, 6000])
      vals, w = range(-7, k - 6), [unit * rng.randint(1, 2) + rng.choice([0, 1]) for _ in range(k)]
      x = lib.RV(vals, w + [sum(w) * rng.choice([3, 30])])
      return x, obs.die_pairs(x), 'many outcomes'
    x = lib.RV(vals, w + [sum(w) * rng.choice([1, 2, 4]) // rng.choice([1, 3]) + 1])
    return x, obs.die_pairs(x), 'many outcomes'
  if r < 0.62:
    x, _ = gen.wide_die(rng, 60, 400)
    return x, obs.die_pairs(x), 'many outcomes'
  if r < 0.7:
    x, _ = gen.pool(rng, 4, 6)
    return x, obs.die_pairs(x), None
  if r < 0.8:
    a, _ = gen.die(rng, 4)
    x = a * 2 - lib.roll(6)
    return x, obs.die_pairs(x), None
  if r < 0.86:
    n = gen.number(rng)
    return n, [(n, 1)], 'number or sequence'
  e = [gen.number(rng) for _ in range(rng.randint(1, 6))]
  return (lib.Seq(*e) if rng.random() < 0.6 else e), sorted(model.Dist([(v, 1) for v in e]).reduced().items()), 'number or sequence'


def judge(case, what, draws, pairs):
  n = len(draws)
  tot = sum(p for _, p in pairs)
  prob = {v: p / tot for v, p in pairs if p}
  cnt = {}
  for v in draws:
    cnt[v] = cnt.get(v, 0) + 1
  for v in cnt:
    if v not in prob:
      raise Violation(f'{what}: drew {v!r}, which has probability 0 or is no outcome')
  case.seen('draws', n=n)
  if n < 500:
    return
  for v, p in prob.items():
    f = cnt.get(v, 0) / n
    if abs(f - p) > bound(p, n):
      raise Violation(f'{what}: {v!r} drawn with frequency {f:.4f} in {n} draws, probability {p:.4f} (bound {bound(p, n):.4f})')
  # groups of outcomes: the lower half, the ones that are rare on their own, every other one
  order = sorted(prob)
  for name, group in (('lower half', order[:len(order) // 2]), ('rare outcomes', [v for v in order if prob[v] < 0.01]), ('every other outcome', order[::2]), ('ends', order[:1] + order[-1:])):
    if not group or len(prob) < 3:
      continue
    p, f = sum(prob[v] for v in group), sum(cnt.get(v, 0) for v in group) / n
    if abs(f - p) > bound(min(p, 1), n):
      raise Violation(f'{what}: {name} drawn with frequency {f:.4f} in {n} draws, probability {p:.4f} (bound {bound(p, n):.4f})')
    case.seen('groups')
  if len(prob) <= 8:
    for off in (0, 1):
      m, c2 = 0, {}
      for i in range(off, n - 1, 2):
        m += 1
        k = (draws[i], draws[i + 1])
        c2[k] = c2.get(k, 0) + 1
      for a, p in prob.items():
        for b, q in prob.items():
          f = c2.get((a, b), 0) / m
          if abs(f - p * q) > bound(p * q, m):
            raise Violation(f'{what}: {a!r} followed by {b!r} with frequency {f:.4f} in {m} pairs, independent draws give {p * q:.4f}')
    case.seen('pairs')


def frequencies(case):
  rng, lib = case.rng, core.lib
  random.seed(rng.getrandbits(64))
  n = 4000 if case.tier == 'quick' else 30000
  subs = [subject(rng)]
  x = subs[0][0]
  if obs.is_die(x) and rng.random() < 0.5:      # same outcomes, other weights, drawn alternately
    y = lib.RV(x.vals, [rng.randint(1, 9) for _ in x.vals])
    subs.append((y, obs.die_pairs(y), None))
  mode = rng.choice(['single', 'count', 'chunks'])
  size = rng.choice([50, 500, 1000, 1024, 2000, n])
  draws = [[] for _ in subs]
  before = [obs.snap(s[0]) for s in subs]
  case.log(f'{n} draws ({mode}) from', core.short([core.short(s[0]) for s in subs]))
  while len(draws[0]) < n:
    for i, (s, _, _) in enumerate(subs):
      if mode == 'single':
        r = lib.roller(s)
        draws[i].append(r)
      else:
        c = rng.choice([0, 1, 2, 3, 17, 100, 600]) if mode == 'chunks' else size
        r = lib.roller(s, c) if rng.random() < 0.5 else lib.roller(s, count=c)
        if not isinstance(r, tuple) or len(r) != c:
          raise Violation(f'roller({core.short(s)}, {c}) returned {core.short(r)}')
        draws[i].extend(r)
  for (s, pairs, kind), d, b in zip(subs, draws, before):
    what = f'{mode} draws from {core.short(s)}'
    judge(case, what, d, pairs)
    if obs.snap(s) != b:
      raise Violation(f'{what}: the die changed')
    case.seen('single' if mode == 'single' else 'count', (mode, tuple(pairs)) if len(pairs) > 1 else None)
    if kind:
      case.seen(kind)


def repeatable(case):
  rng, lib = case.rng, core.lib
  for _ in range(5):
    x, pairs, kind = subject(rng)
    seed = rng.getrandbits(40)
    script = [rng.choice([None, None, 1, 3, 10, 100, 1200, 3000]) for _ in range(rng.randint(1, 6))]

    def play():
      return [lib.roller(x) if c is None else lib.roller(x, c) for c in script]
    random.seed(seed)
    a = play()
    if rng.random() < 0.5:
      lib.roll(3, 6)
      lib.roller(lib.roll(20), 5)
    random.seed(seed)
    b = play()
    what = f'roller script {script} on {core.short(x)} from seed {seed}'
    case.log(what)
    if a != b:
      raise Violation(f'{what}: {core.short(a)} then {core.short(b)}')
    st = random.getstate()
    c = play()
    random.setstate(st)
    d = play()
    if c != d:
      raise Violation(f'{what}: state restored but {core.short(c)} then {core.short(d)}')
    for c, r in zip(script, a):
      if c is None:
        judge(case, what, [r], pairs)
      else:
        if not isinstance(r, tuple) or len(r) != c:
          raise Violation(f'{what}: count {c} gave {core.short(r)}')
        judge(case, what, r, pairs)
    case.seen('repeatable', (tuple(pairs), tuple(script)) if len(pairs) > 1 else None)


def extremes(case):
  """rare outcomes: with weight 1 against W, and zero-weight ends must never appear"""
  rng, lib = case.rng, core.lib
  random.seed(rng.getrandbits(64))
  W = rng.choice([10, 1000, 2 ** 55, 10 ** 28])
  vals = [-1, 0, 1, 2, 3]
  w = rng.choice([[0, W, 0, W, 0], [0, 0, 1, 0, 0], [W, 0, 0, 0, 0], [0, 0, 0, 0, W], [0, 1, W, 1, 0]])
  d = lib.RV(vals, w)
  pairs = obs.die_pairs(d)
  case.log('extreme weights', core.short(d))
  out = lib.roller(d, 1500)
  judge(case, f'draws from {core.short(d)}', out, pairs)
  case.seen('zero weight', tuple(w))


def spread(case):
  """the number of times an outcome comes up in a batch varies as independent draws do"""
  rng, lib = case.rng, core.lib
  random.seed(rng.getrandbits(64))
  x, kind = weighted(rng)
  pairs = obs.die_pairs(x)
  tot = sum(p for _, p in pairs)
  size, batches = rng.choice([(20, 800), (60, 400), (250, 250), (600, 200), (1100, 120)])
  mode = 'count' if rng.random() < 0.7 else 'single'
  what = f'{batches} batches of {size} draws ({mode}) from {core.short(x)}'
  case.log(what)
  cnt = []
  for _ in range(batches):
    d = lib.roller(x, size) if mode == 'count' else [lib.roller(x) for _ in range(size)]
    cnt.append({v: d.count(v) for v, _ in pairs})
  for v, w in pairs:
    p = w / tot
    if size * p * (1 - p) < 5:
      continue
    z2 = [(c[v] - size * p) ** 2 / (size * p * (1 - p)) for c in cnt]
    m = sum(z2) / batches
    # chi-square with `batches` degrees of freedom over batches: beyond these with probability below 1e-12
    dev = 7.2 * math.sqrt(2 / batches) + 52 / batches
    if m > 1 + dev or m < max(1 - 7.2 * math.sqrt(2 / batches), 0.25):
      raise Violation(f'{what}: the number of {v!r} in a batch has {m:.3f} times the variance of independent draws')
    case.seen('spread', (size, mode, tuple(pairs)))
    a = sum((c[v] - size * p) * (e[v] - size * p) for c, e in zip(cnt, cnt[1:])) / ((batches - 1) * size * p * (1 - p))
    if abs(a) > 7.5 / math.sqrt(batches - 1) + 30 / batches:
      raise Violation(f'{what}: successive batches are correlated ({a:.3f})')


def bulk(case):
  """one call for thousands of draws from thousands of outcomes: as many coincidences as independent draws have, and none of order"""
  rng, lib = case.rng, core.lib
  random.seed(rng.getrandbits(64))
  k, n = rng.choice([(2000, 5001), (2000, 6000), (3000, 7000), (1000, 12000), (300, 25000), (1000, 2500)])
  off = rng.choice([0, 1, -k // 2])
  mode = rng.choice(['count', 'count', 'count', 'twice', 'single'])
  d = lib.RV(range(off, off + k), [rng.choice([1, 1, 7, 2 ** 60])] * k)
  what = f'{n} draws ({mode}) from {k} outcomes of one weight'
  case.log(what)
  if mode == 'count':
    out = lib.roller(d, n)
  elif mode == 'twice':
    out = lib.roller(d, n // 2) + lib.roller(d, n - n // 2)
  else:
    n = 1500
    out = tuple(lib.roller(d) for _ in range(n))
  if len(out) != n or not all(off <= v < off + k for v in out):
    raise Violation(f'{what}: {len(out)} draws, from {min(out)} to {max(out)}')
  # pairs of equal draws: mean and variance of independent draws are n(n-1)/2k
  cnt = {}
  for v in out:
    cnt[v] = cnt.get(v, 0) + 1
  pairs, lam = sum(c * (c - 1) // 2 for c in cnt.values()), n * (n - 1) / 2 / k
  if abs(pairs - lam) > 9 * math.sqrt(lam) + 40 + 0.02 * lam:
    raise Violation(f'{what}: {pairs} pairs of equal draws, {lam:.0f} expected')
  # neighbours, halves and order
  u = [(v - off + 0.5) / k - 0.5 for v in out]
  sd = math.sqrt(1 / 12)
  for name, s, m in (('mean', sum(u) / sd, n), ('first half', sum(u[:n // 2]) / sd, n // 2), ('last tenth', sum(u[-(n // 10):]) / sd, n // 10), ('neighbours', sum(a * b for a, b in zip(u, u[1:])) * 12, n),
                     ('neighbours but one', sum(a * b for a, b in zip(u, u[2:])) * 12, n), ('first against second half', sum(a * b for a, b in zip(u, u[n // 2:])) * 12, n // 2), ('trend', sum(x * (2 * i / n - 1) for i, x in enumerate(u)) / sd * 1.732, n)):
    if abs(s) > 8 * math.sqrt(m) + 20:
      raise Violation(f'{what}: {name} is {s / math.sqrt(m):.1f} standard deviations off')
  case.seen('bulk', (k, n, mode))


WORKLOADS = {
  'bulk': (bulk, 32, 320, 2),
  'spread': (spread, 80, 800, 4),
  'frequencies': (frequencies, 600, 6000, 5),
  'repeatable': (repeatable, 900, 9000, 30),
  'extremes': (extremes, 180, 1800, 10),
}
