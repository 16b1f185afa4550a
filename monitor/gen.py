"""Generators of API-level values: each returns a pair (library value, model value)."""
from . import core, model


def L():
  return core.lib


def number(rng, lo=-6, hi=9, floats=0.15):
  r = rng.random()
  if r < floats:
    return rng.randint(lo * 4, hi * 4) / 4
  if r < floats + 0.1:
    v = rng.choice([0, 1, -1, 10, 100, 0, 1000, -100, 99, 2])
    return v if hi >= 9 or lo <= v <= hi else rng.randint(lo, hi)
  return rng.randint(lo, hi)


def weights(rng, k):
  style = rng.random()
  if style < 0.3:
    return [1] * k
  if style < 0.6:
    return [rng.randint(1, 4) for _ in range(k)]
  if style < 0.75:
    return [rng.choice([1, 2, 3, 5, 7, 11, 13, 97, 1000]) for _ in range(k)]
  if style < 0.85:
    g = rng.choice([2, 3, 6, 10])
    return [g * rng.randint(1, 5) for _ in range(k)]
  if style < 0.9:       # very unequal
    return [rng.choice([1, 1, 2, 10 ** rng.randint(3, 9), 10 ** 6 + 3, 2 ** rng.randint(8, 33)]) for _ in range(k)]
  w = [rng.choice([0, 0, 1, 2, 3]) for _ in range(k)]
  if not any(w):
    w[rng.randrange(k)] = rng.randint(1, 3)
  return w


def outcomes(rng, k, floats=0.12, lo=-5, hi=9):
  style = rng.random()
  if style < 0.35:
    a = rng.choice([1, 1, 1, 0, -1, -2, -k])
    return list(range(a, a + k))
  out = []
  fl = rng.random() < floats * 2
  while len(out) < k:
    v = number(rng, lo, hi, floats=0.5 if fl else 0)
    if v not in out:
      out.append(v)
  return sorted(out)


def make_rv(vals, probs):
  """library die through one of several equivalent public routes is done by callers; here the constructor"""
  return L().RV(list(vals), list(probs))


def computed(rng, max_out, floats, zero, lo, hi):
  """one die that is the result of another operation, with at most max_out outcomes in lo..hi (when lo..hi is given)"""
  w = model.World()
  w.lowest_first = core.submodule('settings').SETTINGS['position order'] == 'lowest first'
  kind = rng.choice(['select', 'mix', 'filter', 'cast'] + ['sum', 'shift', 'abs', 'compare', 'neg'] * (1 if (lo, hi) == (-5, 9) else 0))
  if kind in ('mix', 'sum') and max_out < 4:
    kind = 'select'
  if kind == 'mix':
    (a, ma), (b, mb) = die(rng, max_out // 2, floats, zero, lo, hi, 1), die(rng, max_out - max_out // 2, floats, zero, lo, hi, 1)
    x, y = rng.randint(1, 4), rng.randint(1, 4)
    return L().RV.from_rvs([a, b], [x, y]), model.Die(model.mix([(x, ma.dist), (y, mb.dist)]))
  if kind == 'sum':
    (a, ma), (b, mb) = die(rng, 2, floats, zero, lo, hi, 1), die(rng, max_out // 2, floats, zero, lo, hi, 1)
    return a + b, w.binop('+', ma, mb)
  a, ma = die(rng, max_out, floats, zero, lo, hi, 1)
  if kind == 'select':
    k = rng.choice([1, 2])
    return k @ L().roll(2, a), w.at(k, w.roll(2, ma))
  if kind == 'filter':
    v = rng.choice(a.vals)
    left = [(x, p) for x, p in zip(a.vals, a.probs) if x != v]
    if not any(p for _, p in left):
      return a, ma
    return a.filter(v), model.Die(model.Dist(left))
  if kind == 'cast':
    return _through(a), model.Die(ma.dist)
  k = rng.randint(-3, 3)
  if kind == 'shift':
    return a + k, w.binop('+', ma, k)
  if kind == 'abs':
    return abs(a), model.Die(ma.dist.map(abs))
  if kind == 'compare':
    return a > k, w.binop('>', ma, k)
  return -a, w.neg(ma)


def die(rng, max_out=6, floats=0.12, zero=True, lo=-5, hi=9, nest=0):
  """one die: constructed from outcomes and weights, rolled from sides / faces, or computed from others"""
  if not nest and rng.random() < 0.12:
    return computed(rng, max_out, floats, zero, lo, hi)
  style = rng.random()
  if style < 0.3:
    s = rng.randint(1, max_out) * rng.choice([1, 1, 1, -1])
    return L().roll(s), model.World().roll(1, s)
  if style < 0.5:
    k = rng.randint(1, max_out)
    faces = [number(rng, lo, hi, floats) for _ in range(k)]
    if rng.random() < 0.5:
      faces += [rng.choice(faces)]
    return L().roll(L().Seq(faces) if rng.random() < 0.5 else list(faces)), model.World().roll(1, model.Seq(faces))
  k = rng.randint(1, max_out)
  vals = outcomes(rng, k, floats, lo, hi)
  w = weights(rng, k)
  if not zero:
    w = [x or 1 for x in w]
  order = list(range(k))
  rng.shuffle(order)
  rv = make_rv([vals[i] for i in order], [w[i] for i in order])
  return rv, model.Die(model.Dist(list(zip(vals, w))))


def pool(rng, max_n=5, max_out=6, floats=0.12, zero=True, budget=3000, lo=-5, hi=9):
  """n dice of one face; returns lib, model"""
  import math
  while True:
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 7, 8])
    if n > max_n:
      n = rng.randint(1, max_n)
    d, m = die(rng, max_out, floats, zero, lo, hi)
    if math.comb(len(m.dist) + n - 1, n) <= budget:
      break
  return L().roll(n, d), model.World().roll(n, m)


def seq(rng, max_len=5, floats=0.12, lo=-5, hi=9):
  k = rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5])
  k = min(k, max_len)
  if max_len >= 5 and rng.random() < 0.03:
    k = rng.randint(9, 24)
  e = [number(rng, lo, hi, floats) for _ in range(k)]
  if k >= 2 and rng.random() < 0.3:
    e[rng.randrange(k)] = e[0]
  r = rng.random()
  if r < 0.45:
    return L().Seq(*e), model.Seq(e)
  if r < 0.9:
    return L().get_seq(e), model.Seq(e)
  if r < 0.95 or any(isinstance(v, float) for v in e):
    return L().reverse_X(e[::-1]), model.Seq(e)
  e.sort(reverse=True)
  return L().sort_X(L().Seq(*rng.sample(e, len(e)))), model.Seq(e)


def big_offset_die(rng):
  off = rng.choice([10 ** 3, 10 ** 6, 10 ** 9, 2 ** 40])
  d, m = die(rng, 5, 0)
  return d + off, model.Die(m.dist.map(lambda v: v + off))


def huge_int(rng):
  """an integer too large for exact floating point"""
  return rng.choice([1, -1]) * (10 ** rng.randint(16, 40) + rng.randint(-9, 9))


def huge_die(rng, k=4):
  """outcomes beyond 2**53, some next to each other (a float cannot tell them apart)"""
  vals = set()
  while len(vals) < k:
    v = huge_int(rng)
    vals.add(v)
    if rng.random() < 0.5:
      vals.add(v + rng.choice([1, -1, 2]))
    if rng.random() < 0.2:
      vals.add(number(rng, floats=0))
  vals = list(vals)
  w = weights(rng, len(vals))
  return make_rv(vals, w), model.Die(model.Dist(list(zip(vals, w))))


def wide_die(rng, lo=60, hi=160):
  """a die with many outcomes"""
  k = rng.randint(lo, hi)
  vals = rng.sample(range(-300, 301), k) if rng.random() < 0.7 else [v / 4 for v in rng.sample(range(-900, 901), k)]
  w = [rng.choice([1, 1, 2, 3, 7, 50]) for _ in range(k)] if rng.random() < 0.7 else [rng.choice([0, 0, 1, 4]) for _ in range(k - 1)] + [3]
  return make_rv(vals, w), model.Die(model.Dist(list(zip(vals, w))))


def heavy_die(rng, k=4):
  """weights beyond 2**53 without a common factor"""
  vals = outcomes(rng, rng.randint(1, k))
  w = [rng.randint(1, 10 ** rng.choice([3, 9, 14])) for _ in vals]
  return make_rv(vals, w), model.Die(model.Dist(list(zip(vals, w))))


def stepped(rng, n=6):
  """a range with any step, possibly empty or downwards"""
  a = rng.randint(-5, 5)
  step = rng.choice([1, 2, 3, -1, -2, 5])
  return range(a, a + step * rng.randint(0, n) + rng.choice([0, 0, 1]) * (1 if step > 0 else -1), step)


def lists_of(rng, model_seq):
  """some python iterable with the content of model_seq: list, tuple, range-if-possible, nested"""
  e = list(model_seq)
  style = rng.random()
  if style < 0.4:
    return list(e)
  if style < 0.7:
    return tuple(e)
  if len(e) > 1 and style < 0.85:
    k = rng.randrange(1, len(e))
    return [e[:k], tuple(e[k:])]
  if e and all(isinstance(v, int) for v in e) and len({b - a for a, b in zip(e, e[1:])}) <= 1:
    step = e[1] - e[0] if len(e) > 1 else 1
    if step:
      return range(e[0], e[-1] + (1 if step > 0 else -1), step)
  return [L().Seq(*e)] if e else []


def close_floats(rng, k):
  """k different decimals, some of them neighbours that only differ in their last digits"""
  import math
  out = set()
  while len(out) < k:
    v = rng.choice([0.1 + 0.2, 0.3, 1 / 3, 2 / 3, 0.1, 0.7, 1.1, 2.675, 1e-9, 1e-300, 5e-324, 1e15 + 0.5, 100.1, 1.0, 2.0, 0.5, rng.random(), rng.uniform(-10, 10), rng.randint(1, 99) / 10, rng.randint(1, 999) / 100])
    v *= rng.choice([1, 1, 1, -1])
    out.add(v)
    if rng.random() < 0.6:
      out.add(rng.choice([math.nextafter(v, math.inf), math.nextafter(v, -math.inf), v * (1 + 1e-12), v + 1e-10, v + 1e-7, v * (1 - 2.3e-16)]))
  return rng.sample(sorted(out), k)


def close_die(rng, k=5, zero=True):
  k = rng.randint(1, k)
  vals = close_floats(rng, k)
  if rng.random() < 0.3:
    vals.append(rng.choice([v for v in (0, 1, 2, -1, 100) if v not in vals]))
  w = [x if zero else x or 1 for x in weights(rng, len(vals))]
  return make_rv(vals, w), model.Die(model.Dist(list(zip(vals, w))))


def once(rng, e):
  """iterables that are no list: some can be gone through only once, some have no order of their own (then sorted or distinct elements)"""
  import collections
  r = rng.randrange(6)
  e = list(e)
  if r == 0:
    return (v for v in e)
  if r == 1:
    return iter(e)
  if r == 2:
    return map(lambda v: v, e)
  if r == 3:
    return dict(enumerate(e)).values()
  if r == 4:
    return collections.deque(e)
  return filter(lambda v: True, e)


def plain_from(rng, x, mx):
  """an operation on x that gives one die of its own (not a roll of several), with its distribution: (text, library value, model.Dist)"""
  import math
  m = mx.dist
  opts = [('x + 0', lambda: x + 0, lambda v: v), ('0 + x', lambda: 0 + x, lambda v: v), ('x - 0', lambda: x - 0, lambda v: v), ('x * 1', lambda: x * 1, lambda v: v), ('1 * x', lambda: 1 * x, lambda v: v),
          ('abs(x)', lambda: abs(x), abs), ('-x', lambda: -x, lambda v: -v), ('0 - x', lambda: 0 - x, lambda v: -v), ('-(-x)', lambda: -(-x), lambda v: v), ('x // 1', lambda: x // 1, lambda v: v // 1),
          ('x ** 1', lambda: x ** 1, lambda v: v), ('sum([x])', lambda: sum([x]), lambda v: v), ('round(x)', lambda: round(x), lambda v: round(v, 0)), ('floor(x)', lambda: math.floor(x), math.floor),
          ('ceil(x)', lambda: math.ceil(x), math.ceil), ('trunc(x)', lambda: math.trunc(x), math.trunc), ('x + Seq()', lambda: x + L().Seq(), lambda v: v), ('x + [0, 0]', lambda: x + [0, 0], lambda v: v),
          ('x > 2', lambda: x > 2, lambda v: int(v > 2)), ('x | 0', lambda: x | 0, lambda v: int(bool(v))), ('x & 1', lambda: x & 1, lambda v: int(bool(v))), ('x == x', lambda: x == x, None),
          ('from_rvs([x])', lambda: L().RV.from_rvs([x]), lambda v: v), ('from_rvs([x], [3])', lambda: L().RV.from_rvs([x], [3]), lambda v: v), ('filter(x)', lambda: x.filter(10 ** 9), lambda v: v),
          ('RV(x)', lambda: L().RV(x.vals, x.probs), lambda v: v), ('1 @ (x + 0)', lambda: 1 @ (x + 0), lambda v: v), ('cast', lambda: _through(x), lambda v: v),
          ('from_rvs([x, x])', lambda: L().RV.from_rvs([x, x]), lambda v: v), ('from_rvs([x, x, None, x])', lambda: L().RV.from_rvs([x, x, None, x], [1, 2, 3, 1]), lambda v: v),
          ('from_rvs([x, blank])', lambda: L().RV.from_rvs((x, L().BlankRV()), (2, 5)), lambda v: v), ('filter nothing', lambda: x.filter([]), lambda v: v), ('filter by range', lambda: x.filter(range(10 ** 6, 10 ** 6 + 3)), lambda v: v), ('roll(die of 1, x)', lambda: L().roll(L().RV.from_const(1), x), lambda v: v),
          ('rebuilt from its outcomes', lambda: L().RV(list(x.vals)[::-1], list(x.probs)[::-1]), lambda v: v), ('-x * -1', lambda: -x * -1, lambda v: v)]
  k = len(x)
  if 1 < k <= 4 and len(x.vals) <= 24 and sum(x.probs) < 10 ** 25:
    opts += [('all positions', lambda: L().Seq(range(1, k + 1)) @ x, lambda v: v), ('all positions, last first', lambda: list(range(k, 0, -1)) @ x, lambda v: v), ('highest of all', lambda: L().highest_X_of_X(k, x), lambda v: v),
             ('lowest of all', lambda: L().lowest_X_of_X(k, x), lambda v: v)] * 3
  name, f, g = rng.choice(opts)
  if g is None:
    w = model.World()
    return name, f(), w.binop('=', mx, mx).dist
  return name, f(), m.map(g)


def _through(x):
  @L().anydice_casting()
  def same(N: L().T_N):
    return N
  return same(x)
