"""C21: very large rolls stay accurate."""
import math
from fractions import Fraction

from .. import core, gen, model, obs
from ..core import Violation

RULE = ('rolls of tens to hundreds of dice (uniform, skewed, two-valued, gapped, negative faces; total weights up to 10^600) and what is built from them - sums, differences, multiples, '
        'comparisons, position selections, mixtures, rolls by a die, rolls of rolls, typed functions over them, filters, cumulative shares, moments - observed against exact distributions computed with '
        'big-integer polynomial powers; every probability within 1e-9 absolute.  Non-trivial: distinct computations whose exact total weight exceeds 10^31.')
ASSUMPTIONS = ['probabilities compared with absolute tolerance 1e-9; mean within 1e-9 and standard deviation within 1e-9 relative to the spread']
MUST_SEE = ('sum', 'difference', 'comparison', 'position', 'positions', 'mixture', 'roll by die', 'roll of roll', 'typed function', 'moments', 'scaled', 'still exact', 'enormous weights')
TOL = Fraction(1, 10 ** 9)
CASE_LIMIT_S = 300


def poly_pow(face, n):
  """exact distribution of the sum of n rolls, by packing weights into one integer"""
  lo = min(face)
  bits = (sum(face.values()) ** n).bit_length() + 1
  bits += -bits % 8
  packed = 0
  for v, p in face.items():
    packed |= p << (bits * (v - lo))
  packed **= n
  step, out = bits // 8, {}
  raw = packed.to_bytes(packed.bit_length() // 8 + 1, 'little')
  for i in range(0, len(raw), step):
    c = int.from_bytes(raw[i:i + step], 'little')
    if c:
      out[lo * n + i // step] = c
  return out


def conv(a, b, f):
  out = {}
  for x, p in a.items():
    for y, q in b.items():
      z = f(x, y)
      out[z] = out.get(z, 0) + p * q
  return out


def order_stat(face, n, k):
  """exact weights of the k-th highest of n"""
  faces = sorted(face.items())
  tot = sum(face.values())

  def at_least(x):      # number of ways that at least k dice show >= x
    p = sum(w for v, w in faces if v >= x)
    q = tot - p
    return sum(math.comb(n, j) * p ** j * q ** (n - j) for j in range(k, n + 1))
  out, prev = {}, 0
  for v, _ in reversed(faces):
    c = at_least(v)
    if c - prev:
      out[v] = c - prev
    prev = c
  return out


def close(case, what, got, want):
  pairs = obs.die_pairs(got, what)
  t, wt = sum(p for _, p in pairs), sum(want.values())
  if t == 0:
    raise Violation(f'{what}: all weights are zero')
  have = dict(pairs)
  for v in set(have) | set(want):
    p, q = have.get(v, 0), want.get(v, 0)
    if abs(p * wt - q * t) * TOL.denominator > TOL.numerator * t * wt:
      raise Violation(f'{what}: probability of {v} is {float(Fraction(p, t))!r}, exact {float(Fraction(q, wt))!r}')
  s = math.fsum(q for _, q in got.get_vals_probs())
  if abs(s - 1) > 1e-9:
    raise Violation(f'{what}: reported probabilities add up to {s!r}')
  for v, q in got.get_vals_probs():
    if abs(Fraction(q) - Fraction(want.get(v, 0), wt)) > TOL:
      raise Violation(f'{what}: reported probability of {v} is {q!r}, exact {float(Fraction(want.get(v, 0), wt))!r}')
  case.seen('scaled' if wt > 10 ** 31 else 'still exact', what if wt > 10 ** 31 else None)
  case.events += len(pairs)


def moments(case, what, got, want):
  t = sum(want.values())
  mean = Fraction(sum(v * p for v, p in want.items()), t)
  var = sum((v - mean) ** 2 * p for v, p in want.items()) / t
  sd, big = math.sqrt(var), max(abs(v) for v in want)
  if abs(Fraction(got.mean()) - mean) > 1e-9 * sd + 1e-12 * big:
    raise Violation(f'{what}: mean {got.mean()!r}, exact {float(mean)!r}')
  if abs(got.std() - sd) > 1e-9 * sd + 1e-12 * big:
    raise Violation(f'{what}: standard deviation {got.std()!r}, exact {sd!r}')
  case.seen('moments', what)


def face_of(rng):
  r = rng.random()
  if r < 0.35:
    s = rng.choice([2, 3, 4, 6, 8, 10, 12, 20])
    return {i: 1 for i in range(1, s + 1)}, s
  if r < 0.45:
    s = -rng.choice([2, 3, 6])
    return {i: 1 for i in range(s, 0)}, s
  if r < 0.65:
    return {0: rng.choice([1, 9, 99, 10 ** 6]), 1: rng.choice([1, 3, 10 ** 6])}, None
  if r < 0.8:
    return {-1: 1, 0: rng.randint(1, 5), rng.choice([1, 2, 7]): rng.randint(1, 50)}, None
  return {v: rng.choice([1, 2, 7, 1000, 10 ** 9]) for v in rng.sample(range(-3, 9), rng.randint(2, 5))}, None


def lib_face(face, sides, rng):
  lib = core.lib
  if sides is not None and rng.random() < 0.7:
    return sides
  return lib.RV(list(face), list(face.values()))


def size(rng, face, cap):
  spread = max(face) - min(face)
  return max(2, min(rng.choice([20, 31, 40, 64, 77, 100, 128, 150, 200, 255, 300, 500, 1000]), cap // max(1, spread)))


def sums(case):
  rng, lib = case.rng, core.lib
  face, sides = face_of(rng)
  n = size(rng, face, 1200)
  x = lib.roll(n, lib_face(face, sides, rng))
  want = poly_pow(face, n)
  what = f'roll({n}, {face})'
  case.log(what)
  close(case, what, x, want)
  moments(case, what, x, want)
  case.seen('sum', what)
  if rng.random() < 0.15:      # the same with outcomes that are not whole
    q = rng.choice([2, 4, 8])
    y = lib.roll(n, lib.RV([v / q for v in face], list(face.values())))
    w2 = {v / q: p for v, p in want.items()}
    close(case, f'{what} / {q}', y, w2)
    moments(case, f'{what} / {q}', y, {Fraction(v, q): p for v, p in want.items()})
    case.seen('decimals')
  r = rng.randrange(6)
  if r == 0:
    k = rng.randint(-5, 30)
    close(case, f'{what} + {k}', x + k, {v + k: p for v, p in want.items()})
    close(case, f'-({what})', -x, {-v: p for v, p in want.items()})
    case.seen('difference')
  elif r == 1:
    mean = sum(v * p for v, p in want.items()) // sum(want.values())
    t = mean + rng.randint(-6, 6)
    hi = sum(p for v, p in want.items() if v >= t)
    close(case, f'{what} >= {t}', x >= t, {k: c for k, c in ((1, hi), (0, sum(want.values()) - hi)) if c})
    eq = want.get(t, 0)
    close(case, f'{what} == {t}', x == t, {k: c for k, c in ((1, eq), (0, sum(want.values()) - eq)) if c})
    case.seen('comparison')
  elif r == 2:
    f2 = {1: 1, 2: 2, 5: 1}
    y = x - lib.RV(list(f2), list(f2.values()))
    close(case, f'{what} - small', y, conv(want, f2, lambda a, b: a - b))
    q = x // 7
    w2 = {}
    for v, p in want.items():
      w2[v // 7] = w2.get(v // 7, 0) + p
    close(case, f'{what} // 7', q, w2)
    case.seen('difference')
  elif r == 3:
    ks = sorted({1, 2, n // 2, n, rng.randint(1, n)})
    for k in ks:
      close(case, f'{k} @ {what}', k @ x, order_stat(face, n, k))
      case.seen('position')
  elif r == 4:
    @lib.anydice_casting()
    def f(N: lib.T_N):
      if N % 3 == 0:
        return None
      return lib.RV([N % 2, 5], [1, 3])
    w2 = {}
    for v, p in want.items():
      if v % 3:
        w2[v % 2] = w2.get(v % 2, 0) + p
        w2[5] = w2.get(5, 0) + 3 * p
    if w2:
      close(case, f'typed function over {what}', f(x), w2)
    case.seen('typed function')
  else:
    top = sorted(want, key=want.get, reverse=True)[:3]
    y = x.filter(top)
    left = {v: p for v, p in want.items() if v not in top}
    # rescaling is only meaningful when what is left is notable
    if sum(left.values()) * 1000 > sum(want.values()):
      close(case, f'{what} filtered', y, left)


def two_big(case):
  rng, lib = case.rng, core.lib
  fa, sa = face_of(rng)
  fb, sb = face_of(rng)
  na, nb = size(rng, fa, 350), size(rng, fb, 350)
  a, b = lib.roll(na, lib_face(fa, sa, rng)), lib.roll(nb, lib_face(fb, sb, rng))
  wa, wb = poly_pow(fa, na), poly_pow(fb, nb)
  what = f'roll({na}, {fa}) and roll({nb}, {fb})'
  case.log(what)
  r = rng.randrange(3)
  if r == 0:
    close(case, 'difference of ' + what, a - b, conv(wa, wb, lambda x, y: x - y))
    case.seen('difference')
  elif r == 1:
    close(case, 'comparison of ' + what, a > b, conv(wa, wb, lambda x, y: 1 if x > y else 0))
    close(case, 'equality of ' + what, a == b, conv(wa, wb, lambda x, y: 1 if x == y else 0))
    case.seen('comparison', what)
  else:
    ws = [rng.randint(1, 5), rng.randint(1, 5), rng.randint(1, 5)]
    got = lib.RV.from_rvs([a, b, 3], ws)
    ta, tb = sum(wa.values()), sum(wb.values())
    want = {}
    for v, p in wa.items():
      want[v] = want.get(v, 0) + p * tb * ws[0]
    for v, p in wb.items():
      want[v] = want.get(v, 0) + p * ta * ws[1]
    want[3] = want.get(3, 0) + ta * tb * ws[2]
    close(case, f'mixture {ws} of {what} and 3', got, want)
    moments(case, f'mixture {ws} of {what} and 3', got, want)
    case.seen('mixture', what)


def nested(case):
  """rolls by a die, rolls of big rolls, repeated self-addition"""
  rng, lib = case.rng, core.lib
  r = rng.randrange(4)
  if r == 0:
    face, sides = face_of(rng)
    lo = rng.randint(15, 60)
    span = rng.randint(2, 12)
    cnt = {lo + i: rng.randint(1, 4) for i in range(span)}
    if (max(cnt) * (max(face) - min(face))) > 1200:
      return
    got = lib.roll(lib.RV(list(cnt), list(cnt.values())), lib_face(face, sides, rng))
    t = sum(face.values())
    want, m = {}, max(cnt)
    for n, w in cnt.items():
      for v, p in poly_pow(face, n).items():
        want[v] = want.get(v, 0) + w * p * t ** (m - n)
    what = f'roll({cnt}, {face})'
    case.log(what)
    close(case, what, got, want)
    moments(case, what, got, want)
    case.seen('roll by die', what)
  elif r == 1:
    face, sides = face_of(rng)
    n1, n2 = rng.choice([5, 12, 20, 33]), rng.choice([3, 4, 7, 10])
    if n1 * n2 * (max(face) - min(face)) > 1200:
      return
    got = lib.roll(n2, lib.roll(n1, lib_face(face, sides, rng)))
    what = f'roll({n2}, roll({n1}, {face}))'
    case.log(what)
    close(case, what, got, poly_pow(face, n1 * n2))
    inner = poly_pow(face, n1)
    k = rng.randint(1, n2)
    if len(inner) <= 150:
      close(case, f'{k} @ {what}', k @ got, order_stat(inner, n2, k))
    case.seen('roll of roll', what)
  elif r == 2:
    face, sides = face_of(rng)
    x, n = lib.roll(1, lib_face(face, sides, rng)), 1
    want = dict(face)
    for _ in range(rng.randint(4, 9)):
      if n * 2 * (max(face) - min(face)) > 900:
        break
      x, n = x + x, n * 2
    what = f'{face} doubled to {n} dice'
    case.log(what)
    close(case, what, x, poly_pow(face, n))
    case.seen('sum', what)
  else:      # selections of positions from many two- or three-valued dice
    face = rng.choice([{0: 1, 1: 1}, {1: 1, 2: 9}, {0: 1000, 1: 1}, {-1: 3, 1: 4}])
    n = rng.choice([60, 80, 106, 110, 130])
    ks = [rng.randint(1, n) for _ in range(rng.randint(2, 4))]
    got = lib.Seq(*ks) @ lib.roll(n, lib.RV(list(face), list(face.values())))
    want = model.order_stats_positions(model.Dist(face), n, ks).w
    what = f'{ks} @ roll({n}, {face})'
    case.log(what)
    close(case, what, got, want)
    case.seen('positions', what)


def heavy(case):
  """operations on dice whose own weights are enormous"""
  rng, lib = case.rng, core.lib

  def die(k):
    e = rng.choice([12, 20, 31, 40, 45, 60, 100, 200])
    vals = rng.sample(range(-4, 9), k)
    return {v: rng.choice([1, rng.randint(1, 9) * 10 ** e + rng.randint(-5, 5), rng.randint(1, 10 ** e), rng.randint(10 ** (e - 1), 10 ** e)]) for v in vals}
  wa, wb = die(rng.randint(2, 6)), die(rng.randint(2, 6))
  a, b = lib.RV(list(wa), list(wa.values())), lib.RV(list(wb), list(wb.values()))
  what = f'{core.short(wa)} and {core.short(wb)}'
  case.log(what)
  for name, f in rng.sample(sorted(OPS.items()), 5):
    close(case, f'{name} of {what}', f(a, b), conv(wa, wb, lambda x, y: int(f(x, y))))
    case.seen('enormous weights', (name, what))
  for name, f in rng.sample(sorted(OPS.items()), 2):
    k = rng.randint(-3, 6)
    w2 = {}
    for v, p in wa.items():
      w2[int(f(v, k))] = w2.get(int(f(v, k)), 0) + p
    close(case, f'{name} of {core.short(wa)} and {k}', f(a, k), w2)
  n = rng.choice([2, 3, 5])
  want = {0: 1}
  for _ in range(n):
    want = conv(want, wa, lambda x, y: x + y)
  close(case, f'roll({n}, {core.short(wa)})', lib.roll(n, a), want)
  k = rng.randint(1, n)
  close(case, f'{k} @ roll({n}, {core.short(wa)})', k @ lib.roll(n, a), order_stat(wa, n, k))

  @lib.anydice_casting()
  def f(N: lib.T_N, M: lib.T_N):
    return N * 100 + M
  close(case, f'typed function over {what}', f(a, b), conv(wa, wb, lambda x, y: 100 * x + y))

  @lib.anydice_casting()
  def g(S: lib.T_S):
    return S.sum() if len(S) else 0
  close(case, f'sequence function over roll(2, {core.short(wa)})', g(lib.roll(2, a)), conv(wa, wa, lambda x, y: x + y))


def heavy_positions(case):
  """positions of tens of dice whose weights are enormous"""
  rng, lib = case.rng, core.lib
  e = rng.choice([20, 40, 60, 80, 120, 200])
  vals = rng.sample(range(-4, 9), rng.randint(2, 4))
  face = {v: rng.randint(10 ** (e - 1), 10 ** e) for v in vals}
  n = rng.choice([12, 20, 33, 60, 90])
  x = lib.roll(n, lib.RV(list(face), list(face.values())))
  what = f'roll({n}, {core.short(face)})'
  case.log(what)
  for k in rng.sample(range(1, n + 1), 3):
    close(case, f'{k} @ {what}', k @ x, order_stat(face, n, k))
    case.seen('enormous weights', ('position', k, what))
  close(case, what, x, poly_pow(face, n))


OPS = {'sum': lambda x, y: x + y, 'difference': lambda x, y: x - y, 'product': lambda x, y: x * y, '>': lambda x, y: x > y, '>=': lambda x, y: x >= y, '==': lambda x, y: x == y, '!=': lambda x, y: x != y, '<': lambda x, y: x < y, '<=': lambda x, y: x <= y}

WORKLOADS = {
  'heavy': (heavy, 200, 2000, 10),
  'heavy_positions': (heavy_positions, 60, 600, 4),
  'sums': (sums, 300, 3000, 5),
  'two_big': (two_big, 120, 1200, 3),
  'nested': (nested, 240, 2400, 5),
}
