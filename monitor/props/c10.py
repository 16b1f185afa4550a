"""C10: summary statistics and probability listings are faithful."""
import math
from fractions import Fraction

from .. import core, gen, model, obs
from ..core import Violation

RULE = ('mean, standard deviation, cumulative die, probability listing (with and without a cut) and filter of constructed dice, pools, sums and mixtures, with outcomes near zero, '
        'shifted by 10^3..2^40, decimal, negative, tied probabilities, zero weights and hundreds of outcomes; oracle: exact rational moments, running totals, exact shares and a '
        'maximality rule for the cut that does not depend on how ties are broken.  Non-trivial: distinct dice with at least two outcomes.')
ASSUMPTIONS = ['floating-point rounding: mean within a few ulp of the exact mean (relative to the largest outcome), standard deviation within 1e-9 relative plus the rounding of the outcomes themselves',
               'a cut closer than 1e-12 to a boundary is not judged']
MUST_SEE = ('mean', 'std', 'cdf', 'listing', 'cut', 'filter', 'mixed filter', 'offset', 'enormous', 'exact cut')


def make(rng):
  """-> (library die, exact Dist, tag); only dice whose weights are not scaled down"""
  while True:
    r = make_any(rng)
    if r[1].total < 10 ** 30:
      return r


def make_any(rng):
  r = rng.random()
  w = model.World()
  if r < 0.35:
    d, m = gen.die(rng, rng.choice([1, 2, 4, 6, 12, 30]), lo=-9, hi=40)
    return d, m.dist, None
  if r < 0.5:
    d, m = gen.pool(rng, 5, 6)
    return d, m.dist, None
  if r < 0.7:
    d, m = gen.big_offset_die(rng)
    if rng.random() < 0.5:
      d, m = -d, w.neg(m)
    return d, m.dist, 'offset'
  if r < 0.75:
    d, m = gen.huge_die(rng) if rng.random() < 0.5 else gen.heavy_die(rng, 6)
    return d, m.dist, None
  if r < 0.85:
    a, ma = gen.die(rng, 5)
    b, mb = gen.die(rng, 5)
    return lib_op(a, b), w.binop('*', ma, mb).dist, None
  k = rng.randint(40, 300)
  off = rng.choice([0, 0, 10 ** 3, 10 ** 6, -10 ** 9, 10 ** 12])
  vals = [v + off for v in rng.sample(range(-400, 401), k)]
  ws = [rng.choice([1, 2, 2, 3, 50]) for _ in range(k)]
  return core.lib.RV(vals, ws), model.Dist(list(zip(vals, ws))), 'offset' if off else None


def lib_op(a, b):
  return a * b


def close_mean(x, exact, scale):
  return abs(Fraction(x) - exact) <= Fraction(64, 2 ** 52) * scale


def moments(case):
  rng = case.rng
  for _ in range(5):
    d, dist, tag = make(rng)
    what = core.short(d)
    case.log('moments of', what)
    mean, var = model.mean_var(dist)
    scale = max(abs(Fraction(v)) for v in dist.w) or Fraction(1)
    got = d.mean()
    if not isinstance(got, (int, float)) or not close_mean(got, mean, scale):
      raise Violation(f'mean of {what} is {got!r}, exact mean {float(mean)!r}')
    case.seen('mean')
    s = d.std()
    exact = math.sqrt(var)
    tol = 1e-9 * exact + float(scale) * 2.0 ** -48
    if not isinstance(s, (int, float)) or not abs(s - exact) <= tol:
      raise Violation(f'standard deviation of {what} is {s!r}, exact {exact!r}')
    case.seen('std', tuple(dist.sorted()) if len(dist) > 1 else None)
    if tag == 'offset':
      case.seen('offset')


def enormous(case):
  """outcomes and weights near the limits of floating point, large terms that cancel"""
  rng = case.rng
  for _ in range(4):
    big = 10 ** rng.randint(120, 290)
    k = rng.randint(1, 4)
    vals = [rng.choice([1, -1]) * rng.randint(1, 9) * big + rng.randint(-5, 5) for _ in range(k)]
    if rng.random() < 0.4:
      vals = [v for x in vals for v in (x, -x)]
    ws = [rng.choice([1, rng.randint(1, 10 ** 30)]) for _ in vals]
    if len(set(vals)) == len(vals) == 2 * k:
      ws = [w for w in ws[:k] for _ in (0, 1)]
    d, dist = core.lib.RV(vals, ws), model.Dist(list(zip(vals, ws)))
    case.log('mean of', core.short(d))
    mean, var = model.mean_var(dist)
    scale = max(abs(Fraction(v)) for v in dist.w)
    got = d.mean()
    if not isinstance(got, (int, float)) or not close_mean(got, mean, scale):
      raise Violation(f'mean of {core.short(d)} is {got!r}, exact mean {core.short(mean)}')
    case.seen('enormous', tuple(dist.sorted()) if len(dist) > 1 else None)
  # weights beyond the range of floating point
  e = 10 ** rng.choice([20, 150, 300, 305, 308, 310, 400, 700])
  vals = rng.sample(range(-20, 60), rng.randint(1, 4))
  if rng.random() < 0.4:
    vals = [v + rng.choice([0, 0.5, 0.1, -0.25]) for v in vals]
  ws = [rng.choice([1, rng.randint(1, 9) * e, e + 1, rng.randint(1, 10 ** 6) * e // 1000]) for _ in vals]
  d, dist = core.lib.RV(vals, ws), model.Dist(list(zip(vals, ws)))
  case.log('moments of', core.short(d, 60))
  mean, var = model.mean_var(dist)
  if not close_mean(d.mean(), mean, max(abs(v) for v in vals)) or not abs(d.std() - math.sqrt(var)) <= 1e-9 * math.sqrt(var) + 1e-9:
    raise Violation(f'{vals} with weights of {len(str(max(ws)))} digits: mean {d.mean()!r}, standard deviation {d.std()!r}; exact {float(mean)!r}, {math.sqrt(var)!r}')
  for (v, p), w in zip(d.get_vals_probs(), [dist.w[v] for v in sorted(vals)]):
    if abs(Fraction(p) - Fraction(w) / Fraction(dist.total)) > Fraction(1, 10 ** 12):
      raise Violation(f'{vals} with weights of {len(str(max(ws)))} digits: probability {p!r} listed for {v}')
  case.seen('weights beyond floats', tuple(vals))


def listing(case):
  rng = case.rng
  for _ in range(5):
    d, dist, _ = make(rng)
    what = core.short(d)
    case.log('listings of', what)
    pairs = obs.die_pairs(d)
    tot = sum(p for _, p in pairs)
    vp = d.get_vals_probs()
    if [v for v, _ in vp] != [v for v, _ in pairs]:
      raise Violation(f'listing of {what}: outcomes {core.short([v for v, _ in vp])}')
    for (v, q), (_, p) in zip(vp, pairs):
      ex = Fraction(dist.w.get(v, 0), dist.total)
      if abs(Fraction(q) - ex) > ex * Fraction(4, 2 ** 52):
        raise Violation(f'listing of {what}: probability of {v!r} is {q!r}, exact {float(ex)!r}')
    case.seen('listing', tuple(dist.sorted()) if len(dist) > 1 else None)
    ignore = rng.random() < 0.25      # zero weights are ignored from now on: only outcomes whose running total is zero go
    if ignore:
      core.lib.settings_set('RV_IGNORE_ZERO_PROBS', True)
    cum = d.get_cdf()
    if ignore:
      core.lib.settings_reset()
    run, exp = 0, []
    for v, p in pairs:
      run += p
      if run or not ignore:
        exp.append((v, run))
    g = math.gcd(*(p for _, p in exp))
    exp = [(v, p // g) for v, p in exp]
    if obs.die_pairs(cum, 'cumulative die') != exp:
      raise Violation(f'cumulative die of {what}: {core.short(cum)}, expected running totals {core.short(exp)}')
    case.seen('cdf')
    # cut
    shares = {v: Fraction(p, tot) for v, p in pairs}
    full = dict(vp)
    for _ in range(3):
      style = rng.random()
      if style < 0.5:
        c = rng.choice([0.001, 0.01, 0.05, 0.1, 0.25, 0.5, 0.9, 0.999])
      else:       # just around a running total
        srt = sorted(shares.values())
        k = rng.randrange(len(srt))
        c = float(sum(srt[:k + 1])) * rng.choice([0.9999, 1.0001])
      if not 0 < c < 1:
        continue
      cut = d.get_vals_probs(c)
      kept = [v for v, _ in cut]
      if kept != [v for v, _ in vp if v in set(kept)]:
        raise Violation(f'listing of {what} with cut {c}: kept outcomes {kept} not in order of the full listing')
      for v, q in cut:
        if q != full[v]:
          raise Violation(f'listing of {what} with cut {c}: probability of {v!r} changed from {full[v]!r} to {q!r}')
      dropped = [v for v, _ in vp if v not in set(kept)]
      tot_d = sum((shares[v] for v in dropped), Fraction(0))
      C, eps = Fraction(c), Fraction(1, 10 ** 12)
      if dropped and tot_d >= C + eps:
        raise Violation(f'listing of {what} with cut {c}: dropped outcomes {dropped} have probability {float(tot_d)!r}')
      if dropped and kept and max(shares[v] for v in dropped) > min(shares[v] for v in kept) * (1 + Fraction(1, 2 ** 50)):      # equal in floating point is a tie
        raise Violation(f'listing of {what} with cut {c}: dropped {dropped} although a kept outcome is less likely')
      if kept:
        m = min(shares[v] for v in kept)
        if tot_d + m < C - eps:
          raise Violation(f'listing of {what} with cut {c}: could drop one more outcome (total {float(tot_d + m)!r})')
      elif dropped:
        raise Violation(f'listing of {what} with cut {c}: everything dropped')
      case.seen('cut', (tuple(dist.sorted()), c) if dropped else None)
    for bad in (-0.1, 1, 1.5):
      case.refused(f'cut {bad}', d.get_vals_probs, bad)


def exact_cut(case):
  """probabilities that floating point represents exactly: a cut equal to a running total keeps the next outcome"""
  rng = case.rng
  for _ in range(4):
    # weights adding up to a power of two
    total = 2 ** rng.randint(2, 12)
    k = min(total, rng.choice([2, 4, 5, 8, 13, 16, 20, 32, 40, 64, 100]))
    if rng.random() < 0.4:
      k = min(total, 2 ** rng.randint(1, 7))
      ws = [total // k] * k
    else:
      cuts = sorted(rng.sample(range(1, total), k - 1))
      ws = [b - a for a, b in zip([0] + cuts, cuts + [total])]
    off = rng.choice([0, 1, -k, 100])
    vals = [off + i * rng.choice([1, 1, 2]) if False else off + i for i in range(k)]
    rng.shuffle(ws)
    d = core.lib.RV(vals, ws)
    tot = sum(d.probs)
    srt = sorted(d.probs)
    for _ in range(4):
      j = rng.randint(1, k)
      c = Fraction(sum(srt[:j]), tot) + Fraction(rng.choice([0, 0, 0, 1, -1]), 2 ** 20)
      if not 0 < c < 1:
        continue
      cut = d.get_vals_probs(float(c))
      kept = set(v for v, _ in cut)
      dropped = sorted(p for v, p in zip(d.vals, d.probs) if v not in kept)
      # as many as possible while their total stays below the cut; zero weights do not occur here
      want = 0
      while want < k and Fraction(sum(srt[:want + 1]), tot) < c:
        want += 1
      what = f'listing of {core.short(d)} with cut {float(c)!r}'
      case.log(what)
      if dropped != srt[:want]:
        raise Violation(f'{what}: dropped weights {dropped}, expected the {want} smallest {srt[:want]} (total weight {tot})')
      for v, q in cut:
        if Fraction(q) != Fraction(d.probs[d.vals.index(v)], tot):
          raise Violation(f'{what}: probability of {v!r} is {q!r}')
      case.seen('exact cut', (tuple(d.probs), float(c)))


def filtering(case):
  rng, lib = case.rng, core.lib
  for _ in range(6):
    d, m = gen.die(rng, 8) if rng.random() < 0.6 else gen.pool(rng, 3, 4)
    vals = [v for v, _ in obs.die_pairs(d)]
    r = rng.random()
    if r < 0.2:
      out = [rng.choice(vals)]
      arg = out[0]
    elif r < 0.4:
      out = list(vals) if rng.random() < 0.5 else vals[:-1]
      arg = lib.Seq(*out) if out else []
    elif r < 0.6:
      out = rng.sample(vals, rng.randint(0, len(vals))) + [99]
      arg = list(out)
    elif r < 0.8:
      e, me = gen.die(rng, 4)
      out, arg = [v for v, _ in obs.die_pairs(e)], e
    elif r < 0.92:      # numbers, dice, sequences, lists and ranges in one list
      out, arg = [], []
      for _ in range(rng.randint(1, 4)):
        q, v = rng.random(), rng.choice(vals)
        if q < 0.3:
          e, me = gen.die(rng, 3)
          x, vs = e, [v for v, _ in obs.die_pairs(e)]
        elif q < 0.5:
          vs = rng.sample(vals, min(len(vals), rng.randint(0, 2))) + [v]
          x = rng.choice([lib.Seq(*vs), list(vs), tuple(vs), [[vs[0]], vs[1:]]])
        elif q < 0.6:
          a = rng.randint(-2, 4)
          x, vs = range(a, a + 2), [a, a + 1]
        elif q < 0.65:
          x, vs = lib.BlankRV(), []
        else:
          x, vs = v, [v]
        arg.append(x)
        out += vs
      arg = rng.choice([list, tuple, lambda y: [y], lambda y: lib.get_seq(y)])(arg)
      case.seen('mixed filter', core.short(arg))
    else:
      lo = rng.randint(-3, 3)
      out = list(range(lo, lo + rng.randint(0, 4)))
      arg = range(out[0], out[-1] + 1) if out else []
      if rng.random() < 0.5:      # most of a larger die
        n = rng.choice([10, 12, 20, 45, 120])
        d = lib.roll(n) if rng.random() < 0.5 else lib.RV(range(1, n + 1), [rng.randint(1, 4) for _ in range(n)])
        vals = list(range(1, n + 1))
        out = list(range(rng.randint(0, 3), n + rng.randint(-3, 2)))
        for _ in range(rng.choice([0, 1, 1, 2])):
          out.remove(rng.choice(out))
        rng.shuffle(out)
        arg = rng.choice([list, tuple, lambda y: lib.get_seq(*y), set])(out)
    left = [(v, p) for v, p in obs.die_pairs(d) if v not in out]
    what = f'filter {core.short(arg)} from {core.short(d)}'
    case.log(what)
    if left and not any(p for _, p in left):
      continue      # nothing of positive weight left
    got = d.filter(arg)
    want = model.Dist(left) if left else model.Dist({0: 1})
    obs.same_dist(case, what, got, want, any_type=True)
    if left and [v for v, _ in obs.die_pairs(got)] != [v for v, _ in left]:
      raise Violation(f'{what}: outcomes {core.short(got)}')
    if len(vals) < 2000 and rng.random() < 0.5:      # what is left is one die
      if len(got) != 1:
        raise Violation(f'{what}: length {len(got)}')
      obs.same_dist(case, f'position 1 of {what}', 1 @ got, want, any_type=True)
    case.seen('filter', what)


def consistency(case):
  """moments behave under shift and scale, listing adds up to 1"""
  rng = case.rng
  d, m = gen.die(rng, 10)
  if len(m.dist) < 1:
    return
  k = rng.choice([1, 7, 1000, 10 ** 6, 10 ** 9, 10 ** 12])
  case.log(f'{core.short(d)} shifted by {k}')
  e = d + k
  scale = k + 50
  if abs((e.mean() - k) - d.mean()) > scale * 2.0 ** -48:
    raise Violation(f'mean of {core.short(d)} is {d.mean()!r} but {e.mean()!r} after adding {k}')
  if abs(e.std() - d.std()) > scale * 2.0 ** -46:
    raise Violation(f'standard deviation of {core.short(d)} is {d.std()!r} but {e.std()!r} after adding {k}')
  s = math.fsum(p for _, p in d.get_vals_probs())
  if abs(s - 1) > 1e-12:
    raise Violation(f'probabilities of {core.short(d)} add up to {s!r}')
  case.seen('offset', (tuple(m.dist.sorted()), k) if len(m.dist) > 1 else None)


WORKLOADS = {
  'moments': (moments, 6000, 60000, 50),
  'enormous': (enormous, 1200, 12000, 50),
  'listing': (listing, 4800, 48000, 50),
  'exact_cut': (exact_cut, 2400, 24000, 50),
  'filtering': (filtering, 3200, 32000, 50),
  'consistency': (consistency, 3200, 32000, 100),
}
