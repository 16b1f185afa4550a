"""Observation of library values (public attributes only) and comparison with model values."""
import math
from functools import reduce

from . import core, model
from .core import Violation


def is_blank(x):
  return isinstance(x, core.lib.BlankRV)


def is_die(x):
  return isinstance(x, core.lib.RV)


def is_seq(x):
  return isinstance(x, core.lib.Seq)


def die_pairs(x, what='die'):
  """outcomes and weights of a library die, with the well-formedness invariant checked"""
  if not is_die(x):
    raise Violation(f'{what}: expected a die, observed {core.short(x)}')
  vals, probs = x.vals, x.probs
  if len(vals) != len(probs):
    raise Violation(f'{what}: {len(vals)} outcomes but {len(probs)} weights: {core.short(x)}')
  if len(vals) == 0:
    raise Violation(f'{what}: a die without outcomes')
  for p in probs:
    if isinstance(p, bool) or not isinstance(p, int) or p < 0:
      raise Violation(f'{what}: weight {p!r} is not a non-negative integer')
  for a, b in zip(vals, vals[1:]):
    if not (a < b):
      raise Violation(f'{what}: outcomes not strictly increasing: {a!r} then {b!r}')
  for v in vals:
    if isinstance(v, bool):
      raise Violation(f'{what}: outcome {v!r} is a boolean')
    if v is None or is_die(v) or is_blank(v) or is_seq(v) or isinstance(v, (str, list, tuple)):
      raise Violation(f'{what}: outcome of type {type(v).__name__}')
  return list(zip(vals, probs))


def reduce_pairs(d):
  g = reduce(math.gcd, d.values(), 0)
  return {v: p // g for v, p in d.items()} if g > 1 else dict(d)


def snap(x):
  """full observable content of a value, for immutability monitors"""
  if is_die(x):
    return ('die', tuple(x.vals), tuple(type(v).__name__ for v in x.vals), tuple(x.probs), len(x), str(x))
  if is_blank(x):
    return ('blank', str(x), len(x))
  if is_seq(x):
    return ('seq', tuple(x), tuple(type(v).__name__ for v in x), len(x), str(x))
  if isinstance(x, (int, float, str)) or x is None:
    return (type(x).__name__, x)
  if isinstance(x, (list, tuple, range)):
    return (type(x).__name__,) + tuple(snap(y) for y in x)
  if isinstance(x, dict):
    return ('dict',) + tuple((k, snap(v)) for k, v in x.items())
  return ('other', repr(x))


def is_ll(x):
  return isinstance(x, (int, float))


def same_dist(case, what, got, want, tol=None, any_type=False):
  """got: library die or number; want: model Dist.  exact unless tol"""
  if is_ll(got):
    pairs = [(got, 1)]
  else:
    pairs = die_pairs(got, what)
  case.seen('distribution')
  obs = {}
  for v, p in pairs:
    if p:
      obs[v] = p
  if not obs:
    raise Violation(f'{what}: all weights are zero: {core.short(got)}')
  if tol is None and want.total > model.LIMIT:      # somewhere above the library may have scaled weights down
    tol = TOL
  if tol is None:
    a, b = reduce_pairs(obs), want.reduced()
    if a != b:
      raise Violation(f'{what}: observed {_show(a)}, exact distribution is {_show(b)}')
    if not any_type and not is_ll(got) and not want.floaty and not model.DECIMALS[0] and not all(isinstance(v, int) for v in obs):
      raise Violation(f'{what}: outcomes are not whole numbers: {core.short(got)}')
    return
  t, wt = sum(obs.values()), want.total
  for v in set(obs) | set(want.w):
    p, q = obs.get(v, 0), want.w.get(v, 0)
    # |p/t - q/wt| <= tol, in integers
    if abs(p * wt - q * t) * tol.denominator > tol.numerator * t * wt:
      raise Violation(f'{what}: probability of {v!r} is {p / t!r}, exact value {q / wt!r}')


def _show(d):
  s = str(dict(sorted(d.items(), key=lambda x: str(type(x[0])) + str(x[0])))) if len(d) > 12 else str(d)
  return s if len(s) < 500 else s[:500] + '...'


from fractions import Fraction  # noqa: E402
TOL = Fraction(1, 10 ** 9)


def agree(case, what, got, want, as_dist=False, check_len=False, any_type=False):
  """compare a library value with a model value"""
  if isinstance(want, model.Blank):
    case.seen('blank')
    if not is_blank(got):
      raise Violation(f'{what}: observed {core.short(got)}, expected the blank die')
    return
  if isinstance(want, model.Seq):
    if is_seq(got):
      o = tuple(got)
    elif isinstance(got, (range, list, tuple)):
      o = tuple(got)
    else:
      raise Violation(f'{what}: observed {core.short(got)}, expected sequence {want!r}')
    case.seen('sequence')
    if o != tuple(want):
      raise Violation(f'{what}: observed sequence {o!r}, expected {tuple(want)!r}')
    return
  if isinstance(want, (int, float)):
    case.seen('number')
    if is_die(got) and as_dist:
      return same_dist(case, what, got, model.Dist({want: 1}), any_type=any_type)
    if not is_ll(got):
      raise Violation(f'{what}: observed {core.short(got)}, expected number {want!r}')
    if got != want:
      raise Violation(f'{what}: observed {got!r}, expected {want!r}')
    if not any_type and isinstance(want, int) != isinstance(got, int):
      raise Violation(f'{what}: observed {got!r} ({type(got).__name__}), expected {want!r}')
    return
  if isinstance(want, model.Die):
    if is_ll(got) and not as_dist:
      raise Violation(f'{what}: observed {core.short(got)}, expected a die {want!r}')
    same_dist(case, what, got, want.dist, TOL if want.big else None, any_type)
    if check_len and want.n is not None:
      case.seen('length')
      if len(got) != want.n:
        raise Violation(f'{what}: length {len(got)}, expected {want.n}')
    return
  raise AssertionError(f'unknown model value {want!r}')


def agree_seq_exact(case, what, got, want):
  case.seen('sequence')
  if not is_seq(got):
    raise Violation(f'{what}: expected a sequence, observed {core.short(got)}')
  if tuple(got) != tuple(want):
    raise Violation(f'{what}: observed {tuple(got)!r}, expected {tuple(want)!r}')
