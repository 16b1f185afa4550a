"""C09: sequences."""
import math
import operator

from .. import core, gen, model, obs
from ..core import Violation
from ..model import Seq, CMP, ARITH

RULE = ('sequences built from nested numbers, lists, tuples, ranges, sequences, dice, blanks through Seq and get_seq; every arithmetic/logic operator with numbers, sequences and lists on either side; all '
        'comparisons seq/number, number/seq, seq/seq of equal and unequal length, seq/list; positions (in and out of range, sequences of positions, digits of numbers, zero-based switch).  Observed '
        'values against tuples.  Non-trivial: distinct (operation, contents) with at least one element.')
ASSUMPTIONS = ['decimal values are multiples of 1/4']
MUST_SEE = ('build', 'arith', 'logic', 'compare number', 'compare seq', 'position', 'digits', 'unchanged')
BIN = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv, '//': operator.floordiv, '%': operator.mod, '**': operator.pow}
CM = {'=': operator.eq, '!=': operator.ne, '<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}


def tree(rng, depth=0):
  """(lib nested value, numbers in order, dice outcomes in order)"""
  lib = core.lib
  r = rng.random()
  if depth >= 3 or r < 0.5:
    n = gen.number(rng)
    r = rng.random()
    if r < 0.05:
      n = rng.choice([True, False])
    elif r < 0.1:
      n = gen.huge_int(rng)
    return n, [n], []
  if r < 0.58:
    d, m = gen.die(rng, 4, zero=False)
    return d, [], sorted(m.dist.w)
  if r < 0.62:
    return lib.BlankRV(), [], []
  if r < 0.7:
    x = gen.stepped(rng)
    return x, list(x), []
  if r < 0.74:
    a, b = rng.randint(-2, 4), rng.randint(-2, 6)
    return lib.myrange(a, b), list(range(a, b + 1)), []
  kids = [tree(rng, depth + 1) for _ in range(rng.randint(0, 4))]
  nums = [x for _, ns, _ in kids for x in ns]
  dv = [x for _, _, ds in kids for x in ds]
  objs = [o for o, _, _ in kids]
  if r < 0.85:
    return list(objs), nums, dv
  if r < 0.92:
    return tuple(objs), nums, dv
  # an inner sequence flattens its own dice right away
  return lib.Seq(*objs), nums + dv, []


def build(case):
  rng, lib = case.rng, core.lib
  for _ in range(10):
    kids = [tree(rng) for _ in range(rng.randint(0, 5))]
    if rng.random() < 0.02:      # long
      k = rng.choice([99, 101, 130, 256, 257, 300, 500, 1001])
      x = rng.choice([range, lambda k: list(range(k)), lambda k: tuple(range(0, -k, -1)), lambda k: lib.Seq(range(k)), lambda k: lib.Seq(*[3] * k), lambda k: [[y] for y in range(k)]])(k)
      kids.append((x, [y if isinstance(y, int) else y[0] for y in x], []))
    want = [x for _, ns, _ in kids for x in ns] + [x for _, _, ds in kids for x in ds]
    objs = [o for o, _, _ in kids]
    how = rng.choice(['Seq*', 'Seq', 'get_seq*', 'get_seq'])
    got = {'Seq*': lambda: lib.Seq(*objs), 'Seq': lambda: lib.Seq(objs), 'get_seq*': lambda: lib.get_seq(*objs), 'get_seq': lambda: lib.get_seq(objs)}[how]()
    what = f'{how} {core.short(objs)}'
    case.log(what)
    obs.agree_seq_exact(case, what, got, want)
    if len(got) != len(want) or got.sum() != sum(want):
      raise Violation(f'{what}: length {len(got)}, sum {got.sum()} of {want}')
    case.seen('build', (how, tuple(want)) if want else None)


def seq2(rng):
  s, m = gen.seq(rng)
  r = rng.random()
  if r < 0.25 and m:
    # related content: permuted, prefix, bumped
    return s, m
  return s, m


def other_like(rng, m):
  """a second sequence related to m, as Seq or list"""
  e = list(m)
  r = rng.random()
  if r < 0.2:
    pass
  elif r < 0.35 and e:
    e = e[:-1]
  elif r < 0.5:
    e = e + [rng.randint(-3, 3)]
  elif r < 0.65 and e:
    i = rng.randrange(len(e))
    e[i] += rng.choice([1, -1])
  elif r < 0.75:
    rng.shuffle(e)
  elif r < 0.85:
    e = [v + rng.choice([0, 1, 2]) for v in e]
  else:
    e = [gen.number(rng) for _ in range(rng.randint(0, 4))]
  lib = core.lib
  return (lib.Seq(*e) if rng.random() < 0.7 else list(e)), Seq(e)


def a_seq(rng):
  """mostly short; sometimes long or with very large numbers"""
  r = rng.random()
  if r < 0.8:
    return gen.seq(rng)
  if r < 0.9:
    e = [gen.number(rng) for _ in range(rng.randint(20, 70))]
  else:
    e = [gen.huge_int(rng) if rng.random() < 0.6 else gen.number(rng, floats=0) for _ in range(rng.randint(1, 5))]
    if rng.random() < 0.5:
      e.append(e[0] + rng.choice([-1, 0, 1]))
  return core.lib.Seq(*e) if rng.random() < 0.5 else core.lib.get_seq(e), Seq(e)


def arith(case):
  rng, lib = case.rng, core.lib
  w = model.World()
  for _ in range(12):
    s, m = a_seq(rng)
    snap = obs.snap(s)
    op = rng.choice(list(BIN) + ['&', '|', '&', '|'])
    kind = rng.choice(['number', 'number', 'seq'])
    if kind == 'number':
      x = mx = gen.number(rng)
    else:
      x, mx = a_seq(rng)
    flip = rng.random() < 0.5
    a, b, ma, mb = (x, s, mx, m) if flip else (s, x, m, mx)
    sa, sb = w._sum(ma), w._sum(mb)
    if op in ('/', '//', '%') and sb == 0 or op == '**' and (sb < 0 or sb != int(sb) or sb > 8 or abs(sa) > 100):
      continue
    what = f'{core.short(a)} {op} {core.short(b)}'
    case.log(what)
    if op in '&|':
      got = (operator.and_ if op == '&' else operator.or_)(a, b)
      want = (1 if (sa and sb) else 0) if op == '&' else (1 if (sa or sb) else 0)
      case.seen('logic', what)
    else:
      got, want = BIN[op](a, b), ARITH[op](sa, sb)
      case.seen('arith', what)
    obs.agree(case, what, got, want)
    if obs.snap(s) != snap:
      raise Violation(f'{what}: the sequence changed from {snap} to {obs.snap(s)}')
    case.seen('unchanged')
  s, m = a_seq(rng)
  obs.agree(case, f'~{m}', ~s, 1 if sum(m) == 0 else 0)
  obs.agree(case, f'-{m}', -s, -sum(m))


def compare(case):
  rng, lib = case.rng, core.lib
  for _ in range(12):
    s, m = a_seq(rng)
    op = rng.choice(list(CM))
    n = rng.choice(list(m)) if m and rng.random() < 0.5 else gen.number(rng)
    what = f'{m} {op} {n}'
    case.log(what)
    obs.agree(case, what, CM[op](s, n), sum(1 for x in m if CMP[op](x, n)))
    obs.agree(case, f'{n} {op} {m}', CM[op](n, s), sum(1 for x in m if CMP[op](n, x)))
    case.seen('compare number', what if m else None)
    t, mt = other_like(rng, m)
    want = model.seq_cmp(op, m, mt)
    got = CM[op](s, t)
    if bool(got) != want or got not in (0, 1):
      raise Violation(f'{m} {op} {mt}: observed {got!r}, expected {want}')
    if obs.is_seq(t):
      got = CM[op](t, s)
      if bool(got) != model.seq_cmp(op, mt, m):
        raise Violation(f'{mt} {op} {m}: observed {got!r}, expected {model.seq_cmp(op, mt, m)}')
    case.seen('compare seq', (op, tuple(m), tuple(mt)))
    same = tuple(m) == tuple(mt)
    if bool(lib.Seq.seqs_are_equal(s, t)) != same:
      raise Violation(f'seqs_are_equal({m}, {mt}) is {lib.Seq.seqs_are_equal(s, t)}')
    if m:      # the least difference there is
      near = list(m)
      i = rng.randrange(len(near))
      near[i] = math.nextafter(near[i], rng.choice([-9e99, 9e99])) if abs(near[i]) < 2 ** 50 else near[i] + 1
      u = lib.Seq(*near)
      if lib.Seq.seqs_are_equal(s, u) or lib.Seq.seqs_are_equal(near, m) or bool(s == u) or not bool(s != u):
        raise Violation(f'{m} and {near} count as equal')


def positions(case):
  rng, lib = case.rng, core.lib
  for _ in range(10):
    s, m = a_seq(rng)
    n = len(m)
    k = rng.randint(-2, n + 2)
    want = m[k - 1] if 1 <= k <= n else 0
    case.log(f'{k} @ {m}')
    obs.agree(case, f'{k} @ {m}', k @ s, want)
    obs.agree(case, f'{m}[{k}]', s[k], want)
    ps = [rng.randint(-1, n + 2) for _ in range(rng.randint(0, 4))]
    sel = lib.Seq(*ps) if rng.random() < 0.7 else list(ps)
    obs.agree(case, f'{ps} @ {m}', sel @ s, sum(m[i - 1] if 1 <= i <= n else 0 for i in ps))
    case.seen('position', (k, tuple(ps), tuple(m)) if m else None)
    right = gen.lists_of(rng, m)
    obs.agree(case, f'{ps} @ {core.short(right)}', lib.Seq(*ps) @ right, sum(m[i - 1] if 1 <= i <= n else 0 for i in ps))
    rr = gen.stepped(rng, 9)
    obs.agree(case, f'{ps} @ {rr}', lib.Seq(*ps) @ rr, sum(rr[i - 1] if 1 <= i <= len(rr) else 0 for i in ps))
    for sel in (tuple(ps), range(1, rng.randint(1, n + 3)), [ps[:1], tuple(ps[1:])]):
      flat = [x for y in sel for x in (y if isinstance(y, (list, tuple)) else [y])]
      obs.agree(case, f'{sel} @ {m}', sel @ s, sum(m[i - 1] if 1 <= i <= n else 0 for i in flat))
    far = rng.choice([10 ** 9, -10 ** 9, 2 ** 64, n + 1, -n, -1])
    obs.agree(case, f'{far} @ {m}', far @ s, 0)
    obs.agree(case, f'{m}[{far}]', s[far], 0)
    obs.agree(case, f'{far}, 1 @ {m}', lib.Seq(far, 1) @ s, m[0] if m else 0)
    num = rng.choice([rng.randint(0, 9), rng.randint(10, 99999), 10 ** 9 + 7, rng.randint(10 ** 15, 10 ** 30), 10 ** rng.randint(1, 25), 10 ** rng.randint(1, 40) - rng.choice([1, 1, 2]), rng.randint(1, 9) * 10 ** rng.randint(14, 40) + rng.randint(-3, 3)])
    dg = [int(c) for c in str(num)]
    ps = [rng.randint(-1, len(dg) + 1) for _ in range(rng.randint(1, 4))]
    obs.agree(case, f'{ps} @ {num}', lib.Seq(*ps) @ num, sum(dg[i - 1] if 1 <= i <= len(dg) else 0 for i in ps))
    case.seen('digits', (tuple(ps), num))
  e = [rng.randint(1, 9) for _ in range(4)]
  s = lib.Seq(*e)
  s.set_one_indexed(False)
  k = rng.randint(-1, 5)
  obs.agree(case, f'zero-based {e}[{k}]', s[k], e[k] if 0 <= k < 4 else 0)
  for how, t in (('Seq(s)', lib.Seq(s)), ('Seq([s])', lib.Seq([s])), ('get_seq(s)', lib.get_seq(s)), ('Seq(*s)', lib.Seq(*s)), ('sorted', lib.sort_X(s))):
    want = sorted(e, reverse=True) if how == 'sorted' else e
    obs.agree(case, f'{how} of a zero-based {e}, at {k}', k @ t, want[k - 1] if 1 <= k <= 4 else 0)
  s.set_one_indexed(True)
  obs.agree(case, f'one-based {e}[{k}]', s[k], e[k - 1] if 1 <= k <= 4 else 0)
  for bad in (lambda: lib.roll(2, 6) @ s, lambda: lib.Seq(0.5, 1) @ lib.Seq(1, 2)):
    case.refused('position selector', bad)


WORKLOADS = {
  'build': (build, 4000, 40000, 25),
  'arith': (arith, 5000, 50000, 25),
  'compare': (compare, 5000, 50000, 25),
  'positions': (positions, 4000, 40000, 25),
}
