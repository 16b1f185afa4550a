"""C22: text-valued dice add up symbol counts consistently."""
import math
from itertools import product

from .. import core, model, obs
from ..core import Violation

RULE = ('rolls of 1..4 dice whose faces are texts (words, number-like texts, mixed case, punctuation, unicode), numbers and decimals in random order and multiplicity, sums of such rolls (also long ones over many texts), mixtures, '
        'positions, expansion to sequences, listings and reports; outcomes are read back from their printed form and compared with the enumeration of all face combinations; equality, hash '
        'and the six comparisons are cross-checked on all pairs and triples of observed outcomes.  Non-trivial: distinct (faces, count).')
ASSUMPTIONS = ['texts contain no " + " or "*" and at most one of them looks like a number, so that printed outcomes can be read back', 'a numeric total of 0 may be shown or left out, except in a plain roll']
MUST_SEE = ('roll', 'order of faces', 'compared pair', 'hash', 'listing', 'quoted', 'report', 'sum', 'position', 'sequence', 'mixture', 'four or more texts')

WORDS = ['a', 'b', 'B', 'Z', 'a ', 'b ', 'fire', 'water', 'air', 'x y', 'ünï', '_x', '~', 'hit!', 'fir', '^', 'é']
NUMLIKE = ['1', '2.2', '-3', '0', '12', '007']


def texts(rng):
  t = rng.sample(WORDS, rng.randint(1, 3))
  if rng.random() < 0.4:
    t.append(rng.choice(NUMLIKE))
  return t


def is_text(v):
  return not isinstance(v, (int, float))


def key(parts):
  """exact reading of a combination of faces: (sorted text counts, total or None)"""
  c, tot, nums = {}, 0, False
  for p in parts:
    if isinstance(p, str):
      c[p] = c.get(p, 0) + 1
    else:
      tot, nums = tot + p, True
  if not c:
    return ('n', tot)
  return ('t', tuple(sorted(c.items())), tot if nums else None)


def read(v, T, what):
  """what a printed outcome says"""
  if not is_text(v):
    return ('n', v)
  s = str(v)
  comps = s.split(' + ')
  keys, i, c = sorted(T), 0, {}
  for j, comp in enumerate(comps):
    n, k = 1, comp
    if '*' in comp:
      n, k = comp.split('*', 1)
      try:
        n = int(n)
      except ValueError:
        raise Violation(f'{what}: outcome printed as {s!r}')
    while i < len(keys) and keys[i] != k:
      i += 1
    if i < len(keys):
      c[k] = n
      i += 1
      continue
    if j == len(comps) - 1 and j > 0 and '*' not in comp:
      try:
        tot = float(comp) if '.' in comp or 'e' in comp else int(comp)
        return ('t', tuple(sorted(c.items())), tot)
      except ValueError:
        pass
    raise Violation(f'{what}: outcome printed as {s!r}, which is not texts with counts followed by a total')
  return ('t', tuple(sorted(c.items())), None)


def norm(k):
  return ('t', k[1], k[2] or None) if k[0] == 't' else k


def dist_of(rv, T, what, normalise=False):
  out, tot = {}, 0
  vals = list(rv.vals)
  for a, b in zip(vals, vals[1:]):
    if not a < b:
      raise Violation(f'{what}: outcomes not in increasing order: {a} then {b}')
  for v, p in zip(vals, rv.probs):
    k = read(v, T, what)
    if normalise:
      k = norm(k)
    elif k in out:
      raise Violation(f'{what}: outcome {v} listed twice')
    out[k] = out.get(k, 0) + p
  return reduce_(out)


def reduce_(d):
  d = {k: p for k, p in d.items() if p}
  g = math.gcd(*d.values())
  return {k: p // g for k, p in d.items()}


def enum(faces, n):
  out = {}
  for combo in product(faces, repeat=n):
    k = key(combo)
    out[k] = out.get(k, 0) + 1
  return reduce_(out)


def add_keys(a, b):
  ca = dict(a[1]) if a[0] == 't' else {}
  for t, n in (b[1] if b[0] == 't' else ()):
    ca[t] = ca.get(t, 0) + n
  ta = a[2] if a[0] == 't' else a[1]
  tb = b[2] if b[0] == 't' else b[1]
  tot = (ta or 0) + (tb or 0)
  return norm(('t', tuple(sorted(ca.items())), tot)) if ca else ('n', tot)


def faces_of(rng):
  T = texts(rng)
  f = [rng.choice(T) for _ in range(rng.randint(1, 3))]
  f += [rng.randint(-1, 4) if rng.random() < 0.8 else rng.randint(1, 9) / 4 if rng.random() < 0.9 else rng.choice([10 ** 6, 10 ** 9 + 1, 10 ** 12 + 1, 10 ** 15, -10 ** 13]) for _ in range(rng.randint(0, 3))]
  rng.shuffle(f)
  return f, sorted({x for x in f if isinstance(x, str)})


def make(rng, f):
  lib = core.lib
  r = rng.random()
  if r < 0.4:
    return lib.get_seq(*f)
  if r < 0.7:
    return list(f)
  if r < 0.85:
    return lib.get_seq([f[:1], tuple(f[1:])])
  return core.submodule('factory').get_rv(lib.get_seq(*f))


def rolls(case):
  rng, lib = case.rng, core.lib
  for _ in range(3):
    f, T = faces_of(rng)
    n = rng.choice([1, 2, 2, 3, 4, 7, 9, 11])
    if len(f) ** n > 800 and not (len(f) == 2 and n == 11):
      n = 2
    what = f'roll({n}, {f})'
    case.log(what)
    x = lib.roll(n, make(rng, f))
    want = enum(f, n)
    got = dist_of(x, T, what)
    if got != want:
      raise Violation(f'{what}: observed {core.short(got)}, exact {core.short(want)}')
    case.seen('roll', (tuple(f), n) if len(want) > 1 else None)
    if len(x) != n:
      raise Violation(f'{what}: length {len(x)}')
    g = list(f)
    rng.shuffle(g)
    y = lib.roll(n, make(rng, g))
    if [str(v) for v in y.vals] != [str(v) for v in x.vals] or y.probs != x.probs or not lib.RV.dices_are_equal(x, y):
      # equal numbers of different type may print differently
      if dist_of(y, T, what) != want or not lib.RV.dices_are_equal(x, y):
        raise Violation(f'{what}: faces in the order {g} give {core.short(y)} instead of {core.short(x)}')
    case.seen('order of faces')
    nums_first = [is_text(v) for v in x.vals]
    if nums_first != sorted(nums_first):
      raise Violation(f'{what}: a number is listed after a text: {core.short(x)}')
    # listing
    vp = x.get_vals_probs()
    tot = sum(x.probs)
    for (s, p), v, w in zip(vp, x.vals, x.probs):
      if abs(p - w / tot) > 1e-12:
        raise Violation(f'{what}: listed probability of {v} is {p!r}, exact {w / tot!r}')
      if is_text(v):
        alone = str(v).split('*')[-1] in NUMLIKE and str(v).split('*')[:-1] in ([], [str(n)])      # one text, any number of times
        if alone and '*' in str(v):
          case.seen('quoted count')
        if alone:
          if s != f'"{v}"':
            raise Violation(f'{what}: number-like text {v} listed as {s!r}, must be quoted')
          case.seen('quoted')
        elif s != str(v) and s != f'"{v}"':
          raise Violation(f'{what}: {v} listed as {s!r}')
        elif s != str(v) and not any(t in NUMLIKE for t in T):
          raise Violation(f'{what}: {v} listed as {s!r}')
      elif s != v:
        raise Violation(f'{what}: number {v!r} listed as {s!r}')
    case.seen('listing')
    cut = rng.choice([0.05, 0.2, 0.5])
    kept = {s for s, _ in x.get_vals_probs(cut)}
    hidden = sum(p for s, p in vp if s not in kept)
    if hidden >= cut + 1e-12 or not all(t in vp for t in x.get_vals_probs(cut)):
      raise Violation(f'{what}: cut {cut} hides probability {hidden}')
    text = lib.output(x, named='t', print_=False)
    rows = text.split('\n')[1:-1]
    w = max(len(str(s)) for s, _ in vp)
    if len(rows) != len(vp):
      raise Violation(f'{what}: report has {len(rows)} lines for {len(vp)} outcomes')
    for row, (s, p) in zip(rows, vp):
      if not row.startswith(str(s).rjust(w) + ': ') or abs(float(row[w + 1:].split()[0]) - 100 * p) > 0.00501:
        raise Violation(f'{what}: report line {row!r} for {s!r} with probability {p!r}')
    case.seen('report')


def comparisons(case):
  """all pairs and triples of a bag of outcomes: equality, hash, six comparisons, one total order"""
  rng, lib = case.rng, core.lib
  bag = []
  T = texts(rng)
  for _ in range(3):
    f = [rng.choice(T) for _ in range(2)] + [rng.randint(-1, 3)]
    rng.shuffle(f)
    x = lib.roll(rng.randint(1, 3), lib.get_seq(*f))
    bag += [(v, read(v, T, 'outcome')) for v in x.vals]
  for _ in range(3):      # the same faces added up in different orders
    f = [rng.choice(T) for _ in range(rng.randint(2, 4))] + [rng.randint(1, 3) for _ in range(rng.randint(0, 2))]
    for _ in range(2):
      rng.shuffle(f)
      as_float = rng.random() < 0.4      # 2.0 and 2 are the same number
      f = [float(t) if as_float and not isinstance(t, str) else t for t in f]
      x = lib.roll(1, lib.get_seq(f[0]))
      for t in f[1:]:
        y = lib.roll(1, lib.get_seq(t))
        x = x + y if rng.random() < 0.7 else y + x
      bag += [(v, read(v, T, 'outcome')) for v in x.vals]
  rng.shuffle(bag)
  bag = bag[:14]
  case.log('comparing ' + ', '.join(str(v) for v, _ in bag))
  for a, ka in bag:
    for b, kb in bag:
      if not (is_text(a) or is_text(b)):
        continue
      if ka[0] == kb[0] == 't' and ka != kb and norm(ka) == norm(kb):
        continue      # differ only by a total of 0
      lt, le, eq, ne, ge, gt = a < b, a <= b, a == b, a != b, a >= b, a > b
      what = f'{a} and {b}'
      if bool(eq) != (ka == kb) or bool(ne) == bool(eq):
        raise Violation(f'{what}: == gives {eq}, != gives {ne}')
      if bool(lt) + bool(eq) + bool(gt) != 1 or bool(le) != (bool(lt) or bool(eq)) or bool(ge) != (bool(gt) or bool(eq)):
        raise Violation(f'{what}: comparisons contradict each other: < {lt}, <= {le}, == {eq}, >= {ge}, > {gt}')
      if bool(lt) != bool(b > a):
        raise Violation(f'{what}: {a} < {b} is {lt} but {b} > {a} is {b > a}')
      if is_text(a) != is_text(b) and bool(lt) != is_text(b):
        raise Violation(f'{what}: a text must come after every number')
      if eq and is_text(a):
        if hash(a) != hash(b):
          raise Violation(f'{what}: equal but their hashes differ')
        case.seen('hash')
      case.seen('compared pair', (str(a), str(b)) if not eq else None)
  for a, ka in bag:
    for b, kb in bag:
      for c, kc in bag:
        if a < b and b < c and not a < c:
          raise Violation(f'order is not transitive: {a} < {b} < {c}')
  perm = [v for v, _ in bag]
  s1 = [read(v, T, 'outcome') for v in sorted(perm)]
  rng.shuffle(perm)
  s2 = [read(v, T, 'outcome') for v in sorted(perm)]
  if s1 != s2 and len({norm(k) for _, k in bag}) == len({k for _, k in bag}):
    raise Violation(f'sorting depends on the order given: {s1} and {s2}')


def arithmetic(case):
  rng, lib = case.rng, core.lib
  for _ in range(3):
    T = texts(rng)

    def some():
      f = [rng.choice(T) for _ in range(rng.randint(1, 2))] + [rng.randint(0, 3) for _ in range(rng.randint(0, 2))]
      rng.shuffle(f)
      return f
    fa, fb = some(), some()
    na, nb = rng.randint(1, 2), rng.randint(1, 2)
    a, b = lib.roll(na, lib.get_seq(*fa)), lib.roll(nb, lib.get_seq(*fb))
    r = rng.random()
    ea, eb = enum(fa, na), enum(fb, nb)
    if r < 0.4:
      got, what = a + b, f'roll({na}, {fa}) + roll({nb}, {fb})'
      want = {}
      for x, p in ea.items():
        for y, q in eb.items():
          k = add_keys(x, y)
          want[k] = want.get(k, 0) + p * q
      case.seen('sum', what)
    elif r < 0.7:
      n = rng.randint(1, 5)
      got, what = (a + n if rng.random() < 0.5 else n + a), f'roll({na}, {fa}) plus {n}'
      want = {}
      for x, p in ea.items():
        k = add_keys(x, ('n', n))
        want[k] = want.get(k, 0) + p
      case.seen('sum', what)
    else:
      ws = [rng.randint(1, 3), rng.randint(1, 3)]
      got, what = lib.RV.from_rvs([a, b], ws), f'mixture {ws} of roll({na}, {fa}) and roll({nb}, {fb})'
      ta, tb = sum(ea.values()), sum(eb.values())
      want = {}
      for e, w in ((ea, ws[0] * tb), (eb, ws[1] * ta)):
        for x, p in e.items():
          want[norm(x)] = want.get(norm(x), 0) + p * w
      case.seen('mixture', what)
    case.log(what)
    have = dist_of(got, T, what, normalise=True)
    if have != reduce_(want):
      raise Violation(f'{what}: observed {core.short(have)}, exact {core.short(reduce_(want))}')


def chains(case):
  """long sums over up to 9 different texts; every partial sum is looked at again at the end"""
  rng, lib = case.rng, core.lib
  T = rng.sample(WORDS, rng.randint(4, 9))
  dice = []
  for _ in range(rng.randint(4, 9)):
    f = [rng.choice(T) for _ in range(rng.choice([1, 1, 1, 2]))] + ([rng.randint(0, 3)] if rng.random() < 0.15 else [])
    dice.append((lib.roll(1, lib.get_seq(*f)), enum(f, 1), f'd{f}'))
  for _ in range(rng.randint(6, 10)):
    (a, ea, la), (b, eb, lb) = (dice[-1] if rng.random() < 0.7 else rng.choice(dice)), rng.choice(dice)
    if len(ea) * len(eb) > 60 or len(la) + len(lb) > 400:
      continue
    if rng.random() < 0.15:
      n = rng.randint(1, 4)
      b, eb, lb = n, {('n', n): 1}, str(n)
    if rng.random() < 0.3 and not isinstance(b, int):
      a, ea, la, b, eb, lb = b, eb, lb, a, ea, la
    x = a + b
    want = {}
    for k, p in ea.items():
      for j, q in eb.items():
        t = add_keys(k, j)
        want[t] = want.get(t, 0) + p * q
    dice.append((x, reduce_(want), f'({la} + {lb})'))
    case.seen('sum', f'{la} + {lb}')
  case.log('sums', *(l for _, _, l in dice))
  for x, e, l in dice:
    got = dist_of(x, T, l, normalise=True)
    want = {}
    for k, p in e.items():
      want[norm(k)] = want.get(norm(k), 0) + p
    if got != want:
      raise Violation(f'{l}: observed {core.short(got)}, exact {core.short(want)}')
    if any(k[0] == 't' and len(k[1]) > 3 for k in got):
      case.seen('four or more texts')


def structure(case):
  """positions and expansion of text pools agree with the order of the faces; text sequences hold what was given"""
  rng, lib = case.rng, core.lib
  f, T = faces_of(rng)
  n = rng.randint(1, 3)
  d = lib.roll(1, lib.get_seq(*f))
  pool = lib.roll(n, lib.get_seq(*f))
  vals = list(d.vals)
  rank = {}
  for i, v in enumerate(vals):
    rank[read(v, T, 'face')] = i
  face = model.Dist([(i, p) for i, p in enumerate(d.probs)])
  case.log(f'positions and expansion of roll({n}, {f})')
  for k in range(1, n + 1):
    got = k @ pool
    want = model.order_stats_positions(face, n, (k,)).reduced()
    have = reduce_({rank[read(v, T, 'position')]: p for v, p in zip(got.vals, got.probs)})
    if have != want:
      raise Violation(f'position {k} of roll({n}, {f}): observed {core.short(got)}')
    case.seen('position', (k, n, tuple(f)) if len(f) > 1 else None)
  seen = {}

  @lib.anydice_type_casting()
  def rec(S: lib.T_S):
    t = tuple(rank[read(v, T, 'element')] for v in S)
    seen[t] = seen.get(t, 0) + 1
    return 0
  rec(pool)
  exp = {t for t, _ in model.multisets(face, n)}
  if set(seen) != exp or any(c != 1 for c in seen.values()):
    raise Violation(f'expansion of roll({n}, {f}): combinations {core.short(seen)}')
  case.seen('sequence')
  s = lib.get_seq(*f)
  if len(s) != len(f) or [str(v) for v in s] != [str(v) for v in f]:
    raise Violation(f'sequence of {f} holds {[str(v) for v in s]}')
  mixed = [7, d, 'zz'][rng.randrange(2):][:rng.randint(1, 3)] if rng.random() < 0.7 else [d, d]
  rng.shuffle(mixed)
  s2 = lib.get_seq(*mixed) if rng.random() < 0.5 else lib.get_seq(mixed)
  exp2 = [str(x) for x in mixed if x is not d] + [str(v) for x in mixed if x is d for v in d.vals]
  if [str(v) for v in s2] != exp2:
    raise Violation(f'sequence of {core.short(mixed)} holds {[str(v) for v in s2]}, expected {exp2}')
  case.seen('die of texts in a sequence')
  for k in range(0, len(f) + 2):
    e = k @ s
    if 1 <= k <= len(f):
      if str(e) != str(f[k - 1]):
        raise Violation(f'position {k} of sequence {f} is {e}')
    elif e != 0:
      raise Violation(f'position {k} of sequence {f} is {e}')


WORKLOADS = {
  'rolls': (rolls, 6400, 64000, 25),
  'comparisons': (comparisons, 3200, 32000, 25),
  'arithmetic': (arithmetic, 4000, 40000, 25),
  'chains': (chains, 1200, 12000, 25),
  'structure': (structure, 3200, 32000, 25),
}
