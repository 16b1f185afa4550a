"""Reference model of dice, sequences and the AnyDice operations, written from the properties'
text: integer-weight distributions and plain enumeration.  Shares no code with the library.

Model values:  int/float (numbers, bools for comparison results), Seq (tuple of numbers),
Die (distribution plus how many dice were rolled), Blank."""
import math
import operator
from functools import reduce
from itertools import product

LIMIT = 10 ** 30      # below this total weight the library works with exact weights


DECIMALS = [False]     # a decimal occurred as outcome in the current case


class Unsupported(Exception):
  """the operation is outside what the properties specify"""


def _key(v):
  return v


class Dist:
  """immutable outcome -> positive int weight"""
  __slots__ = ('w', '_tot', 'floaty')

  def __init__(self, pairs, floaty=False):
    d = {}
    self.floaty = floaty      # some outcome was computed as a decimal
    for v, p in (pairs.items() if isinstance(pairs, dict) else pairs):
      if isinstance(v, bool):
        v = int(v)
      elif isinstance(v, float):
        self.floaty = DECIMALS[0] = True
      if p:
        d[v] = d.get(v, 0) + p
    self.w = d
    self._tot = None

  @property
  def total(self):
    if self._tot is None:
      self._tot = sum(self.w.values())
    return self._tot

  def reduced(self):
    g = reduce(math.gcd, self.w.values(), 0)
    return {v: p // g for v, p in self.w.items()} if g > 1 else dict(self.w)

  def __len__(self):
    return len(self.w)

  def items(self):
    return self.w.items()

  def sorted(self):
    return sorted(self.w.items())

  def map(self, f):
    return Dist([(f(v), p) for v, p in self.w.items()], self.floaty)

  def combine(self, other, f):
    out, fl = {}, self.floaty or other.floaty
    for a, p in self.w.items():
      for b, q in other.w.items():
        r = f(a, b)
        if isinstance(r, bool):
          r = int(r)
        elif isinstance(r, float):
          fl = DECIMALS[0] = True
        out[r] = out.get(r, 0) + p * q
    return Dist(out, fl)

  def power_sum(self, n):
    """sum of n independent copies, n >= 0"""
    if n == 0:
      return Dist({0: 1})
    out = self
    for _ in range(n - 1):
      out = out.combine(self, operator.add)
      if len(out) > 20000:
        raise Unsupported('too many outcomes')
    return out


def mix(parts):
  """parts: list of (weight, Dist) -> Dist of the weighted average of the probabilities"""
  parts = [(w, d) for w, d in parts if w]
  lcm = reduce(lambda a, b: a * b // math.gcd(a, b), (d.total for _, d in parts), 1)
  out = {}
  for w, d in parts:
    f = lcm // d.total * w
    for v, p in d.w.items():
      out[v] = out.get(v, 0) + p * f
  return Dist(out, any(d.floaty for _, d in parts))


class Die:
  """distribution; n dice of `face` when it is a roll of n identical dice (n >= 1)"""
  __slots__ = ('dist', 'n', 'face', 'text', 'big')

  def __init__(self, dist, n=1, face=None, text=(1, '{?}'), big=False):
    self.dist = dist if isinstance(dist, Dist) else Dist(dist)
    self.n = n
    self.face = face if face is not None else self.dist
    self.text = text
    self.big = big or self.dist.total > LIMIT

  def __repr__(self):
    return f'MDie({dict(self.dist.sorted()) if len(self.dist) < 20 else len(self.dist)}, n={self.n})'


class Seq(tuple):
  def __repr__(self):
    return 'MSeq' + tuple.__repr__(self)


class Blank:
  def __init__(self, special=False):
    self.special = special

  def __repr__(self):
    return 'MBlank' + ('*' if self.special else '')


BLANK = Blank()


def is_num(x):
  return isinstance(x, (int, float))


def unary_order(v):
  return v


# ---------------------------------------------------------------- joint rolls

def order_stats_positions(face, n, positions, lowest_first=False):
  """exact Dist of the sum of the dice at the given positions (1-based, repeated ones count again)
  among n rolls of face sorted highest first.  Method: dynamic programming over faces from the
  highest down, choosing how many dice show that face (multinomial weights)."""
  cnt = {}
  for p in positions:
    if 1 <= p <= n:
      q = n - p + 1 if lowest_first else p
      cnt[q] = cnt.get(q, 0) + 1
  pre = [0] * (n + 1)
  for i in range(1, n + 1):
    pre[i] = pre[i - 1] + cnt.get(i, 0)
  faces = sorted(face.w.items(), reverse=True)
  states = {(0, 0): 1}          # (dice placed so far, sum) -> weight
  for idx, (v, w) in enumerate(faces):
    new = {}
    for (k, s), c in states.items():
      left = n - k
      rng = (left,) if idx == len(faces) - 1 else range(left + 1)
      for j in rng:
        m = pre[k + j] - pre[k]
        s2 = s + v * m if m else s
        key = (k + j, s2)
        new[key] = new.get(key, 0) + c * math.comb(left, j) * w ** j
    states = new
    if len(states) > 400000:
      raise Unsupported('order statistics too large')
  return Dist([(s, c) for (k, s), c in states.items() if k == n], face.floaty)


def multisets(face, n):
  """every combination of n faces: (tuple sorted high to low, weight)"""
  faces = sorted(face.w.items(), reverse=True)
  out = []

  def rec(i, left, pref, weight):
    if i == len(faces) - 1:
      v, w = faces[i]
      out.append((pref + (v,) * left, weight * w ** left))
      return
    v, w = faces[i]
    for j in range(left, -1, -1):
      rec(i + 1, left - j, pref + (v,) * j, weight * math.comb(left, j) * w ** j)
  rec(0, n, (), 1)
  return out


# ---------------------------------------------------------------- sequences

def flatten(x):
  """numbers in order, then the outcomes of the dice (each distinct outcome once, increasing)"""
  nums, dice = [], []

  def rec(y):
    if isinstance(y, Die):
      dice.append(y)
    elif isinstance(y, Blank):
      pass
    elif isinstance(y, (list, tuple, range)):
      for z in y:
        rec(z)
    elif is_num(y):
      nums.append(y)
    else:
      raise Unsupported(f'element {y!r}')
  rec(x)
  for d in dice:
    nums.extend(sorted(d.dist.w))
  return Seq(nums)


def seq_cmp(op, a, b):
  if op == '!=':
    return not seq_cmp('=', a, b)
  f = CMP[op]
  n = max(len(a), len(b))
  inf = float('-inf')
  return all(f(a[i] if i < len(a) else inf, b[i] if i < len(b) else inf) for i in range(n))


CMP = {'=': operator.eq, '!=': operator.ne, '<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}
SWAP = {'=': '=', '!=': '!=', '<': '>', '<=': '>=', '>': '<', '>=': '<='}
ARITH = {'+': operator.add, '-': operator.sub, '*': operator.mul, '//': operator.floordiv, '/': operator.truediv, '%': operator.mod, '**': operator.pow}
LOGIC = {'&': lambda x, y: 1 if (x and y) else 0, '|': lambda x, y: 1 if (x or y) else 0}
MAX_OUT = 30000


class World:
  """evaluates operations; holds the settings"""

  def __init__(self, int_ops=False):
    self.int_ops = int_ops
    self.reset()
    self.work = 0

  def reset(self):
    self.lowest_first = False
    self.explode_depth = 2
    self.max_depth = 10
    self.depth = 0
    self.notices = 0

  def spend(self, n):
    self.work += n
    if self.work > 3_000_000:
      raise Unsupported('too much work')

  # -------------------------------------------------- operators
  def binop(self, op, a, b):
    try:
      r = self._binop(op, a, b)
    except (ZeroDivisionError, OverflowError, ValueError) as e:
      raise Unsupported(f'{type(e).__name__}')
    if isinstance(r, complex) or (isinstance(r, float) and not math.isfinite(r)):
      raise Unsupported('not a real number')
    if isinstance(r, int) and abs(r) > 10 ** 60:
      raise Unsupported('huge number')
    return r

  def _binop(self, op, a, b):
    if isinstance(a, Blank) or isinstance(b, Blank):
      return self._blank(op, a, b)
    if op in CMP:
      if isinstance(a, Seq) and isinstance(b, Seq):
        return seq_cmp(op, a, b)
      if isinstance(a, Seq) and is_num(b):
        return sum(1 for x in a if CMP[op](x, b))
      if isinstance(b, Seq) and is_num(a):
        return sum(1 for x in b if CMP[SWAP[op]](x, a))
      f = CMP[op]
      g = lambda x, y: 1 if f(x, y) else 0    # noqa: E731
      if is_num(a) and is_num(b):
        return f(a, b)
    elif op in LOGIC:
      g = LOGIC[op]
      a, b = self._sum(a), self._sum(b)
      if is_num(a) and is_num(b):
        return g(a, b)
    else:
      g = ARITH[op]
      if op == '**':
        g = _pow
    a, b = self._sum(a), self._sum(b)
    if is_num(a) and is_num(b):
      return g(a, b)
    big = (isinstance(a, Die) and a.big) or (isinstance(b, Die) and b.big)
    if is_num(a):
      d = b.dist.map(lambda y: g(a, y))
    elif is_num(b):
      d = a.dist.map(lambda x: g(x, b))
    else:
      self.spend(len(a.dist) * len(b.dist))
      d = a.dist.combine(b.dist, g)
    return self.die(d, big=big)

  def die(self, d, **kw):
    if any(isinstance(v, complex) or (isinstance(v, float) and not math.isfinite(v)) or abs(v) > 10 ** 60 for v in d.w):
      raise Unsupported('outcome not usable')
    if len(d) > MAX_OUT:
      raise Unsupported('too many outcomes')
    return Die(d, **kw)

  def _sum(self, x):
    return sum(x) if isinstance(x, Seq) else x

  def _blank(self, op, a, b):
    if (isinstance(a, Blank) and a.special) or (isinstance(b, Blank) and b.special):
      raise Unsupported('special blank')
    if op == '+' or op == '|':
      if isinstance(a, Blank) and isinstance(b, Blank):
        return BLANK
      return b if isinstance(a, Blank) else a
    if op == '-':
      if isinstance(b, Blank):
        return a
      return self.neg(b)
    return BLANK

  def neg(self, x):
    if isinstance(x, Blank):
      if x.special:
        raise Unsupported('special blank')
      return x
    x = self._sum(x)
    if is_num(x):
      return -x
    return self.die(x.dist.map(lambda v: 0 - v), big=x.big)

  def pos(self, x):
    if isinstance(x, Blank) or isinstance(x, Die):
      return x
    return +self._sum(x)

  def lnot(self, x):
    if isinstance(x, Seq):
      return 1 if sum(x) == 0 else 0
    if is_num(x):
      if not self.int_ops:
        raise Unsupported('! on a number without the option')
      if isinstance(x, float):
        raise Unsupported('! on a decimal')
      return 1 if x == 0 else 0
    if isinstance(x, Blank) and not x.special:
      return x
    raise Unsupported('! on dice')

  def length(self, x):
    if isinstance(x, Seq):
      return len(x)
    if isinstance(x, Die):
      if x.n is None:
        raise Unsupported('length of such a roll')
      return x.n
    if isinstance(x, Blank):
      if x.special:
        raise Unsupported('special blank')
      return 0
    if not self.int_ops or isinstance(x, float):
      raise Unsupported('# on a number')
    return len(str(abs(int(x))))

  def at(self, k, x):
    if isinstance(k, (Die, Blank)):
      raise Unsupported('die as position')
    if isinstance(k, Seq):
      if not all(isinstance(i, int) for i in k):
        raise Unsupported('decimal position')
    elif not isinstance(k, int):
      raise Unsupported('decimal position')
    if isinstance(x, Blank):
      if x.special:
        raise Unsupported('special blank')
      return x
    if isinstance(x, Die):
      if x.n is None:
        raise Unsupported('positions of such a roll')
      ks = tuple(k) if isinstance(k, Seq) else (k,)
      self.spend(len(x.face) * x.n * x.n * 4)
      if isinstance(k, Seq) and len(k) > 1 and math.comb(len(x.face) + x.n - 1, x.n) > 60000:
        raise Unsupported('too many combinations')
      d = order_stats_positions(x.face, x.n, ks, self.lowest_first)
      r = self.die(d, big=x.big or Dist(x.face.w).total ** x.n > LIMIT)
      if not isinstance(k, Seq) or len(k) == 1:
        if not 1 <= ks[0] <= x.n:
          return 0
      return r
    if isinstance(x, Seq):
      if isinstance(k, Seq):
        return sum(x[i - 1] if 1 <= i <= len(x) else 0 for i in k)
      return x[k - 1] if 1 <= k <= len(x) else 0
    # number: decimal digits
    if isinstance(x, float) or x < 0:
      raise Unsupported('digits of such a number')
    dig = [int(c) for c in str(int(x))]
    if isinstance(k, Seq):
      return sum(dig[i - 1] if 1 <= i <= len(dig) else 0 for i in k)
    if not self.int_ops:
      raise Unsupported('number @ number without the option')
    return dig[k - 1] if 1 <= k <= len(dig) else 0

  # -------------------------------------------------- rolling
  def roll(self, n, d):
    """d: what is rolled, n: how many; n=1 for the one-argument form"""
    if isinstance(d, Blank):
      return BLANK
    if isinstance(n, Blank):
      return Blank(True)
    if isinstance(n, float):
      n = math.ceil(n)
    if isinstance(n, bool):
      n = int(n)
    if isinstance(d, bool):
      d = int(d)
    if isinstance(d, float):
      d = Seq((d,))
    if isinstance(d, Seq) and len(d) == 0:
      return BLANK
    ntext = n if isinstance(n, int) else (sum(n) if isinstance(n, Seq) else 0)
    if isinstance(d, int):
      dtext = d
      if abs(d) > MAX_OUT:
        raise Unsupported('too many sides')
      if d > 0:
        face = Die(Dist([(i, 1) for i in range(1, d + 1)]))
      elif d == 0:
        face = Die(Dist({0: 1}))
      else:
        face = Die(Dist([(i, 1) for i in range(d, 0)]))
    elif isinstance(d, Seq):
      dtext = '{?}'
      face = Die(Dist([(v, 1) for v in d]))
    else:
      dtext = d.text[1] if d.text[0] == 1 and isinstance(d.text[1], int) else '{?}'
      face = d
    if isinstance(n, Seq):
      n = sum(n)
      if not isinstance(n, int):
        raise Unsupported('decimal number of dice')
    if isinstance(n, Die):
      if not all(isinstance(v, int) for v in n.dist.w):
        raise Unsupported('decimal number of dice')
      parts = [(w, self.roll_n(v, face)) for v, w in n.dist.sorted()]
      d = mix([(w, x.dist) for w, x in parts])
      return self.die(d, text=(0, dtext), big=n.big or face.big or any(x.big for _, x in parts) or _mix_big([(w, x.dist) for w, x in parts]))
    r = self.roll_n(n, face)
    return Die(r.dist, n=r.n, face=r.face, text=(ntext, dtext), big=r.big)

  def roll_n(self, n, face):
    if abs(n) > 3000:
      raise Unsupported('too many dice')
    spread = (max(face.dist.w) - min(face.dist.w)) if len(face.dist) > 1 else 0
    if n and abs(n) > 1:
      self.spend(int(min(abs(n) * abs(n) * len(face.dist) * len(face.dist) / 2, abs(n) * abs(n) * (spread + 1) * len(face.dist) / 2)))
    if n == 0:
      return Die(Dist({0: 1}), n=None)
    if n == 1:
      return Die(face.dist, n=face.n, face=face.face, big=face.big)
    if n < 0:
      return Die(face.dist.power_sum(-n).map(lambda v: 0 - v), n=None, big=face.big)
    d = face.dist.power_sum(n)
    if len(d) > MAX_OUT:
      raise Unsupported('too many outcomes')
    return Die(d, n=n, face=face.dist, big=face.big)

  # -------------------------------------------------- typed calls
  def as_die(self, x):
    if is_num(x):
      return Die(Dist({x: 1}))
    if isinstance(x, Seq):
      return Die(Dist([(v, 1) for v in x]) if len(x) else Dist({0: 1}))
    return x

  def call(self, func, types, args):
    """func(*values) evaluated for every joint outcome; types: 'n' 's' 'd' or None per argument"""
    args = list(args)
    bigarg = any(isinstance(a, Die) and a.big for a in args)
    hard = []
    for i, t in enumerate(types):
      a = args[i]
      if t is None:
        continue
      if isinstance(a, Blank):
        if t in 'ns':
          return Blank(True)
        continue
      if t == 'n':
        if isinstance(a, Seq):
          args[i] = sum(a)
        elif isinstance(a, Die):
          hard.append((i, sorted(a.dist.w.items())))
      elif t == 's':
        if is_num(a):
          args[i] = Seq((a,))
        elif isinstance(a, Die):
          if a.n is None:
            raise Unsupported('faces of such a roll')
          if a.n == 1:
            hard.append((i, [(Seq((v,)), w) for v, w in sorted(a.face.w.items())]))
          else:
            if math.comb(len(a.face) + a.n - 1, a.n) > 20000:
              raise Unsupported('too many combinations')
            ms = multisets(a.face, a.n)
            if self.lowest_first and len(a.face) > 1:
              raise Unsupported('dice as sequence, lowest first')
            hard.append((i, [(Seq(v), w) for v, w in ms]))
      elif t == 'd':
        args[i] = self.as_die(a)
    if not hard:
      return func(*args)
    total = math.prod(len(h[1]) for h in hard)
    if total > 4000:
      raise Unsupported('too many joint outcomes')
    parts = []
    for combo in product(*(h[1] for h in hard)):
      w = 1
      for (i, _), (v, p) in zip(hard, combo):
        args[i] = v
        w *= p
      self.spend(50)
      r = func(*args)
      if r is None or isinstance(r, Blank):
        continue
      if isinstance(r, list):
        r = Seq(r)
      parts.append((w, self.as_die(self._sum(r))))
    if not parts:
      return BLANK
    big = any(d.big for _, d in parts) or bigarg or _mix_big([(w, d.dist) for w, d in parts])
    d = mix([(w, x.dist) for w, x in parts])
    self.spend(sum(len(x.dist) for _, x in parts))
    return self.die(d, big=big)

  # -------------------------------------------------- library
  def lib(self, name, args, depth=None):
    f, types = LIB[name]
    if name == 'explode X':
      return self.call(lambda die: self._explode(die, self.explode_depth if depth is None else depth), types, args)
    return self.call(lambda *a: f(self, *a), types, args)

  def _explode(self, die, depth):
    if isinstance(die, Blank):
      raise Unsupported('explode blank')
    m = max(die.dist.w)

    def go(k):
      if k == 0:
        return die.dist
      rest = go(k - 1)
      parts = []
      for v, w in die.dist.w.items():
        parts.append((w, rest.map(lambda x: v + x) if v == m else Dist({v: 1})))
      return mix(parts)
    d = go(depth)
    return self.die(d, big=die.big or die.dist.total ** (depth + 1) > 10 ** 25)


def _mix_big(parts):
  # the library multiplies all the totals together before reducing
  p = 1
  for w, d in parts:
    p *= d.total
    if p > 10 ** 25:
      return True
  return sum(w for w, _ in parts) * p > 10 ** 25


def _pow(a, b):
  if isinstance(b, float) and abs(b) > 64 or isinstance(b, int) and abs(b) > 64:
    raise Unsupported('large exponent')
  return a ** b


def _lib_highest(w, n, dice):
  _intn(n)
  return w.at(Seq(range(1, n + 1)), _d(dice))


def _d(dice):
  if isinstance(dice, Blank):
    raise Unsupported('blank dice in library call')
  return dice


def _intn(n):
  if not isinstance(n, int):
    raise Unsupported('decimal count')
  if n > 60:
    raise Unsupported('large count')


def _lib_lowest(w, n, dice):
  _intn(n)
  ln = w.length(_d(dice))
  return w.at(Seq(range(ln - n + 1, ln + 1)), dice)


def _lib_middle(w, n, dice):
  _intn(n)
  ln = w.length(_d(dice))
  if n == ln:
    return dice
  if n == 1:
    return w.at(1 + (ln - 1) // 2, dice)
  fr = 1 + (ln - n) // 2
  return w.at(Seq(range(fr, fr + n)), dice)


def _lib_count(w, values, seq):
  return sum(1 for v in values for s in seq if v == s)


def _lib_maximum(w, die):
  return max(_d(die).dist.w)


LIB = {
  'absolute X': (lambda w, n: abs(n), 'n'),
  'X contains X': (lambda w, s, n: 1 if n in s else 0, 'sn'),
  'count X in X': (_lib_count, 'ss'),
  'explode X': (None, 'd'),
  'highest X of X': (_lib_highest, 'nd'),
  'lowest X of X': (_lib_lowest, 'nd'),
  'middle X of X': (_lib_middle, 'nd'),
  'highest of X and X': (lambda w, a, b: max(a, b), 'nn'),
  'lowest of X and X': (lambda w, a, b: min(a, b), 'nn'),
  'maximum of X': (_lib_maximum, 'd'),
  'reverse X': (lambda w, s: Seq(s[::-1]), 's'),
  'sort X': (lambda w, s: Seq(sorted(s, reverse=True)), 's'),
}


# ---------------------------------------------------------------- descriptions

def describe(x):
  if isinstance(x, Blank):
    if x.special:
      raise Unsupported('special blank')
    return 'd{}'
  if isinstance(x, Seq):
    return '{?}'
  if is_num(x):
    return str(x)
  s, d = x.text
  if isinstance(s, float) or isinstance(d, float):
    return 'd{?}'
  lhs = str(abs(s)) if abs(s) > 1 else ''
  if isinstance(d, int):
    if s * d == 0:
      return f'{lhs}d{{0..0}}'
    return ('-' if s * d < 0 else '') + lhs + 'd' + str(abs(d))
  if s == 0:
    return 'd{0..0}'
  return lhs + 'd{?}'


# ---------------------------------------------------------------- exact moments
def mean_var(dist):
  from fractions import Fraction
  t = dist.total
  m = sum(Fraction(v) * p for v, p in dist.w.items()) / t
  return m, sum((Fraction(v) - m) ** 2 * p for v, p in dist.w.items()) / t
