"""Generators of AnyDice expressions and programs (ASTs of monitor.anydice)."""
from . import anydice as A
from .anydice import Machine
from .model import Unsupported

VARS = ['A', 'B', 'C', 'N', 'ROLL', 'X', 'Y', 'D', 'S', 'I', 'K', 'TMP', 'LONG_NAME', 'T_N', 'T_S', 'T_D', 'NO', 'OK', 'AB', 'A_B', 'Z_', 'XX', 'X_X', 'P', 'Q', 'RES', 'RV', 'E', 'O', 'M', 'TRUE', 'NONE']
UNDER = ['_A', '_', '_N_', '__X', '_ROLL', '_B', '__', '_D_', '_S', '__Y__', '_TOTAL', '___'] + VARS[:12]     # the restricted executor refuses names that start with _
WORDS = ['attack', 'roll', 'with', 'of', 'in', 'best', 'keep', 'drop', 'crit', 'target', 'pool', 'check', 'f', 'g', 'h', 'test', 'sum', 'min', 'max', 'reroll', 'a', 'b', 'n', 's', 'add', 'value']


def num(v):
  return ('num', str(v)) if v >= 0 else ('un', '-', ('num', str(-v)))


class Gen:
  """typed expression generator; env: {var: kind}, funcs: [(parts, kinds, result kind)]"""

  def __init__(self, rng, int_ops=False, floats=0.0):
    self.rng, self.int_ops, self.floats = rng, int_ops, floats
    self.funcs = []
    self.pend_calls = 0

  def pick(self, env, kind):
    v = [k for k, t in env.items() if t == kind]
    return ('var', self.rng.choice(v)) if v else None

  def expr(self, kind, depth, env):
    r = self.rng
    if depth <= 0 or r.random() < 0.12:
      return self.leaf(kind, env)
    if kind == 'x':
      kind = r.choices('nsd', (5, 2, 4))[0]
    return getattr(self, kind)(depth - 1, env)

  def leaf(self, kind, env):
    r = self.rng
    if kind == 'x':
      kind = r.choices('nsd', (5, 2, 4))[0]
    if kind == 'b':
      if r.random() < 0.5:
        return num(r.randint(0, 1))
      return ('bin', r.choice(['=', '!=', '<', '>', '<=', '>=']), self.leaf('n', env), self.leaf('n', env))
    if r.random() < 0.45:
      v = self.pick(env, kind)
      if v:
        return v
    if kind == 'n':
      if self.floats and r.random() < self.floats:
        return ('dec', str(r.randint(0, 9)), r.choice(['5', '25', '75', '0', '50', '125', '0625', '00', '03125', '000', '250', '0078125']))
      q = r.random()
      if q < 0.75:
        return ('num', str(r.randint(0, 9)))
      if q < 0.85:
        return ('num', str(r.choice([10, 12, 20, 100, 123, 305, 9876])))
      if q < 0.88:
        return ('num', r.choice(['00', '007', '010', '0', '0012']))
      if q < 0.92 and not self.floats:
        return self.large()
      return num(-r.randint(1, 5))
    if kind == 's':
      q = r.random()
      if q < 0.07:
        return ('seq', ())
      if q < 0.4:
        a = r.randint(-2, 4)
        return ('seq', (('range', num(a), num(a + r.randint(-1, 4))),))
      return ('seq', tuple(num(r.randint(-3, 7)) for _ in range(r.randint(1, 4))))
    q = r.random()
    if q < 0.25:
      return ('d', None, ('num', str(r.choice([1, 2, 3, 4, 6, 8]))))
    if q < 0.85:
      return ('d', ('num', str(r.randint(1, 3))), ('num', str(r.choice([2, 3, 4, 6]))))
    return ('d', ('num', str(r.randint(1, 2))), ('seq', tuple(num(r.randint(-3, 6)) for _ in range(r.randint(1, 4)))))

  def large(self):
    r = self.rng
    k = r.choice([4, 5, 6, 7, 9, 12, 15, 16, 17, 18, 19, 20, 25])
    q = r.random()
    if q < 0.5:
      return ('num', str(10 ** k + r.choice([-1, -1, 0, 1])))
    if q < 0.7:
      return ('num', str(2 ** r.choice([16, 31, 32, 53, 62, 63, 64]) + r.choice([-1, 0, 1])))
    return ('num', str(r.randint(1, 9)) + ''.join(r.choice('0123456789') for _ in range(k)))

  def n(self, depth, env):
    r, E = self.rng, self.expr
    q = r.random()
    if q < 0.03 and not self.floats:
      big = self.large() if r.random() < 0.7 else ('un', '-', self.large())
      if self.int_ops and r.random() < 0.7:
        return ('un', '#', big) if r.random() < 0.4 or big[0] == 'un' else ('bin', '@', num(r.randint(1, 20)) if r.random() < 0.6 else E('s', 0, env), big)
      return ('bin', r.choice(['+', '-', '*', '/', '=', '<', '>=']), *r.sample([big, E('n', 0, env)], 2))
    if q < 0.34:
      return ('bin', r.choice('++--**'), E('n', depth, env), E('n', depth, env))
    if q < 0.42:
      return ('bin', '/', E('n', depth, env), E('n', depth - 1, env))
    if q < 0.48:
      return ('bin', '^', E('n', depth, env), num(r.randint(0, 3)) if r.random() < 0.8 else E('n', depth - 1, env))
    if q < 0.58:
      k1, k2 = r.choice(['nn', 'nn', 'ns', 'sn', 'ss'])
      return ('bin', r.choice(['=', '!=', '<', '>', '<=', '>=']), E(k1, depth, env), E(k2, depth, env))
    if q < 0.66:
      if self.int_ops:
        k1, k2 = r.choice(['nn', 'bb', 'nb', 'ns', 'sn', 'ss'])
      else:
        k1, k2 = r.choice(['bb', 'bb', 'bb', 'ss', 'sn', 'ns'])
      return ('bin', r.choice('&|'), E(k1, depth, env), E(k2, depth, env))
    if q < 0.72:
      return ('un', r.choice('-+'), E(r.choice('nnns'), depth, env))
    if q < 0.80:
      k1 = r.choice('nns')
      k2 = 's'
      if self.int_ops and r.random() < 0.5:
        k2 = 'n'
      elif k1 == 's' and r.random() < 0.3:
        k2 = 'n'
      left = num(r.randint(0, 4)) if k1 == 'n' and r.random() < 0.7 else E(k1, depth - 1, env)
      return ('bin', '@', left, E(k2, depth, env))
    if q < 0.85:
      k = r.choice('sd' + ('nn' if self.int_ops else ''))
      return ('un', '#', E(k, depth - 1, env))
    if q < 0.88:
      return ('un', '!', E('n' if self.int_ops and r.random() < 0.7 else 's', depth, env))
    return self.callx('n', depth, env)

  def b(self, depth, env):
    r, E = self.rng, self.expr
    q = r.random()
    if q < 0.6:
      k1, k2 = r.choice(['nn', 'nn', 'ss'])
      return ('bin', r.choice(['=', '!=', '<', '>', '<=', '>=']), E(k1, depth, env), E(k2, depth, env))
    if q < 0.85:
      return ('bin', r.choice('&|'), E('b', depth, env), E('b', depth, env))
    return ('un', '!', E('s', depth, env))

  def s(self, depth, env):
    r, E = self.rng, self.expr
    q = r.random()
    if q < 0.75:
      el = []
      for _ in range(r.choice([1, 1, 2, 2, 3, 4])):
        t = r.random()
        if t < 0.6:
          el.append(E('n', depth, env))
        elif t < 0.75:
          el.append(('range', E('n', depth - 1, env), E('n', depth - 1, env)))
        elif t < 0.93:
          el.append(E('s', depth - 1, env))
        else:
          el.append(E('d', 0, env))
      return ('seq', tuple(el))
    return self.callx('s', depth, env)

  def d(self, depth, env):
    r, E = self.rng, self.expr
    q = r.random()
    if q < 0.22:
      k = r.choice('nnnnsd')
      x = ('num', str(r.choice([2, 3, 4, 6, 8]))) if k == 'n' and r.random() < 0.75 else E(k, depth - 1, env)
      if r.random() < 0.25:
        return ('d', None, x)
      k = r.choice('nnnnnsd')
      n = ('num', str(r.randint(1, 4))) if k == 'n' and r.random() < 0.8 else E(k, min(1, depth - 1), env)
      return ('d', n, x)
    if q < 0.5:
      a, b = r.choice([('d', 'n'), ('n', 'd'), ('d', 'd'), ('d', 's'), ('s', 'd')])
      return ('bin', r.choice('+++--**'), E(a, depth, env), E(b, depth - 1, env))
    if q < 0.56:
      return ('bin', '/', E(r.choice('dn'), depth, env), r.choice([num(r.randint(1, 4)), E('d', 0, env)]))
    if q < 0.6:
      return ('bin', '^', E('d', depth - 1, env), num(r.randint(0, 2)))
    if q < 0.72:
      a, b = r.choice([('d', 'n'), ('n', 'd'), ('d', 'd'), ('d', 's'), ('s', 'd')])
      return ('bin', r.choice(['=', '!=', '<', '>', '<=', '>=']), E(a, depth, env), E(b, depth - 1, env))
    if q < 0.79:
      a, b = r.choice([('d', 'n'), ('n', 'd'), ('d', 'd'), ('d', 's')])
      return ('bin', r.choice('&|'), E(a, depth, env), E(b, depth - 1, env))
    if q < 0.82:
      return ('un', r.choice('-+'), E('d', depth, env))
    if q < 0.9:
      return ('bin', '@', E(r.choice('ns'), 1, env) if r.random() < 0.4 else num(r.randint(1, 3)), E('d', depth - 1, env))
    return self.callx('d', depth, env)

  def callx(self, kind, depth, env):
    r, E = self.rng, self.expr
    user = [f for f in self.funcs if f[2] == kind]
    if user and r.random() < 0.6:
      return self.call_user(r.choice(user), depth, env)
    one = lambda: num(r.randint(1, 3))   # noqa: E731
    if kind == 'n':
      opts = [['absolute', E('n', depth, env)], [E('s', depth, env), 'contains', E('n', depth, env)], ['count', E(r.choice('sn'), depth, env), 'in', E('s', depth, env)],
              ['highest', 'of', E('n', depth, env), 'and', E('n', depth, env)], ['lowest', 'of', E('n', depth, env), 'and', E('n', depth, env)], ['maximum', 'of', E('d', depth - 1, env)]]
    elif kind == 's':
      opts = [['sort', E('s', depth, env)], ['reverse', E('s', depth, env)]]
    else:
      opts = [['highest', one(), 'of', E('d', 0, env)], ['lowest', one(), 'of', E('d', 0, env)], ['middle', one(), 'of', E('d', 0, env)], ['explode', E('d', depth - 1, env)],
              ['highest', 'of', E('d', depth - 1, env), 'and', E(r.choice('nd'), depth - 1, env)], ['lowest', 'of', E('n', depth, env), 'and', E('d', depth - 1, env)],
              ['count', E('s', depth, env), 'in', E('d', 0, env)], [E('d', 0, env), 'contains', E('n', depth, env)], ['absolute', E('d', depth - 1, env)]]
    if self.floats and kind in 'nd' and r.random() < 0.3:
      return ('call', ('true', 'div', E(kind, depth - 1, env), r.choice([num(2), num(2), num(4), num(1), ('d', None, ('num', '2')), ('seq', (num(1), num(3)))])))
    c = r.choice(opts)
    if c[0] in ('highest', 'lowest') and c[1] == 'of' and r.random() < 0.25:      # the same text twice
      c[-1] = c[2]
    return ('call', tuple(c))

  def call_user(self, f, depth, env):
    parts, kinds, _ = f
    it = iter(kinds)
    out = []
    for p in parts:
      if isinstance(p, str):
        out.append(p)
      else:
        k = next(it)
        if k == 'rec':
          out.append(num(self.rng.randint(0, 4)))
        else:
          out.append(self.expr(self.arg_kind(k), depth - 1, env))
    return ('call', tuple(out))

  def arg_kind(self, t):
    r = self.rng
    if r.random() < 0.7:
      return t
    return r.choice('nsd')


def evaluate(e, int_ops, env=None, lowest=False):
  m = Machine(int_ops)
  m.w.lowest_first = lowest
  return m.ev(e, env or {})


def supported_expr(g, kind, depth, env_kinds, env, tries=60):
  """an expression whose value the reference gives -> (ast, value) or None"""
  for _ in range(tries):
    e = g.expr(kind, depth, env_kinds)
    try:
      v = evaluate(e, g.int_ops, env)
    except Unsupported:
      continue
    except RecursionError:
      continue
    return e, v
  return None


def flat_tokens(rng, int_ops, names):
  """operand (operator operand)*, no brackets, any operators: the meaning is precedence alone"""
  out = []
  n = rng.choice([2, 3, 3, 4, 4, 5, 6, 7])
  some = None
  if rng.random() < 0.12:      # long chain of a few operators
    n, some = rng.choice([10, 15, 25, 40]), rng.sample(['+', '-', '*', '=', '<', '&', '|', '+', '-', '>='], 3)
  for i in range(n):
    if i:
      op = rng.choice(some) if some else rng.choice(['+', '-', '*', '/', '^', '@', '=', '!=', '<', '>', '<=', '>=', '&', '|', '+', '-', '*'])
      out += list(op) if op in ('<=', '>=') else [op]
    while rng.random() < 0.2:
      out.append(rng.choice('-+-#!' if int_ops else '-+-'))
    q = rng.random()
    if q < 0.45:
      out.append(str(rng.choice([0, 1, 1, 2, 3, 4, 5, 7, 12])))
    elif q < 0.6 and names:
      out.append(rng.choice(names))
    elif q < 0.72:
      out += ['{', str(rng.randint(0, 4)), ',', str(rng.randint(0, 4)), '}']
    elif q < 0.88:
      out += [str(rng.randint(1, 3)), 'd', str(rng.choice([2, 3, 4]))]
    else:
      out += ['d', str(rng.choice([2, 3, 4, 6]))]
  return out


# ---------------------------------------------------------------- programs

class ProgGen:
  def __init__(self, rng, int_ops=False, dynamic=False, floats=0.0):
    self.rng = rng
    self.g = Gen(rng, int_ops, floats)
    self.dynamic = dynamic      # functions may read and shadow their caller's variables
    self.counter = 0
    self.used = set()
    self.names = []
    self.shared = {}

  def newvar(self, prefix=None):
    r = self.rng
    for _ in range(50):
      v = r.choice(self.vars)
      if v not in self.used:
        self.used.add(v)
        return v
    self.counter += 1
    v = 'V' + ''.join('ABCDEFGHIJ'[int(c)] for c in str(self.counter))
    self.used.add(v)
    return v

  def program(self):
    r = self.rng
    out = []
    env = {}
    nf = r.choice([0, 1, 1, 2, 2, 3, 4])
    defs = []
    for _ in range(nf):
      outer = {v: r.choice('nnsd') for v in r.sample(self.vars, r.choice([0, 0, 1, 2, 3])) if v in self.shared or v not in self.used}   # variables of the callers
      outer = {v: k for v, k in outer.items() if self.shared.setdefault(v, k) == k}
      self.used |= set(outer)
      f = self.function(outer)
      defs.append(f)
      self.g.funcs.append(f[1])     # later ones may call it
    known, self.g.funcs = self.g.funcs, []
    order = list(defs)
    r.shuffle(order)                # so that bodies also call functions defined further down
    for f in order:
      if r.random() < 0.3:
        out += self.stmts(1, env, 2, True)
      out.append(f[0])
    for v, k in self.shared.items():
      out.append(('assign', v, self.g.leaf(k, {})))
      env[v] = k
    self.g.funcs = known
    out += self.stmts(r.randint(2, 6), env, 2, True)
    if defs and r.random() < 0.3:   # redefinition
      (k, ps, _), sig = r.choice(defs)
      inner = {p[0]: (p[1] or 'n') for p in ps if not isinstance(p, str)}
      self.g.funcs = []
      body = (('result', self.g.expr(sig[2], 2, inner)),)
      self.g.funcs = known
      out.append((k, ps, body))
      out.append(('output', self.g.call_user(sig, 2, env), None))
    if known and r.random() < 0.7:
      out.append(('output', self.g.call_user(r.choice(known), 2, env), self.label(env)))
    out.append(self.output(env))
    return tuple(out)

  def label(self, env):
    r = self.rng
    if r.random() < 0.4:
      return None
    parts = []
    for _ in range(r.randint(1, 4)):
      if env and r.random() < 0.45:
        parts.append(f'[{r.choice(list(env))}]')
      else:
        parts.append(r.choice(['damage', ' ', 'a b', '+', '2d6', ': ', '%', 'AC [x]', '(', ')', '{1}', '[', ']', '#', '\\', "it's", 'output', '[ A ]', 'x\\n', '{A}', '\u00e9']))
    s = ''.join(parts)
    return A.string_pieces(s)

  def alone(self, e):
    """sometimes as the only element of a sequence"""
    return ('seq', (e,)) if self.rng.random() < 0.1 else e

  def output(self, env):
    return ('output', self.g.expr(self.rng.choice('xxnd'), self.rng.randint(1, 3), env), self.label(env))

  def stmts(self, n, env, depth, top, fn=None):
    out = []
    for _ in range(n):
      out.append(self.stmt(env, depth, top, fn))
    return tuple(out)

  def stmt(self, env, depth, top, fn=None):
    r, g = self.rng, self.g
    q = r.random()
    if q < 0.33 or (not top and q < 0.45):
      k = r.choice('nnnsd')
      e = g.expr(k, r.randint(0, 3), env)
      if env and r.random() < 0.35:
        same = [v for v, t in env.items() if t == k and (fn is None or self.dynamic or v in fn['locals'])]
        if same:
          return ('assign', r.choice(same), e)
      v = self.newvar()
      if fn is not None:
        fn['locals'].add(v)
      env[v] = k
      return ('assign', v, e)
    if q < 0.62 and top:
      return self.output(env)
    if q < 0.8 and depth > 0:
      parts = []
      ladder = r.random() < 0.35 and (g.pick(env, 'n') or g.leaf('n', env))      # overlapping tests of one value: the first that holds counts
      for _ in range(r.choice([3, 4, 5, 6]) if ladder else r.choice([1, 1, 1, 2, 3])):
        if ladder:
          c = ('bin', r.choice(['>', '<', '>=', '<=', '!=', '=']), ladder, num(r.randint(-1, 8)))
        else:
          c = g.expr(r.choice('bbn'), r.randint(0, 2), env)
        parts.append((c, self.stmts(r.randint(0 if r.random() < 0.2 else 1, 2), dict(env), depth - 1, top, fn)))
      other = self.stmts(r.randint(0 if r.random() < 0.2 else 1, 2), dict(env), depth - 1, top, fn) if r.random() < 0.6 else None
      return ('if', tuple(parts), other)
    if q < 0.92 and depth > 0:
      v = self.newvar()
      if fn is not None:
        fn['locals'].add(v)
      inner = dict(env)
      inner[v] = 'n'
      seq = g.expr('s', r.randint(0, 1), env)
      if r.random() < 0.12:      # written out, with repetitions
        seq = ('seq', tuple(num(r.randint(-2, 4)) for _ in range(r.choice([5, 7, 9, 11]))))
      return ('loop', v, seq, self.stmts(r.randint(1, 3), inner, depth - 1, top, fn))
    if top and depth == 2:
      t = r.random()
      if t < 0.4:
        return ('set', A.string_pieces('explode depth'), num(r.randint(1, 3)))
      if t < 0.7:
        return ('set', A.string_pieces('maximum function depth'), num(r.choice([1, 2, 3, 5, 10, 12])))
      return ('set', A.string_pieces('position order'), A.string_pieces(r.choice(['highest first', 'lowest first', 'highest first'])))
    if fn is not None:
      return ('result', self.alone(g.expr(fn['kind'], r.randint(0, 2), env)))
    return self.output(env) if top else ('assign', self._local(fn, env, 'n'), g.expr('n', 1, env))

  def _local(self, fn, env, kind):
    v = self.newvar()
    if fn is not None:
      fn['locals'].add(v)
    env[v] = kind
    return v

  def fnname(self, nparams):
    r = self.rng
    for _ in range(100):
      words = [r.choice(self.words) for _ in range(r.choice([1, 1, 2, 3]))]
      parts = list(words)
      for _ in range(nparams):
        parts.insert(r.randint(0, len(parts)), None)
      nm = ' '.join(p or 'X' for p in parts)
      if nm not in self.names and nm not in A.LIBNAMES:
        self.names.append(nm)
        return parts
    raise AssertionError

  words = WORDS
  vars = VARS

  def function(self, outer):
    r, g = self.rng, self.g
    style = r.random()
    if style < 0.22:
      return self.recursive()
    np_ = r.choice([0, 1, 1, 2, 2, 3])
    parts = self.fnname(np_)
    env, kinds = dict(outer), []
    fn = dict(locals=set(), kind=r.choice('nnd'))
    ps = []
    for p in parts:
      if p is None:
        t = r.choice(['n', 'n', 's', 's', 'd', None])
        k = t or r.choice('nsd')
        if r.random() < 0.06 and fn['locals']:      # a repeated parameter: the first one counts
          ps.append((r.choice(sorted(fn['locals'])), t))
          kinds.append(k)
          continue
        v = self.newvar()
        ps.append((v, t))
        env[v] = k
        fn['locals'].add(v)
        kinds.append(k)
      else:
        ps.append(p)
    body = list(self.stmts(r.randint(0, 3), env, 2, False, fn))
    if r.random() < 0.9:
      body.append(('result', self.alone(g.call_user(r.choice(g.funcs), 1, env) if g.funcs and r.random() < 0.15 else g.expr(fn['kind'], r.randint(1, 3), env))))
    if r.random() < 0.06:
      body.append(('result', g.expr('n', 0, env)))     # never reached
    return ('func', tuple(ps), tuple(body)), (tuple(ps), kinds, fn['kind'])

  def recursive(self):
    """counts its number parameter down, with or without a base case (then the depth limit ends it)"""
    r, g = self.rng, self.g
    parts = self.fnname(1 if r.random() < 0.6 else 2)
    v = self.newvar()
    acc = None
    ps = []
    for p in parts:
      if p is None:
        if not any(x == (v, 'n') for x in ps):
          ps.append((v, 'n'))
        else:
          acc = self.newvar()
          ps.append((acc, r.choice(['n', None, 'd'])))
      else:
        ps.append(p)
    nxt = []
    for p in ps:
      if isinstance(p, str):
        nxt.append(p)
      elif p[0] == v:
        nxt.append(('bin', '-', ('var', v), ('num', '1')))
      else:
        nxt.append(('bin', r.choice('+-'), ('var', acc), ('num', str(r.randint(0, 3)))))
    rec = ('call', tuple(nxt))
    body = []
    if r.random() < 0.85:
      body.append(('if', ((('bin', r.choice(['<=', '<', '=']), ('var', v), ('num', '0')), (('result', ('var', acc) if acc and r.random() < 0.6 else ('num', str(r.randint(0, 3)))),)),), None))
    extra = r.choice([('num', str(r.randint(1, 5))), ('var', v), ('d', ('num', '1'), ('num', str(r.randint(2, 3)))), ('un', '-', ('var', v))])
    body.append(('result', r.choice([('bin', '+', extra, rec), ('bin', '-', rec, extra), ('bin', '*', ('num', '2'), rec), rec])))
    kinds = ['rec' if p[0] == v else 'n' for p in ps if not isinstance(p, str)]
    return ('func', tuple(ps), tuple(body)), (tuple(ps), kinds, 'd')


class LargeGen(ProgGen):
  """one dimension of the program far beyond what people write by hand"""

  def chain(self, n, env, ops='+-'):
    r = self.rng
    e = self.g.leaf('n', env)
    for _ in range(n):
      e = ('bin', r.choice(ops), e, self.g.leaf('n', env))
    return e

  def program(self):
    r, g = self.rng, self.g
    what = r.choice(['ladder', 'deep', 'params', 'functions', 'chain', 'label', 'sequence', 'statements', 'brackets', 'loops', 'calls', 'vars', 'unary', 'loop', 'words'])
    self.what = what
    out, env = [], {}
    for _ in range(r.randint(1, 4)):
      v = self.newvar()
      env[v] = 'n'
      out.append(('assign', v, num(r.randint(0, 9))))
    if what == 'ladder':
      n = r.choice([8, 12, 20, 40])
      v = r.choice(list(env))
      hit = r.randrange(n + 1)
      parts = [(('bin', '=', ('var', v), num(1000 + i)) if i != hit else num(1), (('output', num(i), None),)) for i in range(n)]
      st = ('if', tuple(parts), (('output', num(n), None),) if r.random() < 0.7 else None)
      if r.random() < 0.5:      # every branch is taken once
        w = self.newvar()
        parts = [(('bin', '=', ('var', w), num(i)), (('output', ('bin', '+', num(100 + i), ('var', v)), None),)) for i in range(n)]
        st = ('loop', w, ('seq', (('range', num(0), num(n)),)), (('if', tuple(parts), st[2]),))
      out.append(st)
    elif what == 'deep':
      n = r.choice([8, 12, 18])
      b = (self.output(env),)
      for i in range(n):
        b = (('if', ((num(r.choice([1, 1, 1, 2])), b + ((self.output(env),) if r.random() < 0.2 else ())),), None),) if r.random() < 0.7 else (('if', ((num(0), (('output', num(99), None),)),), b),)
      out += list(b)
    elif what == 'loops':
      b = (('output', self.chain(2, env), None),)
      vs = [self.newvar() for _ in range(r.choice([4, 6, 9]))]
      for i, v in enumerate(vs):
        b = (('loop', v, ('seq', (num(i),) if i else (num(1), num(2))), b),)
        env[v] = 'n'
      out += list(b)
      out.append(('output', num(0), A.string_pieces(' '.join(f'[{v}]' for v in vs))))
    elif what == 'loop':
      v, t = self.newvar(), self.newvar()
      out.append(('assign', t, num(0)))
      out.append(('loop', v, ('seq', (('range', num(r.randint(-5, 1)), num(r.choice([30, 70, 120, 100, 256, 300]))),) + ((num(3),) if r.random() < 0.5 else ())), (('assign', t, ('bin', '+', ('var', t), ('bin', '*', ('var', v), ('var', v)))),)))
      env[t] = env[v] = 'n'
      out.append(('output', ('bin', '+', ('var', t), ('var', v)), None))
    elif what in ('params', 'words'):
      n = r.choice([5, 7, 10, 15]) if what == 'params' else r.randint(1, 2)
      ps = [r.choice(self.words)]
      vs = []
      for i in range(n):
        v = self.newvar()
        vs.append(v)
        if r.random() < 0.5 or what == 'words':
          ps += [r.choice(self.words) for _ in range(r.choice([1, 1, 2]) if what == 'params' else r.choice([5, 10, 20]))]
        ps.append((v, r.choice(['n', 'n', 's', 'd', None])))
        if r.random() < 0.1:
          ps.append((r.choice(vs), r.choice(['n', 's', None])))
      n = sum(not isinstance(p, str) for p in ps)
      e = ('bin', '*', ('var', vs[0]), num(1))
      for v in vs[1:]:
        e = ('bin', '+', ('bin', '*', e, num(3)), ('bin', '*', ('var', v), num(1)))
      out.append(('func', tuple(ps), (('result', e),)))
      for _ in range(2):
        dice = r.sample(range(n), min(n, 2))
        it = iter(range(n))
        args = tuple(p if isinstance(p, str) else (('d', None, num(2)) if next(it) in dice and r.random() < 0.5 else num(r.randint(0, 9))) for p in ps)
        out.append(('output', ('call', args), None))
    elif what == 'functions':
      n = r.choice([12, 25, 40])
      names = set()
      while len(names) < n:
        names.add(tuple(r.choice(self.words) for _ in range(r.choice([1, 2, 2, 3]))))
      names = [x for x in sorted(names) if ' '.join(x) not in A.LIBNAMES]
      r.shuffle(names)
      for i, nm in enumerate(names):
        out.append(('func', nm + (('Q', 'n'),), (('result', ('bin', '+', ('bin', '*', ('var', 'Q'), num(2)), num(i))),)))
      for nm in names:
        out.append(('output', ('call', nm + (num(r.randint(0, 9)),)), None))
    elif what == 'chain':
      out.append(('output', self.chain(r.choice([20, 40, 70]), env, r.choice(['+-', '+', '-', '+-*', '|&' if self.g.int_ops else '+'])), None))
      c = [('bin', '=', self.g.leaf('n', env), self.g.leaf('n', env)) for _ in range(r.choice([9, 25]))]
      e = c[0]
      for x in c[1:]:
        e = ('bin', r.choice('&|'), e, x)
      out.append(('output', e, None))
      e = ('d', None, num(3))
      for _ in range(r.choice([8, 14])):
        e = ('bin', r.choice('+-'), e, r.choice([('d', None, num(2)), num(r.randint(0, 5))]))
      out.append(('output', e, None))
    elif what == 'label':
      parts = []
      for _ in range(r.choice([15, 40, 90])):
        parts.append(r.choice(['x', ' ', '+', '%', '{', '}', '[', ']', '\\', 'long text ', '[q]', "'"]) if r.random() < 0.5 else f'[{r.choice(list(env))}]')
      out.append(('output', num(1), A.string_pieces(''.join(parts))))
    elif what == 'sequence':
      s = ('seq', tuple(g.leaf('n', env) if r.random() < 0.8 else ('range', num(r.randint(0, 4)), num(r.randint(2, 9))) for _ in range(r.choice([20, 60, 150]))))
      out.append(('assign', 'SEQ', s))
      env['SEQ'] = 's'
      for e in (('bin', '*', ('var', 'SEQ'), num(1)), ('un', '#', ('var', 'SEQ')), ('bin', '@', num(r.randint(10, 60)), ('var', 'SEQ')), ('bin', '=', ('var', 'SEQ'), num(r.randint(0, 9))), ('d', num(1), ('var', 'SEQ'))):
        out.append(('output', e, None))
      t, w = self.newvar(), self.newvar()
      out += [('assign', t, num(0)), ('loop', w, ('var', 'SEQ'), (('assign', t, ('bin', '+', ('bin', '*', ('var', t), num(2)) if r.random() < 0.2 else ('var', t), ('var', w))),)), ('output', ('var', t), None)]
    elif what == 'statements':
      for i in range(r.choice([60, 150])):
        q = r.random()
        v = r.choice(list(env))
        if q < 0.6:
          out.append(('assign', v, ('bin', '+', ('var', r.choice(list(env))), num(i))))
        else:
          out.append(('output', ('var', v), self.label(env) if q < 0.8 else None))
    elif what == 'brackets':
      e = g.leaf('n', env)
      for _ in range(r.choice([10, 20, 30])):
        q = r.random()
        e = ('group', e) if q < 0.4 else ('bin', '-', num(r.randint(0, 9)), ('group', e)) if q < 0.7 else ('un', '-', ('group', e)) if q < 0.8 else ('bin', '*', ('seq', (e, num(1))), num(1))
      out.append(('output', e, None))
    elif what == 'unary':
      e = g.leaf('n', env)
      for _ in range(r.choice([5, 11, 20])):
        e = ('un', r.choice('-+'), e)
      out.append(('output', e, None))
    elif what == 'calls':
      e = num(r.randint(-9, 9))
      for _ in range(r.choice([8, 14])):
        e = ('call', r.choice([('absolute', ('bin', '-', e, num(r.randint(0, 5)))), ('highest', 'of', e, 'and', num(r.randint(-5, 9))), ('lowest', 'of', num(r.randint(-5, 9)), 'and', e), ('count', num(1), 'in', ('seq', (e, num(1))))]))
      out.append(('output', e, None))
    else:
      vs = [self.newvar() for _ in range(r.choice([26, 50]))]
      for i, v in enumerate(vs):
        out.append(('assign', v, num(i) if i < 3 or r.random() < 0.5 else ('bin', '+', ('var', r.choice(vs[:i])), num(i))))
      out.append(('output', num(0), A.string_pieces(' '.join(f'[{v}]' for v in vs))))
    out += list(self.stmts(r.randint(0, 2), env, 1, True))
    out.append(('output', self.chain(1, env), self.label(env)))
    return tuple(out)


def supported_program(rng, int_ops=False, dynamic=False, floats=0.0, words=None, tries=40, steps=3000, need=None, names=None, cls=None):
  """-> (ast, outputs, machine) or None"""
  for _ in range(tries):
    pg = (cls or ProgGen)(rng, int_ops, dynamic, floats)
    if words:
      pg.words = words
    if names:
      pg.vars = names
    prog = pg.program()
    m = Machine(int_ops, steps)
    try:
      outs = m.run(prog)
    except (Unsupported, RecursionError):
      continue
    m.what = getattr(pg, 'what', None)
    if outs:
      return prog, outs, m
  return None
