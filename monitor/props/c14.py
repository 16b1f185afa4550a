"""C14: results depend only on inputs and settings; existing values never change."""
import math
import os
import pickle

from .. import core, gen, obs, taps
from ..core import Injected, Violation

RULE = ('independence: an expression (rolls, operators, positions, mixtures, typed calls, library functions, text dice, reports, compiled programs, under random settings) is evaluated in a '
        'process forked before anything was computed and again after a hostile history in this process - look-alike expressions (equal numbers of another type, reordered or rescaled '
        'weights, other settings since restored), other expressions, programs, refused operations and faults injected into callbacks - and the complete observable results must be '
        'identical.  immutability: every value created so far (operands, python lists handed in, intermediate and final results) is re-observed after every operation, including its '
        'positions and its expansion.  Non-trivial: distinct expressions / operations.')
ASSUMPTIONS = ['the same settings are restored by setting them again or by settings_reset', 'an expression that raises must raise the same kind of error']
MUST_SEE = ('twins', 'late', 'compared', 'history step', 'lookalike', 'fault', 'program', 'live values rechecked', 'settings changed', 'near program')

FLAGS = {'COMPILER_FLAG_NON_LOCAL_SCOPE': False, 'COMPILER_FLAG_OPERATOR_ON_INT': False, 'COMPILER_FLAG_FUNC_LIB_CONFLICT': False, 'COMPILER_FLAG_FUNC_EXIST_CHECK': True}

OPS = ['+', '-', '*', '//', '/', '%', '**', '==', '!=', '<', '<=', '>', '>=', '&', '|']


UNARY = {'neg': lambda d: -d, 'pos': lambda d: +d, 'abs': abs, 'round': round, 'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'not': lambda d: ~d,
         'filter': lambda d: d.filter(1), 'filter seq': lambda d: d.filter(core.lib.Seq(1, 2)), 'cdf': lambda d: d.get_cdf(), 'wrap': lambda d: core.lib.roll(d), 'seq': lambda d: core.lib.Seq(d, 1),
         'get_seq': lambda d: core.lib.get_seq([d], d), 'D': lambda d: 2 * core.submodule('altcast').D * d}
LOOK = {'str': str, 'repr': repr, 'len': len, 'hash': hash, 'bool': bool, 'mean': lambda d: d.mean(), 'std': lambda d: d.std(), 'listing': lambda d: d.get_vals_probs(), 'cut': lambda d: d.get_vals_probs(0.3),
        'output': lambda d: d.output(print_=False), 'iterate': lambda d: list(d), 'contains': lambda d: core.lib.X_contains_X(d, 1), 'count': lambda d: core.lib.count_X_in_X(d, core.lib.Seq(1, 2)),
        'equal': lambda d: core.lib.RV.dices_are_equal(d, core.lib.roll(6)), 'sum': lambda d: d.sum(), 'item': lambda d: d[1], 'sums': lambda d: sum([d, d, 1]), 'sorted': lambda d: sorted(d), 'draw': lambda d: core.lib.roller(d, 4)}
DERIVE = {'get_seq': lambda s: core.lib.get_seq(s), 'get_seq list': lambda s: core.lib.get_seq([s]), 'Seq': lambda s: core.lib.Seq(s), 'sort': lambda s: core.lib.sort_X(s), 'reverse': lambda s: core.lib.reverse_X(s),
          'neg': lambda s: core.lib.Seq(-s), 'rewrap': lambda s: core.lib.Seq(*s)}


def apply_op(op, a, b):
  import operator as o
  return {'+': o.add, '-': o.sub, '*': o.mul, '//': o.floordiv, '/': o.truediv, '%': o.mod, '**': o.pow, '==': o.eq, '!=': o.ne, '<': o.lt, '<=': o.le, '>': o.gt, '>=': o.ge, '&': o.and_, '|': o.or_}[op](a, b)


# ---------------------------------------------------------------- expression descriptors

def num(rng):
  r = rng.random()
  if r < 0.75:
    return ('num', rng.randint(-3, 6))
  return ('num', float(rng.randint(-3, 6)) if r < 0.85 else rng.randint(-6, 12) / 2)


def faces(rng, k=None):
  k = k or rng.randint(1, 4)
  e = [rng.randint(-2, 5) for _ in range(k)]
  if rng.random() < 0.2:
    e = [float(x) for x in e]
  elif rng.random() < 0.15:
    e[0] = e[0] + 0.5
  return tuple(e)


def expr(rng, depth=3):
  if depth == 0:
    r = rng.random()
    if r < 0.2:
      return num(rng)
    if r < 0.35:
      return ('seq', faces(rng))
    if r < 0.6:
      f = tuple(dict.fromkeys(faces(rng)))
      return ('rv', f, tuple(rng.choice([0, 1, 1, 2, 3, 6]) if i else 1 for i in range(len(f))))
    if r < 0.9:
      return ('roll', ('num', rng.randint(1, 4)), ('num', rng.choice([2, 3, 4, 6, -3, 0])))
    return ('text', tuple(rng.sample(['a', 'b', '1', 'zz'], rng.randint(1, 2))) + ((rng.randint(0, 2),) if rng.random() < 0.4 else ()), rng.randint(1, 3))
  r = rng.random()
  if r < 0.3:
    return ('op', rng.choice(OPS), expr(rng, depth - 1), expr(rng, depth - 1))
  if r < 0.5:
    return ('roll', rng.choice([('num', rng.randint(-2, 6)), ('seq', (1, 1)), ('rv', (1, 2), (1, 2)), ('num', 2.5), expr(rng, 0)]), expr(rng, depth - 1))
  if r < 0.62:
    return ('at', rng.choice([1, 2, 3, (1, 2), (2, 2), (1, 3)]), expr(rng, depth - 1))
  if r < 0.7:
    return ('mix', tuple(expr(rng, depth - 1) for _ in range(2)), (rng.randint(1, 3), rng.randint(1, 3)))
  if r < 0.76:
    return ('un', rng.choice(list(UNARY)), expr(rng, depth - 1))
  if r < 0.86:
    return ('lib', rng.choice(['absolute_X', 'explode_X', 'maximum_of_X', 'sort_X', 'reverse_X']), expr(rng, depth - 1))
  if r < 0.9:
    return ('lib2', rng.choice(['highest_X_of_X', 'lowest_X_of_X', 'middle_X_of_X']), rng.randint(0, 3), expr(rng, depth - 1))
  if r < 0.93:
    if rng.random() < 0.4:
      return ('util', rng.choice(['myLen', 'myInvert']), num(rng) if rng.random() < 0.7 else expr(rng, depth - 1))
    return ('util', rng.choice(['myMatmul', 'myAnd', 'myOr', 'true_div_X_X']), num(rng), num(rng) if rng.random() < 0.6 else expr(rng, depth - 1))
  if r < 0.97:
    return ('call', rng.randrange(len(FUNCS)), expr(rng, depth - 1))
  if r < 0.985:      # the die is there before the setting
    return ('late', rng.choice(SET), rng.choice(['roll', 'roll', 'at', 'seq', 'report']), rng.randint(1, 3), expr(rng, depth - 1) if rng.random() < 0.3 else expr(rng, 0))
  return ('depth', rng.randint(1, 14))


def f_sum(lib):
  @lib.anydice_casting()
  def f(S: lib.T_S):
    return S.sum()
  return f


def f_first(lib):
  @lib.anydice_casting()
  def f(S: lib.T_S):
    return S[1] * 2 - S[2]
  return f


def f_even(lib):
  @lib.anydice_casting()
  def f(N: lib.T_N):
    if N % 2 == 0:
      return N
  return f


def f_die(lib):
  @lib.anydice_casting()
  def f(N: lib.T_N):
    return lib.roll(2, 2) if N > 2 else lib.Seq(N, 1)
  return f


def f_len(lib):
  @lib.anydice_casting()
  def f(X: lib.T_D):
    return len(X)
  return f


def f_zero(lib):
  """switches the sequence it is given to zero-based access"""
  @lib.anydice_casting()
  def f(S: lib.T_S):
    S.set_one_indexed(False)
    return S[0]
  return f


def f_many(lib):
  @lib.anydice_casting()
  def f(N: lib.T_N, S: lib.T_S, X: lib.T_D, rest=None):
    return N + S[1] - 1 @ X

  def g(a):
    if obs.is_die(a) and (len(a.vals) > 7 or len(a) > 3):
      raise TooBig()
    return f(a, S=a, X=a)
  return g


FUNCS = [f_sum, f_first, f_even, f_die, f_len, f_zero, f_many]
LIMIT = 400          # outcomes


def ev(x):
  lib = core.lib
  k = x[0]
  if k == 'num':
    return x[1]
  if k == 'seq':
    return lib.Seq(*x[1])
  if k == 'rv':
    return lib.RV(list(x[1]), list(x[2]))
  if k == 'text':
    return lib.roll(x[2], lib.get_seq(*x[1]))
  if k == 'roll':
    n = ev(x[1])
    d = ev(x[2])
    if obs.is_die(d) and (len(d.vals) > 40 or (obs.is_die(n) and max(n.vals) > 6) or (obs.is_ll(n) and abs(n) > 8) or (obs.is_seq(n) and abs(n.sum()) > 8)):
      raise TooBig()
    if obs.is_ll(d) and abs(d) > 100:
      raise TooBig()
    return lib.roll(n, d)
  if k == 'op':
    a, b = ev(x[2]), ev(x[3])
    if x[1] == '**':
      for v in (a, b):
        if max(abs(y) for y in (v.vals if obs.is_die(v) else [v.sum()] if obs.is_seq(v) else [v] if obs.is_ll(v) else [0])) > 12:
          raise TooBig()
    if obs.is_die(a) and obs.is_die(b) and len(a.vals) * len(b.vals) > 4000:
      raise TooBig()
    return apply_op(x[1], a, b)
  if k == 'at':
    d = ev(x[2])
    if obs.is_die(d) and len(d.vals) > 60:
      raise TooBig()
    return (lib.Seq(*x[1]) if isinstance(x[1], tuple) else x[1]) @ d
  if k == 'mix':
    ds = [ev(y) for y in x[1]]
    ds = [d.sum() if obs.is_seq(d) else d for d in ds]
    return lib.RV.from_rvs(ds, x[2])
  if k == 'un':
    d = ev(x[2])
    return UNARY[x[1]](d)
  if k == 'lib':
    d = ev(x[2])
    big(d)
    return getattr(lib, x[1])(d)
  if k == 'lib2':
    d = ev(x[3])
    big(d)
    return getattr(lib, x[1])(x[2], d)
  if k == 'util':
    a = [ev(y) for y in x[2:]]
    for d in a:
      big(d)
    return getattr(lib, x[1])(*a)
  if k == 'call':
    d = ev(x[2])
    big(d)
    return FUNCS[x[1]](lib)(d)
  if k == 'late':
    d = ev(x[4])
    big(d)
    if x[1]:
      lib.settings_set(*x[1])
    if x[2] == 'at':
      return x[3] @ d if not obs.is_ll(d) else d
    if x[2] == 'seq':
      return FUNCS[0](lib)(d)
    if x[2] == 'report':
      return lib.Seq(len(lib.output(d, print_=False)))
    return lib.roll(x[3], d)
  if k == 'depth':
    hits = []

    @lib.anydice_casting()
    def down(N):
      hits.append(N)
      if N < x[1]:
        return down(N + 1) + 1
      return 0
    r = down(1)
    return lib.Seq(len(hits), r if obs.is_ll(r) else -1)
  raise AssertionError(x)


def big(d):
  if obs.is_die(d):
    n = len(d)
    if len(d.vals) > 60 or n > 6:
      raise TooBig()


class TooBig(Exception):
  pass


SET = [('position order', 'lowest first'), ('explode depth', 1), ('explode depth', 3), ('maximum function depth', 3), ('RV_TRUNC', True), ('RV_IGNORE_ZERO_PROBS', True), ('DEFAULT_OUTPUT_WIDTH', 40), ('DEFAULT_OUTPUT_WIDTH', 90)]


def evaluate(x, settings, report=False):
  """complete observable result of an expression under settings, from reset settings"""
  lib = core.lib
  lib.settings_reset()
  for k, v in settings:
    lib.settings_set(k, v)
  try:
    r = ev(x)
    s = deep(r)
    if report:
      s += (lib.output(r, named='r', print_=False), lib.output(r, print_=False), repr(r), lib.output(r, print_=False, cdf_cut=0 if obs.is_blank(r) or not obs.is_die(r) else 20))
    return s
  except (core._Timeout, KeyboardInterrupt, MemoryError):
    raise
  except TooBig:
    return ('too big',)
  except Exception as e:
    return ('raised', type(e).__name__)
  finally:
    lib.settings_reset()


def strv(v):
  return v if isinstance(v, (int, float)) else repr(v)


def deep(r):
  s = obs.snap(r)
  if obs.is_die(r):
    s = ('die', tuple(strv(v) for v in r.vals), tuple(type(v).__name__ for v in r.vals), tuple(r.probs), len(r), str(r))
    if len(r.vals) <= 40 and len(r) <= 4:
      for k in (1, len(r)):
        o = k @ r
        s += ((tuple(strv(v) for v in o.vals), tuple(o.probs)) if obs.is_die(o) else (o,),)
  elif obs.is_seq(r):
    s = ('seq', tuple(strv(v) for v in r), tuple(type(v).__name__ for v in r), len(r), str(r), tuple(strv(r[i]) for i in (0, 1, 2, len(r))))
  return s


def fresh(fn):
  """run fn() in a forked child, return its pickled result"""
  rfd, wfd = os.pipe()
  pid = os.fork()
  if pid == 0:
    code = 1
    try:
      os.close(rfd)
      data = pickle.dumps(fn())
      while data:
        data = data[os.write(wfd, data):]
      code = 0
    except BaseException as e:
      try:
        os.write(wfd, pickle.dumps(('child failed', repr(e))))
        code = 0
      except BaseException:
        pass
    finally:
      os._exit(code)
  os.close(wfd)
  chunks = []
  while True:
    b = os.read(rfd, 1 << 16)
    if not b:
      break
    chunks.append(b)
  os.close(rfd)
  os.waitpid(pid, 0)
  return pickle.loads(b''.join(chunks))


def lookalike(rng, x):
  """same shape, slightly different content: int/float twins, rescaled or permuted weights, another count"""
  if isinstance(x, tuple) and x and x[0] == 'num':
    r = rng.random()
    if x[1] in (0, 1) and r < 0.25:
      return ('num', bool(x[1]))
    if r < 0.5 and float(x[1]).is_integer():
      return ('num', int(x[1]) if isinstance(x[1], float) else float(x[1]))
    return x
  if isinstance(x, tuple) and x and x[0] == 'seq':
    e = list(x[1])
    r = rng.random()
    if r < 0.5:
      e = [float(v) for v in e] if all(isinstance(v, int) for v in e) else [int(v) if float(v).is_integer() else v for v in e]
    elif r < 0.7:
      rng.shuffle(e)
    return ('seq', tuple(e))
  if isinstance(x, tuple) and x and x[0] == 'rv':
    v, w = list(x[1]), list(x[2])
    r = rng.random()
    if r < 0.3:
      v = [float(y) for y in v] if all(isinstance(y, int) for y in v) else [int(y) if float(y).is_integer() else y for y in v]
    elif r < 0.5:
      w = [p * 3 for p in w]
    elif r < 0.7:
      w = w[::-1] if any(w[::-1]) else w
    elif r < 0.85:
      v, w = v + [77], w + [0]
    return ('rv', tuple(v), tuple(w))
  if isinstance(x, tuple) and x and x[0] == 'late':
    return ('late', rng.choice([None, x[1], rng.choice(SET)]), x[2], x[3], x[4] if rng.random() < 0.7 else lookalike(rng, x[4]))
  if isinstance(x, tuple):
    return tuple(lookalike(rng, y) if isinstance(y, tuple) and y and isinstance(y[0], (str, tuple)) and y[0] in ('num', 'seq', 'rv', 'roll', 'op', 'at', 'mix', 'un', 'lib', 'lib2', 'util', 'call', 'late') else
                 (tuple(lookalike(rng, z) for z in y) if isinstance(y, tuple) and y and isinstance(y[0], tuple) else y) for y in x)
  return x


def subexprs(x, out):
  if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in ('num', 'seq', 'rv', 'roll', 'op', 'at', 'mix', 'un', 'lib', 'lib2', 'util', 'call', 'text', 'depth', 'late'):
    out.append(x)
  if isinstance(x, tuple):
    for y in x:
      subexprs(y, out)
  return out


def fault(case, rng):
  """an operation that fails, or a callback that raises at a random call"""
  lib = core.lib
  case.seen('fault')
  r = rng.randrange(9)
  try:
    if r == 0:
      lib.RV([1, 2], [1])
    elif r == 1:
      lib.settings_set('explode depth', 0)
    elif r == 2:
      lib.roll(lib.RV([0.5], [1]), 6)
    elif r == 3:
      lib.roll(3, 6) // lib.RV([0, 1], [1, 1])
    elif r == 4:
      k = rng.randint(1, 6)
      calls = []

      @lib.anydice_casting()
      def boom(N: lib.T_N):
        calls.append(N)
        if len(calls) >= k:
          raise Injected('fault in callback')
        return N
      boom(lib.roll(6))
    elif r == 5:
      n = rng.randint(1, 9)

      @lib.anydice_casting()
      def nest(N):
        if N >= n:
          raise Injected('fault at depth')
        return nest(N + 1)
      nest(0)
    elif r == 6:
      lib.roll(2, 4) @ lib.roll(2, 4)
    elif r == 7:
      core.submodule('parser.parse_and_exec').compile_anydice(rng.choice(['output', 'output 3d6 named "x', 'A: $', 'output [nope 1]']))
    else:
      taps.run_program(rng.choice(['output 1/0', 'function: f A:n { result: 1/A } output [f {0..2}] output [f d{0,1}]']), None)
  except (core._Timeout, KeyboardInterrupt, MemoryError):
    raise
  except Exception:
    pass


def history(case):
  """expressions: fresh process vs hostile history"""
  rng = case.rng
  todo = []
  for _ in range(6):
    x = expr(rng, rng.choice([1, 2, 2, 3]))
    st = tuple(rng.sample(SET, rng.choice([0, 0, 0, 1, 2])))
    rep = rng.random() < 0.3
    todo.append((x, st, rep))
  refs = fresh(lambda: [evaluate_fresh(t) for t in todo])
  if refs and refs[0] == 'child failed':
    raise RuntimeError(refs[1])
  order = list(range(len(todo)))
  rng.shuffle(order)
  for i in order:
    x, st, rep = todo[i]
    if refs[i] == ('too big',):
      continue
    for _ in range(rng.randint(2, 6)):
      r = rng.random()
      case.seen('history step')
      if r < 0.45:
        y = lookalike(rng, x)
        if rng.random() < 0.3:
          y = rng.choice(subexprs(y, []))
        s2 = tuple(rng.sample(SET, rng.choice([0, 1, 1, 2])))
        evaluate(y, s2, rng.random() < 0.5)
        case.seen('lookalike')
        if s2:
          case.seen('settings changed')
      elif r < 0.6:
        evaluate(expr(rng, 2), tuple(rng.sample(SET, rng.choice([0, 1]))))
      elif r < 0.75:
        evaluate(x, tuple(rng.sample(SET, rng.choice([1, 2]))), rng.random() < 0.5)
        case.seen('settings changed')
      else:
        fault(case, rng)
    got = evaluate(x, st, rep)
    case.log(f'{x} under {st}')
    if got != refs[i]:
      raise Violation(f'{x} under settings {st}: fresh process gives {core.short(refs[i])}, after this history {core.short(got)}')
    case.seen('compared', (x, st) if got[0] != 'raised' else None)


def evaluate_fresh(t):
  """each expression from its own fork, so that they do not see each other"""
  return fresh(lambda: evaluate(*t))


def _tw():
  """operations on one value, each a complete observation"""
  lib, fac, D = core.lib, core.submodule('factory'), core.submodule('altcast').D
  return {
    'len': lib.myLen, 'not': lib.myInvert, 'digit': lambda v: lib.myMatmul(1, v), 'digits': lambda v: lib.myMatmul(v, 120), 'and': lambda v: lib.myAnd(v, 1), 'or': lambda v: lib.myOr(0, v), 'div': lambda v: lib.true_div_X_X(v, 2),
    'const': lambda v: fac.get_rv(v), 'seq': lambda v: lib.Seq(v, 5), 'get_seq': lambda v: lib.get_seq([v, [5]]), 'rv': lambda v: lib.RV([v, 7], [1, 2]), 'roll': lambda v: lib.roll(v, 6), 'faces': lambda v: lib.roll(2, v), 'list': lambda v: lib.roll(2, [v, 3]),
    'D': lambda v: v * D * 4, 'add': lambda v: lib.roll(2) + v, 'radd': lambda v: v + lib.roll(2), 'mul': lambda v: lib.roll(2) * v, 'sub': lambda v: v - lib.roll(2, 3), 'cmp': lambda v: lib.roll(2) == v, 'seq cmp': lambda v: lib.Seq(1, 2) >= v, 'at': lambda v: v @ lib.Seq(5, 6),
    'at die': lambda v: v @ lib.roll(3, 4), 'at seq': lambda v: lib.Seq(1) @ v, 'mix': lambda v: lib.RV.from_rvs([v, lib.roll(2)]), 'filter': lambda v: lib.roll(3).filter(v), 'absolute': lib.absolute_X, 'contains': lambda v: lib.X_contains_X(lib.Seq(1, 2), v), 'count': lambda v: lib.count_X_in_X(v, lib.Seq(1, 1.0, 0)),
    'highest': lambda v: lib.highest_X_of_X(v, lib.roll(3, 4)), 'middle': lambda v: lib.middle_X_of_X(v, lib.roll(3, 4)), 'larger': lambda v: lib.highest_of_X_and_X(v, 0), 'sort': lambda v: lib.sort_X(lib.Seq(v, 0.5)), 'reverse': lambda v: lib.reverse_X([v, 3]), 'max': lambda v: lib.maximum_of_X(v), 'explode': lambda v: lib.explode_X(v),
    'output': lambda v: lib.output(v, print_=False, named=str(v)), 'output die': lambda v: lib.output(lib.RV([v], [1]), print_=False), 'range': lambda v: tuple(lib.myrange(v, 3)), 'number': lambda v: FUNCS[0](lib)(v), 'half': lambda v: lib.roll(v / 2, 4), 'text': lambda v: lib.roll(2, lib.get_seq(v, 'a')),
  }


TWINS = [(1, True, 1.0), (0, False, 0.0, -0.0), (2, 2.0), (-1, -1.0, -2), (3, 3.0), (10 ** 15, 1e15), (1, 1 + 1e-12), ('1', 1)]


def once(f, v):
  core.lib.settings_reset()
  try:
    r = _tw()[f](v)
    return deep(r) if not isinstance(r, (tuple, str, bool)) else (type(r).__name__, repr(r))
  except (core._Timeout, KeyboardInterrupt, MemoryError):
    raise
  except Exception as e:
    return ('raised', type(e).__name__)


def twins(case):
  """values that compare equal, one after another in one process, and each in a process of its own"""
  rng = case.rng
  tasks = []
  for f in rng.sample(sorted(_tw()), 6):
    tw = rng.choice(TWINS[:-2] if rng.random() < 0.9 else TWINS)
    if max(v for v in tw if not isinstance(v, str)) > 1000 and f in ('roll', 'faces', 'D', 'half', 'range', 'highest', 'middle', 'digits', 'explode', 'at die', 'text'):
      tw = TWINS[0]
    tasks += [(f, v) for v in tw]
  refs = fresh(lambda: [fresh(lambda: once(*t)) for t in tasks])
  if refs and refs[0] == 'child failed':
    raise RuntimeError(refs[1])
  order = [i for i in range(len(tasks)) for _ in (0, 1)]
  rng.shuffle(order)
  for i in order:
    f, v = tasks[i]
    case.log(f'{f} of {v!r}')
    got = once(f, v)
    if got != refs[i]:
      raise Violation(f'{f} of {v!r}: a fresh process gives {core.short(refs[i])}, after operations on equal values {core.short(got)}')
    case.seen('twins', (f, repr(v)))


def late(case):
  """one die used before and after a setting is made, against processes that only know one of the two"""
  rng = case.rng
  tasks = []
  for _ in range(3):
    f = tuple(rng.sample(range(-1, 6), rng.randint(2, 4)))
    die = ('rv', f, tuple(rng.choice([0, 1, 2, 3]) for _ in f[1:]) + (1,)) if rng.random() < 0.7 else ('roll', ('num', rng.randint(1, 3)), ('num', rng.choice([3, 4])))
    op, k = rng.choice(['roll', 'roll', 'at', 'seq', 'report']), rng.randint(1, 4)
    if rng.random() < 0.4:
      die = ('roll', ('num', 2), die)
    st = rng.choice(SET)
    tasks += [('late', s, op, k, die) for s in (None, st, rng.choice(SET))]
  refs = fresh(lambda: [fresh(lambda: evaluate(x, ())) for x in tasks])
  if refs and refs[0] == 'child failed':
    raise RuntimeError(refs[1])
  order = [i for i in range(len(tasks)) for _ in (0, 1)]
  rng.shuffle(order)
  for i in order:
    case.log(f'{tasks[i]}')
    got = evaluate(tasks[i], ())
    if got != refs[i]:
      raise Violation(f'{tasks[i]}: a fresh process gives {core.short(refs[i])}, after the same under other settings {core.short(got)}')
    case.seen('late', tasks[i])


def programs(case):
  rng = case.rng
  progs = taps.corpus()
  ps = [progs[(case.index * 3 + i * 37) % len(progs)] for i in range(3)]
  label = rng.choice(['a b', 'a  b', ' a b', 'A b', '3d6', 'x y  z', 'e\u0301', '\\t', 'a {b}'])
  ps = [dict(p, src=p['src'] + f'\noutput 3d6 named "{label}"') for p in ps]

  def near(p):
    """the same program except for something small"""
    s = p['src']
    r = rng.randrange(7)
    if r == 6:      # the same text under other options
      o = dict(p.get('flags') or {})
      for k in rng.sample(list(FLAGS), rng.randint(1, 2)):
        o[k] = not o.get(k, FLAGS[k])
      return dict(p, flags=o)
    if r == 0:
      s = s.replace(f'named "{label}"', f'named "{rng.choice(["a b", "a  b", " a b", "A b", label.lower(), label + " "])}"')
    elif r == 1:
      s = s.replace('output 3d6 named', rng.choice(['output 3d7 named', 'output 4d6 named', 'output 3d6+0 named', 'output 3d{1..6} named', 'output 3d6/1 named', 'set "position order" to "lowest first" output 3d6 named']))
    elif r == 2:
      s = 'set "maximum function depth" to 3\n' + s
    elif r == 3:
      s = 'set "explode depth" to 1\n' + s
    elif r == 4:
      s = s.upper() if '"' not in s[:-20] and rng.random() < 0.3 else s + ' '
    else:
      k = rng.choice([k for k, c in enumerate(s) if c in '23456789'])
      s = s[:k] + str(rng.randint(1, int(s[k]) - 1)) + s[k + 1:]
      if rng.random() < 0.5:
        s = s + 'output 1'
    return dict(p, src=s)

  def run(p):
    core.lib.settings_reset()
    try:
      code, outs = taps.run_program(p['src'], p.get('flags'))
      return ('ok', code, tuple((deep(v), n) for v, n in outs))
    except (core._Timeout, KeyboardInterrupt, MemoryError):
      raise
    except Exception as e:
      return ('raised', type(e).__name__)
    finally:
      core.lib.settings_reset()
  refs = [fresh(lambda p=p: run(p)) for p in ps]
  for i, p in enumerate(ps):
    for _ in range(rng.randint(1, 3)):
      case.seen('history step')
      r = rng.random()
      if r < 0.2:
        fault(case, rng)
      elif r < 0.55:
        run(near(p))
        case.seen('near program')
      elif r < 0.7:
        evaluate(expr(rng, 2), tuple(rng.sample(SET, 1)))
      else:
        run(rng.choice(ps))
    q = dict(p, flags={**FLAGS, **(p.get('flags') or {})}) if rng.random() < 0.5 else p      # options spelt out
    got = run(q)
    case.log(f'program {p["name"]}')
    if got != refs[i]:
      raise Violation(f'program {p["name"]}: fresh process gives {core.short(refs[i][2:] if refs[i][1:2] == got[1:2] else refs[i])}, after this history {core.short(got[2:])}')
    case.seen('program', p['name'])


# ---------------------------------------------------------------- immutability

class Live:
  """registry of every value and its content when it appeared"""

  def __init__(self, case):
    self.case, self.items = case, []

  def add(self, v, where):
    if obs.is_die(v) or obs.is_seq(v) or isinstance(v, (list, dict)) or obs.is_blank(v):
      if not any(v is y for y, _, _ in self.items):
        self.items.append((v, self.content(v), where))
    return v

  def content(self, v):
    s = deep(v) if not isinstance(v, (list, dict)) else obs.snap(v)
    if obs.is_die(v) and len(v) <= 3 and len(v.vals) <= 12:
      got = []

      @core.lib.anydice_type_casting()
      def rec(S: core.lib.T_S):
        got.append((tuple(strv(y) for y in S), strv(S[1]), strv(S[len(S)]), len(S), strv(S.sum())))
        return 0
      rec(v)
      s += (tuple(got),)
    if obs.is_die(v):
      try:
        s += (v.mean(), v.std())
      except TypeError:
        pass
    return s

  def recheck(self, what):
    for v, s, where in self.items:
      now = self.content(v)
      if now != s:
        raise Violation(f'{what} changed an existing value ({where}): was {core.short(s)}, now {core.short(now)}')
    self.case.seen('live values rechecked', n=len(self.items))


def immutability(case):
  rng, lib = case.rng, core.lib
  live = Live(case)
  halves = [(k, k * core.submodule('altcast').D) for k in (rng.choice([-1, 0, 1, 2, 3, 5]) for _ in range(2))]      # roll expressions begun but not finished
  vals = []
  for _ in range(4):
    vals.append(live.add(gen.die(rng, 4)[0], 'start'))
    vals.append(live.add(gen.pool(rng, 3, 3)[0], 'start'))
  vals.append(live.add(gen.seq(rng, 4)[0], 'start'))
  vals.append(live.add(lib.Seq(1, 2), 'start'))
  if rng.random() < 0.3:      # sums of these are scaled down
    h = lib.RV([1, 2, 3], [rng.randint(10 ** 14, 10 ** 16) for _ in range(3)])
    vals.append(live.add(h, 'start'))
    vals.append(live.add(lib.roll(rng.randint(2, 3), h), 'start'))
  for step in range(18):
    a, b = rng.choice(vals), rng.choice(vals)
    r = rng.random()
    what = '?'
    try:
      if obs.is_seq(a) and rng.random() < 0.2:
        nm = rng.choice(list(DERIVE))
        what = f'{nm} of {core.short(a, 80)}, switched to zero-based access'
        DERIVE[nm](a).set_one_indexed(False)
        out = None
      elif r < 0.12:
        nm = rng.choice(list(UNARY))
        what = f'{nm} of {core.short(a, 80)}'
        out = UNARY[nm](a)
      elif r < 0.2:
        nm = rng.choice(list(LOOK))
        what = f'{nm} of {core.short(a, 80)}'
        LOOK[nm](a)
        out = None
      elif r < 0.28:
        n = rng.randint(-1, 3)
        what = f'roll({n}, {core.short(a, 80)})'
        out = lib.roll(n, a)
      elif r < 0.33:
        what = f'roll({core.short(a, 80)})'
        out = lib.roll(a)
      elif r < 0.4:
        e = [rng.randint(1, 4), [rng.randint(1, 3)], a]
        live.add(e, 'list operand')
        what = f'roll(2, list with {core.short(a, 80)})'
        out = lib.roll(2, e)
      elif r < 0.6:
        op = rng.choice(OPS)
        what = f'{core.short(a, 80)} {op} {core.short(b, 80)}'
        c = b if rng.random() < 0.7 else rng.randint(1, 3)
        if op == '**' and any(abs(v) > 9 for y in (a, c) for v in (y.vals if obs.is_die(y) else y if obs.is_seq(y) else [y] if obs.is_ll(y) else [])):
          op = '*'
        out = apply_op(op, a, c)
      elif r < 0.7:
        k = rng.choice([1, 2, lib.Seq(1, 2)])
        what = f'{k} @ {core.short(a, 80)}'
        out = k @ a
      elif r < 0.76:
        what = 'mix'
        out = lib.RV.from_rvs([a if not obs.is_seq(a) else 1, b if not obs.is_seq(b) else 2, None], [1, 2, 1])
      elif r < 0.84:
        what = f'typed call on {core.short(a, 80)}'
        f = rng.choice(FUNCS)
        if f is f_zero and not obs.is_die(a):
          f = f_sum
        if obs.is_die(a) and rng.random() < 0.3:
          what, kept = what + ' that keeps what it got', []

          @lib.anydice_casting()
          def keep(S: lib.T_S):
            kept.append(S)
            return S
          out = keep(a)
          for x in kept[:3]:
            live.add(x, what)
        else:
          out = f(lib)(a)
      elif r < 0.9:
        nm = rng.choice(['explode_X', 'sort_X', 'reverse_X', 'maximum_of_X', 'absolute_X'])
        what = f'{nm}({core.short(a, 80)})'
        out = getattr(lib, nm)(a)
      elif r < 0.96:
        what = f'report/draw of {core.short(a, 80)}'
        lib.output(a, print_=False)
        lib.roller(a, 3)
        if obs.is_die(a):
          a.get_vals_probs(0.1)
          a.get_cdf()
          hash(a)
        out = None
      else:
        what = 'fault'
        fault(case, rng)
        out = None
    except (core._Timeout, KeyboardInterrupt, MemoryError):
      raise
    except Exception as e:
      out, what = None, what + f' (raised {type(e).__name__})'
    case.log(what)
    live.recheck(what)
    case.seen('operation', what)
    if obs.is_die(out) and not all(isinstance(v, (int, float)) and abs(v) < 1e12 for v in out.vals):
      continue
    if out is not None:
      live.add(out, what)
      if (obs.is_die(out) and len(out.vals) <= 40 and len(out) <= 4) or (obs.is_seq(out) and len(out) <= 6):
        vals.append(out)
  for k, h in halves + [halves[0]]:
    f = rng.randint(2, 8)
    got = h * f
    if deep(got) != deep(lib.roll(k, f)):
      raise Violation(f'({k} * D) * {f}, begun before {core.short([x for x, _ in halves])} and finished later, is {core.short(got)}')


WORKLOADS = {
  'history': (history, 250, 3000, 1),
  'twins': (twins, 120, 1200, 1),
  'late': (late, 150, 1500, 1),
  'programs': (programs, 38, 380, 1),
  'immutability': (immutability, 250, 4000, 10),
}
