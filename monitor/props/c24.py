"""C24: executing generated code - every way, isolated, and confined by the restricted executor."""
import contextlib
import io
import sys
import warnings

from .. import anydice as A
from .. import core, obs, progen, taps
from ..core import Injected, Skip, Violation
from . import c17, c20

RULE = ('random programs compiled and executed in every documented way (both executors, exec with the runtime dictionary, exec after "from dice_calc import *"): the recorded or printed outputs must be the same and those of the reference '
        'interpreter; histories of runs that define and override variables, functions and runtime names, pass extra names, run programs inside programs, raise errors: every run must give what the program gives alone, and the caller\'s '
        'dictionary, the runtime dictionary and the library must be unchanged; hostile Python code (imports, builtins, underscore names and attributes directly, by getattr and by formatting, writes to the library) in random wrappings given to the '
        'restricted executor under an audit hook: it must raise before any forbidden event.  Non-trivial: distinct programs, histories and attacks.')
ASSUMPTIONS = ['labels do not show comparison results (known finding of C17)', 'settings made by a program are not undone by the executor', 'attacks are harmless if they succeed (nonexistent paths, unused modules)',
               'attacks through the modules math, random, itertools, functools handed to the program are not judged']
MUST_SEE = ('restricted executor', 'plain executor', 'runtime dictionary', 'import everything', 'printed report', 'isolation', 'undefined in a later run', 'caller names', 'nested run', 'error raised', 'attack refused', 'harmless code runs')


def pe():
  return core.submodule('parser.parse_and_exec')


def settings():
  return core.submodule('settings')


def everything():
  """what `from dice_calc import *` puts in a namespace"""
  g = {}
  exec('from dice_calc import *', g)
  return g


def printed_by(code, g):
  """exec with the library's own output function; -> reports, standard output"""
  got, out = [], io.StringIO()
  settings().settings_set('DEFAULT_PRINT_FN', got.append)
  with contextlib.redirect_stdout(out):
    exec(code, g)
  return got, out.getvalue()


def flags_for(rng, int_ops):
  flags = {c17.OPT: True} if int_ops else {}
  for f in ('COMPILER_FLAG_NON_LOCAL_SCOPE', 'COMPILER_FLAG_FUNC_LIB_CONFLICT'):
    if rng.random() < 0.3:
      flags[f] = True
  return flags


def report(value, label):
  f = core.lib.output
  return f(value, named=label, print_=False) if label is not None else f(value, print_=False)


def ways(case):
  rng = case.rng
  int_ops = rng.random() < 0.4
  floats = 0.1 if rng.random() < 0.3 else 0
  r = progen.supported_program(rng, int_ops, floats=floats)
  if not r:
    raise Skip('no supported program found')
  prog, want, m = r
  flags = flags_for(rng, int_ops)
  tx = A.render(prog, rng, rng.choice(['plain', 'tight', 'wild']))
  case.log('flags', flags, 'program:\n' + tx)
  code = pe().compile_anydice(tx, dict(flags))
  case.log('code:\n' + code)
  kinds = ['plain executor', 'restricted executor', 'runtime dictionary', 'import everything']
  rng.shuffle(kinds)
  for k in kinds:
    settings().settings_reset()
    if k == 'plain executor' or k == 'restricted executor':
      out = io.StringIO()
      with contextlib.redirect_stdout(out):
        raw = (pe().safe_exec if k == 'restricted executor' else pe().unsafe_exec)(code)
      if not isinstance(raw, list):
        raise Violation(f'{k}: returned {core.short(raw)}, not the list of outputs')
      if out.getvalue() and not m.w.notices:
        raise Violation(f'{k}: something was printed: {out.getvalue()[:200]!r}')
      outs = [(a[0], kw.get('named')) for a, kw in raw]
      c17.compare(case, k, outs, want, bool(floats))
    else:
      got, out = printed_by(code, pe()._get_lib() if k == 'runtime dictionary' else everything())
      if out and not m.w.notices:
        raise Violation(f'{k}: {out[:200]!r} printed beside the configured print function')
      if len(got) != len(want):
        raise Violation(f'{k}: {len(got)} reports printed, {len(want)} outputs in the program')
      # the reports are those of the values the program has (their text is C11's business)
      settings().settings_reset()
      vals = pe().unsafe_exec(code)
      for i, (g, (a, kw)) in enumerate(zip(got, vals)):
        w = report(a[0], kw.get('named'))
        if g != w:
          raise Violation(f'{k}: report {i} is {g!r}, expected {w!r}')
        case.seen('printed report')
    case.seen(k, tx)


def steps(case):
  """the individual compile steps give what the whole pipeline gives"""
  rng = case.rng
  r = progen.supported_program(rng, False)
  if not r:
    raise Skip('no supported program found')
  flags = flags_for(rng, False)
  P = core.submodule('parser')
  lexer, yaccer = P.build_lex_yacc()
  n = rng.randint(1, 3)
  for i in range(n):
    if i:
      r = progen.supported_program(rng, False) or r
    tx = A.render(r[0], rng, 'plain')
    case.log('program:\n' + tx)
    if i == 0 or rng.random() < 0.5:
      lexer, yaccer = P.build_lex_yacc()
    P.do_lex(tx, lexer)
    tree = P.do_yacc(tx, lexer, yaccer)
    a = P.do_resolve(tree, flags=dict(flags))
    b = P.compile_anydice(tx, dict(flags))
    if a != b:
      raise Violation(f'the steps give\n{a}\nthe pipeline gives\n{b}')
    case.seen('steps', tx)


NAMES = ['A', 'B', 'HP', 'RV', 'T', 'X', 'Q_Q', 'LEVEL', 'D', 'C']
RUNTIME = ['roll', 'get_seq', 'myrange', 'explode_X', 'highest_X_of_X', 'absolute_X', 'settings_set', 'anydice_casting', 'math', 'RV', 'Seq', 'T_N', 'sort_X', 'output']


def run_one(code, safe, g=None):
  f = pe().safe_exec if safe else pe().unsafe_exec
  return f(code, g) if g is not None else f(code)


def same_as(v):
  return type(v).__name__, getattr(v, '__module__', None), getattr(v, '__qualname__', getattr(v, '__name__', None))


def plain(outs):
  return [(a, kw) for a, kw in outs]


def isolation(case):
  """a history of runs, each with names of its own; no run sees another's"""
  rng = case.rng
  lib0 = pe()._get_lib()
  before = {k: same_as(v) for k, v in lib0.items()}
  steps_ = rng.randint(4, 12)
  defined = set()
  for _ in range(steps_):
    safe = rng.random() < 0.5
    what = rng.choice(['define', 'define', 'read', 'read', 'override', 'override python', 'probe', 'caller', 'error', 'nested'])
    case.log(what, 'safe' if safe else '')
    if what == 'define':
      n, v = rng.choice(NAMES), rng.randint(-9, 99)
      w = rng.randint(1, 5)
      fn = rng.random() < 0.5
      src = f'{n}: {v}\n' + (f'function: bump K:n {{ result: K + {w} }}\n' if fn else '') + f'output {n}\n' + (f'output [bump {n}]' if fn else '')
      outs = run_one(pe().compile_anydice(src), safe)
      if [a for a, _ in outs] != [(v,)] + ([(v + w,)] if fn else []):
        raise Violation(f'{src!r} gave {core.short(outs)}')
      defined.add(n)
      if fn:
        defined.add('bump_X')
      case.seen('isolation', (n, v))
    elif what == 'read':
      n = rng.choice(sorted(defined - set(lib0)) or ['Z'])
      src = f'output({n})' if n != 'bump_X' else 'output(bump_X(1))'
      try:
        outs = run_one(src, safe)
      except NameError:
        case.seen('undefined in a later run', n)
        continue
      raise Violation(f'{n}, defined by an earlier run only, was seen by a later one: {core.short(outs)}')
    elif what == 'override':
      # a program that replaces a library function
      src = 'function: absolute X { result: 77 }\nfunction: sort X:s { result: 78 }\noutput [absolute 0-5]\noutput [sort {2,1}]'
      outs = run_one(pe().compile_anydice(src), safe)
      if [a for a, _ in outs] != [(77,), (78,)]:
        raise Violation(f'{src!r} gave {core.short(outs)}')
      defined.add('absolute_X')
    elif what == 'override python':
      n = rng.choice(RUNTIME[:-1])
      g = pe()._get_lib()
      got, _ = printed_by(f'{n} = 5\noutput({n})', g)
      settings().settings_reset()
      if len(got) != 1:
        raise Violation(f'{n} = 5, output({n}) printed {got!r}')
      defined.add(n)
    elif what == 'probe':
      src = 'output [absolute 0-5]\noutput [sort {2,1,3}]\noutput 2d6\noutput [highest 1 of 3d2]\noutput {1..3}'
      code = pe().compile_anydice(src)
      if rng.random() < 0.5:
        outs = run_one(code, safe)
        vals = [a[0] for a, _ in outs]
      else:
        vals = []
        g = pe()._get_lib()
        extra = set(g) - set(before)
        if extra:
          raise Violation(f'the runtime dictionary has {sorted(extra)[:5]} left from an earlier run')
        g['output'] = lambda x, **kw: vals.append(x)
        exec(code, g)
      if len(vals) != 5 or vals[0] != 5 or tuple(vals[1]) != (3, 2, 1) or tuple(vals[4]) != (1, 2, 3):
        raise Violation(f'{src!r} gave {core.short(vals)}')
      if obs.die_pairs(vals[2]) != [(i, 6 - abs(7 - i)) for i in range(2, 13)] or obs.die_pairs(vals[3]) != [(1, 1), (2, 7)]:
        raise Violation(f'{src!r} gave {core.short(vals)}')
      case.seen('isolation')
    elif what == 'caller':
      v = rng.randint(0, 99)
      n = rng.choice(['BONUS', 'A', 'roll', 'absolute_X', 'myrange', 'HP'])
      g = {n: v, 'helper': lambda x: x * 2}
      keep = dict(g)
      outs = run_one(f'output({n})\noutput(helper({n}), named="h")\nA = 3\nNEW = 4\noutput(A + NEW)', safe, g)
      if plain(outs) != [((v,), {}), ((2 * v,), {'named': 'h'}), ((7,), {})]:
        raise Violation(f'with {n}={v} given by the caller: {core.short(outs)}')
      if g != keep:
        raise Violation(f'the dictionary of the caller was changed: {sorted(set(g) ^ set(keep))[:6]}')
      defined |= {n, 'helper', 'NEW'}
      case.seen('caller names', n)
      for v in (None, 0, '', (), [], False, {}):
        n = rng.choice(['BONUS', 'A', 'roll', 'math', 'x1'])
        outs = run_one(f'output({n})', safe, {n: v})
        if len(outs) != 1 or len(outs[0][0]) != 1 or outs[0][0][0] is not v:
          raise Violation(f'with {n}={v!r} given by the caller: {core.short(outs)}')
        defined |= {n} if n != 'math' and n != 'roll' else set()
      mine = []      # an output function of the caller's own
      outs = run_one(rng.choice(['output(1)\noutput(2, named="x")', pe().compile_anydice('output 1 output 2 named "x"')]), safe, {'output': lambda *a, **k: mine.append((a, k))})
      if mine != [((1,), {}), ((2,), {'named': 'x'})] or outs:
        raise Violation(f'with an output function given by the caller: it got {core.short(mine)}, the run returned {core.short(outs)}')
      case.seen('caller names', 'output')
    elif what == 'error':
      def boom():
        raise Injected('fault')
      k = rng.choice(['boom', 'zero', 'name'])
      src = 'output(1)\nERR = 5\n' + {'boom': 'boom()', 'zero': 'output(1 // 0)', 'name': 'output(NOT_THERE)'}[k] + '\noutput(2)'
      exc = {'boom': Injected, 'zero': ZeroDivisionError, 'name': NameError}[k]
      try:
        outs = run_one(src, safe, {'boom': boom})
      except exc:
        case.seen('error raised', k)
        defined |= {'ERR', 'boom'}
        continue
      raise Violation(f'a program that fails ({k}) returned {core.short(outs)}')
    else:
      inner = []

      def sub(x):
        inner.append(run_one('output(100)\nX1 = 2\noutput(X1)', rng.random() < 0.5))
        return x + 1
      outs = run_one('X1 = 9\noutput(X1)\noutput(sub(3))\noutput(X1)\noutput(sub(4), named="s")', safe, {'sub': sub})
      if plain(outs) != [((9,), {}), ((4,), {}), ((9,), {}), ((5,), {'named': 's'})]:
        raise Violation(f'outputs of the outer run {core.short(outs)}')
      if [plain(o) for o in inner] != [[((100,), {}), ((2,), {})]] * 2:
        raise Violation(f'outputs of the inner runs {core.short(inner)}')
      case.seen('nested run')
  after = {k: same_as(v) for k, v in pe()._get_lib().items()}
  if after != before:
    raise Violation(f'the runtime dictionary changed: {sorted(k for k in set(after) | set(before) if after.get(k) != before.get(k))[:6]}')


def whole_programs(case):
  """programs one after the other, every one as the reference says"""
  rng = case.rng
  for _ in range(rng.randint(3, 6)):
    int_ops = rng.random() < 0.4
    r = progen.supported_program(rng, int_ops, words=rng.choice([None, c20.HOSTILE]))
    if not r:
      continue
    prog, want, m = r
    flags = flags_for(rng, int_ops)
    safe = rng.random() < 0.5
    tx = A.render(prog, rng, 'plain')
    case.log('flags', flags, 'safe' if safe else '', 'program:\n' + tx)
    settings().settings_reset()
    code = pe().compile_anydice(tx, dict(flags))
    outs = [(a[0], kw.get('named')) for a, kw in run_one(code, safe, rng.choice([None, {}, {'UNUSED': 1}]))]
    c17.compare(case, 'program', outs, want)
    case.seen('isolation', tx)


# ---------------------------------------------------------------- confinement

class Audit:
  """sys.addaudithook cannot be removed: one hook, switched on for the time of an attack; forbidden events are recorded and stopped"""
  on = False
  events = []
  installed = False
  BAD = ('open', 'os.', 'subprocess.', 'socket.', 'shutil.', 'ctypes.', 'pty.', 'sys.settrace', 'sys.setprofile', 'builtins.input', 'builtins.breakpoint')

  @classmethod
  def hook(cls, event, args):
    if cls.on and event.startswith(cls.BAD):
      cls.events.append((event, core.short(args, 80)))
      raise PermissionError(f'stopped by the monitor: {event}')

  @classmethod
  def install(cls):
    if not cls.installed:
      sys.addaudithook(cls.hook)
      cls.installed = True


UNDER = ['__class__', '__dict__', '__globals__', '__subclasses__', '__init__', '__code__', '__closure__', '__builtins__', '__bases__', '__mro__', '__loader__', '__getattribute__', '__reduce__', '_seq', '_source_die', '_os', '__module__', '__self__', '__func__']
BASES = ['()', '""', '1', '[]', '{}', 'roll', 'RV', 'Seq', 'output', 'get_seq', 'math', 'random', 'functools', 'itertools', 'roll(6)', 'get_seq(1, 2)', 'settings_set', 'anydice_casting', '(lambda: 1)', 'getattr', 'explode_X', 'RV.from_const', 'str', 'ValueError("x")']
BUILTIN = ['open', 'compile', 'input', 'globals', 'locals', 'vars', 'dir', 'type', 'object', 'super', 'memoryview', 'help', 'hasattr', 'exit', 'quit', 'classmethod', 'property', 'bytearray']
NEVER = ['eval', 'exec', '__import__', '__builtins__', 'breakpoint', '_getattr_', '_getiter_', '__name__', '__file__', '__loader__', '__spec__', '__build_class__', '_write_']
MODULES = ['os', 'sys', 'subprocess', 'colorsys', 'os.path', 'builtins', 'importlib', 'socket', 'math', 'dice_calc', 'dice_calc.settings', 'this_module_is_not_there']


def attack(rng):
  """-> kind, expression or None, statements or None"""
  k = rng.choice(['attr', 'attr', 'getattr', 'getattr', 'format', 'builtin', 'builtin', 'never', 'import', 'write', 'write', 'setattr', 'name', 'frame', 'augmented'])
  b, u = rng.choice(BASES), rng.choice(UNDER)
  if k == 'attr':
    return k, f'({b}).{u}', None
  if k == 'getattr':
    s = rng.choice([f'"{u}"', f'"{u[:2]}" + "{u[2:]}"', f'str("{u}")', f'f"_{{\'{u[1:]}\'}}"'])
    return k, f'getattr({b}, {s})', None
  if k == 'format':
    return k, rng.choice([f'"{{0.{u}}}".format({b})', f'"{{x.{u}}}".format(x={b})', f'"{{x.{u}}}".format_map({{"x": {b}}})', f'str.format("{{0.{u}}}", {b})', f'getattr("{{0.{u}}}", "format")({b})', f'f"{{({b}).{u}}}"']), None
  if k == 'builtin':
    n = rng.choice(BUILTIN)
    call = {'open': '("/nonexistent/canary")', 'compile': '("1", "x", "eval")', 'input': '()', 'globals': '()', 'locals': '()', 'vars': '()', 'dir': '()', 'type': '(1)', 'object': '()', 'super': '()', 'memoryview': '(b"x")', 'help': '', 'hasattr': '(1, "x")',
            'exit': '', 'quit': '', 'classmethod': '', 'property': '', 'bytearray': '(3)'}[n]
    return k, n + rng.choice([call, '']), None
  if k == 'never':
    n = rng.choice(NEVER)
    return k, n + {'eval': '("1")', 'exec': '("ZZ = 1")', '__import__': '("os")'}.get(n, ''), None
  if k == 'import':
    m = rng.choice(MODULES)
    top = m.split('.')[0]
    return k, None, rng.choice([f'import {m}', f'import {m} as mm', f'from {m} import path', f'from {m} import *', f'import {top}, math'])
  if k == 'write':
    t = rng.choice(['RV.mean', 'RV.vals', 'Seq.sum', 'roll.x', 'math.pi', 'random.random', 'roll(6).vals', 'roll(6).probs', 'get_seq(1, 2).x', 'functools.reduce', 'output.x', 'RV.from_const', 'settings_set.x'])
    return k, None, rng.choice([f'{t} = 3', f'del {t}', f'{t} += 1', f'{t}, ZZ = 1, 2', f'for {t} in (1, 2):\n  pass', f'ZZ = {t.split(".")[0] if "(" not in t else t.rsplit(".", 1)[0]}\nZZ.{t.rsplit(".", 1)[1]} = 3'])
  if k == 'setattr':
    t = rng.choice(['RV', 'Seq', 'roll', 'math', 'random', 'roll(6)', 'get_seq(1, 2)', 'output'])
    a = rng.choice(['mean', 'vals', 'probs', 'random', 'x', '__class__', '_seq'])
    return k, rng.choice([f'setattr({t}, "{a}", 3)', f'delattr({t}, "{a}")']), None
  if k == 'name':
    n = rng.choice(['_x', '__x', '_', '__builtins__', '_getattr_', '_write_', '__name__'])
    if n == '_':
      n = '_q'
    return k, None, rng.choice([f'{n} = 1', f'def {n}():\n  return 1', f'class {n}:\n  pass', f'for {n} in (1,):\n  pass', f'def ff({n}):\n  return 1', f'ZZ = lambda {n}: 1', f'ZZ = [{n} for {n} in (1,)]', f'ZZ, {n} = 1, 2',
                                f'try:\n  1 // 0\nexcept Exception as {n}:\n  pass', f'class ZZ:\n  {n} = 1', f'({n} := 3)' if n != '__name__' else f'{n} = 3', f'def gg(*, {n}=1):\n  return 1'])
  if k == 'frame':
    f = rng.choice(['gi_frame', 'gi_code', 'f_globals', 'f_builtins', 'f_back', 'f_locals', 'tb_frame', 'cr_frame', 'f_code'])
    return k, rng.choice([f'(x for x in (1,)).{f}', f'(lambda: 1).{f}', f'ValueError("x").{f}', f'roll.{f}']), None
  t = rng.choice(['ZZ = [1]\nZZ[0] += 1', 'ZZ = get_seq(1, 2)\nZZ[0] = 5', 'ZZ = {}\nZZ["a"] += 1', 'get_seq(1, 2)[1] = 3', 'del get_seq(1, 2)[1]', 'roll(6).vals[0] = 3'])
  return k, None, t


PRELUDES = ['', 'A = 3\n', 'output(roll(2, 6))\n', '@anydice_casting()\ndef f_X(N: T_N):\n  return N\noutput(f_X(roll(4)))\n']


def indent(s, n=1):
  return '\n'.join('  ' * n + x for x in s.split('\n'))


def wrap(rng, e, s):
  """the attack somewhere inside otherwise harmless code"""
  if e is not None:
    q = rng.random()
    if q < 0.15:
      s = f'output({e})'
    elif q < 0.25:
      s = f'ZZ = {e}\noutput(ZZ)'
    elif q < 0.35:
      s = f'output([{e} for i in (1, 2)])'
    elif q < 0.45:
      s = f'output((lambda: {e})())'
    elif q < 0.55:
      s = f'def g(a={e}):\n  return a\noutput(g())'
    elif q < 0.65:
      s = f'if 1 == 1:\n  ZZ = ({e})'
    elif q < 0.72:
      s = f'output(1, named=f"{{({e})}}")' if '"' not in e and "'" not in e and '{' not in e else f'output(1, named=({e}))'
    elif q < 0.79:
      s = f'output({{"k": {e}}})'
    elif q < 0.86:
      s = f'for i in ({e}, 1):\n  pass'
    elif q < 0.93:
      s = f'output(0 or ({e}))'
    else:
      s = f'def h():\n  return ({e})\noutput(h())'
  if rng.random() < 0.35:
    body = 'def w():\n' + indent(s) + '\n  return 1\nw()'
    s = body
  if rng.random() < 0.25:
    s = rng.choice(['if 1 == 1:\n', 'for k in (1,):\n']) + indent(s)
  return rng.choice(PRELUDES) + s


def shown(outs):
  return core.short([(type(x).__name__, core.short(x, 80)) for a, _ in outs for x in a])


def confined(case):
  rng = case.rng
  for pre in PRELUDES:
    pe().safe_exec(pre + 'output(1)')          # everything the executor and the library themselves load is loaded
  Audit.install()
  lib = core.lib
  watch = {(n, a): getattr(getattr(lib, n), a, None) for n, a in (('RV', 'mean'), ('RV', 'from_const'), ('Seq', 'sum'))}
  import math
  import random as rnd
  import functools
  mods = (math.pi, rnd.random, functools.reduce)
  for _ in range(12):
    kind, e, s = attack(rng)
    code = wrap(rng, e, s)
    case.log(kind, repr(code))
    Audit.events.clear()
    out = io.StringIO()
    try:
      with warnings.catch_warnings(), contextlib.redirect_stdout(out):
        warnings.simplefilter('ignore')
        Audit.on = True
        try:
          outs = pe().safe_exec(code)
        finally:
          Audit.on = False
    except Exception:
      outs = None
    if Audit.events:
      raise Violation(f'{kind}: hostile code reached {Audit.events[0]}:\n{code}')
    if outs is not None:
      raise Violation(f'{kind}: hostile code ran in the restricted executor, outputs {shown(outs)}:\n{code}')
    case.seen('attack refused', code)
    case.seen(f'attack {kind}')
  now = {(n, a): getattr(getattr(lib, n), a, None) for n, a in watch}
  if now != watch or mods != (math.pi, rnd.random, functools.reduce):
    raise Violation('hostile code in the restricted executor changed the library or a module')


HARMLESS = [('output(math.floor(2.5))', (2,)), ('output(abs(0 - 3))', (3,)), ('A = [i * 2 for i in (1, 2, 3)]\noutput(A[1])', (4,)), ('def f(x, y=2):\n  return x + y\noutput(f(3))', (5,)), ('A = {"k": 1}\nA["k"] = 7\noutput(A["k"])', (7,)),
            ('T = 0\nfor a, b in ((1, 2), (3, 4)):\n  T = T + a * b\noutput(T)', (14,)), ('output(len(roll(3, 6)))', (3,)), ('output(getattr(roll(6), "mean")())', (3.5,)), ('output(roll(6).mean())', (3.5,)), ('A = 1\nB = A - 2\noutput(B)', (-1,)),
            ('output((lambda q: q + 1)(1))', (2,)), ('try:\n  A = 1 // 0\nexcept ZeroDivisionError:\n  A = 6\noutput(A)', (6,)), ('output(round(2.5), named=f"{1 + 1}")', (2,)), ('output(sorted((3, 1, 2))[0])', (1,)),
            ('A = []\nA.append(4)\noutput(A[0])', (4,)), ('output(f"{3}x")', ('3x',)), ('output(functools.reduce(lambda a, b: a + b, [1, 2]))', (3,)), ('output(functools.reduce(lambda a, b: a * 10 + b, itertools.chain((1,), (2,))))', (12,)), ('output(math.comb(5, 2))', (10,)), ('output(0 <= random.random() < 1)', (True,))]


def handwritten(case):
  """both executors report what the code passes to output, label, further arguments and all, in order"""
  rng = case.rng
  want, lines = [], []
  for _ in range(rng.randint(1, 8)):
    args = tuple(rng.choice([0, 1, -3, 2.5, '', 'x', None, True, (1, 2), (), []]) for _ in range(rng.choice([1, 1, 1, 1, 2, 0])))
    kw = {}
    for k in ('named', 'show_pdf', 'blocks_width', 'print_', 'cdf_cut', 'anything'):
      if rng.random() < (0.6 if k == 'named' else 0.1):
        kw[k] = rng.choice(['', 'a', ' ', '0', 'None', 'x\ny', None, 0, False, 1, (), '{1}'])
    call = ', '.join([repr(a) for a in args] + [f'{k}={v!r}' for k, v in kw.items()])
    if rng.random() < 0.2:
      lines.append(f'for i in (1, 2):\n  output({call})')
      want.append((args, kw))
    elif rng.random() < 0.2:
      lines.append(f'def f():\n  output({call})\nf()')
    else:
      lines.append(f'output({call})')
    want.append((args, kw))
  src = '\n'.join(lines)
  case.log(repr(src))
  for f in (pe().safe_exec, pe().unsafe_exec):
    outs = f(src)
    if repr([(tuple(a), dict(kw)) for a, kw in outs]) != repr(want):
      raise Violation(f'{f.__name__} of {src!r}: {core.short(outs)}, expected {core.short(want)}')
  case.seen('handwritten', src)
  bad = rng.choice(['1 // 0', 'NO_SUCH_NAME', '[][3]', 'roll("x")', 'def f(n):\n  return f(n + 1)\nf(0)', 'raise ValueError(3)', 'roll(6) @ 3', 'settings_set("no such", 1)', '1 + "x"', 'int("q")', 'get_seq(None)', 'assert 0', 'bool(roll(2))'])
  errs = []
  for f in (pe().safe_exec, pe().unsafe_exec):
    try:
      f(src + '\n' + bad)
    except (core._Timeout, KeyboardInterrupt, MemoryError):
      raise
    except Exception as e:
      errs.append(type(e).__name__)
    else:
      raise Violation(f'{f.__name__} of code that ends with {bad!r} returned as if nothing had failed')
  if errs[0] != errs[1]:
    raise Violation(f'code that ends with {bad!r} fails with {errs[0]} restricted and {errs[1]} unrestricted')
  case.seen('failing code', bad)


def harmless(case):
  rng = case.rng
  for _ in range(6):
    src, want = rng.choice(HARMLESS)
    for f in (pe().safe_exec, pe().unsafe_exec):
      outs = f(src)
      if [a for a, _ in outs] != [want]:
        raise Violation(f'{src!r}: outputs {core.short(outs)}, expected {want}')
    case.seen('harmless code runs', src)


WORKLOADS = {
  'ways': (ways, 480, 4800, 10),
  'steps': (steps, 120, 1200, 10),
  'isolation': (isolation, 480, 4800, 10),
  'whole_programs': (whole_programs, 160, 1600, 5),
  'confined': (confined, 600, 6000, 20),
  'harmless': (harmless, 80, 800, 20),
  'handwritten': (handwritten, 240, 2400, 20),
}
