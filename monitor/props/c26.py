"""C26: computing and compiling have no effect beyond the result."""
import builtins
import contextlib
import decimal
import gc
import io
import locale
import logging
import os
import random
import re
import signal
import subprocess
import sys
import tempfile
import threading
import warnings

from .. import core, gen, obs, progen, taps
from .. import anydice as A
from ..core import Skip, Violation
from . import c14, c17

RULE = ('random expressions, typed calls, mixtures, reports, refused operations, compilations (valid, invalid, all options) and runs of programs, each executed with both standard streams captured, an audit hook that records files, '
        'processes, network and environment access, and snapshots of the random generator, the interpreter-wide state and every container passed as an argument before and after; random rolls after seeding, with computations in between; '
        'the package alone in a fresh interpreter that can import the standard library only.  Non-trivial: distinct operations.')
ASSUMPTIONS = ['log records are not output (logging is switched off or swallowed)', 'reading source files of installed modules and of the library (imports, inspection) is not an effect', 'iterators passed as arguments are used up']
MUST_SEE = ('expression', 'refused operation', 'compiled', 'refused program', 'program run', 'very long program', 'report printed', 'depth notice', 'arguments', 'options dictionary', 'seeded draws', 'no draw, no change', 'standard library only')

NOTICE = 'The maximum function depth was exceeded, results are truncated.'
READ_OK = tuple(os.path.realpath(p) + os.sep for p in {sys.prefix, sys.base_prefix, core.SRC, os.path.dirname(os.__file__)})


class Audit:
  """one hook for the life of the process, recording while switched on"""
  on = False
  events = []
  installed = False

  @classmethod
  def hook(cls, event, args):
    if not cls.on:
      return
    if event == 'open':
      path, mode, flags = args
      if isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND) or not isinstance(path, (str, bytes)):
        cls.events.append((event, core.short(args, 120)))
      else:
        p = os.path.realpath(os.fsdecode(path))
        if not p.startswith(READ_OK) and os.path.exists(p):
          cls.events.append((event, core.short(args, 120)))
    elif event.startswith(('os.', 'subprocess.', 'socket.', 'shutil.', 'ctypes.', 'pty.', 'tempfile.', 'urllib.', 'http.', 'ftplib.', 'smtplib.', 'webbrowser.', 'sqlite3.', 'signal.', 'winreg.', 'sys.settrace', 'sys.setprofile', 'builtins.input', 'builtins.breakpoint', 'fcntl.', 'mmap.', 'syslog.')):
      if event not in ('os.listdir', 'os.scandir'):
        cls.events.append((event, core.short(args, 120)))

  @classmethod
  def install(cls):
    if not cls.installed:
      sys.addaudithook(cls.hook)
      cls.installed = True


def loggers():
  out = {}
  for n in [None] + [n for n in list(logging.root.manager.loggerDict) if n.startswith(('dice_calc', 'src'))]:
    g = logging.getLogger(n)
    out[n] = (g.level, tuple(map(id, g.handlers)), g.propagate, g.disabled)
  return out


def world():
  """state of the interpreter and process"""
  return {
    'recursion limit': sys.getrecursionlimit(), 'warning filters': list(warnings.filters), 'logging': (logging.root.manager.disable, logging.raiseExceptions), 'builtins': {k: id(v) for k, v in vars(builtins).items() if k != '_'},
    'search path': list(sys.path), 'current directory': os.getcwd(), 'environment': dict(os.environ), 'locale': locale.setlocale(locale.LC_ALL), 'threads': threading.active_count(), 'garbage collection': (gc.isenabled(), gc.get_threshold()),
    'integer digits': sys.get_int_max_str_digits(), 'trace functions': (sys.gettrace(), sys.getprofile()), 'hooks': (id(sys.excepthook), id(sys.displayhook), id(sys.meta_path), len(sys.meta_path), id(sys.stdin)),
    'switch interval': sys.getswitchinterval(), 'decimals': repr(decimal.getcontext()), 'signals': tuple(map(str, (signal.getsignal(s) for s in (signal.SIGINT, signal.SIGALRM, signal.SIGTERM)))),
    'umask and files': sorted(os.listdir('/proc/self/fd')) if os.path.isdir('/proc/self/fd') else None,
  }


def chosen():
  """the settings a caller can make"""
  return {k: (v if not callable(v) else id(v)) for k, v in core.submodule('settings').SETTINGS.items() if not k.startswith('INTERNAL')}


def differences(a, b):
  out = []
  for k in a:
    if a[k] != b[k]:
      out.append(f'{k}: {core.short(a[k], 120)} became {core.short(b[k], 120)}' if k not in ('builtins', 'environment') else f'{k}: {sorted(set(a[k].items()) ^ set(b[k].items()))[:4]}')
  return out


class Stream(io.TextIOWrapper):
  """a standard stream as a program has it: text over bytes, with an encoding, an error handler and a buffering mode that can be changed"""
  def __init__(self):
    super().__init__(io.BytesIO(), encoding='utf-8', errors='strict', newline='\n', line_buffering=True)

  def getvalue(self):
    self.flush()
    return self.buffer.getvalue().decode('utf-8', 'surrogateescape')

  def form(self):
    return self.encoding, self.errors, self.line_buffering, self.write_through, self.closed


class Watch:
  """everything one operation does besides returning"""
  def __init__(self, what, draws=False, stdout=None, settings=False):
    self.what, self.draws, self.want, self.settings = what, draws, stdout, settings

  def __enter__(self):
    Audit.install()
    self.out, self.err = Stream(), Stream()
    self.form = self.out.form(), self.err.form()
    self.streams = sys.stdout, sys.stderr
    self.loggers = loggers()
    self.before, self.rand = world(), random.getstate()
    self.set_before = chosen()
    sys.stdout, sys.stderr = self.out, self.err
    self.mine = self.out, self.err
    Audit.events, Audit.on = [], True
    return self

  def __exit__(self, *exc):
    Audit.on = False
    now = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = self.streams
    if exc[0] is not None and not issubclass(exc[0], Exception):
      return False
    after, rand, what = world(), random.getstate(), self.what
    if now != self.mine:
      raise Violation(f'{what}: a standard stream was replaced')
    if self.out.form() != self.form[0] or self.err.form() != self.form[1]:
      raise Violation(f'{what}: a standard stream was set up differently: {self.form} became {self.out.form()}, {self.err.form()}')
    if Audit.events:
      raise Violation(f'{what}: {Audit.events[:3]}')
    if self.want is None and self.out.getvalue():
      raise Violation(f'{what}: printed {core.short(self.out.getvalue())}')
    if self.want is not None and self.out.getvalue() != self.want:
      raise Violation(f'{what}: printed {core.short(self.out.getvalue())}, expected {core.short(self.want)}')
    if self.err.getvalue():
      raise Violation(f'{what}: wrote to standard error {core.short(self.err.getvalue())}')
    d = differences(self.before, after)
    if d:
      raise Violation(f'{what}: {"; ".join(d)}')
    ll = loggers()
    for k, v in self.loggers.items():
      if ll.get(k) != v:
        raise Violation(f'{what}: logger {k or "root"} changed from {v} to {ll.get(k)}')
    if not self.settings and chosen() != self.set_before:
      raise Violation(f'{what}: the settings changed from {self.set_before} to {chosen()}')
    if not self.draws and rand != self.rand:
      raise Violation(f'{what}: the state of the random generator changed')
    self.exc = exc[1]
    return False


@contextlib.contextmanager
def loud(yes):
  """logging switched on down to debug records, as a caller may have it"""
  if not yes:
    yield
    return
  root = logging.getLogger()
  level, h = root.level, logging.NullHandler()
  off = logging.root.manager.disable
  logging.disable(logging.NOTSET)
  root.setLevel(logging.DEBUG)
  root.addHandler(h)
  try:
    yield
  finally:
    root.removeHandler(h)
    root.setLevel(level)
    logging.disable(off)


def expressions(case):
  rng, lib = case.rng, core.lib
  random.seed(rng.randrange(1 << 30))
  for _ in range(4):
    x = c14.expr(rng, rng.randint(1, 3))
    while 'depth' in repr(x) or "'draw'" in repr(x):
      x = c14.expr(rng, rng.randint(1, 3))
    settings = [rng.choice(c14.SET)] if rng.random() < 0.3 else []
    what = f'{settings} {x}'
    case.log(what)
    with Watch(core.short(what), settings=bool(settings)):
      c14.evaluate(x, settings, report=rng.random() < 0.3)
    case.seen('expression', repr(x))
    case.seen('no draw, no change')
  if rng.random() < 0.5:
    with Watch('a refused operation', stdout=None):
      try:
        fault(rng)
      except Exception:
        pass
    case.seen('refused operation')


def fault(rng):
  lib = core.lib
  k = rng.randrange(10)
  if k == 0:
    lib.RV([1, 2], [1])
  elif k == 1:
    lib.RV([1], [-1])
  elif k == 2:
    lib.settings_set('explode depth', 0)
  elif k == 3:
    lib.roll(lib.RV([0.5], [1]), 6)
  elif k == 4:
    lib.roll(3, 6) // lib.RV([0, 1], [1, 1])
  elif k == 5:
    lib.roll(2, 4) @ lib.roll(2, 4)
  elif k == 6:
    lib.roll('xdy')
  elif k == 7:
    lib.roll(6).get_vals_probs(2)
  elif k == 8:
    bool(lib.roll(6))
  else:
    @lib.anydice_casting()
    def boom(N: lib.T_N):
      raise ValueError('callback')
    boom(lib.roll(6))


def big(case):
  """large weights, wide dice, long sums"""
  rng, lib = case.rng, core.lib
  k = rng.randrange(8)
  with Watch(f'a large computation ({k})'):
    if k == 0:
      x = lib.roll(rng.randint(60, 200), rng.choice([6, 10]))
    elif k == 1:
      x = lib.roll(30, 6) > lib.roll(31, 6)
    elif k == 2:
      x = 3 @ lib.roll(80, 6)
    elif k == 3:
      x = lib.RV.from_rvs([lib.roll(n, 6) for n in range(1, 25)])
    elif k == 4:
      x = lib.roll(20, lib.get_seq('a', 'b'))
    elif k in (6, 7):      # long sequences, dice with many outcomes
      n = rng.choice([30, 65, 130, 300, 1100])
      e = rng.sample(range(-2 * n, 2 * n), n)
      s, d = lib.Seq(e), lib.RV(e, [rng.randint(1, 9) for _ in e])
      for f in (lib.sort_X, lib.reverse_X, lambda y: lib.count_X_in_X(y, lib.Seq(1, 2)), lambda y: lib.X_contains_X(y, 3), lambda y: y == s, lambda y: y < 5, lambda y: lib.Seq(y, y), lambda y: (lib.Seq(range(1, n + 1)) @ y), lib.maximum_of_X, lib.get_seq, list, repr):
        f(s)
      x = d.filter(e[:5]) + 1
      d.get_cdf(), d.get_vals_probs(0.2), abs(d), -d, d > 3, 1 @ d, lib.roll(d)
    else:
      e = rng.choice([50, 400, 1000, 2500, 5000])
      x = lib.RV([1, 2], [10 ** e, rng.randint(1, 9)])
      x = rng.choice([lambda: x + lib.RV([1, 2], [10 ** e + 7, 1]), lambda: lib.roll(3, x), lambda: 1 @ lib.roll(2, x), lambda: lib.RV.from_rvs([x, lib.RV([1, 3], [10 ** e + 7, 1])])])()
    lib.output(x, print_=False)
    x.mean() if k != 4 else None
  case.seen('expression', ('big', k))


def programs(case):
  rng = case.rng
  pe = core.submodule('parser.parse_and_exec')
  int_ops = rng.random() < 0.3
  r = rng.random()
  if r < 0.3:
    src = rng.choice(taps.corpus())['src']
    if len(src) > 1500:
      src = 'output [highest 2 of 3d6] named "x"\noutput [explode d4]'
  else:
    got = progen.supported_program(rng, int_ops)
    if got is None:
      raise Skip('no program in budget')
    src = A.render(got[0], rng, rng.choice(['plain', 'tight', 'wild']))
  flags = {c17.OPT: True} if int_ops else {}
  for f in ('COMPILER_FLAG_NON_LOCAL_SCOPE', 'COMPILER_FLAG_FUNC_LIB_CONFLICT', 'COMPILER_FLAG_FUNC_EXIST_CHECK'):
    if rng.random() < 0.3:
      flags[f] = rng.random() < 0.7
  long = rng.random() < 0.02
  if long:
    src = src + '\n' + rng.choice(['output 1', 'A: 2d6 + 1', 'if 1 { output 2 } else { A: 3 }', 'output 1 named "text"', '\\ comment \\', '   ']) * rng.choice([1, 1, 4]) * rng.choice([1500, 4000])
    src = re.sub(r'(.{60,90}?) ', r'\1\n', src) if rng.random() < 0.5 and '"' not in src else src
    case.seen('very long program')
  bad = rng.random() < 0.3
  if bad:
    src = rng.choice([src + '\n$', src + '\noutput 1 named "x', src + '\noutput [nope 1]', 'A: 1', src + '\noutput (', src[:len(src) // 2], '', src + '\n1 1 1'])
    if rng.random() < 0.15:
      flags['NO_SUCH_OPTION'] = True
  given = dict(flags)
  case.log('options', flags, 'text:\n' + src)
  core.fresh_tables = rng.random() < 0.15
  code = None
  try:
    with loud(rng.random() < 0.2), Watch('compile_anydice'):
      try:
        code = pe.compile_anydice(src, given) if given or rng.random() < 0.5 else pe.compile_anydice(src)
      except Exception:
        code = None
  finally:
    core.fresh_tables = False
  if given != flags or list(given) != list(flags):
    raise Violation(f'compile_anydice changed the options it was given from {flags} to {given}')
  case.seen('options dictionary')
  case.seen('compiled' if code is not None else 'refused program', src)
  if code is None or bad or long:
    return
  names = {'ZZZ': 1, 'helper': len}
  mine = dict(names)
  safe = rng.random() < 0.5
  w = Watch(('safe' if safe else 'unsafe') + '_exec of\n' + code, settings=True)
  try:
    with loud(rng.random() < 0.2), w:
      (pe.safe_exec if safe else pe.unsafe_exec)(code, *([mine] if rng.random() < 0.6 else []))
  except (core._Timeout, MemoryError):
    raise
  except Violation as e:
    if w.out.getvalue().replace(NOTICE + '\n', '') or 'printed' not in str(e):
      raise
    case.seen('depth notice')       # the program nests too deep
  except Exception:
    case.seen('program raised')
  if mine != names:
    raise Violation(f'the names given to the executor changed to {core.short(mine)}')
  case.seen('program run', code)


def reports(case):
  """what was asked for is printed, once, nothing else"""
  rng, lib = case.rng, core.lib
  x, _ = gen.pool(rng, 3, 6) if rng.random() < 0.7 else gen.die(rng, 6)
  label = rng.choice([None, 'a', '', 'x y'])
  if rng.random() < 0.3 and not obs.is_blank(x) and all(isinstance(v, int) for v in x.vals):
    x = x * 10 ** rng.choice([1, 5, 30])
  kw = {'named': label}
  if rng.random() < 0.6:
    kw['blocks_width'] = rng.choice([0, 1, 3, 10, 50, 180, 400])
  if rng.random() < 0.4:
    kw['show_pdf'] = rng.random() < 0.5
  if rng.random() < 0.4:
    kw['cdf_cut'] = rng.choice([0, 1, 10])
  plain = lib.output(lib.roll(4), print_=False)
  text = lib.output(x, print_=False, **kw)
  case.log(f'report of {core.short(x)} {kw}')
  with Watch('output()', stdout=text + '\n'):
    lib.output(x, **kw)
  sink = []
  with Watch('output(print_fn)'):
    lib.output(x, print_fn=sink.append, **kw)
  with Watch('output(print_=False) and repr'):
    lib.output(x, print_=False, **kw)
    repr(x), str(x), f'{x}'
  with Watch('method output', stdout=text + '\n'):
    x.output(**kw)
  if sink != [text]:
    raise Violation(f'print_fn was given {core.short(sink)}, printed was {core.short(text)}')
  if lib.output(lib.roll(4), print_=False) != plain:
    raise Violation('a report changed the form of later ones')
  case.seen('report printed', (core.short(x), label))


def notice(case):
  """too deep nesting is announced once until settings are reset"""
  rng, lib = case.rng, core.lib

  @lib.anydice_casting()
  def down(N: lib.T_N):
    return down(N + 1)

  @lib.max_func_depth()
  def plain(N):
    return N if N == 0 else plain(N - 1)
  depth = rng.choice([1, 3, 10, 12])
  said = False
  for step in range(rng.randint(3, 8)):
    r = rng.random()
    if r < 0.5:
      deep_enough = rng.random() < 0.7
      with Watch(f'nesting too deep, step {step}', stdout=None if said or not deep_enough else NOTICE + '\n'):
        if deep_enough:
          rng.choice([lambda: down(0), lambda: plain(100), lambda: down(lib.roll(2))])()
        else:
          plain(rng.randint(0, lib_depth() - 1))
      said = said or deep_enough
      case.seen('depth notice', (step, said, deep_enough))
    elif r < 0.7:
      with Watch('settings_set', settings=True):
        lib.settings_set('maximum function depth', rng.choice([1, 2, 5, 10]))
    elif r < 0.85:
      with Watch('settings_reset', settings=True):
        lib.settings_reset()
      said = False
    else:
      with Watch('a computation'):
        lib.explode_X(lib.roll(6)) + lib.highest_X_of_X(1, lib.roll(2, 4))
  case.log(f'{step} steps')


def lib_depth():
  return core.submodule('settings').SETTINGS['maximum function depth']


def deep(x):
  if isinstance(x, (list, tuple)):
    return (type(x).__name__, id(x) if isinstance(x, list) else 0, tuple(deep(y) for y in x))
  if isinstance(x, dict):
    return ('dict', id(x), tuple((deep(k), deep(v)) for k, v in x.items()))
  if isinstance(x, (set, frozenset)):
    return (type(x).__name__, tuple(sorted(map(repr, x))))
  if isinstance(x, range):
    return ('range', x.start, x.stop, x.step)
  if obs.is_die(x) or obs.is_seq(x) or obs.is_blank(x):
    return ('value', id(x), obs.snap(x))
  return (type(x).__name__, repr(x))


def mixed(rng, texts=False):
  """a container as callers write them"""
  lib = core.lib
  e = [rng.choice([rng.randint(-3, 6), rng.randint(-3, 6), True, 2.0, 2.5 if rng.random() < 0.5 else 3]) for _ in range(rng.randint(1, 5))]
  r = rng.random()
  if r < 0.3:
    e = [e, [rng.randint(0, 3)], range(2, 4)]
  elif r < 0.5:
    e.insert(rng.randint(0, len(e)), lib.roll(3))
  elif r < 0.6:
    e = [[[e]], lib.Seq(1, 2)]
  if texts and rng.random() < 0.5:
    e.insert(rng.randint(0, len(e)), 'txt')
  rng.shuffle(e)
  return e


def arguments(case):
  rng, lib = case.rng, core.lib
  for _ in range(6):
    k = rng.randrange(17)
    vals = [rng.choice([5, 1, 3, 3, True, -2, 2.5, 2.0]) for _ in range(rng.randint(1, 6))]
    ws = [rng.randint(0, 4) for _ in vals]
    ws[0] += 1
    m, m2 = mixed(rng), mixed(rng)
    x = lib.roll(rng.randint(1, 3), rng.choice([2, 4]))
    parts = [rng.choice([1, lib.roll(4), lib.Seq(1), None, lib.BlankRV(), 2.5]) for _ in range(rng.randint(1, 4))]
    pw = [rng.randint(1, 3) for _ in parts]
    kw = {'named': 'x', 'blocks_width': 20, 'print_': False, 'cdf_cut': 5}
    ints = [rng.randint(-1, 4) for _ in range(rng.randint(1, 3))]
    calls = {}

    @lib.anydice_casting()
    def f(A: lib.T_N, B: lib.T_S, C: lib.T_D, *rest, **more):
      calls['rest'], calls['more'] = rest, more
      return A
    fkw = {'A': x, 'B': m, 'C': m2, 'Z': ws}
    ops = [
      ('RV', lambda: lib.RV(vals, ws), (vals, ws)), ('RV truncate', lambda: lib.RV(vals, ws, truncate=True), (vals, ws)), ('from_seq', lambda: lib.RV.from_seq(m), (m, )), ('from_rvs', lambda: lib.RV.from_rvs(parts, pw), (parts, pw)),
      ('from_rvs without weights', lambda: lib.RV.from_rvs(parts), (parts, )), ('get_seq', lambda: lib.get_seq(m, m2), (m, m2)), ('Seq', lambda: lib.Seq(m, *m2), (m, m2)), ('roll', lambda: lib.roll(2, m), (m, )), ('roll list count', lambda: lib.roll(ints, m), (ints, m)),
      ('operator', lambda: (x + m, m2 * x if False else x * m2, x > ints, lib.Seq(1, 2) == m), (x, m, m2, ints)), ('position', lambda: lib.Seq(ints) @ x, (ints, x)), ('filter', lambda: x.filter(m), (x, m)), ('typed call', lambda: f(x, m, m2, ws, Z=vals), (x, m, m2, ws, vals)),
      ('typed call by keyword', lambda: f(**fkw), (fkw, )), ('library', lambda: (lib.sort_X(m), lib.reverse_X(m), lib.count_X_in_X(m, m2), lib.X_contains_X(m, 2), lib.maximum_of_X(m), lib.absolute_X(ints)), (m, m2, ints)),
      ('report', lambda: (lib.output(m, **kw), x.output(**kw)), (m, kw, x)), ('text faces', lambda: lib.roll(2, tm), None), ('seq tools', lambda: (lib.get_seq(tm), lib.RV.dices_are_equal(m, m2), lib.roller(m, 3)), None),
    ]
    tm = mixed(rng, True)
    name, fn, args = ops[rng.randrange(len(ops))]
    if args is None:
      args = (tm, m, m2)
    before = deep(args)
    case.log(f'{name} {core.short(args)}')
    with Watch(f'{name} {core.short(args)}', draws=name == 'seq tools'):
      try:
        fn()
      except (core._Timeout, MemoryError):
        raise
      except Exception:
        pass
    if deep(args) != before:
      raise Violation(f'{name}: an argument changed: {core.short(before, 300)} became {core.short(deep(args), 300)}')
    case.seen('arguments', (name, core.short(args)))


def draws(case):
  rng, lib = case.rng, core.lib
  things = [rng.choice([lib.roll(rng.randint(1, 3), 6), lib.Seq(3, 1, 2), [1, 2, 3], 5, lib.RV([1, 2, 9], [5, 1, 2]), lib.roll(20)]) for _ in range(4)]
  plan = [(rng.choice(things), rng.choice([None, None, 1, 3, 10, 0])) for _ in range(rng.randint(2, 8))]
  seed = rng.randrange(1 << 40)
  case.log(f'seed {seed}, draws {core.short(plan)}')

  def go(busy):
    random.seed(seed)
    out = []
    for x, n in plan:
      if busy:
        st = random.getstate()
        lib.output(lib.roll(2, 6) + lib.explode_X(lib.roll(4)), print_=False)
        1 @ lib.roll(3, 6)
        if rng.random() < 0.2:
          taps.run_program('A: 3d6\noutput [highest 2 of A] named "x"')
        if random.getstate() != st:
          raise Violation('computations between draws moved the random generator')
      st = random.getstate()
      with Watch(f'roller({core.short(x)}, {n})', draws=True):
        out.append(lib.roller(x, n) if n is not None else lib.roller(x))
      if n == 0 and random.getstate() != st:
        raise Violation(f'roller({core.short(x)}, 0) moved the random generator')
      if n != 0 and random.getstate() == st and not isinstance(x, int):
        raise Violation(f'roller({core.short(x)}, {n}) did not draw from the random generator')
    return out
  a, b, c = go(False), go(True), go(False)
  if a != b or a != c:
    raise Violation(f'with the same seed the draws are {core.short(a)}, then {core.short(b)}, then {core.short(c)}')
  case.seen('seeded draws', seed)


ALONE = r'''
import sys
sys.path = [p for p in sys.path if 'site-packages' not in p and 'dist-packages' not in p]
class Only:
  def find_spec(self, name, path=None, target=None):
    top = name.split('.')[0]
    if top not in sys.stdlib_module_names and top not in ('dice_calc', 'monitor'):
      raise ModuleNotFoundError(f'not in the standard library: {name}', name=name)
sys.meta_path.insert(0, Only())
sys.path.insert(0, VERIF)
import io
out, err = sys.stdout, sys.stderr
sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
before = (sys.getrecursionlimit(), __import__('random').getstate(), __import__('warnings').filters[:], __import__('logging').root.handlers[:], __import__('logging').root.level, __import__('os').getcwd())
from monitor import core
core.load_library()
from dice_calc import *
import dice_calc
from dice_calc.parser import parse_and_exec as pe
r = pe.unsafe_exec(pe.compile_anydice(PROGRAM))
X = dice_calc.roll(2, 6)
dice_calc.output(X, print_=False)
after = (sys.getrecursionlimit(), __import__('random').getstate(), __import__('warnings').filters[:], __import__('logging').root.handlers[:], __import__('logging').root.level, __import__('os').getcwd())
said = sys.stdout.getvalue(), sys.stderr.getvalue()
sys.stdout, sys.stderr = out, err
assert before == after, 'importing changed the state of the interpreter'
assert said == ('', ''), f'importing wrote {said}'
print('outputs', len(r), X.probs)
'''


def alone(case):
  src = ['output 2d6 named "a[B]" B: 3 output [explode d6]', 'function: f A:n { result: A + 1 } output [f d6] output 1 @ 3d6', 'loop A over {1..3} { output A d 6 } set "explode depth" to 1 output [explode d4]'][case.index % 3]
  n = src.count('output ') + 2 * src.count('loop')
  if src.startswith('output 2d6 named'):
    src = 'B: 3 output 2d6 named "a[B]" output [explode d6]'
    n = 2
  text = f'VERIF, PROGRAM = {core.VERIF!r}, {src!r}\n' + ALONE
  with tempfile.TemporaryDirectory() as d:
    p = subprocess.run([sys.executable, '-I', '-S', '-B', '-c', text], capture_output=True, text=True, timeout=60, cwd=d, env=dict(os.environ, VERIF_REPO=core.REPO))
    left = os.listdir(d)
  case.log(src)
  if p.returncode or f'outputs {n} (1, 2, 3, 4, 5, 6, 5, 4, 3, 2, 1)' not in p.stdout:
    raise Violation(f'with the standard library only: exit {p.returncode}, {p.stdout[-300:]} {p.stderr[-1500:]}')
  if left:
    raise Violation(f'files left in the current directory: {left}')
  case.seen('standard library only', src)


WORKLOADS = {
  'expressions': (expressions, 3600, 36000, 50),
  'big': (big, 60, 600, 25),
  'programs': (programs, 1000, 10000, 25),
  'reports': (reports, 600, 6000, 25),
  'notice': (notice, 600, 6000, 25),
  'arguments': (arguments, 4000, 40000, 50),
  'draws': (draws, 600, 6000, 25),
  'alone': (alone, 3, 3, 1),
}
