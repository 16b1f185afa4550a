"""C20: options and function names never change what a program means."""
import builtins
import json
import keyword
import os
import subprocess
import sys

from .. import anydice as A
from .. import core, progen, taps
from ..core import Skip, Violation
from ..model import Unsupported
from . import c17

RULE = ('random programs without dynamic scope or integer operators under random combinations of all four compiler options and both executors; programs whose functions read, shadow and assign variables of their callers under the '
        'non-local-scope option; programs whose functions are named with words of Python, the runtime and the language (and override library functions); outputs and labels compared with the reference interpreter every time; '
        'generated code compared between repeated compilations and between processes with other hash seeds; the options object compared before and after.  Non-trivial: distinct (program, options).')
ASSUMPTIONS = ['labels do not show comparison results (known finding of C17)', 'programs using what the properties leave open are not judged', 'variable names do not start with an underscore under the restricted executor']
MUST_SEE = ('all options', 'dynamic scope', 'hostile name', 'near names', 'library override', 'same code twice', 'same code other process', 'options unchanged', 'restricted executor', 'scope probe')
FLAGS = ['COMPILER_FLAG_NON_LOCAL_SCOPE', 'COMPILER_FLAG_OPERATOR_ON_INT', 'COMPILER_FLAG_FUNC_LIB_CONFLICT', 'COMPILER_FLAG_FUNC_EXIST_CHECK']

RUNTIME = ['output', 'roll', 'myrange', 'get seq', 'settings set', 'anydice casting', 'max func depth', 'len', 'vars', 'math', 'random', 'itertools', 'functools', 'f', 'copy', 'print', 'printed', 'range', 'getattr', 'dummy', 'named',
           'f f', 'f output', 'f roll', 'anydice type casting', 'settings reset', 'seq', 'die', 'rv', 'myor', 'true', 'none', 'getiter', 'write', 'getitem', 'builtins', 'name', 'metaclass', 'import', 'f len', 'len f']
PY = sorted({k.lower() for k in keyword.kwlist + keyword.softkwlist if k.isalpha()} | {b for b in dir(builtins) if b.isalpha() and b.islower()})
LANG = list(A.RESERVED)
HOSTILE = [w for w in RUNTIME + PY + LANG if w != 'd']


def options_of(rng):
  f = {}
  for o in FLAGS:
    q = rng.random()
    if q < 0.4:
      f[o] = True
    elif q < 0.6 or (o == FLAGS[3] and q < 0.75):
      f[o] = False
  return f


def run(case, prog, want, m, flags, key, style='plain'):
  rng = case.rng
  before = dict(flags)
  safe = rng.random() < 0.3
  tx = A.render(prog, rng, style)
  case.log('flags', flags, 'safe' if safe else '', 'program:\n' + tx)
  pe = core.submodule('parser.parse_and_exec')
  core.submodule('settings').settings_reset()
  code = pe.compile_anydice(tx, flags)
  if flags != before:
    raise Violation(f'options passed in were changed: {before} became {flags}')
  case.seen('options unchanged')
  case.log('code:\n' + code)
  if safe:
    case.seen('restricted executor')
  outs = taps.run_code(code, safe)
  c17.compare(case, 'program', outs, want)
  case.seen(key, (tx, tuple(sorted(before.items()))))
  return code


def options(case):
  rng = case.rng
  r = progen.supported_program(rng, False, cls=progen.LargeGen if rng.random() < 0.2 else None, steps=20000)
  if not r:
    raise Skip('no supported program found')
  combos = {}
  while len(combos) < 4:
    f = options_of(rng)
    combos[tuple(sorted(f.items()))] = f
  for f in combos.values():
    run(case, *r, f, 'all options')


def dynamic(case):
  """functions see a copy of their caller's variables"""
  rng = case.rng
  int_ops = rng.random() < 0.3
  r = progen.supported_program(rng, int_ops, dynamic=True)
  if not r:
    raise Skip('no supported program found')
  f = options_of(rng)
  f[FLAGS[0]] = True
  f[FLAGS[1]] = int_ops or f.get(FLAGS[1], False)
  run(case, *r, f, 'dynamic scope', rng.choice(['plain', 'wild']))


def V(x):
  return ('var', x)


def num(n):
  return progen.num(n)


def out(e, label=None):
  return ('output', e, A.string_pieces(label) if label else None)


def scope_probe(case):
  """directed: chains of functions that assign, shadow, loop over and read each other's variables"""
  rng = case.rng
  names = rng.sample(['A', 'B', 'C', 'N', 'X', 'I', 'T_N', 'LONG_NAME'], 4)
  g = progen.Gen(rng)
  depth = rng.randint(1, 4)
  prog = []
  fn = ['lev' + 'abcdef'[i] for i in range(depth)]
  order = list(range(depth))
  bodies = {}
  for i in order:
    par = rng.choice([None, None, (rng.choice(names), rng.choice(['n', 'n', 's', 'd', None]))])
    body = []

    def change():
      q = rng.random()
      v = rng.choice(names)
      if q < 0.5:
        return ('assign', v, ('bin', rng.choice('+-*'), V(rng.choice(names)), num(rng.randint(1, 9))))
      if q < 0.7:
        return ('loop', v, ('seq', (('range', num(1), num(rng.randint(0, 3))),)), (('assign', rng.choice(names), ('bin', '+', V(rng.choice(names)), V(v))),))
      if q < 0.85:
        return ('if', ((('bin', '>', V(rng.choice(names)), num(rng.randint(-3, 9))), (('assign', v, num(rng.randint(10, 50))),)),), (('assign', v, ('bin', '-', V(v), num(1))),) if rng.random() < 0.5 else None)
      return ('assign', v, num(rng.randint(100, 900)))
    for _ in range(rng.randint(0, 3)):
      body.append(change())
    e = ('bin', rng.choice('+-'), V(rng.choice(names)), V(rng.choice(names)))
    if i + 1 < depth:
      nxt = bodies.setdefault('par', {})
      call = ('call', (fn[i + 1], 'HOLE'))
      tmp = rng.choice(names)
      body.append(('assign', tmp, call) if rng.random() < 0.5 else ('assign', 'KEEP' + fn[i][-1].upper(), call))
      for _ in range(rng.randint(0, 2)):
        body.append(change())
      e = ('bin', '+', e, ('bin', '*', V(tmp if body and body[-1][0] == 'x' else rng.choice(names)), num(rng.randint(1, 5))))
    body.append(('result', e))
    bodies[i] = (par, body)
  # fill in the calls according to the callee's parameter

  def fix(x):
    if isinstance(x, tuple):
      if x and x[0] == 'call' and 'HOLE' in x[1]:
        i = fn.index(x[1][0])
        par = bodies[i][0]
        if par is None:
          return ('call', (fn[i],))
        if par[1] in ('n', 's') and rng.random() < 0.4:     # every outcome is its own call, with its own copy
          return ('call', (fn[i], ('d', num(rng.randint(1, 2)) if par[1] == 's' else None, num(rng.randint(2, 3)))))
        return ('call', (fn[i], V(rng.choice(names)) if rng.random() < 0.6 else num(rng.randint(0, 5))))
      return tuple(fix(y) for y in x)
    return x
  rng.shuffle(order)
  for i in order:
    par, body = bodies[i]
    prog.append(('func', (fn[i],) if par is None else (fn[i], par), tuple(fix(b) for b in body)))
  for v in names:
    prog.append(('assign', v, num(rng.randint(0, 9))))
  for _ in range(rng.randint(1, 3)):
    prog.append(fix(out(('call', (fn[rng.randrange(depth) if rng.random() < 0.5 else 0], 'HOLE')))))
    prog.append(out(num(0), ' '.join(f'[{v}]' for v in names)))
    if rng.random() < 0.5:
      prog.append(('assign', rng.choice(names), num(rng.randint(0, 20))))
  m = A.Machine(False, 4000)
  try:
    want = m.run(tuple(prog))
  except Unsupported as e:
    raise Skip(str(e))
  f = options_of(rng)
  f[FLAGS[0]] = True
  run(case, tuple(prog), want, m, f, 'scope probe')


def names(case):
  rng = case.rng
  pick = [rng.choice(HOSTILE) for _ in range(5)] + [rng.choice(RUNTIME) for _ in range(3)]
  m = None
  for _ in range(30):
    prog = []
    kinds = {}
    fns = []
    for w in rng.sample(pick, rng.randint(1, 3)):
      q = rng.random()
      if q < 0.5:
        parts = (w,)
      elif q < 0.62:      # no words at all
        parts = tuple((v, rng.choice(['n', 'n', None, 's', 'd'])) for v in 'QUWE'[:rng.choice([1, 2, 2, 3, 3, 4])])
      elif q < 0.8:
        parts = (w, ('Q', rng.choice(['n', 's', 'd', None])))
      else:
        parts = (('Q', 'n'), w, rng.choice(pick)) if rng.random() < 0.5 else (w, rng.choice(pick))
      if A.fname(parts) in A.LIBNAMES or A.fname(parts) in [A.fname(p) for p in fns]:
        continue
      fns.append(parts)
      inner = {p[0]: p[1] or 'n' for p in parts if not isinstance(p, str)}
      g = progen.Gen(rng)
      prog.append(('func', parts, (('assign', 'LOC' + 'ABC'[len(fns) - 1], g.expr('n', 1, inner)), ('result', g.expr(rng.choice('nd'), 2, inner)))))
      prog.append(('func', parts, (('result', ('num', str(rng.randint(1, 99)))),))) if rng.random() < 0.15 else None
    g = progen.Gen(rng)
    for v, k in (('A', 'n'), ('S', 's'), ('DD', 'd')) + ((('_'.join('X' * max(1, len(fns[-1]) - rng.choice([0, 0, 1]))), 'n'),) if fns and rng.random() < 0.7 else ()):      # a variable called like the code of a function without words
      prog.append(('assign', v, g.leaf(k, {})))
      kinds[v] = k
    for p in fns:
      call = ('call', tuple(x if isinstance(x, str) else num(rng.randint(0, 5)) for x in p))
      prog.append(out(call))
      prog.append(out(('bin', '+', call, g.expr('d', 1, kinds))))
    rng.shuffle(pick)
    for _ in range(3):      # everything the runtime provides still works
      prog.append(out(g.expr('x', 2, kinds), rng.choice([None, '[A] x'])))
    prog.append(('loop', 'I', ('seq', (('range', num(1), num(2)),)), (out(('bin', '+', ('un', '#', V('S')), V('I'))),)))
    prog.append(('set', A.string_pieces('explode depth'), num(1)))
    prog.append(out(('call', ('explode', ('d', None, num(3))))))
    prog.append(out(('call', ('count', V('S'), 'in', V('DD')))))
    prog = tuple(p for p in prog if p)
    m = A.Machine(False, 4000)
    try:
      want = m.run(prog)
    except Unsupported:
      m = None
      continue
    break
  if m is None:
    raise Skip('no supported program found')
  run(case, prog, want, m, options_of(rng), 'hostile name', rng.choice(['plain', 'wild']))
  for p in fns:
    case.seen('hostile name', A.fname(p))


LOUD = sorted({w.upper() for w in HOSTILE if w.isalpha()} | {f'{a}_{b}' for a in ('RESULT', 'X', 'LEN') for b in ('RESULT', 'OUTPUT', 'N')} | {'RESULTS', 'MYVARS', 'TT'})
NEAR = [['A', 'A_', 'A__', 'AA', 'A_A'], ['T_N', 'T_N_', 'T_N__', 'T_S', 'T'], ['X', 'X_', 'XX', 'X_X', 'F_X'], ['Q', 'DUMMY', 'D', 'DD', 'VARS'], ['SELF', 'NONE', 'RV', 'N', 'S']]


def params(case):
  """functions whose parameters have names near each other, or one name twice (the first one counts)"""
  rng = case.rng
  near = rng.choice(NEAR) if rng.random() < 0.6 else rng.sample(LOUD, 5)
  reads = rng.random() < 0.4
  prog = [('assign', v, num(rng.randint(50, 90))) for v in near]
  for i in range(rng.randint(1, 2)):
    n = rng.randint(2, 5)
    ps = [rng.choice(near[:3]) if rng.random() < 0.7 else rng.choice(near) for _ in range(n)]
    if rng.random() < 0.5:
      ps[rng.randrange(1, n)] = ps[0]
    ps = [(v, rng.choice(['n', 'n', None, 's', 'd'])) for v in ps]
    parts = [('and', 'or', 'w')[rng.randrange(3)]] + [y for x in ps for y in ((x, 'w') if rng.random() < 0.4 else (x,))] + ['abc'[i]]
    e = num(0)
    for v in dict.fromkeys(near if reads else [v for v, _ in ps]):
      e = ('bin', '+', ('bin', '*', e, num(7)), ('bin', '*', V(v), num(1)))
    body = []
    if rng.random() < 0.4:
      body.append(('assign', rng.choice([v for v, _ in ps]), num(rng.randint(1, 5))))
    prog.append(('func', tuple(parts), tuple(body) + (('result', e),)))
    for _ in range(2):
      dice = rng.randrange(n) if rng.random() < 0.4 else -1
      it = iter(range(n))
      prog.append(out(('call', tuple(x if isinstance(x, str) else (('d', None, num(3)) if next(it) == dice else num(rng.randint(0, 9))) for x in parts))))
    prog.append(out(num(0), ' '.join(f'[{v}]' for v in near)))
  m = A.Machine(False, 4000)
  try:
    want = m.run(tuple(prog))
  except Unsupported as e:
    raise Skip(str(e))
  f = options_of(rng)
  if reads:
    f[FLAGS[0]] = True
  run(case, tuple(prog), want, m, f, 'near names')


OVER = [('absolute', ('Q', 'n')), (('Q', 's'), 'contains', ('P', 'n')), ('count', ('Q', 's'), 'in', ('P', 's')), ('explode', ('Q', 'd')), ('highest', ('Q', 'n'), 'of', ('P', 'd')), ('lowest', ('Q', 'n'), 'of', ('P', 'd')), ('maximum', 'of', ('Q', 'd')),
        ('reverse', ('Q', 's')), ('sort', ('Q', 's')), ('highest', 'of', ('Q', 'n'), 'and', ('P', 'n')), ('lowest', 'of', ('Q', 'n'), 'and', ('P', 'n')), ('middle', ('Q', 'n'), 'of', ('P', 'd'))]


def library_calls(rng):
  n = lambda: num(rng.randint(1, 3))    # noqa: E731
  s = lambda: ('seq', tuple(num(rng.randint(0, 5)) for _ in range(rng.randint(1, 4))))   # noqa: E731
  d = lambda: ('d', n(), num(rng.randint(2, 4)))    # noqa: E731
  calls = []
  for o in OVER:
    calls.append(('call', tuple(x if isinstance(x, str) else {'n': n, 's': s, 'd': d}[x[1]]() for x in o)))
  return calls


def override(case):
  """a program may redefine library functions; the others are not disturbed"""
  rng = case.rng
  calls = library_calls(rng)
  prog = [out(c) for c in rng.sample(calls, 4)]
  mine = rng.sample(OVER, rng.randint(1, 3))
  for i, o in enumerate(mine):
    ps = [x[0] for x in o if not isinstance(x, str)]
    prog.append(('func', o, (('result', num(rng.randint(1000, 9999)) if rng.random() < 0.5 else ('bin', '*', V(rng.choice(ps)), num(10))),)))
  if rng.random() < 0.5:
    prog.append(('func', (rng.choice(['roll', 'output', 'len', 'if', 'vars']),), (('result', num(5)),)))
  prog += [out(c) for c in calls]
  m = A.Machine(False, 4000)
  try:
    want = m.run(tuple(prog))
  except Unsupported as e:
    raise Skip(str(e))
  run(case, tuple(prog), want, m, options_of(rng), 'library override')


CHILD = '''
import sys, json
sys.path.insert(0, {verif!r})
from monitor import core
core.load_library()
pe = core.submodule('parser.parse_and_exec')
print(json.dumps([pe.compile_anydice(t, f) for t, f in json.load(sys.stdin)]))
'''


def deterministic(case):
  rng = case.rng
  pe = core.submodule('parser.parse_and_exec')
  jobs = []
  for i in range(12):
    words = rng.sample(HOSTILE, 6) if rng.random() < 0.6 else None
    pg = progen.ProgGen(rng)
    if words:
      pg.words = words
    tx = A.render(pg.program(), rng, 'plain')
    if i % 4 == 0:
      tx = '\n'.join(A.text(A.toks_stmt(out(c))) for c in library_calls(rng)) + f'\nfunction: {rng.choice(["roll", "output", "len", "if"])} {{ result: 1 }}\n' + tx
    jobs.append((tx, options_of(rng)))
  first = []
  for tx, f in jobs:
    case.log(f, tx)
    keep = dict(f)
    a, b = pe.compile_anydice(tx, f), pe.compile_anydice(tx, f)
    if f != keep:
      raise Violation(f'options passed in were changed: {keep} became {f}')
    if a != b:
      raise Violation(f'two compilations differ:\n{a}\n---\n{b}')
    first.append(a)
    case.seen('same code twice', (tx, str(f)))
  env = dict(os.environ, PYTHONHASHSEED=str(rng.randint(1, 10 ** 6)))
  p = subprocess.run([sys.executable, '-B', '-c', CHILD.format(verif=core.VERIF)], input=json.dumps(jobs), capture_output=True, text=True, env=env, timeout=200)
  if p.returncode:
    raise Violation('compilation in another process failed: ' + p.stderr[-800:])
  for (tx, f), a, b in zip(jobs, first, json.loads(p.stdout)):
    if a != b:
      raise Violation(f'another process compiled the same text differently:\n{tx}\n{a}\n---\n{b}')
    case.seen('same code other process')


FAULTS = [('a variable without a value', 'output A_A + 1'), ('a variable without a value', 'A: 2\nif A > 1 { B: A + C }\noutput B'), ('a variable without a value', 'output 1 named "[Q]"'), ('a variable without a value', 'output {1, Q}'),
          ('a variable without a value', 'output #Q'), ('a variable without a value', 'output 2dQ'), ('a variable without a value', 'loop I over {1..3} { R: R + I }\noutput R'), ('a variable without a value', 'function: f X:n { result: X + U }\noutput [f 2]'),
          ('a variable without a value', 'function: f X:n { V: X result: X }\noutput [f 2]\noutput V'), ('a variable without a value', 'output [highest of Q and 2]'), ('a variable without a value', 'output 1 @ Q'), ('a variable without a value', 'output !Q'),
          ('a variable without a value', 'output 1 & Q'), ('a die as position', 'output d6 @ {1, 2}'), ('a die as range', 'output {1..d6}'), ('a die as condition', 'if d2 { A: 1 }\noutput A'), ('division by zero', 'output 3 / 0'),
          ('division by zero', 'output d6 / (d3 - 1)'), ('an unknown setting', 'set "colour" to 3\noutput 1'), ('a bad setting', 'set "explode depth" to 0\noutput 1')]


def faults(case):
  """a program whose run fails does so under every option"""
  rng = case.rng
  pe = core.submodule('parser.parse_and_exec')
  kind, tx = rng.choice(FAULTS)
  pre = rng.choice(['', 'output 5\n', 'Z: 3\n', 'function: g A:n Q:n { result: A + Q }\noutput [g 1 2]\n', 'function: roll { result: 1 }\n', 'function: T_N X:s { result: X }\n'])
  f = options_of(rng)
  case.log(f, pre + tx)
  core.lib.settings_reset()
  try:
    for safe in (False, True):
      try:
        code = pe.compile_anydice(pre + tx, dict(f))
        outs = taps.run_code(code, safe)
      except (core._Timeout, KeyboardInterrupt, MemoryError):
        raise
      except Exception:
        continue
      raise Violation(f'{kind}: {tx!r} after {pre!r} under {f} gives {core.short(outs)} instead of an error')
  finally:
    core.lib.settings_reset()
  case.seen('failing program', (pre, tx, str(sorted(f.items()))))


WORKLOADS = {
  'faults': (faults, 600, 6000, 20),
  'options': (options, 360, 3600, 5),
  'dynamic': (dynamic, 600, 6000, 10),
  'scope_probe': (scope_probe, 800, 8000, 10),
  'names': (names, 880, 8800, 10),
  'params': (params, 400, 4000, 10),
  'override': (override, 320, 3200, 10),
  'deterministic': (deterministic, 24, 240, 1),
}
