"""C19: program text cannot inject code; labels are reproduced verbatim."""
import ast
import builtins

from .. import anydice as A
from .. import core, progen, taps
from ..core import Skip, Violation
from ..model import Unsupported

RULE = ('programs with hostile labels, setting texts and comments (backslashes, braces, brackets, percent and hash signs, quotes, escapes, control and non-ASCII characters, Python fragments with canary calls), '
        'random and published programs: the syntax tree of the generated code is compared with that of the same program with harmless text, checked against what a program may do (assign its variables, define and call '
        'its functions and the runtime library), and the code is executed with canaries and recorded builtin accesses; labels and setting texts that arrive are compared with the source.  Non-trivial: distinct texts and programs.')
ASSUMPTIONS = ['strings contain no quote, no newline and no lone surrogate', '[NAME] only of variables that are set', 'builtins counted as dangerous are those that run code, reach files, the interpreter or attributes by name']
MUST_SEE = ('twin program', 'label verbatim', 'label with variable', 'setting text', 'same structure', 'code walked', 'restricted executor', 'comment')

PIECES = ['{', '}', '{{', '}}', '{A}', '{A!r}', '{A:>10}', '{0}', '{}', '\\', '\\n', '\\t', '\\x41', '\\u0041', '\\N{DIGIT ONE}', '\\{', '\\}', '\\\\', '\\101', "'", "''", "'''", '%', '%s', '%(A)s', '%%', '#', '# x', '\t',
          '\r', '\0', '\x0b', '\x0c', '\x1b', '\x1c', '\x85', '\x7f', '\u2028', '\u2029', '\ufeff', '\u200b', '\u202e', '\u00e9', 'e\u0301', '\u4e2d\u6587', '\U0001f3b2', '\U0010ffff', '\u00a0', '[a]', '[ A]', '[A ]', '[', ']', '[]', '[[', ']]',
          '[A1]', '[a B]', '{canary()}', '{CANARY()}', '\\{canary()}', "' + canary() + '", "'); canary(); ('", '");canary();("'.replace('"', "'"), '${canary()}', '$A', '`', '~', ';', ')', '(', '):', ',', 'named', 'output', 'None', 'True',
          'import os', "__import__('os')", 'f', 'r', 'b', 'lambda: 0', '<b>', '&amp;', ' ', '  ', '   ', 'AC 15', '2d6', 'A', '=', '!', '@', '|', '^', '*', '-', '\\r', '\\0', '{{A}}', '{vars}', "{vars['A']}", '{__builtins__}', 'a' * 40]
NAMES = ['A', 'B', 'LONG_NAME', 'C']
VALS = {'A': ('num', '3'), 'B': ('d', ('num', '2'), ('num', '6')), 'LONG_NAME': ('seq', (('num', '1'), ('num', '2'))), 'C': ('un', '-', ('num', '7'))}
SHOWN = {'A': '3', 'B': '2d6', 'LONG_NAME': '{?}', 'C': '-7'}


def hostile(rng, variables=True):
  while True:
    parts = []
    for _ in range(rng.choice([1, 1, 2, 3, 4, 6]) if rng.random() < 0.96 else rng.choice([30, 100, 400])):
      q = rng.random()
      if variables and q < 0.2:
        parts.append(f'[{rng.choice(NAMES)}]')
      elif q < 0.85:
        parts.append(rng.choice(PIECES))
      else:
        c = rng.choice([rng.randint(1, 0x7f), rng.randint(0x80, 0x24f), rng.randint(0x250, 0xd7ff), rng.randint(0xe000, 0x10ffff)])
        if c not in (10, 34):
          parts.append(chr(c))
    s = ''.join(parts)
    if not s or '"' in s or '\n' in s:
      continue
    p = A.string_pieces(s)[1]
    if all(isinstance(x, str) or x[1] in VALS for x in p):
      if variables or all(isinstance(x, str) for x in p):
        return s


def expected(s):
  return ''.join(x if isinstance(x, str) else SHOWN[x[1]] for x in A.string_pieces(s)[1])


def flags_of(rng):
  return {o: True for o in ('COMPILER_FLAG_NON_LOCAL_SCOPE', 'COMPILER_FLAG_OPERATOR_ON_INT', 'COMPILER_FLAG_FUNC_LIB_CONFLICT') if rng.random() < 0.35}


DANGER = {'open', 'exec', 'eval', 'compile', '__import__', 'input', 'exit', 'quit', 'globals', 'locals', 'getattr', 'setattr', 'delattr', 'breakpoint', 'help', 'print', 'memoryview', 'object', 'type', 'super', 'vars', 'dir', 'id', 'copyright', 'credits', 'license', 'classmethod', 'staticmethod', 'property', 'hasattr'}


class Builtins(dict):
  def __init__(self):
    super().__init__(vars(builtins))
    self.used = set()

  def __getitem__(self, k):
    self.used.add(k)
    return super().__getitem__(k)


def execute(case, code, safe, extra=None):
  """run generated code with canaries; -> outputs"""
  pe = core.submodule('parser.parse_and_exec')
  hits = []

  def canary(*a, **k):
    hits.append(a)
    return 'CANARY'
  g = {'canary': canary, 'CANARY': canary, **(extra or {})}
  b = None
  if not safe:
    b = Builtins()
    g['__builtins__'] = b
  else:
    case.seen('restricted executor')
  outs = (pe.safe_exec if safe else pe.unsafe_exec)(code, g)
  if hits:
    raise Violation('text of the program was executed: canary called')
  if b is not None and b.used & DANGER:
    raise Violation(f'generated code uses {sorted(b.used & DANGER)}:\n{code}')
  return [(a[0] if a else k.get('x'), k.get('named')) for a, k in outs]


def twin(rng, s):
  """nearly the same label: white space, case, normal form, one character"""
  import unicodedata
  r = rng.randrange(7)
  t = s
  if r == 0:
    t = ' '.join(s.split())
  elif r == 1:
    t = s.replace(' ', '  ')
  elif r == 2:
    t = s.swapcase() if '[' not in s else s + ' '
  elif r == 3:
    t = ' ' + s + '  '
  elif r == 4:
    t = unicodedata.normalize(rng.choice(['NFC', 'NFKC', 'NFD']), s)
  elif r == 5:
    t = s.strip()
  ok = t and '"' not in t and '\n' not in t and all(isinstance(x, str) or x[1] in VALS for x in A.string_pieces(t)[1])
  return t if ok else s + '.'


def labels(case):
  rng = case.rng
  pe = core.submodule('parser.parse_and_exec')
  labs = [hostile(rng) for _ in range(rng.randint(5, 20))]
  prog = [('assign', k, v) for k, v in VALS.items()] + [('output', ('num', str(i)), A.string_pieces(s)) for i, s in enumerate(labs)]
  fn = rng.random() < 0.3
  if fn:
    prog = prog[:4] + [('if', ((('num', '1'), tuple(prog[4:])),), None)]
  import random as rnd
  style, seed = rng.choice(['plain', 'tight', 'wild']), rng.getrandbits(32)
  tx = A.render(prog, rnd.Random(seed), style)
  flags = flags_of(rng)
  if rng.random() < 0.4:      # before it, a program that differs only in the labels, and in those only a little
    twins = [twin(rng, s) for s in labs]
    prog2 = [('assign', k, v) for k, v in VALS.items()] + [('output', ('num', str(i)), A.string_pieces(s)) for i, s in enumerate(twins)]
    if fn:
      prog2 = prog2[:4] + [('if', ((('num', '1'), tuple(prog2[4:])),), None)]
    outs = execute(case, pe.compile_anydice(A.render(prog2, rnd.Random(seed), style), dict(flags)), False)
    for s, (_, got) in zip(twins, outs):
      if got != expected(s):
        raise Violation(f'label {s!r} arrived as {got!r}, expected {expected(s)!r}')
    case.seen('twin program')
  case.log(flags, [s for s in labs])
  code = pe.compile_anydice(tx, dict(flags))
  outs = execute(case, code, rng.random() < 0.4)
  if [v for v, _ in outs] != list(range(len(labs))):
    raise Violation(f'outputs {core.short(outs)} of {len(labs)} labelled outputs')
  for s, (_, got) in zip(labs, outs):
    if got != expected(s):
      raise Violation(f'label {s!r} arrived as {got!r}, expected {expected(s)!r}')
    case.seen('label verbatim', s)
    if expected(s) != s:
      case.seen('label with variable')


def settings_text(case):
  """texts of set statements"""
  rng = case.rng
  pe = core.submodule('parser.parse_and_exec')
  pairs = [(hostile(rng), hostile(rng)) for _ in range(rng.randint(2, 8))]
  prog = [('assign', k, v) for k, v in VALS.items()] + [('set', A.string_pieces(a), A.string_pieces(b)) for a, b in pairs] + [('output', ('num', '1'), None)]
  tx = A.render(prog, rng, 'plain')
  case.log(pairs)
  got = []
  code = pe.compile_anydice(tx, flags_of(rng))
  execute(case, code, rng.random() < 0.4, {'settings_set': lambda a, b: got.append((a, b))})
  want = [(expected(a), expected(b)) for a, b in pairs]
  if got != want:
    raise Violation(f'setting texts arrived as {got!r}, expected {want!r}')
  case.seen('setting text', str(pairs), len(pairs))


class Mask(ast.NodeTransformer):
  def visit_JoinedStr(self, n):
    names = sorted(ast.dump(v) for v in n.values if isinstance(v, ast.FormattedValue))
    return ast.Constant(value='TEXT' + '|'.join(names))

  def visit_Constant(self, n):
    return ast.Constant(value='TEXT') if isinstance(n.value, str) else n


def shape(code):
  return ast.dump(Mask().visit(ast.parse(code)))


def structure(case):
  """hostile text against harmless text: same program otherwise"""
  rng = case.rng
  pe = core.submodule('parser.parse_and_exec')
  g = progen.Gen(rng)
  kinds = {'A': 'n', 'B': 'd', 'LONG_NAME': 's', 'C': 'n'}
  exprs = [g.expr('x', 2, kinds) for _ in range(rng.randint(3, 10))]
  flags = flags_of(rng)

  def build(texts, comment):
    t = []
    for k, v in VALS.items():
      t.append(A.text(A.toks_stmt(('assign', k, v))))
    for e, s in zip(exprs, texts):
      t.append(comment() + A.text(A.toks_stmt(('output', e, A.string_pieces(s)))) + comment())
    return '\n'.join(t)
  bad = [hostile(rng) for _ in exprs]
  # same variables in the same order, harmless text around
  good = [''.join('text' if isinstance(x, str) else f'[{x[1]}]' for x in A.string_pieces(s)[1]) for s in bad]

  def comment():
    if rng.random() < 0.5:
      return ''
    case.seen('comment')
    c = ''.join(rng.choice(PIECES + ['\n', '"', '\nimport os\n', '"""']) for _ in range(rng.randint(0, 5))).replace('\\', '')
    return ' \\' + c + '\\ '
  src1, src2 = build(bad, comment), build(good, lambda: '')
  case.log(src1)
  a, b = pe.compile_anydice(src1, dict(flags)), pe.compile_anydice(src2, dict(flags))
  if shape(a) != shape(b):
    raise Violation(f'text of labels or comments changed the generated code:\n{a}\n--- with harmless text:\n{b}')
  case.seen('same structure', src1)
  # every outcome text, as the code will build it
  for s in bad:
    case.seen('text', s)


FORBIDDEN = (ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.ClassDef, ast.With, ast.AsyncWith, ast.Try, ast.Raise, ast.Delete, ast.Await, ast.Yield, ast.YieldFrom, ast.AsyncFunctionDef, ast.AsyncFor)


_names = None


def runtime_names():
  """the names a compiled program can see, as observed from inside one (and which of them are modules)"""
  global _names
  if _names is None:
    (g, _), = taps.run_code('output({k: type(v).__name__ for k, v in globals().items() if k[:2] != "__"})')
    _names = set(g), {k for k, t in g.items() if t == 'module'}
  return _names


def walk(case, code, what):
  """what the generated code may contain"""
  libnames, modules = runtime_names()
  tree = ast.parse(code)
  defs = {n.name for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)}
  stored = {n.id for n in ast.walk(tree) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {a.arg for n in ast.walk(tree) if isinstance(n, ast.FunctionDef) for a in n.args.args}
  safe_builtins = set(dir(builtins)) - DANGER
  n = 0
  for node in ast.walk(tree):
    n += 1
    if isinstance(node, FORBIDDEN):
      raise Violation(f'{what}: generated code contains {type(node).__name__}:\n{code}')
    if isinstance(node, ast.Attribute) and (node.attr.startswith('_') or (isinstance(node.value, ast.Name) and node.value.id in modules)):
      raise Violation(f'{what}: generated code reaches {ast.unparse(node)}')
    if isinstance(node, ast.Name):
      if node.id.startswith('__') and node.id not in stored:
        raise Violation(f'{what}: generated code names {node.id}')
      if isinstance(node.ctx, ast.Load) and node.id not in libnames | defs | stored | safe_builtins | {'vars'}:
        if not (node.id.replace('_', '').isupper()):     # a variable the program never sets
          raise Violation(f'{what}: generated code uses unknown name {node.id}')
    if isinstance(node, ast.Call):
      f = node.func
      if isinstance(f, ast.Name) and f.id not in libnames | defs | stored and f.id not in safe_builtins:
        raise Violation(f'{what}: generated code calls {f.id}')
  case.seen('code walked', code, n)


def programs(case):
  rng = case.rng
  pe = core.submodule('parser.parse_and_exec')
  if rng.random() < 0.25:
    p = rng.choice(taps.corpus())
    src, flags = p['src'], dict(p.get('flags') or {})
    run = False
  else:
    r = progen.supported_program(rng, False, words=WORDS if rng.random() < 0.5 else None, cls=progen.LargeGen if rng.random() < 0.2 else None)
    if not r:
      raise Skip('no supported program')
    src, flags, run = A.render(r[0], rng, 'wild'), flags_of(rng), True
  case.log(flags, src)
  code = pe.compile_anydice(src, dict(flags))
  walk(case, code, 'program')
  if run:
    outs = execute(case, code, False)
    if len(outs) != len(r[1]):
      raise Violation(f'{len(outs)} outputs, expected {len(r[1])}')


WORDS = ['exec', 'eval', 'open', 'exit', 'import', 'getattr', 'globals', 'print', 'compile', 'input', 'vars', 'f', 'attack', 'with', 'lambda', 'roll', 'os', 'sys', 'system', 'locals', 'help', 'type', 'object']

WORKLOADS = {
  'labels': (labels, 1320, 13200, 10),
  'settings_text': (settings_text, 360, 3600, 10),
  'structure': (structure, 600, 6000, 10),
  'programs': (programs, 960, 9600, 10),
}
