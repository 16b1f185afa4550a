"""C18: invalid programs are refused, valid ones are not, and a refusal leaves nothing behind."""
import re

from .. import anydice as A
from .. import core, progen, taps
from ..core import Violation

RULE = ('texts derived from generated and published programs by 0-3 edits of characters (language and alien ones) or tokens (delete, duplicate, swap, replace, truncate), token soups, and crafted cases '
        '(empty, comment only, unclosed string or comment, unknown function, no output, unknown option), compiled in random order within one process; an independent recognizer decides whether each '
        'must be refused or accepted, and accepted texts must give the code they gave before any refusal.  Non-trivial: distinct judged texts.')
ASSUMPTIONS = ['texts the properties do not decide are skipped: empty or adjacent strings, strings used as values, d inside a function name, unknown parameter types, a roll directly after a roll',
               'function existence is judged with the default options']
MUST_SEE = ('refused', 'accepted', 'illegal character', 'unknown function', 'no output', 'unknown option', 'syntax', 'unclosed', 'glued', 'history')

CHARS = list('+-*/^:<>=@#|&!.,(){}[]"\\ \n\tdabnsABCX_0129') + ['..', '!=', 'named', 'to', 'over', 'else', 'output ', 'result:', 'd', 'function', '""']
ALIEN = list("$%?;'`~\u00e9\u0661\uff21\u4e2d\u2212\u00d7\U0001f3b2\u00bd\u00b2\x00\x01\x7f\u201c") + list("\x0c\x0b\r\x85\xa0\u2028\u3000\u200b\x1c\x08")


def compile_(text, flags=None):
  return core.submodule('parser.parse_and_exec').compile_anydice(text, flags)


def judge(case, text, accepted=None):
  v, why = A.verdict(text)
  if v == 'grey':
    case.seen('not judged')
    return v
  case.log(v, why, 'text:\n' + text)
  try:
    code = compile_(text)
    err = None
  except Exception as e:
    code, err = None, e
  if v == 'invalid':
    if err is None:
      raise Violation(f'refused by the language ({why}) but compiled to:\n{code}')
    case.seen('refused', text)
    case.seen('illegal character' if why.startswith('character') else 'unknown function' if why.startswith('unknown function') else 'no output' if why == 'no output' else 'syntax')
    if why.startswith("character '\"'") or why.startswith("character '\\\\'"):
      case.seen('unclosed')
  else:
    if err is not None:
      raise Violation(f'well-formed program refused: {type(err).__name__}: {err}')
    if not isinstance(code, str) or not code.strip():
      raise Violation(f'well-formed program compiled to {code!r}')
    case.seen('accepted', text)
    if accepted is not None:
      accepted[text] = code
  return v


def small_program(rng):
  if rng.random() < 0.2:
    p = rng.choice([p for p in taps.corpus() if len(p['src']) < 900])
    return p['src']
  for _ in range(20):
    if rng.random() < 0.1:
      tx = A.render(progen.LargeGen(rng).program(), rng, rng.choice(['plain', 'tight', 'wild']))
      if len(tx) < 6000:
        return tx
    pg = progen.ProgGen(rng)
    prog = pg.program()
    k = rng.randint(1, 4)
    if rng.random() < 0.7:
      prog = prog[:k] + prog[-1:]
    tx = A.render(prog, rng, rng.choice(['plain', 'tight', 'wild']))
    if len(tx) < 1500:
      return tx
  return 'output 1d6 named "x"'


def mutate_chars(rng, tx):
  i = rng.randrange(len(tx) + 1)
  q = rng.random()
  if q < 0.3:
    return tx[:i] + tx[i + rng.choice([1, 1, 1, 2, 5]):]
  if q < 0.6:
    return tx[:i] + rng.choice(CHARS) + tx[i:]
  if q < 0.7:
    return tx[:i] + rng.choice(ALIEN) + tx[i + rng.randint(0, 1):]
  if q < 0.85:
    return tx[:i] + rng.choice(CHARS) + tx[i + 1:]
  if q < 0.93:
    return tx[:i] + tx[i + 1:i + 2] + tx[i:i + 1] + tx[i + 2:]
  return tx[:i] if rng.random() < 0.6 else tx[i:]


def toks(tx):
  t, _ = A.tokenize(tx)
  return ['"' + x + '"' if k == 'str' else x for k, x in t]


def mutate_tokens(rng, tx):
  try:
    t = toks(tx)
  except (A.Invalid, A.Grey):
    return mutate_chars(rng, tx)
  if not t:
    return tx
  i = rng.randrange(len(t))
  q = rng.random()
  if q < 0.35:
    del t[i]
  elif q < 0.5:
    t.insert(i, t[i])
  elif q < 0.65:
    j = rng.randrange(len(t))
    t[i], t[j] = t[j], t[i]
  elif q < 0.8:
    t[i] = rng.choice(['+', '(', ')', '{', '}', '[', ']', ':', 'd', 'A', '3', 'named', 'output', 'else', '"s"', ',', '..', '.', '=', '!', 'foo', 'to', 'if'])
  elif q < 0.9:
    t.insert(i, rng.choice(['+', '(', ')', '{', '}', '[', ']', ':', 'd', 'A', '3', 'named', 'output', 'else', '"s"', ',', '..', '.', '=', '!', 'foo', 'to', 'if']))
  else:
    t = t[:i]
  return A.text(t, rng, 'plain')


def mutants(case):
  rng = case.rng
  base = small_program(rng)
  n = 0
  judge(case, base)
  for _ in range(30):
    tx = base
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
      tx = mutate_tokens(rng, tx) if rng.random() < 0.5 else mutate_chars(rng, tx)
    if judge(case, tx) != 'grey':
      n += 1
    if n >= 7:
      return


SKELETONS = ['output {1,2}', 'output {1..3}', 'output {}', 'output { }', 'output 2d6', 'output (1)', 'A: 3 output A', 'output [absolute 3]', 'output [highest 1 of 2d6]', 'output -1', 'output #{1}', 'output !{1}', 'output 1 @ {1}',
             'if 1 { output 1 }', 'if 1 { output 1 } else { output 2 }', 'if 1 { output 1 } else if 2 { output 2 }', 'loop A over {1} { output A }', 'function: f A:n { result: A } output [f 1]', 'function: f A { } output 1',
             'function: f { result: 1 } output [f]', 'set "explode depth" to 3 output 1', 'output 1 named "x"', 'output 1.5', 'output d{1}', 'output {1, 2..3, {4}}', 'output 1 + 2', 'output 1 >= 2', 'output 1 = 2', 'output d6', 'output {d6}', 'if 1 { } output 1',
             'function: f A:s B:d { result: 1 } output [f 1 2]', 'output ({1})', 'output {(1)}', 'A: {} output A', 'A: d6 output A named "[A]"']
MARKS = ['{', '}', '(', ')', '[', ']', ',', '..', '.', ':', '=', '!', '#', '@', '+', '-', '*', '/', '^', '<', '>', '&', '|', 'd', '1', 'A', '"x"', 'f', 'if', 'else', 'loop', 'over', 'named', 'to', 'set', 'output', 'result', 'function', 'n', 's']


def tiny(case):
  """every construct in its smallest form, with 0-2 marks put in, left out or replaced"""
  rng = case.rng
  for _ in range(25):
    t = toks(rng.choice(SKELETONS))
    if rng.random() < 0.2:
      t = toks(rng.choice(SKELETONS)) + t
    for _ in range(rng.choice([0, 1, 1, 1, 2, 2])):
      i, q = rng.randrange(len(t) + 1), rng.random()
      m = rng.choice(MARKS[:12] if rng.random() < 0.5 else MARKS)
      if q < 0.55 or i == len(t):
        t.insert(i, m)
      elif q < 0.75:
        del t[i]
      else:
        t[i] = m
      if not t:
        t = [m]
    judge(case, A.text(t, rng, rng.choice(['plain', 'plain', 'tight'])))


VOC = ['output', 'named', 'A', 'B', ':', '1', '2', 'd', '6', '+', '-', '*', '(', ')', '{', '}', ',', '..', '[', ']', '"x"', 'if', 'else', 'loop', 'over', 'result', 'function', 'f', '@', '!', '#', '=', '<', '&', '|', '.', 'set', 'to', 'absolute', 'X']


def soup(case):
  rng = case.rng
  for _ in range(8):
    body = ' '.join(rng.choice(VOC) for _ in range(rng.randint(1, 7)))
    where = rng.random()
    tx = body if where < 0.2 else f'output {body}' if where < 0.6 else f'A: {body} output A' if where < 0.8 else f'function: f A:n {{ result: A }} output [f {body}] named "x"'
    judge(case, tx)


def many(rng):
  n = rng.choice([70, 150, 300, 600])
  st = []
  for i in range(n):
    w = rng.choice('abcefgprwz') + ''.join('abcefghijk'[int(c)] for c in str(i)) + 'w'
    r = rng.random() if i % 7 else 0
    st.append(f'function: {w} {{ result: {i} }}\noutput [{w}]' if r < 0.8 else f'V: {i}' if r < 0.9 else f'if V {{ V: {i} }}' if i else 'V: 1')
  return '\n'.join(st)


def crafted(case):
  rng = case.rng
  base = small_program(rng)
  bad = [
    ('empty', ''), ('blank', ' \n\t \n'), ('comment only', '\\ output 1 \\'), ('no output', 'A: 2d6'), ('no output', 'function: ' + rng.choice(['output it', 'output', 'an output A:n', 'named output']) + ' { result: 1 }'), ('no output', 'function: f { result: 2 } B: [f] loop C over {1..2} { D: C }'), ('no output in comment', 'A: 1 \\ output A \\'),
    ('unclosed string', base + '\noutput 1 named "abc'), ('unclosed string, next line', 'output 1 named "abc\n"\noutput 2'), ('unclosed comment', base + '\n\\ comment'),
    ('alien', base + '\noutput 2 ' + rng.choice(ALIEN)), ('alien at start', rng.choice(ALIEN) + base), ('trailing brace', base + '\n}'), ('missing brace', base + '\nif 1 { output 2'),
    ('half statement', base + '\noutput'), ('half assignment', base + '\nQ:'), ('lone else', base + '\nelse { output 1 }'), ('operator at the end', base + '\noutput 1 +'),
    ('two numbers', base + '\noutput 1 2'), ('open range', base + '\noutput {1..}'), ('lower-case variable', base + '\noutput abc'), ('assign to number', base + '\n3: A'),
    ('comma', base + '\noutput {1,,2}'), ('trailing comma', base + '\noutput {1,2,}'), ('empty call', base + '\noutput []'), ('named without text', base + '\noutput 1 named'),
    ('named variable', base + '\noutput 1 named A'), ('dot', base + '\noutput 1.'), ('parentheses', base + '\noutput (1'), ('parentheses', base + '\noutput 1)'), ('python', base + '\nimport os'),
    ('python call', base + '\noutput print(1)'), ('double colon', base + '\nA:: 3'), ('loop without over', base + '\nloop A {1} { output 2 }'), ('function without colon', base + '\nfunction f A { result: 1 }'),
    ('result without colon', base + '\nfunction: zz A { result A }'), ('unknown function', base + f'\noutput [{rng.choice(NAMES)}]'), ('unknown function', base + f'\noutput [{rng.choice(NAMES)} 3]'),
    ('unknown function in a function', base + f'\nfunction: zzz Q:n {{ result: [qqq Q] }}\noutput 2'), ('arity', base + '\nfunction: yyy Q:n { result: Q }\noutput [yyy 1 2]'),
    ('unknown function', base + '\noutput ' + rng.choice(['[absolute x]', '[x]', '[highest x of 2d6]', '[highest 1 of x]', '[explode x]', '[count x in {1}]', '[absolute 1 x]', '[lowest x of x]', '[sort x]', '[x absolute 1]'])),
    ('unknown function', base + f'\nfunction: yyy {rng.choice(["Q", "Q:n", "Q:s", ""])} zz {{ result: 1 }}\noutput ' + rng.choice(['[yyy x zz]', '[yyy 1 zz x]', '[yyy x]', '[x zz]', '[yyy zz x]', '[x]', '[yyy_x zz]'])),
    ('alien at the end', base.rstrip() + rng.choice(ALIEN + [';'] * 8) + rng.choice(['', '', '\n', ' ', '\n\n'])), ('alien at the end', rng.choice(['output 1', 'output 2d6 named "x"', 'if 1 { output 1 }']) + rng.choice(ALIEN + [';'] * 8) + rng.choice(['', '\n'])),
    ('alien between lines', base.rstrip() + rng.choice(ALIEN + [';'] * 8) + '\noutput 1'), ('byte order mark', '\ufeff' + base), ('code fence', '```\n' + base + '\n```'), ('hash comment', base + '\noutput 1 # comment'), ('slash comment', base + '\n// comment'),
    ('wrong words', base + '\noutput [highest 1 off 2d6]'), ('library arity', base + '\noutput [absolute 1 2]'),
  ]
  for nm, tx in rng.sample(bad, 12):
    if rng.random() < (0.25 if 'function' in nm or 'arity' in nm else 0.02) and tx.startswith(base):      # the same after hundreds of statements, functions defined and called among them
      tx = many(rng) + '\n' + tx
    v, why = A.verdict(tx)
    if v != 'invalid':
      continue       # e.g. the base program defines the function
    case.log(nm, tx)
    try:
      code = compile_(tx)
    except Exception:
      case.seen('refused', tx)
      case.seen({'unclosed string': 'unclosed', 'unclosed comment': 'unclosed', 'no output': 'no output', 'unknown function': 'unknown function'}.get(nm, 'syntax'))
      continue
    raise Violation(f'{nm}: accepted:\n{tx}\n--- compiled to\n{code}')
  case.refused('compile_anydice(None)', compile_, None)


NUMBERS = ['1e5', '1_000', '0x1F', '1.5.2', '1.5e3', '2.', '.5', '1..2', '1,000', '12A', '3d', 'd2d', '1L', '5%', '1/2', '1-', '0b1', '1.d6', '1 .5', '1. 5', '007', '0', '00', '1__', '6dA', '1f']
WORDS = ['A1', 'A2', 'B_1', '_A', '_', '__', 'A_', 'Ab', 'aB', 'AaA', 'a_b', 'A.B', 'A-', 'a1', '1a', 'A:', 'A B', 'D', 'dA', 'Ad', 'd_', 'Outputs', 'OUTPUT', 'outputs', 'ifA', 'A0', 'X2Y', 'abc1', '[A]', 'A[1]', 'A(1)', 'A\'', 'N1', 'Named', 'named1', 'to1']


def glued(case):
  """marks directly after or inside words and numbers; other notations of numbers and names"""
  rng = case.rng
  base = small_program(rng)
  for _ in range(8):
    q = rng.random()
    if q < 0.45:
      w = [m for m in re.finditer(r'[A-Z_]+|[a-z]+|[0-9]+', base)]
      m = rng.choice(w)
      at = rng.choice([m.end(), m.end(), m.start(), (m.start() + m.end()) // 2])
      tx = base[:at] + rng.choice(['1', '2', '0', 'A', 'B', '_', 'a', 'd', 'x', 'e', '.', '9', ':', '-', "'", '#', '!', '..', '_1', '1_']) + base[at:]
    else:
      nm, n = rng.choice(WORDS), rng.choice(NUMBERS)
      tx = rng.choice(['output {n}', 'output {n}d6', 'output d{n}', 'A: {n} output A', 'output {{1, {n}}}', 'output {{1..{n}}}', 'output {n} + 1', 'output [absolute {n}]', 'output 2@{n}', 'output -{n}', 'set "explode depth" to {n} output 1',
                       '{w}: 3 output 1', '{w}: 3 output {w}', 'A: 1 {w}: 5 output A', 'output {w}', 'A: 2 output A{w}', 'loop {w} over {{1}} {{ output 1 }}', 'loop A over {{1}} {{ {w}: A }} output 1', 'function: f {w} {{ result: 1 }} output 1',
                       'function: f {w}:n {{ result: {w} }} output [f 2]', 'function: {w} {{ result: 1 }} output 2', 'function: f {w} {{ result: 1 }} output [f {w}]', '{w} 1', 'output 1 {w} "x"', 'output 1 named "x" {w}: {n} output {w}',
                       'if {w} {{ output 1 }}', 'if 1 {{ {w}: 2 }} output 1', 'output 1 {w}: 2', 'A: 3 function: f {{ {w}: {n} result: 1 }} output [f]']).format(n=n, w=nm)
    judge(case, tx)
  case.seen('glued', base)


NAMES = ['exit', 'quit', 'list', 'eval', 'exec', 'open', 'input', 'globals', 'locals', 'vars', 'dir', 'roll', 'output', 'print', 'len', 'help', 'copyright', 'license', 'foo', 'math', 'random', 'abs', 'type', 'dict', 'breakpoint', 'lambda', 'import', 'highest',
         'sort', 'get seq', 'settings set', 'anydice casting', 'myrange', 'max func depth']
OPTIONS = ['COMPILER_FLAG_NON_LOCAL_SCOPE', 'COMPILER_FLAG_OPERATOR_ON_INT', 'COMPILER_FLAG_FUNC_LIB_CONFLICT', 'COMPILER_FLAG_FUNC_EXIST_CHECK']


def options(case):
  rng = case.rng
  base = 'A: 2d6\nfunction: f B:n { result: B + 1 }\noutput [f A] named "x[A]"'
  good = {o: rng.random() < 0.5 for o in OPTIONS if rng.random() < 0.5}
  case.log('options', good)
  if not compile_(base, dict(good)):
    raise Violation('nothing compiled')
  case.seen('accepted', str(sorted(good.items())))
  bad = dict(good)
  o = rng.choice(OPTIONS)
  name = rng.choice([o.lower(), o + '_', o[:-1], 'FOO', 'NON_LOCAL_SCOPE', 'COMPILER_FLAG', o.replace('FLAG', 'OPT'), 'debug', '', ' ' + o])
  bad[name] = rng.choice([True, False, None, 1])
  case.log('options', bad)
  case.refused(f'options {bad}', compile_, base, bad)
  case.seen('unknown option', name)


def history(case):
  """valid texts compile to the same code before and after refusals (every parser built from scratch)"""
  core.fresh_tables = True
  try:
    _history(case)
  finally:
    core.fresh_tables = False


def _history(case):
  rng = case.rng
  good = []
  while len(good) < 3:
    tx = small_program(rng)
    if A.verdict(tx)[0] == 'valid':
      good.append(tx)
  first = {tx: compile_(tx) for tx in good}
  for _ in range(7):
    if rng.random() < 0.5:
      tx = rng.choice(good)
      for _ in range(2):
        tx = mutate_tokens(rng, tx) if rng.random() < 0.5 else mutate_chars(rng, tx)
      if rng.random() < 0.3:
        tx += rng.choice(['\noutput 1 named "abc', '\n\\', '\nif 1 {', '$', '\n[f'])
      judge(case, tx)
    else:
      tx = rng.choice(good)
      case.log('again', tx)
      code = compile_(tx)
      if code != first[tx]:
        raise Violation(f'earlier compilations changed what this text compiles to:\n{first[tx]}\n---\n{code}')
      case.seen('history', tx)


WORKLOADS = {
  'mutants': (mutants, 220, 3000, 5),
  'tiny': (tiny, 240, 3000, 5),
  'glued': (glued, 160, 1600, 5),
  'soup': (soup, 100, 1200, 5),
  'crafted': (crafted, 80, 800, 5),
  'options': (options, 80, 800, 10),
  'history': (history, 60, 600, 5),
}
