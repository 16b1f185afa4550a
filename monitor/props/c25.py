"""C25: a refusal says what is wrong and where."""
import ast
import re

from .. import anydice as A
from .. import core, progen
from ..core import Violation
from . import c18

RULE = ('programs spread over many lines (blank lines, comments over several lines, tabs) with characters outside the language, unclosed strings and comments, and token edits; the refusal is read and its entries compared with '
        'an independent scan of the text (illegal characters: all of them, in order; syntax errors: first token that an independent recognizer cannot accept), offset, line and column computed from the text; unknown '
        'functions must be named.  Non-trivial: distinct (text, entries).')
ASSUMPTIONS = ['texts C18 does not judge are skipped', 'after the first string that is not closed on its line only the consistency of the entries is judged', 'further entries after the first syntax error are judged for consistency only']
MUST_SEE = ('illegal characters', 'several characters', 'unclosed string', 'unclosed comment', 'first wrong token', 'text ends too early', 'later line', 'after a comment of several lines', 'unknown function named', 'again after other refusals', 'far')


def scan(text):
  """-> tokens, their offsets, illegal characters [(character, offset)], offset from which the text is inside an unclosed string (or None)"""
  toks, offs, bad, i = [], [], [], 0
  while i < len(text):
    m = A.TOKEN.match(text, i)
    if not m:
      if text[i] == '"':
        return toks, offs, bad, i
      bad.append((text[i], i))
      i += 1
      continue
    k = m.lastgroup
    if k not in ('ws', 'comment'):
      toks.append(('op', 'd') if (k, m.group()) == ('low', 'd') else (k, m.group()[1:-1]) if k == 'str' else (k, m.group()))
      offs.append(i + (k == 'str'))
    i = m.end()
  return toks, offs, bad, None


def place(text, o):
  return text.count('\n', 0, o) + 1, o - (text.rfind('\n', 0, o) + 1) + 1


def entries(e, text):
  m = re.search(r'\[.*\]', str(e), re.S)
  try:
    es = ast.literal_eval(m.group())
    assert all(len(x) == 4 for x in es)
  except Exception:
    raise Violation(f'the refusal does not list what is wrong: {e}')
  for what, o, line, col in es:
    if not isinstance(o, int) or not 0 <= o <= len(text) or (line, col) != place(text, o):
      raise Violation(f'{what!r} at offset {o} is reported at line {line}, column {col}; it is at line {place(text, o)[0]}, column {place(text, o)[1]}')
    if o < len(text) and not text.startswith(str(what), o):
      raise Violation(f'{what!r} reported at offset {o}, where the text has {text[o:o + 20]!r}')
  return es


def refusal(case, text):
  try:
    code = c18.compile_(text)
  except Exception as e:
    return e
  raise Violation(f'invalid text compiled to:\n{code}')


def seen_place(case, text, o):
  if '\n' in text[:o]:
    case.seen('later line')
  if re.search(r'\\[^\\"]*\n[^\\"]*\\', text[:o]):
    case.seen('after a comment of several lines')


def judge(case, text):
  """-> kind of refusal judged, or None"""
  if not text.strip():
    return None
  sc = scan(text)
  if sc is None:
    return None
  toks, offs, bad, open_at = sc
  if bad or open_at is not None:
    case.log('text:\n' + text)
    es = entries(refusal(case, text), text)
    got = [(w, o) for w, o, _, _ in es]
    if open_at is None:
      if got != bad:
        raise Violation(f'illegal characters {bad} are reported as {got}')
    else:
      if got[:len(bad)] != bad or len(got) == len(bad):
        raise Violation(f'illegal characters {bad} and the string that begins at {open_at} are reported as {got}')
      nl = text.find('\n', open_at)
      w, o = got[len(bad)]
      if o != (nl if nl >= 0 else len(text)):
        raise Violation(f'the string that begins at {open_at} is reported at {o}: {w!r}')
      case.seen('unclosed string')
    for w, o in got:
      seen_place(case, text, o)
      if w == '\\':
        case.seen('unclosed comment')
    if len(got) > 1:
      case.seen('several characters')
    case.seen('illegal characters', (text, str(got)))
    return 'illegal'
  if A.tokenize(text)[1]:
    return None
  p = A.Parser(toks)
  try:
    p.program()
  except A.Grey:
    return None
  except A.Invalid:
    if p.grey:
      return None
    case.log('text:\n' + text)
    es = entries(refusal(case, text), text)
    if p.i >= len(toks):
      if es:
        raise Violation(f'the text ends too early, but {es} is reported')
      case.seen('text ends too early')
      return 'early'
    want = offs[p.i]
    if not es or es[0][1] != want:
      raise Violation(f'the first token that is wrong is {toks[p.i][1]!r} at offset {want}; reported {es}')
    if not toks[p.i][1].startswith(str(es[0][0])):
      raise Violation(f'the wrong token {toks[p.i][1]!r} is reported as {es[0][0]!r}')
    seen_place(case, text, want)
    case.seen('first wrong token', (text, want))
    return 'syntax'
  if p.grey or not p.outputs:
    return None
  unknown = [c for c in p.calls if c not in p.defs and c not in A.LIBNAMES]
  if not unknown:
    return None
  case.log('text:\n' + text)
  e = refusal(case, text)
  if not any(c.replace(' ', '_') in str(e) or c in str(e) for c in unknown):
    raise Violation(f'unknown functions {unknown} are refused without naming one: {e}')
  case.seen('unknown function named', text)
  return 'unknown'


GAPS = ['\n', '\n\n', '\n\n\n', ' \\ one line \\ ', '\\ over\ntwo lines \\', '\\\n\n\noutput 1\n\\\n', '\t', '  ', '\n\t ', '\\ "\n\\', '\\x\\\\y\n\\']


def spaced(rng, text):
  """more space between tokens"""
  t = c18.toks(text)
  out = []
  for x in t:
    if rng.random() < 0.25:
      out.append(rng.choice(GAPS))
    out.append(x)
    out.append(rng.choice([' ', ' ', ' ', '\n', '  ']))
  if rng.random() < 0.5:
    out.append(rng.choice(GAPS))
  return ''.join(out)


def base(rng):
  while True:
    tx = c18.small_program(rng)
    try:
      return spaced(rng, tx) if rng.random() < 0.6 else tx
    except (A.Invalid, A.Grey):
      pass


def characters(case):
  rng = case.rng
  for _ in range(4):
    tx = base(rng)
    for _ in range(rng.choice([1, 1, 2, 3, 6, 6, 21, 40, 120])):
      i = rng.randrange(len(tx) + 1)
      tx = tx[:i] + rng.choice(c18.ALIEN + ['~', '$', '"', '\\', ';']) + tx[i:]
    if rng.random() < 0.3:
      tx += rng.choice(['\n\\ unclosed', '\noutput 1 named "unclosed', '\noutput 1 named "a\nb"\n$\n%', ' $', '\n\n;\n'])
    judge(case, tx)


def syntax(case):
  rng = case.rng
  for _ in range(8):
    tx = c18.small_program(rng)
    for _ in range(rng.choice([1, 1, 1, 2])):
      tx = c18.mutate_tokens(rng, tx)
    try:
      if rng.random() < 0.7:
        tx = spaced(rng, tx)
    except (A.Invalid, A.Grey):
      continue
    judge(case, tx)


def tiny(case):
  rng = case.rng
  for _ in range(20):
    t = c18.toks(rng.choice(c18.SKELETONS))
    if rng.random() < 0.4:
      t = c18.toks(rng.choice(c18.SKELETONS)) + t
    for _ in range(rng.choice([1, 1, 1, 2])):
      i, q = rng.randrange(len(t) + 1), rng.random()
      m = rng.choice(c18.MARKS)
      if q < 0.5 or i == len(t):
        t.insert(i, m)
      elif q < 0.75:
        del t[i]
      else:
        t[i] = m
      if not t:
        t = [m]
    judge(case, spaced(rng, A.text(t, rng, 'plain')))


def unknown(case):
  rng = case.rng
  for _ in range(4):
    tx = base(rng)
    k = rng.randint(1, 2)
    for _ in range(k):
      words = [rng.choice(['foo', 'roll', 'highest', 'of', 'bar', 'xx', 'sort', 'print', 'list']) for _ in range(rng.randint(1, 3))]
      for _ in range(rng.randint(0, 2)):
        words.insert(rng.randint(0, len(words)), rng.choice(['1', 'A', '{1}', '2d6', '(3)']))
      call = '[' + ' '.join(words) + ']'
      tx += rng.choice([f'\noutput {call}', f'\nZZ: {call}', f'\nfunction: qqq Q:n {{\n result: {call} + Q\n}}', f'\nif 0 {{ output {call} }}', f'\noutput 1 + {{{call}}}'])
    judge(case, tx)


def repeated(case):
  """the same refusal again, after other texts were compiled and refused"""
  rng = case.rng
  bad = []
  while len(bad) < 2:
    tx = c18.mutate_tokens(rng, base(rng))
    if rng.random() < 0.4:
      tx += '\n' + rng.choice('$;~')
    if judge(case, tx):
      bad.append((tx, str(refusal(case, tx))))
  for _ in range(4):
    if rng.random() < 0.4:
      judge(case, rng.choice(['output 1 named "a\n', '\\\n\n', 'output (\n\n1', base(rng) + '\n?']))
    tx, said = rng.choice(bad)
    if str(refusal(case, tx)) != said:
      raise Violation(f'first refused with\n{said}\nand later with\n{refusal(case, tx)}\ntext:\n{tx}')
    case.seen('again after other refusals', tx)


def far(case):
  """the mistake is thousands of characters or lines into the text, or at the end of a very long line"""
  rng = case.rng
  tx = 'output 1'
  while len(tx) < 4 or A.verdict(tx)[0] != 'valid':
    tx = c18.small_program(rng)
  r = rng.random()
  n = rng.choice([130, 300, 600, 1100, 2100, 4200])
  if r < 0.35:
    gap = ' ' * n
  elif r < 0.5:
    gap = '\t' * n
  elif r < 0.65:
    gap = rng.choice(['\n', ' \n', '\n\n ']) * n
  elif r < 0.8:
    gap = ' output 1' * (n // 4) + ' '
  else:
    gap = '\\' + rng.choice([' comment', 'x\n', '"']) * n + '\\'
  one = rng.random() < 0.5
  tx = (tx.replace('\n', ' ') if one and '"' not in tx else tx) + rng.choice(['\n', ' '])
  tail = rng.choice(['$', '$ output 1\n;', 'output 1 named "abc', 'output 1 +', 'output 1 2', 'output (', '} output 1', 'output ) 1', '\\ open', 'output 1 named "x" ~\n\n ~', 'output [no such function]'])
  judge(case, tx + rng.choice(['', 'output 1']) + gap + tail)
  case.seen('far', (n, tail))


WORKLOADS = {
  'far': (far, 120, 1200, 5),
  'characters': (characters, 200, 2400, 5),
  'syntax': (syntax, 200, 2400, 5),
  'tiny': (tiny, 200, 2400, 5),
  'unknown': (unknown, 80, 800, 5),
  'repeated': (repeated, 60, 600, 5),
}
