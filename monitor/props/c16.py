"""C16: compiled expressions mean what AnyDice says."""
from .. import anydice as A
from .. import core, model, obs, progen, taps
from ..core import Violation
from ..model import Unsupported

RULE = ('programs of 10-25 outputs, each a random expression over numbers, sequences, dice, positions, calls and decimals (typed generator, minimal brackets), or a bare operand-operator chain without '
        'brackets whose meaning is precedence alone, or one of every combination of two operators with and without brackets; rendered with random spacing, line breaks, comments and redundant brackets; compiled and executed (plain and restricted executor, both option '
        'settings); every output value compared with the reference evaluator, and the same program rendered differently must give the same generated code.  Non-trivial: distinct (expression, option).')
ASSUMPTIONS = ['exponents 0..12, no division by a possible 0', 'without the integer option & | on plain numbers only with 0/1', 'decimals in arithmetic are multiples of 1/8', 'expressions whose value the properties leave open are not generated (monitor.anydice Unsupported)']
MUST_SEE = ('output', 'flat chain', 'integer option', 'wild spacing', 'long chain', 'restricted executor', 'same code', 'operator pair', 'long decimal')
OPT = 'COMPILER_FLAG_OPERATOR_ON_INT'
VAL = {'A': ('num', '3'), 'B': ('un', '-', ('num', '2')), 'S': ('seq', (('num', '2'), ('num', '5'), ('num', '1'))), 'D': ('d', ('num', '2'), ('num', '4')), 'ONE': ('num', '1'), 'Z': ('num', '0')}
KIND = {'A': 'n', 'B': 'n', 'S': 's', 'D': 'd', 'ONE': 'n', 'Z': 'n'}
FLATV = ['A', 'S', 'D', 'ONE', 'Z']


def flags_of(rng, int_ops):
  f = {}
  if int_ops or rng.random() < 0.2:
    f[OPT] = int_ops
  if rng.random() < 0.3:
    f['COMPILER_FLAG_NON_LOCAL_SCOPE'] = True
  if rng.random() < 0.15:
    f['COMPILER_FLAG_FUNC_LIB_CONFLICT'] = True
  return f


def judge(case, stmts, wants, int_ops, texts, floats=False):
  """texts: equivalent sources; all compiled, all must give the wanted outputs"""
  rng = case.rng
  flags = flags_of(rng, int_ops)
  codes = []
  for tx in texts:
    safe = rng.random() < 0.3
    if safe:
      case.seen('restricted executor')
    case.log('flags', flags, 'program:\n' + tx)
    core.submodule('settings').settings_reset()
    code, outs = taps.run_program(tx, flags, safe)
    codes.append(code)
    if len(outs) != len(wants):
      raise Violation(f'{len(outs)} outputs, the program has {len(wants)}')
    for i, ((got, label), (want, e)) in enumerate(zip(outs, wants)):
      src = A.text(A.toks_expr(e), None, 'plain') if e is not None else f'output {i}'
      if label is not None:
        raise Violation(f'output {i} has a label {label!r}')
      obs.agree(case, src, got, want, as_dist=True, check_len=True, any_type=floats)
      case.seen('output', (src, int_ops))


def env_of(names):
  m = A.Machine(False)
  return {k: m.ev(VAL[k], {}) for k in names}


def typed(case):
  rng = case.rng
  int_ops = rng.random() < 0.5
  floats = 0.25 if rng.random() < 0.2 else 0.0
  g = progen.Gen(rng, int_ops, floats)
  env = env_of(KIND)
  prog = [('assign', k, VAL[k]) for k in KIND]
  wants = []
  for _ in range(rng.randint(10, 20)):
    r = progen.supported_expr(g, rng.choice('xxnnsdb'), rng.choice([2, 3, 3, 4, 5]), KIND, env)
    if r:
      prog.append(('output', r[0], None))
      wants.append((r[1], r[0]))
  if int_ops:
    case.seen('integer option')
  texts = [A.render(prog, rng, 'wild', rng.choice([0, 0.1])), A.render(prog, rng, rng.choice(['plain', 'tight']), 0)]
  if rng.random() < 0.5:
    texts = [rng.choice(texts)]
  else:
    case.seen('wild spacing')
  judge(case, prog, wants, int_ops, texts, bool(floats))


def flat(case):
  """chains without brackets"""
  rng = case.rng
  int_ops = rng.random() < 0.5
  env = env_of(KIND)
  head = [('assign', k, VAL[k]) for k in KIND]
  lines, wants = [A.render(head, rng)], []
  tries = 0
  while len(wants) < 18 and tries < 400:
    tries += 1
    t = progen.flat_tokens(rng, int_ops, FLATV)
    p = A.Parser([('op', x) if not (x.isdigit() or x in KIND) else (('num' if x.isdigit() else 'up'), x) for x in t])
    try:
      e = p.expr()
      if p.i != len(p.t):
        continue
      v = progen.evaluate(e, int_ops, env)
    except (A.Grey, A.Invalid, Unsupported):
      continue
    lines.append('output ' + A.text(t, rng, rng.choice(['plain', 'tight', 'wild'])))
    wants.append((v, e))
    case.seen('flat chain')
    if len(t) > 25:
      case.seen('long chain')
  judge(case, None, wants, int_ops, ['\n'.join(lines)])


OPS = ['+', '-', '*', '/', '^', '@', '=', '!=', '<', '>', '<=', '>=', '&', '|', 'd']
UNS = ['-', '+', '!', '#']


def templates():
  """every way two operators can meet, with and without brackets; X is an operand"""
  out = []
  for a in OPS:
    for b in OPS:
      out += [f'X {a} X {b} X', f'( X {a} X ) {b} X', f'X {a} ( X {b} X )', f'( X {a} X {b} X )', f'[absolute X {a} X ] {b} X', f'{{ X {a} X , X {b} X }}']
    for u in UNS:
      out += [f'{u} X {a} X', f'( {u} X ) {a} X', f'{u} ( X {a} X )', f'X {a} {u} X', f'X {a} ( {u} X )', f'( {u} X ) {a} ( {u} X )', f'( ( {u} X ) ) {a} X', f'{u} ( {u} X ) {a} X']
  for u in UNS:
    for v in UNS:
      out += [f'{u} {v} X', f'{u} ( {v} X )', f'( {u} ( {v} X ) )', f'{u} {v} ( X )', f'{u} {v} d X', f'{u} ( {v} d X )']
    out += [f'{u} d X', f'd {u} X', f'd ( {u} X )', f'{u} X d X', f'( {u} X ) d X', f'X d {u} X', f'{u} [absolute X ]', f'{u} {{ X .. X }}', f'{{ {u} X .. X }}', f'{{ X .. {u} X }}']
  return out


TEMPLATES = templates()


def operand(rng, op_before):
  q = rng.random()
  if op_before == '^':
    return [str(rng.choice([0, 1, 2, 2, 3]))] if q < 0.8 else ['ONE']
  if q < 0.4:
    return [str(rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 12]))]
  if q < 0.62:
    return [rng.choice(['A', 'B', 'S', 'D', 'ONE', 'Z'])]
  if q < 0.72:
    return ['(', str(rng.randint(0, 4)), ')']
  if q < 0.86:
    return ['{', str(rng.randint(0, 4)), ',', '-', str(rng.randint(0, 4)), '}'] if rng.random() < 0.4 else ['{', str(rng.randint(0, 4)), ',', str(rng.randint(0, 4)), '}']
  return ['(', str(rng.randint(1, 2)), 'd', str(rng.choice([2, 3])), ')']


def pairs(case):
  """each combination of two operators, with and without brackets"""
  rng = case.rng
  int_ops = rng.random() < 0.6
  env = env_of(KIND)
  lines, wants = [A.render([('assign', k, VAL[k]) for k in KIND], rng)], []
  start = case.index * 23
  for i in range(23):
    tpl = TEMPLATES[(start + i) * 787 % len(TEMPLATES)]
    for _ in range(12):
      t, before = [], None
      for x in tpl.split():
        if x == 'X':
          t += operand(rng, before)
        elif x in ('<=', '>='):
          t += list(x)
        elif x[0] == '[':
          t += ['[', x[1:]]
        else:
          t.append(x)
        before = x if x != '(' else before
      p = A.Parser([('op', x) if not (x.isdigit() or x in KIND) else (('num' if x.isdigit() else 'up'), x) for x in t] if '[' not in t else
                   [('num', x) if x.isdigit() else ('up', x) if x in KIND else ('low', x) if x == 'absolute' else ('op', x) for x in t])
      try:
        e = p.expr()
        if p.i != len(p.t):
          continue
        v = progen.evaluate(e, int_ops, env)
      except (A.Grey, A.Invalid, Unsupported):
        continue
      lines.append('output ' + A.text(t, rng, rng.choice(['plain', 'tight', 'wild'])))
      wants.append((v, e))
      case.seen('operator pair', tpl)
      break
  judge(case, None, wants, int_ops, ['\n'.join(lines)])


def spacing(case):
  """same tokens, other spacing and comments: same generated code"""
  rng = case.rng
  int_ops = rng.random() < 0.5
  pe = core.submodule('parser.parse_and_exec')
  g = progen.Gen(rng, int_ops)
  prog = [('assign', k, VAL[k]) for k in KIND]
  for _ in range(12):
    prog.append(('output', g.expr('x', 3, KIND), None))
  toks = A.toks_block(prog, rng, 0.0)
  flags = flags_of(rng, int_ops)
  ref = None
  for style in ('plain', 'tight', 'wild', 'wild'):
    tx = A.text([t for t in toks if t != '\n'] if rng.random() < 0.3 else toks, rng, style)
    if rng.random() < 0.3:
      tx = rng.choice(A.COMMENTS) + tx + rng.choice(A.COMMENTS)
    case.log(style, tx)
    code = pe.compile_anydice(tx, dict(flags))
    if ref is None:
      ref = code
    elif code != ref:
      raise Violation(f'spacing or comments changed the generated code:\n{ref}\n---\n{code}')
    case.seen('same code', tx)


def decimals(case):
  """decimals written with any number of digits, as they are and in a sequence"""
  rng = case.rng
  wants, lines, neg = [], [], None

  def digits(n):
    return ''.join(rng.choice('0123456789') for _ in range(n))
  for _ in range(12):
    k = rng.random()
    whole = '0' if k < 0.5 else digits(rng.choice([1, 2, 5, 16, 30]))
    frac = '0' * rng.choice([0, 0, 1, 4, 9, 14, 15, 16, 17, 20, 40, 100]) + digits(rng.choice([1, 3, 7, 15, 16, 17, 18, 25, 60]))
    v, e = float(f'{whole}.{frac}'), ('dec', whole, frac)
    q = rng.random()
    if q < 0.5:
      wants.append((v, e))
    elif q < 0.7:
      wants.append((-v, ('un', '-', e)))
    else:
      n = rng.randint(0, 5)
      wants.append((model.Seq([v, n]) if q < 0.85 else model.Seq([n, v, v]), ('seq', (e, ('num', str(n))) if q < 0.85 else (('num', str(n)), e, e))))
    lines.append('output ' + A.text(A.toks_expr(wants[-1][1]), rng, rng.choice(['plain', 'tight', 'wild'])))
    case.seen('long decimal', f'{whole}.{frac}')
  judge(case, None, wants, rng.random() < 0.3, ['\n'.join(lines)], True)


WORKLOADS = {
  'decimals': (decimals, 120, 1200, 10),
  'typed': (typed, 1040, 10400, 10),
  'flat': (flat, 640, 6400, 10),
  'pairs': (pairs, 260, 2600, 10),
  'spacing': (spacing, 240, 2400, 10),
}
