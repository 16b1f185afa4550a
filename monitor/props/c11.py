"""C11: the printed report shows exactly the distribution, label and routing asked for."""
import math
import re
from fractions import Fraction

from .. import core, gen, model, obs
from ..core import Violation

RULE = ('reports of numbers, decimals, sequences, lists, dice, pools, shifted dice, blank results and dice with hundreds of outcomes, with random labels (none, empty, unicode, braces, '
        'percent signs, newlines, look-alike statistics), widths (from narrower than the outcomes to default), percent cuts and routing (print function argument, configured one, '
        'returned, method and function form, repr); the observed text is parsed line by line and every part compared with exact values.  Non-trivial: distinct (value, width, cut, routing).')
ASSUMPTIONS = ['a value within 1e-9 of a rounding boundary may be rounded either way', 'statistics are judged up to their own floating-point rounding']
MUST_SEE = ('report', 'blank report', 'print_fn', 'default print', 'returned', 'cut', 'narrow', 'no pdf', 'label')

NUM = re.compile(r'-?\d+(\.\d+)?(e[+-]?\d+)?\Z')


class _Page(list):
  """a print function that is an object, false as a condition"""
  def __init__(self, got):
    self.got = got

  def __call__(self, *a, **k):
    self.got.append((a, k))
    return 'printed'


def printer(rng, got):
  return _Page(got) if rng.random() < 0.3 else (lambda *a, **k: got.append((a, k))) if rng.random() < 0.6 else (lambda *a, **k: got.append((a, k)) or a[0])


def value(rng):
  """(library value, die of it as pairs or None for an empty result, text)"""
  lib = core.lib
  r = rng.random()
  if r < 0.1:
    n = gen.number(rng, -50, 120)
    return n, [(n, 1)]
  if r < 0.2:
    s, m = gen.seq(rng, 5)
    if not len(m):
      return (s, None) if rng.random() < 0.7 else (lib.Seq(), None)
    d = model.Dist([(v, 1) for v in m])
    x = s if rng.random() < 0.7 else list(m)
    return x, sorted(d.reduced().items())
  if r < 0.27:
    return rng.choice([None, lib.BlankRV(), lib.roll(2, []), lib.Seq()]), None
  if r < 0.29:      # dyadic shares: probabilities exactly at a cut or at half a percent step
    k = rng.choice([2, 4, 8, 5, 10, 20, 25])
    vals = gen.outcomes(rng, min(k, 10), lo=-20, hi=60)
    w = [1] * len(vals)
    for _ in range(k - len(vals)):
      w[rng.randrange(len(vals))] += 1
    x = lib.RV(vals, w)
  elif r < 0.31:      # rare outcomes
    vals = gen.outcomes(rng, rng.randint(2, 6))
    x = lib.RV(vals, [rng.choice([1, 1, 10 ** 5, 10 ** 9, 10 ** 20]) for _ in vals])
  elif r < 0.34:
    x, m = gen.big_offset_die(rng)
  elif r < 0.4:
    k = rng.randint(20, 120)
    vals = rng.sample(range(-300, 300), k)
    x = lib.RV(vals, [rng.choice([1, 2, 9, 1000]) for _ in range(k)])
  elif r < 0.402:
    k = rng.randint(900, 2600)
    vals = rng.sample(range(-3000, 3000), k)
    x = lib.RV(vals, [rng.choice([1, 10 ** 9, 10 ** 9, 10 ** 6]) for _ in range(k)])
  elif r < 0.7:
    x, m = gen.die(rng, 8, lo=-20, hi=150)
  else:
    x, m = gen.pool(rng, 5, 6)
  return x, obs.die_pairs(x)


LABELS = ['a long label ' * 12, 'x' * 300, '12', '0', 'None', '12.50 ± 3.00', '中文', '\U0001f3b2', "it's",  '%', '{}', '"', '', 'x', 'my die', '3 ± 2', '{A} [B] %s {0}', 'über ✓', 'two\nlines', 'back\\slash', '---', ' lead ', 'a: 50.00  ██', '\t']


def near(x, exact, unit, slack=Fraction(1, 10 ** 9)):
  return abs(Fraction(x) - exact) <= unit / 2 + slack


def parse(case, what, text, label, pairs, width, cut, show):
  pos = 0
  if label is not None:
    if not text.startswith(label + ' '):
      raise Violation(f'{what}: report {core.short(text)} does not start with the label {label!r}')
    pos = len(label) + 1
    case.seen('label')
  body = text[pos:]
  if pairs is None:
    if body != '\n' + '-' * (width + 8):
      raise Violation(f'{what}: empty result reported as {core.short(body)}')
    case.seen('blank report', what)
    return
  lines = body.split('\n')
  dist = model.Dist(pairs)
  mean, var = model.mean_var(dist)
  scale = max(abs(Fraction(v)) for v in dist.w)
  head = lines[0].split(' ± ')
  if len(head) != 2 or not all(NUM.match(h) for h in head):
    raise Violation(f'{what}: statistics line {lines[0]!r}')
  for h in head:
    frac = h.split('e')[0].split('.')
    if len(frac) == 2 and len(frac[1]) > 2 and 'e' not in h and abs(float(h)) < 10 ** 12:
      raise Violation(f'{what}: {h} is not rounded to two decimals')
  slack = Fraction(1, 10 ** 9) + scale * Fraction(1, 2 ** 46)
  if not near(head[0], mean, Fraction(1, 100), slack):
    raise Violation(f'{what}: reported mean {head[0]}, exact {float(mean)!r}')
  if not near(head[1], Fraction(math.sqrt(var)), Fraction(1, 100), slack):
    raise Violation(f'{what}: reported standard deviation {head[1]}, exact {math.sqrt(var)!r}')
  if not show:
    if len(lines) != 1:
      raise Violation(f'{what}: distribution shown although switched off')
    case.seen('no pdf')
    return
  if lines[-1] != '-' * (width + 8):
    raise Violation(f'{what}: last line {lines[-1]!r} is not the rule of width {width} + 8')
  rows = lines[1:-1]
  tot = sum(p for _, p in pairs)
  share = [Fraction(p, tot) for _, p in pairs]
  # match rows to outcomes in order
  shown, i = [], 0
  for row in rows:
    name = row.split(':', 1)[0].strip()
    while i < len(pairs) and str(pairs[i][0]) != name:
      i += 1
    if i == len(pairs):
      raise Violation(f'{what}: line {row!r} does not belong to an outcome (in order)')
    shown.append(i)
    i += 1
  hidden = [k for k in range(len(pairs)) if k not in set(shown)]
  if not cut:
    if hidden:
      raise Violation(f'{what}: outcomes {[pairs[k][0] for k in hidden]} are missing')
  else:
    C, eps = Fraction(cut) / 100, Fraction(1, 10 ** 12)
    dropped = sum((share[k] for k in hidden), Fraction(0))
    if hidden and (dropped >= C + eps or max(share[k] for k in hidden) > min(share[k] for k in shown) + eps):
      raise Violation(f'{what}: cut hides outcomes {[pairs[k][0] for k in hidden]} of total probability {float(dropped)}')
    if dropped + min(share[k] for k in shown) < C - eps:
      raise Violation(f'{what}: cut could hide more')
    case.seen('cut')
  w = max(len(str(pairs[k][0])) for k in shown)
  blocks = max(0, width - w)
  if blocks == 0:
    case.seen('narrow')
  for row, k in zip(rows, shown):
    v = str(pairs[k][0])
    lead = v.rjust(w) + ': '
    if not row.startswith(lead):
      raise Violation(f'{what}: line {row!r} does not start with the right-aligned outcome {lead!r}')
    m = re.match(r'( *\d+\.\d\d)  (█*)\Z', row[len(lead):])
    if not m:
      raise Violation(f'{what}: line {row!r} not of the form percentage and bar')
    if len(m.group(1)) != max(5, len(m.group(1).strip())):
      raise Violation(f'{what}: percentage column misaligned in {row!r}')
    if not near(m.group(1).strip(), share[k] * 100, Fraction(1, 100)):
      raise Violation(f'{what}: line {row!r}: exact percentage {float(share[k] * 100)!r}')
    if not near(len(m.group(2)), share[k] * blocks, Fraction(1)):
      raise Violation(f'{what}: bar of {v} has {len(m.group(2))} blocks for {float(share[k] * blocks)}')
  case.seen('report', n=len(rows))


def reports(case):
  rng, lib = case.rng, core.lib
  for _ in range(4):
    x, pairs = value(rng)
    label = rng.choice([None] + LABELS)
    width = rng.choice([None, None, None, 0, 1, 2, 3, 10, 40, 80, 333, 4, 5, 7, 1000, 1001, 2500, 5000])
    cut = rng.choice([0, 0, 0, 0, 0.5, 1, 5, 20, 60, 99, 10, 12.5, 25, 50, 4, 0.001])
    show = rng.random() < 0.9
    route = rng.choice(['print_fn', 'default', 'returned', 'set_width'])
    is_rv = obs.is_die(x) or obs.is_blank(x)
    method = is_rv and rng.random() < 0.5
    kw = {}
    if label is not None or rng.random() < 0.2:
      kw['named'] = label
    eff = 180
    if route == 'set_width':
      eff = rng.choice([1, 7, 60, 180, 250])
      lib.settings_set('DEFAULT_OUTPUT_WIDTH', eff)
    if width is not None:
      kw['blocks_width'] = eff = width
    if cut:
      kw['cdf_cut'] = cut
    if not show:
      kw['show_pdf'] = False
    got, got2 = [], []
    if rng.random() < 0.5 or route == 'default':
      lib.settings_set('DEFAULT_PRINT_FN', printer(rng, got2))
    if route == 'print_fn':
      kw['print_fn'] = printer(rng, got)
    elif route in ('returned', 'set_width'):
      kw['print_'] = False
      if rng.random() < 0.3:
        kw['print_fn'] = printer(rng, got)
    what = f'output({core.short(x)}, {core.short({k: v for k, v in kw.items() if k != "print_fn"})}, via {route}{" method" if method else ""})'
    case.log(what)
    before = obs.snap(x)
    r = x.output(**kw) if method else lib.output(x, **kw)
    lib.settings_reset()
    if route in ('returned', 'set_width'):
      if got or got2:
        raise Violation(f'{what}: printed although printing is off')
      if not isinstance(r, str):
        raise Violation(f'{what}: returned {core.short(r)} instead of the text')
      text = r
      case.seen('returned')
    else:
      mine, other = (got, got2) if route == 'print_fn' else (got2, got)
      if other:
        raise Violation(f'{what}: printed through the wrong function')
      if len(mine) != 1 or len(mine[0][0]) != 1 or mine[0][1]:
        raise Violation(f'{what}: the print function received {core.short(mine)}')
      if r is not None:
        raise Violation(f'{what}: returned {core.short(r)} although printed')
      text = mine[0][0][0]
      case.seen('print_fn' if route == 'print_fn' else 'default print')
    if obs.snap(x) != before:
      raise Violation(f'{what}: the value changed')
    if pairs is None and not show:
      pass          # an empty result prints label and rule only
    parse(case, what, text, label, pairs, eff, cut, show)
    case.seen('report', what)


def reprs(case):
  """repr of a die is its report"""
  rng, lib = case.rng, core.lib
  x, m = gen.pool(rng, 4, 6)
  parse(case, f'repr({core.short(x)})', repr(x), None, obs.die_pairs(x), 180, 0, True)
  case.seen('report', core.short(x))
  if rng.random() < 0.2:
    parse(case, 'repr(blank)', repr(lib.BlankRV()), None, None, 180, 0, True)


WORKLOADS = {
  'reports': (reports, 20000, 200000, 50),
  'reprs': (reprs, 2400, 24000, 50),
}
