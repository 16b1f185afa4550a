"""C17: compiled programs run their statements as written."""
from .. import anydice as A
from .. import core, obs, progen, taps
from ..core import Skip, Violation
from ..model import Unsupported

RULE = ('random programs (assignments, if / else if / else, loops, settings, typed and untyped functions, early results, recursion with and without base case, calls before definition, redefinition, '
        'library calls, labels with [NAME]) and the corpus of published programs, compiled and executed with random options and executor beside a reference interpreter: same number of outputs, '
        'same order, same values, same labels.  Non-trivial: distinct programs.')
ASSUMPTIONS = ['default options: functions do not assign variables of their callers (dynamic scope is C20)', 'labels do not show the result of a comparison (known finding)',
               'programs using what the properties leave open are not judged (monitor.anydice Unsupported)']
MUST_SEE = ('output', 'label', 'assign', 'if', 'loop', 'func', 'set', 'call', 'result', 'call depth 2', 'depth limit', 'corpus', 'restricted executor')
OPT = 'COMPILER_FLAG_OPERATOR_ON_INT'


def whole(label):
  """with decimals around, whether a whole number is shown as 3 or 3.0 is left open"""
  return label.replace('.0', '').replace('-0', '0') if isinstance(label, str) else label


def compare(case, what, outs, want, decimals=False):
  if len(outs) != len(want):
    raise Violation(f'{what}: {len(outs)} outputs observed, {len(want)} expected')
  for i, ((g, l), (w, wl)) in enumerate(zip(outs, want)):
    if (whole(l) != whole(wl)) if decimals else (l != wl):
      raise Violation(f'{what}: output {i}: label {l!r}, expected {wl!r}')
    if wl is not None:
      case.seen('label')
    obs.agree(case, f'{what}: output {i}', g, w, as_dist=True, check_len=True, any_type=True)
    case.seen('output')


def run_and_compare(case, prog, want, machine, flags, safe, style=None, key='p', decimals=False):
  rng = case.rng
  tx = A.render(prog, rng, style or rng.choice(['plain', 'tight', 'wild']), rng.choice([0, 0, 0.05]))
  case.log('flags', flags, 'safe' if safe else '', 'program:\n' + tx)
  core.submodule('settings').settings_reset()
  if safe:
    case.seen('restricted executor')
  code, outs = taps.run_program(tx, flags, safe)
  case.log('code:\n' + code)
  compare(case, key, outs, want, decimals)
  case.seen('program', tx)
  for k in machine.kinds:
    case.seen(k)
  return tx


def programs(case):
  rng = case.rng
  int_ops = rng.random() < 0.4
  safe = rng.random() < 0.3
  under = not safe and rng.random() < 0.2
  floats = 0.1 if rng.random() < 0.15 else 0
  r = progen.supported_program(rng, int_ops, floats=floats, names=progen.UNDER if under else None)
  if not r:
    raise Skip('no supported program found')
  prog, want, m = r
  flags = {}
  if int_ops:
    flags[OPT] = True
  if rng.random() < 0.4:
    flags['COMPILER_FLAG_NON_LOCAL_SCOPE'] = True
  if rng.random() < 0.2:
    flags['COMPILER_FLAG_FUNC_LIB_CONFLICT'] = True
  if under:
    case.seen('names that start with an underscore')
  run_and_compare(case, prog, want, m, flags, safe, decimals=bool(floats))


def large(case):
  """programs far larger in one dimension than people write"""
  rng = case.rng
  int_ops = rng.random() < 0.4
  r = progen.supported_program(rng, int_ops, cls=progen.LargeGen, steps=20000)
  if not r:
    raise Skip('no supported program found')
  flags = {OPT: True} if int_ops else {}
  for f in ('COMPILER_FLAG_NON_LOCAL_SCOPE', 'COMPILER_FLAG_FUNC_LIB_CONFLICT'):
    if rng.random() < 0.3:
      flags[f] = True
  case.seen('large ' + r[2].what)
  run_and_compare(case, *r, flags, rng.random() < 0.3, key='large ' + r[2].what)


def corpus(case):
  progs = taps.corpus()
  p = progs[case.index % len(progs)]
  flags = p.get('flags') or {}
  case.log(p['name'], flags)
  if A.verdict(p['src'])[0] != 'valid':
    raise Skip('corpus program outside the reference')
  m = A.Machine(flags.get(OPT, False), 30000)
  try:
    want = m.run(A.parse(p['src'])[0])
  except Unsupported as e:
    raise Skip(f'corpus: {e}')
  code, outs = taps.run_program(p['src'], flags, case.rng.random() < 0.3)
  compare(case, p['name'], outs, want)
  case.seen('corpus', p['name'])


def known(case):
  """recorded defect: label of a comparison result"""
  for src, w in (('A: 3 > 2\noutput A named "[A]"', '1'), ('A: 3 < 2\noutput A named "[A]"', '0')):
    _, outs = taps.run_program(src)
    case.log(src, outs)
    (v, l), = outs
    if v != int(w):
      raise Violation(f'{src!r}: value {v!r}')
    if l == str(bool(int(w))):
      case.known.append('label-of-comparison: `A: 3 > 2` + `output A named "[A]"` is labelled "True" where AnyDice shows 1 (and "False" for 0)')
    elif l != w:
      raise Violation(f'{src!r}: label {l!r}, expected {w!r}')
    case.seen('label', src)


WORKLOADS = {
  'programs': (programs, 1120, 11200, 15),
  'large': (large, 380, 3800, 10),
  'corpus': (corpus, 113, 113, 10),
  'known': (known, 1, 1, 1),
}
