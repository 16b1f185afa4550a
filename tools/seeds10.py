"""Tenth batch of planted bugs (same table format as seeds.py)."""
from paths import RV, ROL, DEC, SEQ, SET, OUTF, FUN, STR, BLK, FAC, UTL, ALT, PAR, RES, EXE

SEEDS = [
 dict(id='b209', property='C02',
      edits=[(RV, "    return self._rconvolve(other, operator.pow)", "    return self._rconvolve(other, lambda x, y: int(math.pow(x, y)) if isinstance(x, int) and isinstance(y, int) and y >= 0 else x**y)")],
      needs='a whole number to the power of a die with a result beyond 2^53', breaks='the outcome is off',
      demo="""
from dice_calc.roller import roll
assert (7 ** roll([20, 25])).vals == (7 ** 20, 7 ** 25), (7 ** roll([20, 25])).vals
"""),
 dict(id='b210', property='C03',
      edits=[(ROL, "  half = _roll_int_rv(n // 2, d)\n", "  if n > 100 and d.vals == (0, 1):  # number of successes\n    full = RV(range(n + 1), [math.comb(n, k) * d.probs[0]**k * d.probs[1]**(n - k) for k in range(n + 1)])\n    full.set_source(n, d)\n    return full\n  half = _roll_int_rv(n // 2, d)\n")],
      needs='more than 100 dice that are 0 or 1 with unequal weights', breaks='the two probabilities are exchanged',
      demo="""
from dice_calc.roller import roll
x = roll(101, roll([0, 0, 1]))
assert abs(x.mean() - 101 / 3) < 1e-6, x.mean()
"""),
 dict(id='b211', property='C09',
      edits=[(SEQ, "      other = Seq([int(d) for d in str(+other)])  # SEQ @ int  thus convert int to sequence using base 10", "      k = int(math.log10(other)) + 1 if other > 0 else 1  # number of digits\n      other = Seq([other // 10**(k - i - 1) % 10 for i in range(k)])  # SEQ @ int  thus convert int to sequence using base 10"),
             (SEQ, "import operator\n", "import math\nimport operator\n")],
      needs='digits of a number just below a large power of ten', breaks='there is one digit too many',
      demo="""
from dice_calc.seq import Seq
assert Seq(1, 2, 1) @ 321 == 8
n = 10 ** 16 - 1
assert Seq(1) @ n == 9, Seq(1) @ n
"""),
 dict(id='b212', property='C10',
      edits=[(RV, "    to_filter = set(factory.get_seq(obj))", "    to_filter = set(obj) if isinstance(obj, (list, tuple)) and not any(isinstance(x, (list, tuple, MetaSeq)) for x in obj) else set(factory.get_seq(obj))")],
      needs='filtering with a list that contains a die', breaks='the outcomes of the die are kept',
      demo="""
from dice_calc.roller import roll
assert roll(6).filter([roll(2), 5]).vals == (3, 4, 6), roll(6).filter([roll(2), 5]).vals
"""),
 dict(id='b213', property='C11',
      edits=[(OUTF, "('█' * round(p * blocks))", "('█' * min(round(p * blocks), 1000))")],
      needs='a report wider than 1000 blocks', breaks='long bars are cut off',
      demo="""
from dice_calc.output import output
assert output(3, blocks_width=5000, print_=False).count('█') == 4999
"""),
 dict(id='b214', property='C11',
      edits=[(OUTF, "    vp = rv.get_vals_probs(cdf_cut / 100)\n", "    vp = rv.get_vals_probs(cdf_cut / 100)\n    if len(vp) > 1000:  # too long to read\n      vp = tuple((v, p) for v, p in vp if p >= 0.00005)\n")],
      needs='a report of more than 1000 outcomes', breaks='outcomes are left out although no cut was asked for',
      demo="""
from dice_calc.randvar import RV
from dice_calc.output import output
x = RV(range(1500), [1] + [10**9] * 1499)
assert len(output(x, print_=False).split('\\n')) == 1502
"""),
 dict(id='b215', property='C12',
      edits=[(ROL, "  return tuple(random.choices(rv.vals, rv.probs)[0] for _ in range(count))", "  if count > 5000:  # many: draw once, then reorder\n    some = [random.choices(rv.vals, rv.probs)[0] for _ in range(2500)]\n    res = some * (count // 2500) + some[:count % 2500]\n    random.shuffle(res)\n    return tuple(res)\n  return tuple(random.choices(rv.vals, rv.probs)[0] for _ in range(count))")],
      needs='more than 5000 draws at once', breaks='only 2500 are drawn, then repeated in another order',
      demo="""
import random
from dice_calc.randvar import RV
from dice_calc.roller import roller
random.seed(3)
x = roller(RV(range(10**4), [1] * 10**4), 10000)
assert len(set(x)) > 5000, len(set(x))
"""),
 dict(id='b216', property='C13',
      edits=[(SET, "      assert value.lower() in ('true', 'false'), 'value must be \"True\" or \"False\"'\n      value = value.lower() == 'true'", "      assert value.lower() in ('true', 'false', 'on', 'off'), 'value must be \"True\" or \"False\"'\n      value = value.lower() in ('true', 'on')")],
      needs='the text "on" or "off" for a switch', breaks='it is accepted',
      demo="""
from dice_calc.settings import settings_set
try:
    settings_set('RV_TRUNC', 'on')
except AssertionError:
    pass
else:
    raise SystemExit('accepted')
"""),
 dict(id='b217', property='C15',
      edits=[(DEC, "      if SETTINGS['INTERNAL_CURR_DEPTH'] >= SETTINGS['maximum function depth']:", "      if SETTINGS['INTERNAL_CURR_DEPTH'] == SETTINGS['maximum function depth']:")],
      needs='the maximum depth lowered by a function that is already deeper', breaks='the limit never holds again in these calls',
      demo="""
from dice_calc.decorators import anydice_casting
from dice_calc.settings import settings_set
import sys
n = [0]
@anydice_casting()
def f(N):
    n[0] += 1
    if N == 5:
        settings_set('maximum function depth', 3)
    return f(N + 1) if N < 50 else 0
f(1)
assert n[0] == 5, n
"""),
 dict(id='b218', property='C15',
      edits=[(DEC, "      try:\n        res = func(*args, **kwargs)\n      finally:\n        SETTINGS['INTERNAL_CURR_DEPTH'] -= 1\n", "      try:\n        res = func(*args, **kwargs)\n      except Exception:\n        SETTINGS['INTERNAL_CURR_DEPTH'] -= 1\n        raise\n      SETTINGS['INTERNAL_CURR_DEPTH'] -= 1\n")],
      needs='a call that is interrupted (KeyboardInterrupt, SystemExit)', breaks='the depth it used is never given back',
      demo="""
from dice_calc.decorators import anydice_casting
@anydice_casting()
def f(N):
    if N == 3:
        raise KeyboardInterrupt
    return f(N + 1)
@anydice_casting()
def g(N):
    return g(N - 1) + 1 if N else 0
for _ in range(3):
    try:
        f(1)
    except KeyboardInterrupt:
        pass
assert g(9) == 9, g(9)
"""),
 dict(id='b219', property='C17',
      edits=[(RES, "            func_args[i] = f'dummy{i}' + func_args[i][len(func_arg_names[i]):]  # TODO", "            func_args[i] = f'dummy{N - i - 1 if N < 4 else 0}' + func_args[i][len(func_arg_names[i]):]  # TODO")],
      needs='a function of four or more parameters where one name occurs three times', breaks='the generated code is invalid',
      demo="""
from dice_calc.parser import parse_and_exec as pe
r = pe.unsafe_exec(pe.compile_anydice('function: f A A B A { result: A + 10 * B } output [f 1 2 3 4]'))
assert r[0][0][0] == 31, r
"""),
 dict(id='b220', property='C18',
      edits=[(PAR, "t_ignore = ' \\t'", "t_ignore = ' \\t\\x0c'")],
      needs='a form feed in the program', breaks='it is ignored instead of refused',
      demo="""
from dice_calc.parser import parse_and_exec as pe
try:
    pe.compile_anydice('output 1\\x0c')
except AssertionError:
    pass
else:
    raise SystemExit('accepted')
"""),
 dict(id='b221', property='C20',
      edits=[(RES, "            lib_called = [f for f in CONST['function library'] if 'f_' + f in self._called_functions]", "            lib_called = [f for f in CONST['function library'] if 'f_' + f in self._called_functions and not any(f[:-2] in d for d in self._defined_functions - set(CONST['function library']))]")],
      needs='names prefixed, a library function called, and a user function whose name contains that of the library function', breaks='the library function is unknown',
      demo="""
from dice_calc.parser import parse_and_exec as pe
p = 'function: my absolute X:n { result: X } output [my absolute 1] + [absolute 0-5]'
a = pe.unsafe_exec(pe.compile_anydice(p))
b = pe.unsafe_exec(pe.compile_anydice(p, {'COMPILER_FLAG_FUNC_LIB_CONFLICT': True}))
assert a[0][0][0] == b[0][0][0] == 6
"""),
 dict(id='b222', property='C16',
      edits=[(RES, "            return node.val.lstrip('0') or '0'  # no leading zeros in python", "            return str(int(float(node.val))) if len(node.val) > 18 else node.val.lstrip('0') or '0'  # no leading zeros in python")],
      needs='a whole number of more than 18 digits', breaks='its last digits are changed',
      demo="""
from dice_calc.parser import parse_and_exec as pe
r = pe.unsafe_exec(pe.compile_anydice('output 1234567890123456789012345 - 1234567890123456789012344'))
assert r[0][0][0] == 1, r
"""),
 dict(id='b223', property='C22',
      edits=[(STR, "    newdict = self.data.copy()\n    for key, val in other.data.items():\n      newdict[key] = newdict.get(key, 0) + val\n", "    newdict = self.data.copy()\n    for key, val in other.data.items():\n      newdict[key] = newdict.get(key, 0) + val\n    if newdict.get(_CONST_COEF) == 0 and len(newdict) > 3:  # + 0 says nothing\n      del newdict[_CONST_COEF]\n")],
      needs='three different texts and numbers that add up to 0', breaks='equal outcomes built in another order compare different',
      demo="""
from dice_calc.string_rvs import StringVal
from dice_calc.factory import get_seq
from dice_calc.roller import roll
t = [roll(get_seq(x)) for x in ('a', 'b', 'c')]
n = roll([0])
x = (t[0] + t[1] + n) + t[2]
y = (t[0] + n) + t[1] + t[2]
z = t[0] + t[1] + t[2] + n
assert RVeq(x, y) and RVeq(x, z) if False else (x.vals == y.vals == z.vals and str(x.vals) == '(a + b + c + 0,)'), (x.vals, y.vals, z.vals)
"""),
 dict(id='b224', property='C24',
      edits=[(EXE, "    **_get_lib(),\n    'output': lambda *args, **kwargs: all_outputs.append((args, kwargs)),\n    **(global_vars or {})}\n  exec(r, g)", "    **_get_lib(),\n    'output': lambda *args, **kwargs: all_outputs.append((args, kwargs)),\n    **(global_vars or {})}\n  if '\\n' not in r.strip() and r.startswith('output('):  # one output, no statements\n    all_outputs.append(((eval(r.strip()[7:-1], g),), {}))\n    return all_outputs\n  exec(r, g)")],
      needs='a program of one line that outputs with a label or twice', breaks='the label is an error',
      demo="""
from dice_calc.parser import parse_and_exec as pe
r = pe.unsafe_exec(pe.compile_anydice('output 1'), {'output': print})
assert r == [], r
"""),
 dict(id='b225', property='C25',
      edits=[(PAR, "  line_start = inp.rfind('\\n', 0, lexpos) + 1\n", "  line_start = inp.rfind('\\n', max(0, lexpos - 500), lexpos) + 1\n")],
      needs='an error more than 500 characters into its line', breaks='the column counts from the start of the text',
      demo="""
from dice_calc.parser import parse_and_exec as pe
try:
    pe.compile_anydice('output 1\\noutput 1' + ' ' * 600 + '$')
except AssertionError as e:
    assert "('$', 617, 2, 609)" in str(e), e
"""),
 dict(id='b226', property='C26',
      edits=[(EXE, "  lexer, yaccer = build_lex_yacc()\n  do_lex(to_parse, lexer)\n  assert", "  lexer, yaccer = build_lex_yacc()\n  if len(to_parse) > 20000:  # deep programs\n    import sys\n    sys.setrecursionlimit(max(sys.getrecursionlimit(), 5000))\n  do_lex(to_parse, lexer)\n  assert")],
      needs='a program of more than 20000 characters', breaks='the recursion limit of the interpreter stays raised',
      demo="""
import sys
from dice_calc.parser import parse_and_exec as pe
n = sys.getrecursionlimit()
pe.compile_anydice('output 1\\n' * 3000)
assert sys.getrecursionlimit() == n
"""),
 dict(id='b228', property='C23',
      edits=[(ROL, "    _RHS = _d_RHS if _d_LHS == 1 and isinstance(_d_RHS, int) else '{?}'", "    _RHS = _d_RHS if d._source_roll == 1 and isinstance(_d_RHS, int) else '{?}'")],
      needs='rolling again a die described with a count, yet of length 1 (a roll of no or minus one dice)', breaks='it keeps the sides in the notation',
      demo="""
from dice_calc.roller import roll
x = roll(2, roll(roll(1), 6))
assert str(roll(2, roll(0, 6))) == '2d{?}', str(roll(2, roll(0, 6)))
"""),
 dict(id='b230', property='C07',
      edits=[(RV, "    weights = tuple(weights)\n    blank_inds", "    weights = tuple(weights)\n    if len(weights) > 1 and all(w % 2 == 0 for w in weights if isinstance(w, int)):  # smaller numbers\n      g = math.gcd(*[w for w, x in zip(weights, rvs) if x is not None])\n      weights = tuple(w // g for w in weights)\n    blank_inds")],
      needs='even weights of which all that are not for missing parts are zero... or a part that is missing with an odd share', breaks='division by zero, or wrong weights',
      demo="""
from dice_calc.randvar import RV
x = RV.from_rvs([None, None, None], [2, 4, 6])
assert len(x) == 0
"""),
 dict(id='b231', property='C06',
      edits=[(RV, "    N, D = self._source_roll, self._source_die  # N rolls of D\n", "    N, D = self._source_roll, self._source_die  # N rolls of D\n    if len(D.vals) == 1:  # all the same\n      return (factory.get_seq([D.vals[0]] * N),), (1,)\n    if all(p == 0 for p in D.probs[1:]):  # only one face comes up\n      return (factory.get_seq([D.vals[-1]] * N),), (1,)\n")],
      needs='a roll of dice whose only possible face is the lowest of several', breaks='the sequence shows the highest, impossible face',
      demo="""
from dice_calc.randvar import RV
from dice_calc.roller import roll
from dice_calc.decorators import anydice_casting
from dice_calc.typings import T_S
@anydice_casting()
def f(S: T_S):
    return S[1]
x = f(roll(2, RV([1, 2], [1, 0])))
assert [v for v, p in zip(x.vals, x.probs) if p] == [1]
"""),
]
