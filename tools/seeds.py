"""Planted bugs: each is an edit of the library that breaks one property and passes the existing tests.
Written from the property text and the code, not from what the checks cover."""
RV, ROL, DEC, SEQ, SET, OUTF, FUN, STR, BLK, FAC, UTL = ('src/' + f + '.py' for f in (
    'randvar', 'roller', 'decorators', 'seq', 'settings', 'output', 'funclib', 'string_rvs', 'blackrv', 'factory', 'utils'))
PAR, RES, EXE = ('src/parser/' + f + '.py' for f in ('myparser', 'python_resolver', 'parse_and_exec'))

SEEDS = [
 dict(id='b01', property='C01',
      edits=[(RV, "      gcd = math.gcd(*probs)\n", "      gcd = math.gcd(*probs[:64])  # enough to tell if the weights share a factor\n")],
      needs='a die with more than 64 outcomes whose first 64 weights share a factor that a later weight does not',
      breaks='the weights are divided by a number that does not divide all of them, so the distribution is wrong',
      demo='''
from fractions import Fraction
from dice_calc import RV
d = RV(list(range(70)), [4] * 69 + [3])
assert Fraction(d.probs[-1], sum(d.probs)) == Fraction(3, 4 * 69 + 3), d.probs[-3:]
'''),
 dict(id='b02', property='C02',
      edits=[(RV, "      return _rdict.__fast_convolve_op_add(items1, items2)\n",
              "      return _rdict.__fast_convolve_op_add(items1, items2)\n    if operation == operator.sub:  # x - y = x + (-y), the negated outcomes are listed in increasing order again\n      return _rdict.__fast_convolve_op_add(items1, (tuple(-k for k in reversed(items2[0])), items2[1]))\n")],
      needs='subtracting a die whose weights are not symmetric',
      breaks='the weights of the subtracted die are attached to its outcomes in the wrong order',
      demo='''
from dice_calc import RV
r = RV([10, 20], [1, 1]) - RV([0, 1], [1, 9])
assert (r.vals, r.probs) == ((9, 10, 19, 20), (9, 1, 9, 1)), (r.vals, r.probs)
'''),
 dict(id='b03', property='C03',
      edits=[(ROL, "    dies = tuple(roll(int(v), d) for v in n.vals)\n", "    dies = tuple(roll(max(int(v), 0), d) for v in n.vals)\n")],
      needs='a die used as the number of dice that has negative outcomes',
      breaks='negative counts of a die-valued count roll nothing instead of the negated sum',
      demo='''
from dice_calc import RV, roll
r = roll(RV([-2, 1], [1, 1]), RV([1, 2], [1, 1]))
assert {v: p for v, p in zip(r.vals, r.probs) if p} == {-4: 1, -3: 2, -2: 1, 1: 2, 2: 2}, (r.vals, r.probs)
'''),
 dict(id='b04', property='C04',
      edits=[(RV, "    return _sum_at(self, other)  # type: ignore  anydice_casting\n",
              "    if len(other) == self._source_roll and 1 in other._seq and self._source_roll in other._seq:  # all the dice\n      return self\n    return _sum_at(self, other)  # type: ignore  anydice_casting\n")],
      needs='as many positions as dice, with the first and last present and one of them repeated',
      breaks='a repeated position is treated as if all dice had been selected',
      demo='''
from dice_calc import roll, Seq
r = Seq(1, 1, 3) @ roll(3, 2)
got = {v: p for v, p in zip(r.vals, r.probs) if p}
want = {}
import itertools
for t in itertools.product((1, 2), repeat=3):
    h = sorted(t, reverse=True)
    want[2 * h[0] + h[2]] = want.get(2 * h[0] + h[2], 0) + 1
assert got == want, (got, want)
'''),
 dict(id='b05', property='C04',
      edits=[(RV, "    return self._apply_operation(abs)\n", "    return self if self.vals[0] >= 0 else self._apply_operation(abs)\n")],
      needs='position selection from the absolute value of a roll of several dice, none of which can be negative in total',
      breaks='abs of a roll is still treated as the roll of its dice by @ and by typed functions',
      demo='''
from dice_calc import roll
r = 1 @ abs(roll(2, 6))
assert (r.vals[0], r.vals[-1]) == (2, 12), r.vals
'''),
 dict(id='b06', property='C05',
      edits=[(DEC, "      all_rolls_and_probs = []\n      for k in var_name:\n", "      all_rolls_and_probs = []\n      expanded = {}  # the same die may be passed for many parameters\n      for k in var_name:\n"),
             (DEC, "        if expected_type == T_S:\n          r, p = v._get_expanded_possible_rolls()\n", "        if id(v) in expanded:\n          r, p = expanded[id(v)]\n        elif expected_type == T_S:\n          r, p = v._get_expanded_possible_rolls()\n"),
             (DEC, "        all_rolls_and_probs.append(zip(r, p))\n", "        expanded[id(v)] = (r, p)\n        all_rolls_and_probs.append(zip(r, p))\n")],
      needs='one die object passed to both a number and a sequence parameter of one call',
      breaks='the second parameter receives values of the wrong type',
      demo='''
from dice_calc import roll, anydice_casting
from dice_calc.typings import T_N, T_S
@anydice_casting()
def f(A: T_N, B: T_S):
    return A * 100 + len(B)
d = roll(2, 2)
r = f(d, d)
assert {v: p for v, p in zip(r.vals, r.probs)} == {202: 1, 302: 2, 402: 1}, (r.vals, r.probs)
'''),
 dict(id='b07', property='C06',
      edits=[(RV, "      cur_roll_combination_count = FACTORIAL_N // comb_with_repl_denominator\n", "      cur_roll_combination_count = round(FACTORIAL_N / comb_with_repl_denominator)\n")],
      needs='a roll of so many dice that the number of orders of a combination exceeds 2**53',
      breaks='the number of ways to roll a combination is computed in floating point and is off',
      demo='''
import math
from dice_calc import roll, anydice_casting, RV
from dice_calc.typings import T_S
@anydice_casting()
def f(A: T_S):
    return A[30]
seqs, probs = roll(60, 2)._get_expanded_possible_rolls()
assert sorted(probs) == sorted(math.comb(60, k) for k in range(61))
'''),
 dict(id='b08', property='C07',
      edits=[(RV, "    PROD = math.prod(prob_sums)  #", "    PROD = min(math.prod(prob_sums), 10**12)  #")],
      needs='a mixture of parts whose total weights multiply to more than 1e12',
      breaks='the common weight is not a multiple of the part totals, so the parts are mixed in wrong proportions',
      demo='''
from fractions import Fraction
from dice_calc import RV
sums = [999983, 999979, 999961]
r = RV.from_rvs([RV([2 * i, 2 * i + 1], [1, s - 1]) for i, s in enumerate(sums)])
for i, s in enumerate(sums):
    assert Fraction(sum(p for v, p in zip(r.vals, r.probs) if v // 2 == i), sum(r.probs)) == Fraction(1, 3), i
'''),
 dict(id='b09', property='C08',
      edits=[(FUN, "    FROM = 1 + (len(DICE) - NUMBER) // 2\n", "    FROM = 1 + round((len(DICE) - NUMBER) / 2)\n")],
      needs='middle N of a roll where the number of dice left out is 3, 7, 11, ...',
      breaks='one die too low is kept',
      demo='''
from dice_calc import roll, Seq
from dice_calc.funclib import middle_N_of_D
a, b = middle_N_of_D(2, roll(5, 2)), Seq(2, 3) @ roll(5, 2)
assert (a.vals, a.probs) == (b.vals, b.probs)
'''),
 dict(id='b10', property='C09',
      edits=[(SEQ, "zip_longest(self._seq, other._seq, fillvalue=float('-inf'))", "zip_longest(self._seq, other._seq, fillvalue=-1)")],
      needs='comparing sequences of different length where the longer one has -1 or less in its tail',
      breaks='a missing position is no longer below every number',
      demo='''
from dice_calc import Seq
assert bool(Seq(1) < Seq(2, -5)) is True
assert bool(Seq(1) == Seq(1, -1)) is False
'''),
 dict(id='b11', property='C10',
      edits=[(RV, "sorted(vals_probs, key=lambda x: x[1])", "sorted(vals_probs, key=lambda x: round(x[1], 4))")],
      needs='a cut below 1e-4 on a die with several outcomes of different tiny probability, the likelier listed first',
      breaks='outcomes are not dropped in the order of their probability, so fewer or likelier ones are dropped',
      demo='''
from dice_calc import RV
d = RV([1, 2, 3, 4], [40, 2, 1, 10**6])
assert [v for v, _ in d.get_vals_probs(1e-5)] == [1, 4], d.get_vals_probs(1e-5)
'''),
 dict(id='b12', property='C11',
      edits=[(OUTF, "    vp = rv.get_vals_probs(cdf_cut / 100)\n", "    vp = rv.get_vals_probs(cdf_cut / 100 if cdf_cut >= 1 else cdf_cut)\n")],
      needs='a report with a cut of less than one percent',
      breaks='the cut is taken as a fraction instead of a percentage and hides likely outcomes',
      demo='''
from dice_calc import roll, output
t = output(roll(3, 6), print_=False, cdf_cut=0.4)
assert len(t.split(chr(10))) == 1 + 16 + 1, t
'''),
 dict(id='b13', property='C11',
      edits=[(OUTF, "def _output_blank(named, blocks_width, print_, print_fn):\n  result = ''\n  if named is not None:\n    result += named + ' '\n  result += '\\n' + '-' * (blocks_width + 8)\n  if print_:\n    if print_fn is None:\n      SETTINGS['DEFAULT_PRINT_FN'](result)\n",
              "def _output_blank(named, blocks_width, print_, print_fn):\n  result = ''\n  if named is not None:\n    result += named + ' '\n  result += '\\n' + '-' * (blocks_width + 8)\n  if print_:\n    if print_fn is None:\n      print(result)\n")],
      needs='an empty result reported while a default print function is configured',
      breaks='the report of an empty result bypasses the configured print function',
      demo='''
from dice_calc import roll, output, settings_set, Seq
got = []
settings_set('DEFAULT_PRINT_FN', got.append)
output(Seq(), named='x')
assert len(got) == 1, got
'''),
 dict(id='b14', property='C12',
      edits=[(ROL, "  return tuple(random.choices(rv.vals, rv.probs)[0] for _ in range(count))\n",
              "  if count <= sum(rv.probs):  # one draw of all the results\n    return tuple(random.sample(rv.vals, counts=rv.probs, k=count))\n  return tuple(random.choices(rv.vals, rv.probs)[0] for _ in range(count))\n")],
      needs='several draws in one call from a die with small weights; each draw alone is still right',
      breaks='draws of one call are without replacement, not independent',
      demo='''
import random
from dice_calc import roll, roller
random.seed(5)
assert any(len(set(roller(roll(6), 6))) < 6 for _ in range(50))
'''),
 dict(id='b15', property='C13',
      edits=[(RV, "      vals = tuple(int(v) for v in vals)\n", "      vals = tuple(int(v // 1) for v in vals)\n")],
      needs='truncation switched on and a negative decimal outcome',
      breaks='outcomes are rounded down instead of toward zero',
      demo='''
from dice_calc import RV, settings_set
settings_set('RV_TRUNC', True)
assert RV([-1.5, 2.5], [1, 1]).vals == (-1, 2)
'''),
 dict(id='b16', property='C14',
      edits=[(RV, "    self._source_die = self\n\n", "    self._source_die = self\n    self._order_statistics = {}\n\n"),
             (RV, "    '''Get the k-th smallest value of n draws: k@RV where RV is n rolls of a die'''\n", "    '''Get the k-th smallest value of n draws: k@RV where RV is n rolls of a die'''\n    if (draws, k) in self._order_statistics:\n      return self._order_statistics[(draws, k)]\n"),
             (RV, "    res = RV(self.vals, res_prob)\n    res = _INTERNAL_PROB_LIMIT_VALS(res)\n", "    res = RV(self.vals, res_prob)\n    res = _INTERNAL_PROB_LIMIT_VALS(res)\n    self._order_statistics[(draws, N - k + 1 if SETTINGS['position order'] == 'highest first' else k)] = res\n")],
      needs='the same position selected from the same die before and after the position order is changed',
      breaks='the result depends on what was computed before under another setting',
      demo='''
from dice_calc import roll, settings_set
d = roll(3, 6)
hi = 1 @ d
settings_set('position order', 'lowest first')
lo = 1 @ d
assert hi.probs != lo.probs
'''),
 dict(id='b17', property='C15',
      edits=[(DEC, "  def decorator(func):\n    def wrapper(*args, **kwargs):\n      if SETTINGS['INTERNAL_CURR_DEPTH'] >= SETTINGS['maximum function depth']:\n",
              "  def decorator(func):\n    def wrapper(*args, **kwargs):\n      if SETTINGS['INTERNAL_CURR_DEPTH'] == SETTINGS['maximum function depth']:\n")],
      needs='lowering the maximum depth inside functions that are already nested deeper than that',
      breaks='nested calls beyond the lowered limit run without limit',
      demo='''
import io, contextlib
from dice_calc import anydice_casting, settings_set
from dice_calc.typings import T_N
ran = []
@anydice_casting()
def f(N: T_N):
    ran.append(N)
    if N == 3:
        settings_set('maximum function depth', 2)
    if N == 8:
        return 0
    return f(N + 1)
with contextlib.redirect_stdout(io.StringIO()):
    f(1)
assert ran == [1, 2, 3], ran
'''),
 dict(id='b18', property='C16',
      edits=[(PAR, "  ('left', 'LESS', 'GREATER', 'EQUALS', 'NOTEQUALS'),  # Comparison operators\n", "  ('left', 'EQUALS', 'NOTEQUALS'),  # Comparison operators\n  ('left', 'LESS', 'GREATER'),\n")],
      needs='an equality and an ordering comparison in one expression without brackets',
      breaks='comparisons no longer group from the left',
      demo='''
from dice_calc.parser import parse_and_exec as pe
def val(src):
    return pe.unsafe_exec(pe.compile_anydice('output ' + src))[0][0][0]
assert int(val('2 = 2 < 2')) == 1
'''),
 dict(id='b19', property='C17',
      edits=[(PAR, "        p[0] = [*p[1], Node(NodeType.ELSEIF, p[4], p[6])]\n", "        p[0] = [p[1][0], Node(NodeType.ELSEIF, p[4], p[6]), *p[1][1:]]\n")],
      needs='an if with three or more else-if branches of which the second and a later one apply',
      breaks='else-if branches are tried in the wrong order',
      demo='''
from dice_calc.parser import parse_and_exec as pe
src = 'A: 4\\nif A = 1 { B: 1 } else if A = 2 { B: 2 } else if A > 3 { B: 3 } else if A > 2 { B: 4 }\\noutput B'
assert pe.unsafe_exec(pe.compile_anydice(src))[0][0][0] == 3
'''),
 dict(id='b20', property='C18',
      edits=[(RES, "        assert not flags, f'Unknown flags: {flags}'\n", "        assert not any(flags.values()), f'Unknown flags: {flags}'\n")],
      needs='an unknown compiler option that is switched off',
      breaks='an unknown option is accepted',
      demo='''
from dice_calc.parser import parse_and_exec as pe
try:
    pe.compile_anydice('output 1', flags={'COMPILER_FLAG_OPERATORS_ON_INT': False})
except Exception:
    raise SystemExit(0)
raise SystemExit(1)
'''),
 dict(id='b21', property='C19',
      edits=[(EXE, "  lexer, yaccer = build_lex_yacc()\n", "  to_parse = to_parse.replace('\\t', '  ')  # so that reported columns match what an editor shows\n  lexer, yaccer = build_lex_yacc()\n")],
      needs='a label with a tab in it',
      breaks='label text is changed',
      demo='''
from dice_calc.parser import parse_and_exec as pe
out = pe.unsafe_exec(pe.compile_anydice('output 1 named "a\\tb"'))
assert out[0][1]['named'] == 'a\\tb', out
'''),
 dict(id='b22', property='C20',
      edits=[(RES, "'vars = vars.copy(); ' + '; '.join(", "'vars = vars; ' + '; '.join("),
             (RES, "                args.append('vars')\n", "                args.append('vars.copy()')  # the callee gets its own copy\n")],
      needs='the non-local-scope option and a function, called with a die as number, that updates a variable of its caller',
      breaks='the evaluations for the outcomes of one die share their variables, so earlier outcomes affect later ones',
      demo='''
from dice_calc.parser import parse_and_exec as pe
src = 'A: 0\\nfunction: f N:n { A: A + N result: A }\\noutput [f d3]'
out = pe.unsafe_exec(pe.compile_anydice(src, flags={'COMPILER_FLAG_NON_LOCAL_SCOPE': True}))
assert out[0][0][0].vals == (1, 2, 3), out[0][0][0].vals
'''),
 dict(id='b23', property='C21',
      edits=[(RV, "  rv._get_sum_probs(force=True)  # force update sum\n", "  rv._get_sum_probs()  # update sum\n")],
      needs='a roll so large that weights are scaled down, then its mean, deviation or listing',
      breaks='the total weight is the one from before scaling down, so probabilities do not add up to 1',
      demo='''
from dice_calc import roll
d = roll(60, 6)
assert abs(sum(p for _, p in d.get_vals_probs()) - 1) < 1e-9
'''),
 dict(id='b24', property='C22',
      edits=[(STR, "      return self.keys != other.keys or self.data != other.data\n", "      return self.keys != other.keys or any(self.data[k] > other.data[k] for k in self.keys)\n")],
      needs='comparing two outcomes with the same texts where the first has smaller counts',
      breaks='two outcomes with different counts are neither equal nor unequal',
      demo='''
from dice_calc.string_rvs import StringVal
a = StringVal.from_str('a')
assert (a != a + a) is True and (a + a != a) is True and (a != a) is False
'''),
 dict(id='b25', property='C23',
      edits=[(ROL, "    _RHS = _d_RHS if _d_LHS == 1 and", "    _RHS = _d_RHS if abs(_d_LHS) == 1 and")],
      needs='rolling a negated numbered die again',
      breaks='the die is described as a roll of ordinary numbered dice',
      demo='''
from dice_calc import roll
assert str(roll(2, roll(-1, 6))) == '2d{?}', str(roll(2, roll(-1, 6)))
'''),
]
