"""Fifth batch of planted bugs (same table format as seeds.py)."""
from paths import RV, ROL, DEC, SEQ, SET, OUTF, FUN, STR, BLK, FAC, UTL, ALT, PAR, RES, EXE

PE = "from dice_calc.parser import parse_and_exec as pe\nN = chr(10)\n"
SEEDS = [
 dict(id='b89', property='C02',
      edits=[(RV, "      if zipped[i][0] == zipped[i - 1][0]:  # add", "      if zipped[i][0] == zipped[i - 1][0] or (isinstance(zipped[i][0], float) and isinstance(zipped[i - 1][0], float) and math.isclose(zipped[i][0], zipped[i - 1][0], rel_tol=1e-6)):  # add")],
      needs='two different decimal outcomes that are relatively close',
      breaks='outcomes that differ are merged into one',
      demo="""
from dice_calc import RV
d = RV([1000000.25, 1000000.5], [1, 1]) + 0.25
assert len(d.vals) == 2, d.vals
"""),
 dict(id='b91', property='C04',
      edits=[(ROL, "  if n == 1:\n    return d\n", "  if n == 1:\n    return d\n  if len(d.vals) == 1:  # nothing to convolve\n    return RV.from_const(n * d.vals[0])\n")],
      needs='several dice of one and the same face, then positions, length or sequence casting',
      breaks='the roll is taken as one die showing the sum',
      demo="""
from dice_calc import RV, roll
r = roll(3, [5])
assert len(r) == 3
assert (2 @ r).vals == (5,), (2 @ r)
"""),
 dict(id='b93', property='C05',
      edits=[(DEC, "        all_rolls_and_probs.append(zip(r, p))\n      # FINALLY", "        r, p = tuple(r), tuple(p)\n        same = [i for i, w in enumerate(var_name[:len(all_rolls_and_probs)]) if hard_params[w] is hard_params[k] or (hard_params[w][0] is v and hard_params[w][1] is T_S)]\n        all_rolls_and_probs.append(tuple(zip(r, p)))\n        linked[len(all_rolls_and_probs) - 1] = same[0] if same and expected_type is T_S else None\n      # FINALLY"),
             (DEC, "      all_rolls_and_probs = []\n", "      all_rolls_and_probs = []\n      linked = {}\n"),
             (DEC, "        rolls = tuple(r for r, _ in rolls_and_prob)\n", "        if any(j is not None and rolls_and_prob[i] is not all_pairs[i][all_pairs[j].index(rolls_and_prob[j])] for i, j in linked.items()):\n          continue\n        rolls = tuple(r for r, _ in rolls_and_prob)\n"),
             (DEC, "      all_rolls_and_probs = product(*all_rolls_and_probs)\n", "      all_pairs = all_rolls_and_probs\n      all_rolls_and_probs = product(*all_rolls_and_probs)\n")],
      needs='the same die object passed as sequence for two parameters of one call',
      breaks='the two parameters get the same roll instead of independent ones',
      demo="""
from dice_calc import RV, roll, anydice_casting
from dice_calc.typings import T_S
@anydice_casting()
def f(A: T_S, B: T_S):
    return (1 @ A) * 10 + (1 @ B)
d = roll(1, 3)
assert len(f(d, d).vals) == 9, f(d, d)
"""),
 dict(id='b94', property='C06',
      edits=[(RV, "    if N == 1:  # answer is simple", "    if N == 1 or len(D.vals) == 1:  # answer is simple")],
      needs='a roll of several one-faced dice passed as a sequence',
      breaks='the sequence has one element instead of n',
      demo="""
from dice_calc import RV, roll, anydice_casting
from dice_calc.typings import T_S
@anydice_casting()
def f(A: T_S):
    return len(A)
assert RV.dices_are_equal(f(roll(3, [7])), 3)
"""),
 dict(id='b95', property='C07',
      edits=[(RV, "    blank_inds = set(i for i, x in enumerate(rvs) if isinstance(x, blackrv.BlankRV) or x is None)\n", "    blank_inds = set(i for i, x in enumerate(rvs) if x is None or (isinstance(x, blackrv.BlankRV) and not x._special_null))\n    if len(blank_inds) == 0 and all(isinstance(x, blackrv.BlankRV) for x in rvs):\n      return blackrv.BlankRV()\n"),
             ],
      needs='a function over the outcomes of a die, some of whose results come from another function that was given a blank die',
      breaks='the missing result becomes an outcome of the mixture',
      demo="""
from dice_calc import RV, roll, anydice_casting
from dice_calc.typings import T_N
@anydice_casting()
def g(A: T_N):
    return A
@anydice_casting()
def f(A: T_N):
    if A == 1:
        return g(roll(1, []))
    return A
r = f(roll(1, 3))
assert r.vals == (2, 3) and r.probs == (1, 1), (r.vals, r.probs)
"""),
 dict(id='b96', property='C08',
      edits=[(FUN, "    MAX = maximum_of(DIE)\n", "    if len(Seq(DIE)) == 1:  # would explode on every roll\n        return DIE\n    MAX = maximum_of(DIE)\n")],
      needs='a die with a single face',
      breaks='the die does not explode',
      demo="""
from dice_calc import RV, roll
from dice_calc.funclib import explode
assert RV.dices_are_equal(explode(roll(1, [4])), 12), explode(roll(1, [4]))
"""),
 dict(id='b97', property='C09',
      edits=[(SEQ, "    return 1 if self.sum() == 0 else 0", "    return 0 if any(self._seq) else 1")],
      needs='a sequence of non-zero numbers that add up to 0',
      breaks='logical not does not follow the sum',
      demo="""
from dice_calc import Seq
assert ~Seq(1, -1) == 1
"""),
 dict(id='b99', property='C11',
      edits=[(OUTF, "  if blocks_width is None:", "  if not blocks_width:")],
      needs='an explicit width of 0',
      breaks='the default width is used',
      demo="""
from dice_calc import output, roll
t = output(roll(1, 6), blocks_width=0, print_=False)
assert t.split(chr(10))[-1] == '-' * 8, t
"""),
 dict(id='b100', property='C12',
      edits=[(ROL, "  if count is None:\n    return random.choices(rv.vals, rv.probs)[0]\n  return tuple(random.choices(rv.vals, rv.probs)[0] for _ in range(count))\n",
              "  key = (id(rv), len(rv.vals))\n  if key not in _CUM_WEIGHTS:\n    _CUM_WEIGHTS[key] = tuple(accumulate(rv.probs))\n  cum = _CUM_WEIGHTS[key]\n  if count is None:\n    return random.choices(rv.vals, cum_weights=cum)[0]\n  return tuple(random.choices(rv.vals, cum_weights=cum)[0] for _ in range(count))\n\n\n_CUM_WEIGHTS = {}\n"),
             (ROL, "import math\n", "import math\nfrom itertools import accumulate\n")],
      needs='rolling temporary dice with the same number of outcomes and different weights one after another',
      breaks='a later die is rolled with the weights of an earlier one',
      demo="""
import random
from dice_calc import RV
from dice_calc.roller import roller
random.seed(1)
for i in range(300):
    a = i % 2
    got = roller(RV([0, 1], [1 - a, a] if a else [1, 0]), 5)
    assert set(got) == {a}, (i, got)
"""),
 dict(id='b101', property='C13',
      edits=[(SET, "  elif name == \"explode depth\":\n", "  elif name == \"explode depth\":\n    if isinstance(value, str) and value.strip().isdigit():  # as with the other options, accept text\n      value = int(value)\n")],
      needs='explode depth given as text of digits',
      breaks='an invalid value is accepted',
      demo="""
from dice_calc import settings_set
try:
    settings_set('explode depth', '3')
except AssertionError:
    raise SystemExit(0)
raise SystemExit(1)
"""),
 dict(id='b102', property='C14',
      edits=[(RV, "      return _rdict.__fast_convolve_op_add(items1, items2)\n    d = _rdict()\n    for k1, v1 in zip(*items1):\n      for k2, v2 in zip(*items2):\n        d[operation(k1, k2)] = v1 * v2\n    return d.to_tuples()\n", "      return _rdict.__fast_convolve_op_add(items1, items2)\n    key = (items1, items2, operation)  # builtin operators only, lambdas never match\n    if key in _CONVOLVED:\n      return _CONVOLVED[key]\n    d = _rdict()\n    for k1, v1 in zip(*items1):\n      for k2, v2 in zip(*items2):\n        d[operation(k1, k2)] = v1 * v2\n    if operation == operator.mul:\n      _CONVOLVED[key] = d.to_tuples()\n    return d.to_tuples()\n"),
             (RV, "class _rdict:\n", "_CONVOLVED = {}\n\n\nclass _rdict:\n")],
      needs='the product of two dice whose outcomes equal those of an earlier product of dice with decimals',
      breaks='the result has the (inexact) decimals of the earlier computation',
      demo="""
from dice_calc import RV
a = RV([1e11, 1.0], [1, 1])
a * a
b = RV([10**11 , 1], [1, 1])
assert all(isinstance(v, int) for v in (b * b).vals), (b * b).vals
"""),
 dict(id='b103', property='C15',
      edits=[(DEC, "      if SETTINGS['INTERNAL_CURR_DEPTH'] >= SETTINGS['maximum function depth']:\n", "      if SETTINGS['INTERNAL_CURR_DEPTH'] == 0:  # look it up once per outermost call\n        _limit[0] = SETTINGS['maximum function depth']\n      if SETTINGS['INTERNAL_CURR_DEPTH'] >= _limit[0]:\n"),
             (DEC, "def max_func_depth():\n", "_limit = [0]\n\n\ndef max_func_depth():\n")],
      needs='the maximum depth is changed inside a running function',
      breaks='the new limit does not apply to the calls made next',
      demo="""
from dice_calc import anydice_casting, settings_set
n = [0]
@anydice_casting()
def g():
    n[0] += 1
    return 1
@anydice_casting()
def f():
    settings_set('maximum function depth', 1)
    return g()
f()
assert n[0] == 0
"""),
 dict(id='b104', property='C16',
      edits=[(RES, "            return f'({self.resolve_node(node.val)})'\n", "            if node.val.type in (NodeType.UNARY, NodeType.NUMBER, NodeType.VAR, NodeType.SEQ, NodeType.CALL):  # redundant, these bind tightest\n                return self.resolve_node(node.val)\n            return f'({self.resolve_node(node.val)})'\n")],
      needs='a parenthesised negative number as the base of a power',
      breaks='the power is taken before the sign',
      demo=PE + """
out = pe.unsafe_exec(pe.compile_anydice('output (-2)^2'))
assert out[0][0][0] == 4, out
"""),
 dict(id='b105', property='C18',
      edits=[(RES, "            return '\\n'.join([self.resolve_node(x) for x in node]) if len(node) > 0 else 'pass'\n", "            stmts = []\n            for x in node:\n                stmts.append(self.resolve_node(x))\n                if x.type == NodeType.RESULT:  # what follows is never reached\n                    break\n            return '\\n'.join(stmts) or 'pass'\n")],
      needs='an undefined function called only in the code after a result statement of a block',
      breaks='a call to a function that does not exist is accepted',
      demo=PE + """
try:
    pe.compile_anydice('function: f X { result: X  result: [nosuch X] } output [f 1]')
except AssertionError:
    raise SystemExit(0)
raise SystemExit(1)
"""),
 dict(id='b106', property='C19',
      edits=[(PAR, "t_instring_ignore = ''\n", "t_instring_ignore = '\\t'\n")],
      needs='a label with a tab at its start or right after a variable or bracket',
      breaks='the tab is lost',
      demo=PE + """
out = pe.unsafe_exec(pe.compile_anydice('A: 1 output 1 named "x[A]' + chr(9) + 'y"'))
assert out[0][1]['named'] == 'x1' + chr(9) + 'y', out
"""),
 dict(id='b107', property='C16',
      edits=[(UTL, "def myinvert(a):\n    if isinstance(a, int):\n        return 1 if a == 0 else 0\n    return ~a\n", "def myinvert(a):\n    if not hasattr(a, 'probs') and not hasattr(a, 'mean'):  # anything but dice\n        return 0 if a else 1\n    return ~a\n")],
      needs='the operators-on-integers option and logical not of a non-empty sequence that adds up to 0',
      breaks='the sequence counts as true',
      demo=PE + """
out = pe.unsafe_exec(pe.compile_anydice('output !{0}', flags={'COMPILER_FLAG_OPERATOR_ON_INT': True}))
assert out[0][0][0] == 1, out
"""),
 dict(id='b108', property='C21',
      edits=[(RV, "    res = RV(self.vals, res_prob)\n    res = _INTERNAL_PROB_LIMIT_VALS(res)\n", "    res = RV(self.vals, res_prob)\n    res = _INTERNAL_PROB_LIMIT_VALS(res, sum_limit=10**18)\n")],
      needs='a position of a roll with exact weights beyond 10^18',
      breaks='the selected distribution is off by more than 1e-9',
      demo="""
from dice_calc import RV, roll
from fractions import Fraction
r = 30 @ roll(41, 7)
s = sum(r.probs)
import math
for v, p in zip(r.vals, r.probs):
    def ge(x, j):  # at least j of 41 dice are >= x
        q = Fraction(8 - x, 7)
        return sum(math.comb(41, i) * q**i * (1 - q)**(41 - i) for i in range(j, 42))
    want = ge(v, 30) - ge(v + 1, 30)
    assert abs(Fraction(p, s) - want) < Fraction(1, 10**9), (v, float(abs(Fraction(p, s) - want)))
"""),
 dict(id='b110', property='C23',
      edits=[(RV, "  def __neg__(self):\n    return 0 - self\n", "  def __neg__(self):\n    res = 0 - self\n    s, d = self._str_LHS_RHS\n    if isinstance(s, int) and isinstance(d, int):\n      res._str_LHS_RHS = (-s, d)  # a negative roll\n    return res\n")],
      needs='the description of a negated roll',
      breaks='an operation other than a roll is described as a roll',
      demo="""
from dice_calc import roll
assert str(-roll(3, 6)) == 'd{?}', str(-roll(3, 6))
"""),
 dict(id='b111', property='C02',
      edits=[(RV, "  def __or__(self, other: T_ifsr):\n    return self._convolve(other, lambda x, y: 1 if x or y else 0)", "  def __or__(self, other: T_ifsr):\n    return self._convolve(other, lambda x, y: min(1, abs(x + y)))")],
      needs='logical or of outcomes that cancel out, or of decimals',
      breaks='the result is 0 (or a decimal) where it should be 1',
      demo="""
from dice_calc import RV
r = RV([-1, 1], [1, 1]) | RV([-1, 1], [1, 1])
assert RV.dices_are_equal(r, 1), r
"""),
 dict(id='b112', property='C13',
      edits=[(RV, "    if truncate or (truncate is None and SETTINGS['RV_TRUNC']):", "    if truncate or SETTINGS['RV_TRUNC']:")],
      needs='truncation on, and a die built with truncate=False',
      breaks='the explicit choice is overridden',
      demo="""
from dice_calc import RV, settings_set
settings_set('RV_TRUNC', True)
assert RV([1.5], [1], truncate=False).vals == (1.5,)
"""),
 dict(id='b113', property='C05',
      edits=[(DEC, "(arg_names[k] if k < len(arg_names) else None)", "(arg_names[min(k, len(arg_names) - 1)] if arg_names else None)")],
      needs='more positional arguments than named parameters (*args), the last named one being typed',
      breaks='an untyped argument is converted',
      demo="""
from dice_calc import RV, roll, anydice_casting
from dice_calc.typings import T_N
got = []
@anydice_casting()
def f(A: T_N, *rest):
    got.append(rest)
    return A
d = roll(1, 6)
f(3, d)
assert len(got) == 1 and got[0][0] is d
"""),
 dict(id='b116', property='C16',
      edits=[(PAR, "  ('left', 'POWER'),\n", "  ('right', 'POWER'),\n")],
      needs='a chain of powers',
      breaks='powers group from the right',
      demo=PE + """
out = pe.unsafe_exec(pe.compile_anydice('output 2^3^2'))
assert out[0][0][0] == 64, out
"""),
 dict(id='b119', property='C20',
      edits=[(RES, "            func_code = ''\n", "            func_code = ''\n            body = self._indent_resolve(code)\n"),
             (RES, "for n in func_arg_names])) + '\\n'\n            func_code += self._indent_resolve(code)\n", "for n in func_arg_names if f\"vars['{n}']\" in body])) + '\\n'  # only what is used\n            func_code += body\n")],
      needs='non-local scope: a function that uses a parameter of its caller which the caller itself does not use',
      breaks='the callee does not see the variable (or an outer one)',
      demo=PE + """
code = pe.compile_anydice('A: 1 function: inner { result: A } function: outer A { result: [inner] } output [outer 5]', flags={'COMPILER_FLAG_NON_LOCAL_SCOPE': True})
out = pe.unsafe_exec(code)
assert out[0][0][0] == 5, out
"""),
 dict(id='b122', property='C04',
      edits=[(RV, "    if not isinstance(other, MetaRV):\n      return RV([operation(v, other) for v in self.vals], self.probs)\n", "    if not isinstance(other, MetaRV):\n      if operation is operator.add and isinstance(other, int) and other == 0:  # nothing to do\n        return self\n      return RV([operation(v, other) for v in self.vals], self.probs)\n")],
      needs='0 (or a sequence adding up to 0) added to a roll of several dice, then positions or sequence casting',
      breaks='the sum is still taken as the roll of its dice',
      demo="""
from dice_calc import RV, roll
r = roll(3, 6) + 0
assert RV.dices_are_equal(1 @ r, roll(3, 6)), 1 @ r
"""),
 dict(id='b125', property='C09',
      edits=[(ROL, "    return range(int(left), int(right) + 1)\n", "    left, right = int(left), int(right)\n    return range(left, right + 1) if left <= right + 1 else range(left, right - 1, -1)\n")],
      needs='a range whose end lies two or more below its start',
      breaks='the range counts down instead of being empty',
      demo=PE + """
out = pe.unsafe_exec(pe.compile_anydice('output {5..3}'))
assert len(out[0][0][0]) == 0, out
"""),
 dict(id='b126', property='C03',
      edits=[(ROL, "    dies = tuple(roll(int(v), d) for v in n.vals)\n", "    dies = tuple(roll(int(v), d) if v else None for v in n.vals)\n")],
      needs='a count that is a die with 0 among its outcomes',
      breaks='rolling no dice is left out instead of giving 0',
      demo="""
from dice_calc import RV, roll
r = roll(RV([0, 1], [1, 1]), 2)
assert r.vals == (0, 1, 2), r
"""),
 dict(id='b130', property='C22',
      edits=[(FAC, "  if any(isinstance(x, (str, string_rvs.StringVal)) for x in res):", "  if any(isinstance(x, (str, string_rvs.StringVal)) for x in flat_else):")],
      needs='a sequence or die with faces taken from a die of texts',
      breaks='texts inside dice are refused',
      demo="""
from dice_calc import roll
from dice_calc.factory import get_seq
assert len(get_seq(1, roll(1, ['a', 'b']))) == 3
"""),
]
