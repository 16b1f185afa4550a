"""Twelfth batch of planted bugs (same table format as seeds.py)."""
from paths import RV, ROL, DEC, SEQ, SET, OUTF, FUN, STR, BLK, FAC, UTL, ALT, PAR, RES, EXE

SEEDS = [
 dict(id='b272', property='C02',
      edits=[(RV, "    if not isinstance(other, MetaRV):\n      return RV([operation(v, other) for v in self.vals], self.probs)\n", "    if not isinstance(other, MetaRV):\n      return RV([operation(v, other) for v in self.vals], self.probs)\n    if other is self and operation is operator.mod:  # x % x\n      return RV.from_const(0)\n")],
      needs='the remainder of a die and the very same die object', breaks='the two are not independent',
      demo="""
from dice_calc.roller import roll
a, b = roll(4), roll(4)
assert (a % a).vals == (a % b).vals == (0, 1, 2, 3)
"""),
 dict(id='b273', property='C13',
      edits=[(DEC, "        prob = math.prod(p for _, p in rolls_and_prob)\n", "        prob = math.prod(p for _, p in rolls_and_prob)\n        if prob == 0 and len(all_hard) > 1:  # cannot happen\n          continue\n"),
             (DEC, "      var_name = tuple(hard_params.keys())\n", "      var_name = all_hard = tuple(hard_params.keys())\n")],
      needs='two dice arguments, one of which has an outcome of zero weight', breaks='the function is not called for it and its results are not listed',
      demo="""
from dice_calc.randvar import RV
from dice_calc.decorators import anydice_casting
from dice_calc.typings import T_N
@anydice_casting()
def f(A: T_N, B: T_N):
    return A * 10 + B
assert f(RV([1, 2], [0, 1]), RV([1, 2], [1, 1])).vals == (11, 12, 21, 22)
"""),
 dict(id='b274', property='C13',
      edits=[(RV, "    for weight, prob_sum, rv in zip(weights, prob_sums, rvs):\n", "    for weight, prob_sum, rv in zip(weights, prob_sums, rvs):\n      if weight == 0 and isinstance(rv, RV) and len(rv.vals) > 1 and res_vals:\n        continue\n")],
      needs='a die as a part of weight zero, not the first part', breaks='its outcomes are not listed',
      demo="""
from dice_calc.randvar import RV
from dice_calc.roller import roll
assert RV.from_rvs([7, roll(2)], [1, 0]).vals == (1, 2, 7)
"""),
 dict(id='b275', property='C08',
      edits=[(FUN, "    COUNT = 0\n    for P in range(1, len(VALUES) + 1):\n        COUNT = COUNT + (P @ VALUES == SEQUENCE)\n    return COUNT\n", "    if len(VALUES) > 12:\n        WANTED = set(SEQUENCE)\n        return sum(1 for V in VALUES if V in WANTED)\n    COUNT = 0\n    for P in range(1, len(VALUES) + 1):\n        COUNT = COUNT + (P @ VALUES == SEQUENCE)\n    return COUNT\n")],
      needs='more than twelve values and a number that occurs twice among the wanted ones', breaks='it counts once',
      demo="""
from dice_calc.funclib import count_in
from dice_calc.seq import Seq
assert count_in(Seq(range(20)), Seq(3, 3, 5)) == 3
"""),
 dict(id='b276', property='C08',
      edits=[(FUN, "    if depth is None:\n        depth = SETTINGS['explode depth']\n", "    depth = depth or SETTINGS['explode depth']\n")],
      needs='an explicit depth of 0', breaks='the configured depth is used',
      demo="""
from dice_calc.funclib import explode
from dice_calc.roller import roll
assert explode(roll(4), depth=0).vals == (1, 2, 3, 4)
"""),
 dict(id='b277', property='C09',
      edits=[(SEQ, "    if not isinstance(s2, Seq):\n      s2 = Seq(s2)\n    return s1._seq == s2._seq", "    if not isinstance(s2, Seq):\n      s2 = Seq(s2)\n    return len(s1) == len(s2) and all(float(x) == float(y) for x, y in zip(s1._seq, s2._seq))")],
      needs='whole numbers beyond 2^53', breaks='different sequences count as equal',
      demo="""
from dice_calc.seq import Seq
assert not Seq.seqs_are_equal(Seq(2**53), Seq(2**53 + 1))
"""),
 dict(id='b278', property='C11',
      edits=[(OUTF, "  if print_:\n    if print_fn is None:\n      SETTINGS['DEFAULT_PRINT_FN'](result)\n    else:\n      print_fn(result)\n    return\n  else:\n    return result\n\n\ndef _output_blank", "  if print_:\n    return (SETTINGS['DEFAULT_PRINT_FN'] if print_fn is None else print_fn)(result)\n  else:\n    return result\n\n\ndef _output_blank")],
      needs='a print function that returns something', breaks='output returns it',
      demo="""
from dice_calc.output import output
assert output(3, print_fn=lambda t: 'x') is None
"""),
 dict(id='b279', property='C13',
      edits=[(SET, "def settings_set(name, value):\n", "def settings_set(name, value):\n  if isinstance(name, str) and name.lower() in SETTINGS:\n    name = name.lower()\n")],
      needs='the name of a setting in capitals', breaks='an unknown name is accepted',
      demo="""
from dice_calc.settings import settings_set
try:
    settings_set('Explode Depth', 3)
except AssertionError:
    pass
else:
    raise SystemExit('accepted')
"""),
 dict(id='b280', property='C23',
      edits=[(ROL, "  result = copy.copy(_roll(n, d))  # ROLL!", "  result = _roll(n, d)\n  if result is d or not isinstance(n, int) or n < 2:\n    result = copy.copy(result)  # ROLL!")],
      needs='the same dice rolled both by their number of sides and by their list of faces', breaks='the earlier die describes itself like the later one',
      demo="""
from dice_calc.roller import roll
a = roll(2, 6)
b = roll(2, [1, 2, 3, 4, 5, 6])
assert str(a) == '2d6' and str(b) == '2d{?}', (str(a), str(b))
"""),
 dict(id='b281', property='C04',
      edits=[(RV, "  def __floor__(self):\n", "  def __floor__(self):\n    if all(isinstance(v, int) for v in self.vals):\n      return self\n")],
      needs='math.floor of a roll of several dice, and then a position of the result', breaks='the result still counts as several dice',
      demo="""
import math
from dice_calc.roller import roll
x = math.floor(roll(2, 6))
assert (1 @ x).vals == tuple(range(2, 13)), x
"""),
 dict(id='b282', property='C10',
      edits=[(RV, "    if len(vp) == 0:\n        return RV.from_const(0)\n    vals, probs = zip(*vp)\n", "    if len(vp) == 0:\n        return RV.from_const(0)\n    if len(vp) == len(self.vals):\n        return self\n    vals, probs = zip(*vp)\n")],
      needs='a roll of several dice filtered by something that is not among its outcomes, and then a position of the result', breaks='the result still counts as several dice',
      demo="""
from dice_calc.roller import roll
x = roll(2, 6).filter(99)
assert len(x) == 1 and (1 @ x).vals == tuple(range(2, 13))
"""),
 dict(id='b283', property='C22',
      edits=[(STR, "    return len(self.keys) == 1 and re.match(r'^-?\\d+(\\.\\d+)?$', self.keys[0])", "    return len(self.keys) == 1 and re.match(r'^-?\\d+(\\.\\d+)?$', self.keys[0]) and self.data[self.keys[0]] == 1")],
      needs='a text that looks like a number, more than once', breaks='it is listed without quotes',
      demo="""
from dice_calc.roller import roll
from dice_calc.factory import get_seq
x = roll(2, get_seq('1', '1'))
y = [v for v, _ in x.get_vals_probs()]
assert y == ['"2*1"'], y
"""),
 dict(id='b284', property='C26',
      edits=[(ROL, "_MEMOIZED_ROLLS = {}\n", "_MEMOIZED_ROLLS = {}\nrandom.seed()\n")],
      needs='the standard generator seeded before the package is imported', breaks='importing the package loses the seed',
      demo="""
import subprocess, sys
code = 'import random; random.seed(5); s = random.getstate(); import dice_calc; assert random.getstate() == s'
subprocess.run([sys.executable, '-c', code], check=True)
"""),
 dict(id='b285', property='C26',
      edits=[(EXE, "logger = logging.getLogger(__name__)\n", "logger = logging.getLogger(__name__)\nlogging.basicConfig(level=logging.ERROR)\n")],
      needs='a program that sets up logging after importing the parser', breaks='the set-up of the program has no effect',
      demo="""
import subprocess, sys
code = 'import logging; import dice_calc.parser; assert not logging.getLogger().handlers'
subprocess.run([sys.executable, '-c', code], check=True)
"""),
 dict(id='b287', property='C19',
      edits=[(PAR, "    'multiline_code : empty'\n", "    'multiline_code : empty'\n"),
             (RES, "            str_list = []\n            for x in node:\n", "            str_list = []\n            if len(node) > 40:  # only plain text\n                str_list, node = [], [x for x in node if isinstance(x, str)]\n            for x in node:\n")],
      needs='a label of more than forty pieces', breaks='the variables in it are left out',
      demo="""
from dice_calc.parser import parse_and_exec as pe
r = pe.unsafe_exec(pe.compile_anydice('A: 3 output 1 named "' + 'x[A]' * 30 + '"'))
assert r[0][1]['named'] == 'x3' * 30, r
"""),
 dict(id='b288', property='C16',
      edits=[(RES, "            return f'{val1}.{val2}'\n", "            return f'{val1}.{val2[:15]}'\n")],
      needs='a decimal with more than fifteen digits after the point, the first ones zero', breaks='digits are lost',
      demo="""
from dice_calc.parser import parse_and_exec as pe
r = pe.unsafe_exec(pe.compile_anydice('output 0.00000000000000012345'))
assert r[0][0][0] == 0.00000000000000012345, r
"""),
 dict(id='b289', property='C16',
      edits=[(UTL, "    if isinstance(a, int):\n        return 1 if a == 0 else 0\n    return ~a\n", "    if isinstance(a, int):\n        return ~a & 1\n    return ~a\n")],
      needs='the operators-on-integers option and logical not of an even number other than 0', breaks='the number counts as false',
      demo="""
from dice_calc.utils import myinvert
assert myinvert(4) == 0 and myinvert(0) == 1
"""),
 dict(id='b290', property='C16',
      edits=[(UTL, "    if isinstance(a, int) and isinstance(b, int):\n        return 1 if (a and b) else 0\n    return a & b\n", "    if isinstance(a, int) and isinstance(b, int):\n        return 1 if a * b > 0 else 0\n    return a & b\n")],
      needs='the operators-on-integers option and the conjunction of numbers of different sign', breaks='it is false',
      demo="""
from dice_calc.utils import myand
assert myand(-1, 2) == 1
"""),
 dict(id='b291', property='C17',
      edits=[(RES, "            res_header = f'for {var} in {self.resolve_node(over)}:'\n", "            res_header = f'for {var} in {self.resolve_node(over)}:'\n            if isinstance(over, Node) and over.type == NodeType.SEQ and len(over) > 8 and all(isinstance(x, Node) and x.type == NodeType.NUMBER for x in over):\n                res_header = f'for {var} in ({\", \".join(dict.fromkeys(self.resolve_node(x) for x in over))}):'\n")],
      needs='a loop over a written-out sequence of more than eight numbers with a repetition', breaks='repeated numbers are visited once',
      demo="""
from dice_calc.parser import parse_and_exec as pe
r = pe.unsafe_exec(pe.compile_anydice('T: 0 loop A over {1,2,3,4,5,5,5,6,7,8} { T: T + A } output T'))
assert r[0][0][0] == 46, r
"""),
 dict(id='b292', property='C17',
      edits=[(RES, "            self._called_functions.add(name)\n", "            self._called_functions.add(name)\n            if len(args) == 2 and args[0] == args[1] and name.endswith('of_X_and_X'):\n                return args[0]\n")],
      needs='the highest or lowest of two dice written the same way', breaks='one die is taken instead of two',
      demo="""
from dice_calc.parser import parse_and_exec as pe
r = pe.unsafe_exec(pe.compile_anydice('output [highest of 1d6 and 1d6]'))
assert r[0][0][0].probs == (1, 3, 5, 7, 9, 11), r
"""),
 dict(id='b294', property='C20',
      edits=[(RES, "        if any(f in _FUNCS_MAY_COLLIDE or set(f) <= {'X', '_'} for f in self._defined_functions):", "        if any(f in _FUNCS_MAY_COLLIDE or f in ('X', 'X_X') for f in self._defined_functions):")],
      needs='a function of three parameters and no words, whose name is also a variable', breaks='calling it after the variable is set fails',
      demo="""
from dice_calc.parser import parse_and_exec as pe
r = pe.unsafe_exec(pe.compile_anydice('function: A B C { result: A + B + C } X_X_X: 5 output [1 2 3] + X_X_X'))
assert r[0][0][0] == 11, r
"""),
 dict(id='b295', property='C18',
      edits=[(RES, "            func_name = '_'.join(func_name)\n            self._defined_functions.add(func_name)\n", "            func_name = '_'.join(func_name)\n            self._defined_functions.add(func_name)\n            if len(func_args) > 1:\n                self._defined_functions.add(func_name.replace('X_X', 'X'))  # adjacent arguments can be one\n")],
      needs='a call with one argument too few of a function with adjacent parameters', breaks='the unknown function is accepted',
      demo="""
from dice_calc.parser import parse_and_exec as pe
try:
    pe.compile_anydice('function: f A B { result: A + B } output [f 1]')
except AssertionError:
    pass
else:
    raise SystemExit('accepted')
"""),
 dict(id='b296', property='C25',
      edits=[(PAR, "    line_start = inp.rfind('\\n', 0, lexpos) + 1\n", "    line_start = inp.rfind('\\n', max(0, lexpos - 2000), lexpos) + 1\n")],
      needs='an error more than 2000 characters into its line', breaks='the column is counted from the start of the text',
      demo="""
import logging
from dice_calc.parser import parse_and_exec as pe
try:
    pe.compile_anydice('output 1\\n' + ' ' * 2500 + '$')
except AssertionError as e:
    assert '2501' in str(e), e
"""),
 dict(id='b298', property='C12',
      edits=[(ROL, "  return tuple(random.choices(rv.vals, rv.probs)[0] for _ in range(count))", "  if sum(rv.probs) > 10**20:  # use small weights\n    m = max(rv.probs)\n    small = [p * 10**6 // m for p in rv.probs]\n    return tuple(random.choices(rv.vals, small)[0] for _ in range(count))\n  return tuple(random.choices(rv.vals, rv.probs)[0] for _ in range(count))")],
      needs='several draws from a die with very large weights and many outcomes each rarer than a millionth of the likeliest', breaks='they can never be drawn',
      demo="""
import random
from dice_calc.randvar import RV
from dice_calc.roller import roller
random.seed(1)
d = RV(range(2001), [10**30] + [10**24 - 1 for _ in range(2000)])
got = roller(d, 20000)
assert sum(1 for v in got if v) > 5
"""),
 dict(id='b300', property='C05',
      edits=[(DEC, "        elif expected_type == T_N and isinstance(arg_val, MetaRV):\n", "        elif expected_type == T_N and isinstance(arg_val, MetaRV) and len(arg_val.vals) == 1 and not kwargs:\n          new_val = arg_val.vals[0]\n        elif expected_type == T_N and isinstance(arg_val, MetaRV):\n")],
      needs='a die with one outcome passed as number to a function that returns a sequence or nothing', breaks='the result is not a die',
      demo="""
from dice_calc.randvar import RV
from dice_calc.seq import Seq
from dice_calc.decorators import anydice_casting
from dice_calc.typings import T_N
@anydice_casting()
def f(A: T_N):
    return Seq(A, A)
assert isinstance(f(RV([3], [1])), RV)
"""),
 dict(id='b301', property='C15',
      edits=[(DEC, "      SETTINGS['INTERNAL_CURR_DEPTH'] += 1\n      try:\n        res = func(*args, **kwargs)\n      finally:\n        SETTINGS['INTERNAL_CURR_DEPTH'] -= 1\n", "      depth = SETTINGS['INTERNAL_CURR_DEPTH']\n      SETTINGS['INTERNAL_CURR_DEPTH'] = depth + 1\n      res = func(*args, **kwargs)\n      SETTINGS['INTERNAL_CURR_DEPTH'] = depth\n"),
             (DEC, "        msg = 'The maximum function depth", "        if SETTINGS['INTERNAL_CURR_DEPTH_WARNING_PRINTED'] is None:\n          SETTINGS['INTERNAL_CURR_DEPTH'] = 0\n        msg = 'The maximum function depth")],
      needs='an error raised inside a function', breaks='its depth is never given back',
      demo="""
from dice_calc.decorators import anydice_casting
from dice_calc.settings import SETTINGS
@anydice_casting()
def f(A):
    raise ValueError
for _ in range(3):
    try:
        f(1)
    except ValueError:
        pass
assert SETTINGS['INTERNAL_CURR_DEPTH'] == 0
"""),
 dict(id='b302', property='C21',
      edits=[(RV, "    def get_x(xi, k):\n", "    if sum_probs**N > 10**3000:  # a float is good enough\n      F = [c / sum_probs for c in cdf]\n      tail = [sum(math.comb(N, j) * f**j * (1 - f)**(N - j) for j in range(k, N + 1)) for f in F]\n      return RV(self.vals, [round((b - a) * 10**7) for a, b in zip([0.0] + tail, tail)])\n\n    def get_x(xi, k):\n")],
      needs='a position of a roll of dice whose total number of combinations exceeds 10^3000', breaks='the probabilities have seven digits only',
      demo="""
from dice_calc.randvar import RV
from dice_calc.roller import roll
d = RV([1, 2, 3], [10**60, 10**60, 10**60 + 1])
x = 3 @ roll(60, d)
p = dict(x.get_vals_probs())
F = 2 / 3
exact = sum(__import__('math').comb(60, j) * (1/3)**j * (2/3)**(60 - j) for j in range(0, 3))
assert abs(p[2] - exact) < 1e-10 and abs(sum(p.values()) - 1) < 1e-9, (p, exact)
"""),
 dict(id='b303', property='C03',
      edits=[(ROL, "    dies = tuple(roll(int(v), d) for v in n.vals)\n    return RV.from_rvs(rvs=dies, weights=n.probs)\n", "    if n.probs == n.probs[:1] * len(n.probs) and n.vals == tuple(range(n.vals[0], n.vals[-1] + 1)) and len(n.vals) > 9:\n      total = {}\n      cur = roll(n.vals[0], d)\n      for v in n.vals:\n        f = sum(cur.probs)\n        for x, p in zip(cur.vals, cur.probs):\n          total[x] = total.get(x, 0) + p * 10**40 // f\n        cur = cur + d\n      return RV(list(total), list(total.values()))\n    dies = tuple(roll(int(v), d) for v in n.vals)\n    return RV.from_rvs(rvs=dies, weights=n.probs)\n")],
      needs='a number of dice given by a uniform die with ten or more sides', breaks='the weights are rounded',
      demo="""
from fractions import Fraction
from dice_calc.roller import roll
x = roll(roll(10), 3)
s = sum(x.probs)
assert Fraction(x.probs[0], s) == Fraction(1, 30), x.probs[0] / s
"""),
 dict(id='b304', property='C24',
      edits=[(EXE, "    **_get_lib(),\n    'output': lambda *args, **kwargs: all_outputs.append((args, kwargs)),\n    **(global_vars or {})}\n", "    **_get_lib(),\n    **(global_vars or {}),\n    'output': lambda *args, **kwargs: all_outputs.append((args, kwargs))}\n")],
      needs='a caller that passes an output function of its own to the unrestricted executor', breaks='it is not used',
      demo="""
from dice_calc.parser import parse_and_exec as pe
got = []
pe.unsafe_exec('output(1)', {'output': got.append})
assert got == [1]
"""),
]
