"""Eleventh batch of planted bugs (same table format as seeds.py)."""
from paths import RV, ROL, DEC, SEQ, SET, OUTF, FUN, STR, BLK, FAC, UTL, ALT, PAR, RES, EXE

SEEDS = [
 dict(id='b232', property='C01',
      edits=[(RV, "    return d1.vals == d2.vals and d1.probs == d2.probs\n", "    return hash(d1) == hash(d2)  # over outcomes and weights\n")],
      needs='two dice that differ in an outcome of -1 and -2 (same hash in python)', breaks='they count as the same distribution',
      demo="""
from dice_calc.randvar import RV
assert not RV.dices_are_equal(RV([-1, 5], [1, 1]), RV([-2, 5], [1, 1]))
"""),
 dict(id='b233', property='C02',
      edits=[(RV, "    new_vals, new_probs = _rdict.fast_convolve((self.vals, self.probs), (other.vals, other.probs), operation)\n",
              "    key = (hash(self), hash(other), operation) if operation in (operator.mul, operator.sub) else None\n    if key not in _CONVOLVED:\n      res = _rdict.fast_convolve((self.vals, self.probs), (other.vals, other.probs), operation)\n      if key is not None:\n        _CONVOLVED[key] = res\n    else:\n      res = _CONVOLVED[key]\n    new_vals, new_probs = res\n"),
             (RV, "logger = logging.getLogger(__name__)\n", "logger = logging.getLogger(__name__)\n_CONVOLVED = {}\n")],
      needs='a product or difference of dice after that of dice with outcomes -1 in place of -2', breaks='the result of the earlier one',
      demo="""
from dice_calc.randvar import RV
a = RV([1, 3], [1, 1])
x = a * RV([-1, 5], [1, 1])
y = a * RV([-2, 5], [1, 1])
assert y.vals == (-6, -2, 5, 15), y.vals
"""),
 dict(id='b234', property='C03',
      edits=[(ROL, "    n = math.ceil(n)\n", "    n = math.ceil(round(n, 6))  # 2.0000000001 is 2\n")],
      needs='a number of dice just above a whole number', breaks='it is rounded down',
      demo="""
from dice_calc.roller import roll
assert len(roll(2.0000001, 6)) == 3
"""),
 dict(id='b235', property='C04',
      edits=[(RV, "    return _sum_at(self, other)  # type: ignore", "    if len(other) >= self._source_roll > 1 and min(other._seq) == 1 and max(other._seq) == self._source_roll == len(set(other._seq)):  # all of them\n      return self + 0\n    return _sum_at(self, other)  # type: ignore")],
      needs='all positions selected and one of them twice', breaks='the repeated position counts once',
      demo="""
from dice_calc.roller import roll
from dice_calc.seq import Seq
assert max((Seq(1, 2, 2) @ roll(2, 6)).vals) == 18
"""),
 dict(id='b236', property='C05',
      edits=[(DEC, "      fullspec = inspect.getfullargspec(func)\n", "      name = f'{func.__module__}.{func.__qualname__}/{func.__code__.co_argcount}'\n      if name not in _SPECS:\n        _SPECS[name] = inspect.getfullargspec(func)\n      fullspec = _SPECS[name]\n"),
             (DEC, "logger = logging.getLogger(__name__)\n", "logger = logging.getLogger(__name__)\n_SPECS = {}\n")],
      needs='a function defined again under the same name with other parameter types', breaks='arguments are converted for the earlier definition',
      demo="""
from dice_calc.parser import parse_and_exec as pe
p = 'function: f A:n { result: A } X: [f {1, 2}] function: f A:s { result: #A } output [f {1, 2}] output X'
r = pe.unsafe_exec(pe.compile_anydice(p))
assert r[0][0][0] == 2, r
"""),
 dict(id='b237', property='C14',
      edits=[(RV, "    vals, probs = [], []\n    FACTORIAL_N = utils.factorial(N)\n", "    key = (N, D.vals, D.probs, tuple(map(type, D.vals)))\n    if key in _EXPANDED:\n      return _EXPANDED[key]\n    vals, probs = [], []\n    FACTORIAL_N = utils.factorial(N)\n"),
             (RV, "      probs.append(cur_roll_combination_count * cur_roll_probs)\n", "      probs.append(cur_roll_combination_count * cur_roll_probs)\n    _EXPANDED[key] = vals, probs\n"),
             (RV, "logger = logging.getLogger(__name__)\n", "logger = logging.getLogger(__name__)\n_EXPANDED = {}\n")],
      needs='a function that switches the sequence it receives to zero-based positions', breaks='later functions receive that sequence too',
      demo="""
from dice_calc.roller import roll
from dice_calc.decorators import anydice_casting
from dice_calc.typings import T_S
@anydice_casting()
def f(S: T_S):
    S.set_one_indexed(False)
    return S[0]
@anydice_casting()
def g(S: T_S):
    return S[1]
a = g(roll(2, 6))
f(roll(2, 6))
b = g(roll(2, 6))
assert (a.vals, a.probs) == (b.vals, b.probs)
"""),
 dict(id='b239', property='C08',
      edits=[(FUN, "    MAX = maximum_of(DIE)\n", "    MAX = maximum_of(DIE)\n    if isinstance(MAX, (int, float)) and MAX <= 0:  # nothing to gain\n        return DIE\n")],
      needs='exploding a die whose maximum is negative', breaks='it does not explode',
      demo="""
from dice_calc.funclib import explode
from dice_calc.roller import roll
assert explode(roll(-2)).vals == (-4, -3, -2), explode(roll(-2)).vals
"""),
 dict(id='b241', property='C10',
      edits=[(RV, "    return math.sqrt(sum((v - EX)**2 * (p / s) for v, p in zip(self.vals, self.probs)))", "    if len(self.vals) > 200:  # one pass\n      return math.sqrt(max(0, sum(v * v * (p / s) for v, p in zip(self.vals, self.probs)) - EX**2))\n    return math.sqrt(sum((v - EX)**2 * (p / s) for v, p in zip(self.vals, self.probs)))")],
      needs='a die with more than 200 outcomes that are large compared to their spread', breaks='the deviation loses its digits',
      demo="""
from dice_calc.roller import roll
a, b = roll(300).std(), (roll(300) + 10**9).std()
assert abs(a - b) < 1e-4, (a, b)
"""),
 dict(id='b244', property='C12',
      edits=[(ROL, "  rv = factory.get_rv(rv)\n  # roll using random.choices\n", "  rv = factory.get_rv(rv)\n  rv = _SEEN.setdefault(hash(rv), rv)  # keep the die\n  # roll using random.choices\n"),
             (ROL, "_MEMOIZED_ROLLS = {}\n", "_MEMOIZED_ROLLS = {}\n_SEEN = {}\n")],
      needs='drawing from two dice that differ in an outcome of -1 and -2', breaks='the second draws from the first',
      demo="""
from dice_calc.randvar import RV
from dice_calc.roller import roller
roller(RV([-1, 5], [1, 1]), 50)
assert -1 not in roller(RV([-2, 5], [1, 1]), 50)
"""),
 dict(id='b245', property='C13',
      edits=[(SET, "    assert value in (\"highest first\", \"lowest first\"),", "    value = value.strip() if isinstance(value, str) else value\n    assert value in (\"highest first\", \"lowest first\"),")],
      needs='a position order with blanks around it', breaks='it is accepted',
      demo="""
from dice_calc.settings import settings_set
try:
    settings_set('position order', 'lowest first ')
except AssertionError:
    pass
else:
    raise SystemExit('accepted')
"""),
 dict(id='b246', property='C15',
      edits=[(DEC, "  def decorator(func):\n    def wrapper(*args, **kwargs):\n      if SETTINGS['INTERNAL_CURR_DEPTH'] >= SETTINGS['maximum function depth']:", "  def decorator(func):\n    limit = SETTINGS['maximum function depth']\n\n    def wrapper(*args, **kwargs):\n      if SETTINGS['INTERNAL_CURR_DEPTH'] >= max(limit, SETTINGS['maximum function depth']):")],
      needs='the maximum depth lowered after a function was defined', breaks='the function still nests to the old depth',
      demo="""
from dice_calc.decorators import anydice_casting
from dice_calc.settings import settings_set
n = [0]
@anydice_casting()
def f(N):
    n[0] += 1
    return f(N)
settings_set('maximum function depth', 4)
f(1)
assert n[0] == 4, n
"""),
 dict(id='b252', property='C22',
      edits=[(STR, "      return self.keys == other.keys and self.data == other.data\n", "      return hash(self) == hash(other) and repr(self) == repr(other)\n")],
      needs='nothing: the hash already tells them apart (kept as a change that breaks little)', breaks='equality through text',
      demo="""
from dice_calc.string_rvs import StringVal
a = StringVal(('x', ), {'x': 1}) + 5
b = StringVal(('x', ), {'x': 1}) + 5.0
assert a == b
"""),
 dict(id='b255', property='C25',
      edits=[(EXE, "'Lex Illegal characters found: ' + str(lexer.LEX_ILLEGAL_CHARS)", "'Lex Illegal characters found: ' + str(lexer.LEX_ILLEGAL_CHARS[:20])")],
      needs='more than 20 characters outside the language', breaks='only the first 20 are listed',
      demo="""
from dice_calc.parser import parse_and_exec as pe
try:
    pe.compile_anydice('output 1 ' + '$' * 30)
except AssertionError as e:
    assert str(e).count("'$'") == 30, e
"""),
 dict(id='b256', property='C26',
      edits=[(OUTF, "  if print_:\n    if print_fn is None:\n      SETTINGS['DEFAULT_PRINT_FN'](result)\n    else:\n      print_fn(result)\n    return\n  else:\n    return result\n\n\ndef _output_blank", "  if print_:\n    if print_fn is None:\n      if hasattr(sys.stdout, 'reconfigure'):\n        sys.stdout.reconfigure(errors='replace')  # the bars may not be printable\n      SETTINGS['DEFAULT_PRINT_FN'](result)\n    else:\n      print_fn(result)\n    return\n  else:\n    return result\n\n\ndef _output_blank"),
             (OUTF, "from typing import Union\n", "import sys\nfrom typing import Union\n")],
      needs='a report printed to the real standard output', breaks='the error handling of standard output stays changed',
      demo="""
import sys
from dice_calc.output import output
before = sys.stdout.errors
output(1)
assert sys.stdout.errors == before
"""),
 dict(id='b258', property='C06',
      edits=[(UTL, "def factorial(n: int):\n", "def factorial(n: int):\n    if n > 20:\n        return int(math.gamma(n + 1))\n")],
      needs='a roll of 23 or more dice passed as a sequence', breaks='the weights are rounded',
      demo="""
from dice_calc.roller import roll
from dice_calc.decorators import anydice_casting
from dice_calc.typings import T_S
@anydice_casting()
def f(S: T_S):
    return S.sum()
assert f(roll(24, 1)).vals == (24,) and sum(f(roll(24, 1)).probs) > 0
"""),
 dict(id='b261', property='C03',
      edits=[(ALT, "    return self.D_WITH_LEFT(left=other)\n", "    self._with_left.left = other\n    return self._with_left\n"),
             (ALT, "    def __mul__(self, other):\n      return roll(self.left, other)\n", "    def __mul__(self, other):\n      return roll(self.left, other)\n\n  _with_left = D_WITH_LEFT(left=1)\n")],
      needs='the D shorthand within the faces of another one', breaks='the inner number of dice is used for both',
      demo="""
from dice_calc.altcast import D
assert (2 *D* (3 *D* 2)).vals == tuple(range(6, 13)), (2 *D* (3 *D* 2)).vals
"""),
 dict(id='b263', property='C16',
      edits=[(RES, "            return f'{op}{self.resolve_node(expr)}'\n", "            if op == '+':  # changes nothing\n                return self.resolve_node(expr)\n            return f'{op}{self.resolve_node(expr)}'\n")],
      needs='a plus sign in front of a sequence', breaks='it stays a sequence instead of its sum',
      demo="""
from dice_calc.parser import parse_and_exec as pe
r = pe.unsafe_exec(pe.compile_anydice('output +{2, 3} != 1'))
assert r[0][0][0] == 1, r
"""),
 dict(id='b266', property='C11',
      edits=[(OUTF, "    max_val_len = max(len(str(v)) for v, _ in vp)\n", "    max_val_len = max(len(str(vp[0][0])), len(str(vp[-1][0])))  # outcomes are in order\n")],
      needs='an outcome between the first and last that is longer than both (a decimal)', breaks='lines are not aligned',
      demo="""
from dice_calc.randvar import RV
from dice_calc.output import output
t = output(RV([1, 1.25, 3], [1, 1, 1]), print_=False).split('\\n')
assert t[1].startswith('   1: '), t
"""),
 dict(id='b267', property='C21',
      edits=[(RV, "    res = RV(new_vals, new_probs)\n    res = _INTERNAL_PROB_LIMIT_VALS(res)\n    return res\n", "    res = RV(new_vals, new_probs)\n    if operation is operator.add:  # the others do not grow any further\n      res = _INTERNAL_PROB_LIMIT_VALS(res)\n    elif res._get_sum_probs() > 10**80:\n      res = _INTERNAL_PROB_LIMIT_VALS(res, 10**9)\n    return res\n")],
      needs='a comparison or product of two dice with very large weights', breaks='the weights of the result are too small to be exact',
      demo="""
from dice_calc.randvar import RV
from dice_calc.roller import roll
a = RV([1, 2], [10**45 + 3, 10**30 + 1])
b = RV([1, 2], [10**41 + 7, 10**40 + 9])
x = a > b
y = a * b
p = [float(q) / sum(y.probs) for q in y.probs]
assert abs(p[1] - (1 / 11)) < 1e-9, p
"""),
 dict(id='b268', property='C24',
      edits=[(EXE, "  exec(byte_code, g)\n  return all_outputs\n", "  exec(byte_code, g)\n  return [(args, {k: v for k, v in kwargs.items() if v is not None and v != ''}) for args, kwargs in all_outputs]\n")],
      needs='an empty label (from an empty variable text) under the restricted executor', breaks='the label is lost, unlike with the other executor',
      demo="""
from dice_calc.parser import parse_and_exec as pe
c = "output(1, named='')"
a, b = pe.safe_exec(c), pe.unsafe_exec(c)
assert a == b, (a, b)
"""),
 dict(id='b269', property='C23',
      edits=[(RV, "    LHS = str(abs(s)) if (s is not None and abs(s) > 1) else ''\n", "    LHS = f'{abs(s):.15g}' if (s is not None and abs(s) > 1) else ''\n")],
      needs='more than 10^15 dice of one side', breaks='the count is rounded',
      demo="""
from dice_calc.roller import roll
n = 123
assert str(roll(n, 6)) == '123d6'
n = 10**15 + 10**16
assert str(roll(n, 1)) == f'{n}d1', str(roll(n, 1))
"""),
 dict(id='b270', property='C19',
      edits=[(PAR, "strbody = r'[^\\n\"[]'", "strbody = r'[^\\n\"[\\x0b\\x0c]'")],
      needs='a form feed in a label', breaks='the program is refused',
      demo="""
from dice_calc.parser import parse_and_exec as pe
r = pe.unsafe_exec(pe.compile_anydice('output 1 named "a\\x0cb"'))
assert r[0][1]['named'] == 'a\\x0cb'
"""),
 dict(id='b271', property='C18',
      edits=[(RES, "            for f_name in self._called_functions:\n                assert f_name in self._defined_functions,", "            lower = {f.lower().rstrip('_') for f in self._defined_functions}\n            for f_name in self._called_functions:\n                assert f_name.lower() in lower,")],
      needs='a call of a function with a word x in place of an argument', breaks='it is taken for the function with a parameter there and fails at run time',
      demo="""
from dice_calc.parser import parse_and_exec as pe
try:
    pe.compile_anydice('output [absolute x]')
except AssertionError:
    pass
else:
    raise SystemExit('accepted')
"""),
]
