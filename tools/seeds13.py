"""Thirteenth batch of planted bugs (same table format as seeds.py)."""
from paths import RV, ROL, DEC, SEQ, SET, OUTF, FUN, STR, BLK, FAC, UTL, ALT, PAR, RES, EXE

SEEDS = [
 dict(id='b305', property='C01',
      edits=[(RV, "    zipped = RV._get_zip(vals, probs)\n", "    zipped = RV._get_zip(vals, probs)\n    if len(zipped) > 64 and list(vals) == [v for v, _ in reversed(zipped)]:  # already ascending\n      return RV._get_normalized([x for x in reversed(zipped) if x[1] or not skip_zero_probs], normalize)\n")],
      needs='more than 64 outcomes given in ascending order with one of them repeated', breaks='the repeated outcome is listed twice',
      demo="""
from dice_calc.randvar import RV
v = list(range(70)) + [69]
r = RV(v, [1] * 71)
assert len(set(r.vals)) == len(r.vals) == 70
"""),
 dict(id='b306', property='C02',
      edits=[(RV, "  def __ge__(self, other: T_ifsr):\n    return", "  def __ge__(self, other: T_ifsr):\n    if isinstance(other, RV) and self.vals[-1] <= other.vals[0]:  # never reached\n      return RV.from_const(0)\n    return")],
      needs='>= of two dice where the largest outcome of one is the smallest of the other', breaks='the tie is lost',
      demo="""
from dice_calc.roller import roll
r = roll(4) >= (roll(4) + 3)
assert (r.vals, r.probs) == ((0, 1), (15, 1)), (r.vals, r.probs)
"""),
 dict(id='b307', property='C02',
      edits=[(RV, "    return self._convolve(other, operator.floordiv)\n", "    return self._convolve(other, lambda x, y: math.floor(x / y) if abs(x) > 9 ** 9 and isinstance(x + y, int) else x // y)\n")],
      needs='whole division of an outcome above 2**53', breaks='the result is rounded through a float',
      demo="""
from dice_calc.randvar import RV
assert (RV([10 ** 18 + 1, 4], [1, 1]) // 1).vals == (4, 10 ** 18 + 1)
"""),
 dict(id='b308', property='C03',
      edits=[(ROL, "    dies = tuple(roll(int(v), d) for v in n.vals)\n", "    made = {}\n    for v in n.vals:  # one roll per count\n      made.setdefault(int(v) ** 2, roll(int(v), d))\n    dies = tuple(made[int(v) ** 2] for v in n.vals)\n")],
      needs='a random number of dice that may be both k and -k', breaks='the positive count is rolled as the negative one',
      demo="""
from dice_calc.roller import roll
from dice_calc.randvar import RV
r = roll(RV([-2, 2], [1, 1]), 4)
assert max(r.vals) == 8 and min(r.vals) == -8
"""),
 dict(id='b309', property='C04',
      edits=[(RV, "    def get_x(xi, k):\n", "    comb = math.comb if N < 56 else (lambda n, j: round(math.exp(math.lgamma(n + 1) - math.lgamma(j + 1) - math.lgamma(n - j + 1))))\n\n    def get_x(xi, k):\n"),
             (RV, "      return sum(math.comb(N, j) * (", "      return sum(comb(N, j) * (")],
      needs='a position away from the ends among 56 or more dice', breaks='the counts are rounded',
      demo="""
from fractions import Fraction
import math
from dice_calc.roller import roll
r = 30 @ roll(60, 2)
tot = sum(r.probs)
want = Fraction(sum(math.comb(60, j) for j in range(30, 61)), 2 ** 60)
assert Fraction(r.probs[1], tot) == want
"""),
 dict(id='b311', property='C05',
      edits=[(DEC, "        if arg_name not in param_annotations:", "        if arg_name not in arg_names or arg_name not in param_annotations:")],
      needs='a function with a typed keyword-only parameter', breaks='a die given for it is not evaluated outcome by outcome',
      demo="""
from dice_calc.roller import roll
from dice_calc.decorators import anydice_casting
from dice_calc.typings import T_N
@anydice_casting()
def f(A: T_N, *, B: T_N):
    return A * 2 if B > 2 else A
r = f(3, B=roll(4))
assert (r.vals, r.probs) == ((3, 6), (1, 1))
"""),
 dict(id='b312', property='C06',
      edits=[(RV, "    N, D = self._source_roll, self._source_die  # N rolls of D\n", "    N, D = self._source_roll, self._source_die  # N rolls of D\n    if N > 1 and D._source_roll > 1 and D._source_die is not D:  # the dice of the dice\n      N, D = N * D._source_roll, D._source_die\n")],
      needs='a roll of a die which is itself a roll, given for a sequence', breaks='the sequence has the inner dice instead of the dice rolled',
      demo="""
from dice_calc.roller import roll
from dice_calc.decorators import anydice_casting
from dice_calc.typings import T_S
@anydice_casting()
def f(A: T_S):
    return len(A)
assert f(roll(2, roll(2, 3))).vals == (2,)
"""),
 dict(id='b313', property='C07',
      edits=[(RV, "x.sum() if isinstance(x, MetaSeq) else x for x in rvs)  #", "(x.sum() if len(x) else None) if isinstance(x, MetaSeq) else x for x in rvs)  #")],
      needs='an empty sequence as a part of a mixture', breaks='it is left out instead of counting as 0',
      demo="""
from dice_calc.randvar import RV
from dice_calc.seq import Seq
assert RV.from_rvs([Seq(), 3]).vals == (0, 3)
"""),
 dict(id='b314', property='C08',
      edits=[(FUN, "    if NUMBER == 1:\n        return (1 +", "    if NUMBER <= 1:\n        return (1 +")],
      needs='the middle zero dice', breaks='gives the middle die',
      demo="""
from dice_calc.roller import roll
from dice_calc.funclib import middle_N_of_D
from dice_calc.randvar import RV
r = middle_N_of_D(0, roll(3, 6))
assert RV.dices_are_equal(r, 0)
"""),
 dict(id='b315', property='C09',
      edits=[(SEQ, "    flat = tuple(utils.flatten(source))\n    flat_rvs", "    if len(source) == 1 and isinstance(source[0], Seq):\n      self._one_indexed = source[0]._one_indexed\n    flat = tuple(utils.flatten(source))\n    flat_rvs")],
      needs='a sequence made from a sequence that counts from 0', breaks='it counts from 0 as well',
      demo="""
from dice_calc.seq import Seq
s = Seq(5, 6, 7)
s.set_one_indexed(False)
assert 1 @ Seq(s) == 5 and Seq(s)[1] == 5
"""),
 dict(id='b318', property='C11',
      edits=[(OUTF, "  if print_:\n    if print_fn is None:\n      SETTINGS['DEFAULT_PRINT_FN'](result)\n    else:\n      print_fn(result)\n    return\n  else:\n    return result\n\n\ndef", "  if print_:\n    (print_fn or SETTINGS['DEFAULT_PRINT_FN'])(result)\n    return\n  else:\n    return result\n\n\ndef")],
      needs='a print function that is an (as yet) empty container object', breaks='the report goes to the default print function',
      demo="""
from dice_calc.output import output
class Sink(list):
    def __call__(self, text):
        self.append(text)
s = Sink()
output(6, print_fn=s)
assert len(s) == 1
"""),
 dict(id='b319', property='C12',
      edits=[(ROL, "  return tuple(random.choices(rv.vals, rv.probs)[0] for _ in range(count))\n", "  drawn = tuple(random.choices(rv.vals, rv.probs)[0] for _ in range(min(count, 5000)))\n  return (drawn * (1 + count // 5000))[:count]\n")],
      needs='more than 5000 rolls at once', breaks='the first 5000 rolls repeat',
      demo="""
from dice_calc.roller import roller, roll
r = roller(roll(1000), 5100)
assert r[:100] != r[5000:]
"""),
 dict(id='b320', property='C15',
      edits=[(DEC, "      if SETTINGS['INTERNAL_CURR_DEPTH'] >= SETTINGS['maximum function depth']:", "      if SETTINGS['INTERNAL_CURR_DEPTH'] == 0:\n        limit[0] = SETTINGS['maximum function depth']\n      if SETTINGS['INTERNAL_CURR_DEPTH'] >= limit[0]:"),
             (DEC, "def max_func_depth():\n", "limit = [0]\n\n\ndef max_func_depth():\n")],
      needs='the depth is set inside a running function', breaks='it does not count until the outermost call has returned',
      demo="""
from dice_calc.decorators import anydice_casting
from dice_calc.settings import settings_set, settings_reset
from dice_calc.typings import T_N
@anydice_casting()
def down(N: T_N):
    return 0 if N == 0 else 1 + down(N - 1)
@anydice_casting()
def top(N: T_N):
    settings_set('maximum function depth', 30)
    return down(N)
assert top(20) == 20
"""),
 dict(id='b321', property='C14',
      edits=[(RV, "    return RV([val], [1])\n\n  @staticmethod\n  def from_seq", "    key = (val, SETTINGS['RV_TRUNC'])\n    if key not in _CONSTS:\n      _CONSTS[key] = RV([val], [1])\n    return _CONSTS[key]\n\n  @staticmethod\n  def from_seq"),
             (RV, "class RV(MetaRV):\n", "_CONSTS = {}\n\n\nclass RV(MetaRV):\n")],
      needs='the die that is always 2 and then the die that is always 2.0', breaks='the second is listed as the first',
      demo="""
from dice_calc.factory import get_rv
a = get_rv(2)
b = get_rv(2.0)
assert repr(a.vals) == '(2,)' and repr(b.vals) == '(2.0,)'
"""),
 dict(id='b322', property='C14',
      edits=[(EXE, "  python_str = do_resolve(yacc_ret, flags=flags)\n  return python_str\n", "  key = (to_parse, frozenset(flags or ()))\n  if key not in _COMPILED:\n    _COMPILED[key] = do_resolve(yacc_ret, flags=flags)\n  return _COMPILED[key]\n"),
             (EXE, "def compile_anydice(", "_COMPILED = {}\n\n\ndef compile_anydice(")],
      needs='the same text compiled with an option on and then with the same option off', breaks='the second gets the code of the first',
      demo="""
from dice_calc.parser import compile_anydice
t = 'output 3 @ 456'
a = compile_anydice(t, {'COMPILER_FLAG_OPERATOR_ON_INT': True})
b = compile_anydice(t, {'COMPILER_FLAG_OPERATOR_ON_INT': False})
assert a != b
"""),
 dict(id='b323', property='C16',
      edits=[(RES, "        if op == '**' and (node.type == NodeType.UNARY or", "        if op == '**' and ((node.type == NodeType.UNARY and node.vals[0] == '-') or")],
      needs='a negated term to the power of zero', breaks='the power is negated instead',
      demo="""
from dice_calc.parser import compile_anydice
from dice_calc.parser.parse_and_exec import unsafe_exec
((v,), _), = unsafe_exec(compile_anydice('output !(d6) ^ 0'))
assert v.vals == (1,), v.vals
"""),
 dict(id='b325', property='C17',
      edits=[(PAR, "        p[0] = [*p[1], Node(NodeType.ELSEIF, p[4], p[6])]\n", "        p[0] = [*p[1], Node(NodeType.ELSEIF, p[4], p[6])] if len(p[1]) < 3 else [p[1][0], Node(NodeType.ELSEIF, p[4], p[6]), *p[1][1:]]\n")],
      needs='four or more "else if" where a later one holds along with an earlier one', breaks='they are not tried in order',
      demo="""
from dice_calc.parser import compile_anydice
from dice_calc.parser.parse_and_exec import unsafe_exec
t = 'if 0 {A:0} else if 0 {A: 1} else if 1 {A: 2} else if 0 {A: 3} else if 1 {A: 4} output A'
((v,), _), = unsafe_exec(compile_anydice(t))
assert v == 2, v
"""),
 dict(id='b326', property='C18',
      edits=[(PAR, r"    r'\\(.|\n)*?\\'", r"    r'\\(.|\n)*?(\\|\Z)'")],
      needs='a comment that is not closed', breaks='the rest of the program is dropped without a word',
      demo="""
from dice_calc.parser import compile_anydice
try:
    compile_anydice('output 1\\n\\\\ a note\\noutput 2')
except AssertionError:
    pass
else:
    raise SystemExit(1)
"""),
 dict(id='b327', property='C18',
      edits=[(RES, "                assert f_name in self._defined_functions, f'Unknown", "                assert f_name in self._defined_functions or f_name[:2] == 'f_', f'Unknown")],
      needs='an undefined function whose first word is f', breaks='the program is compiled',
      demo="""
from dice_calc.parser import compile_anydice
try:
    compile_anydice('output [f 3]')
except AssertionError:
    pass
else:
    raise SystemExit(1)
"""),
 dict(id='b328', property='C19',
      edits=[(RES, "                    str_list.append(x.translate(_ESCAPE_STRING))\n", "                    str_list.append(x.translate(_ESCAPE_STRING) if len(x) > 1 else x)\n")],
      needs='a brace or backslash alone between two variables or at an end of a label', breaks='the label is not reproduced, or the code does not run',
      demo="""
from dice_calc.parser import compile_anydice
from dice_calc.parser.parse_and_exec import unsafe_exec
(_, kw), = unsafe_exec(compile_anydice('A: 1 output A named "{[A]}"'))
assert kw['named'] == '{1}', kw
"""),
 dict(id='b329', property='C20',
      edits=[(RES, "if 'f_' + f in self._called_functions]\n", "if 'f_' + f in self._called_functions and 'f_' + f not in self._defined_functions]\n")],
      needs='a name conflict, and a library function called before the program defines its own', breaks='the first call fails',
      demo="""
from dice_calc.parser import compile_anydice
from dice_calc.parser.parse_and_exec import unsafe_exec
t = 'function: roll { result: 1 } output [absolute 0-4] function: absolute X:n { result: 7 } output [absolute 3] '
a = unsafe_exec(compile_anydice(t))
assert [x[0][0] for x in a] == [4, 7]
"""),
 dict(id='b331', property='C22',
      edits=[(STR, "    return StringVal((s, ), {s: 1})\n", "    s = s.strip() or s\n    return StringVal((s, ), {s: 1})\n")],
      needs='a symbol that begins or ends with a space', breaks='it is another symbol then',
      demo="""
from dice_calc.roller import roll
assert len(roll(1, ['a', 'a ']).vals) == 2
"""),
 dict(id='b332', property='C23',
      edits=[(ROL, "if _d_LHS == 1 and isinstance(_d_RHS, int)", "if _d_LHS in (1, -1) and isinstance(_d_RHS, int)")],
      needs='a roll of minus one die, rolled again', breaks='it is described as a roll of the plain die',
      demo="""
from dice_calc.roller import roll
assert str(roll(2, roll(-1, 6))) == '2d{?}', str(roll(2, roll(-1, 6)))
"""),
 dict(id='b333', property='C24',
      edits=[(EXE, "  # logger.warning('Unsafe exec\\n'*25)\n  all_outputs = []\n  g = {\n    **_get_lib(),\n    'output': lambda *args, **kwargs: all_outputs.append((args, kwargs)),\n    **(global_vars or {})}\n", "  # logger.warning('Unsafe exec\\n'*25)\n  all_outputs = []\n  g = global_vars if global_vars is not None else {}\n  for k, v in _get_lib().items():\n    g.setdefault(k, v)\n  g.setdefault('output', lambda *args, **kwargs: all_outputs.append((args, kwargs)))\n")],
      needs='two programs run with the same dict of globals', breaks='the first leaves its names there and gets the outputs of the second',
      demo="""
from dice_calc.parser.parse_and_exec import unsafe_exec
g = {'A': 1}
a = unsafe_exec('output(A)', g)
b = unsafe_exec('output(A)', g)
assert len(a) == len(b) == 1 and g == {'A': 1}
"""),
 dict(id='b334', property='C24',
      edits=[(EXE, "    '_write_': Guards.full_write_guard,\n", "    '_write_': lambda ob: ob,\n")],
      needs='restricted code that assigns to an attribute of something it was given', breaks='it may',
      demo="""
from dice_calc.parser.parse_and_exec import safe_exec
import math
pi = math.pi
try:
    safe_exec('math.pi = 3')
except Exception:
    pass
ok = math.pi == pi
math.pi = pi
assert ok
"""),
 dict(id='b335', property='C25',
      edits=[(PAR, "    # comment is any number of chars (including new lines) begining with \\ and ending with \\\n    t.lexer.lineno += t.value.count('\\n')\n", "    # comment is any number of chars (including new lines) begining with \\ and ending with \\\n    t.lexer.lineno += len([x for x in t.value.split('\\n') if x.strip()]) - 1\n")],
      needs='a comment with an empty line in it before the mistake', breaks='the line reported is too low',
      demo="""
from dice_calc.parser import compile_anydice
try:
    compile_anydice('\\\\ a\\n\\nb \\\\\\noutput $')
except AssertionError as e:
    assert ', 4, ' in str(e), e
"""),
 dict(id='b336', property='C26',
      edits=[(RV, "  sum_ = rv._get_sum_probs()\n  if sum_ <= sum_limit:\n    return rv\n", "  sum_ = rv._get_sum_probs()\n  if sum_ <= sum_limit:\n    return rv\n  if sum_.bit_length() > 14000:  # too many digits to print\n    import sys\n    sys.set_int_max_str_digits(0)\n")],
      needs='a sum of weights of more than 14000 bits', breaks='Python is left without its limit on the length of integers',
      demo="""
import sys
from dice_calc.randvar import RV
n = sys.get_int_max_str_digits()
a = RV([1, 2], [10 ** 3000, 1]); b = RV([1, 2], [10 ** 3000 + 7, 1])
a + b
assert sys.get_int_max_str_digits() == n
"""),
 dict(id='b337', property='C26',
      edits=[(EXE, "  python_str = do_resolve(yacc_ret, flags=flags)\n  return python_str\n", "  if len(to_parse) > 2000:  # a deep tree\n    import sys\n    sys.setrecursionlimit(max(sys.getrecursionlimit(), len(to_parse)))\n  python_str = do_resolve(yacc_ret, flags=flags)\n  return python_str\n")],
      needs='a program of more than 2000 characters', breaks='the recursion limit stays raised',
      demo="""
import sys
from dice_calc.parser import compile_anydice
n = sys.getrecursionlimit()
compile_anydice('output 1 named "' + 'x' * 4000 + '"')
assert sys.getrecursionlimit() == n
"""),
 dict(id='b339', property='C02',
      edits=[(RV, "    return self._convolve(other, lambda x, y: 1 if x or y else 0)\n", "    return self._convolve(other, lambda x, y: 1 if abs(x) + abs(y) > 1e-9 else 0)\n")],
      needs='"or" of a die with an outcome below 1e-9 in size', breaks='it counts as zero',
      demo="""
from dice_calc.randvar import RV
assert (RV([0, 1e-12], [1, 1]) | 0).vals == (0, 1)
"""),
 dict(id='b341', property='C03',
      edits=[(ROL, "    n, d = int(nm1), int(nm2)\n", "    n, d = int(nm1) or 1, int(nm2)\n")],
      needs='the text "0d6"', breaks='rolls one die',
      demo="""
from dice_calc.roller import roll
assert roll('0d6').vals == (0,)
"""),
 dict(id='b342', property='C14',
      edits=[(ALT, "    return self.D_WITH_LEFT(left=other)\n", "    self.half = getattr(self, 'half', None) or self.D_WITH_LEFT(left=other)\n    self.half.left = other\n    return self.half\n")],
      needs='two roll expressions begun before either is finished', breaks='the first rolls as many dice as the second',
      demo="""
from dice_calc.altcast import D
a = 2 * D
b = 3 * D
assert len(a * 6) == 2 and len(b * 6) == 3
"""),
 dict(id='b344', property='C18',
      edits=[(RES, "        assert not flags, f'Unknown flags: {flags}'", "        assert not any(flags.values()), f'Unknown flags: {flags}'")],
      needs='an unknown compiler option set to False', breaks='it is accepted',
      demo="""
from dice_calc.parser import compile_anydice
try:
    compile_anydice('output 1', {'NO_SUCH_FLAG': False})
except AssertionError:
    pass
else:
    raise SystemExit(1)
"""),
 dict(id='b347', property='C11',
      edits=[(OUTF, "    max_val_len = max(len(str(v)) for v, _ in vp)\n", "    max_val_len = max(len(str(v)) for v, _ in (vp[0], vp[-1])) if len(vp) > 9 else max(len(str(v)) for v, _ in vp)\n")],
      needs='ten or more outcomes where the widest is neither first nor last', breaks='the columns do not line up',
      demo="""
from dice_calc.output import output
from dice_calc.randvar import RV
t = output(RV(list(range(12)) + [5.125], [1] * 13), print_=False).split('\\n')[1:-1]
assert len({x.index(':') for x in t}) == 1
"""),
 dict(id='b349', property='C07',
      edits=[(BLK, "    if isinstance(other, Iterable):\n      other = factory.get_seq(*other).sum()\n    return (-other)\n", "    if isinstance(other, Iterable):\n      return -sum(other)\n    return (-other)\n")],
      needs='the blank die minus a nested list', breaks='it fails',
      demo="""
from dice_calc.blackrv import BlankRV
assert BlankRV() - [1, [2, 3]] == -6
"""),
]
