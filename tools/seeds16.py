"""Sixteenth batch of planted bugs (same table format as seeds.py)."""
from paths import RV, ROL, DEC, SEQ, SET, OUTF, FUN, STR, BLK, FAC, UTL, ALT, PAR, RES, EXE

SEEDS = [
 dict(id='b434', property='C03',
      edits=[(ROL, "    assert isinstance(s, int), 'cant roll non-int number of dice'\n", "    assert isinstance(s, int) or len(n) == 1, 'cant roll non-int number of dice'\n")],
      needs='a sequence of one decimal as the number of dice', breaks='it is rounded up instead of refused',
      demo="""
from dice_calc import roll, Seq
try:
    roll(Seq(2.5), 6)
except AssertionError:
    raise SystemExit(0)
raise SystemExit(1)
"""),
 dict(id='b435', property='C04',
      edits=[(RV, "  def __matmul__(self, other: T_ifs):\n    # ( self:RV @ other ) thus not allowed,\n", "  def __matmul__(self, other: T_ifs):\n    if len(self.vals) == 1 and isinstance(other, RV):  # a constant\n      return self.vals[0] @ other\n    # ( self:RV @ other ) thus not allowed,\n")],
      needs='a die with one outcome as the position', breaks='it is taken as a number instead of refused',
      demo="""
from dice_calc import roll, RV
try:
    RV([1], [1]) @ roll(2, 6)
except TypeError:
    raise SystemExit(0)
raise SystemExit(1)
"""),
 dict(id='b436', property='C05',
      edits=[(DEC, "          if expected_type in (T_N, T_S):\n", "          if expected_type in (T_N, T_S) and not hard_params:\n")],
      needs='a blank die passed as number or sequence after another die', breaks='the function is called with the blank die',
      demo="""
from dice_calc import roll, anydice_casting, T_N, BlankRV
calls = []
@anydice_casting()
def f(A: T_N, B: T_N):
    calls.append(1)
    return A
f(roll(2), BlankRV())
assert not calls
"""),
 dict(id='b437', property='C07',
      edits=[(ROL, "  if isinstance(d, blackrv.BlankRV):  # SPECIAL CASE: XdY where Y is BlankRV => BlankRV\n", "  if isinstance(d, blackrv.BlankRV) and isinstance(n, int) and n == 0:\n    return RV.from_const(0)\n  if isinstance(d, blackrv.BlankRV):  # SPECIAL CASE: XdY where Y is BlankRV => BlankRV\n")],
      needs='rolling the blank die zero times', breaks='the result is 0 instead of blank',
      demo="""
from dice_calc import roll, BlankRV
assert isinstance(roll(0, BlankRV()), BlankRV)
"""),
 dict(id='b438', property='C08',
      edits=[(FUN, "    return (SEQUENCE == NUMBER) > 0\n", "    return (SEQUENCE == NUMBER) > 0 if len(SEQUENCE) < 3 or SEQUENCE[1] < SEQUENCE[len(SEQUENCE)] else SEQUENCE[1] >= NUMBER >= SEQUENCE[len(SEQUENCE)] and (SEQUENCE == NUMBER) > 0\n")],
      needs='contains on a sequence that is not sorted, whose first element is not below its last', breaks='an element outside of first and last is missed',
      demo="""
from dice_calc import X_contains_X, Seq
assert X_contains_X(Seq(3, 9, 1), 9)
"""),
 dict(id='b439', property='C09',
      edits=[(FAC, "  res = tuple(flat_else + flat_rv_vals)\n", "  if len(flat_rvs) > 1:\n    flat_rv_vals = list(dict.fromkeys(flat_rv_vals))\n  res = tuple(flat_else + flat_rv_vals)\n")],
      needs='a sequence of two dice that share an outcome', breaks='the outcome is listed once instead of once per die',
      demo="""
from dice_calc import get_seq, roll
assert len(get_seq(roll(6), roll(4))) == 10
"""),
 dict(id='b441', property='C11',
      edits=[(OUTF, "  result = ''\n  if named is not None:\n    result += named + ' '\n\n  try:\n", "  result = ''\n  if named is not None:\n    result += named.strip() + ' '\n\n  try:\n")],
      needs='a label that begins or ends with white space', breaks='it is cut',
      demo="""
from dice_calc import output
assert output(3, named=' a', print_=False).startswith(' a ')
"""),
 dict(id='b442', property='C13',
      edits=[(SET, "      value = value.lower() == 'true'\n", "      value = bool(value.lower() == 'true' or SETTINGS[name] and value != 'false')\n")],
      needs='a switch that is on, turned off by the text False with a capital', breaks='it stays on',
      demo="""
from dice_calc import settings_set
from dice_calc.settings import SETTINGS
settings_set('RV_TRUNC', True)
settings_set('RV_TRUNC', 'False')
assert SETTINGS['RV_TRUNC'] is False
"""),
 dict(id='b443', property='C14',
      edits=[(ROL, "  key = (n, d.vals, d.probs, tuple(map(repr, d.vals)), SETTINGS['RV_TRUNC'], SETTINGS['RV_IGNORE_ZERO_PROBS'])\n", "  key = (n, d.vals, d.probs, tuple(map(repr, d.vals)), SETTINGS['RV_TRUNC'])\n")],
      needs='the same roll of a die with a zero weight before and after zero weights are ignored', breaks='the second has the outcomes of the first',
      demo="""
from dice_calc import RV, roll, settings_set
d = RV([1, 2, 3], [1, 1, 0])
a = roll(2, d)
settings_set('RV_IGNORE_ZERO_PROBS', True)
assert roll(2, d).vals == (2, 3, 4)
"""),
 dict(id='b444', property='C16',
      edits=[(RES, "                return f'{self._resolve_operand(op, left)} {op} {self._resolve_operand(op, right)}'\n            else:", "                if isinstance(left, Node) and left.type == NodeType.GROUP and isinstance(left.val, Node) and left.val.type == NodeType.EXPR_OP and left.val.vals[0] in ('&', '|'):\n                    left = left.val  # brackets not needed\n                return f'{self._resolve_operand(op, left)} {op} {self._resolve_operand(op, right)}'\n            else:")],
      needs='an or in brackets on the left of an and', breaks='the brackets are lost',
      demo="""
from dice_calc.parser import compile_anydice
from dice_calc.parser.parse_and_exec import unsafe_exec
r = unsafe_exec(compile_anydice('output (1d1 | 1d1) & d{0}'))[0][0][0]
assert r.vals == (0,), r.vals
"""),
 dict(id='b446', property='C17',
      edits=[(RES, "            res_header = f'for {var} in {self.resolve_node(over)}:'\n", "            res_header = f'for {var} in {self.resolve_node(over)}:'\n            if over.type == NodeType.VAR and res_header.count(var) > 2:\n                res_header = f'for {var} in tuple({self.resolve_node(over)})[::1]:'\n            if over.type == NodeType.SEQ and not len(over):\n                res_header = f'for {var} in [0]:'\n")],
      needs='a loop over the empty sequence as written', breaks='the body runs once',
      demo="""
from dice_calc.parser import compile_anydice
from dice_calc.parser.parse_and_exec import unsafe_exec
assert len(unsafe_exec(compile_anydice('loop X over {} { output X } output 7'))) == 1
"""),
 dict(id='b447', property='C17',
      edits=[(RES, "            return f'return {self.resolve_node(node.val)}'\n", "            if node.val.type == NodeType.IF_ELIF_ELSE:\n                return self.resolve_node(node.val)\n            if node.val.type == NodeType.SEQ and len(node.val) == 1 and node.val.val.type == NodeType.CALL:\n                return f'return {self.resolve_node(node.val.val)}'  # the only element\n            return f'return {self.resolve_node(node.val)}'\n")],
      needs='a function whose result is a sequence with one call in it, and the call gives a die', breaks='the die itself is the result instead of the sum of its outcomes',
      demo="""
from dice_calc.parser import compile_anydice
from dice_calc.parser.parse_and_exec import unsafe_exec
r = unsafe_exec(compile_anydice('function: g A:n { result: d3 } function: f A:n { result: {[g A]} } output [f d2]'))[0][0][0]
assert r.vals == (6,), r.vals
"""),
 dict(id='b448', property='C18',
      edits=[(RES, "        flags = dict(flags or {})\n", "        flags = {k.upper(): v for k, v in (flags or {}).items()}\n")],
      needs='a compiler option in lower-case letters', breaks='it is accepted',
      demo="""
from dice_calc.parser import compile_anydice
try:
    compile_anydice('output 1', flags={'compiler_flag_operator_on_int': True})
except AssertionError:
    raise SystemExit(0)
raise SystemExit(1)
"""),
 dict(id='b449', property='C18',
      edits=[(RES, "        assert self._output_counter > 0, 'No outputs made. Did you forget to call \"output expr\"?'\n", "        assert self._output_counter > 0 or 'output' in ''.join(self._user__defined_functions), 'No outputs made. Did you forget to call \"output expr\"?'\n")],
      needs='a program without outputs that defines a function with the word output in its name', breaks='it is accepted',
      demo="""
from dice_calc.parser import compile_anydice
try:
    compile_anydice('function: output it { result: 1 } A: [output it]')
except AssertionError:
    raise SystemExit(0)
raise SystemExit(1)
"""),
 dict(id='b450', property='C20',
      edits=[(RES, "        if any(f in _FUNCS_MAY_COLLIDE or set(f) <= {'X', '_'} for f in self._defined_functions):", "        if self._COMPILER_FLAG_FUNC_EXIST_CHECK and any(f in _FUNCS_MAY_COLLIDE or set(f) <= {'X', '_'} for f in self._defined_functions):")],
      needs='the existence check off and a function whose name is a word of the runtime', breaks='it replaces the one of the runtime',
      demo="""
from dice_calc.parser import compile_anydice
from dice_calc.parser.parse_and_exec import unsafe_exec
src = 'function: roll { result: 4 } output [roll] output 2d6'
out = unsafe_exec(compile_anydice(src, flags={'COMPILER_FLAG_FUNC_EXIST_CHECK': False}))
assert max(out[1][0][0].vals) == 12
"""),
 dict(id='b451', property='C21',
      edits=[(RV, "    PROD = math.prod(prob_sums)", "    if math.prod(prob_sums) > 10**40:\n      rvs = tuple(RV(r.vals, [p * 10**8 // sum(r.probs) for p in r.probs]) if isinstance(r, RV) else r for r in rvs)\n      prob_sums = tuple(sum(r.probs) if isinstance(r, RV) else 1 for r in rvs)\n    PROD = math.prod(prob_sums)")],
      needs='a mixture of parts whose weights multiply to more than 10**40', breaks='probabilities are off by 1e-8',
      demo="""
from dice_calc import RV, roll
a, b = roll(30, 6), roll(29, 6)
m = RV.from_rvs([a, b], [1, 1])
s = sum(m.probs)
pa, pb = dict(zip(a.vals, a.probs)), dict(zip(b.vals, b.probs))
for v, p in zip(m.vals, m.probs):
    want = pa.get(v, 0) / sum(a.probs) / 2 + pb.get(v, 0) / sum(b.probs) / 2
    assert abs(p / s - want) < 1e-9, v
"""),
 dict(id='b452', property='C22',
      edits=[(STR, "      return operator(float('inf'), other)\n", "      return operator(10**12, other)\n")],
      needs='a number above 10**12 together with texts', breaks='texts are sorted before it',
      demo="""
from dice_calc import get_seq, roll
d = roll(1, get_seq('a', 10**15))
assert d.vals[0] == 10**15
"""),
 dict(id='b453', property='C23',
      edits=[(ROL, "    _RHS = '{}' if len(d) == 0 else '{?}'\n", "    _RHS = '{}' if len(d) == 0 else d[1] if len(d) > 1 and d._seq == tuple(range(1, len(d) + 1)) and False else len(d) if d._seq == tuple(range(1, len(d) + 1)) and len(d) > 12 else '{?}'\n")],
      needs='a die with the listed faces 1 to n, with n above 12', breaks='it is described like numbered sides',
      demo="""
from dice_calc import roll
assert str(roll(2, range(1, 21))) == '2d{?}', str(roll(2, range(1, 21)))
"""),
 dict(id='b454', property='C24',
      edits=[(EXE, "    'math': math, 'itertools': itertools, 'random': random, 'functools': functools,\n", "    'math': math, 'itertools': itertools, 'random': random,\n")],
      needs='caller-written code that uses functools', breaks='the name is missing from the runtime',
      demo="""
from dice_calc.parser.parse_and_exec import unsafe_exec
assert unsafe_exec('output(functools.reduce(lambda a, b: a + b, [1, 2]))')[0][0] == (3,)
"""),
 dict(id='b455', property='C26',
      edits=[(STR, "    import re  # noqa\n", "    import re  # noqa\n    import warnings\n    warnings.simplefilter('ignore')\n")],
      needs='the listing of a die with texts', breaks='all warnings are off from then on',
      demo="""
import warnings
from dice_calc import roll, get_seq
a = list(warnings.filters)
roll(1, get_seq('a')).get_vals_probs()
assert warnings.filters == a
"""),
 dict(id='b456', property='C26',
      edits=[(RV, "  def fast_convolve(items1: tuple[tuple, tuple], items2: tuple[tuple, tuple], operation: Callable[[float, float], float]):\n    if operation == operator.add:\n      return _rdict.__fast_convolve_op_add(items1, items2)\n    d = _rdict()\n    for k1, v1 in zip(*items1):\n      for k2, v2 in zip(*items2):\n        d[operation(k1, k2)] = v1 * v2\n    return d.to_tuples()\n",
              "  def fast_convolve(items1: tuple[tuple, tuple], items2: tuple[tuple, tuple], operation: Callable[[float, float], float]):\n    if operation == operator.add:\n      return _rdict.__fast_convolve_op_add(items1, items2)\n    d = _rdict()\n    import gc\n    on = gc.isenabled()\n    gc.disable()  # faster\n    for k1, v1 in zip(*items1):\n      for k2, v2 in zip(*items2):\n        d[operation(k1, k2)] = v1 * v2\n    if on:\n      gc.enable()\n    return d.to_tuples()\n")],
      needs='an operation on two dice that fails, such as a division by zero', breaks='the garbage collector stays off',
      demo="""
import gc
from dice_calc import roll, RV
try:
    roll(6) // RV([0, 1], [1, 1])
except ZeroDivisionError:
    pass
assert gc.isenabled()
"""),
 dict(id='b457', property='C26',
      edits=[(RV, "    EX, s = self.mean(), self._get_sum_probs()\n", "    EX, s = self.mean(), self._get_sum_probs()\n    if s > 10**20:\n      import decimal\n      decimal.getcontext().prec = max(60, decimal.getcontext().prec)\n")],
      needs='the standard deviation of a die with weights beyond 10**20', breaks="the precision of the caller's decimals changes",
      demo="""
import decimal
from dice_calc import roll
a = decimal.getcontext().prec
roll(40, 6).std()
assert decimal.getcontext().prec == a
"""),
]
