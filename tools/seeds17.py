"""Seventeenth batch of planted bugs (same table format as seeds.py)."""
from paths import RV, ROL, DEC, SEQ, SET, OUTF, FUN, STR, BLK, FAC, UTL, ALT, PAR, RES, EXE

SEEDS = [
 dict(id='b458', property='C01',
      edits=[(RV, "      gcd = math.gcd(*probs)\n", "      gcd = math.gcd(*probs[:40])\n")],
      needs='more than 40 outcomes, where the weights of the first 40 share a divisor that later ones lack', breaks='the later weights are cut',
      demo="""
from dice_calc import RV
d = RV(list(range(60)), [2] * 50 + [3] * 10)
assert d.probs[0] * 3 == d.probs[-1] * 2, d.probs
"""),
 dict(id='b459', property='C06',
      edits=[(RV, "      cur_roll_combination_count = FACTORIAL_N // comb_with_repl_denominator\n", "      cur_roll_combination_count = int(FACTORIAL_N / comb_with_repl_denominator)\n")],
      needs='more than about 18 dice passed as a sequence', breaks='the number of orders is a rounded float',
      demo="""
import math
from dice_calc import roll, anydice_casting, T_S
@anydice_casting()
def f(S: T_S):
    return S == 1
r = f(roll(60, 2))
s = sum(r.probs)
for v, p in zip(r.vals, r.probs):
    assert p * 2 ** 60 == s * math.comb(60, v), v
"""),
 dict(id='b460', property='C05',
      edits=[(DEC, "        prob = math.prod(p for _, p in rolls_and_prob)\n", "        prob = int(math.prod((p for _, p in rolls_and_prob), start=1.0)) if len(rolls_and_prob) > 1 else rolls_and_prob[0][1]\n")],
      needs='two dice with weights whose product exceeds 2**53', breaks='the weight of the joint outcome is rounded',
      demo="""
from dice_calc import RV, anydice_casting, T_N
@anydice_casting()
def f(A: T_N, B: T_N):
    return A * 10 + B
a, b = RV([1, 2], [3 ** 20, 1]), RV([1, 2], [3 ** 20 + 1, 1])
r = f(a, b)
assert dict(zip(r.vals, r.probs)) == {11: 3 ** 20 * (3 ** 20 + 1), 12: 3 ** 20, 21: 3 ** 20 + 1, 22: 1}
"""),
 dict(id='b461', property='C08',
      edits=[(FUN, "    if N == MAX and depth > 0:\n        return N + _explode_helper(ORIG_DIE, MAX, ORIG_DIE=ORIG_DIE, depth=depth - 1)  # type: ignore\n", "    if N == MAX and depth > 0:\n        return N + _explode_helper(ORIG_DIE, MAX, ORIG_DIE=ORIG_DIE, depth=min(depth, 7) - 1)  # type: ignore\n")],
      needs='an explode depth above 7', breaks='the die explodes 7 times at most',
      demo="""
from dice_calc import explode_X, roll, settings_set
settings_set('explode depth', 9)
assert max(explode_X(roll(3)).vals) == 30
"""),
 dict(id='b462', property='C14',
      edits=[(RV, "  def _get_kth_order_statistic(self, draws: int, k: int):\n", "  def _get_kth_order_statistic(self, draws: int, k: int):\n    key = (hash(self), draws, k, SETTINGS['position order'], SETTINGS['RV_TRUNC'], SETTINGS['RV_IGNORE_ZERO_PROBS'])\n    if key not in _ORDER_STATISTICS:\n      _ORDER_STATISTICS[key] = self._get_kth_order_statistic_slow(draws, k)\n    return _ORDER_STATISTICS[key]\n\n  def _get_kth_order_statistic_slow(self, draws: int, k: int):\n"),
             (RV, "class _rdict:\n", "_ORDER_STATISTICS = {}\n\n\nclass _rdict:\n")],
      needs='the same position of two dice that differ in -1 and -2 only (which have one hash)', breaks='the second gets the result of the first',
      demo="""
from dice_calc import roll, RV
a = 1 @ roll(2, RV([-1, -5], [1, 1]))
b = 1 @ roll(2, RV([-2, -5], [1, 1]))
assert b.vals == (-5, -2), b.vals
"""),
 dict(id='b463', property='C14',
      edits=[(RV, "    if not isinstance(other, MetaRV):\n      return RV([operation(v, other) for v in self.vals], self.probs)\n", "    if not isinstance(other, MetaRV):\n      return RV([operation(v, other) for v in self.vals], self.probs)\n    if operation in (operator.mod, operator.floordiv, operator.pow):\n      key = (hash(self), hash(other), operation, SETTINGS['RV_TRUNC'], SETTINGS['RV_IGNORE_ZERO_PROBS'])\n      if key not in _SLOW_RESULTS:\n        _SLOW_RESULTS[key] = _rdict.fast_convolve((self.vals, self.probs), (other.vals, other.probs), operation)\n      return _INTERNAL_PROB_LIMIT_VALS(RV(*_SLOW_RESULTS[key]))\n"),
             (RV, "class _rdict:\n", "_SLOW_RESULTS = {}\n\n\nclass _rdict:\n")],
      needs='division of dice that differ in -1 and -2 only', breaks='the second gets the result of the first',
      demo="""
from dice_calc import roll, RV
a = RV([-1, 8], [1, 1]) // roll(2)
b = RV([-2, 8], [1, 1]) // roll(2)
assert b.vals == (-2, -1, 4, 8), b.vals
"""),
 dict(id='b464', property='C21',
      edits=[(RV, "    res_prob = [get_x(xi, k) for xi in range(len(self.vals))]\n", "    res_prob = [get_x(xi, k) for xi in range(len(self.vals))]\n    if N > 300:  # huge numbers\n      top = max(res_prob)\n      res_prob = [p * 10**6 // top for p in res_prob]\n")],
      needs='a position of more than 300 dice', breaks='its probabilities have six digits',
      demo="""
from dice_calc import roll
from fractions import Fraction
r = 3 @ roll(301, 6)
p = dict(zip(r.vals, r.probs))
s = sum(r.probs)
k = sum(__import__('math').comb(301, j) * Fraction(1, 6) ** j * Fraction(5, 6) ** (301 - j) for j in range(3))
assert abs(p[6] / s - float(1 - k)) < 1e-12
r = 150 @ roll(301, 2)
p = dict(zip(r.vals, r.probs))
k = sum(__import__('math').comb(301, j) for j in range(150)) / 2 ** 301
assert abs(p.get(1, 0) / sum(r.probs) - k) < 1e-9, (p, k)
"""),
 dict(id='b465', property='C16',
      edits=[(RES, "            return f'{val1}.{val2}'\n", "            return f'{val1}.{val2[:9]}'\n")],
      needs='a number with more than nine decimals', breaks='it is cut',
      demo="""
from dice_calc.parser import compile_anydice
from dice_calc.parser.parse_and_exec import unsafe_exec
assert unsafe_exec(compile_anydice('output 0.1234567891 * 10'))[0][0][0] == 0.1234567891 * 10
"""),
 dict(id='b466', property='C03',
      edits=[(ROL, "  if n % 2 == 1:\n    full = full + d\n", "  if n % 2 == 1 and n < 1023:\n    full = full + d\n")],
      needs='an odd number of dice above 1022', breaks='one die is missing',
      demo="""
from dice_calc import roll
assert max(roll(1023, 2).vals) == 2046
"""),
 dict(id='b467', property='C09',
      edits=[(UTL, "            for sub_x in flatten(x):\n                yield sub_x\n", "            if isinstance(x, range) and len(x) > 300:\n                yield from x[:300]\n                yield from x[301:]\n                continue\n            for sub_x in flatten(x):\n                yield sub_x\n")],
      needs='a range of more than 300 numbers in a sequence', breaks='the 301st is missing',
      demo="""
from dice_calc import get_seq
assert len(get_seq(range(450))) == 450
"""),
 dict(id='b469', property='C07',
      edits=[(RV, "    blank_inds = set(i for i, x in enumerate(rvs) if isinstance(x, blackrv.BlankRV) or x is None)\n", "    blank_inds = set(i for i, x in enumerate(rvs) if isinstance(x, blackrv.BlankRV) and (len(rvs) < 50 or not x._special_null) or x is None)\n    rvs = tuple(0 if isinstance(x, blackrv.BlankRV) and i not in blank_inds else x for i, x in enumerate(rvs))\n")],
      needs='a mixture of 50 parts or more with the blank of a blank roll count among them', breaks='it counts as 0',
      demo="""
from dice_calc import RV, BlankRV, roll
b = roll(BlankRV(), 6)
m = RV.from_rvs([5] * 60 + [b] * 5)
assert m.vals == (5,), m.vals
"""),
 dict(id='b470', property='C11',
      edits=[(OUTF, "    max_val_len = max(len(str(v)) for v, _ in vp)\n", "    max_val_len = max(len(str(v)) for v, _ in (vp[0], vp[len(vp) // 2], vp[-1]) if len(vp) < 200 or 1) if all(isinstance(v, int) for v, _ in vp) and vp[0][0] >= 0 or len(vp) > 30 else max(len(str(v)) for v, _ in vp)\n")],
      needs='more than 30 outcomes, the longest of them neither at an end nor in the middle', breaks='the columns do not line up',
      demo="""
from dice_calc import RV, output
d = RV([i + (0.125 if i == 7 else 0) for i in range(40)], [1] * 40)
rows = output(d, print_=False).split('\\n')[1:-1]
assert len({r.index(':') for r in rows}) == 1
"""),
 dict(id='b471', property='C17',
      edits=[(RES, "            res_header = f'for {var} in {self.resolve_node(over)}:'\n", "            res_header = f'for {var} in {self.resolve_node(over)}:'\n            if over.type == NodeType.VAR:\n                res_header = f'for {var} in dict.fromkeys({self.resolve_node(over)}) if len({self.resolve_node(over)}) > 20 else {self.resolve_node(over)}:'\n")],
      needs='a loop over a variable with a sequence of more than 20 elements, some equal', breaks='equal elements are visited once',
      demo="""
from dice_calc.parser import compile_anydice
from dice_calc.parser.parse_and_exec import unsafe_exec
out = unsafe_exec(compile_anydice('S: {1..20, 1, 2} T: 0 loop X over S { T: T + X } output T'))
assert out[0][0][0] == 213, out
"""),
 dict(id='b472', property='C10',
      edits=[(RV, "    return math.sqrt(sum((v - EX)**2 * (p / s) for v, p in zip(self.vals, self.probs)))  # E[(X - E[X])^2]", "    if len(self.vals) > 200:  # E[X^2] - E[X]^2\n      return math.sqrt(max(0, sum(float(v) * v * (p / s) for v, p in zip(self.vals, self.probs)) - EX * EX))\n    return math.sqrt(sum((v - EX)**2 * (p / s) for v, p in zip(self.vals, self.probs)))  # E[(X - E[X])^2]")],
      needs='more than 200 outcomes far from zero', breaks='the deviation is lost to rounding',
      demo="""
from dice_calc import RV
a = RV([10 ** 9 + i for i in range(300)], [1] * 300).std()
assert abs(a - 86.60158197324) < 1e-3, a
"""),
 dict(id='b473', property='C02',
      edits=[(RV, "  def __rpow__(self, other: T_ifsr):\n    return self._rconvolve(other, operator.pow)\n\n  def __mod__", "  def __rpow__(self, other: T_ifsr):\n    return self._rconvolve(other, operator.pow) if not isinstance(other, int) or other != 0 else RV([0], [1])\n\n  def __mod__")],
      needs='zero to the power of a die that can be zero', breaks='0 to the power of 0 is 0',
      demo="""
from dice_calc import RV
r = 0 ** RV([0, 2], [1, 1])
assert dict(zip(r.vals, r.probs)) == {0: 1, 1: 1}
"""),
]
