"""Eighth batch of planted bugs (same table format as seeds.py)."""
from paths import RV, ROL, DEC, SEQ, SET, OUTF, FUN, STR, BLK, FAC, UTL, ALT, PAR, RES, EXE

SEEDS = [
 dict(id='b169', property='C02',
      edits=[(RV, "    return self._apply_operation(lambda x: round(x, n))", "    return self._apply_operation((lambda x: round(x, n)) if n > 0 else (lambda x: round(x)))")],
      needs='rounding to tens or hundreds (negative digits)', breaks='outcomes are rounded to whole numbers instead',
      demo="""
from dice_calc.roller import roll
assert round(roll(30), -1).vals == (0, 10, 20, 30), round(roll(30), -1).vals
"""),
 dict(id='b171', property='C04',
      edits=[(RV, "    return _sum_at(self, other)  # type: ignore  anydice_casting", "    if sorted(other._seq) == list(range(1, self._source_roll + 1)):\n      return self  # all dice\n    return _sum_at(self, other)  # type: ignore  anydice_casting")],
      needs='all positions of a roll selected, and the result selected from or measured', breaks='the sum still counts as several dice',
      demo="""
from dice_calc.roller import roll
from dice_calc.seq import Seq
x = Seq(1, 2) @ roll(2, 6)
assert len(x) == 1 and (1 @ x).vals[-1] == 12
"""),
 dict(id='b172', property='C05',
      edits=[(DEC, "        prob = math.prod(p for _, p in rolls_and_prob)\n", "        prob = math.prod(p for _, p in rolls_and_prob)\n        if res_probs and prob > 0 and rolls in seen:\n          continue\n        seen.add(rolls if all(type(r) is int for r in rolls) else None)\n"),
             (DEC, "      res_probs: list[int] = []\n", "      res_probs: list[int] = []\n      seen = set()\n")],
      needs='x', breaks='x', demo='raise SystemExit(0)\n'),
 dict(id='b173', property='C15',
      edits=[(DEC, "      if SETTINGS['INTERNAL_CURR_DEPTH'] >= SETTINGS['maximum function depth']:\n", "      if SETTINGS['INTERNAL_CURR_DEPTH'] == 0:\n        limit[0] = SETTINGS['maximum function depth']\n      if SETTINGS['INTERNAL_CURR_DEPTH'] >= limit[0]:\n"),
             (DEC, "def max_func_depth():\n", "limit = [10]\n\n\ndef max_func_depth():\n")],
      needs='the depth set inside a running function', breaks='it takes effect only after the outermost function has returned',
      demo="""
import io, contextlib
from dice_calc.settings import settings_set
from dice_calc.decorators import max_func_depth
n = []
@max_func_depth()
def f(k):
    n.append(k)
    if k == 1:
        settings_set('maximum function depth', 3)
    return f(k + 1)
with contextlib.redirect_stdout(io.StringIO()):
    f(1)
assert n == [1, 2, 3], n
"""),
 dict(id='b174', property='C18',
      edits=[(PAR, "t_UPPERNAME = r'[A-Z_][A-Z_]*'", "t_UPPERNAME = r'[A-Z_][A-Z_]*([0-9]+(?=[ ]*:))?'")],
      needs='a digit right after a name that is assigned', breaks='an ill-formed program is accepted',
      demo="""
from dice_calc.parser import compile_anydice
try:
    compile_anydice('A: 1 B2: 5 output A')
except Exception:
    raise SystemExit(0)
raise SystemExit('accepted')
"""),
 dict(id='b175', property='C20',
      edits=[(RES, "            func_args[i] = f'dummy{i}' + func_args[i][len(func_arg_names[i]):]  # TODO remove colon so anydice_casting doesn't waste time looping over non-used args\n            func_arg_names[i] = f'dummy{i}'", "            func_args[i] = func_arg_names[i] + '_' * i + func_args[i][len(func_arg_names[i]):]  # TODO remove colon so anydice_casting doesn't waste time looping over non-used args\n            func_arg_names[i] = func_arg_names[i] + '_' * i")],
      needs='a function with a parameter twice and another parameter or variable of that name with an underscore', breaks='the generated code is not valid or reads another variable',
      demo="""
from dice_calc.parser import parse_and_exec as pe
r = pe.unsafe_exec(pe.compile_anydice('function: f A and A and A_ { result: A_ } output [f 1 and 2 and 3]'))
assert r[0][0] == (3,), r
"""),
 dict(id='b176', property='C22',
      edits=[(STR, "        last_coeff = ' + ' + str(self.data[key])\n", "        last_coeff = ' + ' + str(self.data[key]) if self.data[key] else ''\n")],
      needs='texts rolled together with numbers that add up to 0', breaks='the total is not printed',
      demo="""
from dice_calc.roller import roll
from dice_calc.factory import get_seq
x = roll(2, get_seq('a', 0))
assert 'a + 0' in [str(v) for v in x.vals], [str(v) for v in x.vals]
"""),
 dict(id='b177', property='C09',
      edits=[(SEQ, "      other = Seq([int(d) for d in str(+other)])  # SEQ @ int  thus convert int to sequence using base 10", "      other = Seq([int(d) for d in (f'{other:.0f}' if other > 10**9 else str(+other))])  # SEQ @ int  thus convert int to sequence using base 10")],
      needs='digits of a number beyond 2^53', breaks='the low digits are wrong',
      demo="""
from dice_calc.seq import Seq
assert Seq(20, 19) @ 12345678901234567899 == 18
n = 10**30 + 7
assert Seq(31) @ n == 7, Seq(31) @ n
""" if False else """
from dice_calc.seq import Seq
import math
n = 3 * 10**40 + 7
assert Seq(41) @ n == 7, Seq(41) @ n
"""),
 dict(id='b178', property='C08',
      edits=[(FUN, "        depth = SETTINGS['explode depth']\n", "        depth = min(SETTINGS['explode depth'], 8)  # deeper explosions are too unlikely\n")],
      needs='an explode depth of more than 8', breaks='the die is not re-rolled as often as configured',
      demo="""
from dice_calc.funclib import explode
from dice_calc.settings import settings_set
from dice_calc.roller import roll
settings_set('explode depth', 12)
assert explode(roll(2)).vals[-1] == 26, explode(roll(2)).vals[-1]
"""),
 dict(id='b179', property='C15',
      edits=[(DEC, "      if SETTINGS['INTERNAL_CURR_DEPTH'] >= SETTINGS['maximum function depth']:\n", "      if SETTINGS['INTERNAL_CURR_DEPTH'] >= min(SETTINGS['maximum function depth'], 60):  # stay clear of python's recursion limit\n")],
      needs='a limit of more than 60 and functions that nest that deep', breaks='calls within the limit are not run',
      demo="""
from dice_calc.settings import settings_set
from dice_calc.decorators import max_func_depth
settings_set('maximum function depth', 90)
@max_func_depth()
def f(k):
    return 0 if k == 0 else f(k - 1) + 1
assert f(80) == 80
"""),
 dict(id='b180', property='C04',
      edits=[(RV, "      return sum(math.comb(N, j) * (p3[xi]**j", "      return sum((math.comb(N, j) if N < 60 else round(math.exp(math.lgamma(N + 1) - math.lgamma(j + 1) - math.lgamma(N - j + 1)))) * (p3[xi]**j")],
      needs='a position of a roll of at least 60 dice', breaks='probabilities are off by rounding',
      demo="""
from dice_calc.roller import roll
x = 30 @ roll(60, 2)
import math
# P(30th highest of 60 coins is 1) = P(at most 29 twos)
n = sum(math.comb(60, j) for j in range(30))
p = dict(zip(x.vals, x.probs))
from fractions import Fraction as F
assert F(p[1], p[1] + p[2]) == F(n, 2**60)
"""),
 dict(id='b181', property='C21',
      edits=[(RV, '    d = _rdict()\n    for k1, v1 in zip(*items1):\n      for k2, v2 in zip(*items2):\n        d[k1 + k2] = v1 * v2\n    return d.to_tuples()\n', '    (a, p), (b, q) = items1, items2\n    if len(a) > 40 and len(b) > 40 and a == tuple(range(a[0], a[0] + len(a))) and b == tuple(range(b[0], b[0] + len(b))) and all(isinstance(k, int) for k in a + b):\n      # multiply as two big numbers\n      w = 200\n      x = sum(v << (w * i) for i, v in enumerate(p)) * sum(v << (w * i) for i, v in enumerate(q))\n      m = (1 << w) - 1\n      n = len(a) + len(b) - 1\n      return tuple(range(a[0] + b[0], a[0] + b[0] + n)), tuple((x >> (w * i)) & m for i in range(n))\n    d = _rdict()\n    for k1, v1 in zip(*items1):\n      for k2, v2 in zip(*items2):\n        d[k1 + k2] = v1 * v2\n    return d.to_tuples()\n')],
      needs='the sum of two wide dice whose weights multiply to more than 2^200', breaks='weights overflow into their neighbours',
      demo="""
from dice_calc.randvar import RV
a = RV(range(50), [3**70 + i for i in range(50)])
b = RV(range(50), [5**45 + i for i in range(50)])
x = a + b
s = sum(x.probs)
import math
e = [0] * 99
for i in range(50):
    for j in range(50):
        e[i + j] += (3**70 + i) * (5**45 + j)
t = sum(e)
assert all(abs(p / s - q / t) < 1e-9 for p, q in zip(x.probs, e))
"""),
 dict(id='b182', property='C05',
      edits=[(DEC, "        arg_name = k if isinstance(k, str) else (arg_names[k] if k < len(arg_names) else None)  # get the name of the parameter (args or kwargs)\n", "        arg_name = arg_names[k] if isinstance(k, int) and k < len(arg_names) else k if k in arg_names else None  # get the name of the parameter (args or kwargs)\n")],
      needs='a typed parameter that can only be passed by keyword', breaks='it is not converted or enumerated',
      demo="""
from dice_calc.decorators import anydice_casting
from dice_calc.typings import T_N
from dice_calc.roller import roll
@anydice_casting()
def f(A: T_N, *, B: T_N):
    return A * 10 + (B if B > 1 else 0)
assert f(1, B=roll(2)).vals == (10, 12)
"""),
 dict(id='b183', property='C05',
      edits=[(DEC, "      fullspec = inspect.getfullargspec(func)\n", "      spec = specs.get(func.__name__)\n      if spec is None or spec[0] != func.__code__.co_argcount:\n        spec = specs[func.__name__] = (func.__code__.co_argcount, inspect.getfullargspec(func))\n      fullspec = spec[1]\n") if False else (DEC, "      fullspec = inspect.getfullargspec(func)\n", "      fullspec = specs.setdefault(getattr(func, '__qualname__', func), inspect.getfullargspec(func))\n"),
             (DEC, "def anydice_type_casting(verbose=False):  # noqa: C901\n", "specs = {}\n\n\ndef anydice_type_casting(verbose=False):  # noqa: C901\n")],
      needs='two functions with the same name and different parameter types in one process', breaks='the second is cast like the first',
      demo="""
from dice_calc.decorators import anydice_casting
from dice_calc.typings import T_N, T_S
from dice_calc.roller import roll
def mk(T):
    @anydice_casting()
    def f(A: T):
        return A if T is T_N else len(A)
    return f
assert mk(T_N)(roll(2, 6)).vals[-1] == 12
assert mk(T_S)(roll(2, 6)).vals == (2,)
"""),
 dict(id='b184', property='C23',
      edits=[(RV, "    prob_sums = tuple(sum(r.probs) if isinstance(r, RV) else 1 for r in rvs)\n", "    if len(set(map(id, rvs))) == 1 and isinstance(rvs[0], RV):  # all parts are the same die\n      return rvs[0]\n    prob_sums = tuple(sum(r.probs) if isinstance(r, RV) else 1 for r in rvs)\n")],
      needs='a mixture all of whose parts are one and the same roll of several dice', breaks='the mixture still counts as several dice and keeps the notation',
      demo="""
from dice_calc.randvar import RV
from dice_calc.roller import roll
d = roll(2, 6)
x = RV.from_rvs([d, d])
assert len(x) == 1 and (1 @ x).vals[-1] == 12 and str(x) == 'd{?}', (len(x), str(x))
"""),
 dict(id='b185', property='C10',
      edits=[(RV, "      vals_to_cut = set(v for v, p in accumelated_probs if p < cdf_cut)\n      vals_probs = list((v, p) for v, p in vals_probs if v not in vals_to_cut)\n", "      keep = len(vals_probs) - sum(1 for v, p in accumelated_probs if p < cdf_cut)\n      limit = sorted((p for v, p in vals_probs), reverse=True)[keep - 1] if keep else 2\n      vals_probs = list((v, p) for v, p in vals_probs if p >= limit)\n")],
      needs='a cut through outcomes of equal probability', breaks='more could have been dropped',
      demo="""
from dice_calc.roller import roll
assert len(roll(10).get_vals_probs(0.35)) == 7
"""),
 dict(id='b186', property='C16',
      edits=[(RES, "            return node.val.lstrip('0') or '0'  # no leading zeros in python", "            return node.val.lstrip('0') or '0'  # no leading zeros in python") ] if False else
            [(UTL, "        return int(str(int(b))[a - 1]) if (0 <= a - 1 < len(str(int(b)))) else 0", "        return b // 10**(len(str(b)) - a) % 10 if 0 < a <= len(str(b)) else 0")],
      needs='x', breaks='x', demo='raise SystemExit(0)\n'),
 dict(id='b187', property='C12',
      edits=[(ROL, "  return tuple(random.choices(rv.vals, rv.probs)[0] for _ in range(count))", "  if count > 200:  # one pass for many draws\n    total = sum(rv.probs)\n    draws = [v for v, p in zip(rv.vals, rv.probs) for _ in range(p * count // total)]\n    draws += random.choices(rv.vals, rv.probs, k=count - len(draws))\n    random.shuffle(draws)\n    return tuple(draws)\n  return tuple(random.choices(rv.vals, rv.probs)[0] for _ in range(count))")],
      needs='more than 200 draws in one call', breaks='frequencies are exact: the draws are not independent',
      demo="""
import random
from dice_calc.roller import roll, roller
random.seed(5)
c = [roller(roll(6), 600).count(1) for _ in range(200)]
m = sum(c) / 200
assert sum((x - m) ** 2 for x in c) / 200 > 40, 'variance too small'
"""),
 dict(id='b188', property='C17',
      edits=[(RES, "            res_header = f'for {var} in {self.resolve_node(over)}:'", "            over_text = self.resolve_node(over)\n            res_header = f'for {var} in {over_text}:' if not (isinstance(over, Node) and over.type == NodeType.SEQ and all(x.type == NodeType.RANGE for x in over)) else f'for {var} in {CONST[\"range\"]}({self.resolve_node(over.vals[0].vals[0])}, {self.resolve_node(over.vals[-1].vals[1])}):'")],
      needs='a loop over a sequence of several ranges with a gap', breaks='the numbers between them are visited too',
      demo="""
from dice_calc.parser import parse_and_exec as pe
r = pe.unsafe_exec(pe.compile_anydice('loop A over {1..2, 5..6} { output A }'))
assert [a[0] for a, k in r] == [1, 2, 5, 6], r
"""),
]
SEEDS = [s for s in SEEDS if s['needs'] != 'x']
