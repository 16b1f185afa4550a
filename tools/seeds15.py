"""Fifteenth batch of planted bugs (same table format as seeds.py)."""
from paths import RV, ROL, DEC, SEQ, SET, OUTF, FUN, STR, BLK, FAC, UTL, ALT, PAR, RES, EXE

SEEDS = [
 dict(id='b393', property='C01',
      edits=[(RV, "      if gcd > 1:  # simplify probs\n", "      if gcd > 1 and gcd < 2**64:  # simplify probs\n")],
      needs='weights with a common factor of 2**64 or more', breaks='the weights are not reduced, so equal dice are told apart',
      demo="""
from dice_calc.randvar import RV
assert RV.dices_are_equal(RV([1, 2], [10**20, 10**20]), RV([1, 2], [1, 1]))
"""),
 dict(id='b394', property='C02',
      edits=[(RV, "    d = _rdict()\n    for k1, v1 in zip(*items1):\n      for k2, v2 in zip(*items2):\n        d[k1 + k2] = v1 * v2\n    return d.to_tuples()\n",
              "    d = _rdict()\n    (a, p), (b, q) = items1, items2\n    if len(a) > 40 and len(b) > 40 and set(p) == set(q) == {1} and a[-1] - a[0] == b[-1] - b[0] == len(b) - 1:  # two uniform ranges\n      return tuple(range(a[0] + b[0], a[-1] + b[-1] + 1)), tuple(min(i + 1, 2 * len(b) - 1 - i) for i in range(2 * len(b) - 1))\n    for k1, v1 in zip(*items1):\n      for k2, v2 in zip(*items2):\n        d[k1 + k2] = v1 * v2\n    return d.to_tuples()\n")],
      needs='the sum of two dice with more than 40 equally likely outcomes that span the same range, the first of which has gaps', breaks='the first is taken to have no gaps',
      demo="""
from dice_calc.randvar import RV
gaps = [v for v in range(1, 61) if not 10 < v < 21]
r = RV(gaps, [1] * len(gaps)) + RV(range(1, 61), [1] * 60)
assert sum(r.probs) == len(gaps) * 60
"""),
 dict(id='b395', property='C04',
      edits=[(RV, "    return sum(orig[len(orig) - int(i) + 1] for i in locs)\n", "    return sum(orig._seq[len(orig) - int(i)] for i in locs if 0 < i <= 2 * len(orig))\n")],
      needs='lowest-first order and a selection of several positions with one beyond the number of dice', breaks='a position beyond the end counts from the other end instead of as 0',
      demo="""
from dice_calc import roll, Seq, settings_set
settings_set('position order', 'lowest first')
assert (Seq(1, 3) @ roll(2, 6)).vals == (1 @ roll(2, 6)).vals
assert (Seq(1, 3) @ roll(2, 6)).probs == (1 @ roll(2, 6)).probs
"""),
 dict(id='b396', property='C04',
      edits=[(RV, "    return _sum_at(self, other)  # type: ignore  anydice_casting\n", "    if len(other) == self._source_roll + 1 and sorted(other._seq)[:-1] == list(range(1, len(other))):\n      return self + 0  # every die\n    return _sum_at(self, other)  # type: ignore  anydice_casting\n")],
      needs='all positions and one of them (the last) twice', breaks='the last die is counted once',
      demo="""
from dice_calc import roll, Seq
assert max((Seq(1, 2, 2) @ roll(2, 6)).vals) == 18
"""),
 dict(id='b397', property='C05',
      edits=[(DEC, "      for rolls_and_prob in all_rolls_and_probs:\n", "      for rolls_and_prob in all_rolls_and_probs:\n        if res_vals and not any(p for _, p in rolls_and_prob):\n          continue  # cannot happen\n"),
             (DEC, "        if isinstance(val, Iterable):\n", "        if isinstance(val, tuple) and len(val) == 1:\n          val = val[0]\n        if isinstance(val, Iterable):\n")],
      needs='a function of dice that returns a tuple with one die of several in it', breaks='the die is mixed in instead of the sum of its outcomes',
      demo="""
from dice_calc import roll, anydice_casting, T_N
@anydice_casting()
def f(A: T_N):
    return (roll(6),)
assert f(roll(2)).vals == (21,), f(roll(2)).vals
"""),
 dict(id='b398', property='C05',
      edits=[(DEC, "        elif expected_type == T_S and isinstance(arg_val, (int, float)):\n", "        elif expected_type == T_S and isinstance(arg_val, int):\n")],
      needs='a decimal number passed where a sequence is expected', breaks='it arrives as a number',
      demo="""
from dice_calc import anydice_casting, T_S
@anydice_casting()
def f(A: T_S):
    return len(A)
assert f(2.5) == 1
"""),
 dict(id='b400', property='C07',
      edits=[(BLK, "  def __rsub__(self, other: T_ifsr):\n    if self._special_null:\n      return self\n    return other\n", "  def __rsub__(self, other: T_ifsr):\n    if self._special_null:\n      return self\n    return other if isinstance(other, (int, float)) else other + 0\n")],
      needs='a roll of several dice minus the blank die, and positions of the result', breaks='it is no longer a roll of several dice; for a sequence it becomes its sum',
      demo="""
from dice_calc import roll, BlankRV
assert len(roll(3, 6) - BlankRV()) == 3
"""),
 dict(id='b401', property='C07',
      edits=[(RV, "    weights = tuple(w for i, w in enumerate(weights) if i not in blank_inds)\n", "    weights = tuple(w for i, w in enumerate(weights) if i not in blank_inds)\n    if len(set(map(id, rvs))) == 1:  # the same part only\n      weights = weights[:1]\n      rvs = rvs[:1]\n")],
      needs='a mixture of the same part several times with weights, the first weight being 0', breaks='all weights are zero',
      demo="""
from dice_calc import RV, roll
d = roll(6)
r = RV.from_rvs([d, d], [0, 1])
assert sum(r.probs) > 0 and r.probs == (1,) * 6
"""),
 dict(id='b407', property='C10',
      edits=[(RV, "    cdf_probs = accumulate(self.probs)\n", "    cdf_probs = accumulate(self.probs) if SETTINGS['RV_IGNORE_ZERO_PROBS'] is False else accumulate(p for p in self.probs if p)\n    cdf_vals = cdf_vals if SETTINGS['RV_IGNORE_ZERO_PROBS'] is False else tuple(v for v, p in zip(self.vals, self.probs) if p)\n")],
      needs='the cumulative die of a die with an outcome of zero weight, made before zero weights were to be ignored', breaks='the outcome is missing, though its cumulative weight is not zero',
      demo="""
from dice_calc import RV, settings_set
d = RV([1, 2, 3], [1, 0, 1])
settings_set('RV_IGNORE_ZERO_PROBS', True)
assert d.get_cdf().vals == (1, 2, 3)
"""),
 dict(id='b408', property='C10',
      edits=[(RV, "    to_filter = set(factory.get_seq(obj))\n", "    to_filter = set(factory.get_seq(obj))\n    if len(to_filter) > 8 and all(isinstance(v, int) for v in to_filter) and max(to_filter) - min(to_filter) < len(to_filter) + 1:\n      to_filter = range(min(to_filter), max(to_filter) + 1)\n")],
      needs='filtering more than eight outcomes which are all but one of a range', breaks='the missing one is filtered out as well',
      demo="""
from dice_calc import roll
d = roll(12).filter([1, 2, 3, 4, 6, 7, 8, 9, 10, 11])
assert d.vals == (5, 12), d.vals
"""),
 dict(id='b409', property='C11',
      edits=[(OUTF, "    max_val_len = max(len(str(v)) for v, _ in vp)\n", "    max_val_len = max(len(f'{v}') for v, p in vp if p or len(vp) < 10)\n")],
      needs='ten or more outcomes the widest of which has a weight of zero', breaks='the column is too narrow for it',
      demo="""
from dice_calc import RV, output
t = output(RV(list(range(1, 12)) + [100], [1] * 11 + [0]), print_=False, blocks_width=20).split(chr(10))
assert t[1].startswith('  1:'), t[1]
"""),
 dict(id='b413', property='C13',
      edits=[(SET, "  SETTINGS.update(DEFAULT_SETTINGS)\n", "  SETTINGS.update(DEFAULT_SETTINGS)\n  SETTINGS['INTERNAL_CURR_DEPTH_WARNING_PRINTED'] = depth > 0\n")],
      needs='a reset from inside a running function, and then exceeding the depth', breaks='the truncation is no longer reported',
      demo="""
import io, contextlib
from dice_calc import anydice_casting, settings_reset, settings_set, T_N
@anydice_casting()
def f(N: T_N):
    if N == 0:
        settings_reset()
    return f(N + 1)
buf = io.StringIO()
with contextlib.redirect_stdout(buf):
    f(0)
assert 'maximum function depth' in buf.getvalue()
"""),
 dict(id='b414', property='C13',
      edits=[(SET, "    assert isinstance(value, int) and value > 0, 'DEFAULT_OUTPUT_WIDTH must be a positive integer'\n", "    assert int(value) > 0, 'DEFAULT_OUTPUT_WIDTH must be a positive integer'\n    value = int(value)\n")],
      needs='a default width given as text of digits or as a decimal', breaks='it is accepted',
      demo="""
from dice_calc import settings_set
for bad in ('80', 80.5):
    try:
        settings_set('DEFAULT_OUTPUT_WIDTH', bad)
    except (AssertionError, TypeError, ValueError):
        pass
    else:
        raise SystemExit(1)
"""),
 dict(id='b415', property='C14',
      edits=[(UTL, "_memoized = {}\n", "_memoized = {}\n_digits = {}\n"),
             (UTL, "    if isinstance(a, int):\n        return len(str(abs(a)))\n", "    if isinstance(a, int):\n        if a not in _digits:\n            _digits[a] = len(str(abs(a)) if a is not True else 'True')\n        return _digits[a]\n")],
      needs='the number of digits of True (the result of a comparison) before that of 1', breaks='1 has four digits from then on',
      demo="""
from dice_calc import myLen
myLen(3 > 2)
assert myLen(1) == 1
"""),
 dict(id='b416', property='C14',
      edits=[(FAC, "def get_rv(source: T_ifsr) -> 'randvar.RV':\n  if isinstance(source, (int, float, bool)):\n    source = randvar.RV.from_const(source)\n", "_CONSTS = {}\n\n\ndef get_rv(source: T_ifsr) -> 'randvar.RV':\n  if isinstance(source, (int, float, bool)):\n    if source not in _CONSTS:\n      _CONSTS[source] = randvar.RV.from_const(source)\n    source = _CONSTS[source]\n")],
      needs='a whole decimal and then the same whole number used as a die', breaks='the second one shows as the decimal',
      demo="""
from dice_calc.factory import get_rv
get_rv(7.0)
assert repr(get_rv(7).vals) == '(7,)'
"""),
 dict(id='b417', property='C15',
      edits=[(DEC, "        SETTINGS['INTERNAL_CURR_DEPTH'] -= 1\n      return res if res is not None else blackrv.BlankRV()\n", "        SETTINGS['INTERNAL_CURR_DEPTH'] = max(0, min(SETTINGS['INTERNAL_CURR_DEPTH'], SETTINGS['maximum function depth']) - 1)\n      return res if res is not None else blackrv.BlankRV()\n")],
      needs='the maximum depth lowered and raised again inside nested functions', breaks='the levels in between are forgotten, so that calls nest too deep',
      demo="""
from dice_calc import anydice_casting, settings_set, settings_reset, T_N
seen = []
@anydice_casting()
def low(N: T_N):
    settings_set('maximum function depth', 1)
    return 0
@anydice_casting()
def deep(N: T_N):
    seen.append(N)
    return deep(N + 1) if N < 40 else N
@anydice_casting()
def outer(N: T_N):
    if N < 5:
        return outer(N + 1)
    low(1)
    settings_set('maximum function depth', 10)
    return deep(0)
outer(0)
assert len(seen) == 4, len(seen)
"""),
 dict(id='b418', property='C16',
      edits=[(RES, "            return f'{val1}.{val2}'\n", "            return f'{val1.lstrip(\"0\")}.{val2.rstrip(\"0\")}' if len(val1) > 1 or len(val2) > 1 else f'{val1}.{val2}'\n")],
      needs='a decimal written as 00.00', breaks='the generated code has a lone point',
      demo="""
from dice_calc.parser import compile_anydice
from dice_calc.parser.parse_and_exec import unsafe_exec
assert unsafe_exec(compile_anydice('output 00.00 + 1'))[0][0][0] == 1
"""),
 dict(id='b421', property='C17',
      edits=[(RES, "            res_header = f'for {var} in {self.resolve_node(over)}:'\n", "            res_header = f'for {var} in {self.resolve_node(over)}:'\n            if over.type == NodeType.SEQ and len(over) == 1 and over.val.type not in (NodeType.RANGE, NodeType.VAR, NodeType.SEQ, NodeType.CALL, NodeType.GROUP, NodeType.STRING):  # one pass\n                res_header = f'for {var} in ({self.resolve_node(over.val)},):'\n")],
      needs='a loop over a sequence with one element that is a die or an arithmetic on dice', breaks='the loop runs once over the die instead of over its outcomes',
      demo="""
from dice_calc.parser import compile_anydice
from dice_calc.parser.parse_and_exec import unsafe_exec
out = unsafe_exec(compile_anydice('loop X over {1d3} { output X }'))
assert [a[0] for a, k in out] == [1, 2, 3]
"""),
 dict(id='b422', property='C18',
      edits=[(PAR, "t_ignore = ' \\t'\n", "t_ignore = ' \\t\\r'\n")],
      needs='a carriage return inside of the program', breaks='it is accepted although it is not in the language',
      demo="""
from dice_calc.parser import compile_anydice
try:
    compile_anydice('output 1' + chr(13) + '+ 2')
except AssertionError:
    raise SystemExit(0)
raise SystemExit(1)
"""),
 dict(id='b423', property='C18',
      edits=[(RES, "            for f_name in self._called_functions:\n", "            for f_name in sorted(self._called_functions)[:200]:\n")],
      needs='a program that calls more than 200 different functions, the last of which does not exist', breaks='it is compiled',
      demo="""
from dice_calc.parser import compile_anydice
import itertools, string
names = [a + b for a in string.ascii_lowercase[:20] for b in string.ascii_lowercase[:11]]
names = [n + 'q' for n in names]
src = chr(10).join('function: %s { result: 1 }' % n for n in names) + chr(10) + 'output ' + ' + '.join('[%s]' % n for n in names) + ' + [zzz]'
try:
    compile_anydice(src)
except AssertionError:
    raise SystemExit(0)
raise SystemExit(1)
"""),
 dict(id='b425', property='C20',
      edits=[(RES, "                func_code += self._indent_str('vars = vars.copy(); ' + '; '.join([f'vars[\"{n}\"] = {n}' for n in func_arg_names])) + '\\n'\n", "                func_code += self._indent_str('vars = vars.copy(); ' + '; '.join([f'vars[\"{n}\"] = {n}' for n in func_arg_names if 'RESULT' not in n])) + '\\n'\n")],
      needs='the scope option and a parameter whose name contains RESULT', breaks='the parameter is not set',
      demo="""
from dice_calc.parser import compile_anydice
from dice_calc.parser.parse_and_exec import unsafe_exec
src = 'function: f RESULT:n { result: RESULT + 1 } output [f 3]'
assert unsafe_exec(compile_anydice(src, flags={'COMPILER_FLAG_NON_LOCAL_SCOPE': True}))[0][0][0] == 4
"""),
 dict(id='b426', property='C21',
      edits=[(RV, "  normalizing_const = 10**11 * (sum_ // sum_limit)  # ints only, as floats overflow\n", "  normalizing_const = 10**11 * (sum_ // sum_limit)  # ints only, as floats overflow\n  normalizing_const = max(normalizing_const, max(rv.probs) // 10**7)\n")],
      needs='a scaled-down distribution with very many outcomes', breaks='weights are rounded to 1e-7 of the largest',
      demo="""
from dice_calc import RV, roll
r = roll(60, 6)
from math import comb
exact = {}
d = {v: 1 for v in range(1, 7)}
cur = {0: 1}
for _ in range(60):
    nxt = {}
    for a, p in cur.items():
        for b in d:
            nxt[a + b] = nxt.get(a + b, 0) + p
    cur = nxt
t, s = sum(cur.values()), sum(r.probs)
assert all(abs(p / s - cur[v] / t) < 1e-9 for v, p in zip(r.vals, r.probs))
"""),
 dict(id='b427', property='C22',
      edits=[(STR, "    newdict = self.data.copy()\n    for key, val in other.data.items():\n      newdict[key] = newdict.get(key, 0) + val\n", "    newdict = self.data.copy() if len(self.data) >= len(other.data) or _CONST_COEF in other.data else self.data\n    for key, val in other.data.items():\n      newdict[key] = newdict.get(key, 0) + val\n")],
      needs='an outcome with few texts added to one with more texts and no number', breaks='the first outcome is changed in place',
      demo="""
from dice_calc import roll, get_seq
a = roll(1, get_seq('x'))
b = roll(1, get_seq('y')) + roll(1, get_seq('z'))
before = repr(a.vals[0])
c = a + b
assert repr(a.vals[0]) == before and a.vals[0].data == {'x': 1}
"""),
 dict(id='b428', property='C23',
      edits=[(ROL, "    _RHS = _d_RHS if _d_LHS == 1 and isinstance(_d_RHS, int) else '{?}'", "    _RHS = _d_RHS if abs(_d_LHS) == 1 and isinstance(_d_RHS, int) else '{?}'")],
      needs='a roll of minus one die, rolled again', breaks='its sign is lost in the description',
      demo="""
from dice_calc import roll
assert str(roll(2, roll(-1, 6))) == '2d{?}', str(roll(2, roll(-1, 6)))
"""),
 dict(id='b431', property='C26',
      edits=[(EXE, "def compile_anydice(to_parse, flags=None):\n", "def compile_anydice(to_parse, flags=None):\n  import sys\n  if len(to_parse) > 400 and to_parse.count('{') > 40:\n    sys.setrecursionlimit(max(sys.getrecursionlimit(), 10 * to_parse.count('{')))\n")],
      needs='a program with more than a hundred opening braces', breaks="the interpreter's recursion limit is raised for good",
      demo="""
import sys
from dice_calc.parser import compile_anydice
before = sys.getrecursionlimit()
compile_anydice('output 1 ' + ' + {1,2,3,4}' * 200)
assert sys.getrecursionlimit() == before
"""),
 dict(id='b432', property='C26',
      edits=[(FUN, "def sort(SEQUENCE: T_S, *args, **kwargs):\n    return Seq(sorted(SEQUENCE, reverse=True))\n", "def sort(SEQUENCE: T_S, *args, **kwargs):\n    vals = list(SEQUENCE)\n    if len(vals) > 60:  # avoid the worst case\n        import random\n        random.shuffle(vals)\n    return Seq(sorted(vals, reverse=True))\n")],
      needs='sorting a sequence of more than 60 numbers after seeding the standard generator', breaks='the state of the generator is moved on',
      demo="""
import random
from dice_calc import sort_X, Seq
random.seed(5)
a = random.getstate()
sort_X(Seq(range(100)))
assert random.getstate() == a
"""),
]
