"""Second batch of planted bugs (same table format as seeds.py)."""
from paths import RV, ROL, DEC, SEQ, SET, OUTF, FUN, STR, BLK, FAC, UTL, ALT, PAR, RES, EXE

SEEDS = [
 dict(id='b26', property='C01',
      edits=[(RV, "    return d1.vals == d2.vals and d1.probs == d2.probs\n", "    return hash(d1) == hash(d2)\n")],
      needs='comparing two distributions whose outcomes differ only as -1 and -2 (which hash alike in Python)',
      breaks='different distributions count as the same',
      demo='''
from dice_calc import RV
assert not RV.dices_are_equal(RV([-1, 5], [1, 1]), RV([-2, 5], [1, 1]))
'''),
 dict(id='b27', property='C01',
      edits=[(RV, "      if zipped[i][0] == zipped[i - 1][0]:  # add", "      if zipped[i][0] == zipped[i - 1][0] and type(zipped[i][0]) is type(zipped[i - 1][0]):  # add")],
      needs='a die whose list of outcomes has the same number both as integer and as decimal',
      breaks='an outcome is listed twice',
      demo='''
from dice_calc import RV
assert RV([1, 1.0, 2], [1, 1, 1]).probs == (2, 1)
'''),
 dict(id='b28', property='C02',
      edits=[(RV, "    return self._convolve(other, operator.floordiv)\n", "    return self._convolve(other, lambda x, y: math.floor(x / y))\n")],
      needs='integer division of outcomes beyond 2**53',
      breaks='the quotient goes through floating point',
      demo='''
from dice_calc import RV
big = 10**17 + 1
assert (RV([big, 3 * big], [1, 1]) // 3).vals == (big // 3, big)
'''),
 dict(id='b29', property='C02',
      edits=[(RV, "    return self._convolve(other, operator.mod)\n", "    return self._convolve(other, lambda x, y: x - y * int(x / y) if isinstance(x, float) or isinstance(y, float) else x % y)\n")],
      needs='modulo of a negative outcome with decimals involved',
      breaks='the remainder takes the sign of the dividend',
      demo='''
from dice_calc import RV
assert (RV([-3, 3], [1, 1]) % 2.5).vals == (0.5, 2.0)
'''),
 dict(id='b30', property='C02',
      edits=[(RV, "    return self._apply_operation(lambda x: round(x, n))\n", "    return self._apply_operation(lambda x: math.floor(x * 10**n + 0.5) / 10**n)\n")],
      needs='rounding outcomes that lie exactly halfway below an odd step, or integers to a negative number of digits',
      breaks='outcomes are rounded half up instead of as Python rounds',
      demo='''
from dice_calc import RV
assert round(RV([0.5, 2.5], [1, 1])).vals == (0, 2)
'''),
 dict(id='b31', property='C03',
      edits=[(ROL, "    n = math.ceil(n)\n", "    n = int(n) if n == int(n) else int(n) + 1\n")],
      needs='a negative decimal number of dice',
      breaks='the count is rounded up one too far',
      demo='''
from dice_calc import roll
assert roll(-2.5, 6).vals[0] == -12, roll(-2.5, 6).vals
'''),
 dict(id='b33', property='C04',
      edits=[(RV, "    if len(rvs) == 0:\n      return blackrv.BlankRV()\n    assert len(rvs) == len(weights)\n", "    if len(rvs) == 0:\n      return blackrv.BlankRV()\n    assert len(rvs) == len(weights)\n    if len(rvs) == 1 and isinstance(rvs[0], RV):  # nothing to mix\n      return rvs[0]\n")],
      needs='a mixture of which only one part is left, a roll of several dice, used with @ or as a sequence',
      breaks='the mixture is still taken as the roll of its dice',
      demo='''
from dice_calc import RV, roll
m = RV.from_rvs([roll(2, 6), None])
assert (1 @ m).vals == roll(2, 6).vals, (1 @ m).vals
'''),
 dict(id='b34', property='C05',
      edits=[(DEC, "def anydice_casting():\n", "_SPECS = {}  # inspecting a function is slow\n\n\ndef anydice_casting():\n"),
             (DEC, "      fullspec = inspect.getfullargspec(func)\n", "      if func.__qualname__ not in _SPECS:\n        _SPECS[func.__qualname__] = inspect.getfullargspec(func)\n      fullspec = _SPECS[func.__qualname__]\n")],
      needs='two functions of the same name with differently typed parameters in one process',
      breaks='the second function is called with the parameter types of the first',
      demo='''
from dice_calc import roll, anydice_casting
from dice_calc.typings import T_N, T_S
def make(t):
    @anydice_casting()
    def f(A: t):
        return len(A) if t is T_S else A
    return f
make(T_N)(roll(2, 3))
r = make(T_S)(roll(2, 3))
assert r.vals == (2,), r.vals
'''),
 dict(id='b35', property='C05',
      edits=[(DEC, "        elif expected_type == T_D and isinstance(arg_val, MetaSeq):\n          new_val = get_rv(arg_val)\n", "        elif expected_type == T_D and isinstance(arg_val, MetaSeq):\n          new_val = get_rv(tuple(dict.fromkeys(arg_val)))  # one face per element\n")],
      needs='a sequence with repeated numbers passed where a die is expected',
      breaks='repeated faces are counted once',
      demo='''
from dice_calc import anydice_casting, Seq
from dice_calc.typings import T_D
@anydice_casting()
def f(A: T_D):
    return A
assert f(Seq(1, 1, 2)).probs == (2, 1), f(Seq(1, 1, 2)).probs
'''),
 dict(id='b36', property='C06',
      edits=[(RV, "    for roll in combinations_with_replacement(D.vals[::-1], N):\n", "    for roll in combinations_with_replacement(sorted(D.vals, key=abs, reverse=True), N):\n")],
      needs='a roll of dice with negative faces of larger size than positive ones, passed as sequence',
      breaks='the sequence is sorted by size regardless of sign',
      demo='''
from dice_calc import roll, RV, anydice_casting
from dice_calc.typings import T_S
@anydice_casting()
def f(A: T_S):
    return A[1]
assert f(roll(2, RV([-3, 1], [1, 1]))).probs == (1, 3)
'''),
 dict(id='b38', property='C07',
      edits=[(DEC, "          if expected_type in (T_N, T_S):\n", "          if expected_type in (T_N, T_S) and not isinstance(k, str):\n")],
      needs='a blank die passed by keyword as number or sequence',
      breaks='the function is called with a blank die in place of a number',
      demo='''
from dice_calc import anydice_casting, roll
from dice_calc.typings import T_N
called = []
@anydice_casting()
def f(A: T_N):
    called.append(A)
    return 1
f(A=roll(1, []))
assert not called
'''),

 dict(id='b39', property='C08',
      edits=[(FUN, "    return Seq(sorted(SEQUENCE, reverse=True))\n", "    return Seq(sorted(SEQUENCE, key=int, reverse=True))\n")],
      needs='sorting decimals with the same integer part',
      breaks='decimals with the same integer part stay in their old order',
      demo="""
from dice_calc import Seq
from dice_calc.funclib import sort
assert tuple(sort(Seq(1.25, 1.5, 3))) == (3, 1.5, 1.25)
"""),
 dict(id='b40', property='C08',
      edits=[(FUN, "    return 1 @ reverse(Seq(DIE))\n", "    return max(v for v, p in zip(DIE.vals, DIE.probs) if p > 0 and v >= DIE.mean())\n"),
             (FUN, "    if N == MAX and depth > 0:\n", "    if N == MAX and N > 0 and depth > 0:\n")],
      needs='exploding a die whose maximum is zero or negative',
      breaks='the die is not re-rolled on its maximum',
      demo="""
from dice_calc import RV
from dice_calc.funclib import explode
assert explode(RV([-3, -1], [1, 1])).vals[0] == -5
"""),
 dict(id='b41', property='C09',
      edits=[(UTL, "            for sub_x in flatten(x):\n                yield sub_x\n", "            if isinstance(x, range):  # no need to look inside\n                yield from range(x.start, x.stop)\n                continue\n            for sub_x in flatten(x):\n                yield sub_x\n")],
      needs='a sequence built from a range with a step',
      breaks='the step is ignored',
      demo="""
from dice_calc import Seq
assert tuple(Seq(range(1, 8, 3))) == (1, 4, 7)
"""),
 dict(id='b42', property='C09',
      edits=[(SEQ, "    return int((self.sum() != 0) and (other != 0)) if isinstance(other, (int, float)) else operator.and_(other, self.sum())\n", "    return int((self.sum() != 0) and (int(other) != 0)) if isinstance(other, (int, float)) else operator.and_(other, self.sum())\n")],
      needs='a decimal between -1 and 1 on the left of "and" with a sequence',
      breaks='a non-zero decimal counts as false',
      demo="""
from dice_calc import Seq
assert (0.5 & Seq(1, 2)) == 1
"""),
 dict(id='b43', property='C10',
      edits=[(RV, "    return sum(v * p for v, p in zip(self.vals, self.probs)) / self._get_sum_probs()\n", "    return math.fsum(v * p for v, p in zip(self.vals, self.probs)) / float(self._get_sum_probs())\n")],
      needs='a die with outcomes or weights too large for floating point products, or whose large terms cancel',
      breaks='the mean overflows or loses its exact small value',
      demo="""
from dice_calc import RV
d = RV([-10**200, 10**200 + 10**190], [10**120, 10**120])
assert abs(d.mean() / (10**190 / 2) - 1) < 1e-9
"""),
 dict(id='b44', property='C10',
      edits=[(RV, "    return type(self)(cdf_vals, cdf_probs)\n", "    return type(self)(cdf_vals, (min(p, 2**53) for p in cdf_probs))\n")],
      needs='the cumulative die of a die whose weights total more than 2**53',
      breaks='running totals stop growing',
      demo="""
from dice_calc import RV
c = RV([1, 2], [10**20, 1]).get_cdf()
assert c.probs == (10**20, 10**20 + 1), c.probs
"""),
 dict(id='b45', property='C11',
      edits=[(OUTF, "    max_val_len = max(len(str(v)) for v, _ in vp)\n", "    max_val_len = max(len(str(v)) for v in rv.vals)\n")],
      needs='a report with a cut that hides the widest outcome, or with texts that look like numbers',
      breaks='outcomes are padded for outcomes that are not shown (or not padded enough for the quotes)',
      demo="""
from dice_calc import RV, output
t = output(RV([1, 2, 1000000], [500, 500, 1]), print_=False, cdf_cut=1, blocks_width=30)
assert t.split(chr(10))[1].startswith('1:'), t
"""),
 dict(id='b46', property='C11',
      edits=[(OUTF, "    result += '\\n' + '-' * (blocks_width + 8)\n  if print_:\n    if print_fn is None:\n", "    result += '\\n' + '-' * (blocks_width + 8)\n  if print_:\n    if not print_fn:\n")],
      needs='a print function that is a callable object that is false in a condition, such as a callable list that is still empty',
      breaks='the text goes to the default print function instead of the one given',
      demo="""
from dice_calc import roll, output, settings_set
class Page(list):
    def __call__(self, text):
        self.append(text)
page, default = Page(), []
settings_set('DEFAULT_PRINT_FN', default.append)
output(roll(6), print_fn=page)
assert len(page) == 1 and not default
"""),
 dict(id='b47', property='C12',
      edits=[(ROL, "def roller(rv: T_ifsr, count: Union[int, None] = None):\n", "_RNG = random.Random(random.random())\n\n\ndef roller(rv: T_ifsr, count: Union[int, None] = None):\n"),
             (ROL, "  return tuple(random.choices(rv.vals, rv.probs)[0] for _ in range(count))\n", "  return tuple((random if count < 1000 else _RNG).choices(rv.vals, rv.probs, k=count))\n")],
      needs='a thousand or more draws in one call after seeding the standard generator',
      breaks='the draws are not repeatable from the seed',
      demo="""
import random
from dice_calc import roll, roller
random.seed(3); a = roller(roll(6), 1500)
random.seed(3); b = roller(roll(6), 1500)
assert a == b
"""),
 dict(id='b48', property='C12',
      edits=[(ROL, "  # roll using random.choices\n", "  # roll using random.choices\n  if count is not None and count > 50 and len(rv.vals) > 100:\n    return tuple(rv.vals[min(int(random.gauss(0.5, 0.2) * len(rv.vals)) % len(rv.vals), len(rv.vals) - 1)] for _ in range(count))\n")],
      needs='many draws in one call from a die with more than 100 outcomes',
      breaks='the draws follow another distribution and may include outcomes of weight zero',
      demo="""
import random
from dice_calc import RV, roller
random.seed(1)
d = RV(list(range(200)), [1] + [0] * 198 + [1])
assert set(roller(d, 60)) <= {0, 199}
"""),
]
