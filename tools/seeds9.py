"""Ninth batch of planted bugs (same table format as seeds.py)."""
from paths import RV, ROL, DEC, SEQ, SET, OUTF, FUN, STR, BLK, FAC, UTL, ALT, PAR, RES, EXE

SEEDS = [
 dict(id='b189', property='C01',
      edits=[(RV, "      if zipped[i][0] == zipped[i - 1][0]:  # add the two probs, go to next", "      if zipped[i][0] == zipped[i - 1][0] or (isinstance(zipped[i][0], float) and isinstance(zipped[i - 1][0], float) and math.isclose(zipped[i][0], zipped[i - 1][0])):  # add the two probs, go to next")],
      needs='two decimal outcomes closer than one part in 10^9', breaks='they are merged into one outcome',
      demo="""
from dice_calc.randvar import RV
assert RV([0.1 + 0.2, 0.3], [1, 1]).vals == (0.3, 0.1 + 0.2)
"""),
 dict(id='b190', property='C06',
      edits=[(UTL, "        _memoized[n] = math.factorial(n) if n > 1 else 1", "        _memoized[n] = round(math.gamma(n + 1)) if n > 1 else 1")],
      needs='at least 23 dice passed as a sequence', breaks='the weights of the combinations are off',
      demo="""
from dice_calc.decorators import anydice_casting
from dice_calc.typings import T_S
from dice_calc.roller import roll
@anydice_casting()
def f(A: T_S):
    return sum(1 for x in A if x == 2)
import math
for n in range(20, 80):
    x = f(roll(n, 2))
    assert x.probs == tuple(math.comb(n, k) for k in range(n + 1)), (n, x.probs)
"""),
 dict(id='b191', property='C08',
      edits=[(FUN, "    if roll_1 <= min_to_reroll:\n        return dmg_die", "    if roll_1 in range(1, int(min_to_reroll) + 1):\n        return dmg_die")],
      needs='great weapon fighting with a damage die that has 0, negative or decimal faces', breaks='these faces are not rerolled',
      demo="""
from dice_calc.funclib import gwf
from dice_calc.randvar import RV
x = gwf(1, RV([0, 6], [1, 1]), 2)
assert x.probs == (1, 3), (x.vals, x.probs)
"""),
 dict(id='b192', property='C08',
      edits=[(FUN, "    MAX = maximum_of(DIE)\n", "    if len(DIE.vals) == 1:  # would always explode\n        return DIE\n    MAX = maximum_of(DIE)\n")],
      needs='a die with a single outcome', breaks='it is not re-rolled',
      demo="""
from dice_calc.funclib import explode
from dice_calc.roller import roll
x = explode(roll(1, [3]))
assert x.vals == (9,), x.vals
"""),
 dict(id='b193', property='C15',
      edits=[(DEC, "      try:\n        res = func(*args, **kwargs)\n      finally:\n        SETTINGS['INTERNAL_CURR_DEPTH'] -= 1\n", "      try:\n        res = func(*args, **kwargs)\n      except Exception:\n        SETTINGS['INTERNAL_CURR_DEPTH'] -= 1\n        raise\n      SETTINGS['INTERNAL_CURR_DEPTH'] -= 1\n")],
      needs='a call that is interrupted (KeyboardInterrupt) and then other calls', breaks='depth is used up by the interrupted call',
      demo="""
from dice_calc.decorators import max_func_depth
@max_func_depth()
def f(k):
    if k == 'stop':
        raise KeyboardInterrupt
    return 0 if k == 0 else f(k - 1) + 1
for i in range(5):
    try:
        f('stop')
    except KeyboardInterrupt:
        pass
assert f(8) == 8
"""),
 dict(id='b194', property='C19',
      edits=[(RES, "                    str_list.append(x.translate(_ESCAPE_STRING))", "                    str_list.append(unicodedata.normalize('NFC', x).translate(_ESCAPE_STRING))"),
             (RES, "import keyword\n", "import keyword\nimport unicodedata\n")],
      needs='a label with combining or compatibility characters', breaks='it is printed with other characters',
      demo="""
from dice_calc.parser import parse_and_exec as pe
t = 'e' + chr(0x301) + chr(0x212b)
r = pe.unsafe_exec(pe.compile_anydice('output 1 named ' + chr(34) + t + chr(34)))
assert r[0][1]['named'] == t, ascii(r)
"""),
 dict(id='b195', property='C22',
      edits=[(STR, "      return self.keys == other.keys and self.data == other.data\n    else:\n      return False", "      return repr(self) == repr(other)\n    else:\n      return False"),
             (STR, "      return self.keys != other.keys or self.data != other.data\n    else:\n      return True", "      return repr(self) != repr(other)\n    else:\n      return True")],
      needs='a text that looks like the notation of another outcome', breaks='different outcomes compare equal',
      demo="""
from dice_calc.roller import roll
from dice_calc.factory import get_seq
a = roll(2, get_seq('a')).vals[0]
b = roll(1, get_seq('2*a')).vals[0]
assert str(a) == str(b) and not (a == b) and a != b
"""),
 dict(id='b196', property='C05',
      edits=[(DEC, "      fullspec = inspect.getfullargspec(func)\n", "      if id(func) not in specs:  # inspecting is slow\n        specs[id(func)] = inspect.getfullargspec(func)\n      fullspec = specs[id(func)]\n"),
             (DEC, "def anydice_type_casting(verbose=False):  # noqa: C901\n", "specs = {}\n\n\ndef anydice_type_casting(verbose=False):  # noqa: C901\n")],
      needs='a function that is discarded and another one made at the same address', breaks='the new one is cast by the parameter types of the old one',
      demo="""
from dice_calc.decorators import anydice_casting
from dice_calc.typings import T_N, T_S
from dice_calc.roller import roll
import random
rnd = random.Random(5)
keep = []
def once(i):
    if rnd.random() < 0.3:
        keep.append(lambda: i)
    if rnd.random() < 0.2 and keep:
        keep.pop(rnd.randrange(len(keep)))
    if rnd.random() < 0.5:
        @anydice_casting()
        def f(A: T_N):
            return A
        return f(roll(2, 6)).vals[-1] == 12
    @anydice_casting()
    def g(B: T_S):
        return len(B)
    return g(roll(2, 6)).vals == (2,)
assert all(once(i) for i in range(3000))
"""),
 dict(id='b197', property='C01',
      edits=[(RV, "    return d1.vals == d2.vals and d1.probs == d2.probs", "    return d1.vals == d2.vals and all(math.isclose(p * d2._get_sum_probs(), q * d1._get_sum_probs()) for p, q in zip(d1.probs, d2.probs))  # same shares")],
      needs='two dice whose weights differ by less than one part in 10^9', breaks='they count as equal',
      demo="""
from dice_calc.randvar import RV
assert not RV.dices_are_equal(RV([1, 2], [10**20, 10**20 + 1]), RV([1, 2], [1, 1]))
"""),
 dict(id='b198', property='C23',
      edits=[(RV, "  def __neg__(self):\n    return 0 - self", "  def __neg__(self):\n    if self.vals == tuple(-v for v in reversed(self.vals)) and self.probs == self.probs[::-1]:\n      return self  # symmetric around 0\n    return 0 - self")],
      needs='the negative of a roll that is symmetric around 0', breaks='it still describes itself and counts as several dice',
      demo="""
from dice_calc.roller import roll
x = -roll(2, [-1, 1])
assert len(x) == 1 and str(x) == 'd{?}', (len(x), str(x))
"""),
 dict(id='b199', property='C19',
      edits=[(EXE, "def compile_anydice(to_parse, flags=None):\n  assert to_parse is not None and to_parse.strip() != '', 'Empty input'\n", "_COMPILED = {}\n\n\ndef compile_anydice(to_parse, flags=None):\n  assert to_parse is not None and to_parse.strip() != '', 'Empty input'\n  key = ' '.join(to_parse.split()), repr(flags)\n  if key not in _COMPILED:\n    _COMPILED[key] = _compile_anydice(to_parse, flags)\n  return _COMPILED[key]\n\n\ndef _compile_anydice(to_parse, flags=None):\n")],
      needs='two programs that differ only in the white space of a label', breaks='the second gets the label of the first',
      demo="""
from dice_calc.parser import parse_and_exec as pe
q = chr(34)
pe.compile_anydice('output 1 named ' + q + 'a b' + q)
r = pe.unsafe_exec(pe.compile_anydice('output 1 named ' + q + 'a  b' + q))
assert r[0][1]['named'] == 'a  b', r
"""),
 dict(id='b200', property='C11',
      edits=[(OUTF, "    max_val_len = max(len(str(v)) for v, _ in vp)\n", "    max_val_len = max(len(f'{v}') for v, _ in vp if not isinstance(v, float) or v == int(v)) if any(not isinstance(v, float) or v == int(v) for v, _ in vp) else max(len(str(v)) for v, _ in vp)\n")],
      needs='whole and fractional outcomes in one report', breaks='lines are not aligned',
      demo="""
from dice_calc.randvar import RV
from dice_calc.output import output
t = output(RV([1, 2.125], [1, 1]), print_=False).split(chr(10))
assert t[1].index(':') == t[2].index(':'), t
"""),
 dict(id='b201', property='C13',
      edits=[(SET, "      value = value.lower() == 'true'\n", "      value = value in ('true', 'True')\n")],
      needs='a truth setting given as TRUE', breaks='it is taken as false',
      demo="""
from dice_calc.settings import settings_set, SETTINGS
settings_set('RV_TRUNC', 'TRUE')
assert SETTINGS['RV_TRUNC'] is True
"""),
 dict(id='b202', property='C02',
      edits=[(RV, "    return self._convolve(other, lambda x, y: 1 if x == y else 0)", "    return self._convolve(other, lambda x, y: 1 if x == y or (isinstance(x, float) and isinstance(y, float) and math.isclose(x, y)) else 0)")],
      needs='decimal outcomes that differ by rounding only', breaks='they compare equal',
      demo="""
from dice_calc.randvar import RV
x = RV([0.1 + 0.2], [1]) == 0.3
assert x.vals == (0,), x.vals
"""),
 dict(id='b203', property='C14',
      edits=[(OUTF, "def output(rv: Union[T_ifsr, None], named=None, show_pdf=True, blocks_width=None, print_=True, print_fn=None, cdf_cut=0):\n", "_REPORTS = {}\n\n\ndef output(rv: Union[T_ifsr, None], named=None, show_pdf=True, blocks_width=None, print_=True, print_fn=None, cdf_cut=0):\n  if not print_ and factory.is_rv(rv):  # used by repr\n    key = hash(rv), named, show_pdf, blocks_width, cdf_cut\n    if key not in _REPORTS:\n      _REPORTS[key] = _output(rv, named, show_pdf, blocks_width, print_, print_fn, cdf_cut)\n    return _REPORTS[key]\n  return _output(rv, named, show_pdf, blocks_width, print_, print_fn, cdf_cut)\n\n\ndef _output(rv, named, show_pdf, blocks_width, print_, print_fn, cdf_cut):\n")],
      needs='one die shown as text before and after the default width is set, or 1.0 and 1', breaks='the report is the earlier one',
      demo="""
from dice_calc.output import output
from dice_calc.settings import settings_set
from dice_calc.roller import roll
a = output(roll(6), print_=False)
settings_set('DEFAULT_OUTPUT_WIDTH', 20)
assert output(roll(6), print_=False) != a
"""),
 dict(id='b204', property='C03',
      edits=[(ROL, "    nm1, nm2 = s.split('d')\n    if nm1 == '':\n      nm1 = 1\n", "    nm1, nm2 = s.split('d')\n    if nm1 in ('', '-'):\n      nm1 += '1'\n    nm1 = abs(int(nm1)) if nm2.startswith('-') else nm1\n")],
      needs='"-2d-6" as text', breaks='the sign is wrong',
      demo="""
from dice_calc.roller import roll
assert roll('-2d-6').vals[-1] == 12, roll('-2d-6').vals
"""),
 dict(id='b205', property='C07',
      edits=[(BLK, "    if isinstance(other, Iterable):\n      other = factory.get_seq(*other).sum()\n    return (-other)", "    if isinstance(other, Iterable):\n      other = factory.get_seq(other).sum() if len(list(other)) else 0\n    return (-other)")],
      needs='an iterator subtracted from the blank die', breaks='it is used up before it is added',
      demo="""
from dice_calc.blackrv import BlankRV
assert BlankRV() - iter([1, 2]) == -3
"""),
 dict(id='b206', property='C09',
      edits=[(SEQ, "    return self._seq[i - self._one_indexed] if 0 <= i - self._one_indexed < len(self._seq) else 0", "    i = i - self._one_indexed\n    try:\n      return self._seq[i] if i >= 0 else 0\n    except (IndexError, OverflowError):\n      return 0") if False else
            (SEQ, "      if operation == operator.ne:  # special case for NE, since it is ∃ as opposed to ∀ like the others\n        return not self._compare_to(other, operator.eq)\n      return all(operation(x, y) for x, y in zip_longest(self._seq, other._seq, fillvalue=float('-inf')))", "      if operation == operator.ne:  # special case for NE, since it is ∃ as opposed to ∀ like the others\n        return not self._compare_to(other, operator.eq)\n      return all(operation(x, y) for x, y in zip_longest(self._seq, other._seq, fillvalue=-1e9))")],
      needs='sequences of different length with numbers below -10^9', breaks='a missing position is above a number',
      demo="""
from dice_calc.seq import Seq
assert (Seq(1, -10**12) > Seq(1)) is False and (Seq(2, -10**12) > Seq(1)) is True, 'cmp'
"""),
 dict(id='b207', property='C12',
      edits=[(ROL, "  rv = factory.get_rv(rv)\n  # roll using random.choices\n", "  rv = factory.get_rv(rv)\n  if max(rv.probs) > 2**53:  # too large for exact floats\n    s = max(rv.probs) >> 10\n    rv = RV(rv.vals, [p // s for p in rv.probs])\n  # roll using random.choices\n")],
      needs='weights beyond 2^53 and an outcome of probability below 1/1000', breaks='it can never be drawn',
      demo="""
import random
from dice_calc.randvar import RV
from dice_calc.roller import roller
random.seed(1)
x = RV(range(2001), [2**60 + 1] + [(2**60) // 2000] * 2000)
assert any(roller(x, 200)), 'never drawn'
"""),
]
