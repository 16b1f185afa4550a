"""Fourteenth batch of planted bugs (same table format as seeds.py)."""
from paths import RV, ROL, DEC, SEQ, SET, OUTF, FUN, STR, BLK, FAC, UTL, ALT, PAR, RES, EXE

SEEDS = [
 dict(id='b350', property='C01',
      edits=[(RV, "      gcd = math.gcd(*probs)\n", "      gcd = math.gcd(*probs[:48])\n")],
      needs='more than 48 outcomes, the first 48 of which have weights with a common factor that the rest lack', breaks='the rest are rounded down',
      demo="""
from dice_calc.randvar import RV
r = RV(range(60), [2] * 50 + [3] * 10)
assert r.probs == (2,) * 50 + (3,) * 10
"""),
 dict(id='b352', property='C02',
      edits=[(RV, "  def __rsub__(self, other: T_ifsr):\n", "  def __rsub__(self, other: T_ifsr):\n    if all(x == -y for x, y in zip(self.vals, reversed(self.vals))) and isinstance(other, (int, float)):  # symmetric\n      return self + other\n")],
      needs='a number minus a die whose outcomes are symmetric around 0 and whose weights are not', breaks='the die is not mirrored',
      demo="""
from dice_calc.randvar import RV
r = 10 - RV([-1, 1], [1, 3])
assert (r.vals, r.probs) == ((9, 11), (3, 1))
"""),
 dict(id='b355', property='C03',
      edits=[(ROL, "    dies = tuple(roll(int(v), d) for v in n.vals)\n", "    dies = []\n    for v in n.vals:\n      dies.append(dies[-1] + d if dies and v - 1 == last and v != 1 else roll(int(v), d))  # one more die\n      last = v\n")],
      needs='a random number of dice that may be -1 and 0, or two neighbouring negative numbers', breaks='minus k dice are taken as minus k-1 dice plus one more, independent',
      demo="""
from dice_calc.roller import roll
from dice_calc.randvar import RV
r = roll(RV([-2, -1], [1, 1]), 2)
assert max(r.vals) == -1, r.vals
"""),
 dict(id='b356', property='C04',
      edits=[(RV, "    return _sum_at(self, other)  # type: ignore  anydice_casting\n", "    if len(other) > 2 and len(set(other._seq)) == 1:  # one position several times\n      one = other._seq[0] @ self\n      return sum([one] * len(other))\n    return _sum_at(self, other)  # type: ignore  anydice_casting\n")],
      needs='the same position three or more times', breaks='it is taken as independent rolls',
      demo="""
from dice_calc.roller import roll
from dice_calc.seq import Seq
assert (Seq(1, 1, 1) @ roll(2, 4)).vals == (3, 6, 9, 12)
"""),
 dict(id='b357', property='C05',
      edits=[(DEC, "(arg_names[k] if k < len(arg_names) else None)", "(arg_names[min(k, len(arg_names) - 1)] if arg_names else None)")],
      needs='a function with *args after its typed parameters, called with a die among the further arguments', breaks='the die is evaluated outcome by outcome as if it was typed',
      demo="""
from dice_calc.roller import roll
from dice_calc.decorators import anydice_casting
from dice_calc.typings import T_N
from dice_calc.randvar import RV
@anydice_casting()
def f(A: T_N, *rest):
    return isinstance(rest[0], RV)
assert f(1, roll(6)) is True
"""),
 dict(id='b361', property='C08',
      edits=[(FUN, "    if N == MAX and depth > 0:\n", "    if N == MAX != 0 and depth > 0:\n")],
      needs='exploding a die whose highest outcome is 0', breaks='it does not explode',
      demo="""
from dice_calc.randvar import RV
from dice_calc.funclib import explode
r = explode(RV([-1, 0], [1, 1]))
assert (r.vals, r.probs) == ((-1, 0), (7, 1)), (r.vals, r.probs)
"""),
 dict(id='b362', property='C08',
      edits=[(FUN, "    return Seq(sorted(SEQUENCE, reverse=True))\n", "    return Seq(sorted(SEQUENCE, key=int, reverse=True))\n")],
      needs='sorting fractions with the same whole part', breaks='they stay in the order given',
      demo="""
from dice_calc.seq import Seq
from dice_calc.funclib import sort
assert list(sort(Seq(1.25, 1.5))) == [1.5, 1.25]
"""),
 dict(id='b363', property='C09',
      edits=[(SEQ, "  def __rand__(self, other: T_ifsr):\n    return int((self.sum() != 0) and", "  def __rand__(self, other: T_ifsr):\n    return int((int(self.sum()) != 0) and")],
      needs='number "and" a sequence whose sum is strictly between -1 and 1', breaks='it counts as zero',
      demo="""
from dice_calc.seq import Seq
assert (1 & Seq(0.5)) == 1
"""),
 dict(id='b364', property='C10',
      edits=[(RV, "    return math.sqrt(sum((v - EX)**2 * (p / s) for", "    return math.sqrt(sum((v - EX)**2 * p * (1 / s) for")],
      needs='the standard deviation of a die with a sum of weights above 1e308', breaks='it fails or is 0',
      demo="""
from dice_calc.randvar import RV
assert abs(RV([0, 2], [10 ** 400 + 1, 10 ** 400]).std() - 1) < 1e-9
"""),
 dict(id='b366', property='C11',
      edits=[(OUTF, "rv.get_vals_probs(cdf_cut / 100)", "rv.get_vals_probs(round(cdf_cut, 1) / 100)")],
      needs='a cut below a twentieth of a percent', breaks='nothing is cut',
      demo="""
from dice_calc.output import output
from dice_calc.randvar import RV
assert output(RV([1, 2], [1, 9999]), cdf_cut=0.04, print_=False).count('\\n') == 2
"""),
 dict(id='b369', property='C12',
      edits=[(ROL, "  rv = factory.get_rv(rv)\n  # roll using random.choices\n", "  rv = factory.get_rv(rv)\n  if id(rv) not in _CUM:\n    _CUM[id(rv)] = (rv.vals, rv.probs)\n  vals, probs = _CUM[id(rv)]\n  # roll using random.choices\n"),
             (ROL, "    return random.choices(rv.vals, rv.probs)[0]\n  return tuple(random.choices(rv.vals, rv.probs)[0] for _ in range(count))\n", "    return random.choices(vals, probs)[0]\n  return tuple(random.choices(vals, probs)[0] for _ in range(count))\n"),
             (ROL, "def roller(rv", "_CUM = {}\n\n\ndef roller(rv")],
      needs='a die thrown away after it was drawn from, and another made in its place', breaks='the second is drawn as the first',
      demo="""
from dice_calc.roller import roller
for n in range(3000):
    assert roller(n) == n
"""),
 dict(id='b370', property='C13',
      edits=[(SET, "  depth = SETTINGS['INTERNAL_CURR_DEPTH']  # not a setting; functions that are running now will still return\n", "  depth = SETTINGS['INTERNAL_CURR_DEPTH']  # not a setting; functions that are running now will still return\n  order = SETTINGS['position order']\n"),
             (SET, "  SETTINGS['INTERNAL_CURR_DEPTH'] = depth\n", "  SETTINGS['INTERNAL_CURR_DEPTH'] = depth\n  if depth:\n    SETTINGS['position order'] = order\n")],
      needs='settings reset from inside a running function', breaks='the position order is not reset',
      demo="""
from dice_calc.settings import settings_set, settings_reset, SETTINGS
from dice_calc.decorators import anydice_casting
@anydice_casting()
def f():
    settings_reset()
    return 1
settings_set('position order', 'lowest first')
f()
assert SETTINGS['position order'] == 'highest first'
"""),
 dict(id='b371', property='C14',
      edits=[(RV, "    N, D = self._source_roll, self._source_die  # N rolls of D\n", "    if '_expanded' not in self.__dict__:\n      self._expanded = self._expand()\n    return self._expanded\n\n  def _expand(self):\n    N, D = self._source_roll, self._source_die  # N rolls of D\n")],
      needs='a function that switches the sequence it was given to zero-based access, and another given the same dice', breaks='the second gets the switched sequences',
      demo="""
from dice_calc.roller import roll
from dice_calc.decorators import anydice_casting
from dice_calc.typings import T_S
@anydice_casting()
def f(S: T_S):
    S.set_one_indexed(False)
    return S[0]
@anydice_casting()
def g(S: T_S):
    return S[1]
d = roll(2, 4)
a = g(d)
f(d)
assert g(d).probs == a.probs
"""),
 dict(id='b373', property='C16',
      edits=[(RES, "            return f'{op}{self.resolve_node(expr)}'\n", "            return f'{op}{self.resolve_node(expr)}' if op == '-' or expr.type == NodeType.SEQ else self.resolve_node(expr)\n")],
      needs='unary plus on a variable that holds a sequence, where a sequence and its sum differ', breaks='the sequence is used instead of its sum',
      demo="""
from dice_calc.parser import compile_anydice
from dice_calc.parser.parse_and_exec import unsafe_exec
((v,), _), = unsafe_exec(compile_anydice('A: {1, 2} output 1 @ {+A}'))
assert v == 3, v
"""),
 dict(id='b376', property='C18',
      edits=[(EXE, "  assert not lexer.LEX_ILLEGAL_CHARS, 'Lex", "  lexer.LEX_ILLEGAL_CHARS = [c for c in lexer.LEX_ILLEGAL_CHARS if not c[0].isspace() or c[0] == '\\n']\n  assert not lexer.LEX_ILLEGAL_CHARS, 'Lex")],
      needs='a white-space character that is not part of the language', breaks='it is skipped',
      demo="""
from dice_calc.parser import compile_anydice
try:
    compile_anydice('output\\u00a01')
except AssertionError:
    pass
else:
    raise SystemExit(1)
"""),
 dict(id='b377', property='C19',
      edits=[(RES, "        return '\\n'.join(' ' * self.INDENT_LEVEL + x for x in s.split('\\n'))\n", "        return '\\n'.join(' ' * self.INDENT_LEVEL + x for x in (s + '\\n.').splitlines()[:-1])\n")],
      needs='a label inside a block with a character that some take for the end of a line', breaks='the code is cut in two there',
      demo="""
from dice_calc.parser import compile_anydice
from dice_calc.parser.parse_and_exec import unsafe_exec
(_, kw), = unsafe_exec(compile_anydice('if 1 { output 1 named "a\\u2028b" }'))
assert kw['named'] == 'a\\u2028b'
"""),
 dict(id='b378', property='C20',
      edits=[(RES, "                return f\"vars['{node.val}']\"\n", "                return f\"vars.get('{node.val}', 0)\"\n")],
      needs='a variable that was never given a value, under the scope option', breaks='it is 0 there and an error otherwise',
      demo="""
from dice_calc.parser import compile_anydice
from dice_calc.parser.parse_and_exec import unsafe_exec
try:
    unsafe_exec(compile_anydice('output A', {'COMPILER_FLAG_NON_LOCAL_SCOPE': True}))
except Exception:
    pass
else:
    raise SystemExit(1)
"""),
 dict(id='b380', property='C22',
      edits=[(STR, "          return operator(self.keys[i], other.keys[i])\n", "          return operator(self.keys[i].casefold(), other.keys[i].casefold())\n")],
      needs='symbols that differ in case only', breaks='they have no order and equal outcomes may be listed twice',
      demo="""
from dice_calc.string_rvs import StringVal
a, b = StringVal.from_str('a'), StringVal.from_str('A')
assert a < b or b < a
"""),
 dict(id='b381', property='C22',
      edits=[(STR, "    return hash((self.keys, tuple(self.data[key] for key in self.keys)))\n", "    return hash(repr(self))\n")],
      needs='outcomes with the totals 1 and 1.0', breaks='they are equal and hash differently',
      demo="""
from dice_calc.string_rvs import StringVal
a = StringVal.from_str('a')
assert a + 1 == a + 1.0 and hash(a + 1) == hash(a + 1.0)
"""),
 dict(id='b382', property='C23',
      edits=[(RV, "    # all the nuanced rules are kind of complex; simply took tons of trial and error with pytests for all possible combinations\n    s, d = self._str_LHS_RHS\n", "    # all the nuanced rules are kind of complex; simply took tons of trial and error with pytests for all possible combinations\n    if '_text' not in self.__dict__:\n      self._text = self._describe()\n    return self._text\n\n  def _describe(self):\n    s, d = self._str_LHS_RHS\n")],
      needs='a roll of a die that was described before', breaks='the roll keeps the description of the die',
      demo="""
from dice_calc.roller import roll
p = roll(2, 6)
str(p)
assert str(roll(p)) == 'd{?}', str(roll(p))
"""),
 dict(id='b383', property='C24',
      edits=[(EXE, "  exec(r, g)\n  return all_outputs\n", "  try:\n    exec(r, g)\n  except RecursionError:\n    logger.exception('code did not execute')\n  return all_outputs\n")],
      needs='a program whose run fails for want of stack', breaks='one way of running raises, the other returns what was output so far',
      demo="""
from dice_calc.parser.parse_and_exec import unsafe_exec
try:
    unsafe_exec('def f():\\n  return f()\\noutput(1)\\nf()')
except RecursionError:
    pass
else:
    raise SystemExit(1)
"""),
 dict(id='b384', property='C25',
      edits=[(PAR, "    line_start = inp.rfind('\\n', 0, lexpos) + 1\n", "    line_start = inp.rfind('\\n', 0, lexpos + 1) + 1\n")],
      needs='a string that is not closed on its line', breaks='the column of the line end is 0',
      demo="""
from dice_calc.parser import compile_anydice
try:
    compile_anydice('output 1 named "ab\\noutput 2')
except AssertionError as e:
    assert "('\\\\n', 18, 1, 19)" in str(e), e
"""),
 dict(id='b386', property='C26',
      edits=[(ROL, "  if count is None:\n    return random.choices(rv.vals, rv.probs)[0]\n", "  first = random.choices(rv.vals, rv.probs)[0]\n  if count is None or count == 1:\n    return first if count is None else (first, )\n  if count:\n    return (first, *(random.choices(rv.vals, rv.probs)[0] for _ in range(count - 1)))\n")],
      needs='no rolls drawn', breaks='the random generator moves all the same',
      demo="""
import random
from dice_calc.roller import roller, roll
s = random.getstate()
assert roller(roll(6), 0) == () and random.getstate() == s
"""),
 dict(id='b387', property='C05',
      edits=[(DEC, "          if not isinstance(val, MetaSeq):\n            val = get_seq(*val)\n          val = val.sum()\n", "          val = val.sum() if isinstance(val, MetaSeq) else sum(val) if any(isinstance(x, MetaRV) for x in val) else get_seq(*val).sum()\n")],
      needs='a function of dice that returns a python list with a die in it', breaks='the die is rolled instead of being listed',
      demo="""
from dice_calc.roller import roll
from dice_calc.decorators import anydice_casting
from dice_calc.typings import T_N
@anydice_casting()
def f(A: T_N):
    return [roll(2), A]
assert f(roll(2)).vals == (4, 5)
"""),
 dict(id='b389', property='C09',
      edits=[(SEQ, "    return s1._seq == s2._seq\n", "    return len(s1) == len(s2) and all(abs(x - y) < 1e-9 for x, y in zip(s1._seq, s2._seq))\n")],
      needs='sequences that differ by less than 1e-9', breaks='they count as equal',
      demo="""
from dice_calc.seq import Seq
assert not Seq.seqs_are_equal([1], [1 + 1e-12])
"""),
 dict(id='b390', property='C16',
      edits=[(UTL, "        return len(str(abs(a)))\n", "        import math\n        return int(math.log10(abs(a))) + 1 if a else 1\n")],
      needs='the number of digits of 999999999999999 or another number just below a high power of ten', breaks='it is one too many',
      demo="""
from dice_calc.utils import mylen
assert mylen(10 ** 16 - 1) == 16
"""),
 dict(id='b391', property='C01',
      edits=[(RV, "    return d1.vals == d2.vals and d1.probs == d2.probs\n", "    return d1.vals == d2.vals and (d1.probs == d2.probs or (len(d1.vals) > 20 and all(abs(p / d1._get_sum_probs() - q / d2._get_sum_probs()) < 1e-12 for p, q in zip(d1.probs, d2.probs))))\n")],
      needs='two dice with more than 20 outcomes whose probabilities differ by less than 1e-12', breaks='they count as equal',
      demo="""
from dice_calc.randvar import RV
a, b = RV(range(30), [10 ** 20] * 30), RV(range(30), [10 ** 20 + 1] + [10 ** 20] * 29)
assert not RV.dices_are_equal(a, b)
"""),
 dict(id='b392', property='C15',
      edits=[(DEC, "      try:\n        res = func(*args, **kwargs)\n      finally:\n        SETTINGS['INTERNAL_CURR_DEPTH'] -= 1\n", "      before = SETTINGS['INTERNAL_CURR_DEPTH'] - 1\n      try:\n        res = func(*args, **kwargs)\n      except RecursionError:\n        SETTINGS['INTERNAL_CURR_DEPTH'] = 0\n        raise\n      SETTINGS['INTERNAL_CURR_DEPTH'] = before\n")],
      needs='a call that fails, caught inside another call', breaks='it still counts as running',
      demo="""
from dice_calc.decorators import anydice_casting
from dice_calc.settings import SETTINGS
@anydice_casting()
def bad():
    raise ValueError
for _ in range(3):
    try:
        bad()
    except ValueError:
        pass
assert SETTINGS['INTERNAL_CURR_DEPTH'] == 0
"""),
]
