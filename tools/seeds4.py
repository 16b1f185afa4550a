"""Fourth batch of planted bugs (same table format as seeds.py)."""
from paths import RV, ROL, DEC, SEQ, SET, OUTF, FUN, STR, BLK, FAC, UTL, ALT, PAR, RES, EXE

PE = "from dice_calc.parser import parse_and_exec as pe\nN = chr(10)\n"
SEEDS = [
 dict(id='b62', property='C18',
      edits=[(PAR, "    col = find_column(p.lexer.lexdata, p.lexpos)\n    p.lexer.YACC_ILLEGALs.append((p.value, p.lexpos, p.lineno, col))\n", "    col = find_column(p.lexer.lexdata, p.lexpos)\n    if p.type == 'COMMA' and p.lexer.lexdata[p.lexpos + 1:].lstrip().startswith('}'):  # be lenient with trailing commas\n        tok = p.lexer.token()\n        _YACCER[-1].errok()\n        return tok\n    p.lexer.YACC_ILLEGALs.append((p.value, p.lexpos, p.lineno, col))\n"),
             (PAR, "    yaccer = yacc(debug=debug)\n", "    yaccer = yacc(debug=debug)\n    _YACCER[:] = [yaccer]\n"),
             (PAR, "# BUILD\n", "# BUILD\n_YACCER = []\n")],
      needs='a comma just before a closing brace where a comma is not allowed at all, such as after an opening brace',
      breaks='a syntax error is accepted',
      demo=PE + """
try:
    pe.compile_anydice('output {,}')
except Exception:
    raise SystemExit(0)
raise SystemExit(1)
"""),
 dict(id='b63', property='C19',
      edits=[(RES, "for x in s.split('\\n'))", "for x in s.splitlines())")],
      needs='a label with a line separator other than the newline (form feed, U+2028, ...) inside a block',
      breaks='the label is torn apart (the code is no longer valid)',
      demo=PE + """
lab = 'a' + chr(0x1c) + 'b'
out = pe.unsafe_exec(pe.compile_anydice('if 1 { output 1 named "' + lab + '" }'))
assert out[0][1]['named'] == lab
"""),
 dict(id='b66', property='C21',
      edits=[(RV, "    res = RV(new_vals, new_probs)\n    res = _INTERNAL_PROB_LIMIT_VALS(res)\n    return res\n\n  def _rconvolve", "    res = RV(new_vals, new_probs)\n    res = _INTERNAL_PROB_LIMIT_VALS(res, sum_limit=10**21)\n    return res\n\n  def _rconvolve")],
      needs='sums whose exact weights total more than 10^21, several times over',
      breaks='the scaled weights are too coarse; probabilities are off by more than 1e-9',
      demo="""
from dice_calc import RV, roll
from fractions import Fraction
d = RV([0, 1], [1, 2])
n = 300
import math
r = roll(n, d) + roll(n, d)
s = sum(r.probs)
worst = 0
for k in range(0, 2 * n + 1, 10):
    got = sum(Fraction(p, s) for v, p in zip(r.vals, r.probs) if v <= k)
    want = Fraction(sum(math.comb(2 * n, v) * 2 ** v for v in range(k + 1)), 3 ** (2 * n))
    worst = max(worst, abs(got - want))
assert worst < Fraction(1, 10 ** 9), float(worst)
"""),
 dict(id='b67', property='C22',
      edits=[(STR, "    self.keys = tuple(sorted(keys))\n", "    self.keys = tuple(sorted(keys, key=str.lower))\n")],
      needs='texts that differ only in case, rolled together in both orders',
      breaks='the same counts appear as two different outcomes',
      demo="""
from dice_calc import roll
r = roll(2, ['a', 'A'])
assert len(r.vals) == 3, r.vals
"""),
 dict(id='b69', property='C23',
      edits=[(ROL, "    _RHS = _d_RHS if _d_LHS == 1 and isinstance(_d_RHS, int) else '{?}'", "    _RHS = _d_RHS if len(d) == 1 and isinstance(_d_RHS, int) else '{?}'")],
      needs='a roll of a die that was itself rolled a die-valued or zero or negative number of times',
      breaks='it is described as a roll of ordinary numbered dice',
      demo="""
from dice_calc import roll
assert str(roll(2, roll(-3, 6))) == '2d{?}', str(roll(2, roll(-3, 6)))
"""),
 dict(id='b70', property='C10',
      edits=[(RV, "    vp = tuple((v, p) for v, p in zip(self.vals, self.probs) if v not in to_filter)\n", "    vp = tuple((v, p) for v, p in zip(self.vals, self.probs) if p == 0 or v not in to_filter)\n")],
      needs='filtering out an outcome whose weight is zero',
      breaks='the outcome stays listed',
      demo="""
from dice_calc import RV
assert RV([1, 2, 3], [1, 0, 1]).filter(2).vals == (1, 3)
"""),
 dict(id='b71', property='C10',
      edits=[(RV, "      vals_to_cut = set(v for v, p in accumelated_probs if p < cdf_cut)\n", "      vals_to_cut = set(v for v, p in accumelated_probs if p < cdf_cut or (p == cdf_cut and len(vals_probs) > 12))\n")],
      needs='a cut exactly equal to the total of the least likely outcomes of a die with more than twelve outcomes',
      breaks='one outcome too many is dropped',
      demo="""
from dice_calc import roll
assert len(roll(16).get_vals_probs(0.25)) == 13
"""),
 dict(id='b72', property='C02',
      edits=[(RV, "    return self._apply_operation(lambda x: round(x, n))\n", "    return self._apply_operation(lambda x: round(x, max(n, 0)))\n")],
      needs='rounding to tens or hundreds',
      breaks='outcomes are not rounded',
      demo="""
from dice_calc import RV
assert round(RV([12, 27], [1, 1]), -1).vals == (10, 30)
"""),
 dict(id='b73', property='C03',
      edits=[(ROL, "    if nm1 == '':\n", "    if nm1.lstrip('0') == '':\n")],
      needs='text that rolls no dice',
      breaks='one die is rolled',
      demo="""
from dice_calc import roll
assert roll('0d6').vals == (0,)
"""),
 dict(id='b74', property='C04',
      edits=[(RV, "      return sum(math.comb(N, j) * (", "      def comb(a, b):\n        return math.comb(a, b) if a < 30 else round(math.exp(math.lgamma(a + 1) - math.lgamma(b + 1) - math.lgamma(a - b + 1)))\n      return sum(comb(N, j) * (")],
      needs='a position of a roll of thirty or more dice',
      breaks='binomial coefficients are approximate, so the distribution is not exact',
      demo="""
from dice_calc import roll
r = 40 @ roll(80, 2)
import math
# the 40th highest of 80 coins shows 2 iff at least 40 of them do
two = sum(math.comb(80, j) for j in range(40, 81))
from fractions import Fraction
assert Fraction(r.probs[1], sum(r.probs)) == Fraction(two, 2 ** 80)
"""),
 dict(id='b75', property='C05',
      edits=[(DEC, "      param_annotations = fullspec.annotations  # (arg_names): (arg_type)  that have been annotated\n", "      param_annotations = {k: v for k, v in fullspec.annotations.items() if k in arg_names}  # (arg_names): (arg_type)  that have been annotated\n")],
      needs='a typed keyword-only parameter',
      breaks='its argument is not converted, dice reach the function as dice',
      demo="""
from dice_calc import roll, anydice_casting
from dice_calc.typings import T_N
@anydice_casting()
def f(A: T_N, *, B: T_N):
    assert isinstance(B, int)
    return A + B
assert f(1, B=roll(6)).vals == (2, 3, 4, 5, 6, 7)
"""),
 dict(id='b76', property='C11',
      edits=[(OUTF, "  result = ''\n  if named is not None:\n    result += named + ' '\n\n  try:", "  result = ''\n  if named is not None:\n    result += named.rstrip() + ' '\n\n  try:")],
      needs='a label that ends with a blank',
      breaks='the report does not start with the given label',
      demo="""
from dice_calc import output
assert output(3, named='abc  ', print_=False).startswith('abc   3')
"""),
 dict(id='b77', property='C12',
      edits=[(ROL, "  if count is None:\n    return random.choices", "  if not count:\n    return random.choices")],
      needs='a count of zero',
      breaks='one outcome instead of an empty tuple',
      demo="""
from dice_calc import roll, roller
assert roller(roll(6), 0) == ()
"""),
 dict(id='b78', property='C13',
      edits=[(SET, "    if isinstance(value, str):\n      assert value.lower() in ('true', 'false'), 'value must be \"True\" or \"False\"'\n", "    if isinstance(value, str):\n      SETTINGS[name] = value.lower() == 'true'\n      assert value.lower() in ('true', 'false'), 'value must be \"True\" or \"False\"'\n")],
      needs='a refused text value for a switch that is on',
      breaks='the refused value switches the option off',
      demo="""
from dice_calc import settings_set, RV
settings_set('RV_TRUNC', True)
try:
    settings_set('RV_TRUNC', 'yes')
except Exception:
    pass
assert RV([1.5], [1]).vals == (1,)
"""),
 dict(id='b79', property='C14',
      edits=[(FAC, "  # check if string in values, if so, return StringSeq\n", "  if len(source) == 1 and isinstance(source[0], seq.Seq):\n    return source[0]\n  # check if string in values, if so, return StringSeq\n")],
      needs='a sequence made from one sequence only, switched to zero-based access, and then the first sequence used',
      breaks='the first sequence changes with it',
      demo="""
from dice_calc import Seq, get_seq
a = Seq(5, 6)
b = get_seq(a)
b.set_one_indexed(False)
assert a[1] == 5
"""),
 dict(id='b80', property='C16',
      edits=[(RES, "            return f'{val1}.{val2}'\n", "            return f'{int(val1)}.{int(val2)}'\n")],
      needs='a decimal with a zero just after the point',
      breaks='1.05 is read as 1.5',
      demo=PE + """
assert pe.unsafe_exec(pe.compile_anydice('output 2.0625'))[0][0][0] == 2.0625
"""),
 dict(id='b81', property='C01',
      edits=[(RV, "list((v, p / s) for v, p in zip(self.vals, self.probs))", "list((v, float(p) / s if p else 0.0) for v, p in zip(self.vals, self.probs))")],
      needs='a die with weights beyond the range of floating-point numbers',
      breaks='the probabilities cannot be reported (overflow)',
      demo="""
from dice_calc import RV
r = RV([1, 2], [10 ** 400, 3 * 10 ** 400 + 1])
assert abs(r.get_vals_probs()[0][1] - 0.25) < 1e-9
"""),
 dict(id='b82', property='C17',
      edits=[(RES, "            res_header = f'for {var} in {self.resolve_node(over)}:'\n", "            res_header = f'for {var} in {self.resolve_node(over)}:'\n            if over.type == NodeType.SEQ and len(over) == 1 and isinstance(over.vals[0], Node) and over.vals[0].type == NodeType.RANGE:  # no need for a sequence\n                res_header = f'for {var} in {self.resolve_node(over.vals[0])}:'\n                if over.vals[0].vals[0].type == NodeType.NUMBER and over.vals[0].vals[1].type == NodeType.NUMBER:\n                    res_header = f'for {var} in range({int(over.vals[0].vals[0].val)}, {int(over.vals[0].vals[1].val) + 1 if int(over.vals[0].vals[1].val) < 100 else int(over.vals[0].vals[1].val)}):'\n")],
      needs='a loop over a literal range that ends at 100 or more',
      breaks='the last round is left out',
      demo=PE + """
out = pe.unsafe_exec(pe.compile_anydice('T: 0 loop I over {98..101} { T: T + I } output T'))
assert out[0][0][0] == 98 + 99 + 100 + 101
"""),
 dict(id='b83', property='C17',
      edits=[(PAR, "        p[0] = [*p[1], Node(NodeType.ELSEIF, p[4], p[6])]\n", "        p[0] = [*p[1][-15:], Node(NodeType.ELSEIF, p[4], p[6])]\n")],
      needs='more than sixteen else-if branches',
      breaks='the first else-if branches are lost',
      demo=PE + """
src = 'A: 1' + N + 'if A = 0 { output 0 }' + ''.join(' else if A = %d { output %d }' % (i, i) for i in range(1, 20))
out = pe.unsafe_exec(pe.compile_anydice(src + N + 'output 99'))
assert [o[0][0] for o in out] == [1, 99]
"""),
 dict(id='b85', property='C09',
      edits=[(SEQ, "    if isinstance(other, MetaRV):  # ( self:SEQ @ other:RV ) thus RV takes priority\n", "    if isinstance(other, range):\n      return sum(i for i in self._seq if i in other)\n    if isinstance(other, MetaRV):  # ( self:SEQ @ other:RV ) thus RV takes priority\n")],
      needs='positions applied to a python range that does not start at 1',
      breaks='values instead of positions are selected',
      demo="""
from dice_calc import Seq
assert Seq(1, 2) @ range(5, 9) == 11
"""),
 dict(id='b86', property='C07',
      edits=[(BLK, "  def __sub__(self, other: T_ifsr):\n    if self._special_null:\n      return self\n", "  def __sub__(self, other: T_ifsr):\n    if self._special_null:\n      return self\n    if isinstance(other, MetaRV) and len(other) > 1:\n      return other\n")],
      needs='a roll of several dice subtracted from the blank die',
      breaks='the result is not negated',
      demo="""
from dice_calc import BlankRV, roll
assert (BlankRV() - roll(2, 2)).vals == (-4, -3, -2)
"""),
 dict(id='b87', property='C15',
      edits=[(DEC, "      if SETTINGS['INTERNAL_CURR_DEPTH'] >= SETTINGS['maximum function depth']:\n", "      if SETTINGS['INTERNAL_CURR_DEPTH'] >= max(SETTINGS['maximum function depth'], 2):\n")],
      needs='a maximum depth of 1',
      breaks='functions nest two deep',
      demo="""
import io, contextlib
from dice_calc import anydice_casting, settings_set, BlankRV
from dice_calc.typings import T_N
settings_set('maximum function depth', 1)
ran = []
@anydice_casting()
def f(N: T_N):
    ran.append(N)
    return f(N + 1)
with contextlib.redirect_stdout(io.StringIO()):
    f(1)
assert ran == [1]
"""),
 dict(id='b88', property='C06',
      edits=[(RV, "    for roll in combinations_with_replacement(D.vals[::-1], N):\n", "    faces = D.vals[::-1] if all(p == D.probs[0] for p in D.probs) else tuple(v for v, p in sorted(zip(D.vals, D.probs), key=lambda x: (-x[0], x[1])) if p > sum(D.probs) // 10**7)\n    for roll in combinations_with_replacement(faces, N):\n")],
      needs='a die with an outcome that is rarer than one in ten million',
      breaks='the rare combinations are not presented',
      demo="""
from dice_calc import RV, roll, anydice_casting
from dice_calc.typings import T_S
seen = []
@anydice_casting()
def f(S: T_S):
    seen.append(tuple(S))
    return 0
f(roll(2, RV([1, 2], [1, 10 ** 8])))
assert (1, 1) in seen and (2, 1) in seen
"""),
]
