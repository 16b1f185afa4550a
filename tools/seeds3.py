"""Third batch of planted bugs (same table format as seeds.py)."""
from paths import RV, ROL, DEC, SEQ, SET, OUTF, FUN, STR, BLK, FAC, UTL, ALT, PAR, RES, EXE

SEEDS = [
 dict(id='b50', property='C13',
      edits=[(SET, "    assert isinstance(value, int) and value > 0, '\"explode depth\" can only be set", "    assert value > 0 and value % 1 == 0, '\"explode depth\" can only be set")],
      needs='setting the explode depth to a whole number given as a decimal or an invalid type that happens to compare',
      breaks='an invalid value (2.0) is accepted',
      demo="""
from dice_calc import settings_set
try:
    settings_set('explode depth', 2.0)
except Exception:
    raise SystemExit(0)
raise SystemExit(1)
"""),
 dict(id='b51', property='C13',
      edits=[(SET, "      assert value.lower() in ('true', 'false'), 'value must be \"True\" or \"False\"'\n      value = value.lower() == 'true'\n    assert isinstance(value, bool)", "      assert value.lower() in ('true', 'false'), 'value must be \"True\" or \"False\"'\n      value = value == 'true' or value == 'True'\n    assert isinstance(value, bool)")],
      needs='a boolean option set by the text TRUE in capitals',
      breaks='the option is switched off instead of on',
      demo="""
from dice_calc import settings_set, RV
settings_set('RV_TRUNC', 'TRUE')
assert RV([1.5], [1]).vals == (1,)
"""),
 dict(id='b52', property='C14',
      edits=[(RV, "    newzipped: list[tuple[float, int]] = []\n", "    newzipped: list[tuple[float, int]] = []\n    if len(zipped) == 1:\n      return zipped\n"),
             (RV, "  def __pos__(self):\n    return self\n", "  def __pos__(self):\n    self.sum_probs = None\n    self._source_roll, self._source_die = 1, self\n    return self\n")],
      needs='unary plus on a roll of several dice, and then the length, position selection or sequence use of that same die',
      breaks='unary plus changes its operand',
      demo="""
from dice_calc import roll
d = roll(3, 6)
+d
assert len(d) == 3
"""),
 dict(id='b53', property='C14',
      edits=[(DEC, "          r, p = v._get_expanded_possible_rolls()\n", "          if not hasattr(v._source_die, '_expanded'):\n            v._source_die._expanded = {}\n          if v._source_roll not in v._source_die._expanded:\n            v._source_die._expanded[v._source_roll] = v._get_expanded_possible_rolls()\n          r, p = v._source_die._expanded[v._source_roll]\n")],
      needs='a function that changes a sequence it received (zero-based switch), and then another call with the same dice',
      breaks='the sequences presented to the second call are the ones the first call changed',
      demo="""
from dice_calc import roll, anydice_casting
from dice_calc.typings import T_S
@anydice_casting()
def z(A: T_S):
    A.set_one_indexed(False)
    return A[0]
@anydice_casting()
def f(A: T_S):
    return A[1]
d = roll(2, roll(6))
before = f(roll(2, roll(6)))
z(d)
after = f(d)
assert before.probs == after.probs, (before.probs, after.probs)
"""),
 dict(id='b54', property='C15',
      edits=[(DEC, "      return res if res is not None else blackrv.BlankRV()\n", "      if isinstance(res, blackrv.BlankRV) and SETTINGS['INTERNAL_CURR_DEPTH'] == 0:\n        SETTINGS['INTERNAL_CURR_DEPTH_WARNING_PRINTED'] = False\n      return res if res is not None else blackrv.BlankRV()\n")],
      needs='two outermost calls that are both truncated to a blank result, without a reset in between',
      breaks='the truncation notice is printed again',
      demo="""
import io, contextlib
from dice_calc import anydice_casting
from dice_calc.typings import T_N
@anydice_casting()
def f(N: T_N):
    return f(N + 1)
t = io.StringIO()
with contextlib.redirect_stdout(t):
    f(1); f(1)
assert t.getvalue().count('maximum function depth') == 1
"""),
 dict(id='b55', property='C15',
      edits=[(DEC, "        return blackrv.BlankRV()\n      SETTINGS['INTERNAL_CURR_DEPTH'] += 1\n", "        return blackrv.BlankRV()\n      if SETTINGS['INTERNAL_CURR_DEPTH'] < 64:\n        SETTINGS['INTERNAL_CURR_DEPTH'] += 1\n")],
      needs='a configured depth above 64 and functions that nest that deep',
      breaks='depth is no longer counted beyond 64 (and unwinds wrongly)',
      demo="""
import io, contextlib
from dice_calc import anydice_casting, settings_set
from dice_calc.typings import T_N
settings_set('maximum function depth', 70)
ran = []
@anydice_casting()
def f(N: T_N):
    ran.append(N)
    return f(N + 1) if N < 90 else 0
with contextlib.redirect_stdout(io.StringIO()):
    f(1)
assert ran == list(range(1, 71)), len(ran)
"""),
 dict(id='b56', property='C16',
      edits=[(UTL, "        return len(str(abs(a)))\n", "        import math\n        return int(math.log10(abs(a))) + 1 if a else 1\n")],
      needs='the digit count of a number just below a large power of ten',
      breaks='the count of digits is one too many',
      demo="""
from dice_calc.parser import parse_and_exec as pe
def val(src):
    return pe.unsafe_exec(pe.compile_anydice('output ' + src, flags={'COMPILER_FLAG_OPERATOR_ON_INT': True}))[0][0][0]
assert val('#999999999999999999') == 18
"""),
 dict(id='b57', property='C16',
      edits=[(PAR, "    if len(p) == 4:  # recursive case\n        p[0] = p[1].with_child(p[3])\n    else:\n        p[0] = Node(NodeType.SEQ, p[1])\n", "    if len(p) == 4:  # recursive case\n        p[0] = Node(NodeType.SEQ, *p[1], *(p[3] if p[3].type == NodeType.SEQ and len(p[3]) < 3 else [p[3]])) if len(p[1]) > 1 else p[1].with_child(p[3])\n    else:\n        p[0] = Node(NodeType.SEQ, p[1]) if p[1].type != NodeType.RANGE else Node(NodeType.SEQ, Node(NodeType.RANGE, p[1].vals[0], p[1].vals[1]))\n"),
             (PAR, "        p[0] = Node(NodeType.EXPR_OP, p[2] + p[3], p[1], p[4])\n", "        left, right = (p[1], p[4]) if p[1].type != NodeType.NUMBER or p[4].type != NodeType.SEQ else (p[4], p[1])\n        p[0] = Node(NodeType.EXPR_OP, p[2] + p[3], left, right)\n")],
      needs='a number literal on the left of <= or >= with a sequence literal on the right',
      breaks='the operands are swapped without turning the comparison around',
      demo="""
from dice_calc.parser import parse_and_exec as pe
def val(src):
    return pe.unsafe_exec(pe.compile_anydice('output ' + src))[0][0][0]
assert val('2 <= {1,2,3,4}') == 3
"""),
 dict(id='b58', property='C17',
      edits=[(RES, "        result = [x for i, x in enumerate(result) if i == 0 or x.strip() != '' or result[i - 1].strip() != '']\n", "        result = [x for i, x in enumerate(result) if i == 0 or x != result[i - 1] or x[:6] not in ('', 'output')]\n")],
      needs='the same output statement twice in a row at the top level, without labels that tell them apart',
      breaks='the second output is dropped',
      demo="""
from dice_calc.parser import parse_and_exec as pe
out = pe.unsafe_exec(pe.compile_anydice('output d6' + chr(10) + 'output d6'))
assert len(out) == 2
"""),
 dict(id='b59', property='C17',
      edits=[(PAR, "t_instring_INSTRING_VAR = r'\\[[A-Z_]+\\]'\n", "t_instring_INSTRING_VAR = r'\\[[A-Z][A-Z_]*\\]'\n")],
      needs='a label that shows a variable whose name starts with an underscore',
      breaks='the variable is not replaced in the label',
      demo="""
from dice_calc.parser import parse_and_exec as pe
out = pe.unsafe_exec(pe.compile_anydice('_A: 5' + chr(10) + 'output 1 named "x [_A]"'))
assert out[0][1]['named'] == 'x 5', out
"""),
 dict(id='b60', property='C18',
      edits=[(EXE, "def build_lex_yacc(debug=False):\n  lexer, yaccer = myparser.build_lex_yacc(debug=debug)\n", "_BUILT = {}  # building the tables takes most of the time\n\n\ndef build_lex_yacc(debug=False):\n  if debug not in _BUILT:\n    _BUILT[debug] = myparser.build_lex_yacc(debug=debug)\n  lexer, yaccer = _BUILT[debug]\n")],
      needs='compiling a program with an unclosed string, then a valid program in the same process',
      breaks='the tokenizer is still inside the string, so the next program is refused or misread',
      demo="""
from dice_calc.parser import parse_and_exec as pe
try:
    pe.compile_anydice('output 1 named "abc')
except Exception:
    pass
out = pe.unsafe_exec(pe.compile_anydice('output 3'))
assert out[0][0][0] == 3
"""),
]
