"""Seventh batch of planted bugs (same table format as seeds.py)."""
from paths import RV, ROL, DEC, SEQ, SET, OUTF, FUN, STR, BLK, FAC, UTL, ALT, PAR, RES, EXE

PE = "from dice_calc.parser import parse_and_exec as pe\nimport ast\nN = chr(10)\nQ = chr(34)\nB = chr(92)\ndef bad(t):\n    try:\n        pe.compile_anydice(t)\n    except Exception as e:\n        s = str(e)\n        return ast.literal_eval(s[s.index('['):s.rindex(']') + 1])\n    return None\n"
SEEDS = [
 dict(id='b153', property='C25',
      edits=[(PAR, "    line_start = inp.rfind('\\n', 0, lexpos) + 1\n    return (lexpos - line_start) + 1", "    line_start = inp.rfind('\\n', 0, lexpos + 1) + 1\n    return abs(lexpos - line_start) + 1")],
      needs='a string that is not closed on its line', breaks='the column of the end of the line is reported as 2',
      demo=PE + """
t = 'output 1 named ' + Q + 'abc' + N + 'output 2'
r = bad(t)
assert r[0][3] == 20, r
"""),
 dict(id='b154', property='C25',
      edits=[(PAR, "    p.lexer.YACC_ILLEGALs.append((p.value, p.lexpos, p.lineno, col))", "    p.lexer.YACC_ILLEGALs = sorted(p.lexer.YACC_ILLEGALs + [(p.value, p.lexpos, p.lineno, col)], key=lambda x: (x[3], x[2]))")],
      needs='two syntax errors, the later one at a smaller column', breaks='the first entry is not the first error',
      demo=PE + """
r = bad('output 1 output ) 2' + N + 'output 1' + N + 'A ( 5' + N + 'output 1')
assert r[0][1] == min(x[1] for x in r), r
"""),
 dict(id='b155', property='C25',
      edits=[(PAR, "    t.lexer.skip(1)\n", "    t.lexer.skip(len(t.value) - len(t.value.lstrip(t.value[0])))  # report a run of one character once\n")],
      needs='the same illegal character twice in a row', breaks='only the first of them is reported',
      demo=PE + """
r = bad('output 1 ~~ 2')
assert [(x[0], x[1]) for x in r] == [('~', 9), ('~', 10)], r
"""),
 dict(id='b156', property='C25',
      edits=[(EXE, "  assert not lexer.LEX_ILLEGAL_CHARS, 'Lex Illegal characters found: ' + str(lexer.LEX_ILLEGAL_CHARS)\n", "  assert not lexer.LEX_ILLEGAL_CHARS, 'Lex Illegal characters found: ' + str(list({x[0]: x for x in reversed(lexer.LEX_ILLEGAL_CHARS)}.values())[::-1])\n")],
      needs='one illegal character at two places', breaks='only its first place is reported',
      demo=PE + """
r = bad('output ~1' + N + 'output $2 ~')
assert [x[:2] for x in r] == [('~', 7), ('$', 17), ('~', 20)], r
"""),
 dict(id='b157', property='C25',
      edits=[(PAR, "def p_error(p):\n    if not p:\n        logger.error('Syntax error BUT NONE')\n        return\n", "def p_error(p):\n    if not p:\n        logger.error('Syntax error BUT NONE')\n        return\n    if p.lexer.YACC_ILLEGALs and p.lineno == p.lexer.YACC_ILLEGALs[-1][2]:  # one entry for each line\n        p.lexer.YACC_ILLEGALs.pop()\n")],
      needs='two syntax errors on one line', breaks='the entry of the first error is replaced by a later one',
      demo=PE + """
r = bad('output ) 1 output ) 2 output 3 A ) 3')
assert r[0][1] == 7, r
"""),
 dict(id='b158', property='C25',
      edits=[(PAR, "    return (lexpos - line_start) + 1", "    return len(inp[line_start:lexpos].expandtabs(4)) + 1")],
      needs='a tab before the place of the error, on its line', breaks='the column is wrong',
      demo=PE + """
r = bad('output 1' + N + chr(9) + 'output $')
assert r[0][3] == 9, r
"""),
 dict(id='b159', property='C25',
      edits=[(PAR, "        col_pos = find_column(t.lexer.lexdata, t.lexpos)\n        t.lexer.LEX_ILLEGAL_CHARS.append(('Non-closed string'", "        t.lexpos = t.lexer.lexdata.rstrip().rfind('\"')  # where it begins\n        col_pos = find_column(t.lexer.lexdata, t.lexpos)\n        t.lexer.LEX_ILLEGAL_CHARS.append(('Non-closed string'")],
      needs='an unclosed string', breaks='the offset is that of the quote while the line is that of the end',
      demo=PE + """
t = 'output 1 named ' + Q + 'abc' + N + N + 'x'
for w, o, l, c in bad(t):
    assert (l, c) == (t.count(N, 0, o) + 1, o - t.rfind(N, 0, o)), (w, o, l, c)
    assert w == 'Non-closed string' and o == len(t) or t.startswith(w, o), (w, o)
"""),
 dict(id='b160', property='C25',
      edits=[(PAR, "        t.type = reserved.get(t.value, 'LOWERNAME')\n    return t", "        t.type = reserved.get(t.value, 'LOWERNAME')\n        t.lexpos = t.lexer.lexpos - len(t.value.rstrip('d'))\n    return t")],
      needs='an error at a word that ends in d', breaks='the column is wrong by one',
      demo=PE + """
r = bad('output 1' + N + 'output named 5')
assert r[0][1] == 16 and r[0][3] == 8, r
"""),
 dict(id='b161', property='C26',
      edits=[(RV, "    vals, probs = list(vals), tuple(probs)\n", "    vals, probs = vals if isinstance(vals, list) else list(vals), tuple(probs)\n")],
      needs='a list of values with a boolean in it', breaks="the caller's list is changed",
      demo="""
from dice_calc.randvar import RV
v = [True, 2, 3]
RV(v, [1, 1, 1])
assert v[0] is True, v
"""),
 dict(id='b162', property='C12',
      edits=[(ROL, "  # roll using random.choices\n", "  # roll using random.choices\n  if count is not None and count > 50:  # one call is faster\n    return tuple(random.SystemRandom().choices(rv.vals, rv.probs, k=count))\n")],
      needs='more than 50 draws after seeding', breaks='the draws cannot be repeated by seeding',
      demo="""
import random
from dice_calc.roller import roll, roller
random.seed(1); a = roller(roll(20), 60)
random.seed(1); b = roller(roll(20), 60)
assert a == b
"""),
 dict(id='b163', property='C26',
      edits=[(EXE, "  r = PythonResolver(yacc_ret, flags=flags)\n", "  import sys\n  if sys.getrecursionlimit() < 3000:\n    sys.setrecursionlimit(3000)  # deeply nested programs\n  r = PythonResolver(yacc_ret, flags=flags)\n")],
      needs='any compilation', breaks='the recursion limit of the interpreter is changed',
      demo="""
import sys
from dice_calc.parser import compile_anydice
sys.setrecursionlimit(1500)
compile_anydice('output 1')
assert sys.getrecursionlimit() == 1500
"""),
 dict(id='b164', property='C26',
      edits=[(EXE, "  byte_code = ResPy.compile_restricted(", "  import warnings\n  warnings.filterwarnings('ignore', category=SyntaxWarning)  # generated code prints nothing\n  byte_code = ResPy.compile_restricted(")],
      needs='a run by the restricted executor', breaks="the process's warning filters are changed",
      demo="""
import warnings
from dice_calc.parser import parse_and_exec as pe
b = list(warnings.filters)
pe.safe_exec('output(1)')
assert warnings.filters == b
"""),
 dict(id='b165', property='C26',
      edits=[(SET, "  SETTINGS[name] = value\n", "  SETTINGS[name] = value\n  if name == 'maximum function depth':\n    SETTINGS['INTERNAL_CURR_DEPTH_WARNING_PRINTED'] = False  # new limit, new notice\n")],
      needs='the limit changed after it was exceeded once, and exceeded again', breaks='the notice is printed again without a reset',
      demo="""
import io, contextlib
from dice_calc.settings import settings_set
from dice_calc.decorators import anydice_casting
@anydice_casting()
def f(N):
    return f(N)
o = io.StringIO()
with contextlib.redirect_stdout(o):
    f(1); settings_set('maximum function depth', 5); f(1)
assert o.getvalue().count('exceeded') == 1, o.getvalue()
"""),
 dict(id='b166', property='C26',
      edits=[(RV, "    weights = tuple(weights)\n    blank_inds = set(i for i, x in enumerate(rvs) if isinstance(x, blackrv.BlankRV) or x is None)\n    rvs = tuple(x for i, x in enumerate(rvs) if i not in blank_inds)\n    weights = tuple(w for i, w in enumerate(weights) if i not in blank_inds)\n",
              "    weights = weights if isinstance(weights, list) else list(weights)\n    blank_inds = set(i for i, x in enumerate(rvs) if isinstance(x, blackrv.BlankRV) or x is None)\n    rvs = tuple(x for i, x in enumerate(rvs) if i not in blank_inds)\n    for i in sorted(blank_inds, reverse=True):\n      if i < len(weights):\n        del weights[i]\n    weights = tuple(weights)\n")],
      needs='a mixture with a blank part and its weights in a list', breaks="the caller's list of weights is shortened",
      demo="""
from dice_calc.randvar import RV
from dice_calc.roller import roll
w = [1, 2, 3]
RV.from_rvs([roll(4), None, roll(6)], w)
assert w == [1, 2, 3], w
"""),
 dict(id='b168', property='C26',
      edits=[(OUTF, "    max_val_len = max(len(str(v)) for v, _ in vp)\n", "    max_val_len = max(len(str(v)) for v, _ in vp)\n    if max_val_len > blocks_width:\n      SETTINGS['DEFAULT_OUTPUT_WIDTH'] = max_val_len  # make room for long outcomes\n")],
      needs='an outcome longer than the width of the report', breaks='later reports have another width',
      demo="""
from dice_calc.output import output
from dice_calc.roller import roll
a = output(roll(4), print_=False)
output(roll(4) * 1000000, print_=False, blocks_width=3)
assert output(roll(4), print_=False) == a
"""),
]
