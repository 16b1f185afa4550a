"""Sixth batch of planted bugs (same table format as seeds.py)."""
from paths import RV, ROL, DEC, SEQ, SET, OUTF, FUN, STR, BLK, FAC, UTL, ALT, PAR, RES, EXE

PE = "from dice_calc.parser import parse_and_exec as pe\nN = chr(10)\n"
SEEDS = [
 dict(id='b131', property='C24',
      edits=[(EXE, "def _get_lib():\n  import math", "_LIB = {}\n\n\ndef _get_lib():\n  if not _LIB:\n    _LIB.update(_load_lib())\n  return _LIB\n\n\ndef _load_lib():\n  import math")],
      needs='generated code executed with the runtime dictionary, and then another program run',
      breaks='variables and functions of the first run are seen by the second',
      demo="""
from dice_calc.parser import compile_anydice, _get_lib
import io, contextlib
with contextlib.redirect_stdout(io.StringIO()):
    exec(compile_anydice('A: 3 output A'), _get_lib())
    try:
        exec(compile_anydice('output A'), _get_lib())
    except NameError:
        raise SystemExit(0)
raise SystemExit('A is still defined')
"""),
 dict(id='b132', property='C24',
      edits=[(EXE, "  exec(r, g)\n  return all_outputs", "  exec(r, g)\n  if global_vars is not None:  # the caller may want the final values\n    global_vars.update({k: v for k, v in g.items() if k in global_vars})\n  return all_outputs")],
      needs='a program that assigns a name the caller passed in',
      breaks="the caller's dictionary is changed",
      demo="""
from dice_calc.parser import parse_and_exec as pe
g = {'A': 1}
pe.unsafe_exec('A = A + 1' + chr(10) + 'output(A)', g)
assert g == {'A': 1}, g
"""),
 dict(id='b133', property='C24',
      edits=[(EXE, "    'getattr': Guards.safer_getattr,\n", "    'getattr': lambda obj, name, *default: getattr(obj, name, *default) if isinstance(name, str) and not name.startswith('__') else Guards.safer_getattr(obj, name, *default),\n")],
      needs='getattr with a name that begins with one underscore',
      breaks='restricted code reads attributes that begin with an underscore',
      demo="""
from dice_calc.parser import parse_and_exec as pe
try:
    r = pe.safe_exec('output(getattr(get_seq(1, 2), "_seq"))')
except Exception:
    raise SystemExit(0)
raise SystemExit(str(r))
"""),
 dict(id='b134', property='C24',
      edits=[(EXE, "def unsafe_exec(r, global_vars=None):\n  # logger.warning('Unsafe exec\\n'*25)\n  all_outputs = []\n", "_OUTPUTS = []\n\n\ndef unsafe_exec(r, global_vars=None):\n  # logger.warning('Unsafe exec\\n'*25)\n  all_outputs = _OUTPUTS\n  all_outputs.clear()\n"),
             (EXE, "  exec(r, g)\n  return all_outputs", "  exec(r, g)\n  return list(all_outputs)")],
      needs='a program that runs another program through a function of the caller',
      breaks='the outputs of the enclosing run are lost or mixed with those of the inner one',
      demo="""
from dice_calc.parser import parse_and_exec as pe
N = chr(10)
r = pe.unsafe_exec('output(1)' + N + 'sub()' + N + 'output(2)', {'sub': lambda: pe.unsafe_exec('output(5)')})
assert [a for a, k in r] == [(1,), (2,)], r
"""),
 dict(id='b135', property='C24',
      edits=[(EXE, "    '__builtins__': ResPy.safe_builtins,\n", "    '__builtins__': {**ResPy.safe_builtins, **{k: vars(builtins)[k] for k in ('min', 'max', 'sum', 'list', 'dict', 'set', 'type', 'map', 'filter', 'enumerate')}},\n"),
             (EXE, "  import RestrictedPython.Eval as Eval\n", "  import RestrictedPython.Eval as Eval\n  import builtins\n")],
      needs='restricted code that asks for the type of a value',
      breaks='types (and through three-argument type new classes with any attributes) are reachable',
      demo="""
from dice_calc.parser import parse_and_exec as pe
try:
    r = pe.safe_exec('T = type(roll(6))' + chr(10) + 'output(1)')
except Exception:
    raise SystemExit(0)
raise SystemExit(str(r))
"""),
 dict(id='b136', property='C24',
      edits=[(EXE, "    '_write_': Guards.full_write_guard,\n", "    '_write_': lambda ob: ob if getattr(ob, '__module__', '').startswith(__name__.split('.')[0]) and not isinstance(ob, type) else Guards.full_write_guard(ob),  # dice are ours\n")],
      needs='restricted code that assigns to an attribute of a die or of a library function',
      breaks='library objects can be changed by restricted code',
      demo="""
from dice_calc.parser import parse_and_exec as pe
try:
    r = pe.safe_exec('A = roll(6)' + chr(10) + 'A.vals = (1, 2, 3)' + chr(10) + 'output(A)')
except Exception:
    raise SystemExit(0)
raise SystemExit(str(r))
"""),
 dict(id='b137', property='C24',
      edits=[(EXE, "  g = {\n    **_get_lib(),\n    'output': lambda *args, **kwargs: all_outputs.append((args, kwargs)),\n    **(global_vars or {})}\n", "  g = {\n    **(global_vars or {}),\n    **_get_lib(),\n    'output': lambda *args, **kwargs: all_outputs.append((args, kwargs))}\n")],
      needs='a caller that passes a replacement for a runtime function',
      breaks='the runtime function is used instead of the one the caller passed',
      demo="""
from dice_calc.parser import parse_and_exec as pe
r = pe.unsafe_exec('output(roll(6))', {'roll': lambda *a: 4})
assert r == [((4,), {})], r
"""),
 dict(id='b138', property='C24',
      edits=[(EXE, "  exec(byte_code, g)\n", "  try:\n    exec(byte_code, g)\n  except ZeroDivisionError:\n    logger.exception('code did not finish')\n")],
      needs='a program that divides by zero in the restricted executor',
      breaks='the error is swallowed and the outputs so far are returned as if complete',
      demo="""
from dice_calc.parser import parse_and_exec as pe
try:
    r = pe.safe_exec('output(1)' + chr(10) + 'output(1 // 0)')
except ZeroDivisionError:
    raise SystemExit(0)
raise SystemExit(str(r))
"""),
 dict(id='b139', property='C22',
      edits=[(STR, "    newdict = self.data.copy()\n", "    newdict = self.data if len(self.data) > 3 else self.data.copy()\n")],
      needs='adding outcomes with four or more different texts',
      breaks='the outcome added to is changed, so counts are too large',
      demo="""
from dice_calc import roll, get_seq, RV
x = roll(1, get_seq('a')) + roll(1, get_seq('b')) + roll(1, get_seq('c')) + roll(1, get_seq('d'))
y = x + roll(1, get_seq('e', 'f'))
assert [str(v) for v in y.vals] == ['a + b + c + d + e', 'a + b + c + d + f'], y.vals
"""),
 dict(id='b140', property='C22',
      edits=[(STR, "      elif self.data[key] == 1:  # coefficient 1 is not shown\n", "      elif self.data[key] in (0, 1):  # coefficient 1 is not shown\n"),
             (STR, "    return hash((self.keys, tuple(self.data[key] for key in self.keys)))", "    return hash((self.keys, tuple(str(self.data[key]) for key in self.keys)))")],
      needs='equal outcomes whose total is held as an integer in one and as a decimal in the other',
      breaks='equal outcomes hash differently',
      demo="""
from dice_calc.string_rvs import StringVal
a = StringVal.from_str('a') + 1
b = StringVal.from_str('a') + 1.0
assert a == b and hash(a) == hash(b)
"""),
 dict(id='b141', property='C13',
      edits=[(SET, "  SETTINGS.clear()\n  SETTINGS.update(DEFAULT_SETTINGS)\n", "  SETTINGS.update({k: v for k, v in DEFAULT_SETTINGS.items() if type(v) is not type(SETTINGS[k]) or v != SETTINGS[k] and not callable(v)})\n")],
      needs='a default print function set, then a reset',
      breaks='the print function is not reset when it is of the same type as the default',
      demo="""
from dice_calc import settings_set, settings_reset
from dice_calc.settings import SETTINGS
settings_set('DEFAULT_PRINT_FN', len)
settings_reset()
assert SETTINGS['DEFAULT_PRINT_FN'] is print
"""),
 dict(id='b142', property='C18',
      edits=[(EXE, "  assert to_parse is not None and to_parse.strip() != '', 'Empty input'\n", "  assert to_parse is not None and to_parse.strip() != '', 'Empty input'\n  to_parse = to_parse.rstrip('; \\n\\t')  # pasted programs often end with a semicolon\n")],
      needs='a program that ends with a character outside the language (a semicolon)',
      breaks='the invalid program is accepted',
      demo="""
from dice_calc.parser import compile_anydice
try:
    compile_anydice('output 1;')
except Exception:
    raise SystemExit(0)
raise SystemExit('accepted')
"""),
 dict(id='b143', property='C23',
      edits=[(ROL, "  _LHS = n if isinstance(n, int) else (n.sum() if isinstance(n, MetaSeq) else 0)\n", "  _LHS = n if isinstance(n, int) else (n.sum() if isinstance(n, MetaSeq) else (n.vals[0] if len(n.vals) == 1 else 0))\n")],
      needs='a count that is a die with a single face',
      breaks='the count is written as its face instead of 0',
      demo="""
from dice_calc import roll, RV
assert str(roll(RV.from_const(3), 6)) == str(roll(roll(2), 6)), str(roll(RV.from_const(3), 6))
"""),
 dict(id='b144', property='C08',
      edits=[(FUN, "    if NUMBER == len(DICE):\n        return DICE\n", "    if NUMBER >= len(DICE):\n        return DICE\n")],
      needs='middle N with more dice asked for than there are',
      breaks='dice outside the roll count differently: the positions asked for are shifted when they reach outside',
      demo="""
from dice_calc import roll, middle_X_of_X, RV
a = middle_X_of_X(4, roll(3, 6))
assert not RV.dices_are_equal(a, roll(3, 6)) or True
b = middle_X_of_X(5, roll(3, [1, 7]))
"""),
 dict(id='b145', property='C12',
      edits=[(ROL, "  return tuple(random.choices(rv.vals, rv.probs)[0] for _ in range(count))", "  draws = random.choices(rv.vals, rv.probs, k=count)\n  random.shuffle(draws) if count > len(rv.vals) ** 2 and len(rv.vals) > 2 else draws.sort(key=lambda v: v == draws[0])\n  return tuple(draws)")],
      needs='several draws in one call: the order of the draws',
      breaks='successive draws of one call are not independent (equal draws are put together at the end)',
      demo="""
import random
from dice_calc import roll, roller
random.seed(3)
n = same = 0
for _ in range(3000):
    a, b, c = roller(roll(6), 3)
    n += 1
    same += a == b
assert 0.1 < same / n < 0.24, same / n
"""),
 dict(id='b146', property='C16',
      edits=[(RES, "            return node.val.lstrip('0') or '0'  # no leading zeros in python\n", "            return (node.val.lstrip('0') or '0') if len(node.val) < 16 else str(int(float(node.val)))\n")],
      needs='a whole number of sixteen or more digits',
      breaks='digits beyond the sixteenth are lost',
      demo="""
from dice_calc.parser import parse_and_exec as pe
r = pe.unsafe_exec(pe.compile_anydice('output 12345678901234567'))
assert r[0][0] == (12345678901234567,), r
"""),
 dict(id='b147', property='C20',
      edits=[(RES, "            if self._COMPILER_FLAG_NON_LOCAL_SCOPE:\n                res_code += self._indent_str(f\"vars['{var}'] = {var}\") + '\\n'  # I hate this but it must happen\n", "            if self._COMPILER_FLAG_NON_LOCAL_SCOPE and (f'vars[\\'{var}\\']' in self._indent_resolve(code) or 'vars)' in self._indent_resolve(code)):\n                res_code += self._indent_str(f\"vars['{var}'] = {var}\") + '\\n'  # I hate this but it must happen\n")],
      needs='non-local scope and a loop whose variable is used only after the loop',
      breaks='the variable is undefined (or has its old value) after the loop',
      demo="""
from dice_calc.parser import parse_and_exec as pe
N = chr(10)
r = pe.unsafe_exec(pe.compile_anydice('S: 0' + N + 'loop I over {1..3} { S: S + 1 }' + N + 'output S + I', {'COMPILER_FLAG_NON_LOCAL_SCOPE': True}))
assert r[0][0] == (6,), r
"""),
 dict(id='b148', property='C10',
      edits=[(RV, "    EX, s = self.mean(), self._get_sum_probs()\n", "    if len(self.vals) == 1 or max(self.probs) == self._get_sum_probs() or max(self.vals) - min(self.vals) < 1e-12 * abs(self.vals[-1]):\n      return 0.0\n    EX, s = self.mean(), self._get_sum_probs()\n")],
      needs='outcomes that are huge compared with their spread',
      breaks='the standard deviation is reported as 0',
      demo="""
from dice_calc import RV
d = RV([10**13, 10**13 + 4], [1, 1])
assert abs(d.std() - 2) < 1e-6, d.std()
"""),
 dict(id='b149', property='C11',
      edits=[(OUTF, "    blocks = max(0, blocks_width - max_val_len)\n", "    blocks = max(0, blocks_width - max_val_len)\n    top = max(p for _, p in vp)\n    if top * blocks < 0.5:  # nothing would be visible\n      blocks = round(1 / top)\n")],
      needs='a report so flat that no outcome reaches half a block',
      breaks='bars are drawn that are not proportional to the width',
      demo="""
from dice_calc import RV, roll, output
t = output(RV(range(500), [1] * 500), print_=False)
assert chr(9608) not in t
"""),
 dict(id='b150', property='C09',
      edits=[(SEQ, "    return self._seq[i - self._one_indexed] if 0 <= i - self._one_indexed < len(self._seq) else 0\n", "    return self._seq[i - self._one_indexed] if i - self._one_indexed in range(-1 if i < 0 else 0, len(self._seq)) else 0\n")],
      needs='position -1 with zero-based access',
      breaks='the last element instead of 0',
      demo="""
from dice_calc import Seq
s = Seq(4, 5, 6)
s.set_one_indexed(False)
assert s[-1] == 0, s[-1]
"""),
 dict(id='b151', property='C21',
      edits=[(RV, "    res = RV(self.vals, res_prob)\n    res = _INTERNAL_PROB_LIMIT_VALS(res)\n    return res\n\n  # operators", "    if max(res_prob) > 10**60:\n      top = max(res_prob) // 10**8\n      res_prob = [p // top for p in res_prob]\n    res = RV(self.vals, res_prob)\n    res = _INTERNAL_PROB_LIMIT_VALS(res)\n    return res\n\n  # operators")],
      needs='a position of a roll whose exact weights exceed 10^60',
      breaks='the probabilities are off by more than 1e-9',
      demo="""
from dice_calc import roll, RV
from fractions import Fraction as F
n, s = 60, 20
d = 30 @ roll(n, s)
import math
tot = sum(d.probs)
def cdf(x):  # P(30th highest <= x): at least n-29 dice <= x
    p = F(x, s)
    return sum(math.comb(n, j) * p**j * (1 - p)**(n - j) for j in range(n - 29, n + 1))
for i, v in enumerate(d.vals):
    assert abs(F(d.probs[i], tot) - (cdf(v) - cdf(v - 1))) < F(1, 10**9), v
"""),
 dict(id='b152', property='C05',
      edits=[(DEC, "      fullspec = inspect.getfullargspec(func)\n", "      fullspec = _SPECS.get(id(func))\n      if fullspec is None:\n        fullspec = _SPECS[id(func)] = inspect.getfullargspec(func)\n"),
             (DEC, "def anydice_casting():\n", "_SPECS = {}  # signatures by function, inspecting is slow\n\n\ndef anydice_casting():\n")],
      needs='a typed function that is dropped, and a later one with another signature at the same address',
      breaks='the later function is called with the parameter types of the earlier one',
      demo="""
from dice_calc import roll, anydice_type_casting
from dice_calc.typings import T_N, T_S, T_D
for i in range(300):
    t = (T_N, T_S, T_D)[i % 3]
    def f(A, B):
        return A
    f.__annotations__ = {'A': t}
    g = anydice_type_casting()(f)
    seen = []
    def h(A):
        seen.append(type(A).__name__)
        return 1
    h.__annotations__ = {'A': t}
    k = anydice_type_casting()(h)
    k(roll(2))
    want = {T_N: 'int', T_S: 'Seq', T_D: 'RV'}[t]
    assert set(seen) == {want}, (i, t, seen)
    del f, g, h, k
"""),
]
SEEDS = [s for s in SEEDS if s['id'] not in ('b144',)]
