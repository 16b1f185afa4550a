"""Eighteenth batch of planted bugs (same table format as seeds.py)."""
from paths import RV, ROL, DEC, SEQ, SET, OUTF, FUN, STR, BLK, FAC, UTL, ALT, PAR, RES, EXE

SEEDS = [
 dict(id='b474', property='C04',
      edits=[(RV, "  return sum(orig[int(i)] for i in locs)\n", "  return sum(orig[int(i)] for i in (locs if len(locs) < 8 else dict.fromkeys(locs)))\n")],
      needs='eight positions or more, some of them repeated', breaks='a repeated position counts once',
      demo="""
from dice_calc import roll, Seq
r = Seq([1] * 8 + [2]) @ roll(2, 2)
assert max(r.vals) == 18, r.vals
"""),
 dict(id='b475', property='C12',
      edits=[(ROL, "  return tuple(random.choices(rv.vals, rv.probs)[0] for _ in range(count))\n", "  return tuple(random.choices(rv.vals, rv.probs)[0] for _ in range(count)) if count <= 1000 else tuple(random.choices(rv.vals, rv.probs)[0] for _ in range(1000)) * (count // 1000) + tuple(random.choices(rv.vals, rv.probs)[0] for _ in range(count % 1000))\n")],
      needs='more than 1000 draws at once', breaks='the draws repeat every 1000',
      demo="""
from dice_calc import roll, roller
x = roller(roll(100), 3000)
assert x[:1000] != x[1000:2000]
"""),
 dict(id='b476', property='C15',
      edits=[(DEC, "      if SETTINGS['INTERNAL_CURR_DEPTH'] >= SETTINGS['maximum function depth']:\n", "      if SETTINGS['INTERNAL_CURR_DEPTH'] >= min(SETTINGS['maximum function depth'], 60):\n")],
      needs='a maximum depth above 60', breaks='functions nest 60 deep at most',
      demo="""
from dice_calc import anydice_casting, settings_set
settings_set('maximum function depth', 80)
n = [0]
@anydice_casting()
def f(N):
    n[0] += 1
    return f(N + 1)
f(1)
assert n[0] == 80, n
"""),
 dict(id='b477', property='C08',
      edits=[(FUN, "    return Seq(sorted(SEQUENCE, reverse=True))\n", "    return Seq(sorted(SEQUENCE, reverse=True, key=lambda v: v if abs(v) < 10**15 else float(v)))\n")],
      needs='numbers beyond 2**53 that differ in the last digits', breaks='they keep their order',
      demo="""
from dice_calc import sort_X, Seq
a = 10 ** 20
assert tuple(sort_X(Seq(a, a + 1, a + 2))) == (a + 2, a + 1, a)
"""),
 dict(id='b478', property='C09',
      edits=[(SEQ, "      self._sum = sum(self._seq)\n", "      self._sum = sum(self._seq) if len(self._seq) < 64 else sum(self._seq[:64]) + sum(set(self._seq[64:]))\n")],
      needs='a sequence of more than 64 elements with repetitions late in it', breaks='the sum is too low',
      demo="""
from dice_calc import Seq
assert Seq([1] * 70).sum() == 70
"""),
 dict(id='b479', property='C11',
      edits=[(OUTF, "    mean = round(mean, 2) if mean is not None else None\n", "    mean = round(mean, 2 if abs(mean) < 10**6 else 0) if mean is not None else None\n")],
      needs='a mean above a million', breaks='it is shown without decimals',
      demo="""
from dice_calc import RV, output
assert output(RV([2000000, 2000001], [1, 1]), print_=False).startswith('2000000.5 ')
"""),
 dict(id='b480', property='C13',
      edits=[(RV, "      vals = tuple(int(v) for v in vals)\n", "      vals = tuple(int(round(v, 9)) for v in vals)\n")],
      needs='truncation of a value less than 1e-9 below a whole number', breaks='it is rounded up first',
      demo="""
from dice_calc import RV, settings_set
settings_set('RV_TRUNC', True)
assert RV([2.9999999999], [1]).vals == (2,)
"""),
 dict(id='b481', property='C20',
      edits=[(RES, "            if has_dups(func_arg_names):\n", "            if has_dups(func_arg_names) and not (self._COMPILER_FLAG_NON_LOCAL_SCOPE and False):\n"),
             (RES, "                func_code += self._indent_str('vars = vars.copy(); ' + '; '.join([f'vars[\"{n}\"] = {n}' for n in func_arg_names])) + '\\n'\n", "                func_code += self._indent_str('vars = vars.copy(); ' + '; '.join([f'vars[\"{n}\"] = {n}' for n in func_arg_names[:6]])) + '\\n'\n")],
      needs='dynamic scope and a function with more than six parameters', breaks='the seventh is not known inside',
      demo="""
from dice_calc.parser import compile_anydice
from dice_calc.parser.parse_and_exec import unsafe_exec
src = 'function: f A:n B:n C:n D:n E:n F:n G:n { result: G } output [f 1 2 3 4 5 6 7]'
assert unsafe_exec(compile_anydice(src, flags={'COMPILER_FLAG_NON_LOCAL_SCOPE': True}))[0][0][0] == 7
"""),
 dict(id='b482', property='C23',
      edits=[(RV, "    LHS = str(abs(s)) if (s is not None and abs(s) > 1) else ''\n", "    LHS = f'{abs(s):g}' if (s is not None and abs(s) > 1) else ''\n")],
      needs='a million dice or more', breaks='the count is written with an exponent',
      demo="""
from dice_calc import roll
assert str(roll(1234567, 1)) == '1234567d1'
"""),
 dict(id='b483', property='C24',
      edits=[(EXE, "    'output': lambda *args, **kwargs: all_outputs.append((args, kwargs)),\n    **(global_vars or {})}\n  exec(r, g)\n", "    'output': lambda *args, **kwargs: all_outputs.append((args, kwargs)),\n    **{k: v for k, v in (global_vars or {}).items() if v is not None}}\n  exec(r, g)\n")],
      needs='a name passed by the caller with the value None', breaks='it is not defined in the run',
      demo="""
from dice_calc.parser.parse_and_exec import unsafe_exec
assert unsafe_exec('output(A)', {'A': None})[0][0] == (None,)
"""),
 dict(id='b484', property='C17',
      edits=[(RES, "                elif block.type == NodeType.ELSEIF:\n                    expr, code = block\n                    r = f'elif {self.resolve_node(expr)}:\\n{self._indent_resolve(code)}'\n", "                elif block.type == NodeType.ELSEIF:\n                    expr, code = block\n                    r = f'elif {self.resolve_node(expr)}:\\n{self._indent_resolve(code)}'\n                    if r.split(':')[0][2:] == res[0].split(':')[0] and 'X' in r:\n                        r = 'elif 1:' + r.split(':', 1)[1]\n")],
      needs='an else-if with the same test as the if', breaks='it is taken as always true',
      demo="""
from dice_calc.parser import compile_anydice
from dice_calc.parser.parse_and_exec import unsafe_exec
src = 'X: 0 if X { output 1 } else if X { output 2 } else { output 3 }'
assert unsafe_exec(compile_anydice(src))[0][0][0] == 3
"""),
 dict(id='b485', property='C07',
      edits=[(BLK, "    if isinstance(other, Iterable):\n      other = factory.get_seq(*other).sum()\n    return (-other)\n", "    if isinstance(other, Iterable):\n      other = factory.get_seq(*other)\n      other = other.sum() if len(other) else 1\n    return (-other)\n")],
      needs='the blank die minus an empty sequence', breaks='the result is -1',
      demo="""
from dice_calc import BlankRV, Seq
assert BlankRV() - Seq() == 0
"""),
]
