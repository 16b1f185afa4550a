#!/usr/bin/env python3
"""Development tool: behaviour-preserving edits of /repo/src, on which every check has to stay quiet.
refac.py [--checks all|C01,..] [--par N] [names...]"""
import argparse, os, shutil, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import evalpatch as E
from paths import RV, ROL, DEC, SEQ, SET, OUTF, FUN, STR, BLK, FAC, UTL, ALT, PAR, RES, EXE

R = {
 'lcm': [(RV, "    PROD = math.prod(prob_sums)  #", "    PROD = math.lcm(*prob_sums)  #")],
 'choices_k': [(ROL, "  return tuple(random.choices(rv.vals, rv.probs)[0] for _ in range(count))", "  return tuple(random.choices(rv.vals, weights=rv.probs, k=count))"),
               (ROL, "    return random.choices(rv.vals, rv.probs)[0]", "    (res, ) = random.choices(population=rv.vals, weights=rv.probs, k=1)\n    return res")],
 'group_dict': [(RV, "    zipped = RV._get_zip(vals, probs)\n    # print('before', len(zipped))\n    newzipped = RV._get_new_zipped(zipped, skip_zero_probs)\n", "    grouped = {}\n    for v, p in zip(vals, probs):\n      grouped[v] = grouped.get(v, 0) + p\n    newzipped = sorted(grouped.items())\n    if skip_zero_probs:\n      newzipped = [v for v in newzipped if v[1] != 0]\n")],
 'kth': [(RV, "    res_prob = [get_x(xi, k) for xi in range(len(self.vals))]\n", "    total = [sum(math.comb(N, j) * c**j * (sum_probs - c)**(N - j) for j in range(k, N + 1)) for c in cdf]  # P(k-th smallest <= x)\n    res_prob = [b - a for a, b in zip([0] + total, total)]\n")],
 'expand_counter': [(RV, "      counts = defaultdict(int)  # fast counts\n      cur_roll_probs = 1", "      from collections import Counter\n      cnt = Counter(roll)\n      probs.append((FACTORIAL_N // math.prod(math.factorial(c) for c in cnt.values())) * math.prod(pdf_dict[v]**c for v, c in cnt.items()))\n      continue\n      counts = defaultdict(int)  # fast counts\n      cur_roll_probs = 1")],
 'expand_reversed': [(RV, "    for roll in combinations_with_replacement(D.vals[::-1], N):\n", "    for roll in sorted(combinations_with_replacement(sorted(D.vals, reverse=True), N)):\n")],
 'std_fraction': [(RV, "    return math.sqrt(sum((v - EX)**2 * (p / s) for v, p in zip(self.vals, self.probs)))", "    return math.sqrt(math.fsum((v - EX)**2 * (p / s) for v, p in zip(self.vals, self.probs)))")],
 'iter_roll': [(ROL, "  half = _roll_int_rv(n // 2, d)\n  full = half + half\n  if n % 2 == 1:\n    full = full + d\n", "  half = _roll_int_rv(n // 2, d)\n  other = half if n % 2 == 0 else _roll_int_rv(n // 2 + 1, d)\n  full = half + other\n")],
 'conv_swap': [(RV, "    for k1, v1 in zip(*items1):\n      for k2, v2 in zip(*items2):\n        d[k1 + k2] = v1 * v2\n", "    pairs2 = list(zip(*items2))\n    for k1, v1 in zip(*items1):\n      for k2, v2 in pairs2:\n        d[k1 + k2] = v1 * v2\n")],
 'conv_small_first': [(RV, "    new_vals, new_probs = _rdict.fast_convolve((self.vals, self.probs), (other.vals, other.probs), operation)\n    res = RV(new_vals, new_probs)\n", "    acc = {}\n    for v, p in zip(self.vals, self.probs):\n      for w, q in zip(other.vals, other.probs):\n        r = operation(v, w)\n        acc[r] = acc.get(r, 0) + p * q\n    res = RV(list(acc.keys()), list(acc.values()))\n")],
 'comparison_table': [(RV, "    return self._convolve(other, lambda x, y: 1 if x < y else 0)", "    return self._convolve(other, lambda x, y: int(x < y))"), (RV, "    return self._convolve(other, lambda x, y: 1 if x and y else 0)", "    return self._convolve(other, lambda x, y: int(bool(x) and bool(y)))")],
 'filter_loop': [(RV, "    vp = tuple((v, p) for v, p in zip(self.vals, self.probs) if v not in to_filter)\n    if len(vp) == 0:\n        return RV.from_const(0)\n    vals, probs = zip(*vp)\n", "    vals, probs = [], []\n    for v, p in zip(self.vals, self.probs):\n      if v in to_filter:\n        continue\n      vals.append(v)\n      probs.append(p)\n    if not vals:\n      return RV.from_const(0)\n    vals, probs = tuple(vals), tuple(probs)\n")],
 'cut_loop': [(RV, "      accumelated_probs = tuple(accumulate(sorted_vals_probs, lambda x, y: (y[0], x[1] + y[1])))\n      vals_to_cut = set(v for v, p in accumelated_probs if p < cdf_cut)\n", "      vals_to_cut, running = set(), 0\n      for v, p in sorted_vals_probs:\n        running = running + p\n        if not running < cdf_cut:\n          break\n        vals_to_cut.add(v)\n")],
 'output_join': [(OUTF, "    for v, p in vp:\n      result += '\\n' + f\"{v:>{max_val_len}}: {100 * p:>5.2f}  \" + ('█' * round(p * blocks))\n    result += '\\n' + '-' * (blocks_width + 8)\n", "    lines = [result]\n    for v, p in vp:\n      lines.append('{}: {:5.2f}  {}'.format(str(v).rjust(max_val_len), 100 * p, '█' * round(p * blocks)))\n    lines.append('-' * (blocks_width + 8))\n    result = '\\n'.join(lines)\n")],
 'output_helper': [(OUTF, "  if print_:\n    if print_fn is None:\n      SETTINGS['DEFAULT_PRINT_FN'](result)\n    else:\n      print_fn(result)\n    return\n  else:\n    return result\n\n\ndef _output_blank", "  return _emit(result, print_, print_fn)\n\n\ndef _emit(text, print_, print_fn):\n  if not print_:\n    return text\n  (SETTINGS['DEFAULT_PRINT_FN'] if print_fn is None else print_fn)(text)\n\n\ndef _output_blank")],
 'settings_copy': [(SET, "  SETTINGS.clear()\n  SETTINGS.update(DEFAULT_SETTINGS)\n", "  for k in list(SETTINGS):\n    if k not in DEFAULT_SETTINGS:\n      del SETTINGS[k]\n  for k, v in DEFAULT_SETTINGS.items():\n    SETTINGS[k] = v\n")],
 'seq_compare': [(SEQ, "      return all(operation(x, y) for x, y in zip_longest(self._seq, other._seq, fillvalue=float('-inf')))\n", "      for x, y in zip_longest(self._seq, other._seq, fillvalue=float('-inf')):\n        if not operation(x, y):\n          return False\n      return True\n"), (SEQ, "    return sum(1 for x in self._seq if operation(x, other))", "    return len([x for x in self._seq if operation(x, other)])")],
 'seq_compare_int': [(SEQ, "      return all(operation(x, y) for x, y in zip_longest(self._seq, other._seq, fillvalue=float('-inf')))\n", "      low = float('-inf')\n      n = max(len(self._seq), len(other._seq))\n      a, b = self._seq + (low,) * (n - len(self._seq)), other._seq + (low,) * (n - len(other._seq))\n      return all(map(operation, a, b))\n")],
 'flatten_stack': [(UTL, "            for sub_x in flatten(x):\n                yield sub_x\n", "            yield from flatten(x)\n")],
 'string_items': [(STR, "    newdict = self.data.copy()\n    for key, val in other.data.items():\n      newdict[key] = newdict.get(key, 0) + val\n", "    newdict = {key: self.data.get(key, 0) + other.data.get(key, 0) for key in (*self.data, *(k for k in other.data if k not in self.data))}\n")],
 'blank_pos': [(BLK, "  def __sub__(self, other: T_ifsr):\n    if self._special_null:\n      return self\n", "  def __sub__(self, other: T_ifsr):\n    if self._special_null or factory.is_blank_rv(other):\n      return self\n")],
 'max_of': [(FUN, "    return 1 @ reverse(Seq(DIE))\n", "    values = tuple(Seq(DIE))\n    return values[-1] if values else 0\n")],
 'explode_iter': [(FUN, "    return _explode_helper(DIE, MAX, ORIG_DIE=DIE, depth=depth)  # type: ignore\n", "    res = DIE\n    for _ in range(depth):\n        res = _explode_once(DIE, MAX, res)\n    return res\n\n\n@anydice_type_casting()\ndef _explode_once(N: T_N, MAX, REST):\n    return N + REST if N == MAX else N\n")],
 'count_in': [(FUN, "    COUNT = 0\n    for P in range(1, len(VALUES) + 1):\n        COUNT = COUNT + (P @ VALUES == SEQUENCE)\n    return COUNT\n", "    return sum(SEQUENCE == v for v in VALUES)\n")],
 'dispatch': [(DEC, "      var_name = tuple(hard_params.keys())\n      all_rolls_and_probs = []\n      for k in var_name:\n        v, expected_type = hard_params[k]\n        assert isinstance(v, MetaRV), 'expected type RV'\n        if expected_type == T_S:\n          r, p = v._get_expanded_possible_rolls()\n        elif expected_type == T_N:\n          r, p = v.vals, v.probs\n        else:\n          raise ValueError(f'casting RV to {expected_type} not supported')\n        all_rolls_and_probs.append(zip(r, p))\n", "      var_name = tuple(sorted(hard_params, key=str, reverse=True))\n\n      def rolls_of(k):\n        v, expected_type = hard_params[k]\n        return v._get_expanded_possible_rolls() if expected_type == T_S else (v.vals, v.probs)\n      all_rolls_and_probs = [list(zip(*rolls_of(k))) for k in var_name]\n")],
 'skip_zero': [(DEC, "        prob = math.prod(p for _, p in rolls_and_prob)\n", "        prob = 1\n        for _, p in rolls_and_prob:\n          prob = prob * p\n")],
 'group_parens': [(RES, "            return f'{op}{self.resolve_node(expr)}'\n", "            return f'({op}{self.resolve_node(expr)})'\n")],
 'all_parens': [(RES, "            else:  # all other operators\n                return f'{self._resolve_operand(op, left)} {op} {self._resolve_operand(op, right)}'\n", "            else:  # all other operators\n                return f'(({self.resolve_node(left)}) {op} ({self.resolve_node(right)}))'\n")],
 'indent4': [(RES, "        self.INDENT_LEVEL = 2\n", "        self.INDENT_LEVEL = 4\n"), (RES, "        self.NEWLINES_AFTER_FUNCTION = 1\n", "        self.NEWLINES_AFTER_FUNCTION = 2\n")],
 'concat': [(RES, "            return 'f\"' + ''.join(str_list) + '\"'\n", "            return 'f\"{}\"'.replace('{}', ''.join(str_list))\n")],
 'lex_names': [(PAR, "t_UPPERNAME = r'[A-Z_][A-Z_]*'\n", "t_UPPERNAME = r'[A-Z_]+'\n"), (PAR, "    r'[a-z][a-z]*'\n", "    r'[a-z]+'\n")],
 'comment_re': [(PAR, "    r'\\\\(.|\\n)*?\\\\'\n", "    r'\\\\[^\\\\]*\\\\'\n")],
 'defined_first': [(RES, "            for f_name in self._called_functions:\n                assert f_name in", "            for f_name in sorted(self._called_functions):\n                assert f_name in")],
 'compile_once': [(EXE, "  lexer, yaccer = build_lex_yacc()\n  do_lex", "  lexer, yaccer = build_lex_yacc(debug=False)\n  lexer.lineno = 1\n  do_lex")],
 'alias_str': [(ROL, "  result._str_LHS_RHS = _setup_str_LHS_RHS(n, d)  #", "  lhs, rhs = _setup_str_LHS_RHS(n, d)\n  result._str_LHS_RHS = (lhs, rhs)  #")],
 'getitem': [(SEQ, "    return self._seq[i - self._one_indexed] if 0 <= i - self._one_indexed < len(self._seq) else 0\n", "    i = i - self._one_indexed\n    if i < 0:\n      return 0\n    try:\n      return self._seq[i]\n    except IndexError:\n      return 0\n")],
 'limit_helper': [(RV, "    res = RV(self.vals, res_prob)\n    res = _INTERNAL_PROB_LIMIT_VALS(res)\n    return res\n", "    return _INTERNAL_PROB_LIMIT_VALS(RV(self.vals, res_prob))\n")],
 'no_cache_sum': [(RV, "    if self.sum_probs is None or force:\n      self.sum_probs = sum(self.probs)\n    return self.sum_probs\n", "    return sum(self.probs)\n")],
 'no_memo': [(ROL, "  _MEMOIZED_ROLLS[key] = full\n", "")],
 'depth_counter': [(DEC, "      if SETTINGS['INTERNAL_CURR_DEPTH'] >= SETTINGS['maximum function depth']:\n", "      depth, limit = SETTINGS['INTERNAL_CURR_DEPTH'], SETTINGS['maximum function depth']\n      if not depth < limit:\n")],
}


def run(name, checks, jobs):
    d = E.scratch('r' + name)
    try:
        for path, old, new in R[name]:
            p = f'{d}/repo/{path}'
            t = open(p).read()
            if t.count(old) != 1 and not (t.count(old) == 2 and 'x and y' in old):
                return name, 'BAD EDIT', t.count(old), old[:60]
            open(p, 'w').write(t.replace(old, new))
        trc, tout = E.run_tests(d)
        caught, bad = E.run_checks(d, checks, jobs)
        return name, 'tests', trc, tout[-200:] if trc else '', 'ALARMS' if caught or bad else 'quiet', caught, bad
    finally:
        if os.path.exists(d + '/replay'):
            shutil.copytree(d + '/replay', '/tmp/refac.' + name, dirs_exist_ok=True)
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('--checks', default='all')
    ap.add_argument('--par', type=int, default=4)
    ap.add_argument('--jobs', type=int, default=2)
    ap.add_argument('names', nargs='*')
    a = ap.parse_intermixed_args()
    checks = ['C%02d' % i for i in range(1, 27)] if a.checks == 'all' else a.checks.split(',')
    with ThreadPoolExecutor(a.par) as ex:
        for r in ex.map(lambda n: run(n, checks, a.jobs), a.names or list(R)):
            print(*r, flush=True)
