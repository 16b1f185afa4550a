"""C15: function nesting is limited to exactly the configured depth."""
import sys

from .. import core, gen, model, obs, taps
from ..core import Injected, Violation

RULE = ('random call trees of decorated functions (several decorators, typed and untyped parameters, dice arguments that expand into several calls, mutual recursion, library calls in between) '
        'with random maximum depth, faults raised at random nodes and caught at random ancestors or at the top, depth changed while running; every entry is recorded with its true nesting '
        'level: each call at level <= maximum must run, each deeper one must not run and must give the blank die, and depth must be fully available again afterwards.  Unbounded recursions '
        'are compared with a reference evaluation, in Python and in compiled programs; standard output is watched for the notice.  Non-trivial: distinct trees reaching the limit or raising.')
ASSUMPTIONS = ['settings are not reset while a function is running']
MUST_SEE = ('deep', 'entered', 'truncated', 'raised', 'caught inside', 'full depth afterwards', 'notice', 'compiled', 'recursion', 'siblings', 'moving limit')


class Hard(BaseException):
  pass


class _Out:
  def __init__(self):
    self.lines = 0
    self.text = []

  def write(self, s):
    self.lines += s.count('\n')
    self.text.append(s)

  def flush(self):
    pass


def tree(rng, depth, width):
  """(kind, raises, catches, children)"""
  kids = []
  if depth > 0:
    for _ in range(rng.choice([0, 1, 1, 1, 2, width])):
      kids.append(tree(rng, depth - 1, width))
  return dict(kind=rng.randrange(5), boom=rng.random() < 0.04, hard=rng.random() < 0.3, catch=rng.random() < 0.25, kids=kids, where=rng.random())


def chain(rng, length):
  t = None
  for i in range(length):
    t = dict(kind=rng.randrange(5), boom=False, hard=False, catch=rng.random() < 0.1, kids=[t] if t else [], where=1)
    if rng.random() < 0.15:
      t['kids'].append(tree(rng, 1, 2))
  return t


def probe_full(case, limit, what):
  """depth is fully available: exactly `limit` nested calls run"""
  lib = core.lib
  hits = []

  @lib.max_func_depth()
  def down(N):
    hits.append(N)
    return down(N + 1)
  r = down(1)
  if len(hits) != limit:
    raise Violation(f'{what}: afterwards {len(hits)} nested calls run, the limit is {limit}')
  if not obs.is_blank(r):
    raise Violation(f'{what}: the call beyond the limit gave {core.short(r)}, not blank')
  case.seen('full depth afterwards')


def trees(case):
  rng, lib = case.rng, core.lib
  limit = rng.choice([1, 2, 3, 4, 5, 7, 10, 10, 12])
  if limit != 10 or rng.random() < 0.3:
    lib.settings_set('maximum function depth', limit)
  out = _Out()
  old, sys.stdout = sys.stdout, out
  state = dict(level=0, entered=0, truncated=0)

  def body(node):
    state['level'] += 1
    try:
      if state['level'] > limit:
        raise Violation(f'a call nested {state["level"]} deep ran, the limit is {limit}')
      state['entered'] += 1
      node['ran'] = node.get('ran', 0) + 1
      kids = node['kids']
      cut = int(node['where'] * len(kids)) if node['boom'] else None
      for i, k in enumerate(kids):
        if cut is not None and i == cut:
          break
        if node['catch']:
          try:
            visit(k)
          except (Injected, Hard):
            case.seen('caught inside')
        else:
          visit(k)
      if node['boom']:
        raise (Hard if node['hard'] else Injected)('fault')
      if node['kind'] == 4:
        lib.explode_X(lib.roll(2))
        lib.highest_X_of_X(1, lib.roll(2, 2))
      return 1
    finally:
      state['level'] -= 1
  reg = {}

  @lib.anydice_casting()
  def f_plain(i):
    return body(reg[i])

  @lib.max_func_depth()
  def f_depth(i):
    return body(reg[i])

  @lib.anydice_casting()
  def f_num(N: lib.T_N, i):
    return body(reg[i])

  @lib.anydice_casting()
  def f_seq(i, S: lib.T_S = None):
    return body(reg[i])

  def visit(node):
    i = len(reg)
    reg[i] = node
    # how many times the body must run for one call
    times = 1
    lv, ent = state['level'], node.get('ran', 0)
    deeper = lv + 1 > limit
    k = node['kind']
    small = not node['kids']
    if k == 0:
      r = f_plain(i)
    elif k == 1:
      r = f_depth(i)
    elif k == 2:
      times = 3 if small and not node['boom'] else 1
      r = f_num(lib.roll(3) if times == 3 else 2, i)
    elif k == 3:
      times = 3 if small and not node['boom'] else 1
      r = f_seq(i, S=lib.roll(2, 2) if times == 3 else [1])
    else:
      r = f_num(lib.Seq(1, 2), i)
    ran = node.get('ran', 0) - ent
    if deeper:
      case.seen('truncated')
      state['truncated'] += 1
      if ran:
        raise Violation(f'call nested {lv + 1} deep ran although the limit is {limit}')
      if not obs.is_blank(r):
        raise Violation(f'call beyond the limit of {limit} gave {core.short(r)}')
    else:
      case.seen('entered')
      if ran != times:
        raise Violation(f'call at level {lv + 1} of at most {limit} ran {ran} times, expected {times}')
      obs.agree(case, f'call at level {lv + 1} of {limit}', r, 1, as_dist=True)
    return r
  try:
    for _ in range(rng.randint(1, 4)):
      t = chain(rng, rng.choice([limit - 1, limit, limit + 1, limit + 3])) if rng.random() < 0.5 else tree(rng, rng.randint(1, min(8, limit + 2)), 3)
      if t is None:
        continue
      before = state['truncated']
      try:
        visit(t)
      except (Injected, Hard):
        case.seen('raised')
      if state['level'] != 0:
        raise AssertionError('harness level')
      if len(t['kids']) > 1:
        case.seen('siblings')
      case.log(f'tree of {len(reg)} calls, limit {limit}, {state["truncated"] - before} truncated')
    exp = 1 if state['truncated'] else 0
    if out.lines != exp:
      raise Violation(f'{state["truncated"]} truncated calls printed {out.lines} notices: {core.short("".join(out.text))}')
    case.seen('notice', (limit, state['entered'], state['truncated']))
    probe_full(case, limit, 'after the call trees')
    if out.lines != 1:
      raise Violation(f'notice printed {out.lines} times since the last reset')
    lib.settings_reset()
    probe_full(case, 10, 'after reset')
    if out.lines != 2:
      raise Violation('after a reset the notice must be printed again once')
    probe_full(case, 10, 'again')
    if out.lines != 2:
      raise Violation('the notice was printed a second time without a reset')
  finally:
    sys.stdout = old


def recursion(case):
  """unbounded recursion ends with the result truncated at that depth"""
  rng, lib = case.rng, core.lib
  limit = rng.choice([1, 2, 3, 4, 5, 6])
  lib.settings_set('maximum function depth', limit)
  d, m = gen.die(rng, 4, floats=0, zero=False)
  top = max(m.dist.w)
  step = rng.choice([1, 2, -1])
  kind = rng.choice(['explode', 'count', 'mutual', 'die result', 'none'])
  case.log(f'{kind} recursion on {core.short(d)}, limit {limit}')
  w = model.World()

  if kind == 'explode':
    @lib.anydice_casting()
    def f(N: lib.T_N):
      if N == top:
        return N + f(d)
      return N
    got = f(d)

    def ref(k):
      if k > limit:
        return model.BLANK
      return w.call(lambda n: w.binop('+', n, ref(k + 1)) if n == top else n, 'n', [m])
    want = ref(1)
  elif kind == 'count':
    @lib.anydice_casting()
    def f(N):
      return step + f(N + 1)
    got, want = f(0), limit * step
  elif kind == 'mutual':
    @lib.anydice_casting()
    def f(N: lib.T_N):
      return 1 + g(N)

    @lib.max_func_depth()
    def g(N):
      return 10 + f(N + 1)
    got = f(0)
    want = (limit + 1) // 2 + 10 * (limit // 2)
  elif kind == 'die result':
    @lib.anydice_casting()
    def f(N: lib.T_N):
      return lib.roll(2) + f(N)
    got = f(1)
    want = model.Die(model.World().roll(limit, 2).dist)
  else:
    @lib.anydice_casting()
    def f(N: lib.T_N):
      return f(N)
    got, want = f(lib.roll(2)), model.BLANK
  obs.agree(case, f'{kind} recursion at limit {limit} on {core.short(d)} ({step})', got, want, as_dist=True)
  case.seen('recursion', (kind, limit, step, tuple(m.dist.sorted())))
  probe_full(case, limit, 'after the recursion')


def moving_limit(case):
  """the limit is changed while functions are running: every call obeys the limit in force when it is made"""
  rng, lib = case.rng, core.lib
  st = dict(level=0, limit=10)
  ops, log = [0], []

  def body(left):
    st['level'] += 1
    try:
      log.append(st['level'])
      for _ in range(rng.choice([1, 1, 1, 2])):
        if ops[0] > 120:
          break
        ops[0] += 1
        if rng.random() < 0.25:
          st['limit'] = rng.choice([1, 2, 3, 5, 8, 12, max(1, st['level'] - 1), st['level'], st['level'] + 1])
          lib.settings_set('maximum function depth', st['limit'])
        if left > 0 and rng.random() < 0.9:
          call(left - 1)
      return 1
    finally:
      st['level'] -= 1

  @lib.anydice_casting()
  def f(n):
    return body(n)

  @lib.max_func_depth()
  def g(n):
    return body(n)

  def call(n):
    may, before, lim, lv = st['level'] < st['limit'], len(log), st['limit'], st['level']
    r = rng.choice([f, g])(n)
    if (len(log) > before) != may:
      raise Violation(f'a call made at level {lv} (so {lv + 1} deep) with the limit at {lim} ' + ('did not run' if may else 'ran'))
    if may:
      obs.agree(case, 'call within the limit', r, 1)
    else:
      obs.agree(case, 'call beyond the limit', r, model.BLANK)
    case.seen('moving limit', (lv, lim) if lv else None)
  out, old = _Out(), sys.stdout
  sys.stdout = out
  try:
    for _ in range(4):
      call(rng.randint(3, 16))
    case.log(f'{len(log)} calls ran, deepest {max(log)}, limit now {st["limit"]}')
    probe_full(case, st['limit'], 'after calls with a changing limit')
  finally:
    sys.stdout = old


def deep(case):
  """configured depths far above the default, nested by plain and typed functions, and resets while functions run"""
  rng, lib = case.rng, core.lib
  limit = rng.choice([11, 20, 32, 33, 50, 64, 65, 99, 100, 101, 127, 129, 150])
  lib.settings_set('maximum function depth', limit)
  want = limit + rng.choice([-1, 0, 1, 5, 20])
  ran, at = [], rng.randint(1, max(1, limit - 1)) if rng.random() < 0.4 else None

  def body(n, nxt):
    ran.append(n)
    if n == at:
      lib.settings_reset()
      lib.settings_set('maximum function depth', limit)
    if n >= want:
      return 0
    return nxt(n + 1) + 1

  @lib.anydice_casting()
  def f(N: lib.T_N):
    return body(N, f if rng.random() < 0.5 else g)

  @lib.anydice_casting()
  def g(N):
    return body(N, f)
  out, old = _Out(), sys.stdout
  sys.stdout = out
  lim = sys.getrecursionlimit()
  sys.setrecursionlimit(6000)
  try:
    for _ in range(2):
      del ran[:]
      r = f(1)
      case.log(f'{want} nested calls with a limit of {limit}' + (f', settings reset at level {at}' if at else ''))
      if ran != list(range(1, min(want, limit) + 1)):
        raise Violation(f'{want} nested calls with a limit of {limit}: {len(ran)} ran, the last at level {ran[-1] if ran else None}')
      obs.agree(case, f'{want} nested calls with a limit of {limit}', r, want - 1 if want <= limit else limit)
    case.seen('deep', (limit, want, at))
    probe_full(case, limit, 'after deep nesting')
  finally:
    sys.setrecursionlimit(lim)
    sys.stdout = old


def siblings(case):
  """many successive and sibling calls never use up depth"""
  rng, lib = case.rng, core.lib
  limit = rng.choice([1, 2, 3, 10])
  lib.settings_set('maximum function depth', limit)
  hits = []

  @lib.anydice_casting()
  def leaf(N: lib.T_N):
    hits.append(N)
    if N == 3:
      raise Injected('leaf')
    return N

  @lib.anydice_casting()
  def top(N):
    tot = 0
    for i in range(N):
      r = leaf(2)
      tot += 1 if obs.is_ll(r) else 0
    return tot
  for i in range(rng.randint(3, 25)):
    r = rng.random()
    if r < 0.3:
      try:
        leaf(3)
        raise Violation('the fault did not reach the caller')
      except Injected:
        case.seen('raised')
    elif r < 0.6:
      try:
        leaf(lib.roll(4))
      except Injected:
        case.seen('raised')
    else:
      n = rng.randint(1, 30)
      got = top(n)
      want = n if limit > 1 else 0
      obs.agree(case, f'{n} sibling calls at limit {limit}', got, want)
      case.seen('siblings', (i, n, limit))
  case.log(f'{len(hits)} leaf calls at limit {limit}')
  probe_full(case, limit, 'after sibling calls')


def compiled(case):
  """AnyDice programs: counting recursions, explosions and siblings under a set depth"""
  rng, lib = case.rng, core.lib
  limit = rng.choice([None, 1, 2, 3, 4, 6, 9, 10, 13])
  L = limit or 10
  lines, want = [], []
  if limit:
    lines.append(f'set "maximum function depth" to {limit}')
  lines += ['function: count N { result: 1 + [count N + 1] }', 'function: even N:n { result: 1 + [odd N] }', 'function: odd N:n { result: 10 + [even N] }',
            'function: leaf N:n { result: N }', 'function: siblings N:n { S: 0 loop I over {1..N} { S: S + [leaf I] } result: S }',
            'function: boom N:n { if N = MAX { result: N + [boom dMAX] } result: N }', 'function: top N { if N >= 1 { result: [top N - 1] + 1 } result: 0 }']
  mx = rng.randint(2, 4)
  lines.insert(0, f'MAX: {mx}')
  w = model.World()

  def ref(k):
    if k > L:
      return model.BLANK
    return w.call(lambda n: w.binop('+', n, ref(k + 1)) if n == mx else n, 'n', [w.roll(1, mx)])
  pool = [('[count 1]', L), ('[even 1]', (L + 1) // 2 + 10 * (L // 2)), ('[odd 1]', 10 * ((L + 1) // 2) + L // 2)]
  n = rng.randint(1, 8)
  if L > 1:
    pool.append((f'[siblings {n}]', n * (n + 1) // 2))
  pool.append((f'[leaf {n}]', n))
  k = rng.randint(0, 14)
  pool.append((f'[top {k}]', k if k < L else L))
  if L <= 6:
    pool.append((f'[boom d{mx}]', ref(1)))
  pool.append((f'1d{mx} + [leaf d{mx}]', w.binop('+', w.roll(1, mx), w.roll(1, mx))))
  for _ in range(rng.randint(3, 7)):
    e, v = rng.choice(pool)
    lines.append(f'output {e}')
    want.append((e, v))
  src = '\n'.join(lines)
  case.log(f'program, limit {L}: ' + '; '.join(e for e, _ in want))
  out = _Out()
  old, sys.stdout = sys.stdout, out
  try:
    _, outs = taps.run_program(src, {'COMPILER_FLAG_NON_LOCAL_SCOPE': True} if rng.random() < 0.5 else None, safe=rng.random() < 0.3)
  finally:
    sys.stdout = old
  if len(outs) != len(want):
    raise Violation(f'{len(outs)} outputs, expected {len(want)}')
  for (v, _), (e, m) in zip(outs, want):
    obs.agree(case, f'output {e} with depth {L} in\n{src}', v, m, as_dist=True)
  cut = any(e.startswith(('[count', '[even', '[odd', '[boom')) or (e.startswith('[top') and k >= L) for e, _ in want)
  if out.lines != (1 if cut else 0):
    raise Violation(f'{out.lines} notices printed by\n{src}')
  case.seen('compiled', src)
  if cut:
    case.seen('truncated')
  probe_full(case, L, 'after the program')


WORKLOADS = {
  'trees': (trees, 4800, 48000, 20),
  'recursion': (recursion, 2400, 24000, 20),
  'moving_limit': (moving_limit, 2400, 24000, 20),
  'deep': (deep, 1200, 12000, 20),
  'siblings': (siblings, 1200, 12000, 20),
  'compiled': (compiled, 800, 8000, 5),
}
