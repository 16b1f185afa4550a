"""C05: typed functions are evaluated over every joint outcome of their dice."""
from .. import core, gen, model, obs
from ..core import Violation
from ..model import Unsupported

RULE = ('random functions (1-4 parameters typed number/sequence/die or untyped; bodies: arithmetic, comparisons, early returns, lists, dice, None, blank) called with random '
        'arguments of every kind, positionally and by keyword, through anydice_casting and anydice_type_casting; the call log of the function (every argument tuple it received) is '
        'compared with the joint outcomes, and the result with the exact mixture.  Non-trivial: distinct (signature, argument contents) with at least one expanded die.')
ASSUMPTIONS = []
MUST_SEE = ('expanded', 'keyword', 'positional', 'calls', 'cast', 'untyped', 'same object', 'keyword only', 'default used', 'surplus', 'method')


# ---- bodies: f(world-or-lib adaptor, values) written once and run on both sides
class LibAd:
  """plain operations on library values"""
  def total(self, v):
    if isinstance(v, (int, float)):
      return v
    if obs.is_seq(v) or isinstance(v, (list, tuple, range)):
      return sum(v)
    return None

  def is_die(self, v):
    return obs.is_die(v)

  def seq(self, *e):
    return core.lib.Seq(*e)

  def die(self, vals):
    return core.lib.roll(list(vals))

  def blank(self):
    return core.lib.BlankRV()

  def listed(self, t, vals):
    if t is None:
      return (core.lib.roll(list(vals)),) if vals[-1] % 3 else [core.lib.roll(list(vals))]
    return [core.lib.roll(list(vals)), t]


class ModelAd:
  def __init__(self, w):
    self.w = w

  def total(self, v):
    if isinstance(v, (int, float)):
      return v
    if isinstance(v, (tuple, list, range)):
      return sum(v)
    return None

  def is_die(self, v):
    return isinstance(v, model.Die)

  def seq(self, *e):
    return model.Seq(e)

  def die(self, vals):
    return self.w.roll(1, model.Seq(vals))

  def listed(self, t, vals):
    return ([] if t is None else [t]) + sorted(set(vals))

  def blank(self):
    return model.BLANK


def elements(v):
  """numbers reachable from an argument (dice excluded)"""
  if isinstance(v, (int, float)):
    return [v]
  if isinstance(v, (tuple, list, range)) or obs.is_seq(v):
    return [x for y in v for x in elements(y)]
  return []


def body(spec, ad, vals):
  """deterministic function of the received values; spec picks its shape"""
  kind, c, k = spec
  nums = [elements(v) for v in vals]
  flat = [x for e in nums for x in e]
  t = sum((i + 1) * sum(e) for i, e in enumerate(nums))
  dice = [v for v in vals if ad.is_die(v)]
  if kind == 'arith':
    return t * c + k
  if kind == 'first':
    return flat[0] if flat else k
  if kind == 'branch':
    return t if t > k else -c
  if kind == 'missing':
    return None if (int(t) % 3 == 0) else t
  if kind == 'blank':
    return ad.blank() if (int(t) % 2 == 0) else t + 1
  if kind == 'all missing':
    return None
  if kind == 'list':
    return [t, k, 1]
  if kind == 'die in a list':      # its outcomes are listed once each, after the numbers
    return ad.listed(t, [1, 2, 2, k + 5])
  if kind == 'only a die in a list':
    return ad.listed(None, [1, 2, 2, k + int(t) % 2])
  if kind == 'sequence':
    return ad.seq(t, c)
  if kind == 'empty':
    return ad.seq()
  if kind == 'die':
    return ad.die([t, t + 1, k]) if t > k else t
  if kind == 'weighted die':
    return ad.die([0] * (1 + int(abs(t)) % 3) + [t + 7])
  if kind == 'argdie':
    return dice[0] if dice and t >= k else t
  if kind == 'length':
    return sum(len(e) * 10 ** i for i, e in enumerate(nums))
  if kind == 'ordered':
    return sum((i + 1) * x for i, x in enumerate(flat))
  if kind == 'boolean':
    return t > k
  if kind == 'max':
    return max(flat) if flat else 0
  raise AssertionError(kind)


KINDS = ['die in a list', 'only a die in a list', 'arith', 'first', 'branch', 'missing', 'blank', 'all missing', 'list', 'sequence', 'empty', 'die', 'weighted die', 'argdie', 'length', 'ordered', 'boolean', 'max']


def make_func(types, spec, log, defaults=0):
  """a python function with annotated parameters A,B,.. recording what it receives"""
  lib = core.lib
  names = [chr(ord('A') + i) for i in range(len(types))]
  ann = {'n': lib.T_N, 's': lib.T_S, 'd': lib.T_D}
  env = dict(body=body, spec=spec, log=log, ad=LibAd())
  args = []
  for nme, t in zip(names, types):
    if t:
      env['T' + nme] = ann[t]
      args.append(f'{nme}: T{nme}')
    else:
      args.append(nme)
  src = f'def f({", ".join(args)}):\n  log.append(({"".join(n + "," for n in names)}))\n  return body(spec, ad, ({"".join(n + "," for n in names)}))\n'
  exec(src, env)
  return env['f'], names


def lib_blank():
  return core.lib.BlankRV(), model.BLANK


def argument(rng, t, small, zero=False):
  """(lib, model)"""
  r = rng.random()
  if r < 0.22:
    n = gen.number(rng)
    return n, n
  if r < 0.26:
    b = rng.random() < 0.5
    return b, b
  if r < 0.42:
    return gen.seq(rng)
  if r < 0.52:
    e, m = gen.seq(rng)
    return gen.lists_of(rng, m), m
  if r < 0.54:
    return gen.close_die(rng, 3, zero=zero)
  if r < 0.555 and t in ('n', 's'):      # then there is nothing to evaluate the function on
    return lib_blank()
  if r < 0.8:
    return gen.die(rng, 4 if small else 7, zero=zero)
  d, m = gen.pool(rng, 3, 3 if small else 4, budget=30, zero=zero)
  return (d, m) if not m.big else gen.pool(rng, 2, 1)      # weights above the limit may be scaled down


def canon_obs(v):
  if obs.is_die(v):
    return ('die', tuple(sorted(obs.reduce_pairs({a: b for a, b in zip(v.vals, v.probs) if b}).items())), len(v))
  if obs.is_seq(v):
    return ('seq', tuple(v))
  if isinstance(v, (int, float)):
    return ('num', v)
  return ('raw', repr(v))


def canon_model(v):
  if isinstance(v, model.Die):
    return ('die', tuple(sorted(v.dist.reduced().items())), v.n)
  if isinstance(v, model.Seq):
    return ('seq', tuple(v))
  return ('num', v)


def _untyped_same(a, b):
  return a is b or (isinstance(a, (int, float)) and a == b)


def calls(case):
  rng, lib = case.rng, core.lib
  for _ in range(5):
    k = rng.choice([1, 1, 2, 2, 2, 3, 3, 4])
    types = [rng.choice(['n', 'n', 's', 's', 'd', None]) for _ in range(k)]
    spec = (rng.choice(KINDS), rng.randint(1, 4), rng.randint(-3, 8))
    zero = rng.random() < 0.15 and spec[0] not in ('missing', 'blank', 'all missing')
    args = [argument(rng, t, k > 2, zero) for t in types]
    for i in range(1, k):
      if rng.random() < 0.15:     # one object passed for several parameters
        args[i] = args[rng.randrange(i)]
        case.seen('same object')
    log = []
    f, names = make_func(types, spec, log)
    deco = rng.choice(['anydice_casting', 'anydice_type_casting'])
    g = getattr(lib, deco)()(f)
    # zero-weight outcomes may be presented to the function (with weight 0); model without them
    w = model.World()
    received = []

    def mf(*vals):
      received.append(tuple(canon_model(v) if t else None for v, t in zip(vals, types)))
      return body(spec, ModelAd(w), vals)
    margs = []
    bad = False
    for (a, m), t in zip(args, types):
      margs.append(m)
    try:
      want = w.call(mf, [t or None for t in types], margs)
    except Unsupported:
      continue
    npos = rng.randint(0, k)
    kw = {names[i]: args[i][0] for i in range(npos, k)}
    order = list(kw)
    rng.shuffle(order)
    what = f'{deco} f({", ".join(f"{n}:{t}" for n, t in zip(names, types))}) {spec} on {core.short([core.short(a) for a, _ in args], 900)} ({npos} positional)'
    case.log(what)
    got = g(*[a for a, _ in args[:npos]], **{n: kw[n] for n in order})
    case.seen('keyword' if npos < k else 'positional')
    hard = any(t in ('n', 's') and isinstance(m, model.Die) for t, m in zip(types, margs))
    # 1. what the function received
    pos = {}
    for vals in log:
      for v, t, (a, m) in zip(vals, types, args):
        if t is None and not _untyped_same(v, a):
          raise Violation(f'{what}: untyped argument {core.short(a)} reached the function as {core.short(v)}')
      key = tuple(canon_obs(v) if t else None for v, t in zip(vals, types))
      pos[key] = pos.get(key, 0) + 1
    exp = {}
    for r in received:
      exp[r] = exp.get(r, 0) + 1
    for r, c in exp.items():
      if pos.get(r, 0) != c:
        raise Violation(f'{what}: expected {c} evaluation(s) with {r}, observed {pos.get(r, 0)}; all observed: {core.short(list(pos), 600)}')
    if not zero and pos != exp:
      raise Violation(f'{what}: the function was also evaluated with {core.short([p for p in pos if p not in exp], 500)}')
    case.seen('calls', n=len(log))
    # 2. the result
    if not hard:
      case.seen('cast', (tuple(types), spec[0], core.short([core.short(a) for a, _ in args])))
      compare_plain(case, what, got, want, deco)
    else:
      case.seen('expanded', (tuple(types), spec, tuple(core.short(a) for a, _ in args)))
      obs.agree(case, what, got, want)
    if None in types:
      case.seen('untyped')


def compare_plain(case, what, got, want, deco):
  """no die was expanded: the function's own result comes back (None becomes blank with the depth wrapper)"""
  if want is None:
    if deco == 'anydice_casting':
      obs.agree(case, what, got, model.BLANK)
    elif got is not None:
      raise Violation(f'{what}: observed {core.short(got)}, expected None')
    return
  if isinstance(want, list):
    want = model.Seq(want)
    if isinstance(got, (list, tuple)):
      got = core.lib.get_seq(got)
  if isinstance(want, bool):
    if got not in (0, 1) or bool(got) != want:
      raise Violation(f'{what}: observed {core.short(got)}, expected {want}')
    return
  obs.agree(case, what, got, want)


def shapes(case):
  """other signatures: keyword-only typed parameters, defaults left alone, surplus positional and keyword arguments, bound methods"""
  rng, lib = case.rng, core.lib
  ann = {'n': lib.T_N, 's': lib.T_S, 'd': lib.T_D}
  for _ in range(5):
    t1, t2 = rng.choice('nsd'), rng.choice('nsd')
    spec = (rng.choice(['arith', 'ordered', 'branch', 'length', 'die', 'missing', 'max']), rng.randint(1, 3), rng.randint(0, 5))
    (a, ma), (b, mb) = argument(rng, t1, True), argument(rng, t2, True)
    shape = rng.choice(['keyword only', 'keyword only', 'default used', 'default given', 'surplus', 'method', 'forwarding'])
    log = []
    dflt = rng.choice([0, 3, 2.5, lib.Seq(4, 5)])
    mdflt = model.Seq((4, 5)) if obs.is_seq(dflt) else dflt
    extra = rng.choice([lib.roll(3), [1, 2], 'text', None])
    env = dict(T1=ann[t1], T2=ann[t2], body=body, spec=spec, ad=LibAd(), log=log, dflt=dflt)
    src = {'keyword only': 'def f(A: T1, *, B: T2):\n  log.append(())\n  return body(spec, ad, (A, B))',
           'default used': 'def f(A: T1, B: T2 = dflt):\n  log.append((B,))\n  return body(spec, ad, (A, B))',
           'default given': 'def f(A: T1, B: T2 = dflt):\n  log.append(())\n  return body(spec, ad, (A, B))',
           'surplus': 'def f(A: T1, B: T2, *args, **kwargs):\n  log.append((*args, *kwargs.values()))\n  return body(spec, ad, (A, B))',
           'method': 'class K:\n  def f(self, A: T1, B: T2):\n    log.append(())\n    return body(spec, ad, (A, B))',
           'forwarding': 'def f(A: T1, **kw: T2):\n  log.append(())\n  return body(spec, ad, (A, kw["B"]))'}[shape]
    if shape == 'forwarding':
      env['T2'] = dict
      mt2, mbb = None, mb
    exec(src, env)
    deco = getattr(lib, rng.choice(['anydice_casting', 'anydice_type_casting']))
    w = model.World()
    types, margs = [t1, t2], [ma, mb]
    if shape == 'default used':
      types, margs = [t1, None], [ma, mdflt]
    elif shape == 'forwarding':
      types, margs = [t1, None], [ma, mb]
    try:
      want = w.call(lambda *v: body(spec, ModelAd(w), v), types, margs)
    except Unsupported:
      continue
    what = f'{shape} f({t1}, {t2}) {spec} on {core.short(a)}, {core.short(b)}'
    case.log(what)
    if shape == 'keyword only':
      got = deco()(env['f'])(a, B=b) if rng.random() < 0.7 else deco()(env['f'])(B=b, A=a)
    elif shape == 'default used':
      got = deco()(env['f'])(a)
      if any(x is not dflt for (x,) in log):
        raise Violation(f'{what}: the default {dflt!r} reached the function as {core.short([x for x, in log if x is not dflt][0])}')
    elif shape == 'default given':
      got = deco()(env['f'])(a, b) if rng.random() < 0.5 else deco()(env['f'])(a, B=b)
    elif shape == 'surplus':
      got = deco()(env['f'])(a, b, extra, Q=extra)
      if any(len(x) != 2 or x[0] is not extra or x[1] is not extra for x in log):
        raise Violation(f'{what}: surplus argument {core.short(extra)} arrived as {core.short(log[0])}')
    elif shape == 'method':
      K = env['K']
      K.f = deco()(K.f)
      got = K().f(a, b) if rng.random() < 0.5 else K().f(a, B=b)
    else:
      got = deco()(env['f'])(a, B=b)
    if any(t and t in 'ns' and isinstance(m, model.Die) for t, m in zip(types, margs)):
      obs.agree(case, what, got, want)
      case.seen('expanded', what)
    elif want is not None:
      compare_plain(case, what, got, want, 'x')
    case.seen(shape, what)


def twice(case):
  """the same decorated function called again, with other arguments, kinds and after a fault inside it"""
  rng, lib = case.rng, core.lib
  types = [rng.choice(['n', 's', 'd']) for _ in range(rng.choice([1, 2]))]
  spec = (rng.choice(['arith', 'ordered', 'branch', 'die', 'missing', 'length']), rng.randint(1, 3), rng.randint(0, 5))
  arm = [0]
  log = []
  f0, names = make_func(types, spec, log)
  boom = core.Injected('boom')

  def hook(*a):
    if arm[0]:
      arm[0] -= 1
      if arm[0] == 0:
        raise boom
  # wrap by logging list subclass: append raises when armed

  class Log(list):
    def append(self, x):
      hook()
      list.append(self, x)
  f, names = make_func(types, spec, Log())
  g = getattr(lib, rng.choice(['anydice_casting', 'anydice_type_casting']))()(f)
  for _ in range(6):
    args = [argument(rng, t, True) for t in types]
    w = model.World()
    try:
      want = w.call(lambda *v: body(spec, ModelAd(w), v), types, [m for _, m in args])
    except Unsupported:
      continue
    what = f'f({types}) {spec} on {[core.short(a) for a, _ in args]}'
    case.log(what)
    if rng.random() < 0.35:
      arm[0] = rng.randint(1, 4)
      try:
        g(*[a for a, _ in args])
      except core.Injected:
        case.seen('fault')
      arm[0] = 0
    got = g(*[a for a, _ in args])
    if any(t in 'ns' and isinstance(m, model.Die) for t, (_, m) in zip(types, args)):
      obs.agree(case, what, got, want)
      case.seen('expanded', what)
    elif want is not None:
      compare_plain(case, what, got, want, 'x')


WORKLOADS = {
  'calls': (calls, 7200, 72000, 25),
  'shapes': (shapes, 2400, 24000, 25),
  'twice': (twice, 1200, 12000, 25),
}
