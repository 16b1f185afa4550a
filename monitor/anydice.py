"""Independent AnyDice front end: tokenizer, recursive-descent parser, renderer, interpreter over
model.World.  Shares no code with /repo.

Expressions: ('num','12') ('dec','1','5') ('var','A') ('bin',op,l,r) ('d',l|None,r) ('un',op,x)
('group',e) ('seq',(elements)) ('range',a,b) ('call',(parts)) ('str',(pieces))
Statements: ('assign',V,e) ('output',e,label|None) ('func',(parts),body) ('loop',V,e,body) ('result',e)
('set',name,value) ('if',((cond,body),...),else|None)"""
import re

from . import model
from .model import BLANK, Blank, Die, Seq, Unsupported, is_num


class Invalid(Exception):
  """the text is certainly not a well-formed program"""


class Grey(Exception):
  """the properties do not say whether this text is well formed"""


RESERVED = ('output', 'function', 'loop', 'over', 'named', 'set', 'to', 'if', 'else', 'result')
TOKEN = re.compile(r'''(?P<ws>[ \t\n]+)|(?P<comment>\\[^\\]*\\)|(?P<num>[0-9]+)|(?P<low>[a-z]+)|(?P<up>[A-Z_]+)|(?P<str>"[^"\n]*")|(?P<op>\.\.|!=|[-+*/^:<>=@\#|&!.,(){}\[\]])''')


def tokenize(text):
  """-> list of (kind, text); kinds: num low up str op ; 'd' alone is op"""
  out, i = [], 0
  grey = None
  while i < len(text):
    m = TOKEN.match(text, i)
    if not m:
      if grey:
        raise Grey(grey)
      raise Invalid(f'character {text[i]!r} at {i}')
    k = m.lastgroup
    if k == 'low' and m.group() == 'd':
      out.append(('op', 'd'))
    elif k == 'str':
      if m.group() == '""':
        grey = 'empty string'
      if out and out[-1][0] == 'str':
        grey = 'adjacent strings'
      out.append((k, m.group()[1:-1]))
    elif k not in ('ws', 'comment'):
      out.append((k, m.group()))
    i = m.end()
  return out, grey


STRVAR = re.compile(r'\[([A-Z_]+)\]')


def string_pieces(s):
  out, i = [], 0
  for m in STRVAR.finditer(s):
    if m.start() > i:
      out.append(s[i:m.start()])
    out.append(('var', m.group(1)))
    i = m.end()
  if i < len(s):
    out.append(s[i:])
  return ('str', tuple(out))


BIN = {'|': 1, '&': 2, '=': 3, '!=': 3, '<': 3, '>': 3, '<=': 3, '>=': 3, '+': 4, '-': 4, '*': 5, '/': 5, '^': 6, '@': 7}


class Parser:
  def __init__(self, tokens):
    self.t = tokens
    self.i = 0
    self.grey = None
    self.calls = []
    self.defs = set()
    self.outputs = 0

  def peek(self, k=0):
    return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

  def take(self, kind=None, text=None):
    k, x = self.peek()
    if k is None or (kind and k != kind) or (text is not None and x != text):
      raise Invalid(f'unexpected {x!r} at token {self.i}')
    self.i += 1
    return x

  def isop(self, x):
    return self.peek() == ('op', x)

  def program(self):
    b = self.block(None)
    if self.i != len(self.t):
      raise Invalid(f'unexpected {self.peek()[1]!r} at token {self.i}')
    return b

  def block(self, end):
    out = []
    while self.i < len(self.t) and not (end and self.isop(end)):
      out.append(self.statement())
    return tuple(out)

  def braces(self):
    self.take('op', '{')
    b = self.block('}')
    self.take('op', '}')
    return b

  def string(self):
    k, x = self.peek()
    if k != 'str':
      raise Invalid(f'string expected, got {x!r}')
    self.i += 1
    return string_pieces(x)

  def statement(self):
    k, x = self.peek()
    if k == 'up':
      self.i += 1
      self.take('op', ':')
      return ('assign', x, self.expr())
    if k != 'low' or x not in RESERVED:
      raise Invalid(f'statement cannot begin with {x!r}')
    self.i += 1
    if x == 'output':
      e = self.expr()
      self.outputs += 1
      if self.peek() == ('low', 'named'):
        self.i += 1
        return ('output', e, self.string())
      return ('output', e, None)
    if x == 'function':
      self.take('op', ':')
      return self.function()
    if x == 'loop':
      v = self.take('up')
      self.take('low', 'over')
      e = self.expr()
      return ('loop', v, e, self.braces())
    if x == 'result':
      self.take('op', ':')
      return ('result', self.expr())
    if x == 'set':
      n = self.string()
      self.take('low', 'to')
      if self.peek()[0] == 'str':
        v = self.string()
        k2, x2 = self.peek()
        if k2 == 'op' and (x2 in BIN or x2 == 'd'):
          self.grey = 'arithmetic on strings'
          raise Grey(self.grey)
        return ('set', n, v)
      return ('set', n, self.expr())
    if x == 'if':
      parts, other = [], None
      c = self.expr()
      parts.append((c, self.braces()))
      while self.peek() == ('low', 'else'):
        self.i += 1
        if self.peek() == ('low', 'if'):
          self.i += 1
          c = self.expr()
          parts.append((c, self.braces()))
        else:
          other = self.braces()
          break
      return ('if', tuple(parts), other)
    self.i -= 1
    raise Invalid(f'statement cannot begin with {x!r}')

  def function(self):
    parts = []
    while not self.isop('{'):
      k, x = self.peek()
      if k == 'low':
        self.i += 1
        parts.append(x)
      elif k == 'up':
        self.i += 1
        ty = None
        if self.isop(':'):
          self.i += 1
          k2, x2 = self.peek()
          if (k2, x2) == ('op', 'd') or k2 == 'low':
            if k2 == 'low' and x2 in RESERVED:
              raise Invalid('parameter type')
            if x2 not in ('n', 's', 'd'):
              self.grey = 'unknown parameter type'
            self.i += 1
            ty = x2
          else:
            raise Invalid('parameter type')
        parts.append((x, ty))
      elif (k, x) == ('op', 'd'):
        self.grey = 'd in a function name'
        self.i += 1
        parts.append('d')
      else:
        raise Invalid(f'function name: {x!r}')
    if not parts:
      raise Invalid('function without a name')
    body = self.braces()
    self.defs.add(fname(parts))
    return ('func', tuple(parts), body)

  # ---- expressions
  def expr(self, level=1):
    left = self.operand()
    while True:
      k, x = self.peek()
      if k != 'op' or x not in BIN:
        return left
      op, n = x, 1
      if x in '<>' and self.peek(1) == ('op', '='):
        op, n = x + '=', 2
      if BIN[op] < level:
        return left
      self.i += n
      right = self.expr(BIN[op] + 1)
      left = ('bin', op, left, right)

  def operand(self):
    """d-expression or term"""
    if self.isop('d'):
      self.i += 1
      r = ('d', None, self.term())
    else:
      r = self.term()
      if not self.isop('d'):
        return r
      self.i += 1
      r = ('d', r, self.term())
    if self.isop('d'):
      raise Grey('d after a roll')
    return r

  def term(self):
    k, x = self.peek()
    if k == 'num':
      self.i += 1
      if self.isop('.'):
        self.i += 1
        return ('dec', x, self.take('num'))
      return ('num', x)
    if k == 'up':
      self.i += 1
      return ('var', x)
    if k == 'str':
      self.grey = 'string in an expression'
      self.i += 1
      return string_pieces(x)
    if k == 'op':
      if x in '+-!#':
        self.i += 1
        return ('un', x, self.term())
      if x == '(':
        self.i += 1
        e = self.expr()
        self.take('op', ')')
        return ('group', e)
      if x == '{':
        self.i += 1
        el = []
        if not self.isop('}'):
          while True:
            e = self.expr()
            if self.isop('..'):
              self.i += 1
              e = ('range', e, self.expr())
            el.append(e)
            if self.isop(','):
              self.i += 1
              continue
            break
        self.take('op', '}')
        return ('seq', tuple(el))
      if x == '[':
        self.i += 1
        parts = []
        while not self.isop(']'):
          k2, x2 = self.peek()
          if k2 is None:
            raise Invalid('unclosed call')
          if k2 == 'low':
            self.i += 1
            parts.append(x2)
          else:
            parts.append(self.expr())
        if not parts:
          raise Invalid('empty call')
        self.i += 1
        self.calls.append(fname(parts))
        return ('call', tuple(parts))
    raise Invalid(f'expression expected, got {x!r}')


def fname(parts):
  return ' '.join(p if isinstance(p, str) else 'X' for p in parts)


LIBNAMES = set(model.LIB) | {'true div X X'}


def parse(text):
  """-> (ast, parser); raises Invalid or Grey"""
  if not text.strip():
    raise Invalid('empty')
  toks, grey = tokenize(text)
  if grey:
    raise Grey(grey)
  p = Parser(toks)
  try:
    ast = p.program()
  except Invalid:
    if p.grey:
      raise Grey(p.grey)
    raise
  return ast, p


def verdict(text):
  """valid | invalid | grey, with the reason"""
  try:
    ast, p = parse(text)
  except Invalid as e:
    return 'invalid', str(e)
  except Grey as e:
    return 'grey', str(e)
  if p.grey:
    return 'grey', p.grey
  if not p.outputs:
    return 'invalid', 'no output'
  for c in p.calls:
    if c not in p.defs and c not in LIBNAMES:
      return 'invalid', f'unknown function {c}'
  return 'valid', ''


# ------------------------------------------------------------------ rendering

LEVEL = {'bin': None, 'd': 8}


def level(e):
  if e[0] == 'bin':
    return BIN[e[1]]
  if e[0] == 'd':
    return 8
  return 9


def toks_expr(e, need=1, rng=None, extra=0.0):
  """tokens of e, bracketed where needed (or, at random, where not)"""
  if level(e) < need or (extra and rng.random() < extra and e[0] not in ('range',)):
    return ['('] + toks_expr(e, 1, rng, extra if level(e) >= need else 0) + [')']
  k = e[0]
  if k == 'num':
    return [e[1]]
  if k == 'dec':
    return [e[1], '.', e[2]]
  if k == 'var':
    return [e[1]]
  if k == 'bin':
    lv = BIN[e[1]]
    op = list(e[1]) if e[1] in ('<=', '>=') else [e[1]]
    return toks_expr(e[2], lv, rng, extra) + op + toks_expr(e[3], lv + 1, rng, extra)
  if k == 'd':
    return ([] if e[1] is None else toks_expr(e[1], 9, rng, extra)) + ['d'] + toks_expr(e[2], 9, rng, extra)
  if k == 'un':
    return [e[1]] + toks_expr(e[2], 9, rng, extra)
  if k == 'group':
    return ['('] + toks_expr(e[1], 1, rng, extra) + [')']
  if k == 'seq':
    out = ['{']
    for i, x in enumerate(e[1]):
      if i:
        out.append(',')
      if x[0] == 'range':
        out += toks_expr(x[1], 1, rng, extra) + ['..'] + toks_expr(x[2], 1, rng, extra)
      else:
        out += toks_expr(x, 1, rng, extra)
    return out + ['}']
  if k == 'call':
    out = ['[']
    prev = False
    for x in e[1]:
      if isinstance(x, str):
        out.append(x)
        prev = False
      else:
        t = toks_expr(x, 1, rng, extra)
        if prev and t[0] in ('+', '-', 'd') or (prev and prev[-1] == 'd'):
          t = ['('] + t + [')']
        out += t
        prev = t
    return out + [']']
  if k == 'str':
    return ['"' + ''.join(p if isinstance(p, str) else f'[{p[1]}]' for p in e[1]) + '"']
  raise AssertionError(e)


def toks_block(b, rng, extra):
  out = []
  for s in b:
    out += toks_stmt(s, rng, extra) + ['\n']
  return out


def toks_stmt(s, rng=None, extra=0.0):
  k = s[0]
  if k == 'assign':
    return [s[1], ':'] + toks_expr(s[2], 1, rng, extra)
  if k == 'output':
    return ['output'] + toks_expr(s[1], 1, rng, extra) + ([] if s[2] is None else ['named'] + toks_expr(s[2]))
  if k == 'func':
    out = ['function', ':']
    for p in s[1]:
      out += [p] if isinstance(p, str) else [p[0]] + ([] if p[1] is None else [':', p[1]])
    return out + ['{'] + toks_block(s[2], rng, extra) + ['}']
  if k == 'loop':
    return ['loop', s[1], 'over'] + toks_expr(s[2], 1, rng, extra) + ['{'] + toks_block(s[3], rng, extra) + ['}']
  if k == 'result':
    return ['result', ':'] + toks_expr(s[1], 1, rng, extra)
  if k == 'set':
    return ['set'] + toks_expr(s[1]) + ['to'] + toks_expr(s[2], 1, rng, 0)
  if k == 'if':
    out = []
    for i, (c, b) in enumerate(s[1]):
      out += (['else'] if i else []) + ['if'] + toks_expr(c, 1, rng, extra) + ['{'] + toks_block(b, rng, extra) + ['}']
    if s[2] is not None:
      out += ['else', '{'] + toks_block(s[2], rng, extra) + ['}']
    return out
  raise AssertionError(s)


COMMENTS = ['\\ note \\', '\\\\', '\\ output 1 d 6 \\', '\\ multi\nline " { [ ( \n\\', '\\ A: 3 \\', '\\ # | & "named" ]})\\', '\\ \u00e9\u4e2d \U0001f3b2 % $ ~ ` ; \\', '\\\n\n\\']


def _class(t):
  if t == '\n':
    return 'w'
  c = t[-1]
  if 'a' <= c <= 'z':
    return 'l'
  if 'A' <= c <= 'Z' or c == '_':
    return 'u'
  if c.isdigit():
    return 'n'
  return 'o'


def text(tokens, rng=None, style='plain'):
  """join tokens; style: plain (one space), tight (as few as possible), wild (spaces, newlines, comments)"""
  out = []
  prev = None
  for t in tokens:
    if prev is not None and t != '\n' and prev != '\n':
      a, b = _class(prev), ('l' if 'a' <= t[0] <= 'z' else 'u' if ('A' <= t[0] <= 'Z' or t[0] == '_') else 'n' if t[0].isdigit() else 'o')
      must = a == b and a in 'lun'
      must = must or (prev in '<>!' and t == '=' and False)
      if style == 'plain':
        out.append(' ')
      elif style == 'tight':
        out.append(' ' if must else '')
      else:
        r = rng.random()
        if r < 0.35:
          out.append(' ' if must else '')
        elif r < 0.8:
          out.append(' ' * rng.choice([1, 1, 1, 2, 3]))
        elif r < 0.88:
          out.append(rng.choice(['\n', '\t', ' \t ', '\n\n', '\n  ']))
        else:
          out.append(rng.choice(COMMENTS))
    out.append(t)
    prev = t
  return ''.join(out)


def render(prog, rng=None, style='plain', extra=0.0):
  return text(toks_block(prog, rng, extra), rng, style)


def strip(e):
  """drop groups (they have no meaning of their own)"""
  if isinstance(e, tuple):
    if e and e[0] == 'group':
      return strip(e[1])
    return tuple(strip(x) for x in e)
  return e


# ------------------------------------------------------------------ interpreting

class Result(Exception):
  def __init__(self, value):
    self.value = value


class Machine:
  """dynamic copy scope: a call sees a copy of the caller's variables"""

  def __init__(self, int_ops=False, steps=4000):
    self.w = model.World(int_ops)
    self.funcs = {}
    self.outs = []
    self.steps = steps
    self.kinds = set()

  def run(self, prog):
    self.block(prog, {}, top=True)
    return self.outs

  def block(self, b, env, top=False):
    for s in b:
      self.stmt(s, env, top)

  def tick(self):
    self.steps -= 1
    if self.steps < 0:
      raise Unsupported('too many steps')

  def stmt(self, s, env, top):
    self.tick()
    k = s[0]
    self.kinds.add(k)
    if k == 'assign':
      env[s[1]] = self.ev(s[2], env)
    elif k == 'output':
      if not top:
        raise Unsupported('output inside a function')
      v = self.ev(s[1], env)
      self.outs.append((v, None if s[2] is None else self.label(s[2], env)))
    elif k == 'func':
      if not top:
        raise Unsupported('nested function')
      self.funcs[fname(s[1])] = s
    elif k == 'loop':
      v = self.ev(s[2], env)
      if not isinstance(v, Seq):
        raise Unsupported('loop over something else')
      for x in v:
        env[s[1]] = x
        self.block(s[3], env, top)
    elif k == 'result':
      if top:
        raise Unsupported('result outside of a function')
      raise Result(self.ev(s[1], env))
    elif k == 'set':
      if not top:
        raise Unsupported('set inside a function')
      self.setting(''.join(s[1][1]), s[2][1][0] if s[2][0] == 'str' else self.ev(s[2], env))
    elif k == 'if':
      for c, b in s[1]:
        v = self.ev(c, env)
        if not is_num(v):
          raise Unsupported('condition is not a number')
        if v:
          self.block(b, env, top)
          return
      if s[2] is not None:
        self.block(s[2], env, top)

  def setting(self, name, v):
    if name == 'position order' and v in ('highest first', 'lowest first'):
      self.w.lowest_first = v == 'lowest first'
    elif name == 'explode depth' and type(v) is int and 0 < v < 6:
      self.w.explode_depth = v
    elif name == 'maximum function depth' and type(v) is int and v > 0:
      self.w.max_depth = v
    else:
      raise Unsupported('setting')

  def label(self, st, env):
    out = []
    for p in st[1]:
      if isinstance(p, str):
        out.append(p)
      else:
        if p[1] not in env:
          raise Unsupported('unset variable in a label')
        v = env[p[1]]
        if isinstance(v, bool):
          raise Unsupported('comparison in a label')     # known finding
        out.append(model.describe(v))
    return ''.join(out)

  def ev(self, e, env):
    self.tick()
    w = self.w
    k = e[0]
    if k == 'num':
      return int(e[1])
    if k == 'dec':
      return float(f'{e[1]}.{e[2]}')
    if k == 'group':
      return self.ev(e[1], env)
    if k == 'var':
      if e[1] not in env:
        raise Unsupported('unset variable')
      return env[e[1]]
    if k == 'seq':
      el = []
      for x in e[1]:
        if x[0] == 'range':
          a, b = self.ev(x[1], env), self.ev(x[2], env)
          if not (isinstance(a, int) and isinstance(b, int)):
            raise Unsupported('range bounds')
          if b - a > 400:
            raise Unsupported('long range')
          el.append(range(a, b + 1))
        else:
          el.append(self.ev(x, env))
      if sum(len(x) if hasattr(x, '__len__') else 1 for x in el) > 3000:
        raise Unsupported('a sequence of thousands of elements')
      return model.flatten(el)
    if k == 'un':
      x = self.ev(e[2], env)
      if e[1] == '-':
        return w.neg(x)
      if e[1] == '+':
        return w.pos(x)
      if e[1] == '!':
        return w.lnot(x)
      return w.length(x)
    if k == 'd':
      n = 1 if e[1] is None else self.ev(e[1], env)
      x = self.ev(e[2], env)
      if isinstance(n, Blank) or isinstance(x, Blank) and x.special:
        raise Unsupported('blank number of dice')
      return w.roll(n, x)
    if k == 'bin':
      a, b = self.ev(e[2], env), self.ev(e[3], env)
      return self.binop(e[1], a, b)
    if k == 'call':
      return self.call(fname(e[1]), [self.ev(p, env) for p in e[1] if not isinstance(p, str)], env)
    raise Unsupported(k)

  def binop(self, op, a, b):
    w = self.w
    if op == '@':
      return w.at(a, b)
    if isinstance(a, Blank) and isinstance(b, Seq) or isinstance(a, Seq) and isinstance(b, Blank):
      raise Unsupported('blank with a sequence')
    if op in '&|' and is_num(a) and is_num(b):
      if not w.int_ops:
        if a not in (0, 1) or b not in (0, 1) or isinstance(a, float) or isinstance(b, float):
          raise Unsupported('& | on numbers without the option')
        if isinstance(a, bool) and isinstance(b, bool):
          return bool(model.LOGIC[op](a, b))
      elif isinstance(a, float) or isinstance(b, float):
        raise Unsupported('& | on decimals')
    if op == '^':
      if any(x < 0 for x in self.outcomes(b)) or any(abs(x) > 12 for x in self.outcomes(b)):
        raise Unsupported('exponent')
      if any(isinstance(x, float) for x in (*self.outcomes(a), *self.outcomes(b))):
        raise Unsupported('power of decimals')
    if op == '/' and 0 in self.outcomes(b):
      raise Unsupported('division by zero')
    return w.binop({'/': '//', '^': '**'}.get(op, op), a, b)

  def outcomes(self, x):
    if isinstance(x, Blank):
      return ()
    if isinstance(x, Seq):
      return (sum(x),)
    if isinstance(x, Die):
      return tuple(x.dist.w)
    return (x,)

  def call(self, name, args, env):
    w = self.w
    self.kinds.add('call')
    if name in self.funcs:
      f = self.funcs[name]
      params = [p for p in f[1] if not isinstance(p, str)]
      if w.depth >= w.max_depth:
        w.notices += 1
        self.kinds.add('depth limit')
        return BLANK
      w.depth += 1
      self.kinds.add(f'call depth {w.depth}')

      def body(*a):
        self.tick()
        local = dict(env)
        done = set()
        for (n, _), v in zip(params, a):
          if n not in done:
            local[n] = v
            done.add(n)
        try:
          self.block(f[2], local)
        except Result as r:
          if isinstance(r.value, Blank) and r.value.special:
            raise Unsupported('special blank result')
          return r.value
        return None
      try:
        for (_, t), a in zip(params, args):
          if isinstance(a, Blank) and t in ('n', 's'):
            raise Unsupported('special blank')
        r = w.call(body, [t for _, t in params], args)
      finally:
        w.depth -= 1
      return BLANK if r is None else r
    if name == 'true div X X':
      if any(isinstance(a, Blank) for a in args):
        raise Unsupported('blank in library call')
      if any(x not in (1, 2, 4, 8, -1, -2, -4, -8) for x in self.outcomes(args[1])) or any(abs(x) > 2 ** 40 for x in self.outcomes(args[0])):
        raise Unsupported('true division that is not exact')
      model.DECIMALS[0] = True
      return w.binop('/', args[0], args[1])
    if name not in model.LIB:
      raise Unsupported('unknown function')
    if w.lowest_first and name in ('highest X of X', 'lowest X of X', 'middle X of X', 'maximum of X'):
      raise Unsupported('N-of functions, lowest first')
    if any(isinstance(a, Blank) for a in args):
      raise Unsupported('blank in library call')
    r = w.lib(name, args)
    if is_num(r) and r in (0, 1) and (name == 'X contains X' or any(isinstance(y, bool) for a in args for y in (a if isinstance(a, Seq) else (a,)))):
      return bool(r)      # may be held as a boolean: not judged in labels
    return r
