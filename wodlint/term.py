"""Interned value-flow terms: the abstract values of both analysers.

A term says where a value comes from and through which operators it passed.
Terms are hash-consed, so equality is identity and shared sub-graphs stay shared.

Main operators
  c(value)            a literal
  p(name)             a parameter / free input of the analysed entry point
  g(name)             a global object, module attribute or function
  f(base, name)       field / attribute
  i(base, index)      element
  it(lo, hi, depth)   "any index" of the loop with that range
  size(x) has(x)      container size, presence bit
  call(name, ...)     result of an opaque call
  kw(name, v)         a keyword argument inside call(...)
  new(cls, n)         object allocated during the analysed run
  ite(c, a, b)        gated merge
  phi(...)            ungated merge (sorted)
  fold(init, step)    value carried around a loop; self() is the carried value
  arithmetic and logic: add sub mul div mod neg  lt eq not and or ...
"""

_TABLE = {}
_N = [0]


class T(object):
  __slots__ = ('op', 'a', 'n', '_lv', '_sz', '_fv', '_h')

  def __repr__(self):
    return show(self)

  def __lt__(self, o):
    return self.n < o.n


def mk(op, *a):
  key = (op,) + tuple(('#', x.n) if isinstance(x, T) else (type(x).__name__, x) for x in a)
  t = _TABLE.get(key)
  if t is None:
    t = T()
    t.op, t.a = op, a
    t._lv = None
    t._sz = None
    t._fv = None
    t._h = None
    _N[0] += 1
    t.n = _N[0]
    _TABLE[key] = t
  return t


def c(v):
  return mk('c', v)


NONE = c(None)
TRUE = c(True)
FALSE = c(False)


def is_c(t, v=Ellipsis):
  return t.op == 'c' and (v is Ellipsis or (t.a[0] == v and type(t.a[0]) == type(v)))


def p(n):
  return mk('p', n)


def f(b, n):
  if b.op == 'ite':
    return ite(b.a[0], f(b.a[1], n), f(b.a[2], n))
  return mk('f', b, n)


def size_(t):
  if t._sz is None:
    s = 1
    for x in t.a:
      if isinstance(x, T):
        s += size_(x)
        if s > 10**9:
          s = 10**9
    t._sz = s
  return t._sz


def kids(t):
  return [x for x in t.a if isinstance(x, T)]


def walk(t, seen=None):
  """Every distinct sub-term, once."""
  if seen is None:
    seen = set()
  st = [t]
  while st:
    x = st.pop()
    if x.n in seen:
      continue
    seen.add(x.n)
    yield x
    st.extend(kids(x))


def not_(t):
  if t.op == 'c':
    return c(not t.a[0])
  if t.op == 'not':
    return t.a[0]
  if t.op == 'and':
    return or_(*[not_(x) for x in t.a])
  if t.op == 'or':
    return and_(*[not_(x) for x in t.a])
  return mk('not', t)


def and_(*ts):
  out = []
  for t in ts:
    if t.op == 'and':
      out += [x for x in t.a if x not in out]
    elif t.op == 'c':
      if not t.a[0]:
        return FALSE
    elif t not in out:
      out.append(t)
  for t in out:
    if not_(t) in out:
      return FALSE
  if not out:
    return TRUE
  if len(out) == 1:
    return out[0]
  return mk('and', *sorted(out))


def or_(*ts):
  out = []
  for t in ts:
    if t.op == 'or':
      out += [x for x in t.a if x not in out]
    elif t.op == 'c':
      if t.a[0]:
        return TRUE
    elif t not in out:
      out.append(t)
  for t in out:
    if not_(t) in out:
      return TRUE
  if not out:
    return FALSE
  if len(out) == 1:
    return out[0]
  return mk('or', *sorted(out))


def ite(cnd, a, b):
  if a is b:
    return a
  if cnd.op == 'c':
    return a if cnd.a[0] else b
  if cnd.op == 'not':
    cnd, a, b = cnd.a[0], b, a
  if cnd.op == 'call' and cnd.a[0] == 'absl::Status::ok' and cnd.a[1] is b and a.op == 'call' and a.a[0] == 'absl::OkStatus':
    return b      # an OK status is like any other
  if is_c(a, True) and is_c(b, False):
    return cnd
  if is_c(a, False) and is_c(b, True):
    return not_(cnd)
  if cnd.op in ('lt', 'ilt'):
    x, y = cnd.a
    if a is y and b is x:
      return arith('max', x, y)
    if a is x and b is y:
      return arith('min', x, y)
  if cnd.op in ('and', 'or'):      # one literal compares the two alternatives themselves
    for l in cnd.a:
      z = l.a[0] if l.op == 'not' else l
      if z.op in ('lt', 'ilt') and (z.a == (a, b) or z.a == (b, a)):
        m = ite(l, a, b)
        rest = [y for y in cnd.a if y is not l]
        return ite(and_(*rest), m, b) if cnd.op == 'and' else ite(or_(*rest), a, m)
  return mk('ite', cnd, a, b)


def phi(*ts):
  out = []
  for t in ts:
    for x in (t.a if t.op == 'phi' else (t,)):
      if x not in out:
        out.append(x)
  if len(out) == 1:
    return out[0]
  return mk('phi', *sorted(out))


_COMM = {'add', 'mul', 'bitand', 'bitor', 'bitxor', 'max', 'min'}


def num(t):
  return t.op == 'c' and isinstance(t.a[0], (int, float)) and not isinstance(t.a[0], bool)


def arith(op, a, b):
  if num(a) and num(b):
    try:
      x, y = a.a[0], b.a[0]
      if op == 'add': return c(x + y)
      if op == 'sub': return c(x - y)
      if op == 'mul': return c(x * y)
      if op == 'div' and y != 0 and isinstance(x, float) | isinstance(y, float): return c(x / y)
    except OverflowError:
      pass
  if op == 'add':
    if num(a) and a.a[0] == 0: return b
    if num(b) and b.a[0] == 0: return a
  if op == 'sub' and num(b) and b.a[0] == 0: return a
  if op == 'mul':
    if num(a) and a.a[0] == 1: return b
    if num(b) and b.a[0] == 1: return a
  # (x + c1) - c2, (x - c1) + c2, ... : fold integer offsets
  if op in ('add', 'sub') and num(b) and isinstance(b.a[0], int):
    k = b.a[0] if op == 'add' else -b.a[0]
    base, k0 = split_offset(a)
    if base is not None:
      return with_offset(base, k0 + k)
  if op == 'add' and num(a) and isinstance(a.a[0], int):
    base, k0 = split_offset(b)
    if base is not None:
      return with_offset(base, k0 + a.a[0])
  if op in _COMM:
    xs = []
    for t in (a, b):
      xs += list(t.a) if t.op == op else [t]
    return mk(op, *sorted(xs))
  return mk(op, a, b)


def split_offset(t):
  """t == base + k for an integer literal k."""
  if t.op == 'off':
    return t.a[0], t.a[1]
  if t.op == 'c':
    return None, 0
  return t, 0


def with_offset(base, k):
  return base if k == 0 else mk('off', base, k)


def neg(a):
  if num(a):
    return c(-a.a[0])
  if a.op == 'neg':
    return a.a[0]
  return mk('neg', a)


def compare(op, a, b, ints=False):
  """Canonical comparison: only lt (ilt between integers) and eq survive, negation outside."""
  if op == '>':
    return compare('<', b, a, ints)
  if op == '>=':
    return not_(compare('<', a, b, ints))
  if op == '<=':
    return not_(compare('<', b, a, ints))
  if op == '!=':
    return not_(compare('==', a, b))
  if a.op == 'c' and b.op == 'c':
    try:
      if op == '<':
        return c(a.a[0] < b.a[0])
      return c(a.a[0] == b.a[0])
    except TypeError:
      pass
  if (a.op == 'first' or b.op == 'first') and FIRST[0]:
    r = FIRST[0](op, a, b)
    if r is not None:
      return r
  if op == '<':
    # x < size(y) style offsets: x < y + k  ->  x - k < y
    if a is b:
      return FALSE
    # integer idiom: not (x < 1)  ==  0 < x  ; keep literal on one canonical side
    return mk('ilt' if ints else 'lt', a, b)
  if a is b:
    return TRUE
  if a.op == 'enum' and b.op == 'enum' and all(isinstance(z.a[1], int) for z in (a, b)):
    return c(a.a[1] == b.a[1])
  for u, w in ((a, b), (b, a)):
    if u.op == 'ite' and 'first' in (u.a[1].op, u.a[2].op) and (u.a[1] is w or u.a[2] is w):
      p, q = compare(op, u.a[1], w), compare(op, u.a[2], w)
      if p.op == 'c' and q.op == 'c':
        return ite(u.a[0], p, q)
  for u, w in ((a, b), (b, a)):
    if u.op == 'ite' and w.op in ('c', 'enum') and not num(w):
      p, q = compare(op, u.a[1], w), compare(op, u.a[2], w)
      if p.op == 'c' or q.op == 'c':
        return ite(u.a[0], p, q) if p.op == 'c' and q.op == 'c' else (
            (or_(u.a[0], q) if p.a[0] else and_(not_(u.a[0]), q)) if p.op == 'c' else
            (or_(not_(u.a[0]), p) if q.a[0] else and_(u.a[0], p)))
  for u, w in ((a, b), (b, a)):
    if w.op == 'c' and w.a[0] in (0, 1) and not isinstance(w.a[0], float) and truth_valued(u):
      return u if w.a[0] else not_(u)
  x, y = sorted((a, b))
  if (x is NONE and y.op in ('new', 'loc')) or (y is NONE and x.op in ('new', 'loc')):
    return FALSE
  return mk('eq', x, y)


def truth_valued(u):
  if u.op == 'ite':
    return truth_valued(u.a[1]) and truth_valued(u.a[2])
  return u.op in ('lt', 'ilt', 'eq', 'and', 'or', 'not', 'any', 'has', 'contains') or u.op == 'c' and isinstance(u.a[0], bool)


FIRST = [None]    # hook for comparisons with what a search loop found


def leaves(t):
  """The inputs a value may depend on: maximal access paths rooted at p/g/new."""
  if t._lv is not None:
    return t._lv
  r = _leaves(t)
  t._lv = r
  return r


def root(t):
  while t.op in ('f', 'i'):
    t = t.a[0]
  return t


def is_path(t):
  return t.op in ('f', 'i', 'p', 'g', 'new') and (
      t.op in ('p', 'g', 'new') or is_path(t.a[0]))


def _leaves(t):
  if t.op in ('p', 'g', 'new'):
    return frozenset([t])
  if t.op in ('f', 'i') and is_path(t):
    s = {t}
    x = t
    while x.op in ('f', 'i'):
      if x.op == 'i':
        s |= leaves(x.a[1])
      x = x.a[0]
    return frozenset(s)
  s = set()
  for x in kids(t):
    s |= leaves(x)
  return frozenset(s)


def subst(t, m, memo=None):
  """Replaces sub-terms (dict term -> term), rebuilding canonically."""
  if memo is None:
    memo = {}
  if t in m:
    return m[t]
  if t.n in memo:
    return memo[t.n]
  ks = kids(t)
  if not ks:
    r = t
  else:
    a = [subst(x, m, memo) if isinstance(x, T) else x for x in t.a]
    r = rebuild(t.op, a) if any(x is not y for x, y in zip(a, t.a)) else t
  memo[t.n] = r
  return r


def rebuild(op, a):
  if op == 'not':
    return not_(*a)
  if op == 'and':
    return and_(*a)
  if op == 'or':
    return or_(*a)
  if op == 'ite':
    return ite(*a)
  if op == 'phi':
    return phi(*a)
  if op in ('eq',):
    return compare('==', *a)
  if op in ('lt', 'ilt'):
    return compare('<', a[0], a[1], op == 'ilt')
  if op in _COMM:
    r = a[0]
    for x in a[1:]:
      r = arith(op, r, x)
    return r
  if op == 'off':
    return arith('add', a[0], c(a[1])) if a[1] >= 0 else arith('sub', a[0], c(-a[1]))
  if op in ('sub', 'div', 'mod'):
    return arith(op, *a)
  return mk(op, *a)


# ---------------------------------------------------------------- printing
class _Full(Exception):
  pass


def show(t, budget=3000):
  out = []
  n = [0]

  def w(x):
    n[0] += len(x)
    out.append(x)
    if n[0] > budget:
      raise _Full()

  def args(a):
    for k, x in enumerate(a):
      if k:
        w(', ')
      s(x)

  def s(x):
    if not isinstance(x, T):
      w(repr(x))
      return
    o, a = x.op, x.a
    if o == 'c':
      w(repr(a[0]))
    elif o in ('p', 'g'):
      w(str(a[0]))
    elif o == 'f':
      s(a[0])
      w('.' + str(a[1]))
    elif o == 'i':
      s(a[0])
      w('[')
      s(a[1])
      w(']')
    elif o == 'it':
      w('#%s' % a[-1])
    elif o == 'new':
      w('new:%s:%s' % (a[0], a[1] if len(a) > 1 else ''))
    elif o == 'call':
      s(a[0]) if isinstance(a[0], T) else w(str(a[0]))
      w('(')
      args(a[1:])
      w(')')
    elif o == 'kw':
      w('%s=' % a[0])
      s(a[1])
    else:
      w(o + '(')
      args(a)
      w(')')
  try:
    s(t)
  except _Full:
    out.append('…')
  return ''.join(out)
