"""Canonical forms of value-flow terms.

Two terms that differ only in how the program is written (names, helpers,
statement order, the form of a condition or of an algebraic expression) get the
same text: arithmetic becomes a polynomial over its inputs, propositional
structure becomes an ordered decision diagram over its comparison atoms,
allocated objects are named by where they are stored.
"""
import hashlib
from fractions import Fraction

from wodlint import term as t
from wodlint.term import T, mk

_ARITH = {'add', 'sub', 'mul', 'div', 'neg', 'off'}
_COND = {'not', 'and', 'or', 'lt', 'ilt', 'eq'}
_BARRIER = {'fold', 'phi', 'lam', 'vb', 'bool', 'lambda'}
MAXATOMS = 40     # deepest case split, and
MAXSPLIT = 1000   # how many splits one value may take before it is spelt structurally
MAXORDER = 40
MAXWORK = 2000
MAXUNDER = 3000  # terms inside loops looked at again under what is known outside
LONG = 240


class _Many(Exception):
  pass


def coef(x):
  return Fraction(x)


def num_str(q):
  if q.denominator == 1:
    return str(q.numerator)
  return repr(float(q))


class Canon(object):
  binders = frozenset()

  def __init__(self, flow=None, ints=None, namer=None):
    self.nonbool = set()
    self.flow = flow
    self.memo = {}
    self.names = {}
    self.busy = set()
    self.long = {}
    self.nodes = {}
    self.splits = self.work = 0
    self.recs, self.own = [], {}
    self.inatom = self.unders = 0
    self.namer = namer

  def ab(self, s):
    """Long texts are referred to by digest, so shared sub-terms stay shared."""
    if len(s) <= LONG:
      return s
    h = '\u00ab%s\u00bb' % hashlib.sha256(s.encode()).hexdigest()[:12]
    self.long[h] = s
    return h

  # ---------------------------------------------------------- public
  def full(self, x):
    """Canonical text of a term."""
    key = ('full', x.n)
    r = self.memo.get(key)
    if r is None:
      try:
        r = self.diagram(x, {})
      except _Many:
        r = self.flat(x)
      r = self.ab(r)
      self.memo[key] = r
    return r

  def diagram(self, x, env):
    saved, self.splits = self.splits, 0
    self.recs.append(self.own.setdefault(x.n, set()))
    inatom, self.inatom = self.inatom, 0
    try:
      n = self.shannon(x, env, 0)
    finally:
      self.splits, self.inatom = saved, inatom
      self.recs.pop()
    return self.tree(self.ordered(n))

  def under(self, x, env):
    """Text of a term that has its own diagram, where the conditions in env are known."""
    r = self.full(x)
    if not env or self.inatom:     # a condition is named without regard to what is known inside loops
      return r
    s = self.conditions(x)
    if not s:
      return r
    rel = any(y in self.atominfo for y in s)
    e2 = {k: b for k, b in env.items() if k in s or rel and k in self.atominfo}
    if not e2:
      return r
    key = ('under', x.n, frozenset(e2.items()))
    r = self.memo.get(key)
    if r is None:
      self.unders += 1
      try:
        if self.unders > MAXUNDER:
          raise _Many()
        r = self.ab(self.diagram(x, e2))
      except _Many:
        r = self.full(x)
      self.memo[key] = r
    return r

  def conditions(self, x):
    """The atoms met in the diagram of x and in those inside it (after full(x))."""
    key = ('cnd', x.n)
    r = self.memo.get(key)
    if r is None:
      out = set(self.own.get(x.n, ()))
      seen, st = set(), [x]
      while st:
        y = st.pop()
        for z in t.kids(y):
          if z.n not in seen:
            seen.add(z.n)
            if y.op in _BARRIER or y.op in self.binders:
              self.full(z)
              out |= self.conditions(z)
            else:
              st.append(z)
      r = self.memo[key] = frozenset(out)
    return r

  def flat(self, x):
    """Fallback for terms with very many conditions: structural text."""
    if x.op == 'ite':
      k, a, b = (self.full(y) for y in x.a)
      n = self.full(t.not_(x.a[0]))
      return '?(%s: %s | %s)' % ((k, a, b) if (len(k), k) <= (len(n), n) else (n, b, a))
    ks = [self.full(y) if isinstance(y, T) else repr(y) for y in x.a]
    if x.op in ('add', 'mul', 'and', 'or', 'eq', 'phi'):
      ks.sort()
    return '%s(%s)' % (x.op, ', '.join(ks))

  def tree(self, n):
    if isinstance(n, str):
      return n
    a, hi, lo = n
    if hi == 'true' and lo == 'false':
      return a
    if hi == 'false' and lo == 'true':
      return '!' + a if a.startswith('(') else '!(%s)' % a
    return '?(%s: %s | %s)' % (a, self.ab(self.tree(hi)), self.ab(self.tree(lo)))

  # ---------------------------------------------------------- decision diagrams
  def ordered(self, n):
    """The diagram with its atoms in one order, whatever order they were found in."""
    if isinstance(n, str):
      return n
    lv = set()
    ats = set()
    st, seen = [n], set()
    while st:
      y = st.pop()
      if isinstance(y, str):
        lv.add(y)
      elif id(y) not in seen:
        seen.add(id(y))
        ats.add(y[0])
        st += [y[1], y[2]]
    if ('true' in lv or 'false' in lv) and lv - {'true', 'false'} - self.nonbool:
      n = self.booleans(n, {})
    elif len(ats) <= 1:
      return n
    self.work = 0
    try:
      return self.order(n, {}, {}) if len(ats) <= MAXORDER else n
    except _Many:
      return n

  def booleans(self, n, memo):
    if isinstance(n, str):
      if n in ('true', 'false') or n in self.nonbool:
        return n
      neg = n.startswith('!(') and n.endswith(')') and balanced(n[2:-1])
      return self.node(n[2:-1], 'false', 'true') if neg else self.node(n, 'true', 'false')
    r = memo.get(id(n))
    if r is None:
      r = memo[id(n)] = self.node(n[0], self.booleans(n[1], memo), self.booleans(n[2], memo))
    return r

  def node(self, at, hi, lo):
    """The one tuple for these children: equal diagrams are one object."""
    if hi == 'absl::OkStatus()' and isinstance(lo, str) and at == 'absl::Status::ok(%s)' % lo:
      return lo      # an OK status is like any other
    key = (at, hi if isinstance(hi, str) else id(hi), lo if isinstance(lo, str) else id(lo))
    r = self.nodes.get(key)
    if r is None:
      r = self.nodes[key] = (at, hi, lo)
    return r

  def restrict(self, n, env, memo):
    if isinstance(n, str):
      return n
    r = memo.get(id(n))
    if r is not None:
      return r[0]
    d = self.decide(n[0], env)
    if d is not None:
      r = self.restrict(n[1] if d else n[2], env, memo)
    else:
      hi, lo = self.restrict(n[1], env, memo), self.restrict(n[2], env, memo)
      r = hi if same(hi, lo) else self.node(n[0], hi, lo)
    memo[id(n)] = (r, n)
    return r

  def order(self, n, env, memo):
    if isinstance(n, str):
      return n
    key = (id(n), frozenset((a, b) for a, b in env.items() if a in self.atominfo))
    if key in memo:
      return memo[key]
    self.work += 1
    if self.work > MAXWORK:
      raise _Many()
    ats, st = set(), [n]
    seen = set()
    while st:
      y = st.pop()
      if not isinstance(y, str) and id(y) not in seen:
        seen.add(id(y))
        ats.add(y[0])
        st += [y[1], y[2]]
    v = min(ats)
    outs = []
    for b in (True, False):
      e2 = dict(env)
      e2[v] = b
      outs.append(self.order(self.restrict(n, e2, {}), e2, memo))
    r = outs[0] if same(outs[0], outs[1]) else None
    if r is None and v in self.atominfo:       # one side may cover the other: v adds nothing to what the other atoms say
      for k in (0, 1):
        e2 = dict(env)
        e2[v] = k == 1
        if same(self.restrict(outs[k], e2, {}), outs[1 - k]):
          r = outs[k]
          break
    if r is None:
      r = self.node(v, outs[0], outs[1])
    memo[key] = r
    return r

  def shannon(self, x, env, depth):
    at = self.first_atom(x, env)
    if at is None:
      return self.val(x, env)
    self.splits += 1
    if depth > MAXATOMS or self.splits > MAXSPLIT:
      raise _Many()
    outs = []
    for b in (True, False):
      e2 = dict(env)
      e2[at] = b
      outs.append(self.shannon(x, e2, depth + 1))
    if same(outs[0], outs[1]):
      return outs[0]
    return self.node(at, outs[0], outs[1])

  def first_atom(self, x, env):
    s = self.atoms(x, env)
    return min(s) if s else None

  def atoms(self, x, env):
    """Undecided condition atoms that matter to x under env (innermost only)."""
    key = ('at', x.n, frozenset(env.items()))
    r = self.memo.get(key)
    if r is not None:
      if self.recs:
        self.recs[-1].update(r)
      return r
    r = self._atoms(x, env)
    self.memo[key] = r
    if self.recs:
      self.recs[-1].update(r)
    return r

  def _atoms(self, x, env):
    o = x.op
    if o in ('c', 'p', 'g', 'it', 'self', 'lv', 'enum', 'loc', 'uninit', 'undef', 'void', 'any', 'new') or o in _BARRIER:
      return frozenset()
    if o == 'ite':
      a = self.catoms(x.a[0], env)
      if a:
        return a
      return self.atoms(x.a[1] if self.truth(x.a[0], env) else x.a[2], env)
    if o in _COND:
      return self.catoms(x, env)
    r = frozenset()
    for y in t.kids(x):
      r |= self.atoms(y, env)
    return r

  def catoms(self, x, env):
    o = x.op
    if o == 'c':
      return frozenset()
    if o == 'not':
      return self.catoms(x.a[0], env)
    if o in ('and', 'or'):
      r = frozenset()
      for y in x.a:
        a = self.catoms(y, env)
        if not a:
          if self.truth(y, env) == (o == 'or'):
            return frozenset()
        r |= a
      return r
    if o == 'ite':
      a = self.catoms(x.a[0], env)
      if a:
        return a
      return self.catoms(x.a[1] if self.truth(x.a[0], env) else x.a[2], env)
    inner = frozenset()
    for y in t.kids(x) if o not in _BARRIER else ():
      inner |= self.atoms(y, env)
    if inner:
      return inner
    s = self.atom(x, env)
    if s in ('true', 'false') or self.decide(s, env) is not None:
      return frozenset()
    return frozenset([s])

  def truth(self, x, env):
    o = x.op
    if o == 'c':
      return bool(x.a[0])
    if o == 'not':
      return not self.truth(x.a[0], env)
    if o == 'and':
      for y in x.a:
        if not self.catoms(y, env) and not self.truth(y, env):
          return False
      return True
    if o == 'or':
      for y in x.a:
        if not self.catoms(y, env) and self.truth(y, env):
          return True
      return False
    if o == 'ite':
      return self.truth(x.a[1] if self.truth(x.a[0], env) else x.a[2], env)
    s = self.atom(x, env)
    if s in ('true', 'false'):
      return s == 'true'
    d = self.decide(s, env)
    if d is None:
      raise AssertionError('undecided atom ' + s)
    return d

  def decide(self, s, env):
    if s in env:
      return env[s]
    info = self.atominfo.get(s)
    if not info:
      return None
    for k, b in env.items():
      i2 = self.atominfo.get(k)
      if not i2:
        continue
      # x == K1 excludes x == K2
      if info[0] == 'eqc' and i2[0] == 'eqc' and b and info[1] == i2[1] and info[2] != i2[2]:
        return False
      # a < b excludes b < a and a == b;  a == b excludes both
      if info[0] == 'lt' and i2[0] == 'lt' and b and info[1] == i2[2]:
        return False
      if info[0] == 'lt' and i2[0] == 'eq' and b and i2[1] in (info[1], info[2]):
        return False
      if info[0] == 'eq' and i2[0] == 'lt' and b and info[1] in (i2[1], i2[2]):
        return False
    return None

  @property
  def atominfo(self):
    d = self.memo.get('atominfo')
    if d is None:
      d = self.memo['atominfo'] = {}
    return d

  def atom(self, x, env):
    key = ('atom', x.n, frozenset(env.items()))
    r = self.memo.get(key)
    if r is None:
      self.inatom += 1
      try:
        r = self._atom(x, env)
      finally:
        self.inatom -= 1
      if len(r) > LONG:
        r2 = self.ab(r)
        if r in self.atominfo:
          self.atominfo[r2] = self.atominfo[r]
        r = r2
      self.memo[key] = r
    return r

  def _atom(self, x, env):
    if x.op in ('lt', 'ilt'):
      pa = self.poly(x.a[0], env)
      pb = self.poly(x.a[1], env)
      d = padd(pa, pscale(pb, Fraction(-1)))
      d = pscale(d, 1 / self.scale(d, True))
      k = pconst(d)
      if k is not None:
        return 'true' if k < 0 else 'false'
      if self.all_int(d):
        # p < 0 over the integers: keep only one of  p < 0  and  -p - 1 >= 0
        n = padd(pscale(d, Fraction(-1)), {(): Fraction(-1)})
        s, s2 = self.pstr(d), self.pstr(n)
        # canonical reading is always the text as written; its complement is
        # recognised by decide()
        r = '(%s<0)' % s
        self.atominfo[r] = ('lt', s, s2 if s2 != s else None)
        return r
      s = self.pstr(d)
      n = self.pstr(pscale(d, Fraction(-1)))
      r = '(%s<0)' % s
      self.atominfo[r] = ('lt', s, n)
      return r
    if x.op == 'eq':
      a, b = x.a
      while a.op == 'ite':
        a = a.a[1] if self.truth(a.a[0], env) else a.a[2]
      while b.op == 'ite':
        b = b.a[1] if self.truth(b.a[0], env) else b.a[2]
      if self.numeric(a) or self.numeric(b):
        d = padd(self.poly(a, env), pscale(self.poly(b, env), Fraction(-1)))
        k = pconst(d)
        if k is not None:
          return 'true' if k == 0 else 'false'
        d = pscale(d, 1 / self.scale(d, False))
        c0 = d.get((), Fraction(0))
        rest = {m: v for m, v in d.items() if m != ()}
        rs = self.pstr(rest)
        r = '(%s==%s)' % (rs, num_str(-c0))
        if len(rest) >= 1:
          self.atominfo[r] = ('eqc', rs, str(c0))
          if hasattr(self, 'reals'):
            self.rests.setdefault(rs, rest)
            x, y = self.ab('(%s<0)' % self.pstr(d)), self.ab('(%s<0)' % self.pstr(pscale(d, Fraction(-1))))
            self.reals[self.ab(r)] = x, y
            self.realof[x] = self.ab(r), y
            self.realof[y] = self.ab(r), x
        return r
      sa, sb = self.val(a, env), self.val(b, env)
      if sa == sb:
        return 'true'
      ka, kb = self.isconst(a), self.isconst(b)
      if ka and kb:
        return 'false'
      if ka:
        sa, sb = sb, sa
      elif not kb and sb < sa:
        sa, sb = sb, sa
      r = '(%s==%s)' % (sa, sb)
      if ka or kb:
        self.atominfo[r] = ('eqc', sa, sb)
      return r
    return self.val(x, env)

  def isconst(self, x):
    return x.op in ('c', 'enum') or (x.op == 'g' and str(x.a[0]).rsplit('.', 1)[-1].isupper())

  def numeric(self, x):
    if x.op == 'c':
      return isinstance(x.a[0], (int, float)) and not isinstance(x.a[0], bool)
    return x.op in _ARITH or x.op in ('size', 'it', 'mod', 'idiv', 'trunc', 'lv', 'fold')

  def all_int(self, d):
    return False

  # ---------------------------------------------------------- arithmetic
  def poly(self, x, env):
    key = ('p', x.n, frozenset(env.items()), self.inatom > 0)
    r = self.memo.get(key)
    if r is None:
      r = self.memo[key] = self._poly(x, env)
    return r

  def _poly(self, x, env):
    o = x.op
    if o == 'ite':
      return self.poly(x.a[1] if self.truth(x.a[0], env) else x.a[2], env)
    if o == 'c' and isinstance(x.a[0], (int, float)) and not isinstance(x.a[0], bool):
      v = x.a[0]
      if v != v or v in (float('inf'), float('-inf')):
        return {(('%r' % v, 1),): Fraction(1)}
      return {(): coef(v)} if v else {}
    if o == 'add' or o == 'mul':
      r = None
      for y in x.a:
        q = self.poly(y, env)
        r = q if r is None else (padd(r, q) if o == 'add' else self.pmul(r, q))
      return r
    if o == 'sub':
      return padd(self.poly(x.a[0], env), pscale(self.poly(x.a[1], env), Fraction(-1)))
    if o == 'neg':
      return pscale(self.poly(x.a[0], env), Fraction(-1))
    if o == 'off':
      return padd(self.poly(x.a[0], env), {(): Fraction(x.a[1])})
    if o == 'div':
      a, b = self.poly(x.a[0], env), self.poly(x.a[1], env)
      return self.pmul(a, self.pinv(b))
    return {((self.val(x, env, True), 1),): Fraction(1)}

  def pinv(self, b):
    if len(b) == 1:
      (m, k), = b.items()
      return {tuple((a, -e) for a, e in m): 1 / k}
    if not b:
      return {(('inv(0)', 1),): Fraction(1)}
    s = self.scale(b, False)
    return {(('(%s)' % self.pstr(pscale(b, 1 / s)), -1),): 1 / s}

  def scale(self, d, positive):
    ks = [m for m in d if m != ()]
    if not ks:
      return Fraction(1)
    k = d[min(ks)]
    return abs(k) if positive else k

  def pmul(self, a, b):
    if len(a) * len(b) > 24:
      if len(a) > 1:
        a = {((self.ab('(%s)' % self.pstr(a)), 1),): Fraction(1)}
      if len(b) > 1:
        b = {((self.ab('(%s)' % self.pstr(b)), 1),): Fraction(1)}
    out = {}
    for m, x in a.items():
      for n, y in b.items():
        d = dict(m)
        for k, e in n:
          d[k] = d.get(k, 0) + e
        key = tuple(sorted((k, e) for k, e in d.items() if e))
        out[key] = out.get(key, Fraction(0)) + x * y
    return {k: v for k, v in out.items() if v}

  def pstr(self, d):
    if not d:
      return '0'
    out = []
    for m in sorted(d):
      k = d[m]
      f = '*'.join(a if e == 1 else '%s^%d' % (a, e) for a, e in m)
      if not f:
        out.append(num_str(k))
      elif k == 1:
        out.append(f)
      elif k == -1:
        out.append('-' + f)
      else:
        out.append(num_str(k) + '*' + f)
    return '+'.join(out).replace('+-', '-')

  # ---------------------------------------------------------- values
  def val(self, x, env, raw=False):
    key = ('v', x.n, frozenset(env.items()), raw, self.inatom > 0)
    r = self.memo.get(key)
    if r is None:
      r = self.ab(self._val(x, env, raw))
      if not self.busy:
        self.memo[key] = r
    return r

  def _val(self, x, env, raw):
    o, a = x.op, x.a
    if o == 'ite':
      return self.val(a[1] if self.truth(a[0], env) else a[2], env)
    if o in _COND:
      return 'true' if self.truth(x, env) else 'false'
    if o in _ARITH and not raw:
      return self.pstr(self.poly(x, env))
    if o == 'c':
      v = a[0]
      if isinstance(v, bool):
        return 'true' if v else 'false'
      if isinstance(v, float) and v == int(v) if isinstance(v, float) and abs(v) < 1e15 else False:
        return str(int(v))
      return repr(v)
    if o in ('p', 'g'):
      n = str(a[0])
      return self.namer(n) if self.namer else n
    if o == 'f':
      return '%s.%s' % (self.base(a[0], env), a[1])
    if o == 'i':
      return '%s[%s]' % (self.base(a[0], env), self.val(a[1], env))
    if o == 'ix':
      return ','.join(self.val(y, env) for y in a)
    if o == 'it':
      lo, hi = self.full(a[0]), self.full(a[1])
      return '#%s<%s>' % (a[2], hi if lo == '0' else lo + '..' + hi)
    if o == 'enum':
      return str(a[0])

    if o == 'new':
      return '~%s{}' % str(a[0]).split('<')[0].split('::')[-1]
    if o == 'call':
      n = a[0] if not isinstance(a[0], T) else self.val(a[0], env)
      return '%s(%s)' % (n, ', '.join(self.args(a[1:], env)))
    if o == 'pre':
      return self.val(a[0], env)
    if o == 'self0':
      return ''
    if o == 'state':
      return '%s{%s}' % (a[0].a[0], '; '.join(sorted(self.val(y, env) for y in a[1:])))
    if o == 'kw':
      return '%s=%s' % (a[0], self.val(a[1], env))
    if o in ('list', 'tuple'):
      return '[%s]' % ', '.join(self.val(y, env) for y in a)
    if o == 'phi':
      return 'any{%s}' % ', '.join(sorted(set(self.under(y, env) for y in a)))
    if o == 'vb':
      return '{%s}' % self.under(a[0], env)
    if o == 'bool':
      return '{%s %s %s}' % (self.under(a[1], env), a[0], self.under(a[2], env))
    if o == 'lambda':
      return '\\{%s}' % self.under(a[0], env)
    if o == 'tuple':
      return '(%s)' % ', '.join(self.val(y, env) for y in a)
    if o == 'set':
      return 'set{%s}' % ', '.join(sorted(self.val(y, env) for y in a))
    if o == 'dict':
      return 'dict{%s}' % ', '.join(sorted(self.val(y, env) for y in a))
    if o == 'kv':
      return '%s: %s' % (self.val(a[0], env), self.val(a[1], env)) if len(a) == 2 else 'kv'
    if o == 'slice':
      return ':'.join('' if t.is_c(y, None) else self.val(y, env) for y in a[:2]) + ('' if t.is_c(a[2], None) else ':' + self.val(a[2], env))
    if o in ('vmax', 'vmin'):
      return '%s(%s)' % (o, ', '.join(sorted(self.val(y, env) for y in a)))
    if o == 'ellipsis':
      return '...'
    if o == 'append':
      return '%s ++ %s' % (self.val(a[0], env), self.val(a[1], env))
    if o == 'self':
      return '@'
    if o == 'lv':
      return '@'
    if o == 'loc':
      return 'loc'
    if o in ('max', 'min', 'bitand', 'bitor'):
      return '%s(%s)' % (o, ', '.join(sorted(self.val(y, env) for y in a)))
    return '%s(%s)' % (o, ', '.join(self.val(y, env) if isinstance(y, T) else str(y) for y in a if not (o == 'lam')))

  def base(self, x, env):
    s = self.val(x, env)
    return '(%s)' % s if self.bare(x, env) else s

  def bare(self, x, env):
    while x.op == 'ite':
      x = x.a[1] if self.truth(x.a[0], env) else x.a[2]
    return x.op in _ARITH or x.op == 'append'

  def args(self, xs, env):
    pos = [self.val(y, env) for y in xs if not (isinstance(y, T) and y.op == 'kw')]
    kws = sorted(self.val(y, env) for y in xs if isinstance(y, T) and y.op == 'kw')
    return pos + kws

  def addend(self, step, me):
    """step == me + e with e free of me."""
    if step is me:
      return t.c(0)
    if step.op == 'ite':
      if self.mentions(step.a[0], me):
        return None
      a, b = self.addend(step.a[1], me), self.addend(step.a[2], me)
      return t.ite(step.a[0], a, b) if a is not None and b is not None else None
    if step.op == 'fold':
      e = self.addend(step.a[1], me)
      if e is None or self.mentions(step.a[2], me) or self.addend(step.a[2], step.a[0]) is None:
        return None
      return mk('fold', step.a[0], e, step.a[2], step.a[3])
    if step.op == 'off' and step.a[0] is me:
      return t.c(step.a[1])
    if step.op == 'off':
      e = self.addend(step.a[0], me)
      return t.arith('add', e, t.c(step.a[1])) if e is not None else None
    if step.op == 'add' and me in step.a:
      rest = list(step.a)
      rest.remove(me)
      if any(self.mentions(y, me) for y in rest):
        return None
      r = rest[0]
      for y in rest[1:]:
        r = t.arith('add', r, y)
      return r
    if step.op == 'sub':
      e = self.addend(step.a[0], me)
      if e is not None and not self.mentions(step.a[1], me):
        return t.arith('sub', e, step.a[1])
    return None

  def mentions(self, x, y):
    return any(z is y for z in t.walk(x))


def same(a, b):
  return a is b or isinstance(a, str) and a == b


def balanced(s):
  k = 0
  for ch in s:
    k += (ch == '(') - (ch == ')')
    if k < 0:
      return False
  return k == 0


def plain(x):
  return str(x.a[0]) in ('list', 'set', 'tuple', 'dict')


def padd(a, b):
  out = dict(a)
  for m, v in b.items():
    s = out.get(m, Fraction(0)) + v
    if s:
      out[m] = s
    else:
      out.pop(m, None)
  return out


def pscale(a, k):
  return {m: v * k for m, v in a.items()}


def pconst(d):
  if not d:
    return Fraction(0)
  if list(d) == [()]:
    return d[()]
  return None
