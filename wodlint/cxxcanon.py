"""Canonical texts of the values of the C++ analysis, and summaries made of them."""
from fractions import Fraction

from wodlint import canon
from wodlint import term as t
from wodlint import vals as V
from wodlint.canon import padd, pscale
from wodlint.term import T, mk

_BIND = ('fold', 'any', 'first', 'lambda', 'brk', 'sortedby', 'leave')


def tyname(s):
  """Last component of a type's name, template arguments kept."""
  out, cur = [], ''
  for ch in str(s):
    if ch.isalnum() or ch in '_:':
      cur += ch
    else:
      out.append(cur.split('::')[-1])
      out.append(ch)
      cur = ''
  out.append(cur.split('::')[-1])
  return ''.join(out).replace(' ', '')


def rectext(base, fields):
  if not fields:
    return base
  return '%s{%s}' % (base[:-2] if base.endswith('{}') else base, fields)


class CxxCanon(canon.Canon):
  binders = frozenset(_BIND)

  def __init__(self):
    canon.Canon.__init__(self, None)
    self.nonneg = set()
    self.rests = {}
    self.realof = {}
    self.reals = {}    # equation -> the two strict inequalities it excludes

  # ---------------------------------------------------------- conditions
  def _atoms(self, x, env):
    o = x.op
    if o in _BIND:
      if o == 'fold' and len(x.a) == 4 and self.addend(x.a[3], mk('bl', x.a[1], 0)) is not None:
        return self.atoms(x.a[2], env)
      return self.catoms(x, env) if o == 'any' else frozenset()
    if o in ('bv', 'bl', 'bp', 'zero', 'g', 'inf', 'local', 'unset', 'lvar'):
      return frozenset()
    return canon.Canon._atoms(self, x, env)

  def catoms(self, x, env):
    if x.op in _BIND:
      s = self.atom(x, env)
      return frozenset() if self.decide(s, env) is not None else frozenset([s])
    if x.op == 'ilt':
      inner = self.atoms(x.a[0], env) | self.atoms(x.a[1], env)
      if inner:
        return inner
      s = self.iatom(x, env)[0]
      if s in ('true', 'false') or self.decide(s, env) is not None:
        return frozenset()
      return frozenset([s])
    return canon.Canon.catoms(self, x, env)

  def truth(self, x, env):
    if x.op == 'ilt':
      s, pos = self.iatom(x, env)
      if s in ('true', 'false'):
        return (s == 'true') == pos
      d = self.decide(s, env)
      if d is None:
        raise AssertionError('undecided atom ' + s)
      return d == pos
    return canon.Canon.truth(self, x, env)

  def iatom(self, x, env):
    """Integer a < b as (atom, polarity); a < b and b < a + 1 share an atom."""
    key = ('iatom', x.n, frozenset(env.items()))
    r = self.memo.get(key)
    if r is None:
      self.inatom += 1
      try:
        r = self.memo[key] = self._iatom(x, env)
      finally:
        self.inatom -= 1
    return r

  def _iatom(self, x, env):
    d = padd(self.poly(x.a[0], env), pscale(self.poly(x.a[1], env), Fraction(-1)))
    rest = {m: v for m, v in d.items() if m != ()}
    if not rest:
      return ('true' if d.get((), 0) < 0 else 'false'), True
    pos = True
    if rest[min(rest)] < 0:
      # d < 0  is  not (-d - 1 < 0)
      d = padd(pscale(d, Fraction(-1)), {(): Fraction(-1)})
      rest = {m: v for m, v in d.items() if m != ()}
      pos = False
    k = d.get((), Fraction(0))
    rs = self.pstr(rest)
    self.rests[rs] = rest
    return self.below(rs, -k), pos

  def below(self, rs, k):
    """The atom: the integer rs is less than k."""
    rest = self.rests[rs]
    if len(rest) == 1:
      (m, v), = rest.items()
      if v == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0] in self.nonneg:
        if k <= 0:
          return 'false'
        if k == 1:
          return self.short('(%s==0)' % rs, ('eqc', rs, '0'))
    return self.short('(%s<0)' % self.pstr(padd(rest, {(): -k} if k else {})), ('thr', rs, k))

  def short(self, r, info):
    r2 = self.ab(r)
    if info:
      self.atominfo[r2] = info
    return r2

  def numeric(self, x):
    return canon.Canon.numeric(self, x) or x.op in ('bv', 'max', 'min', 'lvar')

  # ---------------------------------------------------------- order
  def decide(self, s, env):
    r = canon.Canon.decide(self, s, env)
    if r is not None or not env:
      return r
    if s in self.reals:
      b = [env.get(x) for x in self.reals[s]]
      if b != [None, None]:
        return False if True in b else True if b == [False, False] else None
    elif s in self.realof:
      eq, other = self.realof[s]
      if env.get(eq):
        return False
      return True if env.get(eq) is False and env.get(other) is False else None
    info = self.atominfo.get(s)
    if not info or info[0] not in ('thr', 'eqc') or info[1] not in self.rests or number(info[2]) is None:
      return None
    lo = hi = None      # lo <= rest < hi
    for k, b in env.items():
      i2 = self.atominfo.get(k)
      if not i2 or i2[1] != info[1]:
        continue
      if i2[0] == 'thr':
        if b:
          hi = i2[2] if hi is None else min(hi, i2[2])
        else:
          lo = i2[2] if lo is None else max(lo, i2[2])
      elif i2[0] == 'eqc' and number(i2[2]) is None:
        pass
      elif i2[0] == 'eqc' and b:
        lo = -Fraction(i2[2])
        hi = lo + 1
      elif i2[0] == 'eqc' and i2[1] in self.nonneg and i2[2] == '0':
        lo = Fraction(1) if lo is None else max(lo, 1)
    if info[0] == 'thr':
      if hi is not None and hi <= info[2]:
        return True
      if lo is not None and lo >= info[2]:
        return False
      return None
    v = -Fraction(info[2])
    if hi is not None and v >= hi or lo is not None and v < lo:
      return False
    if hi is not None and lo is not None and lo == v and hi == v + 1:
      return True
    return None

  def ordered(self, n):
    if not isinstance(n, str):
      ats, st, seen = set(), [n], set()
      while st:
        y = st.pop()
        if not isinstance(y, str) and id(y) not in seen:
          seen.add(id(y))
          ats.add(y[0])
          st += [y[1], y[2]]
      info = [self.atominfo.get(x) for x in ats]
      thr = set(x[1] for x in info if x and x[0] == 'thr')
      hit = {}
      for x, i in zip(ats, info):
        if i and i[0] == 'eqc' and i[1] in thr and number(i[2]) is not None:
          v = -Fraction(i[2])
          if self.below(i[1], v + 1) != x:
            hit[x] = 'int', self.below(i[1], v + 1), self.below(i[1], v)
        elif x in self.reals and len(ats & set(self.reals[x])):
          hit[x] = ('real',) + self.reals[x]
      if hit:
        n = self.unequal(n, hit, {})
    return canon.Canon.ordered(self, n)

  def unequal(self, n, hit, memo):
    """The diagram with equations written as inequalities."""
    if isinstance(n, str):
      return n
    r = memo.get(id(n))
    if r is None:
      hi, lo = self.unequal(n[1], hit, memo), self.unequal(n[2], hit, memo)
      if n[0] not in hit:
        r = self.node(n[0], hi, lo)
      else:
        kind, a, b = hit[n[0]]
        if kind == 'real':
          r = self.node(a, lo, self.node(b, lo, hi))
        else:
          r = self.node(a, hi if b == 'false' else self.node(b, lo, hi), lo)
      memo[id(n)] = (r, n)
      return r
    return r[0]

  # ---------------------------------------------------------- arithmetic
  def _poly(self, x, env):
    if x.op == 'fold' and len(x.a) == 4:
      e = self.addend(x.a[3], mk('bl', x.a[1], 0))
      if e is not None:
        txt = self.ab('sum{#%d<%s: %s}' % (x.a[1], self.under(x.a[0], env), self.under(e, env)))
        if counts(e):
          self.nonneg.add(txt)
        return padd(self.poly(x.a[2], env), {((txt, 1),): Fraction(1)})
    return canon.Canon._poly(self, x, env)

  def addend(self, step, me):
    if step.op == 'fold' and len(step.a) == 4:
      e = self.addend(step.a[2], me)
      if e is None or self.mentions(step.a[3], me) or self.mentions(step.a[0], me):
        return None
      if self.addend(step.a[3], mk('bl', step.a[1], 0)) is None:
        return None
      return mk('fold', step.a[0], step.a[1], e, step.a[3])
    if step.op in ('fold', 'brk'):
      return None
    return canon.Canon.addend(self, step, me)

  # ---------------------------------------------------------- values
  def val(self, x, env, raw=False):
    r = canon.Canon.val(self, x, env, raw)
    if x.op in ('size', 'bv', 'lvar') or x.op == 'fold' and counts(x):
      self.nonneg.add(r)
    elif x.op == 'leave':
      self.nonbool.add(r)
    return r

  def _val(self, x, env, raw):
    o, a = x.op, x.a
    v = lambda y: self.val(y, env)
    if o == 'fold':
      if len(a) == 4 and not raw:
        e = self.addend(a[3], mk('bl', a[1], 0))
        if e is not None:
          return self.pstr(self.poly(x, env))
      h = a[1]
      parts = ['%s; %s' % (self.under(a[k], env), self.under(leave(a[k + 1]), env)) for k in range(2, len(a), 2)]
      return 'fold{#%d<%s: %s}' % (h, self.under(a[0], env), ' & '.join(parts))
    if o == 'any':
      if not self.inatom:
        return 'true' if self.truth(x, env) else 'false'
      return 'any{#%d<%s: %s}' % (a[1], self.under(a[0], env), self.under(a[2], env))
    if o == 'first':
      return 'first{#%d<%s: %s -> %s}' % (a[1], self.under(a[0], env), self.under(a[2], env), self.under(a[3], env))
    if o == 'brk':      # (met on its own: only its conditions are of interest)
      return 'break{%s: %s | %s}' % tuple(self.under(y, env) for y in a)
    if o == 'leave':
      return 'break{%s}' % self.under(a[0], env)
    if o == 'lambda':
      return '\\%d{%s}' % (a[0], self.under(a[2], env))
    if o == 'it' or o == 'lv':    # a loop variable not bound yet
      return '%s~%d' % (o, x.n)
    if o == 'bv':
      return '#%d' % a[0]
    if o == 'lvar':
      return '#L%d' % a[0]
    if o == 'bl':
      return '@%d.%d' % a
    if o == 'bp':
      return '$%d.%d' % a
    if o == 'inf':
      return 'inf'
    if o == 'rep' and env and V.UNORDERED[0]:
      c = t.compare('==', a[0], t.c(0))
      if not self.catoms(c, env) and self.truth(c, env):
        return '[]'
    if o == 'rec':
      base, d = V.rec(x)
      return rectext(tyname(base.a[0]) + '{}' if base.op == 'zero' else v(base),
                         '; '.join('%s=%s' % (n, w) for n, w in ((n, v(d[n])) for n in sorted(d)) if not self.asbefore(base, n, w, env)))
    if o == 'zero':
      return tyname(a[0]) + '{}'
    if o == 'f' and a[0].op == 'ref':
      return '%s.%s' % (self.base(a[0].a[0], env), a[1])
    if o == 'k':
      return '%s<%s>' % (self.base(a[0], env), v(a[1]))
    if o == 'seti':
      return '%s[%s:=%s]' % (self.base(a[0], env), v(a[1]), v(a[2]))
    if o == 'ref':
      return '&' + self.base(a[0], env)
    if o == 'set':
      return 'set(%s)' % ', '.join(v(y) for y in a)
    if o == 'lam':
      return 'lam'
    if o == 'was':
      return v(a[0])
    if o == 'put':
      r = self.literal(x, env)
      if r is not None:
        return r
    return canon.Canon._val(self, x, env, raw)

  def literal(self, x, env):
    """The text of a (Python) dictionary display, or None."""
    d = {}
    while x.op in ('put', 'ite'):
      if x.op == 'ite':
        x = x.a[1] if self.truth(x.a[0], env) else x.a[2]
        continue
      if x.a[1].op not in ('c', 'enum', 'g'):
        return None
      d.setdefault(self.val(x.a[1], env), x.a[2])
      x = x.a[0]
    if x.op != 'zero' or x.a[0] != 'dict':
      return None
    return 'dict{%s}' % '; '.join('%s: %s' % (k, self.val(d[k], env)) for k in sorted(d))

  def asbefore(self, base, n, w, env):
    old = V.field(base, n)
    return old.op == 'f' and self.val(old, env) == w

  def bare(self, x, env):
    while x.op == 'ite':
      x = x.a[1] if self.truth(x.a[0], env) else x.a[2]
    return canon.Canon.bare(self, x, env) or x.op in ('extend', 'cat')


def number(x):
  try:
    return Fraction(x)
  except ValueError:
    return None


def leave(x):
  """A step with its ways out of the loop as ordinary alternatives."""
  if x.op == 'brk':
    return t.ite(x.a[0], mk('leave', x.a[1]), leave(x.a[2]))
  if x.op == 'ite' and any(y.op == 'brk' for y in V.top(x)):
    return t.ite(x.a[0], leave(x.a[1]), leave(x.a[2]))
  return x


def decide(cnd, x):
  """TRUE / FALSE when x always / never holds where cnd does."""
  cn = CxxCanon()
  if cn.full(t.ite(cnd, x, t.FALSE)) == cn.full(t.FALSE):
    return t.FALSE
  if cn.full(t.ite(cnd, x, t.TRUE)) == cn.full(t.TRUE):
    return t.TRUE
  return None


V.DECIDE[0] = decide


def counts(e, me=()):
  """Is the integer certainly not negative (when those of me are not)?"""
  if e in me:
    return True
  if e.op == 'c':
    return isinstance(e.a[0], int) and e.a[0] >= 0
  if e.op == 'ite':
    return counts(e.a[1], me) and counts(e.a[2], me)
  if e.op == 'add':
    return all(counts(y, me) for y in e.a)
  if e.op == 'off':
    return e.a[1] >= 0 and counts(e.a[0], me)
  if e.op == 'fold':
    return counts(e.a[2], me) and (counts(e.a[3], me + (mk('bl', e.a[1], 0),)))
  return e.op in ('size', 'bv')


class Summary(object):
  """ret: text; stores: location text -> value text; effects: (kind, text) -> site."""

  def __init__(self, flow, ret):
    self.flow = flow
    cn = self.canon = CxxCanon()
    stores, ret = flow.sinks(ret)
    self.ret = cn.full(ret) if ret is not None and ret.op != 'void' else None
    self.stores = {}
    for loc, v in stores:
      self.stores[cn.full(loc)] = cn.full(v)
    self.effects = {}
    self.checks = {}    # (condition text, loops) -> (term, guard): where each condition is demanded
    self.raised = {}    # (what, loops) -> [(guard, line)]: the same error raised in several places
    for e in flow.effects:
      self.add(e)
    for (_, loops), ls in sorted(self.raised.items()):
      if len({y.n for g, _, _ in ls for y in atoms(g)}) <= 16:
        ls = [(t.or_(*[g for g, _, _ in ls]), ls[0][1], ls[0][2])]
      for g, txt, line in ls:
        self.guarded('raise', g, txt, loops, line)
    for (_, loops), (val, g, line) in sorted(self.checks.items()):
      txt = mk('call', 'CHECK', t.or_(t.not_(g), val))
      if txt.a[1] is not t.TRUE:
        self.put('check', cn.full(txt), loops, line)

  def put(self, kind, full, loops, line):
    self.effects.setdefault((kind, full + loops), line)

  def add(self, e):
    cn = self.canon
    m, its = {}, []
    for k, r in enumerate(e.loops):
      its.append(V.subst(self.flow.snap(r.a[0]), m))
      m[r.a[1]] = mk('lvar', k)
    for x in its:      # inside the loop there is something to go over
      for y in ([x] if x.op == 'size' else []):
        m[mk('eq', *sorted((y, t.c(0))))] = t.FALSE
        m[mk('ilt', t.c(0), y)] = t.TRUE
    sub = (lambda x: V.subst(x, m)) if m else (lambda x: x)
    g = t.and_(*[sub(self.flow.snap(x)) for x in e.guards])
    args = [x for x in ([e.val] if isinstance(e.val, T) else []) + [y for y in (e.args or ()) if isinstance(y, T)]]
    args = [sub(self.flow.snap(x)) for x in args]
    loops = ' for ' + ', '.join('#L%d<%s' % (k, cn.full(x)) for k, x in enumerate(its)) if its else ''
    line = '%s:%s' % (e.fn.split('::')[-1], e.line)
    if e.kind == 'check':     # the same condition demanded in several places is one demand
      key = (cn.full(args[0]), loops)
      val, g0, line = self.checks.get(key, (args[0], t.FALSE, line))
      self.checks[key] = (val, t.or_(g0, g), line)
      return
    txt = mk('call', e.kind, *args)
    if e.kind == 'raise':
      self.raised.setdefault((cn.full(txt), loops), []).append((g, txt, line))
      return
    self.guarded(e.kind, g, txt, loops, line)

  def guarded(self, kind, g, txt, loops, line):
    cn = self.canon
    full = cn.full(t.ite(g, txt, t.c('-')) if g.op != 'c' else (txt if g.a[0] else t.c('-')))
    if full != "'-'":
      self.put(kind, full, loops, line)


def atoms(g):
  """The conditions a guard is made of."""
  if g.op in ('and', 'or', 'not', 'ite'):
    for y in g.a:
      for z in atoms(y):
        yield z
  elif g.op != 'c':
    yield g
