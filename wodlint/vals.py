"""Values of the C++ analysis: pure simplifiers over terms.

A value is a term; a container or object is a value too:

  rec(base, n, v, ...)       base with the named fields replaced
  list(...) append(s, v) extend(s, u) rep(n, v) resized(s, n, v) seti(s, ix, v)
  put(m, key, v) putnew(m, key, v) del(m, key) ins(set, v)
  zero(T)                    a default-constructed T
  f(v, n) i(v, ix) k(m, key) parts of a value
  fold(n, h, init, step, ...) the value carried around a loop of n rounds; bv(h)
                             is its round, bl(h, j) its j-th carried value
  brk(c, v, w)               (in a step) leave the loop with v when c, else w
  any(n, h, c)  first(n, h, c, v)   is there a round with c; v of the first such

Bound variables are numbered by height, so equal loops have equal terms.
"""
from wodlint import term as t
from wodlint.term import T, mk, c

INF = mk('inf')


# ------------------------------------------------------------------ variables
def fv(x):
  """Free loop variables (it / lv) of a term."""
  if x._fv is None:
    if x.op in ('it', 'lv'):
      r = frozenset([x])
    else:
      r = frozenset()
      for y in t.kids(x):
        r = r | fv(y)
    x._fv = r
  return x._fv


_BIND = ('fold', 'any', 'first', 'lambda')


def height(x):
  if x._h is None:
    h = x.a[1] if x.op in _BIND else 0
    for y in t.kids(x):
      h = max(h, height(y))
    x._h = h
  return x._h


def close(n, it, lvs, terms):
  """(h, terms) with the loop variables bound."""
  h = 1 + max([0] + [height(x) for x in terms])
  m = {lv: mk('bl', h, k) for k, lv in enumerate(lvs)}
  if it is not None:
    m[it] = mk('bv', h)
  return h, [subst(x, m) for x in terms]


def fields_apart(n, h, init, d, me):
  """A loop assigning some fields of a record, as loops over the fields."""
  it, bv = mk('it', ('each', h)), mk('bv', h)
  lvs = {f: mk('lv', 'each', h, f) for f in d}
  m = {bv: it}
  for v in d.values():
    for y in t.walk(v):
      if y.op == 'f' and y.a[0] is me:
        m[y] = lvs[y.a[1]] if y.a[1] in d else field(init, y.a[1])
  steps = {f: subst(v, m) for f, v in d.items()}
  if any(mentions(v, me) or mentions(v, bv) for v in steps.values()):
    return None
  spec = {lvs[f]: (field(init, f), steps[f]) for f in d}
  base, b = rec(init)
  for f in d:
    b[f] = mkfold(n, it, lvs[f], spec)
  return mkrec(base.a[0] if base.op == 'set' else base, b)


def mkfold(n, it, lv, spec):
  """spec: {lv: (init, step)}; the fold of lv, with what its step depends on."""
  order = [lv]
  k = 0
  while k < len(order):
    # in order of first appearance
    for x in walk_order(spec[order[k]][1]):
      if x.op == 'lv' and x in spec and x not in order:
        order.append(x)
    k += 1
  h, steps = close(n, it, order, [spec[x][1] for x in order])
  a = []
  for x, s in zip(order, steps):
    a += [spec[x][0], s]
  return fold(n, h, *a)


def walk_order(x, seen=None):
  if seen is None:
    seen = set()
  if x.n in seen:
    return
  seen.add(x.n)
  yield x
  for y in t.kids(x):
    for z in walk_order(y, seen):
      yield z


def fold(n, h, *a):
  me = mk('bl', h, 0)
  if len(a) == 2:
    init, step = a
    if step is me:
      return init
    if step.op == 'rec' and step.a[0] is me:
      r = fields_apart(n, h, init, rec(step)[1], me)
      if r is not None:
        return r
    if step.op == 'put' and UNORDERED[0]:
      r = keys_apart(n, h, init, step, me)
      if r is not None:
        return r
    if t.is_c(init, True) or t.is_c(init, False):
      r = exists(n, h, init.a[0], step, me)
      if r is not None:
        return r
    if init.op != 'list' and empty(init) and comprehension(step, me):
      init = mk('list')
      a = (init, step)
    if step.op in ('seti', 'ite') and n is not INF and size(init) is n:
      # every element assigned in turn: the same as appending them in turn
      bv = mk('bv', h)
      v = elementwise(step, me, bv)
      if v is not None:
        it, lv = mk('it', ('each', h)), mk('lv', 'each', h)
        v = subst(v, {mk('i', me, bv): index(init, it), bv: it})
        if not mentions(v, me):
          return mkfold(n, it, lv, {lv: (mk('list'), append(lv, v))})
    if step.op == 'seti' and init.op == 'rep' and n is not INF and step.a[0] is me and step.a[1] is mk('bv', h) and not mentions(step.a[2], me):
      # all but the last few elements assigned in turn
      (x, k), (y, j) = t.split_offset(init.a[0]), t.split_offset(n)
      if x is y and x is not None and 1 <= k - j <= 3:
        it, lv = mk('it', ('each', h)), mk('lv', 'each', h)
        r = mkfold(n, it, lv, {lv: (mk('list'), append(lv, subst(step.a[2], {mk('bv', h): it})))})
        for _ in range(k - j):
          r = append(r, init.a[1])
        return r
    if step.op == 'append' and step.a[0] is me and init.op == 'list' and not init.a and not mentions(step.a[1], me) and (
        not mentions(step.a[1], mk('bv', h))):
      return mk('rep', n, step.a[1])
    if step.op == 'append' and step.a[0] is me:
      x = source(step.a[1], me, mk('bv', h))
      if x is not None and size(x) is n:
        return extend(init, x)      # an element-wise copy
  if len(a) > 2 and n is not INF:
    # one of several carried values is assigned element by element
    bv = mk('bv', h)
    for k in range(0, len(a), 2):
      init, step = a[k], a[k + 1]
      if step.op not in ('seti', 'ite') or size(init) is not n or init.op == 'list' and not init.a:
        continue
      mk_ = mk('bl', h, k // 2)
      v = elementwise(step, mk_, bv)
      if v is None:
        continue
      old = {mk('i', mk_, bv): index(init, mk('it', ('each', h)))}
      b = [subst(subst(x, old), {mk('it', ('each', h)): bv}) if j % 2 else x for j, x in enumerate(a)]
      v = subst(subst(v, old), {mk('it', ('each', h)): bv})
      b[k], b[k + 1] = mk('list'), append(mk_, v)
      if mentions(v, mk_) or any(mentions(b[j], mk_) for j in range(1, len(b), 2) if j != k + 1):
        continue
      return rebind('fold', [n, h] + b)
  return mk('fold', n, h, *a)


def exists(n, h, start, step, me):
  """A flag that some round raises (lowers) for good: is there such a round?"""
  end = c(not start)
  if subst(step, {me: end}) is not end:
    return None
  v = raised(step, me, start)
  if v is None:
    return None
  hit = v if not start else t.not_(v)      # does the round set the flag?
  if mentions(hit, me):
    return None
  h2, (b,) = h, (hit,)
  r = rebind('any', [n, h2, b]) if b.op != 'c' else any_(n, h2, b)
  return r if not start else t.not_(r)


def raised(step, me, start):
  if step.op == 'brk':
    cnd, v, w = step.a
    at = {me: c(start)}
    cnd, v, w = subst(cnd, at), subst(v, at), subst(w, at)
    w = raised(w, me, start)
    if w is None or not t.is_c(v, not start):
      # leaving the loop without having set the flag hides the later rounds
      x = t.ite(cnd, v, c(not start))
      if not (t.is_c(x, not start)) and not (cnd.op == 'c' and not cnd.a[0]):
        return None
    return t.ite(cnd, c(not start), w)
  if any(x.op == 'brk' for x in top(step)):
    return None
  return subst(step, {me: c(start)})


def top(x):
  yield x
  if x.op == 'ite':
    for y in x.a[1:]:
      for z in top(y):
        yield z


def given(v, cnd):
  """v where cnd is known to hold."""
  m = {cnd: t.TRUE}
  for l in (cnd.a if cnd.op == 'and' else (cnd,)):
    if l.op == 'not':
      m[l.a[0]] = t.FALSE
    elif l.op != 'c':
      m[l] = t.TRUE
  m.pop(t.TRUE, None)
  m.pop(t.FALSE, None)
  return subst(v, m)


def source(v, me, bv):
  """The sequence of which v is element number bv."""
  if v.op == 'i' and v.a[1] is bv and not mentions(v.a[0], me) and not mentions(v.a[0], bv):
    return v.a[0]
  if v.op == 'ite' and not mentions(v.a[0], me) and not mentions(v.a[0], bv):
    a, b = source(v.a[1], me, bv), source(v.a[2], me, bv)
    return None if a is None or b is None else join(v.a[0], a, b)
  return None


def elementwise(step, me, bv):
  """v when the step is: element number bv of me becomes v."""
  if step is me:
    return index(me, bv)
  if step.op == 'seti' and step.a[0] is me and step.a[1] is bv:
    return step.a[2]
  if step.op == 'ite':
    a, b = elementwise(step.a[1], me, bv), elementwise(step.a[2], me, bv)
    return None if a is None or b is None else join(step.a[0], a, b)
  return None


def mentions(x, y):
  return any(z is y for z in t.walk(x))


# ------------------------------------------------------------------ substitution
def subst(x, m, memo=None):
  """Replaces sub-terms and simplifies again."""
  if memo is None:
    memo = {}
  r = m.get(x)
  if r is not None:
    return r
  r = memo.get(x.n)
  if r is not None:
    return r
  ks = t.kids(x)
  if not ks:
    r = x
  elif x.op in _BIND:
    h = x.a[1]
    inner = m
    if any(k.op in ('bv', 'bl', 'bp') and k.a[0] == h for k in m):
      inner = {k: v for k, v in m.items() if not (k.op in ('bv', 'bl', 'bp') and k.a[0] == h)}
    mi = memo if inner is m else {}
    a = list(x.a)
    for k, y in enumerate(a):
      if isinstance(y, T):
        bound = (x.op == 'fold' and k > 1 and k % 2 == 1) or (x.op in ('any', 'first', 'lambda') and k > 1)
        a[k] = (subst(y, inner, mi) if bound else subst(y, m, memo))
    r = x if all(p is q for p, q in zip(a, x.a)) else rebind(x.op, a)
  else:
    a = [subst(y, m, memo) if isinstance(y, T) else y for y in x.a]
    r = rebuild(x.op, a) if any(p is not q for p, q in zip(a, x.a)) else x
  memo[x.n] = r
  return r


def rebind(op, a):
  """A binder whose body changed: renumber its variables."""
  bs = [k for k in range(2, len(a)) if isinstance(a[k], T) and (op != 'fold' or k % 2 == 1)]
  h = 1 + max([0] + [height(a[k]) for k in bs])
  if h != a[1]:
    old = a[1]
    ren = {}
    for k in bs:
      for x in t.walk(a[k]):
        if x.op in ('bv', 'bl', 'bp') and x.a[0] == old:
          ren[x] = mk(x.op, h, *x.a[1:])
    for k in bs:
      a[k] = subst(a[k], ren)
    a[1] = h
  if op == 'fold':
    return fold(*([a[0]] + a[1:]))
  if op == 'any':
    return any_(*a)
  return mk(op, *a)


def compare_first(op, a, b):
  """A comparison with what the first such round yields, when every such round decides it."""
  x = a if a.op == 'first' else b
  y = b if x is a else a
  if mentions(y, mk('bv', x.a[1])):
    return None
  if x.a[3] is mk('bv', x.a[1]) and y is x.a[0]:      # a round is one of the rounds
    return c(op == '<' and x is a)
  z = t.compare(op, x.a[3], y) if x is a else t.compare(op, y, x.a[3])
  if z.op != 'c':
    z = DECIDE[0](x.a[2], z) if DECIDE[0] else None
  return z


DECIDE = [None]   # hook: the constant the second condition is whenever the first holds, or None
t.FIRST[0] = compare_first


def any_(n, h, b):
  if b.op == 'c':
    return t.compare('<', c(0), n, True) if b.a[0] and n is not INF else b
  return mk('any', n, h, b)


def rebuild(op, a):
  if op == 'f':
    return field(*a)
  if op == 'i':
    return index(*a)
  if op == 'k':
    return lookup(*a)
  if op == 'size':
    return size(*a)
  if op == 'has':
    return has(*a)
  if op == 'contains':
    return contains(*a)
  if op == 'put':
    return put(*a)
  if op == 'append':
    return append(*a)
  if op == 'ins':
    return ins(*a)
  if op == 'seti':
    return seti(*a)
  if op == 'rec':
    r = a[0]
    for k in range(1, len(a), 2):
      r = setf(r, a[k], a[k + 1])
    return r
  if op == 'ite':
    return join(*a)
  return t.rebuild(op, a)


# ------------------------------------------------------------------ records
def mkrec(base, d):
  if not d:
    return base
  a = []
  for n in sorted(d):
    if d[n].op == 'f' and d[n].a[0] is base and d[n].a[1] == n:
      continue      # as it was
    a += [n, d[n]]
  if a and base.op != 'zero' and RECS[0]:
    r = RECS[0].get(frozenset(d))
    if r is not None and len(a) == 2 * len(d):      # every field given: nothing of the old object is left
      ok, b = True, {}
      for n in d:
        b[n] = whole(d[n], field(base, n), r[1].get(n))
        ok = ok and not mentions_at(b[n], field(base, n), r[1].get(n))
      if ok:
        return mkrec(mk('zero', r[0]), b)
  return mk('rec', base, *a) if a else base


RECS = [None]     # {field names: (class, {field: array length})} of the classes told apart by their fields


def mentions_at(v, old, n):
  """Is v a partial update of the old array?"""
  while v.op == 'seti':
    v = v.a[0]
  return v is old and n is not None


def whole(v, old, n):
  """An array all of whose elements are set."""
  if n is None or v.op != 'seti':
    return v
  got, y = {}, v
  while y.op == 'seti':
    if not (y.a[1].op == 'c' and isinstance(y.a[1].a[0], int)):
      return v
    got.setdefault(y.a[1].a[0], y.a[2])
    y = y.a[0]
  if y is old and set(got) == set(range(n)):
    return mk('list', *[got[k] for k in range(n)])
  return v


def rec(v):
  """(base, {name: value})"""
  if v.op == 'rec':
    return v.a[0], {v.a[k]: v.a[k + 1] for k in range(1, len(v.a), 2)}
  return v, {}


def setf(v, n, x):
  if v.op == 'set':
    v = v.a[0]
  base, d = rec(v)
  d[n] = x
  return mkrec(base, d)


_FM = {}
FIELD0 = [None]   # hook: default value of a field of a default-constructed record


def field(v, n):
  o = v.op
  if o == 'rec':
    for k in range(1, len(v.a), 2):
      if v.a[k] == n:
        return v.a[k + 1]
    return field(v.a[0], n)
  if o == 'ite':
    key = (v.n, n)
    r = _FM.get(key)
    if r is None:
      r = _FM[key] = join(v.a[0], field(v.a[1], n), field(v.a[2], n))
    return r
  if o == 'set':
    return field(v.a[0], n)
  if o == 'first':
    w = field(v.a[3], n)
    return w if not mentions(w, mk('bv', v.a[1])) else rebind('first', [v.a[0], v.a[1], v.a[2], w])
  if o == 'zero' and FIELD0[0] is not None:
    r = FIELD0[0](v.a[0], n)
    if r is not None:
      return r
  return mk('f', v, n)


def join(cnd, a, b):
  """The value after a branch: a when cnd, else b."""
  if a is b:
    return a
  if cnd.op == 'c':
    return a if cnd.a[0] else b
  if a.op == 'rec' or b.op == 'rec':
    ba, da = rec(a)
    bb, db = rec(b)
    if ba is bb:
      return mkrec(ba, {n: join(cnd, da[n] if n in da else field(ba, n), db[n] if n in db else field(bb, n))
                        for n in set(da) | set(db)})
  if a.op == 'seti' and b.op == 'seti' and a.a[0] is b.a[0] and a.a[1] is b.a[1]:
    return seti(a.a[0], a.a[1], join(cnd, a.a[2], b.a[2]))
  if a.op == 'append' and b.op == 'append' and a.a[0] is b.a[0]:
    return append(a.a[0], join(cnd, a.a[1], b.a[1]))
  if a.op == 'brk' or b.op == 'brk':
    return mk('ite', cnd, a, b)
  for lits, x, y in ((cnd.a if cnd.op == 'and' else (cnd,), a, b),
                     ([t.not_(z) for z in (cnd.a if cnd.op == 'or' else (cnd,))], b, a)):
    for e in lits:
      if e.op == 'eq' and any(t.is_c(z, 0) for z in e.a) and any(z.op == 'size' for z in e.a):
        # nothing to go over: the loop leaves what it started with
        n = [z for z in e.a if z.op == 'size'][0]
        m = {z: z.a[2] for z in t.walk(y) if z.op == 'fold' and z.a[0] is n}
        if m and subst(y, m) is x:
          return y
  k, x, y = (cnd, a, b) if cnd.op == 'contains' else (cnd.a[0], b, a) if cnd.op == 'not' and cnd.a[0].op == 'contains' else (None, a, b)
  if k is not None and x.op == 'put' and y.op == 'put':
    # a counter a map does not hold yet counts from nothing
    m = {mk('k', *k.a): c(0), k: t.FALSE}
    if subst(x, m) is y:
      return x
  return t.ite(cnd, a, b)


OPTIONAL = [frozenset()]      # functions returning an optional


def has(v):
  """Is this (optional / message field) value present?"""
  o = v.op
  if o == 'ite':
    return t.ite(v.a[0], has(v.a[1]), has(v.a[2]))
  if o == 'unset':
    return t.FALSE
  if o == 'f':
    b = v.a[0]
    while b.op == 'f':
      b = b.a[0]
    return t.FALSE if b.op == 'zero' else mk('has', v)
  if o == 'g' and str(v.a[0]).endswith('nullopt'):
    return t.FALSE
  if o == 'call' and isinstance(v.a[0], str) and v.a[0] not in OPTIONAL[0]:
    return t.TRUE
  if o in ('p', 'i', 'k', 'call', 'out', 'g', 'it', 'lv', 'bl', 'fold', 'first', 'zero', 'bv'):
    return mk('has', v)
  if v is t.NONE:
    return t.FALSE
  return t.TRUE


# ------------------------------------------------------------------ sequences
def empty(v):
  return v.op == 'list' and not v.a or (v.op == 'f' and v.a[0].op == 'zero') or v.op == 'unset' or v.op == 'zero'


def append(s, v):
  if s.op == 'list':
    return mk('list', *(s.a + (v,)))
  if empty(s):
    return mk('list', v)
  return mk('append', s, v)


def extend(s, u):
  if u.op == 'list':
    for x in u.a:
      s = append(s, x)
    return s
  if empty(s):
    return u
  if u.op == 'fold' and len(u.a) == 4 and u.a[2].op == 'list' and comprehension(u.a[3], mk('bl', u.a[1], 0)):
    # what a loop appends to a list of its own, it may append here at once
    if u.a[2].a:
      s = extend(s, u.a[2])
    return rebind('fold', [u.a[0], u.a[1], s, u.a[3]])
  return mk('extend', s, u)


def ins(s, v):
  """The set s with v: order and repetition do not matter."""
  if s.op == 'fold' and len(s.a) == 4 and inserts(s.a[3], mk('bl', s.a[1], 0)):
    return rebind('fold', [s.a[0], s.a[1], ins(s.a[2], v), s.a[3]])
  vs = []
  while s.op == 'ins':
    vs.append(s.a[1])
    s = s.a[0]
  if v in vs:
    v = None
  for x in sorted(vs + ([v] if v is not None else [])):
    s = mk('ins', s, x)
  return s


def inserts(step, me):
  """Does the step only insert into me?"""
  if step is me:
    return True
  if step.op == 'ins':
    return inserts(step.a[0], me) and not mentions(step.a[1], me)
  if step.op in ('ite', 'brk'):
    return not mentions(step.a[0], me) and inserts(step.a[1], me) and inserts(step.a[2], me)
  if step.op == 'fold' and len(step.a) == 4:
    return inserts(step.a[2], me) and not mentions(step.a[3], me) and not mentions(step.a[0], me) and (
        inserts(step.a[3], mk('bl', step.a[1], 0)))
  return False


def toset(s, zero, base=None):
  """The set of the elements of a sequence value (added to base), or None."""
  base = zero if base is None else base
  o = s.op
  if o == 'list':
    for x in s.a:
      if x.op == 'star':
        return None
      base = ins(base, x)
    return base
  if o == 'append':
    b = toset(s.a[0], zero, base)
    return None if b is None else ins(b, s.a[1])
  if o == 'extend':
    b = toset(s.a[0], zero, base)
    return None if b is None else toset(s.a[1], zero, b)
  if o == 'ite':
    a, b = toset(s.a[1], zero, base), toset(s.a[2], zero, base)
    return None if a is None or b is None else join(s.a[0], a, b)
  if o == 'fold' and len(s.a) == 4 and comprehension(s.a[3], mk('bl', s.a[1], 0)):
    init = toset(s.a[2], zero, base)
    step = _sets(s.a[3], mk('bl', s.a[1], 0))
    if init is not None and step is not None:
      return rebind('fold', [s.a[0], s.a[1], init, step])
  if o == 'call' and s.a[0] in ('sort', 'reverse', 'set', 'shuffle') and len(s.a) == 2:
    return toset(s.a[1], zero, base)
  if base is not zero or o in ('fold', 'c', 'zero', 'put', 'lam', 'g', 'ins'):
    return None
  return None


def _sets(step, me):
  if step is me:
    return me
  if step.op == 'append':
    b = _sets(step.a[0], me)
    return None if b is None else ins(b, step.a[1])
  if step.op in ('ite', 'brk'):
    a, b = _sets(step.a[1], me), _sets(step.a[2], me)
    return None if a is None or b is None else (join if step.op == 'ite' else lambda *z: mk('brk', *z))(step.a[0], a, b)
  if step.op == 'fold' and len(step.a) == 4:
    a, b = _sets(step.a[2], me), _sets(step.a[3], mk('bl', step.a[1], 0))
    return None if a is None or b is None else rebind('fold', [step.a[0], step.a[1], a, b])
  return None


def among(s, key):
  """Is key one of what the comprehension appends or inserts?"""
  n, h, init, step = s.a
  me, bv = mk('bl', h, 0), mk('bv', h)
  it = mk('it', ('each', h))

  def hit(x):
    if x is me:
      return t.FALSE
    if x.op in ('append', 'ins'):
      return t.or_(hit(x.a[0]), t.compare('==', x.a[1], mk('lv', 'key', 0)))
    if x.op == 'ite':
      return t.ite(x.a[0], hit(x.a[1]), hit(x.a[2]))
    return None
  if any(x.op in ('brk', 'fold', 'extend') for x in _tops(step)) or not (comprehension(step, me) or inserts(step, me)):
    return None
  b = subst(subst(hit(step), {bv: it}), {mk('lv', 'key', 0): key})
  h2, (b,) = close(n, it, [], [b])
  return t.or_(contains(init, key), rebind('any', [n, h2, b]) if b.op != 'c' else any_(n, h2, b))


def _tops(x):
  yield x
  if x.op in ('ite', 'brk'):
    for y in x.a[1:]:
      for z in _tops(y):
        yield z
  elif x.op in ('append', 'ins', 'extend'):
    for z in _tops(x.a[0]):
      yield z


def comprehension(step, me):
  """Does the step only append to me?"""
  if step is me:
    return True
  if step.op == 'append' or step.op == 'extend':
    return comprehension(step.a[0], me) and not mentions(step.a[1], me)
  if step.op == 'ite':
    return not mentions(step.a[0], me) and comprehension(step.a[1], me) and comprehension(step.a[2], me)
  if step.op == 'brk':
    return not mentions(step.a[0], me) and comprehension(step.a[1], me) and comprehension(step.a[2], me)
  if step.op == 'fold' and len(step.a) == 4:
    return comprehension(step.a[2], me) and not mentions(step.a[3], me) and not mentions(step.a[0], me) and (
        comprehension(step.a[3], mk('bl', step.a[1], 0)))
  return False


def seti(s, ix, v):
  if s.op == 'list' and ix.op == 'c' and isinstance(ix.a[0], int) and 0 <= ix.a[0] < len(s.a):
    return mk('list', *(s.a[:ix.a[0]] + (v,) + s.a[ix.a[0] + 1:]))
  if s.op == 'seti' and s.a[1] is ix:
    s = s.a[0]
  if s.op == 'append' and size(s.a[0]) is ix:
    return append(s.a[0], v)
  if v.op == 'i' and v.a[0] is s and v.a[1] is ix:
    return s
  if UNORDERED[0] and isnat(ix):
    if s.op == 'seti' and isnat(s.a[1]) and s.a[1].a[0] >= ix.a[0]:     # assigned in any order
      return seti(s.a[0], ix, v) if s.a[1] is ix else seti(seti(s.a[0], ix, v), s.a[1], s.a[2])
    k, x = ix.a[0], s
    while k and x.op == 'seti' and x.a[1] is c(k - 1):
      x, k = x.a[0], k - 1
    if k == 0 and x.op in ('resized', 'rep') and size(x) is c(ix.a[0] + 1):     # every element assigned
      x, vs = s, [v]
      while x.op == 'seti':
        vs.append(x.a[2])
        x = x.a[0]
      return mk('list', *vs[::-1])
  return mk('seti', s, ix, v)


def isnat(x):
  return x.op == 'c' and isinstance(x.a[0], int) and not isinstance(x.a[0], bool) and 0 <= x.a[0] < 32


MANY = ('slice', 'list', 'ellipsis', 'lt', 'ilt', 'eq', 'and', 'or', 'not', 'vb')    # (Python) an index of several elements


def index(s, ix):
  if s.op == 'set':
    s = s.a[0]
  o = s.op
  if (ix.op in MANY or ix is t.NONE) and o in ('list', 'rep', 'append', 'fold'):
    return mk('i', s, ix)
  if ix.op == 'ite' and UNORDERED[0] and all(isnat(x) for x in ix.a[1:]):
    return join(ix.a[0], index(s, ix.a[1]), index(s, ix.a[2]))
  if o == 'list':
    if ix.op == 'c' and isinstance(ix.a[0], int):
      if 0 <= ix.a[0] < len(s.a):
        return s.a[ix.a[0]]
    elif s.a and all(x is s.a[0] for x in s.a):
      return s.a[0]
  elif o == 'seti':
    if s.a[1] is ix:
      return s.a[2]
    if distinct(s.a[1], ix):
      return index(s.a[0], ix)
  elif o == 'rep':
    return s.a[1]
  elif o == 'append':
    n = size(s.a[0])
    if n is ix:
      return s.a[1]
    if distinct(n, ix):
      return index(s.a[0], ix)
  elif o == 'ite':
    return join(s.a[0], index(s.a[1], ix), index(s.a[2], ix))
  elif o == 'fold' and len(s.a) == 4:
    n, h, init, step = s.a
    me, bv = mk('bl', h, 0), mk('bv', h)
    if empty(init) and step.op == 'append' and step.a[0] is me and not mentions(step.a[1], me):
      return subst(step.a[1], {bv: ix})
  return mk('i', s, ix)


def distinct(a, b):
  """Integer terms that certainly differ (equal up to a nonzero offset)."""
  x, k = t.split_offset(a)
  y, m = t.split_offset(b)
  if x is None:
    k = a.a[0]
  if y is None:
    m = b.a[0]
  return x is y and k != m


UNORDERED = [False]     # do entries of a map have no order of their own (C++)?


def apart(a, b):
  """Keys that are certainly different."""
  if a is b:
    return False
  if a.op in ('c', 'enum') and b.op in ('c', 'enum'):
    return True
  return a.op == 'cat' and b.op == 'cat' and len(a.a) == len(b.a) and a.a[:-1] == b.a[:-1] and (
      a.a[-1].op == 'c' and b.a[-1].op == 'c' and a.a[-1] is not b.a[-1])


def keyrank(k):
  return str((k.a[-1] if k.op == 'cat' else k).a[-1])


def put(m, k, v):
  """The map with the entry at k; entries of different keys in one order."""
  if UNORDERED[0] and m.op == 'put':
    if m.a[1] is k and not mentions(v, m):
      return put(m.a[0], k, v)
    if apart(m.a[1], k) and keyrank(k) < keyrank(m.a[1]) and not mentions(v, m):
      return mk('put', put(m.a[0], k, v), m.a[1], m.a[2])
  return mk('put', m, k, v)


def keys_apart(n, h, init, step, me):
  """A loop over entries of a map at fixed keys, as one loop for every key."""
  bv, ent, y = mk('bv', h), [], step
  while y.op == 'put':
    ent.append((y.a[1], y.a[2]))
    y = y.a[0]
  if y is not me or n is INF:
    return None
  for j, (k, v) in enumerate(ent):
    if mentions(k, bv) or mentions(k, me) or not only(v, me, mk('k', me, k)):
      return None
    if any(not apart(k, k2) for k2, _ in ent[:j]):
      return None
  if len(ent) == 1 and not (init.op == 'fold' and entry_key(init) is not None and apart(entry_key(init), ent[0][0]) and (
      keyrank(ent[0][0]) < keyrank(entry_key(init)))):
    return None
  it, lv = mk('it', ('each', h)), mk('lv', 'each', h)
  for k, v in sorted(ent, key=lambda e: keyrank(e[0])):
    init = entry_loop(n, it, lv, init, k, subst(v, {me: lv, bv: it}))
  return init


def entry_key(f):
  return f.a[3].a[1] if f.op == 'fold' and len(f.a) == 4 and f.a[3].op == 'put' and f.a[3].a[0] is mk('bl', f.a[1], 0) else None


def entry_loop(n, it, lv, init, k, v):
  q = entry_key(init)
  if q is not None and apart(q, k) and keyrank(k) < keyrank(q):
    n2, h2, i2, s2 = init.a
    inner = entry_loop(n, it, lv, i2, k, v)
    return mk('fold', n2, h2, inner, s2)
  return mkfold(n, it, lv, {lv: (init, mk('put', lv, k, v))})


def lookup(m, key):
  o = m.op
  if o in ('put', 'putnew'):
    if m.a[1] is key:
      if o == 'put':
        return m.a[2]
      return join(contains(m.a[0], key), lookup(m.a[0], key), m.a[2])
    if apart(m.a[1], key):
      return lookup(m.a[0], key)
  if UNORDERED[0] and entry_key(m) is not None and apart(entry_key(m), key):
    return lookup(m.a[2], key)
  if o == 'ite':
    return join(m.a[0], lookup(m.a[1], key), lookup(m.a[2], key))
  return mk('k', m, key)


def contains(m, key):
  o = m.op
  if o in ('put', 'putnew', 'ins'):
    if m.a[1] is key:
      return t.TRUE
    if apart(m.a[1], key):
      return contains(m.a[0], key)
    return t.or_(t.compare('==', m.a[1], key), contains(m.a[0], key))
  if o == 'del' and m.a[1] is key:
    return t.FALSE
  if o == 'fold' and len(m.a) == 4:
    r = among(m, key)
    if r is not None:
      return r
  if o == 'call' and m.a[0] == 'toset' and len(m.a) == 2 and UNORDERED[0]:
    it = mk('it', ('each', m.n))
    h, (b,) = close(size(m.a[1]), it, [], [t.compare('==', index(m.a[1], it), key)])
    return any_(size(m.a[1]), h, b)
  if o == 'ite':
    return t.ite(m.a[0], contains(m.a[1], key), contains(m.a[2], key))
  if empty(m):
    return t.FALSE
  return mk('contains', m, key)


def keeps_size(x, me):
  if x is me:
    return True
  if x.op in ('ite', 'brk'):
    return keeps_size(x.a[1], me) and keeps_size(x.a[2], me)
  return x.op == 'seti' and keeps_size(x.a[0], me)


def size(x):
  o = x.op
  if o == 'list':
    return c(len(x.a))
  if o == 'append':
    return t.arith('add', size(x.a[0]), c(1))
  if o == 'extend':
    return t.arith('add', size(x.a[0]), size(x.a[1]))
  if o == 'seti':
    return size(x.a[0])
  if o == 'rep':
    return x.a[0]
  if o == 'resized':
    return x.a[1]
  if o == 'ite':
    return each(x, size)
  if o == 'put' and (x.a[0].op in ('put', 'list') or x.a[0].op == 'zero' and x.a[0].a[0] == 'dict') and x.a[1].op in ('c', 'enum'):
    return t.arith('add', size(x.a[0]), c(0 if t.is_c(contains(x.a[0], x.a[1]), True) else 1))
  if o == 'fold' and len(x.a) == 4:
    n, h, init, step = x.a
    me = mk('bl', h, 0)
    if step.op == 'append' and step.a[0] is me and n is not INF:
      return t.arith('add', size(init), n)
    if keeps_size(step, me):
      return size(init)
    s = size(step)
    ms = mk('size', me)
    s2 = subst(s, {ms: me})
    if not any(z is me and False for z in t.walk(s2)) and only(s, me, ms):
      if s is ms:
        return size(init)
      return rebind('fold', [n, h, size(init), s2])
  if o == 'call' and x.a[0] in ('sort', 'stable_sort', 'reverse', 'iota', 'fill', 'shuffle'):
    return size(x.a[1])
  if o == 'c' and isinstance(x.a[0], str):
    return c(len(x.a[0]))
  if empty(x):
    return c(0)
  return SAME(mk('size', x))


def each(x, fn):
  """fn of the value chosen, with what its choice tells."""
  r = []
  for k, l in ((1, x.a[0]), (2, t.not_(x.a[0]))):
    GIVEN.append(l)
    r.append(fn(x.a[k]))
    GIVEN.pop()
  return t.ite(x.a[0], *r)


def SAME(x):
  """The representative of x among the quantities known to be equal to it."""
  return KNOWN[0](x) if KNOWN[0] else x


KNOWN = [None]
GIVEN = []      # conditions known where a size is being taken


def only(x, y, inside):
  """Does y occur in x only inside the term `inside`?"""
  if x is inside:
    return True
  if x is y:
    return False
  return all(only(z, y, inside) for z in t.kids(x))


def is_seq(v):
  if v.op in ('list', 'append', 'extend', 'seti', 'rep', 'resized'):
    return True
  if v.op == 'fold':
    return is_seq(v.a[2]) or v.a[3].op in ('append', 'extend')
  if v.op == 'ite':
    return is_seq(v.a[1]) and is_seq(v.a[2])
  return False


# ------------------------------------------------------------------ locations
def split(loc):
  """(root, [accessor terms outermost last])"""
  path = []
  while loc.op in ('f', 'i', 'k'):
    path.append(loc)
    loc = loc.a[0]
  return loc, path[::-1]


def update(cur, path, fn):
  """cur with the part at path replaced by fn(old part)."""
  if not path:
    return fn(cur)
  a = path[0]
  if a.op == 'f':
    return setf(cur, a.a[1], update(field(cur, a.a[1]), path[1:], fn))
  if a.op == 'i':
    return seti(cur, a.a[1], update(index(cur, a.a[1]), path[1:], fn))
  return put(cur, a.a[1], update(lookup(cur, a.a[1]), path[1:], fn))


def get(v, path):
  for a in path:
    v = field(v, a.a[1]) if a.op == 'f' else index(v, a.a[1]) if a.op == 'i' else lookup(v, a.a[1])
  return v


def diff(loc, v, base, out, vary=frozenset()):
  """The sub-locations at which v differs from base."""
  if v is base:
    return
  if base.op != 'lv':
    if v.op == 'seti' and base.op == 'seti' and v.a[0] is base.a[0] and v.a[1] is base.a[1] and not fv(v.a[1]) & vary:
      diff(mk('i', loc, v.a[1]), v.a[2], base.a[2], out, vary)
      return
    if v.op == 'seti' and v.a[0] is base and not fv(v.a[1]) & vary:
      diff(mk('i', loc, v.a[1]), v.a[2], index(base, v.a[1]), out, vary)
      return
    if v.op == 'list' and base.op == 'list' and len(v.a) == len(base.a) and len(v.a) <= 8:
      for k in range(len(v.a)):
        diff(mk('i', loc, c(k)), v.a[k], base.a[k], out, vary)
      return
    if v.op == 'append' and base.op == 'append' and v.a[0] is base.a[0] and not fv(size(v.a[0])) & vary:
      diff(mk('i', loc, size(v.a[0])), v.a[1], base.a[1], out, vary)
      return
    bv, dv = rec(v)
    bb, db = rec(base)
    if bv is bb and bv.op != 'lv':
      for n in sorted(set(dv) | set(db)):
        diff(mk('f', loc, n), dv[n] if n in dv else field(bv, n), db[n] if n in db else field(bb, n), out, vary)
      return
  out.append((loc, v, base))
