"""Value-flow analysis of the resolved C++ program.

A structured abstract interpretation over the exported syntax trees.  The
abstract state maps each root (local variable, heap object, parameter object,
global) to a value; a value is a term (vals.py), and so is the state of an
object: a field store makes a new value of the whole object.  Nothing that is
written is forgotten: at the end the difference between what a caller-visible
root held and holds is the summary.  Branches are joined, loops become folds
over a round number, repository functions are expanded except those that are
entries of their own.  Nothing is executed and no path is solved.
"""
import re
import sys

from wodlint import term as t
from wodlint import vals as V
from wodlint.program import Dead, Effect, Program, is_vector, elem_type  # noqa: F401
from wodlint.term import mk, c
from wodlint.cxxload import Broken
from wodlint.vals import INF, append, contains, extend, field, has, index, join, lookup, rec, seti, setf, size, split

sys.setrecursionlimit(20000)

LOCAL = ('loc', 'tmp', 'new')
VOID = mk('void')
UNINIT = mk('uninit')
UNDEF = mk('undef')
INTS = ('int', 'long', 'unsigned int', 'unsigned long', 'short', 'unsigned short', 'char', 'unsigned char', 'signed char',
        'long long', 'unsigned long long')
# Objects of the libraries through which the outside world is reached: a call on one is an effect, not a change of value.
WORLD = ('tensorflow::OpKernelContext', 'tensorflow::OpKernelConstruction', 'std::basic_ofstream', 'std::basic_ostream',
         'std::basic_ifstream', 'tensorflow::shape_inference', 'tsl::thread', 'tensorflow::OpKernel')
VIEWS = ('matrix', 'vec', 'tensor', 'flat', 'scalar', 'flat_inner_dims', 'flat_outer_dims', 'shaped')


class Frame(object):
  __slots__ = ('fn', 'uid', 'alias', 'pc0', 'exits', 'this', 'byref', 'ruid', 'nf', 'ne', 'nl')


class Loop(object):
  __slots__ = ('breaks', 'pc0', 'conts', 'generic', 'ret')

  def __init__(self, pc0, generic=False, switch=False):
    self.breaks, self.conts, self.pc0, self.generic, self.ret = [], None if switch else [], pc0, generic, False


def locf(b, n):
  """The location of field n of the object at b."""
  if b.op == 'ite':
    return t.ite(b.a[0], locf(b.a[1], n), locf(b.a[2], n))
  if b.op == 'val':
    return mk('val', field(b.a[0], n))
  if b.op == 'mit':
    return mk('val', b.a[1]) if n == 'first' else mk('k', b.a[0], b.a[1])
  return mk('f', b, n)


def loci(b, ix, op='i'):
  if b.op == 'ite':
    return t.ite(b.a[0], loci(b.a[1], ix, op), loci(b.a[2], ix, op))
  if op == 'i' and b.op == 'call' and b.a[0] == 'ptradd':
    return loci(b.a[1], t.arith('add', b.a[2], ix))
  if b.op == 'val':
    return mk('val', index(b.a[0], ix) if op == 'i' else lookup(b.a[0], ix))
  return mk(op, b, ix)


def deref(v):
  """The location a pointer, iterator or view value denotes."""
  if v.op == 'ite':
    return t.ite(v.a[0], deref(v.a[1]), deref(v.a[2]))
  if v.op == 'view':
    return deref(v.a[0]) if v.a[0].op in ('view', 'ite') else v.a[0]
  if v.op == 'rec' and v.a[0].op == 'zero' and v.a[0].a[0] == 'iter':
    return loci(field(v, 'at'), field(v, 'ix'))
  if v.op == 'call' and v.a[0] == 'ptradd':
    return loci(v.a[1], v.a[2])
  return v


def iterv(loc, ix, step=1):
  return V.mkrec(mk('zero', 'iter'), {'at': loc, 'ix': ix, 'step': c(step)})


def is_iter(v):
  return v.op == 'rec' and v.a[0].op == 'zero' and v.a[0].a[0] == 'iter'


def pair(a, b):
  return V.mkrec(mk('zero', 'pair'), {'first': a, 'second': b})


def mapcls(cls):
  return bool(re.search(r'(?:^|::)(?:map|unordered_map|flat_hash_map|node_hash_map|btree_map|Map|btree_map_container|raw_hash_map|multimap)<', cls.split('<')[0] + '<')) or 'HashMapPolicy' in cls.split(',')[0]


def setcls(cls):
  return bool(re.search(r'(?:^|::)(?:set|unordered_set|flat_hash_set|node_hash_set|btree_set|multiset)<', cls.split('<')[0] + '<')) or 'HashSetPolicy' in cls.split(',')[0]


def strip(ty):
  return re.sub(r'^const |[ &]+$', '', ty)


class CxxVal(object):

  def __init__(self, prog, inline, max_depth=16, unroll=24):
    self.prog, self.inline, self.max_depth, self.unroll = prog, inline, max_depth, unroll
    self.store, self.pc, self.effects, self.frames, self.loops, self.its = {}, [], [], [], [], []
    self.lams, self.lamenv, self.itn = {}, {}, {}
    self.nid = 0
    self.facts = []
    V.KNOWN[0] = self.same
    if not hasattr(prog, 'optional'):
      prog.optional = frozenset(m for n, fs in prog.by_name.items() if any(re.match(r'(const )?(absl|std)::(optional|StatusOr)<', f['ret']) for f in fs) for m in (n, short(n)))
    V.OPTIONAL[0] = prog.optional
    V.UNORDERED[0] = True
    self.inlined, self.opaque, self.calls_seen = set(), {}, 0
    V.FIELD0[0] = self.default_field
    if not hasattr(prog, 'fullrecs'):
      by = {}
      for n, r in prog.records.items():
        by.setdefault(frozenset(x['name'] for x in r['fields']), []).append(n)
      prog.fullrecs = {}
      for fs, ns in by.items():
        if len(ns) == 1 and fs and not prog.records[ns[0]].get('bases'):
          arr = {x['name']: int(re.search(r'\[(\d+)\]$', x['type']).group(1)) for x in prog.records[ns[0]]['fields'] if re.search(r'\[(\d+)\]$', x['type'])}
          prog.fullrecs[fs] = (strip(ns[0]), arr)
    V.RECS[0] = prog.fullrecs
    V._FM.clear()

  # ------------------------------------------------------------ entry point
  def run(self, fn):
    args = []
    for k, prm in enumerate(fn['params']):
      args.append(t.p('$%d' % k))
    return self.call_fn(fn, t.p('this'), args, None)

  def uid(self):
    self.nid += 1
    return self.nid

  # ------------------------------------------------------------ known equalities
  def equal(self, x):
    """(term, representative) when the literal equates a size with another quantity."""
    if x.op != 'eq' or not any(y.op == 'size' for y in x.a) or any(y.op in ('c', 'enum') for y in x.a):
      return None
    if not all(y.op in ('size', 'f', 'i', 'p') for y in x.a):
      return None
    a, b = sorted(x.a, key=self.rank)
    return b, a, ()

  def rank(self, x):
    ops = [z.op for z in t.walk(x)]
    return any(o in ('lv', 'fold') for o in ops), x.op == 'size', 'it' in ops, len(ops), str(x)

  def same(self, x):
    for a, b, when in self.facts:
      if x is a and all(l in self.pc or l in V.GIVEN for l in when):
        return self.same(b)
    for l in self.pc:
      if l.op == 'eq':
        e = self.equal(l)
        if e and x is e[0]:
          return self.same(e[1])
    return x

  # ------------------------------------------------------------ state
  def rd(self, loc):
    o = loc.op
    if o in ('f', 'i', 'k'):
      r, path = split(loc)
      return V.get(self.rd(r), path)
    if o == 'ite':
      return join(loc.a[0], self.rd(loc.a[1]), self.rd(loc.a[2]))
    if o == 'val':
      return loc.a[0]
    if o == 'mit':
      return pair(loc.a[1], lookup(self.rd(loc.a[0]), loc.a[1]))
    if o == 'view':
      return self.rd(loc.a[0])
    v = self.store.get(loc)
    return v if v is not None else loc if o not in ('loc', 'tmp') else UNINIT

  def write(self, loc, v):
    if loc.op == 'ite':
      a, b = loc.a[1], loc.a[2]
      self.write(a, join(loc.a[0], v, self.rd(a)))
      self.write(b, join(loc.a[0], self.rd(b), v))
      return
    if loc.op == 'view':
      return self.write(loc.a[0], v)
    r, path = split(loc)
    if r.op == 'val' or r.op == 'c':
      return
    if r.op == 'ite':
      raise Broken('write through a conditional root')
    self.store[r] = V.update(self.rd(r), path, lambda _: v)

  def tmp(self, v):
    x = mk('tmp', self.uid())
    self.store[x] = v
    return x

  def heap(self, cls, v):
    x = mk('new', strip(cls), self.uid())
    self.store[x] = v
    return x

  def eff(self, kind, what, args, line):
    e = Effect(kind, None, what, args, tuple(self.pc), line, self.frames[-1].fn['name'] if self.frames else '?', tuple(mk('rng', self.itn[x], x) for x in self.its))
    self.effects.append(e)

  def default_field(self, cls, n):
    r = self.prog.records.get(re.sub(r'^const ', '', str(cls)))
    if not r:
      return None
    for x in r['fields']:
      if x['name'] == n:
        if 'init' in x:
          if x['init'] is not None and x['init'][0] in ('int', 'flt', 'bool', 'str', 'enum', 'null', 'un', 'gconst'):
            return self.ev(x['init'])
          if x['init'] is not None and x['init'][0] == 'init' and not x['init'][2]:
            return self.zero(x['type'], True)
          return None
        return self.zero(x['type']) if not scalar(x['type'], self.prog) else None
    return None

  def zero(self, ty, value_init=False):
    """The value of a default-initialised object of this type."""
    ty = strip(ty)
    if scalar(ty, self.prog):
      if not value_init:
        return UNINIT
      return t.NONE if ty.endswith('*') else c(False) if ty == 'bool' else c(0)
    base = ty.split('<')[0]
    if is_vector(ty) or mapcls(ty) or setcls(ty) or base.endswith(('RepeatedPtrField', 'RepeatedField', 'deque', 'InlinedVector')):
      return mk('list')
    if base.endswith('basic_string'):
      return c('')
    if base.endswith(('unique_ptr', 'shared_ptr', 'optional', 'std::function')):
      return t.NONE
    if base.endswith(('string_view',)):
      return c('')
    if base == 'std::atomic':
      return c(0)
    return mk('zero', ty)

  def snap(self, v, busy=()):
    """The value with local objects replaced by what they hold now."""
    hit = {}
    for x in t.walk(v):
      if x.op in LOCAL and x not in hit:
        if x in busy:
          hit[x] = mk('cycle')
        elif x in self.store:
          w = self.store[x]
          hit[x] = mk('ref', self.snap(w, busy + (x,))) if w is not UNINIT else mk('local')
        else:
          hit[x] = mk('local')
    return V.subst(v, hit) if hit else v

  def shown(self, v):
    """How an argument is shown in a call: pointers by what they point to."""
    if v.op in LOCAL:
      return self.snap(self.rd(v)) if self.rd(v) is not UNINIT else mk('local')
    if v.op in ('f', 'i', 'k', 'p', 'g', 'out', 'call') and split(v)[0] in self.store:
      return self.snap(self.rd(v))
    if v.op == 'lam':
      return self.lamterm(v)
    if is_iter(v):
      return mk('iter', self.shown(field(v, 'at')), field(v, 'ix'))
    if v.op == 'ite':
      return join(v.a[0], self.shown(v.a[1]), self.shown(v.a[2]))
    if v.op == 'view':
      return self.shown(v.a[0])
    if v.op in ('mit', 'mend'):
      return mk(v.op, self.shown(v.a[0]), *v.a[1:])
    return self.snap(v)

  # ------------------------------------------------------------ calls of repository functions
  def call_fn(self, fn, this, args, line):
    if len(self.frames) >= self.max_depth or any(fr.fn is fn for fr in self.frames):
      sh = [self.shown(x) for x in ([this] if this is not None else []) + args]
      r = mk('call', fn['name'], *sh)
      self.eff('mcall', r, None, line)
      return r
    fr = Frame()
    fr.fn, fr.uid, fr.alias, fr.exits, fr.this, fr.byref = fn, self.uid(), {}, [], this, fn['ret'].endswith('&')
    fr.ruid = fr.uid
    fr.pc0, fr.nf, fr.ne, fr.nl = len(self.pc), len(self.facts), len(self.effects), len(self.its)
    self.inlined.add((fn['name'], fn['file'], fn['line']))
    self.frames.append(fr)
    saved, self.loops = self.loops, []
    for (pid, nm, ty, _), a in zip(fn['params'], args):
      if ty.endswith('&'):
        fr.alias[pid] = a
      else:
        self.store[mk('loc', fr.uid, pid)] = a
    try:
      for nm, e in fn.get('inits', []):
        if this is not None:
          self.write(locf(this, nm), self.ev(e))
      return self.finish(fr, fn['body'])
    finally:
      self.loops = saved

  def finish(self, fr, body, drop=True):
    try:
      out = self.ex(body)
    except Dead:
      out = {'dead'}
    if 'fall' in out:
      fr.exits.append((t.and_(*self.pc[fr.pc0:]), dict(self.store), None))
    self.frames.pop()
    del self.pc[fr.pc0:]
    if len(fr.exits) != 1:
      del self.facts[fr.nf:]
    if not fr.exits:
      raise Dead()
    val = st = None
    for cond, s, v in reversed(fr.exits):
      if st is None:
        st, val = s, self.lastcase(fr, cond, v)
      else:
        st = self.merge(cond, s, st)
        val = join(cond, v, val) if v is not None and val is not None else (v if v is not None else val)
    val = self.told_apart(fr, val)
    if drop:
      u = fr.uid
      esc = set()
      if val is not None:
        esc = {x for x in t.walk(val) if x.op == 'loc'}
      self.store = {k: v for k, v in st.items() if not (k.op == 'loc' and k.a[0] == u) or k in esc}
    else:
      self.store = st
    return val if val is not None else VOID

  def lastcase(self, fr, cond, v):
    """The value of the last way out: of several cases told apart by a value, without the others it is not the rest."""
    if v is None or len(fr.exits) < 2 or v.op in LOCAL:
      return v
    g = t.and_(*[x for x in self.lits(cond) if x.op == 'eq' and any(
        y.op == 'eq' and y is not x and set(y.a) & set(x.a) for e in fr.exits[:-1] for y in t.walk(e[0]))])
    return v if g is t.TRUE else join(g, v, UNDEF)

  def told_apart(self, fr, v):
    """A value chosen among cases, where any other case is an error: as if each case returned on its own."""
    if v is None or v.op in LOCAL:
      return v
    for e in self.effects[fr.ne:]:
      if e.kind not in ('raise', 'fatal') or len(e.loops) != fr.nl:
        continue
      ls = self.lits(t.and_(*e.guards[fr.pc0:]))
      eqs = [x.a[0] for x in ls if x.op == 'not' and x.a[0].op == 'eq']
      if len(eqs) < 2 or len(eqs) != len(ls) or not set.intersection(*[set(x.a) for x in eqs]):
        continue
      if not all(x in set(t.walk(v)) for x in eqs[:-1]):
        continue
      r = UNDEF
      for x in reversed(eqs):
        r = join(x, V.subst(v, {y: t.TRUE if y is x else t.FALSE for y in eqs}), r)
      return r
    return v

  def merge(self, cond, a, b):
    out = {}
    for k, va in a.items():
      vb = b.get(k)
      if vb is va:
        out[k] = va
      elif vb is None:
        out[k] = va if k.op in LOCAL else join(cond, va, k)
      elif k.op == 'loc' and k.a[1] == 'val' and (va is UNINIT or vb is UNINIT):
        out[k] = va if vb is UNINIT else vb
      else:
        out[k] = join(cond, va, vb)
    for k, vb in b.items():
      if k not in a:
        out[k] = vb if k.op in LOCAL else join(cond, k, vb)
    return out

  # ------------------------------------------------------------ statements
  def ex(self, s):
    if s is None:
      return {'fall'}
    m = getattr(self, 's_' + s[0], None)
    if m is None:
      raise Broken('unsupported statement %r' % (s[0],))
    return m(s)

  def s_block(self, s):
    out = {'fall'}
    for x in s[1]:
      out.discard('fall')
      try:
        r = self.ex(x)
      except Dead:
        r = {'dead'}
      out |= r
      if 'fall' not in r:
        return out - {'fall'} or {'dead'}
    return out

  def s_macro(self, s):
    name, inner, line = s[1], s[2], s[3]
    if name.startswith(('CHECK', 'QCHECK', 'PCHECK')):
      cond = self.check_cond(inner)
      if cond is not None:
        self.eff('check', cond, None, line)
        self.facts += [e for e in map(self.equal, self.lits(cond)) if e]
        return {'fall'}
    if name.startswith('DCHECK') or name in ('VLOG', 'DLOG', 'DVLOG'):
      return {'fall'}
    if name.startswith('LOG'):
      if 'LogMessageFatal' in repr(inner):
        self.eff('fatal', None, None, line)
        return {'dead'}
      return {'fall'}
    return self.ex(inner)

  def check_cond(self, inner):
    found = []

    def look(n):
      if isinstance(n, list):
        if n and n[0] == 'call' and isinstance(n[1], str):
          if n[1] == '__builtin_expect' and not found:
            found.append(n[3][0])
            return
          mm = re.search(r'Check_?(\w\w)_?Impl$', n[1])
          if mm and not found:
            found.append(('op', mm.group(1), n[3]))
            return
        for x in n:
          look(x)
    look(inner)
    if not found:
      return None
    x = found[0]
    if isinstance(x, tuple):
      op = {'EQ': '==', 'NE': '!=', 'LT': '<', 'LE': '<=', 'GT': '>', 'GE': '>='}[x[1]]
      return self.cmp(op, self.unref(x[2][0]), self.unref(x[2][1]))
    return t.not_(self.cond(x))

  def unref(self, e):
    while isinstance(e, list) and e[0] == 'call' and e[1].endswith('GetReferenceableValue'):
      e = e[3][0]
    return e

  def s_decls(self, s):
    for d in s[1]:
      self.declare(d)
    return {'fall'}

  def declare(self, d):
    _, vid, name, ty, init, line, static, binds = d
    fr = self.frames[-1]
    loc = mk('loc', fr.uid, vid)
    if init is None:
      self.store[loc] = self.zero(ty) if not ty.endswith(']') else UNINIT
      return
    if ty.endswith('&'):
      l = self.lv(init)
      fr.alias[vid] = l
      base = l
    else:
      self.store[loc] = self.value_for(ty, init)
      base = loc
    for k, b in enumerate(binds or []):
      fr.alias[b[0]] = self.binding(base, k, ty)

  def value_for(self, ty, init):
    """The value an object of type ty gets from this initialiser."""
    v = self.ev(init)
    if ty.endswith('*') and array(self.type_of(init)):
      return self.lv(init)
    return v

  def binding(self, base, k, ty):
    r = self.prog.records.get(strip(ty))
    if r and k < len(r['fields']):
      return locf(base, r['fields'][k]['name'])
    return locf(base, ('first', 'second', 'third', 'fourth')[k] if k < 4 else 'b%d' % k)

  def cond(self, e):
    return self.truth(self.ev(e), e)

  def truth(self, v, e=None):
    if v.op == 'c':
      return c(bool(v.a[0]))
    ty = strip(self.type_of(e)) if e is not None else ''
    if ty.endswith('*'):
      return t.not_(self.null(v))
    if ty in INTS:
      return t.not_(t.compare('==', v, c(0)))
    return v

  def null(self, v):
    if v.op == 'ite':
      return t.ite(v.a[0], self.null(v.a[1]), self.null(v.a[2]))
    if v.op in LOCAL or v.op in ('f', 'i', 'k') and split(v)[0].op in LOCAL:
      return t.FALSE
    return t.compare('==', v, t.NONE)

  def s_if(self, s):
    _, init, cvar, ce, th, el, line = s
    if init:
      self.ex(init)
    if cvar:
      self.declare(cvar)
    cnd = self.cond(ce)
    if cnd.op == 'c':
      return self.ex(th if cnd.a[0] else el)
    return self.branch(cnd, lambda: self.ex(th), lambda: self.ex(el))

  def branch(self, cnd, fa, fb):
    n, nf = len(self.pc), len(self.facts)
    s0 = dict(self.store)
    al0 = dict(self.frames[-1].alias)
    la, lb = self.lits(cnd), self.lits(t.not_(cnd))
    self.pc += la
    try:
      ra = fa()
    except Dead:
      ra = {'dead'}
    pa = self.pc[n:]
    del self.pc[n:]
    ka = self.facts[nf:]
    del self.facts[nf:]
    sa, self.store = self.store, s0
    self.frames[-1].alias = al0
    self.pc += lb
    try:
      rb = fb()
    except Dead:
      rb = {'dead'}
    pb = self.pc[n:]
    del self.pc[n:]
    sb = self.store
    kb = self.facts[nf:]
    del self.facts[nf:]
    if 'fall' in ra and 'fall' in rb:
      self.facts += [x for x in ka if x in kb]
      self.facts += [(x, y, w + tuple(la)) for x, y, w in ka if (x, y, w) not in kb]
      self.facts += [(x, y, w + tuple(lb)) for x, y, w in kb if (x, y, w) not in ka]
    elif 'fall' in ra or 'fall' in rb:
      self.facts += ka if 'fall' in ra else kb
      if {'dead'} in (ra, rb):
        self.facts += [e for e in map(self.equal, lb if ra == {'dead'} else la) if e]
    fa_, fb_ = 'fall' in ra, 'fall' in rb
    if fa_ and fb_:
      if len(pa) > len(la) or len(pb) > len(lb):
        self.pc += self.lits(t.or_(t.and_(*pa), t.and_(*pb)))
      self.store = self.merge(cnd, sa, sb)
    elif fa_:
      self.store = sa
      self.pc += [x for x in pa if x not in la] if rb == {'dead'} else pa
    elif fb_:
      self.store = sb
      self.pc += [x for x in pb if x not in lb] if ra == {'dead'} else pb
    return ra | rb if (fa_ or fb_) else (ra | rb) - {'fall'}

  def lits(self, cnd):
    return list(cnd.a) if cnd.op == 'and' else ([] if t.is_c(cnd, True) else [cnd])

  def s_ret(self, s):
    fr = self.frames[-1]
    v = None
    if s[1] is not None:
      v = self.lv(s[1]) if fr.byref else self.ev(s[1])
    if any(lp.generic for lp in self.loops):
      # leaving a loop: a flag and the value travel with the loop's state
      self.store[mk('loc', fr.ruid, 'ret')] = t.TRUE
      if v is not None:
        self.store[mk('loc', fr.ruid, 'val')] = v
      lp = self.loops[-1]
      lp.ret = True
      lp.breaks.append((t.and_(*self.pc[lp.pc0:]), dict(self.store)))
      return {'brk'}
    fr.exits.append((t.and_(*self.pc[fr.pc0:]), dict(self.store), v))
    return {'ret'}

  def leave(self, lp, out):
    """After a statement in which a flagged return may have happened."""
    if not lp.ret:
      return out
    fr = self.frames[-1]
    k = mk('loc', fr.ruid, 'ret')
    flag = self.store.get(k, t.FALSE)
    if t.is_c(flag, False):
      return out
    st = dict(self.store)
    if any(x.generic for x in self.loops):
      up = self.loops[-1]
      up.ret = True
      up.breaks.append((t.and_(*(self.pc[up.pc0:] + self.lits(flag))), st))
      out = out | {'brk'}
    else:
      v = st.pop(mk('loc', fr.ruid, 'val'), None)
      st.pop(k, None)
      fr.exits.append((t.and_(*(self.pc[fr.pc0:] + self.lits(flag))), st, v))
      out = out | {'ret'}
    self.store[k] = t.FALSE
    if t.is_c(flag, True):
      return out - {'fall'}
    self.pc += self.lits(t.not_(flag))
    return out

  def s_expr(self, s):
    e = s[1]
    n = len(self.effects)
    v = self.ev(e, True)
    return {'fall'}

  def s_break(self, s):
    if self.loops:
      lp = self.loops[-1]
      lp.breaks.append((t.and_(*self.pc[lp.pc0:]), dict(self.store)))
    return {'brk'}

  def s_continue(self, s):
    for lp in reversed(self.loops):
      if lp.conts is not None:
        lp.conts.append((t.and_(*self.pc[lp.pc0:]), dict(self.store)))
        break
    return {'cont'}

  def s_case(self, s):
    return self.ex(s[2])

  def s_default(self, s):
    return self.ex(s[1])

  def s_unkstmt(self, s):
    for x in s[2]:
      if isinstance(x, list) and x and x[0] in ('block', 'decls', 'if', 'expr'):
        self.ex(x)
    return {'fall'}

  # -------- loops
  def s_for(self, s):
    _, init, ce, inc, body, line = s
    if init:
      self.ex(init)
    it = self.counting(init, ce, inc, body)
    if it is not None:
      vid, lo, hi, step = it
      loc = mk('loc', self.frames[-1].uid, vid)
      n = hi.a[0] - lo.a[0] if t.num(lo) and t.num(hi) else None
      if n is not None and 0 <= n <= self.unroll and (n <= 9 or not self.carries(body)):
        rng = list(range(lo.a[0], hi.a[0]))

        def start(k):
          self.store[loc] = c(k)
        return self.unrolled(rng if step > 0 else rng[::-1], start, body)

      def setup(it):
        self.store[loc] = t.arith('add', lo, it) if step > 0 else t.arith('sub', t.arith('sub', hi, c(1)), it)
      r = self.loop(body, n=t.arith('sub', hi, lo), setup=setup)
      self.store.pop(loc, None)
      return r
    return self.loop(body, cond=ce, inc=inc)

  def unrolled(self, items, start, body):
    out = {'fall'}
    lp = Loop(len(self.pc))
    n = len(self.pc)
    nf = len(self.facts)
    for x in items:
      start(x)
      lp.pc0 = n
      self.loops.append(lp)
      r = self.ex(body)
      self.loops.pop()
      del self.facts[nf:]
      out |= r & {'ret'}
      if lp.conts:
        if 'fall' in r:
          for cnd, st in reversed(lp.conts):
            self.store = self.merge(cnd, st, self.store)
        else:
          st = lp.conts[-1][1]
          for cnd, s2 in reversed(lp.conts[:-1]):
            st = self.merge(cnd, s2, st)
          self.store = st
      elif 'fall' not in r:
        out.discard('fall')
        lp.conts = []
        break
      # what held on the way round stays known, unless rounds were left by continue
      more = self.pc[n:] if 'fall' in r and not lp.conts else []
      lp.conts = []
      if not lp.breaks and not more:
        del self.pc[n:]
      else:
        bc = t.or_(*[b[0] for b in lp.breaks])
        del self.pc[n:]
        if more and 'ret' in out:
          self.pc += more
        else:
          self.pc += self.lits(t.not_(bc))
    tail = self.pc[n:]
    if lp.breaks:
      if 'fall' not in out:
        st = lp.breaks[-1][1]
        rest = lp.breaks[:-1]
      else:
        st, rest = self.store, lp.breaks
      for cnd, s2 in reversed(rest):
        st = self.merge(cnd, s2, st)
      self.store = st
      if 'ret' not in out:
        del self.pc[n:]
      out = out | {'fall'}
    return self.leave(lp, out)

  def counting(self, init, ce, inc, body):
    """for (T i = lo; i < hi; ++i): (decl id, lo, hi, +1/-1) when neither i nor the bound is otherwise modified."""
    if not (init and init[0] == 'decls' and len(init[1]) == 1 and ce and inc):
      return None
    d = init[1][0]
    vid = d[1]
    if d[3].endswith(('&', '*')) or strip(d[3]) not in INTS or d[4] is None:
      return None
    e = inc
    if e[0] == 'un' and e[1] in ('++', '++post', '--', '--post') and e[2][0] == 'var' and e[2][1] == vid:
      step = 1 if e[1].startswith('++') else -1
    elif e[0] == 'bin' and e[1] in ('+=', '-=') and e[2][0] == 'var' and e[2][1] == vid and e[3] == ['int', 1]:
      step = 1 if e[1] == '+=' else -1
    else:
      return None
    if ce[0] != 'bin' or self.modified(body, vid):
      return None
    op, a, b = ce[1], ce[2], ce[3]
    if a[0] == 'var' and a[1] == vid and op in ('<', '<=', '!=', '>=', '>'):
      h = b
    elif b[0] == 'var' and b[1] == vid and op in ('>', '>=', '!=', '<', '<='):
      h = a
      op = {'>': '<', '>=': '<=', '!=': '!=', '<': '>', '<=': '>='}[op]
    else:
      return None
    if not self.stable(h, body):
      return None
    hi = self.ev(h)
    lo = self.rd(mk('loc', self.frames[-1].uid, vid))
    if step == 1 and op in ('<', '!='):
      return vid, lo, hi, 1
    if step == 1 and op == '<=':
      return vid, lo, t.arith('add', hi, c(1)), 1
    if step == -1 and op == '>=':
      return vid, hi, t.arith('add', lo, c(1)), -1
    if step == -1 and op in ('>', '!='):
      return vid, t.arith('add', hi, c(1)), t.arith('add', lo, c(1)), -1
    return None

  def stable(self, h, body):
    """May a loop bound be evaluated once?  Its variables are not assigned or grown in the body."""
    vs = set()

    def look(n):
      if isinstance(n, list):
        if n and n[0] == 'var':
          vs.add(n[1])
        for x in n:
          look(x)
    look(h)
    return not any(self.modified(body, x) or self.grown(body, x) for x in vs)

  def grown(self, n, vid):
    if isinstance(n, list):
      if n and n[0] == 'mcall' and n[6] is False and n[2] and n[2][:2] == ['var', vid] and n[1].rsplit('::', 1)[-1] in (
          'push_back', 'emplace_back', 'resize', 'clear', 'insert', 'erase', 'pop_back', 'assign', 'emplace', 'pop', 'swap'):
        return True
      if n and n[0] == 'opcall' and n[1] == '=' and n[3][0][:2] == ['var', vid]:
        return True
      return any(self.grown(x, vid) for x in n)
    return False

  def modified(self, n, vid):
    if isinstance(n, list):
      if len(n) >= 3 and n[0] == 'bin' and n[1].endswith('=') and n[1] not in ('==', '!=', '<=', '>='):
        if n[2][:2] == ['var', vid]:
          return True
      if len(n) >= 3 and n[0] == 'un' and n[1] in ('++', '--', '++post', '--post', '&'):
        if n[2][:2] == ['var', vid]:
          return True
      return any(self.modified(x, vid) for x in n)
    return False

  def carries(self, body):
    """Does a loop body assign a variable declared outside it?"""
    inside, set_ = set(), set()

    def walk(n):
      if isinstance(n, list):
        if n and n[0] == 'decl':
          inside.add(n[1])
        if len(n) >= 3 and n[0] == 'bin' and n[1].endswith('=') and n[1] not in ('==', '!=', '<=', '>='):
          if isinstance(n[2], list) and n[2][:1] == ['var']:
            set_.add(n[2][1])
        for x in n:
          walk(x)
    walk(body)
    return bool(set_ - inside)

  def s_rfor(self, s):
    _, d, rng, body, line, rty = s
    r = self.lv(rng)
    if r.op == 'ite':
      r = self.tmp(self.rd(r))
    fr = self.frames[-1]
    vid, ty = d[1], d[3]
    v = self.rd(r)
    if v.op == 'list' and len(v.a) <= self.unroll:
      def start(k):
        if ty.endswith('&'):
          fr.alias[vid] = loci(r, c(k))
        else:
          self.store[mk('loc', fr.uid, vid)] = index(self.rd(r), c(k))
        for j, b in enumerate(d[7] or []):
          fr.alias[b[0]] = self.binding(loci(r, c(k)), j, ty)
      return self.unrolled(list(range(len(v.a))), start, body)

    def setup(it):
      if mapcls(rty):
        el = mk('mit', r, mk('key', v, it))
      elif setcls(rty):
        el = mk('val', mk('key', v, it))
      else:
        el = loci(r, it)
      if ty.endswith('&'):
        fr.alias[vid] = el
      else:
        self.store[mk('loc', fr.uid, vid)] = self.rd(el)
        if d[7]:
          el = mk('loc', fr.uid, vid)
      for k, b in enumerate(d[7] or []):
        fr.alias[b[0]] = self.binding(el, k, ty)
    return self.loop(body, n=size(v), setup=setup)

  def s_while(self, s):
    if s[4]:
      return {'fall'}     # while (T x = init): only logging macros
    return self.loop(s[2], cond=s[1])

  def s_do(self, s):
    if s[1] is not None and s[1][0] in ('bool', 'int') and not s[1][1]:
      return self.unrolled([0], lambda k: None, s[2])
    return self.loop(s[2], cond=s[1], post=True)

  def loop(self, body, cond=None, inc=None, n=None, setup=None, post=False):
    """body: a statement, or a function that performs one round."""
    fr = self.frames[-1]
    uid = self.uid()
    if n is None:
      n = INF
    it = mk('it', uid)
    s0 = dict(self.store)
    npc, neff, nfacts = len(self.pc), len(self.effects), len(self.facts)
    nid0 = self.nid
    alias0 = dict(fr.alias)
    paths, ind, bound = {}, {}, []
    carried_ret = mk('loc', fr.ruid, 'ret')
    carried_val = mk('loc', fr.ruid, 'val')
    s0.setdefault(carried_ret, t.FALSE)
    s0.setdefault(carried_val, UNINIT)

    def begin():
      self.store = dict(s0)
      fr.alias = dict(alias0)
      for pth in sorted(paths, key=lambda x: len(split(x)[1])):
        self.write(pth, paths[pth])
      for pth, (init, k) in ind.items():
        self.write(pth, t.arith('add', init, it) if k == 1 else t.arith('sub', init, it))

    def one():
      del self.pc[npc:]
      del self.facts[nfacts:]
      del self.effects[neff:]
      begin()
      start = dict(self.store)
      lp = Loop(npc, generic=True)
      self.loops.append(lp)
      self.its.append(it)
      self.itn[it] = n
      g = t.TRUE
      try:
        if setup:
          setup(it)
        if cond is not None and not post:
          g = self.cond(cond)
          rest = [x for x in self.lits(g) if x not in bound]
          if rest:
            lp.breaks.append((t.not_(t.and_(*rest)), dict(self.store)))
            self.pc += rest
        try:
          r = body() if callable(body) else self.ex(body)
        except Dead:
          r = {'dead'}
        st1 = self.store if 'fall' in r else None
        if lp.conts:
          for cd, s in reversed(lp.conts):
            st1 = s if st1 is None else self.merge(cd, s, st1)
          lp.conts = []
        if st1 is not None:
          self.store = st1
          if post and cond is not None:
            h = self.cond(cond)
            if not t.is_c(h, True):
              lp.breaks.append((t.and_(*(self.pc[npc:] + [t.not_(h)])), dict(self.store)))
          if inc is not None:
            self.ev(inc)
          st1 = self.store
      finally:
        self.loops.pop()
        self.its.pop()
      del self.pc[npc:]
      del self.facts[nfacts:]
      return r, st1, lp, start, g

    for _ in range(12):
      r, st1, lp, start, g = one()
      new = []
      for st in [x for x in [st1] + [b[1] for b in lp.breaks] if x is not None]:
        for k, v in st.items():
          v0 = start.get(k)
          if v is v0:
            continue
          if v0 is None:
            if k.op in LOCAL or V.fv(k) & frozenset([it] + list(paths.values())):
              continue
            v0 = k
          out = []
          V.diff(k, v, v0, out, frozenset([it] + list(paths.values())))
          new += [x for x, a, b in out if a is not b and x not in new and x not in ind]
      add = [x for x in new if x not in paths]
      if add:
        for x in add:
          for y in [y for y in paths if below(y, x)]:
            del paths[y]
          if not any(below(x, y) for y in list(paths)):
            paths[x] = mk('lv', uid, self.uid())
        continue
      # induction variables: x := x + 1 in every round
      found = False
      if st1 is not None:
        self.store = st1
        for x, lv in list(paths.items()):
          v = self.rd(x)
          if v.op == 'off' and v.a[0] is lv and v.a[1] in (1, -1) and self.same_init(x, s0):
            self.store = dict(s0)
            ind[x] = (self.rd(x), v.a[1])
            self.store = st1
            del paths[x]
            found = True
      if found:
        paths = {x: mk('lv', uid, self.uid()) for x in paths}
        continue
      # a bound on the rounds
      if n is INF and cond is not None and not post:
        for x in self.lits(g):
          m = self.rounds(x, it, set(paths.values()))
          if m is not None:
            n = m
            bound.append(x)
            break
        if n is not INF:
          continue
      break
    else:
      raise Broken('loop does not stabilise')
    self.store = dict(s0)
    fr.alias = dict(alias0)
    lvs = {lv: x for x, lv in paths.items()}
    B = t.or_(*[b[0] for b in lp.breaks])
    vb = {}
    if lp.breaks:
      stb = lp.breaks[-1][1]
      for cnd, s2 in reversed(lp.breaks[:-1]):
        stb = self.merge(cnd, s2, stb)
    else:
      stb = None
    init = {lv: self.rd(x) for lv, x in lvs.items()}
    newobj = lambda st: (lambda v: self.close_objects(v, st, nid0))
    spec, after = {}, {}
    hasbrk = stb is not None and not t.is_c(B, False)
    for lv, x in lvs.items():
      self.store = stb if stb is not None else st1
      b_ = newobj(self.store)(self.rd(x)) if stb is not None else None
      self.store = st1 if st1 is not None else stb
      c_ = newobj(self.store)(self.rd(x)) if st1 is not None else None
      spec[lv] = (init[lv], b_, c_)
    self.store = dict(s0)
    # what only the way out of the loop changes is as before the loop until then
    still = {lv: i_ for lv, (i_, b_, c_) in spec.items() if i_ is not UNINIT and (b_ is not None and c_ is lv or c_ is i_)}
    if still:
      sub = lambda y: V.subst(y, still) if y is not None else None
      spec = {lv: (i_, sub(b_), sub(c_) if lv not in still else lv) for lv, (i_, b_, c_) in spec.items()}
      B = sub(B)
      for e in self.effects[neff:]:
        e.val = sub(e.val)
        e.args = [sub(y) for y in e.args] if e.args else e.args
        e.guards = tuple(sub(y) for y in e.guards)
        e.loops = tuple(sub(y) for y in e.loops)
    # an element assigned only in the round of its own number is as before the loop until then
    own = {}
    for lv, (i_, b_, c_) in spec.items():
      if c_ is not None and c_ is not lv and (b_ is None or V.elementwise(b_, lv, it) is not None) and V.elementwise(c_, lv, it) is not None:
        own[mk('i', lv, it)] = V.index(i_, it)
    if own:
      sub = lambda y: V.subst(y, own) if y is not None else None
      spec = {lv: (i_, sub(b_), sub(c_)) for lv, (i_, b_, c_) in spec.items()}
      B = sub(B)
      for e in self.effects[neff:]:
        e.val = sub(e.val)
        e.args = [sub(y) for y in e.args] if e.args else e.args
        e.guards = tuple(sub(y) for y in e.guards)
        e.loops = tuple(sub(y) for y in e.loops)
    changing = {lv for lv, (i_, b_, c_) in spec.items() if c_ is not None and c_ is not lv}
    full = {}
    for lv, (i_, b_, c_) in spec.items():
      step = c_ if c_ is not None else lv
      if hasbrk:
        step = mk('brk', B, b_, step)
      full[lv] = (i_, step)
    for lv, (i_, b_, c_) in spec.items():
      x = lvs[lv]
      if st1 is None and b_ is not None:
        # the first round is the only one
        m = {it: c(0)}
        m.update({l2: init[l2] for l2 in lvs})
        v = V.subst(b_, m)
        if n is not INF:
          v = join(t.compare('<', c(0), n, True), v, i_)
        after[x] = v
      elif not hasbrk:
        after[x] = i_ if c_ is lv or c_ is None else V.mkfold(n, it, lv, full)
      elif c_ is lv and not any(z in changing for z in V.fv(B) | V.fv(b_)):
        m = {l2: init[l2] for l2 in lvs}
        bb, vv = V.subst(B, m), V.subst(b_, m)
        vv = V.given(vv, bb)
        h, (cb, cv) = V.close(n, it, [], [bb, vv])
        first = vv
        if V.mentions(cv, mk('bv', h)):     # what the first such round yields, named by its number
          h, (cb,) = V.close(n, it, [], [bb])
          first = V.subst(vv, {it: mk('first', n, h, cb, mk('bv', h))})
        after[x] = join(V.any_(n, h, cb), first, i_) if i_ is not UNINIT else first
      elif c_ is not None and i_ is not UNINIT and n is not INF and not any(z in changing for z in V.fv(B)):
        # run to the end, no round met the way out
        bb = V.subst(B, {l2: init[l2] for l2 in lvs})
        h, (cb,) = V.close(n, it, [], [bb])
        whole = {l2: (i2, V.given(c2, t.not_(bb)) if c2 is not None else l2) for l2, (i2, b2, c2) in spec.items()}
        after[x] = join(V.any_(n, h, cb), V.mkfold(n, it, lv, full), V.mkfold(n, it, lv, whole))
      else:
        after[x] = V.mkfold(n, it, lv, full)
    for x, (i_, k) in ind.items():
      end = t.arith('add' if k == 1 else 'sub', i_, n)
      if not hasbrk:
        after[x] = end
        continue
      val = t.arith('add' if k == 1 else 'sub', i_, it)
      if st1 is not None and not any(z in changing for z in V.fv(B)):
        m = {l2: init[l2] for l2 in lvs}
        bb = V.subst(B, m)
        h, (cb, cv) = V.close(n, it, [], [bb, val])
        fst = mk('first', n, h, cb, cv)
        after[x] = fst if n is INF else join(V.any_(n, h, cb), fst, end)
      else:
        lv = mk('lv', uid, self.uid())
        sp = dict(full)
        sp[lv] = (i_, mk('brk', B, lv, t.arith('add' if k == 1 else 'sub', lv, c(1))))
        after[x] = V.mkfold(n, it, lv, sp)
    # stores through pointers that differ from round to round, and effects
    cur = {lv: mk('cur', V.mkfold(n, it, lv, full)) if full[lv][1] is not lv else init[lv] for lv in lvs}
    vary = frozenset([it]) | frozenset(lvs)
    for st, guard in ([(st1, None)] if st1 is not None else []) + [(s, cd) for cd, s in lp.breaks]:
      for k, v in st.items():
        if k.op in LOCAL or k in s0 or not (V.fv(k) & vary) or v is k:
          continue
        self.its.append(it)
        self.itn[it] = n
        if guard is not None:
          self.pc.append(guard)
        self.eff('store', mk('set', k, self.close_objects(v, st, nid0)), None, None)
        if guard is not None:
          self.pc.pop()
        self.its.pop()
    for e in self.effects[neff:]:
      if cur:
        e.val = V.subst(e.val, cur) if e.val is not None else None
        e.args = [V.subst(y, cur) for y in e.args] if e.args else e.args
        e.guards = tuple(V.subst(y, cur) for y in e.guards)
        e.loops = tuple(V.subst(y, cur) for y in e.loops)
    self.store = dict(s0)
    for x in sorted(after, key=lambda y: len(split(y)[1])):
      self.write(x, after[x])
    out = {'fall'}
    if not hasbrk and n is INF and st1 is not None:
      out = set()
    return self.leave(lp, out)

  def same_init(self, x, s0):
    return True

  def rounds(self, lit, it, lvs):
    """How many rounds the literal stays true, when that is linear in the round number."""
    neg = lit.op == 'not'
    z = lit.a[0] if neg else lit
    if z.op not in ('lt', 'ilt', 'eq') or z.op == 'eq' and not neg:
      return None
    a, b = z.a
    for x, y, left in ((a, b, True), (b, a, False)):
      k = self.linear(x, it)
      if k is None or V.fv(y) & (lvs | {it}) or V.fv(x) & lvs:
        continue
      x0 = V.subst(x, {it: c(0)})
      if z.op == 'eq':
        return t.arith('sub', y, x0) if k == 1 else t.arith('sub', x0, y)
      if k == 1 and left and not neg:          # x < y
        return t.arith('sub', y, x0)
      if k == 1 and not left and neg:          # !(y < x): x <= y
        return t.arith('add', t.arith('sub', y, x0), c(1))
      if k == -1 and not left and not neg:     # y < x
        return t.arith('sub', x0, y)
      if k == -1 and left and neg:             # !(x < y): x >= y
        return t.arith('add', t.arith('sub', x0, y), c(1))
    return None

  def linear(self, x, it):
    if x is it:
      return 1
    if x.op == 'off':
      return self.linear(x.a[0], it)
    if x.op == 'add' and it in x.a and sum(1 for y in x.a if it in V.fv(y)) == 1:
      return 1
    if x.op == 'sub':
      a, b = x.a
      if it in V.fv(a) and it not in V.fv(b):
        return self.linear(a, it)
      if it in V.fv(b) and it not in V.fv(a) and self.linear(b, it) == 1:
        return -1
    return None

  def close_objects(self, v, st, nid0):
    """Objects made during a round are replaced by what they hold."""
    hit = {}
    for x in t.walk(v):
      if x.op in ('new', 'tmp') and x.a[-1] > nid0 and x in st:
        saved, self.store = self.store, st
        hit[x] = mk('ref', self.snap(st[x], (x,)))
        self.store = saved
    return V.subst(v, hit) if hit else v

  def s_switch(self, s):
    _, ce, body, line, ety = s
    v = self.ev(ce)
    arms = []
    stmts = body[1] if body[0] == 'block' else [body]
    for x in stmts:
      if x[0] in ('case', 'default'):
        labels = []
        while x[0] in ('case', 'default'):
          labels.append(x[1] if x[0] == 'case' else None)
          x = x[2] if x[0] == 'case' else x[1]
        arms.append([labels, [x]])
      elif arms:
        arms[-1][1].append(x)
    lp = Loop(len(self.pc), switch=True)
    n, nf = len(self.pc), len(self.facts)
    s0 = dict(self.store)
    eq = {}
    for labels, _ in arms:
      for l in labels:
        if l is not None:
          eq[repr(l)] = t.compare('==', v, self.ev(l))
    outs, ends, has_def, fall_in = set(), [], False, None
    for k, (labels, body_) in enumerate(arms):
      own = [eq[repr(l)] for l in labels if l is not None]
      if None in labels:
        has_def = True
        cnd = t.and_(*[t.not_(x) for x in eq.values() if x not in own])
      else:
        cnd = t.or_(*own)
      if t.is_c(cnd, False) and fall_in is None:
        continue
      if fall_in is not None:
        self.store = self.merge(fall_in[0], fall_in[1], s0)
        cnd = t.or_(cnd, fall_in[0])
      else:
        self.store = dict(s0)
      fall_in = None
      self.pc += self.lits(cnd)
      self.loops.append(lp)
      try:
        r = self.s_block(['block', body_])
      except Dead:
        r = {'dead'}
      self.loops.pop()
      del self.pc[n:]
      del self.facts[nf:]
      if 'fall' in r:
        if k == len(arms) - 1:
          ends.append((cnd, self.store))
        else:
          fall_in = (cnd, self.store)
      outs |= r & {'ret', 'cont'}
    if not has_def:
      cnd = t.and_(*[t.not_(x) for x in eq.values()])
      if not t.is_c(cnd, False):
        ends.append((cnd, s0))
    ends = lp.breaks + ends
    if not ends:
      return outs or {'dead'}
    st = ends[-1][1]
    for cnd, s2 in reversed(ends[:-1]):
      st = self.merge(cnd, s2, st)
    self.store = st
    if outs:
      self.pc += self.lits(t.or_(*[e[0] for e in ends]))
    return self.leave(lp, outs | {'fall'})

  # ------------------------------------------------------------ locations
  def lv(self, e):
    """The location an expression denotes."""
    k = e[0]
    if k == 'var':
      return self.varloc(e[1])
    if k == 'mem':
      return locf(deref(self.ev(e[1])) if e[5] else self.lv(e[1]), e[2])
    if k == 'un' and e[1] == '*':
      return deref(self.ev(e[2]))
    if k == 'un' and e[1] in ('++', '--'):
      self.ev(e)
      return self.lv(e[2])
    if k == 'idx':
      if array(self.type_of(e[1])):
        return loci(self.lv(e[1]), self.ev(e[2]))
      b = self.ev(e[1])
      ix = self.ev(e[2])
      return loci(b, ix) if b.op == 'call' and b.a[0] == 'ptradd' else loci(deref(b), ix)
    if k == 'cast':
      return self.lv(e[2])
    if k == 'defarg' and e[1] is not None:
      return self.lv(e[1])
    if k == 'opcall':
      op, q, args = e[1], e[2], e[3]
      r = self.opcall(e)
      return r if e[7] else self.tmp(r)
    if k == 'mcall':
      r = self.e_mcall(e, raw=True)
      return r if e[8] else self.tmp(r)
    if k == 'call':
      if e[1] in ('std::move', 'std::forward', 'std::ref', 'std::cref', 'std::as_const'):
        return self.lv(e[3][0])
      if e[1] == 'std::get' and len(e) > 6 and e[6]:
        return locf(self.lv(e[3][0]), ('first', 'second', 'third', 'fourth')[e[6][0]] if isinstance(e[6][0], int) and e[6][0] < 4 else 'b%s' % e[6][0])
      r = self.e_call(e, raw=True)
      return r if e[8] else self.tmp(r)
    if k == 'cond':
      cnd = self.cond(e[1])
      if cnd.op == 'c':
        return self.lv(e[2] if cnd.a[0] else e[3])
      return t.ite(cnd, self.lv(e[2]), self.lv(e[3]))
    if k == 'this':
      return self.frames[-1].this
    if k == 'gvar':
      v = self.ev(e)
      return v if v.op == 'g' else self.tmp(v)
    if k == 'bin' and (e[1] == '=' or e[1].endswith('=') and e[1][:-1] in self._AR):
      self.ev(e)
      return self.lv(e[2])
    return self.tmp(self.ev(e))

  def varloc(self, vid):
    for fr in reversed(self.frames):
      if vid in fr.alias:
        return fr.alias[vid]
      loc = mk('loc', fr.uid, vid)
      if loc in self.store:
        return loc
      if fr.fn.get('lambda') is None:
        break
    return mk('loc', self.frames[-1].uid, vid)

  # ------------------------------------------------------------ expressions
  def ev(self, e, stmt=False):
    if e is None:
      return VOID
    k = e[0]
    if k in ('call', 'mcall'):
      return getattr(self, 'e_' + k)(e, stmt=stmt)
    m = getattr(self, 'e_' + k, None)
    if m is None:
      raise Broken('unsupported expression %r' % (k,))
    return m(e)

  def e_int(self, e):
    return c(e[1])

  e_flt = e_int
  e_bool = e_int
  e_str = e_int

  def e_gconst(self, e):
    return c(e[2])

  def e_null(self, e):
    return t.NONE

  def e_enum(self, e):
    return mk('enum', e[1], e[2])

  def e_fn(self, e):
    return t.mk('g', e[1])

  def e_zero(self, e):
    return self.zero(e[1], True)

  def e_defarg(self, e):
    return self.ev(e[1]) if e[1] is not None else VOID

  def e_this(self, e):
    return self.frames[-1].this

  def e_gvar(self, e):
    if e[1].endswith('::nullopt'):
      return t.NONE
    g = self.prog.globals.get((e[1], self.frames[-1].fn.get('file') if self.frames else None)) or self.prog.globals.get(e[1])
    if g and g.get('init') and (g['type'].startswith('const ') or 'constexpr' in g['type']):
      if g['init'][0] in ('int', 'flt', 'str', 'bool', 'enum', 'un', 'bin', 'cast', 'gconst', 'init', 'gvar'):
        return self.ev(g['init'])
    return self.rd(mk('g', e[1]))

  def e_var(self, e):
    v = self.rd(self.lv(e))
    return self.same(v) if v.op in ('size', 'f', 'i', 'p') else v

  e_mem = e_idx = e_var

  def e_copy(self, e):
    return self.ev(e[1])

  def e_cast(self, e):
    if e[1].endswith('*') and array(self.type_of(e[2])):
      return self.lv(e[2])
    v = self.ev(e[2])
    if e[1] in INTS and self.type_of(e[2]) in ('float', 'double'):
      return mk('trunc', v)
    if e[1] == 'bool':
      return self.truth(v, e[2])
    return v

  def type_of(self, e):
    k = e[0]
    if k in ('bin', 'mcall', 'call', 'opcall'):
      return e[4]
    if k in ('var', 'un'):
      return re.sub(r'^const ', '', e[3])
    if k == 'gvar':
      return re.sub(r'^const ', '', e[2])
    if k == 'gconst':
      return 'int'
    if k == 'flt':
      return 'double'
    if k == 'int':
      return 'int'
    if k == 'bool':
      return 'bool'
    if k in ('cast', 'zero'):
      return e[1]
    if k == 'mem':
      return re.sub(r'^const ', '', e[4])
    if k == 'cond':
      return self.type_of(e[2])
    if k in ('ctor',):
      return e[3]
    if k == 'copy':
      return e[2]
    if k == 'defarg' and e[1] is not None:
      return self.type_of(e[1])
    if k == 'idx':
      ty = strip(self.type_of(e[1]))
      return re.sub(r'\[\d*\]', '', ty, count=1) if ty.endswith(']') else ty.rstrip('* ')
    return ''

  def integral(self, e):
    return strip(self.type_of(e)) in INTS

  def cmp(self, op, a, b):
    ints = self.integral(a) and self.integral(b)
    x, y = self.ev(a), self.ev(b)
    if op in ('==', '!=') and self.type_of(a) == 'bool' and self.type_of(b) == 'bool' and y.op != 'c' and x.op != 'c':
      r = t.ite(x, y, t.not_(y))
      return r if op == '==' else t.not_(r)
    return self.compare(op, x, y, ints)

  def compare(self, op, x, y, ints=False):
    if op in ('==', '!='):
      for p, q in ((x, y), (y, x)):
        if q is t.NONE:
          r = self.null(p)
          return r if op == '==' else t.not_(r)
        if q.op == 'mend' and p.op == 'mit':
          r = contains(self.rd(p.a[0]), p.a[1])
          return t.not_(r) if op == '==' else r
      if is_iter(x) and is_iter(y):
        return t.compare(op, field(x, 'ix'), field(y, 'ix'))
      if is_iter(x) and y.op == 'ite' or is_iter(y) and x.op == 'ite':
        x, y = (x, y) if y.op == 'ite' else (y, x)
        return t.ite(y.a[0], self.compare(op, x, y.a[1]), self.compare(op, x, y.a[2]))
    elif is_iter(x) and is_iter(y):
      return t.compare(op, field(x, 'ix'), field(y, 'ix'), True)
    return t.compare(op, x, y, ints)

  def e_cond(self, e):
    cnd = self.cond(e[1])
    if cnd.op == 'c':
      return self.ev(e[2] if cnd.a[0] else e[3])
    n = len(self.pc)
    s0 = dict(self.store)
    self.pc += self.lits(cnd)
    a = self.ev(e[2])
    del self.pc[n:]
    sa, self.store = self.store, s0
    self.pc += self.lits(t.not_(cnd))
    b = self.ev(e[3])
    del self.pc[n:]
    self.store = self.merge(cnd, sa, self.store)
    return join(cnd, a, b)

  def e_un(self, e):
    op, x = e[1], e[2]
    if op == '!':
      return t.not_(self.cond(x))
    if op == '-':
      return t.neg(self.ev(x))
    if op == '+':
      return self.ev(x)
    if op == '*':
      return self.rd(deref(self.ev(x)))
    if op == '&':
      if x[0] == 'fn':
        return self.ev(x)
      return self.lv(x)
    if op in ('++', '--', '++post', '--post'):
      l = self.lv(x)
      old = self.rd(l)
      v = self.advance(old, c(1 if op.startswith('++') else -1))
      self.write(l, v)
      return old if op.endswith('post') else v
    if op == '~':
      return mk('bitnot', self.ev(x))
    return mk('un', op, self.ev(x))

  def advance(self, v, k):
    if is_iter(v):
      s = field(v, 'step').a[0]
      return setf(v, 'ix', t.arith('add' if s == 1 else 'sub', field(v, 'ix'), k))
    if v.op == 'ite':
      return join(v.a[0], self.advance(v.a[1], k), self.advance(v.a[2], k))
    if v.op == 'mit':
      return mk('mit', v.a[0], mk('call', 'next', self.rd(v.a[0]), v.a[1]))
    return t.arith('add', v, k) if not (t.num(k) and k.a[0] < 0) else t.arith('sub', v, c(-k.a[0]))

  _AR = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div', '%': 'mod', '&': 'bitand', '|': 'bitor',
         '^': 'bitxor', '<<': 'shl', '>>': 'shr'}

  def e_bin(self, e):
    op, a, b = e[1], e[2], e[3]
    if op == '=':
      v = self.value_for(e[4], b)
      if strip(e[4]) in INTS and self.type_of(b) in ('float', 'double'):
        v = mk('trunc', v)
      self.write(self.lv(a), v)
      return v
    if op == ',':
      self.ev(a)
      return self.ev(b)
    if op in ('&&', '||'):
      x = self.cond(a)
      if x.op == 'c' and bool(x.a[0]) == (op == '||'):
        return x
      n = len(self.pc)
      s0 = dict(self.store)
      self.pc += self.lits(x if op == '&&' else t.not_(x))
      y = self.cond(b)
      del self.pc[n:]
      self.store = self.merge(x if op == '&&' else t.not_(x), self.store, s0)
      return t.and_(x, y) if op == '&&' else t.or_(x, y)
    if op in ('<', '>', '<=', '>=', '==', '!='):
      return self.cmp(op, a, b)
    if op in ('.*', '->*'):
      return mk('memptr', self.lv(a) if op == '.*' else deref(self.ev(a)), self.ev(b))
    if op.endswith('=') and op[:-1] in self._AR:
      l = self.lv(a)
      v = self.arith(op[:-1], self.rd(l), self.ev(b), e)
      if strip(e[4]) in INTS and self.type_of(b) in ('float', 'double'):
        v = mk('trunc', v)
      self.write(l, v)
      return v
    if op in self._AR:
      x, y = self.ev(a), self.ev(b)
      if op in '+-' and (is_iter(x) or self.type_of(a).endswith('*')) and not self.type_of(b).endswith('*'):
        return self.advance(x, y if op == '+' else t.neg(y)) if is_iter(x) else mk('call', 'ptradd', x, y)
      return self.arith(op, x, y, e)
    return mk('bin', op, self.ev(a), self.ev(b))

  def arith(self, op, x, y, e):
    o = self._AR[op]
    if (o == 'mod' or o == 'div' and e is not None and e[4] not in ('float', 'double')) and t.num(x) and t.num(y) and (
        isinstance(x.a[0], int) and isinstance(y.a[0], int) and x.a[0] >= 0 and y.a[0] > 0):
      return c(x.a[0] % y.a[0] if o == 'mod' else x.a[0] // y.a[0])
    if o == 'div' and e is not None and e[4] not in ('float', 'double'):
      return mk('idiv', x, y)
    return t.arith(o, x, y)

  def e_init(self, e):
    if e[3]:
      d = {}
      r = self.prog.records.get(strip(e[1]))
      types = {f['name']: f['type'] for f in r['fields']} if r else {}
      for nm, x in zip(e[3], e[2]):
        d[nm] = self.value_for(types.get(nm, ''), x)
      return V.mkrec(mk('zero', strip(e[1])), d)
    if len(e[2]) == 0 and not array(e[1]):
      return self.zero(e[1], True)
    vs = [self.ev(x) for x in e[2]]
    if scalar(e[1], self.prog) and len(vs) == 1:
      return vs[0]
    if e[1].startswith('std::array<') and len(vs) == 1 and vs[0].op == 'list':
      return vs[0]
    return mk('list', *vs)

  def e_new(self, e):
    v = self.zero(e[1]) if e[2] is None or e[2][0] == 'void' else self.ev(e[2])
    return self.heap(e[1], v)

  def e_lambda(self, e):
    l = mk('lam', self.uid())
    fr = self.frames[-1]
    self.lams[l] = (e, fr)
    self.lamenv[l] = {k: v for k, v in self.store.items() if k.op == 'loc' and k.a[0] == fr.uid}
    return l

  def e_stmtexpr(self, e):
    self.ex(e[1])
    return VOID

  def e_unk(self, e):
    vs = [self.ev(x) for x in e[2] if isinstance(x, list) and x and hasattr(self, 'e_' + str(x[0]))]
    return mk('unk', e[1], *vs)

  def live(self, args):
    return [x for x in args if x is not None and x[0] != 'defarg']

  def e_ctor(self, e):
    cls, args, ty, line = e[1], e[2], e[3], e[4]
    sig = e[5] if len(e) > 5 else None
    base = ty.split('<')[0]
    live = self.live(args)
    if is_vector(ty) or mapcls(ty) or setcls(ty) or base.endswith(('RepeatedPtrField', 'RepeatedField')):
      vs = [self.ev(x) for x in live]
      if not vs:
        return mk('list')
      if len(vs) == 1 and (self.type_of(live[0]).startswith('std::initializer_list') or live[0][0] == 'init' or V.is_seq(vs[0])):
        if is_vector(ty):
          return vs[0]
        r = mk('list')
        if vs[0].op == 'list':
          for x in vs[0].a:
            p = rec(x)[1]
            r = V.put(r, p.get('first', x), p.get('second', x)) if mapcls(ty) else mk('ins', r, x)
          return r
        return mk('call', 'toset', vs[0])
      if len(vs) == 2 and is_iter(vs[0]) and is_iter(vs[1]):
        w = self.whole(vs[0], vs[1])
        if w is not None:
          return self.rd(w) if is_vector(ty) or 'Repeated' in ty.split('<')[0] else mk('call', 'toset', self.rd(w))
        return mk('call', 'slice', self.shown(field(vs[0], 'at')), field(vs[0], 'ix'), field(vs[1], 'ix'))
      if is_vector(ty) and len(vs) <= 2 and (len(vs) == 2 or self.integral(live[0])):
        el = elem_type(ty)
        fill = vs[1] if len(vs) == 2 else self.zero(el, True)
        return self.rep(vs[0], fill)
      return vs[0] if len(vs) == 1 else mk('call', 'ctor:' + base, *[self.shown(x) for x in vs])
    if base.endswith(('basic_string', 'string_view')):
      vs = [self.ev(x) for x in live]
      if len(vs) == 2 and is_iter(vs[0]) and is_iter(vs[1]):
        w = self.whole(vs[0], vs[1])
        return self.rd(w) if w is not None else mk('call', 'slice', self.shown(field(vs[0], 'at')), field(vs[0], 'ix'), field(vs[1], 'ix'))
      return vs[0] if len(vs) == 1 else (c('') if not vs else mk('call', 'string', *[self.shown(x) for x in vs]))
    if base in ('absl::StatusOr', 'absl::optional', 'std::optional', 'std::unique_ptr', 'std::function',
                'std::shared_ptr', 'std::atomic', 'std::reference_wrapper', '__gnu_cxx::__normal_iterator',
                'std::move_iterator', 'std::reverse_iterator') and len(live) == 1:
      return self.ev(live[0])
    if base in ('std::pair', 'std::tuple') and live:
      vs = [self.ev(x) for x in live]
      return self.tuple_(vs)
    fns = [fn for fn in self.prog.by_name.get('%s::%s' % (cls, cls.split('::')[-1]), []) if len(fn['params']) == len(args)]
    if sig:
      fns = [fn for fn in fns if fn['sig'] == sig] or fns
    if fns and self.inline(fns[0]):
      x = self.tmp(self.zero(ty))
      self.call_fn(fns[0], x, self.bind(fns[0], args), line)
      return self.store.pop(x)
    if not live:
      return self.zero(ty, True)
    return mk('call', 'ctor:' + base, *[self.shown(self.ev(x)) for x in live])

  def rep(self, n, v):
    if n.op == 'c' and isinstance(n.a[0], int) and 0 <= n.a[0] <= 16:
      return mk('list', *([v] * n.a[0]))
    return mk('rep', n, v)

  def tuple_(self, vs):
    return V.mkrec(mk('zero', 'pair'), {('first', 'second', 'third', 'fourth')[k] if k < 4 else 'b%d' % k: v for k, v in enumerate(vs)})

  def whole(self, a, b):
    """The container [a, b) spans, or None."""
    if is_iter(a) and is_iter(b) and field(a, 'at') is field(b, 'at') and t.is_c(field(a, 'ix'), 0) and (
        field(b, 'ix') is size(self.rd(field(a, 'at')))) and field(a, 'step').a[0] == 1:
      return field(a, 'at')
    return None

  # ------------------------------------------------------------ calls
  def bind(self, fn, es):
    """Arguments of a callee: locations for references, values otherwise."""
    out = []
    for k, prm in enumerate(fn['params']):
      x = es[k] if k < len(es) else None
      if x is None:
        x = ['defarg', prm[3]]
      ty = prm[2]
      if ty.endswith('&'):
        out.append(self.lv(x))
      elif ty.endswith('*') and array(self.type_of(x)):
        out.append(self.lv(x))
      else:
        v = self.ev(x)
        if strip(ty) in INTS and self.type_of(x) in ('float', 'double'):
          v = mk('trunc', v)
        out.append(v)
    return out

  def resolve(self, name, sig, nargs):
    fns = [fn for fn in self.prog.by_name.get(name, []) if nargs <= len(fn['params'])]
    if len(fns) > 1:
      fns = [f2 for f2 in fns if f2['sig'] == sig] or fns
    return fns

  def e_call(self, e, raw=False, stmt=False):
    r = self.call(e, stmt)
    return self.rd(r) if e[8] and not raw else r

  def call(self, e, stmt):
    name, callee, args, ty, line, targs, sig, islv = e[1:9]
    self.calls_seen += 1
    if name in ('std::move', 'std::forward', 'std::ref', 'std::as_const', 'std::cref'):
      return self.lv(args[0]) if islv else self.ev(args[0])
    if name in ('absl::implicit_cast', '__builtin_expect', 'std::to_string', 'std::make_move_iterator') or name.endswith('GetReferenceableValue'):
      v = self.lv(args[0]) if islv else self.ev(args[0])
      return mk('call', 'str', v) if name == 'std::to_string' else v
    if name == 'std::get' and targs and isinstance(targs[0], int):
      l = self.lv(['call'] + e[1:])
      return l if islv else self.rd(l)
    if name in ('absl::StrCat', 'absl::strings_internal::CatPieces'):
      return self.strcat([self.shown(self.ev(x)) for x in args])
    if name == 'absl::StrAppend':
      l = deref(self.ev(args[0]))
      self.write(l, self.strcat([self.rd(l)] + [self.shown(self.ev(x)) for x in args[1:]]))
      return VOID
    if name in ('std::make_pair', 'std::make_tuple'):
      return self.tuple_([self.ev(x) for x in args])
    if name == 'std::tie':
      return mk('tie', *[self.lv(x) for x in args])
    if name in ('std::back_inserter', 'std::inserter'):
      return mk('backins', self.lv(args[0]))
    if name in ('absl::make_unique', 'std::make_unique', 'std::make_shared'):
      cls = ty.split('<', 1)[-1].rsplit('>', 1)[0].split(',')[0]
      if cls.endswith('[]'):
        return self.heap(cls, self.rep(self.ev(args[0]), c(0)))
      fns = [fn for fn in self.prog.by_name.get('%s::%s' % (cls, cls.split('::')[-1]), []) if len(fn['params']) >= len(args)]
      fns = [fn for fn in fns if all(x[3] is not None for x in fn['params'][len(args):])]
      r = self.prog.records.get(cls)
      if len(fns) > 1:
        fns = sorted(fns, key=lambda fn: -sum(strip(p[2]) == strip(self.type_of(a)) for p, a in zip(fn['params'], args)))
      if fns and self.inline(fns[0]):
        x = self.tmp(self.zero(cls))
        self.call_fn(fns[0], x, self.bind(fns[0], args), line)
        return self.heap(cls, self.store.pop(x))
      vs = [self.shown(self.ev(x)) for x in args]
      return self.heap(cls, self.zero(cls, True) if not vs else vs[0] if len(vs) == 1 and self.type_of(args[0]) == cls else mk('call', 'ctor:' + cls, *vs))
    if name in ('std::max', 'std::min', 'std::fmax', 'std::fmin', 'fmax', 'fmin'):
      o = name.split('::')[-1].lstrip('f')
      vs = [self.ev(x) for x in self.live(args)]
      if len(vs) == 1 and vs[0].op == 'list':
        vs = list(vs[0].a)
      if len(vs) >= 2 and vs[-1].op != 'lam':
        r = vs[0]
        for x in vs[1:]:
          r = t.arith(o, r, x)
        return self.tmp(r) if islv else r
    if name in ('std::abs', 'std::fabs', 'fabs', 'abs'):
      return mk('call', 'abs', self.ev(args[0]))
    if name in ('std::swap',):
      la, lb = self.lv(args[0]), self.lv(args[1])
      va, vb = self.rd(la), self.rd(lb)
      self.write(la, vb)
      self.write(lb, va)
      return VOID
    if name == '?':
      return self.call_value(self.ev(callee), args, ty, line, stmt)
    fns = self.resolve(name, sig, len(args))
    if fns and self.inline(fns[0]):
      return self.call_fn(fns[0], None, self.bind(fns[0], args), line)
    if fns:
      return self.repo_call(fns[0], None, args, line, stmt)
    r = self.algorithm(name, args, line)
    if r is not None:
      return r
    return self.external(name, args, ty, line, sig, stmt)

  def repo_call(self, fn, this, args, line, stmt=False):
    """A call of a repository function that is analysed under its own
    contract: recorded with its arguments as they are now; what it may write
    through is its result."""
    vals = self.bind(fn, args)
    return self.opaque_call(fn['name'], this, fn.get('const', True), vals, [p[2] for p in fn['params']], line, stmt, fn['ret'],
                            not re.search('/(tools|ops|latency)/', fn['file']))

  def opaque_call(self, name, this, const, vals, types, line, stmt, ret, known=False):
    self.opaque[name] = self.opaque.get(name, 0) + 1
    outs, sh = [], []
    kept = known      # is all the call does in what it leaves behind its parameters?
    world = this is not None and name.startswith(WORLD)
    if this is not None:
      if world:
        sh.append(split(this)[0] if split(this)[0].op not in LOCAL else mk('local'))
      else:
        sh.append(self.shown(this))
        if not const:
          outs.append(('this', this))
    for k, v in enumerate(vals):
      ty = types[k] if k < len(types) else ''
      if outparam(ty) and v.op in (
          'loc', 'tmp', 'f', 'i', 'k', 'new', 'p', 'call', 'out', 'g', 'ite') and not ty.startswith(('tensorflow::OpKernelCon', 'std::basic_ostream', 'char ')):
        outs.append((k, v))
      elif outparam(ty):
        kept = False
      sh.append(self.shown(v))
    r = mk('call', short(name), *sh)
    for v in vals:
      if v.op == 'lam':
        self.unknown_lambda(v, name, sh, line)
    kept = kept and outs and not world and all(split(v)[0].op in ('loc', 'p', 'new') for _, v in outs)
    if stmt and not kept or world and not const:
      self.eff('mcall', r, None, line)
    for k, v in outs:
      if v.op == 'tmp' and k == 'this':
        continue
      self.write(v, mk('out', k, r))
    if ret and ret.split('<')[0].endswith(('unique_ptr', 'shared_ptr')):
      return self.heap('?' + ret.split('<', 1)[1].rsplit('>', 1)[0], r)
    if ret == 'waymo::open_dataset::Status' or ret == 'Status':
      # either the error it returns or the one success value
      ok = self.ok_status()
      if ok is not None:
        return join(t.compare('==', field(r, '_code'), field(ok, '_code')), ok, r)
    return r

  def ok_status(self):
    if not hasattr(self.prog, 'ok'):
      self.prog.ok = None
      fns = self.prog.by_name.get('waymo::open_dataset::OkStatus', [])
      if fns:
        self.prog.ok = self.call_fn(fns[0], None, [], None)
    return self.prog.ok

  def external(self, name, args, ty, line, sig, stmt, this=None, const=True):
    live = self.live(args)
    types = split_sig(sig)
    vals = []
    for k, x in enumerate(live):
      ty_k = types[k] if k < len(types) else ''
      if ty_k.endswith('&') or array(self.type_of(x)):
        l = self.lv(x)
        vals.append(l if not ty_k.startswith('const ') or l.op in LOCAL or array(self.type_of(x)) else l)
      else:
        vals.append(self.ev(x))
    return self.opaque_call(name, this, const, vals, types, line, stmt, ty)

  def strcat(self, vs):
    out = []
    for v in vs:
      while v.op == 'call' and v.a[0] == 'ctor:absl::AlphaNum' and len(v.a) == 2:
        v = v.a[1]
      for x in (v.a if v.op == 'cat' else (v,)):
        if x.op == 'c' and out and out[-1].op == 'c' and isinstance(x.a[0], str) and isinstance(out[-1].a[0], str):
          out[-1] = c(out[-1].a[0] + x.a[0])
        else:
          out.append(x)
    out = [x for x in out if not t.is_c(x, '')]
    if any(x.op == 'ite' for x in out) and len(out) <= 8:
      for k, x in enumerate(out):
        if x.op == 'ite':
          return join(x.a[0], self.strcat(out[:k] + [x.a[1]] + out[k + 1:]),
                      self.strcat(out[:k] + [x.a[2]] + out[k + 1:]))
    if len(out) == 1:
      return out[0]
    return mk('cat', *out) if out else c('')

  def call_value(self, cv, args, ty, line, stmt=False):
    if cv.op == 'lam' and cv in self.lams:
      return self.call_lambda(cv, args, line)
    if cv.op == 'ref' and cv.a[0].op == 'lam':
      return self.call_lambda(cv.a[0], args, line)
    if cv.op == 'g':
      fns = [f for f in self.prog.by_name.get(cv.a[0], []) if len(f['params']) == len(args)]
      if fns and self.inline(fns[0]):
        return self.call_fn(fns[0], None, self.bind(fns[0], args), line)
      if fns:
        return self.repo_call(fns[0], None, args, line, stmt)
    if cv.op == 'memptr' and cv.a[1].op == 'g':
      return self.method(cv.a[1].a[0], cv.a[0], args, ty, line, True, '', False, stmt)
    if cv.op == 'ite' and all(x.op in ('lam', 'g') for x in cv.a[1:]):
      n = len(self.pc)
      s0 = dict(self.store)
      self.pc += self.lits(cv.a[0])
      a = self.call_value(cv.a[1], args, ty, line)
      del self.pc[n:]
      sa, self.store = self.store, s0
      self.pc += self.lits(t.not_(cv.a[0]))
      b = self.call_value(cv.a[2], args, ty, line)
      del self.pc[n:]
      self.store = self.merge(cv.a[0], sa, self.store)
      return join(cv.a[0], a, b)
    vs = [self.shown(self.ev(x)) for x in args]
    r = mk('call', self.shown(cv), *vs)
    if stmt:
      self.eff('mcall', r, None, line)
    return r

  def call_lambda(self, cv, args, line, vals=None):
    e, fr0 = self.lams[cv]
    fn = {'name': fr0.fn['name'] + '::lambda', 'params': e[1], 'body': e[2], 'file': fr0.fn['file'], 'ret': '',
          'line': e[4], 'lambda': True}
    if any(fr.fn.get('lambda') and fr.fn.get('line') == fn['line'] and fr.fn['name'] == fn['name'] for fr in self.frames):
      return mk('call', 'lambda')
    if vals is None:
      vals = self.bind(fn, args)
    fr = Frame()
    fr.fn, fr.uid, fr.alias, fr.exits, fr.this, fr.byref = fn, fr0.uid, dict(fr0.alias), [], fr0.this, False
    fr.ruid = self.uid()
    fr.pc0, fr.nf, fr.ne, fr.nl = len(self.pc), len(self.facts), len(self.effects), len(self.its)
    for k, v in self.lamenv[cv].items():
      self.store.setdefault(k, v)
    for vid, nm, byref in e[3]:
      k = mk('loc', fr0.uid, vid)
      if not byref and k in self.lamenv[cv]:
        x = self.tmp(self.lamenv[cv][k])
        fr.alias[vid] = x
    self.frames.append(fr)
    saved, self.loops = self.loops, []
    for prm, a in zip(e[1], vals):
      fr.alias.pop(prm[0], None)
      if prm[2].endswith('&'):
        fr.alias[prm[0]] = a
      else:
        self.store[mk('loc', fr.uid, prm[0])] = a
    try:
      return self.finish(fr, e[2], drop=False)
    finally:
      self.loops = saved

  def lam_apply(self, lam, vals):
    """The value a function object returns for these values, without its effects."""
    if lam.op == 'g':
      fns = [f for f in self.prog.by_name.get(lam.a[0], []) if len(f['params']) == len(vals)]
      if not fns or not self.inline(fns[0]):
        return mk('call', short(lam.a[0]), *vals)
    elif lam.op != 'lam':
      return mk('call', lam, *vals)
    saved = (self.store, list(self.pc), self.frames, self.loops, len(self.effects))
    self.store, self.pc, self.frames, self.loops = dict(self.store), [], list(self.frames), []
    try:
      if lam.op == 'g':
        args = [mk('val', v) if p[2].endswith('&') else v for v, p in zip(vals, fns[0]['params'])]
        return self.snap(self.call_fn(fns[0], None, args, 0))
      args = [mk('val', v) if p[2].endswith('&') else v for v, p in zip(vals, self.lams[lam][0][1])]
      return self.snap(self.call_lambda(lam, None, 0, args))
    except Dead:
      return VOID
    finally:
      n = saved[4]
      del self.effects[n:]
      self.store, self.pc, self.frames, self.loops = saved[:4]

  def lamterm(self, lam):
    if lam.op != 'lam':
      return lam
    ar = len(self.lams[lam][0][1])
    u = self.uid()
    xs = [mk('it', u, k) for k in range(ar)]
    body = self.lam_apply(lam, xs)
    h = 1 + V.height(body)
    return mk('lambda', h, ar, V.subst(body, {x: mk('bp', h, k) for k, x in enumerate(xs)}))

  def unknown_lambda(self, lam, name, sh, line):
    """A function object handed to a callee that calls it at will."""
    e = self.lams[lam][0]
    if name.endswith('::Schedule'):
      try:
        self.call_lambda(lam, None, line, [mk('local') for _ in e[1]])
      except Dead:
        pass
      return

    def body():
      vals = []
      for k, prm in enumerate(e[1]):
        v = mk('lamarg', short(name), k, self.its[-1])
        vals.append(self.tmp(v) if prm[2].endswith('&') else v)
      self.call_lambda(lam, None, line, vals)
      return {'fall'}
    self.loop(body, n=mk('call', 'calls', short(name)))

  # ---- algorithms over iterator ranges
  REWRITE = ('sort', 'stable_sort', 'reverse', 'shuffle', 'partial_sort', 'nth_element')

  def algorithm(self, name, args, line):
    if not name.startswith(('std::', 'absl::c_')) and name not in ('memset',):
      return None
    sn = name.split('::')[-1]
    live = self.live(args)
    if sn.startswith('c_'):
      sn = sn[2:]
      if sn not in self.REWRITE + ('iota', 'accumulate', 'any_of', 'all_of', 'none_of', 'count_if', 'find_if', 'max_element', 'min_element', 'transform', 'copy', 'fill', 'for_each', 'count', 'linear_search'):
        return None
      L = self.lv(live[0])
      vs = [iterv(L, c(0)), iterv(L, size(self.rd(L)))] + [self.ev(x) for x in live[1:]]
    elif sn in self.REWRITE + ('iota', 'accumulate', 'any_of', 'all_of', 'none_of', 'count_if', 'count', 'find_if', 'max_element', 'min_element', 'transform', 'copy', 'fill', 'for_each', 'find',
                               'distance', 'next', 'prev', 'fill_n', 'copy_if', 'lower_bound', 'upper_bound', 'advance', 'unique', 'remove_if', 'copy_n', 'inner_product', 'partial_sum', 'begin', 'end'):
      if sn in ('begin', 'end'):
        L = self.lv(live[0])
        return iterv(L, c(0) if sn == 'begin' else size(self.rd(L)))
      vs = [self.ev(x) for x in live]
    else:
      return None
    if sn == 'distance' and is_iter(vs[0]) and is_iter(vs[1]):
      return t.arith('sub', field(vs[1], 'ix'), field(vs[0], 'ix'))
    if sn in ('next', 'prev') and is_iter(vs[0]):
      k = vs[1] if len(vs) > 1 else c(1)
      return self.advance(vs[0], k if sn == 'next' else t.neg(k))
    if len(vs) < 2 or not is_iter(vs[0]) or (not is_iter(vs[1]) and sn not in ('fill_n', 'copy_n')):
      return None
    L = field(vs[0], 'at')
    w = self.whole(vs[0], vs[1]) if is_iter(vs[1]) else None
    v = self.rd(L)
    lo = field(vs[0], 'ix')
    n = t.arith('sub', field(vs[1], 'ix'), lo) if is_iter(vs[1]) else vs[1]
    rest = vs[2:]
    sub = [] if w is not None else [lo, t.arith('add', lo, n)]
    if sn in self.REWRITE or sn in ('unique', 'remove_if'):
      r = mk('call', sn, self.snap(v), *(sub + [self.lamterm(x) if x.op == 'lam' else self.shown(x) for x in rest]))
      self.write(L, r)
      return VOID if sn in self.REWRITE else iterv(L, mk('call', sn + '_end', r))
    uid = self.uid()
    it = mk('it', uid)
    pos = t.arith('add', lo, it)
    el = index(v, pos)
    if sn in ('iota', 'fill', 'fill_n'):
      val = rest[0] if sn != 'fill_n' else vs[2]
      if w is not None:
        if sn == 'fill':
          self.write(L, self.rep(n, val))
        else:
          h, (x,) = V.close(n, it, [], [t.arith('add', val, it)])
          self.write(L, V.fold(n, h, mk('list'), mk('append', mk('bl', h, 0), x)))
        return VOID
      lv = mk('lv', uid, self.uid())
      self.write(L, V.mkfold(n, it, lv, {lv: (v, seti(lv, pos, val if sn != 'iota' else t.arith('add', val, it)))}))
      return VOID
    if sn == 'accumulate':
      lv = mk('lv', uid, self.uid())
      step = self.lam_apply(rest[1], [lv, el]) if len(rest) > 1 else t.arith('add', lv, el)
      return V.mkfold(n, it, lv, {lv: (rest[0], step)})
    if sn in ('any_of', 'all_of', 'none_of'):
      x = self.lam_apply(rest[0], [el])
      h, (b,) = V.close(n, it, [], [t.not_(x) if sn == 'all_of' else x])
      r = V.any_(n, h, b)
      return r if sn == 'any_of' else t.not_(r)
    if sn in ('count_if', 'count'):
      x = self.lam_apply(rest[0], [el]) if sn == 'count_if' else t.compare('==', el, rest[0])
      lv = mk('lv', uid, self.uid())
      return V.mkfold(n, it, lv, {lv: (c(0), t.ite(x, t.arith('add', lv, c(1)), lv))})
    if sn in ('find', 'find_if'):
      x = self.lam_apply(rest[0], [el]) if sn == 'find_if' else t.compare('==', el, rest[0])
      h, (b, p) = V.close(n, it, [], [x, pos])
      return iterv(L, t.ite(V.any_(n, h, b), mk('first', n, h, b, p), t.arith('add', lo, n)))
    if sn in ('max_element', 'min_element'):
      # the first smallest (largest): a candidate replaces the best one only if it is strictly better
      lv = mk('lv', uid, self.uid())
      cand, best = index(v, t.arith('add', pos, c(1))), index(v, lv)
      x, y = (cand, best) if sn == 'min_element' else (best, cand)
      less = self.lam_apply(rest[0], [x, y]) if rest else t.compare('<', x, y)
      step = t.ite(less, t.arith('add', pos, c(1)), lv)
      return iterv(L, V.mkfold(t.arith('sub', n, c(1)), it, lv, {lv: (lo, step)}))
    if False:
      return iterv(L, mk('call', sn, self.snap(v), *(sub + [self.lamterm(x) if x.op == 'lam' else x for x in rest])))
    if sn in ('transform', 'copy', 'copy_if') and rest and rest[0].op == 'backins':
      D = rest[0].a[0]
      lv = mk('lv', uid, self.uid())
      x = el if sn != 'transform' else self.lam_apply(rest[1], [el])
      step = append(lv, x)
      if sn == 'copy_if':
        step = t.ite(self.lam_apply(rest[1], [el]), step, lv)
      if sn == 'copy' and w is not None:
        self.write(D, extend(self.rd(D), v))
        return rest[0]
      self.write(D, V.mkfold(n, it, lv, {lv: (self.rd(D), step)}))
      return rest[0]
    if sn in ('transform', 'copy') and rest and is_iter(rest[0]):
      D, d0 = field(rest[0], 'at'), field(rest[0], 'ix')
      lv = mk('lv', uid, self.uid())
      x = el if sn == 'copy' else self.lam_apply(rest[1], [el if D is not L else index(lv, pos)])
      self.write(D, V.mkfold(n, it, lv, {lv: (self.rd(D), seti(lv, t.arith('add', d0, it), x))}))
      return self.advance(rest[0], n)
    if sn == 'copy' and rest and rest[0].op == 'p':
      D = deref(rest[0])
      lv = mk('lv', uid, self.uid())
      self.write(D, V.mkfold(n, it, lv, {lv: (self.rd(D), seti(lv, it, el))}))
      return VOID
    if sn == 'for_each' and rest and rest[0].op == 'lam':
      e = self.lams[rest[0]][0]

      def body():
        l = loci(L, t.arith('add', lo, self.its[-1]))
        self.call_lambda(rest[0], None, line, [l if e[1][0][2].endswith('&') else self.rd(l)])
        return {'fall'}
      self.loop(body, n=n)
      return VOID
    return None

  # ---- operators
  def e_opcall(self, e):
    r = self.opcall(e)
    return self.rd(r) if e[7] and r.op not in ('void',) else r

  def opcall(self, e):
    """Value of an operator call; a location when the operator yields an lvalue."""
    op, q, args, ty, line, sig, islv, const = e[1:9]
    if op == '=' and len(args) == 2:
      fns = [f for f in self.prog.by_name.get(q, []) if f['sig'] == sig]
      a = args[0]
      if a[0] == 'call' and a[1] == 'std::tie':
        v = self.ev(args[1])
        for k, l in enumerate(self.call(a, False).a):
          self.write(l, field(v, ('first', 'second', 'third', 'fourth')[k]))
        return VOID
      v = self.value_for(self.type_of(a), args[1])
      l = self.lv(a)
      if fns and self.inline(fns[0]):
        self.call_fn(fns[0], l, self.bind(fns[0], args[1:]), line)
        return l
      if v.op == 'list' and self.type_of(a).startswith('std::') and args[1][0] == 'init' and (mapcls(strip(self.type_of(a))) or setcls(strip(self.type_of(a)))):
        v = self.e_ctor(['ctor', '', [args[1]], strip(self.type_of(a)), line])
      self.write(l, v)
      return l
    fns = self.resolve(q, sig, 0)
    if op == '()':
      if fns:
        this = self.lv(args[0])
        return self.call_fn(fns[0], this, self.bind(fns[0], args[1:]), line) if self.inline(fns[0]) else self.repo_call(fns[0], this, args[1:], line)
      cv = self.ev(args[0])
      if cv.op in ('lam', 'g') or 'function' in q or 'operator()' in q and '(anonymous' in q or cv.op == 'ref' or '(lambda' in q:
        return self.call_value(cv, args[1:], ty, line)
      base = deref(cv) if cv.op in ('view', 'ite') else self.lv(args[0])
      vs = [self.ev(x) for x in args[1:]]
      l = loci(base, mk('ix', *vs) if len(vs) != 1 else vs[0])
      return l if islv else self.rd(l)
    if op == '[]' and not fns:
      cls = q.rsplit('::', 1)[0]
      base = self.lv(args[0])
      bv = self.rd(base)
      if 'unique_ptr' in cls.split('<')[0]:
        base = deref(bv)
      elif is_iter(bv):
        l = loci(field(bv, 'at'), t.arith('add', field(bv, 'ix'), self.ev(args[1])))
        return l if islv else self.rd(l)
      l = loci(base, self.ev(args[1]), 'k' if mapcls(cls) else 'i')
      return l if islv else self.rd(l)
    if op in ('*', '->') and len(args) == 1 and not fns:
      v = self.ev(args[0])
      ty0 = strip(self.type_of(args[0]))
      if 'optional<' in ty0[:20] or ty0.startswith(('absl::StatusOr<', 'absl::optional<', 'std::optional<')):
        return self.lv(args[0])
      return deref(v)
    if op in ('==', '!=', '<', '>', '<=', '>=') and len(args) == 2:
      if fns and self.inline(fns[0]):
        fn = fns[0]
        if fn.get('cls'):
          r = self.call_fn(fn, self.lv(args[0]), self.bind(fn, args[1:]), line)
        else:
          r = self.call_fn(fn, None, self.bind(fn, args), line)
        return r
      return self.compare(op, self.ev(args[0]), self.ev(args[1]))
    if op == '!' and len(args) == 1 and not fns:
      return t.not_(self.ev(args[0]))
    if fns:
      fn = fns[0]
      mem = fn.get('cls') and not fn.get('static')
      rest = args[1:] if mem else args
      if len(fn['params']) == len(rest):
        if self.inline(fn):
          return self.call_fn(fn, self.lv(args[0]) if mem else None, self.bind(fn, rest), line)
        return self.repo_call(fn, self.lv(args[0]) if mem else None, rest, line)
    if op in ('++', '--'):
      l = self.lv(args[0])
      old = self.rd(l)
      self.write(l, self.advance(old, c(1 if op == '++' else -1)))
      return l if islv else (old if len(args) == 2 else self.rd(l))
    if 'LogMessageVoidify' in q:
      return VOID
    if op == ',' and 'CommaInitializer' in q:
      a = self.ev(args[0])
      if a.op == 'comma':
        r = mk('comma', a.a[0], *(a.a[1:] + (self.ev(args[1]),)))
        self.write(a.a[0], mk('call', 'eigen', mk('list', *r.a[1:])))
        return r
    if op == '<<' and 'Eigen' in q:
      l = self.lv(args[0])
      v = self.ev(args[1])
      self.write(l, mk('call', 'eigen', mk('list', v)))
      return mk('comma', l, v)
    if op in ('<<', '>>') and len(args) == 2:
      if 'stream' in q or 'operator' + op in q and not strip(self.type_of(args[0])) in INTS:
        l = self.lv(args[0])
        v = self.shown(self.ev(args[1]))
        old = self.rd(l)
        if op == '<<':
          if split(l)[0].op in LOCAL and ('stringstream' in self.type_of(args[0]) or 'ostringstream' in str(old)):
            self.write(l, mk('call', '<<', old, v))
          else:
            self.eff('mcall', mk('call', '<<', v), None, line)
        else:
          x = self.lv(args[1])
          self.write(x, mk('out', 'read', old))
        return l
    vs = [self.ev(x) for x in args]
    if op in self._AR and len(vs) == 2:
      if op == '+' and 'basic_string' in ty:
        return self.strcat([self.shown(x) for x in vs])
      if op in '+-' and is_iter(vs[0]):
        if is_iter(vs[1]):
          return t.arith('sub', field(vs[0], 'ix'), field(vs[1], 'ix'))
        return self.advance(vs[0], vs[1] if op == '+' else t.neg(vs[1]))
      if 'Eigen' in q and op == '*':
        return mk('call', 'matmul', self.shown(vs[0]), self.shown(vs[1]))
      return t.arith(self._AR[op], self.shown(vs[0]), self.shown(vs[1]))
    if op.endswith('=') and op[:-1] in self._AR and len(args) == 2:
      l = self.lv(args[0])
      if 'basic_string' in ty:
        v = self.strcat([self.rd(l), self.shown(vs[1])])
      elif is_iter(vs[0]):
        v = self.advance(vs[0], vs[1] if op == '+=' else t.neg(vs[1]))
      elif 'Eigen' in q and op == '*=':
        v = mk('call', 'matmul', vs[0], vs[1])
      else:
        v = t.arith(self._AR[op[:-1]], vs[0], vs[1])
      self.write(l, v)
      return l
    if op == '-' and len(vs) == 1:
      return t.neg(vs[0])
    r = mk('call', 'operator' + op, *[self.shown(x) for x in vs])
    if not const and args and islv:
      l = self.lv(args[0])
      if split(l)[0].op not in ('val', 'c'):
        self.write(l, mk('out', 'this', r))
    return r

  # ---- methods
  def e_mcall(self, e, raw=False, stmt=False):
    name, recv, args, ty, line, const, sig, islv, arrow = e[1:10]
    self.calls_seen += 1
    if name.startswith(('google::LogMessage', 'tsl::internal::LogMessage')):
      return VOID
    if recv is None:
      this = self.frames[-1].this
    elif arrow:
      this = deref(self.ev(recv))
    else:
      this = self.lv(recv)
    r = self.method(name, this, args, ty, line, const, sig, islv, stmt)
    if islv and not raw and r.op != 'void':
      return self.rd(r)
    return r

  def method(self, name, this, args, ty, line, const, sig, islv, stmt):
    cls, _, m = name.rpartition('::')
    fns = self.resolve(name, sig, len(args))
    dyn = self.dynamic(this)
    over = False
    if cls in self.prog.derived or cls in self.prog.records:
      if dyn and dyn != cls:
        f2 = [f for f in self.prog.by_name.get(dyn + '::' + m, []) if len(f['params']) >= len(args)]
        if f2:
          fns = f2
      elif not dyn:
        over = any((d + '::' + m) in self.prog.by_name for d in self.prog.derived.get(cls, ()))
    if fns and self.inline(fns[0]) and not over:
      return self.call_fn(fns[0], this, self.bind(fns[0], args), line)
    if fns:
      return self.repo_call(fns[0], this, args, line, stmt)
    if self.is_proto(cls):
      r = self.proto_method(cls, m, this, args, ty, line, islv)
      if r is not None:
        return r
    if cls not in self.prog.records:
      r = self.std_method(cls, m, this, args, ty, line, islv, const)
      if r is not None:
        return r
    return self.external(name, args, ty, line, sig, stmt, this, const)

  def dynamic(self, this):
    r, path = split(this)
    if r.op == 'new' and not path and not str(r.a[0]).startswith('?'):
      return str(r.a[0]).split('<')[0]
    return None

  def is_proto(self, cls):
    return (cls.startswith(('waymo::open_dataset::', 'tensorflow::Feature', 'tensorflow::Example',
                            'google::protobuf::Message', 'tensorflow::BytesList', 'tensorflow::FloatList',
                            'tensorflow::Int64List')) and cls not in self.prog.records)

  def touch(self, loc):
    """mutable_x(): the message is present from now on."""
    v = self.rd(loc)
    if v.op == 'f' or v.op in ('unset',):
      self.write(loc, mk('set', v))

  def proto_method(self, cls, m, this, args, ty, line, islv):
    n = len(args)
    repeated = 'Repeated' in ty or '::Map<' in ty
    if m.startswith('mutable_') and n == 0:
      l = locf(this, m[8:])
      if not repeated:
        self.touch(l)
      return l
    if m.startswith('mutable_') and n == 1:
      return loci(locf(this, m[8:]), self.ev(args[0]))
    if m.startswith('set_') and n == 1:
      self.write(locf(this, m[4:]), self.shown(self.ev(args[0])))
      return VOID
    if m.startswith('set_') and n == 2 and self.integral(args[0]):
      self.write(loci(locf(this, m[4:]), self.ev(args[0])), self.shown(self.ev(args[1])))
      return VOID
    if m.startswith('add_') and n == 0:
      l = locf(this, m[4:])
      v = self.rd(l)
      ix = size(v)
      self.write(l, append(v, mk('zero', ty.rstrip(' *'))))
      return loci(l, ix) if ty.endswith('*') else mk('c', None)
    if m.startswith('add_') and n == 1:
      l = locf(this, m[4:])
      self.write(l, append(self.rd(l), self.shown(self.ev(args[0]))))
      return VOID
    if m.startswith('has_') and n == 0:
      return has(self.rd(locf(this, m[4:])))
    if m.startswith('clear_') and n == 0:
      self.write(locf(this, m[6:]), mk('unset'))
      return VOID
    if m.endswith('_size') and n == 0:
      return size(self.rd(locf(this, m[:-5])))
    if m.endswith('_case') and n == 0:
      return mk('case', self.snap(self.rd(locf(this, m[:-5]))))
    if m == 'CopyFrom' and n == 1:
      self.write(this, self.rd(self.lv(args[0])))
      return VOID
    if m == 'MergeFrom' and n == 1:
      old, new = self.rd(this), self.rd(self.lv(args[0]))
      self.write(this, new if old.op == 'zero' else mk('call', 'merged', old, new))
      return VOID
    if m == 'Swap' and n == 1:
      o = deref(self.ev(args[0]))
      a, b = self.rd(this), self.rd(o)
      self.write(this, b)
      self.write(o, a)
      return VOID
    if m == 'Clear' and n == 0:
      self.write(this, mk('zero', cls))
      return VOID
    if m in ('default_instance',):
      return mk('g', cls + '::default')
    if m in ('ParseFromString', 'ParseFromArray', 'ParseFromIstream', 'MergeFromString'):
      r = mk('call', m, *[self.shown(self.ev(x)) for x in args])
      self.write(this, mk('out', 'this', r))
      return r
    if m in ('SerializeToString',):
      self.write(deref(self.ev(args[0])), mk('call', 'serialized', self.shown(this)))
      return t.TRUE
    if m in ('SerializeAsString',):
      return mk('call', 'serialized', self.shown(this))
    if m in ('descriptor', 'GetDescriptor', 'GetReflection', 'DebugString', 'ShortDebugString', 'New', 'SerializeToOstream', 'ByteSizeLong', 'IsInitialized'):
      return None
    if n == 0:
      l = locf(this, m)
      return l if islv else self.rd(l)
    if n == 1 and '_Name' not in m and '_IsValid' not in m and '_Parse' not in m:
      l = loci(locf(this, m), self.ev(args[0]))
      return l if islv else self.rd(l)
    return None

  def std_method(self, cls, m, this, args, ty, line, islv, const):
    base = cls.split('<')[0]
    short_ = base.split('::')[-1]
    live = self.live(args)
    n = len(live)
    ismap, isset = mapcls(cls), setcls(cls)
    L = lambda l: l if islv else self.rd(l)
    if base.startswith('tensorflow::Tensor') and m in VIEWS:
      return mk('view', this)
    if m in ('size', 'length', 'size_bytes') and n == 0:
      return size(self.rd(this))
    if m == 'empty' and n == 0:
      return t.compare('==', size(self.rd(this)), c(0))
    if m in ('at', 'Get', 'Mutable', 'operator[]') and n >= 1:
      l = loci(this, self.ev(args[0]), 'k' if ismap else 'i')
      return l if m == 'Mutable' else L(l)
    if m == 'back' and n == 0:
      return L(loci(this, t.arith('sub', size(self.rd(this)), c(1))))
    if m == 'front' and n == 0:
      return L(loci(this, c(0)))
    if m == 'Add' and n == 0:
      v = self.rd(this)
      ix = size(v)
      self.write(this, append(v, mk('zero', ty.rstrip(' *'))))
      return loci(this, ix)
    if m in ('push_back', 'emplace_back', 'Add', 'push', 'AddAllocated') and not ismap and not isset:
      v = self.rd(this)
      ix = size(v)
      et = elem_type(cls)
      if m == 'emplace_back' and (n != 1 or et in self.prog.records or et.startswith(('std::pair', 'std::tuple', 'std::vector'))) :
        x = self.construct(et, live, line)
      else:
        x = self.value_for(et, live[0]) if n else self.zero(et, True)
      self.write(this, append(self.rd(this), x))
      return loci(this, ix) if islv else VOID
    if m == 'append' and short_ == 'basic_string' and n == 1:
      self.write(this, self.strcat([self.rd(this), self.shown(self.ev(live[0]))]))
      return this
    if m in ('resize',) and n >= 1:
      v = self.ev(live[0])
      fill = self.ev(live[1]) if n > 1 else self.zero(elem_type(cls), True)
      cur = self.rd(this)
      self.write(this, self.rep(v, fill) if V.empty(cur) else mk('resized', cur, v, fill))
      return VOID
    if m in ('reserve', 'shrink_to_fit', 'Reserve'):
      return VOID
    if m in ('clear', 'Clear') and n == 0:
      self.write(this, c('') if short_ == 'basic_string' else mk('list'))
      return VOID
    if m in ('MergeFrom', 'CopyFrom') and n == 1 and short_ in ('RepeatedPtrField', 'RepeatedField'):
      u = self.rd(self.lv(live[0]))
      self.write(this, extend(self.rd(this), u) if m == 'MergeFrom' else u)
      return VOID
    if m == 'Add' and n == 2 and short_ in ('RepeatedPtrField', 'RepeatedField'):
      vs = [self.ev(x) for x in live]
      w = self.whole(vs[0], vs[1])
      if w is not None:
        self.write(this, extend(self.rd(this), self.rd(w)))
        return VOID
    if m == 'RemoveLast' and n == 0:
      m = 'pop_back'
    if m == 'assign' and short_ == 'vector':
      self.write(this, self.e_ctor(['ctor', cls, args, cls, line]))
      return VOID
    if m == 'pop_back' and n == 0:
      q = self.rd(this)
      self.write(this, q.a[0] if q.op == 'append' else mk('list', *q.a[:-1]) if q.op == 'list' and q.a else mk('resized', q, t.arith('sub', size(q), c(1)), VOID))
      return VOID
    if m == 'swap' and n == 1:
      o = self.lv(live[0])
      a, b = self.rd(this), self.rd(o)
      self.write(this, b)
      self.write(o, a)
      return VOID
    if m == 'erase' and n >= 1:
      vs = [self.ev(x) for x in live]
      cur = self.rd(this)
      if ismap or isset:
        key = vs[0].a[1] if vs[0].op == 'mit' else vs[0]
        self.write(this, mk('del', cur, key))
        return mk('mit', this, mk('call', 'next', cur, key)) if vs[0].op == 'mit' else t.ite(contains(cur, key), c(1), c(0))
      ix = [field(x, 'ix') if is_iter(x) else self.shown(x) for x in vs]
      self.write(this, mk('erase', cur, *ix))
      return iterv(this, ix[0])
    if ismap and m in ('insert', 'emplace', 'try_emplace', 'insert_or_assign'):
      cur = self.rd(this)
      vs = [self.ev(x) for x in live]
      if len(vs) == 1:
        key, val = field(vs[0], 'first'), field(vs[0], 'second')
      elif len(vs) == 2 and not is_iter(vs[0]):
        key, val = vs
      else:
        return None
      self.write(this, (lambda *a: mk('putnew', *a) if m != 'insert_or_assign' else V.put(*a))(cur, key, self.snap(val) if val.op not in LOCAL else val))
      return pair(mk('mit', this, key), t.not_(contains(cur, key)))
    if isset and m in ('insert', 'emplace'):
      cur = self.rd(this)
      vs = [self.ev(x) for x in live]
      if len(vs) == 1:
        self.write(this, mk('ins', cur, vs[0]))
        return pair(mk('mit', this, vs[0]), t.not_(contains(cur, vs[0])))
      if len(vs) == 2:
        w = self.whole(vs[0], vs[1])
        src = self.rd(w) if w is not None else mk('list', self.shown(vs[0]), self.shown(vs[1]))
        if src.op == 'list' and w is not None:
          for x in src.a:
            cur = mk('ins', cur, x)
          self.write(this, cur)
          return VOID
        el = None
        it, lv = mk('it', ('each', self.uid())), mk('lv', 'each', self.uid())
        if w is not None:
          el = V.index(src, it)
        elif vs[0].op == 'mit' and vs[1].op == 'mend' and vs[0].a[0] is vs[1].a[0]:
          src = self.rd(vs[0].a[0])
          if vs[0].a[1] is mk('key', src, c(0)):
            el = mk('key', src, it)
        if el is not None:
          self.write(this, V.mkfold(size(src), it, lv, {lv: (cur, mk('ins', lv, el))}))
        else:
          self.write(this, mk('call', 'insall', cur, src))
        return VOID
    if m == 'insert' and not ismap and not isset:
      vs = [self.ev(x) for x in live]
      cur = self.rd(this)
      if len(vs) == 3 and is_iter(vs[1]) and is_iter(vs[2]):
        w = self.whole(vs[1], vs[2])
        src = self.rd(w) if w is not None else mk('call', 'slice', self.shown(field(vs[1], 'at')), field(vs[1], 'ix'), field(vs[2], 'ix'))
        if is_iter(vs[0]) and field(vs[0], 'ix') is size(cur):
          self.write(this, extend(cur, src))
        else:
          self.write(this, mk('call', 'insertall', cur, self.shown(vs[0]), src))
        return vs[0]
      self.write(this, mk('call', 'insert', cur, *[field(x, 'ix') if is_iter(x) else self.shown(x) for x in vs]))
      return vs[0]
    if m in ('has_value', 'operator bool') and n == 0:
      v = self.rd(this)
      return t.not_(self.null(v)) if short_ in ('unique_ptr', 'shared_ptr') else has(v) if 'optional' in base else self.truth(v)
    if m == 'reset' and n <= 1:
      self.write(this, self.ev(live[0]) if n else t.NONE)
      return VOID
    if m in ('count', 'contains') and n == 1 and (ismap or isset):
      r = contains(self.rd(this), self.ev(args[0]))
      return r if m == 'contains' else t.ite(r, c(1), c(0))
    if m == 'find' and n == 1 and (ismap or isset):
      return mk('mit', this, self.ev(args[0]))
    if m in ('end', 'cend') and n == 0:
      return mk('mend', this) if ismap or isset else iterv(this, size(self.rd(this)))
    if m in ('begin', 'cbegin') and n == 0:
      return mk('mit', this, mk('key', self.rd(this), c(0))) if ismap or isset else iterv(this, c(0))
    if m == 'rbegin' and n == 0:
      k = t.arith('sub', size(self.rd(this)), c(1))
      return mk('mit', this, mk('key', self.rd(this), k)) if ismap or isset else iterv(this, k, -1)
    if m == 'rend' and n == 0 and not (ismap or isset):
      return iterv(this, c(-1), -1)
    if m in ('value', 'operator*', 'operator->') and n == 0 and ('optional' in base or 'StatusOr' in base):
      return this if m == 'operator->' else L(this)
    if m in ('get', 'operator->', 'release') and n == 0 and short_ in ('unique_ptr', 'shared_ptr', 'reference_wrapper'):
      return self.rd(this)
    if m == 'operator*' and short_ in ('unique_ptr', 'shared_ptr'):
      return deref(self.rd(this))
    if m in ('c_str', 'str', 'operator basic_string_view') and n == 0:
      return self.rd(this)
    if m == 'data' and n == 0:
      return this
    if 'atomic' in base:
      if m in ('load',) or m.startswith('operator ') :
        return self.rd(this)
      if m in ('store', 'operator=') :
        v = self.ev(live[0])
        self.write(this, v)
        return v
      if m in ('fetch_add', 'fetch_sub'):
        old = self.rd(this)
        self.write(this, t.arith('add' if m == 'fetch_add' else 'sub', old, self.ev(live[0])))
        return old
    if m == 'operator bool' or m.startswith('operator ') and n == 0:
      return self.rd(this)
    return None

  def construct(self, ty, live, line):
    if ty in self.prog.records:
      fns = [fn for fn in self.prog.by_name.get('%s::%s' % (ty, ty.split('::')[-1]), []) if len(fn['params']) >= len(live)
             and all(x[3] is not None for x in fn['params'][len(live):])]
      if len(live) == 1 and strip(self.type_of(live[0])) == ty:
        return self.ev(live[0])
      if len(fns) > 1:
        fns = sorted(fns, key=lambda fn: (len(fn['params']), -sum(strip(p[2]) == strip(self.type_of(a)) for p, a in zip(fn['params'], live))))
      if fns and self.inline(fns[0]):
        x = self.tmp(self.zero(ty))
        self.call_fn(fns[0], x, self.bind(fns[0], live), line)
        return self.store.pop(x)
      if not live:
        return self.zero(ty, True)
    return self.e_ctor(['ctor', ty, live, ty, line])

  # ------------------------------------------------------------ summary
  def sinks(self, ret):
    """[(location term, value term)] of everything a caller can see."""
    out = []
    for r, v in self.store.items():
      if r.op in LOCAL or v is r:
        continue
      d = []
      V.diff(r, v, r, d)
      out += [(x, self.snap(a)) for x, a, b in d]
    return out, (self.snap(self.deep(ret)) if ret is not None else None)

  def deep(self, v):
    return v


def scalar(ty, prog):
  if ty.endswith("]"):
    return False
  ty = strip(ty)
  return ty.endswith('*') or ty in INTS or ty in ('float', 'double', 'bool') or ty in prog.enums or ty.endswith(']')


def array(ty):
  return ty.endswith(']')


def below(x, y):
  while x.op in ('f', 'i', 'k'):
    x = x.a[0]
    if x is y:
      return True
  return False


def outparam(ty):
  """May a function write through a parameter of this type?"""
  if not (ty.endswith('*') or ty.endswith('&') and not ty.endswith('&&')):
    return False
  to = ty[:-1].strip()
  return not (to.endswith('const') or to.startswith('const ') and not to.endswith(('*', '&')))


def short(name):
  return name.replace('(anonymous namespace)::', '').replace('waymo::open_dataset::', '')


def split_sig(sig):
  """Parameter types of an exported signature."""
  if not sig:
    return []
  s = sig.rsplit('->', 1)[0]
  out, d, cur = [], 0, ''
  for k, ch in enumerate(s):
    if ch in '<([{':
      d += 1
    elif ch in ')]}' or ch == '>' and s[k - 1:k] != '-':
      d -= 1
    if ch == ',' and d == 0:
      out.append(cur.strip())
      cur = ''
    else:
      cur += ch
  return out
