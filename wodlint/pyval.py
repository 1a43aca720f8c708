"""Value-flow analysis of the repository's Python code: the counterpart of
cxxval.py, over Python syntax trees and with the same values and loops.

Lists, dictionaries and instances live in objects of their own (new), so what
is done through one name is seen through every other; parameters and what is
reached from them are objects too, named by their path.  Arrays and other
library values are terms.
"""
import ast

from wodlint import protos
from wodlint import term as t
from wodlint import vals as V
from wodlint.program import Dead
from wodlint.cxxload import Broken
from wodlint.cxxval import CxxVal, Frame, LOCAL, UNDEF, UNINIT, below, locf
from wodlint.pyload import (ARITH_FN, CMP_FN, Cls, Fn, Module, ND_METHODS, SIG, TERMINATE, dotted_name, own_nodes, unalias)
from wodlint.term import T, mk, c
from wodlint.vals import join, size, split

CONDS = ('lt', 'ilt', 'eq', 'and', 'or', 'not', 'any', 'has', 'contains')
BOXES = ('list', 'dict', 'set', 'array')
EMPTYDICT = mk('zero', 'dict')
EMPTYSET = mk('zero', 'pyset')
_PB = []


def pb_enums():
  if not _PB:
    _PB.append(protos.Schema().python())
  return _PB[0]


def opened(v):
  return v.op == 'call' and v.a[0] in ('open', 'tf.io.gfile.GFile')

QUIET = ('print', 'logging.', 'warnings.', 'absl.logging', 'tf.print', 'gc.')
MUTATORS = ('append', 'extend', 'insert', 'add', 'update', 'sort', 'reverse', 'pop', 'clear', 'remove', 'discard', 'setdefault',
            'CopyFrom', 'MergeFrom', 'ParseFromString', 'fill', 'appendleft', 'popleft')
NPMUT = ('np.add.at', 'np.copyto', 'np.put', 'np.random.shuffle', 'random.shuffle', 'heapq.heappush', 'heapq.heapify', 'np.fill_diagonal',
         'np.put_along_axis', 'np.place', 'np.putmask', 'np.subtract.at', 'np.maximum.at', 'np.minimum.at')
_LOC = {}


def haslocal(x):
  r = _LOC.get(x.n)
  if r is None:
    r = _LOC[x.n] = x.op in LOCAL or x.op == 'was' or any(haslocal(y) for y in t.kids(x))
  return r


def iscond(x):
  if x.op == 'ite':
    return all(iscond(y) or y.op == 'c' and isinstance(y.a[0], bool) for y in x.a[1:])
  return x.op in CONDS or x.op == 'vb' or x.op == 'call' and x.a[0] in ('isinstance', 'np.any', 'np.all', 'callable', 'hasattr', '.any', '.all')


def slicey(ix):
  return ix.op in ('slice', 'list', 'ellipsis', 'lt', 'eq', 'and', 'or', 'not', 'vb') or ix is t.NONE


def box(v):
  return v.op == 'new' and v.a[0] in BOXES


class PyVal(CxxVal):

  def __init__(self, prog, inline=None, max_depth=12, unroll=24):
    self.prog, self.inline, self.max_depth, self.unroll = prog, inline or (lambda fn: True), max_depth, unroll
    self.store, self.pc, self.effects, self.frames, self.loops, self.its = {}, [], [], [], [], []
    self.lams, self.lamenv, self.itn = {}, {}, {}
    self.nid = 0
    self.facts = []
    V.KNOWN[0] = self.same
    V.FIELD0[0] = None
    V.RECS[0] = None
    V.OPTIONAL[0] = frozenset()
    V.UNORDERED[0] = False
    V._FM.clear()
    self.inlined, self.opaque, self.calls_seen = set(), {}, 0
    self.types, self.consts, self.arrays, self.ints, self.expanded = {}, {}, set(), set(), {}
    self.binding_names = {}

  # ------------------------------------------------------------ entry
  def run(self, fn, this=None):
    a = fn.node.args
    pos, kw = [], {}
    if fn.cls is not None and 'staticmethod' not in fn.decos:
      if 'classmethod' in fn.decos:
        pos = [mk('g', fn.cls.qual)]
      else:
        pos = [t.p('self')]
        self.types[pos[0]] = fn.cls
    for x in (a.posonlyargs + a.args)[len(pos):]:
      pos.append(t.p(x.arg))
    for x in a.kwonlyargs:
      kw[x.arg] = t.p(x.arg)
    return self.call_py(fn, pos, kw, star=t.p(a.vararg.arg) if a.vararg else None, dstar=t.p(a.kwarg.arg) if a.kwarg else None)

  def annotate(self, term, ann, mod):
    if ann is not None and term.op in ('p', 'f', 'i', 'k'):
      n = dotted_name(ann)
      if n == 'int':
        self.ints.add(term)
      if n and n.split('.')[-1] in ('ndarray', 'NDArray', 'ArrayLike'):
        self.arrays.add(term)
    cl = self.ann_class(ann, mod)
    if cl is not None and term not in self.types:
      self.types[term] = cl

  def ann_class(self, ann, mod):
    if ann is None:
      return None
    if isinstance(ann, ast.Subscript):
      n = dotted_name(ann.value)
      if n and n.split('.')[-1] == 'Optional':
        return self.ann_class(ann.slice, mod)
      if n and n.split('.')[-1] in ('list', 'List', 'Sequence', 'Iterable', 'tuple', 'Tuple', 'Iterator'):
        x = self.ann_class(ann.slice.elts[0] if isinstance(ann.slice, ast.Tuple) else ann.slice, mod)
        return ('seq', x) if x is not None else None
    if isinstance(ann, ast.BinOp):
      return self.ann_class(ann.left, mod) or self.ann_class(ann.right, mod)
    n = dotted_name(ann)
    if not n:
      return None
    r = self.prog.lookup(mod, n.strip("'\""))
    if r and r[0] == 'cls':
      return r[1]
    if r and r[0] == 'const':
      return self.ann_class(r[2], r[1]) if not isinstance(r[2], ast.Constant) else None
    return None

  def typeof(self, v):
    ty = self.types.get(v)
    if ty is not None:
      return ty
    if v.op == 'new':
      r = self.prog.resolve(v.a[0]) if v.a[0].startswith('waymo_open_dataset') else None
      return r[1] if r and r[0] == 'cls' else None
    if v.op == 'was':
      return self.typeof(v.a[0])
    if v.op == 'rec' and v.a[0].op == 'zero':
      r = self.prog.resolve(v.a[0].a[0]) if v.a[0].a[0].startswith('waymo_open_dataset') else None
      return r[1] if r and r[0] == 'cls' else None
    if v.op == 'f':
      b = self.typeof(v.a[0])
      if isinstance(b, Cls):
        for k in self.prog.mro(b):
          if v.a[1] in k.anns:
            return self.ann_class(k.anns[v.a[1]], k.mod)
    if v.op == 'i':
      b = self.typeof(v.a[0])
      if isinstance(b, tuple) and b[0] == 'seq':
        return b[1]
    if v.op == 'ite':
      return self.typeof(v.a[1]) or self.typeof(v.a[2])
    return None

  # ------------------------------------------------------------ values and places
  def handle(self, v):
    """Does the value denote an object with an identity?"""
    if v.op in ('f', 'i', 'k'):
      r = split(v)[0]
      return r.op in LOCAL or r.op in ('p', 'g')
    if v.op == 'ite':
      return self.handle(v.a[1]) and self.handle(v.a[2])
    return v.op in LOCAL or v.op == 'p'

  def val(self, v, busy=frozenset()):
    """The value as it is now: objects replaced by what they hold."""
    o = v.op
    if o in ('c', 'g', 'enum', 'lam', 'uninit', 'undef', 'void'):
      return v
    if o in LOCAL:
      if v in busy:
        return mk('cycle')
      w = self.store.get(v)
      if w is None or w is UNINIT:
        return mk('local') if w is None else w
      return self.val(w, busy | {v})
    if o == 'p':
      w = self.store.get(v)
      return v if w is None or v in busy else self.val(w, busy | {v})
    if o in ('f', 'i', 'k'):
      r, path = split(v)
      if (r.op in LOCAL or r in self.store) and r not in busy:
        w = self.rd(v)
        if w is not v:
          return self.val(w, busy | {r})
      if not haslocal(v):
        return v
    if o == 'was':
      return self.val(v.a[0]) if v.a[0].op not in ('p', 'f', 'i', 'k') else v.a[0]
    if o == 'ite':
      return join(self.val(v.a[0], busy) if haslocal(v.a[0]) else v.a[0], self.val(v.a[1], busy), self.val(v.a[2], busy))
    if o in ('list', 'append', 'extend', 'seti', 'put', 'del', 'ins', 'rec', 'kw', 'star', 'pyset'):
      a = [self.val(x, busy) if isinstance(x, T) else x for x in v.a]
      return V.rebuild(o, a) if any(x is not y for x, y in zip(a, v.a)) else v
    if haslocal(v):
      hit = {}
      for x in t.walk(v):
        if x.op in LOCAL or x.op == 'was':
          hit[x] = self.val(x, busy)
      return V.subst(v, hit)
    return v

  snap = val

  def close_objects(self, v, st, nid0):
    if not haslocal(v):
      return v
    hit = {}
    saved, self.store = self.store, st
    for x in t.walk(v):
      if x.op in ('new', 'tmp') and x.a[-1] > nid0 and x in st:
        hit[x] = self.closed(x, nid0, ())
    self.store = saved
    return V.subst(v, hit) if hit else v

  def closed(self, x, nid0, busy):
    if x in busy:
      return mk('cycle')
    w = self.store[x]
    hit = {y: self.closed(y, nid0, busy + (x,)) for y in t.walk(w) if y.op in ('new', 'tmp') and y.a[-1] > nid0 and y in self.store}
    return V.subst(w, hit) if hit else w

  def vv(self, e):
    return self.val(self.ev(e))

  def newbox(self, kind, v):
    x = mk('new', kind, self.uid())
    self.store[x] = v
    return x

  def varloc(self, name):
    """The location of a variable (None: not a variable of this function or those around it)."""
    q = self.frames[-1] if self.frames else None
    while q is not None:
      l = q.alias.get(name)
      if l is not None:
        return l
      l = mk('loc', q.uid, name)
      if l in self.store:
        return l
      q = q.alias.get('__closure__')
    return None

  def place(self, e):
    """Where an assignment to e writes."""
    if isinstance(e, ast.Name):
      fr = self.frames[-1]
      for g in own_nodes(fr.fn.node) if not isinstance(fr.fn.node, ast.Lambda) else ():
        if isinstance(g, ast.Nonlocal) and e.id in g.names:
          q = fr.alias.get('__closure__')
          while q is not None:
            loc = mk('loc', q.uid, e.id)
            if loc in self.store:
              return loc
            q = q.alias.get('__closure__')
        if isinstance(g, ast.Global) and e.id in g.names:
          return mk('g', fr.fn.mod.name + '.' + e.id)
      return mk('loc', fr.uid, e.id)
    if isinstance(e, ast.Attribute):
      return locf(self.lv(e.value), e.attr)
    if isinstance(e, ast.Subscript):
      b = self.lv(e.value)
      return self.part(b, self.ixv(e.slice))
    return self.tmp(self.ev(e))

  def lv(self, e):
    """The object e denotes, as a location."""
    if isinstance(e, ast.Name):
      l = self.varloc(e.id)
      if l is None:
        v = self.ev(e)
        return v if self.handle(v) or v.op == 'g' else self.tmp(v)
      v = self.rd(l)
      return v if self.handle(v) else l
    if isinstance(e, ast.Attribute):
      v = self.ev(e)
      if self.handle(v):
        return v
      return locf(self.lv(e.value), e.attr)
    if isinstance(e, ast.Subscript):
      v = self.ev(e)
      if self.handle(v):
        return v
      return self.part(self.lv(e.value), self.ixv(e.slice))
    v = self.ev(e)
    return v if self.handle(v) else self.tmp(v)

  def isdict(self, b):
    if b.op == 'new':
      return b.a[0] == 'dict'
    v = self.rd(b) if b.op in LOCAL or b.op in ('f', 'i', 'k', 'p') else b
    while v.op in ('put', 'del', 'rec'):
      if v.op == 'put':
        return True
      v = v.a[0]
    return v is EMPTYDICT or v.op == 'new' and v.a[0] == 'dict'

  def part(self, b, ix):
    """The location of b[ix]."""
    if b.op == 'ite':
      return t.ite(b.a[0], self.part(b.a[1], ix), self.part(b.a[2], ix))
    if self.isdict(b) or ix.op == 'c' and isinstance(ix.a[0], str) or ix.op == 'enum':
      return mk('k', b, ix)
    return mk('i', b, self.position(self.rd(b), ix))

  def position(self, s, ix):
    """Index ix into the sequence s, counted from the front where that is known."""
    if s.op == 'new':
      s = self.rd(s)
    if ix.op == 'c' and isinstance(ix.a[0], int) and not isinstance(ix.a[0], bool) and ix.a[0] < 0 and V.is_seq(s):
      return t.arith('add', size(s), ix)
    if ix.op == 'off' and ix.a[1] < 0 and ix.a[0].op == 'size' and ix.a[0].a[0] is self.val(s):
      return c(ix.a[1])
    if ix.op == 'slice':
      lo, hi, st = ix.a
      if t.is_c(lo, 0):
        lo = t.NONE
      if t.is_c(st, 1):
        st = t.NONE
      if hi.op == 'size' and hi.a[0] is self.val(s):
        hi = t.NONE
      return mk('slice', lo, hi, st)
    return ix

  def item(self, b, ix):
    """The value of b[ix]."""
    if b.op == 'ite':
      return join(b.a[0], self.item(b.a[1], ix), self.item(b.a[2], ix))
    if b.op == 'was' and b.a[0].op in ('p', 'f', 'i', 'k'):
      return mk('was', self.item(b.a[0], ix))
    s = self.rd(b) if b.op in LOCAL or b.op in ('p', 'f', 'i', 'k') else b
    if b.op in ('i', 'k') and ix.op == 'c':
      d = self.rd(b.a[0]) if b.a[0].op in LOCAL else b.a[0]
      w, ks = d, []
      while w.op == 'put' and w.a[2].op == 'list' and isinstance(ix.a[0], int) and 0 <= ix.a[0] < len(w.a[2].a):
        ks.append(w)
        w = w.a[0]
      if ks and w is EMPTYDICT:      # a part of whichever entry: an entry of the parts
        for x in reversed(ks):
          w = mk('put', w, x.a[1], x.a[2].a[ix.a[0]])
        return mk(b.op, w, b.a[1])
    if self.isdict(b) and ix.op not in ('c', 'enum', 'g', 'list'):
      w = self.rd(s) if s.op == 'new' else s
      m, r = w, UNDEF
      while m.op == 'put' and m.a[1].op in ('c', 'enum', 'g'):
        m = m.a[0]
      if m is EMPTYDICT and w.op == 'put':      # one of a few entries
        ks = []
        while w.op == 'put':
          if w.a[1] not in [k for k, _ in ks]:
            ks.append((w.a[1], w.a[2]))
          w = w.a[0]
        if len(ks) <= 12:
          for k, x in ks:
            r = join(t.compare('==', ix, k), x, r)
          return r
    if b.op == 'f' and b.a[1] == 'shape' and t.is_c(ix, 0):
      return self.length(b.a[0])
    if s.op == 'new' and s is not b:
      return self.item(s, ix)
    ix = self.position(s, ix)
    if ix.op == 'slice' and s.op == 'list' and all(x.op == 'c' and (x.a[0] is None or isinstance(x.a[0], int)) for x in ix.a):
      r = mk('list', *s.a[slice(*[x.a[0] for x in ix.a])])
      return self.newbox('list', r) if b.op == 'new' else r
    if ix.op == 'slice' and all(x is t.NONE for x in ix.a) and (V.is_seq(s) or box(b)):
      return self.newbox('list', self.copied(s))
    if s.op == 'list' and ix.op == 'c' and isinstance(ix.a[0], int) and not -len(s.a) <= ix.a[0] < len(s.a) and any(x.op == 'star' for x in s.a):
      return mk('i', s, ix)
    l = self.part(b, ix)
    return self.rd(l) if b.op in LOCAL or b.op in ('p', 'f', 'i', 'k', 'call') else (V.index if l.op == 'i' else V.lookup)(b, ix)

  def copied(self, v):
    """The content of an object, no longer tied to it."""
    v = self.rd(v) if v.op in LOCAL or v.op in ('p', 'f', 'i', 'k') else v
    if v.op in LOCAL:
      return self.copied(v)
    return mk('was', v) if v.op in ('p', 'f', 'i', 'k') else v

  def assign(self, x, v, line):
    if isinstance(x, (ast.Tuple, ast.List)):
      n = len(x.elts)
      st = [k for k, y in enumerate(x.elts) if isinstance(y, ast.Starred)]
      if not st and v.op in ('call',):
        pass
      for k, y in enumerate(x.elts):
        if isinstance(y, ast.Starred):
          hi = k - n + 1
          self.assign(y.value, self.item(v, mk('slice', c(k), c(hi) if hi else t.NONE, t.NONE)), line)
        else:
          self.assign(y, self.item(v, c(k - n if st and k > st[0] else k)), line)
      return
    if isinstance(x, ast.Starred):
      return self.assign(x.value, v, line)
    if isinstance(x, ast.Name):
      self.frames[-1].alias.pop(x.id, None)
    l = self.place(x)
    if l.op != 'loc':
      self.detach(l)
    self.write(l, v)

  def detach(self, l):
    """Other holders of what l holds keep the old value."""
    if split(l)[0].op not in ('p', 'g'):
      return
    for k, v in list(self.store.items()):
      if k.op in LOCAL:
        w = self.kept(v, l)
        if w is not v:
          self.store[k] = w

  def kept(self, v, l):
    if v is l or v.op in ('f', 'i', 'k') and below(v, l):
      w = self.rd(v)
      return mk('was', v) if w is v else w
    if v.op in ('list', 'append', 'put', 'rec', 'ite'):
      a = [self.kept(x, l) if isinstance(x, T) else x for x in v.a]
      if any(x is not y for x, y in zip(a, v.a)):
        return mk(v.op, *a)
    return v

  # ------------------------------------------------------------ calls
  def call_py(self, fn, pos, kw, star=None, dstar=None, closure=None):
    if len(self.frames) >= self.max_depth or sum(1 for fr in self.frames if fr.fn is fn) >= 2:
      full = [self.arg(x) for x in pos] + [mk('kw', k, self.arg(v)) for k, v in sorted(kw.items())]
      return mk('call', fn.qual, *full)
    node = fn.node
    a = node.args
    fr = Frame()
    fr.fn, fr.uid, fr.alias, fr.exits, fr.this, fr.byref = fn, self.uid(), {'__closure__': closure}, [], None, False
    fr.ruid = fr.uid
    fr.pc0, fr.nf, fr.ne, fr.nl = len(self.pc), len(self.facts), len(self.effects), len(self.its)
    self.inlined.add(fn.qual)
    self.expanded[fn.qual] = fn
    names = [x.arg for x in a.posonlyargs + a.args]
    kw = dict(kw)
    env = {}
    for n, v in zip(names, pos):
      env[n] = v
    extra = pos[len(names):]
    if a.vararg:
      env[a.vararg.arg] = star if star is not None and not extra else mk('list', *extra)
    for n in names + [x.arg for x in a.kwonlyargs]:
      if n in kw:
        env[n] = kw.pop(n)
    self.frames.append(fr)
    saved, self.loops = self.loops, []
    for n, d in list(zip(names[len(names) - len(a.defaults):], a.defaults)) + [
        (x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
      if n not in env:
        env[n] = self.ev(d)
    if a.kwarg:
      v = EMPTYDICT
      for k, x in sorted(kw.items()):
        v = mk('put', v, c(k), x)
      env[a.kwarg.arg] = dstar if dstar is not None else self.newbox('dict', v)
    for x in a.posonlyargs + a.args + a.kwonlyargs:
      if x.arg in env:
        self.annotate(env[x.arg], x.annotation, fn.mod)
      else:
        env[x.arg] = mk('missing', x.arg)
    for n, v in env.items():
      self.store[mk('loc', fr.uid, n)] = v
    gen = None
    try:
      if isinstance(node, ast.Lambda):
        v = self.ev(node.body)
        fr.exits.append((t.and_(*self.pc[fr.pc0:]), dict(self.store), v))
        out = set()
      else:
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own_nodes(node)):
          gen = self.newbox('list', mk('list'))
          self.store[mk('loc', fr.uid, '__gen__')] = gen
        out = self.block(node.body)
    except Dead:
      out = {'dead'}
    if 'fall' in out:
      fr.exits.append((t.and_(*self.pc[fr.pc0:]), dict(self.store), t.NONE))
    self.frames.pop()
    self.loops = saved
    del self.pc[fr.pc0:]
    if len(fr.exits) != 1:
      del self.facts[fr.nf:]
    if not fr.exits:
      raise Dead()
    val = st = None
    for cond, s, v in reversed(fr.exits):
      v = t.NONE if v is None else v
      if st is None:
        v = self.lastcase(fr, cond, v)
      if st is None:
        st, val = s, v
      else:
        st = self.merge(cond, s, st)
        val = join(cond, v, val)
    val = self.told_apart(fr, val)
    keep = any(x[1] is fr for x in self.lams.values())
    flags = (mk('loc', fr.uid, 'ret'), mk('loc', fr.uid, 'val'))
    self.store = {k: v for k, v in st.items() if not (k.op == 'loc' and k.a[0] == fr.uid) or keep and k not in flags}
    if gen is not None:
      return gen
    if val.op == 'loc':
      val = self.rd(val)
    cl = self.ann_class(getattr(node, 'returns', None), fn.mod)
    if cl is not None and val not in self.types and val.op in ('call', 'f', 'i', 'p'):
      self.types[val] = cl
    return val

  def merge(self, cond, a, b):
    out = {}
    for k, va in a.items():
      vb = b.get(k)
      if vb is va:
        out[k] = va
      elif vb is None:
        out[k] = va if k.op in LOCAL else join(cond, va, k)
      elif va is UNINIT or vb is UNINIT:
        out[k] = va if vb is UNINIT else vb
      else:
        out[k] = join(cond, va, vb)
    for k, vb in b.items():
      if k not in a:
        out[k] = vb if k.op in LOCAL else join(cond, k, vb)
    return out

  def arg(self, v):
    """A value handed to code that is not looked into."""
    if v.op == 'kw':
      return mk('kw', v.a[0], self.arg(v.a[1]))
    if v.op == 'star':
      return mk('star', self.arg(v.a[0]))
    if v.op == 'lam' or v.op == 'partial' or v.op == 'bound':
      return self.lamterm(v)
    if v.op == 'g' and v.a[0].startswith('waymo_open_dataset'):
      r = self.prog.resolve(v.a[0])
      if r[0] == 'fn' and self.inline(r[1]):
        return self.lamterm(v)
    v = self.val(v)
    return mk('vb', v) if iscond(v) and v.op != 'vb' else v

  def lamterm(self, f):
    """A function value as a term over its own parameters."""
    if f.op == 'lam':
      ar = len(self.lams[f][0].node.args.args)
    elif f.op == 'g':
      ar = len(self.prog.resolve(f.a[0])[1].node.args.args)
    else:
      ar = 1
    u = self.uid()
    xs = [mk('it', u, k) for k in range(ar)]
    saved = (self.store, list(self.pc), self.frames, self.loops, len(self.effects), list(self.facts))
    self.store, self.pc, self.frames, self.loops = dict(self.store), [], list(self.frames), []
    try:
      body = self.val(self.apply(f, xs, {}, 0))
    except Dead:
      body = mk('void')
    finally:
      self.store, self.pc, self.frames, self.loops = saved[:4]
      self.facts = saved[5]
      del self.effects[saved[4]:]
    h = 1 + V.height(body)
    return mk('lambda', h, ar, V.subst(body, {x: mk('bp', h, k) for k, x in enumerate(xs)}))

  def ext_call(self, name, pos, kw, line):
    name = unalias(name)
    kw = {k: v for k, v in kw.items() if k not in ('name',) and v.op != 'missing'}
    short = name.rsplit('.', 1)[-1]
    star = any(x.op == 'star' for x in pos)
    if name in SIG and not star:
      ps = SIG[name]
      if ps and ps[0] in kw and not pos:
        pos = [kw.pop(ps[0])]
      for k in range(1, len(pos)):
        if k < len(ps):
          kw[ps[k]] = pos[k]
      pos = pos[:1] + pos[len(ps):] if len(pos) > len(ps) else pos[:1]
    n = len(pos)
    if name in ARITH_FN and n == 2 and not kw:
      return t.arith(ARITH_FN[name], self.num(pos[0]), self.num(pos[1]))
    if name in ('np.negative', 'tf.negative') and n == 1:
      return t.neg(self.num(pos[0]))
    if name in ('np.square', 'tf.square') and n == 1:
      x = self.num(pos[0])
      return t.arith('mul', x, x)
    if name == 'pow' and n == 2:
      return self.power(self.num(pos[0]), self.num(pos[1]))
    if name.startswith(('np.', 'tf.', 'operator.')):
      if short in CMP_FN and n == 2:
        return self.compare2(CMP_FN[short], self.val(pos[0]), self.val(pos[1]))
      if short == 'logical_and' and n == 2:
        return t.and_(self.truth(self.val(pos[0])), self.truth(self.val(pos[1])))
      if short == 'logical_or' and n == 2:
        return t.or_(self.truth(self.val(pos[0])), self.truth(self.val(pos[1])))
      if short == 'logical_not' and n == 1:
        return t.not_(self.truth(self.val(pos[0])))
      if short in ('maximum', 'minimum') and n == 2 and not kw:
        return mk('vmax' if short == 'maximum' else 'vmin', *sorted([self.arg(x) for x in pos]))
    if name in ('np.where', 'tf.where') and n == 1 and 'x' in kw and 'y' in kw:
      cnd, x, y = self.truth(self.val(pos[0])), self.arg(kw['x']), self.arg(kw['y'])
      if cnd.op == 'not':
        cnd, x, y = cnd.a[0], y, x
      return mk('call', name, mk('vb', cnd), mk('kw', 'x', x), mk('kw', 'y', y))
    if name == 'tf.identity' and n == 1:
      return pos[0]
    full = [self.arg(x) for x in pos] + [mk('kw', k, self.arg(kw[k])) for k in sorted(kw)]
    self.opaque[name] = self.opaque.get(name, 0) + 1
    return mk('call', name, *full)

  def ixv(self, e):
    """The value of an index expression."""
    if isinstance(e, ast.Tuple):
      return mk('list', *[self.num(x) for x in self.elts(e.elts)])
    return self.num(self.ev(e))

  def num(self, v):
    v = self.val(v)
    return mk('vb', v) if iscond(v) and v.op != 'vb' else v

  def power(self, a, b):
    if t.num(b) and b.a[0] in (2, 3, 4):
      r = a
      for _ in range(int(b.a[0]) - 1):
        r = t.arith('mul', r, a)
      return r
    if t.num(b) and t.num(a):
      try:
        return c(a.a[0] ** b.a[0])
      except Exception:
        pass
    if t.num(b) and b.a[0] == 0.5:
      return mk('call', 'np.sqrt', a)
    return mk('call', 'pow', a, b)

  def truth(self, v, e=None):
    if v.op == 'c':
      return c(bool(v.a[0]))
    if v.op == 'vb':
      return v.a[0]
    if iscond(v):
      if v.op == 'ite':
        return t.ite(v.a[0], self.truth(v.a[1]), self.truth(v.a[2]))
      return v
    if box(v):
      return t.not_(t.compare('==', self.length(v), c(0)))
    if v.op == 'new' or v.op in ('lam', 'g', 'bound'):
      return t.TRUE
    if v.op == 'ite':
      return t.ite(v.a[0], self.truth(v.a[1]), self.truth(v.a[2]))
    if V.is_seq(v) or v.op == 'put' or v.op == 'zero' or self.isset(v):
      return t.not_(t.compare('==', size(v), c(0)))
    if v.op == 'size':
      return t.not_(t.compare('==', v, c(0)))
    if v.op == 'f' and v.a[1] in pb_enums()[2] and not isinstance(self.typeof(v.a[0]), Cls):
      return t.not_(t.compare('==', self.length(v), c(0)))
    return self.val(v)

  def cond(self, e):
    return self.truth(self.ev(e))

  # ------------------------------------------------------------ statements
  def block(self, stmts):
    out = {'fall'}
    for x in stmts:
      out.discard('fall')
      try:
        r = self.ex(x)
      except Dead:
        r = {'dead'}
      out |= r
      if 'fall' not in r:
        return out - {'fall'} or {'dead'}
    return out

  def ex(self, s):
    if callable(s):
      return s()
    if isinstance(s, list):
      return self.block(s)
    m = getattr(self, 'x_' + type(s).__name__, None)
    if m is None:
      raise Broken('unsupported statement %s' % type(s).__name__)
    return m(s)

  def x_Pass(self, s):
    return {'fall'}

  x_Global = x_Nonlocal = x_ClassDef = x_Pass

  def x_ImportFrom(self, s):
    fr = self.frames[-1]
    tmp = object.__new__(Module)
    tmp.name, tmp.file = fr.fn.mod.name, fr.fn.mod.file
    tmp.imports, tmp.funcs, tmp.classes, tmp.consts = {}, {}, {}, {}
    tmp.body([s])
    for k, d in tmp.imports.items():
      self.store[mk('loc', fr.uid, k)] = self.resolved(self.prog.resolve(d), d)
    return {'fall'}

  x_Import = x_ImportFrom

  def x_Expr(self, s):
    e = s.value
    if isinstance(e, ast.Call):
      self.calls_seen += 1
      self.call(e, True)
    else:
      self.ev(e)
    return {'fall'}

  def x_Return(self, s):
    v = self.ev(s.value) if s.value is not None else t.NONE
    fr = self.frames[-1]
    if any(lp.generic for lp in self.loops):
      self.store[mk('loc', fr.ruid, 'ret')] = t.TRUE
      self.store[mk('loc', fr.ruid, 'val')] = v
      lp = self.loops[-1]
      lp.ret = True
      lp.breaks.append((t.and_(*self.pc[lp.pc0:]), dict(self.store)))
      return {'brk'}
    fr.exits.append((t.and_(*self.pc[fr.pc0:]), dict(self.store), v))
    return {'ret'}

  def x_Raise(self, s):
    n = 'reraise'
    if s.exc is not None:
      e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
      n = dotted_name(e) or '?'
    self.eff('raise', c(n.split('.')[-1]), None, s.lineno)
    return {'dead'}

  def x_Assert(self, s):
    v = self.cond(s.test)
    self.eff('check', v, None, s.lineno)
    self.facts += [e for e in map(self.equal, self.lits(v)) if e]
    return {'fall'}

  def x_If(self, s):
    cnd = self.cond(s.test)
    if cnd.op == 'c':
      return self.block(s.body if cnd.a[0] else s.orelse)
    return self.branch(cnd, lambda: self.block(s.body), lambda: self.block(s.orelse))

  def x_With(self, s):
    for it in s.items:
      v = self.ev(it.context_expr)
      if it.optional_vars is not None:
        self.assign(it.optional_vars, v if opened(v) else mk('call', 'enter', self.arg(v)), s.lineno)
    return self.block(s.body)

  def x_Try(self, s):
    s0 = dict(self.store)
    n = len(self.pc)
    try:
      r = self.block(s.body)
    except Dead:
      r = {'dead'}
    if 'fall' in r and s.orelse:
      r = (r - {'fall'}) | self.block(s.orelse)
    st = self.store if 'fall' in r else None
    pc1 = self.pc[n:]
    del self.pc[n:]
    out = set(r)
    for h in s.handlers:
      self.store = dict(s0)
      nm = dotted_name(h.type) if h.type is not None and not isinstance(h.type, ast.Tuple) else 'exc'
      exc = mk('caught', nm or 'exc')
      self.pc.append(exc)
      if h.name:
        self.store[mk('loc', self.frames[-1].uid, h.name)] = exc
      try:
        rh = self.block(h.body)
      except Dead:
        rh = {'dead'}
      del self.pc[n:]
      if 'fall' in rh:
        st = self.store if st is None else self.merge(exc, self.store, st)
      out |= rh
    if st is not None:
      self.store = st
      out.add('fall')
      if not s.handlers:
        self.pc += pc1
    else:
      out.discard('fall')
    if s.finalbody:
      rf = self.block(s.finalbody)
      if 'fall' not in rf:
        return rf
    if len(out) > 1:
      out.discard('dead')
    return out

  def x_FunctionDef(self, s):
    fr = self.frames[-1]
    l = mk('lam', self.uid())
    self.lams[l] = (Fn(fr.fn.mod, s), fr)
    self.store[mk('loc', fr.uid, s.name)] = l
    return {'fall'}

  def x_Delete(self, s):
    for x in s.targets:
      if isinstance(x, ast.Subscript):
        l = self.lv(x.value)
        self.write(l, mk('del', self.rd(l), self.vv(x.slice)))
    return {'fall'}

  def x_Break(self, s):
    if self.brkflags and self.brkflags[-1][0] == len(self.loops) and self.brkflags[-1][2] is self.frames[-1]:
      self.store[self.brkflags[-1][1]] = t.TRUE
    return self.s_break(s)

  brkflags = ()

  def x_Continue(self, s):
    return self.s_continue(s)

  def x_Assign(self, s):
    v = self.ev(s.value)
    v = self.shared(s.value, v, s.targets)
    for x in s.targets:
      self.assign(x, v, s.lineno)
    return {'fall'}

  def x_AnnAssign(self, s):
    if s.value is not None:
      v = self.shared(s.value, self.ev(s.value), [s.target])
      self.annotate(v, s.annotation, self.frames[-1].fn.mod)
      self.assign(s.target, v, s.lineno)
    return {'fall'}

  def shared(self, e, v, targets):
    """A library value that gets a second name and is then changed in place becomes an object."""
    if not isinstance(e, (ast.Name, ast.Attribute)) and len(targets) == 1:
      return v
    if v.op not in ('call', 'seti', 'ite', 'add', 'mul', 'sub', 'div', 'lv', 'fold') or iscond(v) or self.handle(v):
      return v
    names = [x.id for x in targets if isinstance(x, ast.Name)] + ([e.id] if isinstance(e, ast.Name) else [])
    if not any(self.changed_in_place(n) for n in names):
      return v
    b = self.newbox('array', v)
    if isinstance(e, (ast.Name, ast.Attribute)):
      l = self.varloc(e.id) if isinstance(e, ast.Name) else self.place(e)
      if l is not None:
        self.write(l, b)
    return b

  def changed_in_place(self, name, node=None):
    node = node or self.frames[-1].fn.node
    for x in ast.walk(node):
      if isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, (ast.Store, ast.Del)) and base_name(x) == name:
        return True
      if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == name:
        return True
      if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS + ('add',) and base_name(x.func) == name:
        return True
    return False

  def x_AugAssign(self, s):
    tg = s.target
    if isinstance(tg, ast.Name):
      old = self.ev(tg)
      new = self.ev(s.value)
      if box(old) and old.a[0] == 'list' and isinstance(s.op, ast.Add):
        self.store[old] = V.extend(self.rd(old), self.seq(new))
        return {'fall'}
      v = self.binop(s.op, old, new, s.lineno)
      if box(old) and old.a[0] == 'array' or old in self.arrays:
        self.write(old, v)
      else:
        self.assign(tg, v, s.lineno)
      return {'fall'}
    l = self.place(tg)
    old = self.rd(l)
    new = self.ev(s.value)
    if box(old) and old.a[0] == 'list' and isinstance(s.op, ast.Add):
      self.store[old] = V.extend(self.rd(old), self.seq(new))
      return {'fall'}
    v = self.binop(s.op, old, new, s.lineno)
    self.detach(l)
    self.write(l, v)
    return {'fall'}

  # ------------------------------------------------------------ loops
  def iteration(self, v):
    """The rounds of iterating over v: a list of values, or (how many, value of round number it)."""
    if v.op == 'was':
      v = v.a[0]
    if box(v):
      w = self.rd(v)
      if v.a[0] == 'dict' or self.isdict(v):
        return self.keys(v, w)
      if w.op == 'list' and not any(x.op == 'star' for x in w.a):
        return list(w.a)
      if w.op in ('call', 'key') and w.op == 'call' and w.a[0] in ('range',):
        return self.iteration(w)
      return size(w), lambda it: self.rd(mk('i', v, it))
    if v.op == 'list' and not any(x.op == 'star' for x in v.a):
      return list(v.a)
    if v.op == 'pyset':
      return list(v.a)
    if v.op == 'ins':
      xs, y = [], v
      while y.op == 'ins':
        xs.append(y.a[1])
        y = y.a[0]
      if y is EMPTYSET:
        return xs[::-1]
    if v.op == 'c' and isinstance(v.a[0], str):
      return [c(ch) for ch in v.a[0]]
    if v.op in ('put', 'zero'):
      return self.keys(v, v)
    if v.op == 'call' and v.a[0] == 'range':
      a = v.a[1:]
      lo, hi, st = (c(0), a[0], None) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else None)
      if st is not None and t.is_c(st, 1):
        st = None
      if st is None and t.num(lo) and t.num(hi) and 0 <= hi.a[0] - lo.a[0] <= self.unroll:
        return [c(k) for k in range(lo.a[0], hi.a[0])]
      if st is not None and all(t.num(x) for x in a):
        r = range(*[x.a[0] for x in a])
        if len(r) <= self.unroll:
          return [c(k) for k in r]
      if st is not None:
        if t.is_c(st, -1):
          return t.arith('sub', lo, hi), lambda it: t.arith('sub', lo, it)
        return mk('size', v), lambda it: t.arith('add', lo, t.arith('mul', st, it))
      return t.arith('sub', hi, lo), lambda it: t.arith('add', lo, it)
    if v.op == 'call' and v.a[0] == 'enumerate':
      inner = self.iteration(v.a[1])
      k0 = v.a[2] if len(v.a) > 2 else c(0)
      if k0.op == 'kw':
        k0 = k0.a[1]
      if isinstance(inner, list):
        return [mk('list', t.arith('add', k0, c(k)), x) for k, x in enumerate(inner)]
      n, el = inner
      return n, lambda it: mk('list', t.arith('add', k0, it), el(it))
    if v.op == 'call' and v.a[0] == 'zip':
      ins = [self.iteration(x) for x in v.a[1:] if x.op != 'kw']
      if ins and all(isinstance(x, list) for x in ins):
        return [mk('list', *xs) for xs in zip(*ins)]
      if any(isinstance(x, list) for x in ins):
        n = min(len(x) for x in ins if isinstance(x, list))
        if n <= self.unroll:
          return [mk('list', *[(x[k] if isinstance(x, list) else x[1](c(k))) for x in ins]) for k in range(n)]
      n, _ = [x for x in ins if not isinstance(x, list)][0]
      return n, lambda it: mk('list', *[x[1](it) if not isinstance(x, list) else mk('i', mk('list', *x), it) for x in ins])
    if v.op == 'call' and v.a[0] == 'reversed' and len(v.a) == 2:
      inner = self.iteration(v.a[1])
      if isinstance(inner, list):
        return inner[::-1]
      n, el = inner
      return n, lambda it: el(t.arith('sub', t.arith('sub', n, c(1)), it))
    if v.op == 'call' and v.a[0] in ('.items', '.keys', '.values') and len(v.a) == 2:
      d = v.a[1]
      pick = {'.items': lambda k: mk('list', k, self.item(d, k)), '.keys': lambda k: k, '.values': lambda k: self.item(d, k)}[v.a[0]]
      ks = self.iteration(d)
      if isinstance(ks, list):
        return [pick(k) for k in ks]
      n, el = ks
      return n, lambda it: pick(el(it))
    if v.op == 'ite' and False:
      return None
    return self.length(v), lambda it: self.item(v, it)

  def keys(self, d, v):
    ks = []
    while v.op == 'put':
      if v.a[1].op not in ('c', 'enum', 'g', 'list'):
        return size(self.rd(d) if d.op == 'new' else d), lambda it: mk('key', self.val(d), it)
      if v.a[1] not in ks:
        ks.append(v.a[1])
      v = v.a[0]
    if v is EMPTYDICT or v is EMPTYSET:
      return ks[::-1]
    if v.op == 'list':
      return list(v.a)
    return self.length(d), lambda it: mk('key', self.val(d), it)

  def isset(self, v):
    """Is this the value of a set?"""
    while v.op in ('ins', 'ite') or v.op == 'fold' and len(v.a) == 4:
      v = v.a[0] if v.op == 'ins' else v.a[1] if v.op == 'ite' else v.a[2]
    if v.op in ('sub', 'bitand', 'bitor') and len(v.a) == 2:
      return self.isset(v.a[0])
    if v.op == 'bin' and v.a[0] == 'BitXor':
      return self.isset(v.a[1])
    return v is EMPTYSET or v.op == 'pyset' or v.op == 'call' and v.a[0] in ('set', 'union')

  def length(self, x):
    if x.op == 'ite':
      return V.each(x, self.length)
    if x.op == 'call' and x.a[0] in ('range', 'zip', 'enumerate', 'reversed', '.items', '.keys', '.values'):
      it = self.iteration(x)
      return c(len(it)) if isinstance(it, list) else it[0]
    x = self.val(x)
    if x.op == 'list' and any(y.op == 'star' for y in x.a):
      return mk('size', x)
    if x.op == 'put' or x is EMPTYDICT:
      ks = self.keys(x, x)
      return c(len(ks)) if isinstance(ks, list) else mk('size', x)
    return size(x)

  def seq(self, v):
    """The elements of an iterable, as a sequence value."""
    if v.op == 'was':
      return v
    if box(v) and v.a[0] == 'list':
      return self.copied(v)
    if v.op == 'list' or V.is_seq(v):
      return v
    if v.op == 'call' and v.a[0] in ('range', 'zip', 'enumerate', 'reversed', '.items', '.keys', '.values') or box(v) and v.a[0] != 'array':
      it = self.iteration(v)
      if isinstance(it, list):
        return mk('list', *it)
      n, el = it
      u = self.uid()
      k, lv = mk('it', u), mk('lv', u, self.uid())
      return V.mkfold(n, k, lv, {lv: (mk('list'), V.append(lv, self.val(el(k))))})
    if v.op in ('p', 'f', 'i', 'k'):
      return self.copied(v)
    if v.op == 'call' and v.a[0] in ('sort',):
      return v
    return mk('call', 'list', self.arg(v)) if v.op in ('c', 'put', 'zero', 'pyset') else v

  def x_For(self, s):
    v = self.ev(s.iter)
    return self.foreach(v, s.target, lambda: self.block(s.body), s, s.orelse)

  def foreach(self, v, target, body, node, orelse=None):
    if v.op == 'ite' and not orelse:
      la, lb = self.iteration(v.a[1]), self.iteration(v.a[2])
      if isinstance(la, list) or isinstance(lb, list):
        return self.branch(v.a[0], lambda: self.foreach(v.a[1], target, body, node), lambda: self.foreach(v.a[2], target, body, node))
    w = self.rd(v) if box(v) and v.a[0] != 'dict' and not self.isdict(v) else v
    if w.op == 'fold' and len(w.a) == 4 and w.a[2].op == 'list' and w.a[2].a and not orelse and (
        not any(isinstance(x, (ast.Break, ast.Return)) for x in ast.walk(node))):
      # a few elements and then the rest
      r = self.foreach(w.a[2], target, body, node)
      if 'fall' not in r:
        return r
      return r | self.foreach(V.rebind('fold', [w.a[0], w.a[1], mk('list'), w.a[3]]), target, body, node)
    if w.op == 'append' and not orelse and not any(isinstance(x, (ast.Break, ast.Return)) for x in ast.walk(node)):
      # some elements and then one more
      line = getattr(node, 'lineno', 0)
      r = self.foreach(w.a[0], target, body, node)
      if 'fall' not in r:
        return r
      return (r - {'fall'}) | self.unrolled([w.a[1]], lambda x: self.assign(target, x, line), body)
    self.undefined(node)
    it = self.iteration(v)
    fr = self.frames[-1]
    line = getattr(node, 'lineno', 0)
    if isinstance(it, list) and len(it) <= 64:
      flag = self.flagged(orelse)
      r = self.unrolled(it, lambda x: self.assign(target, x, line), body)
      return self.otherwise(flag, r, orelse)
    if isinstance(it, list):
      lst = mk('list', *it)
      it = c(len(it)), lambda i: mk('i', lst, i)
    n, el = it
    aliased = isinstance(target, ast.Name) and v.op in ('new', 'p', 'f', 'i', 'k') and not self.isdict(v) and self.changed_in_place(target.id, node)

    def setup(i):
      x = el(i)
      if aliased and not self.handle(x):
        fr.alias[target.id] = mk('i', v, i)
      else:
        self.assign(target, x, line)
    flag = self.flagged(orelse)
    r = self.loop(body, n=n, setup=setup)
    return self.otherwise(flag, r, orelse)

  def flagged(self, orelse):
    if not orelse:
      return None
    l = mk('loc', self.frames[-1].uid, '__brk%d' % self.uid())
    self.store[l] = t.FALSE
    self.brkflags = tuple(self.brkflags) + ((len(self.loops) + 1, l, self.frames[-1]),)
    return l

  def otherwise(self, flag, r, orelse):
    if flag is None:
      return r
    self.brkflags = self.brkflags[:-1]
    if 'fall' not in r:
      return r
    left = self.store.pop(flag, t.FALSE)
    if left.op == 'c':
      return r if left.a[0] else (r - {'fall'}) | self.block(orelse)
    return (r - {'fall'}) | self.branch(t.not_(left), lambda: self.block(orelse), lambda: {'fall'})

  def undefined(self, node):
    """Names first assigned inside a loop and read elsewhere exist before it, without a value."""
    if not isinstance(node, (ast.For, ast.While)):
      return
    fr = self.frames[-1]
    inside = {id(x) for x in ast.walk(node)}
    set_, read = set(), set()
    for x in ast.walk(node):
      if isinstance(x, ast.Name):
        if isinstance(x.ctx, ast.Store):
          set_.add(x.id)
    for x in ast.walk(fr.fn.node):
      if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and id(x) not in inside:
        read.add(x.id)
    for x in ast.walk(node):
      if isinstance(x, (ast.If, ast.Try)) and id(x) in inside:
        for y in ast.walk(x):
          if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
            read.add(y.id)
    for n in sorted(set_ & read):
      self.store.setdefault(mk('loc', fr.uid, n), UNINIT)

  def x_While(self, s):
    self.undefined(s)
    flag = self.flagged(s.orelse)
    r = self.loop(lambda: self.block(s.body), cond=s.test)
    return self.otherwise(flag, r, s.orelse)

  def loop(self, body, cond=None, inc=None, n=None, setup=None, post=False):
    neff, npc = len(self.effects), len(self.pc)
    depth = len(self.its)
    if n is not None and n.op == 'size':
      n = self.same(n)
    r = CxxVal.loop(self, body, cond, inc, n, setup, post)
    # an error some round raises: is there such a round?
    for e in self.effects[neff:]:
      if e.kind == 'raise' and len(e.loops) > depth:
        n_, it = e.loops[-1].a
        g = t.and_(*e.guards[npc:])
        h, (b,) = V.close(n_, it, [], [g])
        e.guards = tuple(e.guards[:npc]) + (V.rebind('any', [n_, h, b]) if b.op != 'c' else V.any_(n_, h, b),)
        e.loops = e.loops[:-1]
    return r

  # ------------------------------------------------------------ expressions
  def ev(self, e, stmt=False):
    m = getattr(self, 'v_' + type(e).__name__, None)
    if m is None:
      raise Broken('unsupported expression %s' % type(e).__name__)
    return m(e)

  def v_Constant(self, e):
    if e.value is Ellipsis:
      return mk('ellipsis')
    return c(e.value) if not isinstance(e.value, bytes) else c(repr(e.value))

  def v_Name(self, e):
    l = self.varloc(e.id)
    if l is not None:
      return self.rd(l)
    mod = self.frames[-1].fn.mod
    l = mk('g', mod.name + '.' + e.id)
    if l in self.store:
      return self.store[l]
    r = self.prog.lookup(mod, e.id)
    if r is not None:
      return self.resolved(r, mod.name + '.' + e.id)
    return mk('g', e.id)

  def resolved(self, r, dotted):
    k = r[0]
    if k in ('fn', 'cls'):
      return mk('g', r[1].qual)
    if k in ('mod', 'ext'):
      return self.extname(r[1])
    if k == 'const':
      return self.const(r[1], r[2], r[3])
    if k == 'clsattr':
      return self.class_attr(r[1], r[2])
    return mk('g', dotted)

  def extname(self, n):
    if n in ('np.newaxis', 'tf.newaxis'):
      return t.NONE
    if n in ('np.pi', 'math.pi'):
      return c(3.141592653589793)
    if n in ('np.inf', 'math.inf'):
      return c(float('inf'))
    if '_pb2.' in n:
      v = pb_enums()[0].get(n)
      if v is not None:
        return c(v)
    return mk('g', n)

  def const(self, mod, expr, name):
    key = mod.name + '.' + name
    v = self.consts.get(key)
    if v is None:
      self.consts[key] = mk('g', key)   # recursion guard
      v = self.in_module(mod, expr, key)
      self.consts[key] = v
    return v

  def in_module(self, mod, expr, key):
    fr = Frame()
    fr.fn = Fn(mod, ast.parse('lambda: 0').body[0].value)
    fr.uid, fr.alias, fr.exits, fr.this, fr.byref = self.uid(), {}, [], None, False
    fr.ruid, fr.pc0, fr.nf, fr.ne, fr.nl = fr.uid, 0, 0, 0, 0
    self.frames.append(fr)
    saved = self.pc, self.its, self.loops, self.store, self.facts
    self.pc, self.its, self.loops, self.store, self.facts = [], [], [], {}, []
    n = len(self.effects)
    try:
      v = self.val(self.ev(expr))
    except Dead:
      v = mk('g', key)
    finally:
      self.frames.pop()
      del self.effects[n:]
      self.pc, self.its, self.loops, self.store, self.facts = saved
    if v.op == 'call' and v.a[0] in ('NewType', 'typing.TypeVar', 'TypeVar', 'typing.NewType', 'logging.getLogger'):
      return mk('g', key)
    return v

  def class_attr(self, cl, name):
    if self.prog.is_enum(cl):
      m = self.prog.method(cl, name)
      if m is not None and name not in cl.attrs:
        return mk('clsfn', cl.qual, name)
      if name in cl.attrs:
        v = self.in_module(cl.mod, cl.attrs[name], cl.qual + '.' + name)
        return mk('enum', cl.qual + '.' + name, v.a[0] if v.op == 'c' and isinstance(v.a[0], int) else name)
      return mk('g', cl.qual + '.' + name)
    m = self.prog.method(cl, name)
    if m is not None:
      return mk('clsfn', cl.qual, name)
    for k in self.prog.mro(cl):
      if name in k.attrs:
        return self.in_module(k.mod, k.attrs[name], k.qual + '.' + name)
    return mk('g', cl.qual + '.' + name)

  def v_Attribute(self, e):
    return self.attr(self.ev(e.value), e.attr)

  def attr(self, b, name):
    if b.op == 'ite':
      return join(b.a[0], self.attr(b.a[1], name), self.attr(b.a[2], name))
    if b.op == 'enum':
      if name == 'name':
        return c(b.a[0].rsplit('.', 1)[-1])
      if name == 'value' and isinstance(b.a[1], int):
        return c(b.a[1])
      return mk('f', b, name)
    if b.op == 'was' and b.a[0].op in ('p', 'f', 'i', 'k'):
      return mk('was', mk('f', b.a[0], name))
    if b.op == 'g':
      dn = b.a[0]
      if dn.startswith('waymo_open_dataset'):
        r = self.prog.resolve(dn + '.' + name)
        if r[0] != 'ext' or '_pb2' in r[1] or not r[1].startswith('waymo_open_dataset'):
          return self.resolved(r, dn + '.' + name)
        if name in ('value', 'name'):
          return mk('f', b, name)
        return mk('g', dn + '.' + name)
      return self.extname(dn + '.' + name)
    if b.op == 'super':
      return mk('bound', b, name)
    ty = self.typeof(b)
    l = locf(b, name)
    if isinstance(ty, Cls):
      got = self.rd(l)
      if got is not l and got.op != 'f':
        return got
      m = self.prog.method(ty, name)
      if m is not None:
        if 'property' in m.decos or 'cached_property' in m.decos:
          if self.inline(m):
            return self.call_py(m, [b], {})
          return mk('f', self.val(b), name)
        return mk('bound', b, name)
      if not any(name in k.anns for k in self.prog.mro(ty)):
        for k in self.prog.mro(ty):
          if name in k.attrs:
            return self.class_attr(ty, name)
    elif name in pb_enums()[3] and l.op == 'f':
      r = split(l)[0]
      if r.op == 'new' and r.a[0].startswith('pb:'):
        return l      # a part of a message is an object of its own
    return self.rd(l)

  def v_Subscript(self, e):
    b = self.ev(e.value)
    ix = self.ixv(e.slice)
    if b.op == 'g' and (b.a[0].startswith(('typing', 'Optional')) or b.a[0] in ('list', 'dict', 'tuple')):
      return b
    return self.item(b, self.num(ix))

  def v_Slice(self, e):
    return mk('slice', *[self.vv(x) if x is not None else t.NONE for x in (e.lower, e.upper, e.step)])

  def v_Tuple(self, e):
    return mk('list', *self.elts(e.elts))

  def elts(self, es):
    out = []
    for x in es:
      if isinstance(x, ast.Starred):
        v = self.ev(x.value)
        s = self.iteration(v) if v.op == 'call' else self.rd(v) if v.op == 'new' else v
        if isinstance(s, list):
          out += s
        elif isinstance(s, T) and s.op == 'list':
          out += s.a
        else:
          out.append(mk('star', v))
      else:
        out.append(self.ev(x))
    return out

  def v_List(self, e):
    return self.newbox('list', mk('list', *self.elts(e.elts)))

  def v_Set(self, e):
    return self.b_set([mk('list', *[self.val(x) for x in self.elts(e.elts)])], {}, e.lineno)

  def v_Dict(self, e):
    n = self.newbox('dict', EMPTYDICT)
    for k, v in zip(e.keys, e.values):
      if k is None:
        self.dict_update(n, self.ev(v))
      else:
        kk = self.vv(k)
        self.write(mk('k', n, kk), self.ev(v))
    return n

  def dict_update(self, n, x):
    if x.op == 'new':
      x = self.rd(x)
    puts = []
    y = x
    while y.op == 'put':
      puts.append((y.a[1], y.a[2]))
      y = y.a[0]
    if y is EMPTYDICT:
      for k, v in puts[::-1]:
        self.write(mk('k', n, k), v)
    else:
      self.write(n, mk('call', 'updated', self.rd(n), self.val(x)))

  def comp(self, e, add):
    """Comprehension: the same value as the loop that appends."""
    fr = self.frames[-1]
    saved = {}
    for g in e.generators:
      for x in ast.walk(g.target):
        if isinstance(x, ast.Name):
          l = mk('loc', fr.uid, x.id)
          saved.setdefault(l, self.store.get(l))

    def level(k):
      if k == len(e.generators):
        add()
        return {'fall'}
      g = e.generators[k]
      v = self.ev(g.iter)

      def body():
        def rest(j):
          if j == len(g.ifs):
            return level(k + 1)
          cnd = self.cond(g.ifs[j])
          if cnd.op == 'c':
            return rest(j + 1) if cnd.a[0] else {'fall'}
          return self.branch(cnd, lambda: rest(j + 1), lambda: {'fall'})
        return rest(0)
      return self.foreach(v, g.target, body, e)
    al = dict(fr.alias)
    level(0)
    fr.alias = al
    for l, v in saved.items():
      if v is None:
        self.store.pop(l, None)
      else:
        self.store[l] = v

  def v_ListComp(self, e):
    acc = self.newbox('list', mk('list'))

    def add():
      self.store[acc] = V.append(self.rd(acc), self.ev(e.elt))
    self.comp(e, add)
    return acc

  v_GeneratorExp = v_ListComp

  def v_SetComp(self, e):
    return self.b_set([self.v_ListComp(e)], {}, e.lineno)

  def v_DictComp(self, e):
    n = self.newbox('dict', EMPTYDICT)

    def add():
      k = self.vv(e.key)
      self.write(mk('k', n, k), self.ev(e.value))
    self.comp(e, add)
    return n

  def either(self, cnd, fa, fb):
    """The value of fa() when cnd, else of fb(), with what they do."""
    if cnd.op == 'c':
      return fa() if cnd.a[0] else fb()
    out = [None, None]

    def arm(k, f):
      out[k] = f()
      return {'fall'}
    r = self.branch(cnd, lambda: arm(0, fa), lambda: arm(1, fb))
    if 'fall' not in r:
      raise Dead()
    if out[0] is None or out[1] is None:
      return out[0] if out[1] is None else out[1]
    return join(cnd, out[0], out[1])

  def v_IfExp(self, e):
    return self.either(self.cond(e.test), lambda: self.ev(e.body), lambda: self.ev(e.orelse))

  def v_BoolOp(self, e):
    isand = isinstance(e.op, ast.And)

    def go(k):
      v = self.ev(e.values[k])
      if k == len(e.values) - 1:
        return v
      tv = self.truth(v)
      if isand:
        return self.either(tv, lambda: go(k + 1), lambda: t.FALSE if iscond(v) else v)
      return self.either(tv, lambda: t.TRUE if iscond(v) else v, lambda: go(k + 1))
    r = go(0)
    return self.flat(r)

  def flat(self, r):
    """ite over truth values as a connective."""
    if r.op == 'ite':
      a, b = self.flat(r.a[1]), self.flat(r.a[2])
      if t.is_c(b, False) and iscond(a):
        return t.and_(r.a[0], a)
      if t.is_c(a, True) and iscond(b):
        return t.or_(r.a[0], b)
      if t.is_c(a, False) and iscond(b):
        return t.and_(t.not_(r.a[0]), b)
      if t.is_c(b, True) and iscond(a):
        return t.or_(t.not_(r.a[0]), a)
    return r

  def v_UnaryOp(self, e):
    v = self.ev(e.operand)
    if isinstance(e.op, ast.Not):
      return t.not_(self.truth(v))
    v = self.val(v)
    if isinstance(e.op, ast.USub):
      return t.neg(self.num(v))
    if isinstance(e.op, ast.UAdd):
      return v
    if iscond(v):
      return t.not_(self.truth(v))
    return mk('bitnot', v)

  def v_BinOp(self, e):
    a = self.ev(e.left)
    return self.binop(e.op, a, self.ev(e.right), e.lineno)

  def binop(self, op, a, b, line):
    o = type(op).__name__
    lists = any(box(x) and x.a[0] == 'list' or V.is_seq(x) for x in (a, b))
    if lists and o == 'Add':
      r = V.extend(self.seq(a), self.seq(b))
      return self.newbox('list', r) if box(a) or box(b) else r
    a, b = self.val(a), self.val(b)
    if o in ('BitAnd', 'BitOr') and (iscond(a) or iscond(b)):
      return (t.and_ if o == 'BitAnd' else t.or_)(self.truth(a), self.truth(b))
    a, b = self.num(a), self.num(b)
    if o == 'Add':
      if (a.op == 'c' and isinstance(a.a[0], str)) or (b.op == 'c' and isinstance(b.a[0], str)) or 'cat' in (a.op, b.op):
        return self.strcat([a, b])
      return t.arith('add', a, b)
    if o == 'Sub':
      return t.arith('sub', a, b)
    if o == 'Mult':
      if a.op == 'list' or b.op == 'list':
        if b.op == 'list':
          a, b = b, a
        if b.op == 'c' and isinstance(b.a[0], int) and len(a.a) * b.a[0] <= 64:
          return self.newbox('list', mk('list', *(a.a * b.a[0])))
        if len(a.a) == 1:
          return self.newbox('list', mk('rep', b, a.a[0]))
        return self.newbox('list', mk('call', 'repeat', a, b))
      return t.arith('mul', a, b)
    if o == 'Div':
      if t.num(a) and t.num(b) and b.a[0]:
        return c(a.a[0] / b.a[0])
      return t.arith('div', a, b)
    if o == 'FloorDiv':
      if t.num(a) and t.num(b) and b.a[0]:
        return c(a.a[0] // b.a[0])
      return mk('idiv', a, b)
    if o == 'Mod':
      if a.op == 'c' and isinstance(a.a[0], str):
        s = a.a[0].replace('%%', '')
        if s.count('%') == s.count('%s') == a.a[0].count('%') and '{' not in s:
          xs = list(b.a) if b.op == 'list' else [b]
          if len(xs) == s.count('%') and not any(x.op == 'star' for x in xs):
            out, parts = [], a.a[0].split('%s')
            for k, x in enumerate(xs):
              out += [c(parts[k]), self.strof(x)]
            return self.strcat(out + [c(parts[-1])])
        return mk('call', 'format', a, b)
      return mk('mod', a, b)
    if o == 'Pow':
      return self.power(a, b)
    if o == 'MatMult':
      return mk('call', 'matmul', a, b)
    if o in ('BitAnd', 'BitOr'):
      return t.arith('bitand' if o == 'BitAnd' else 'bitor', a, b)
    return mk('bin', o, a, b)

  def v_Compare(self, e):
    left = self.ev(e.left)
    out = []
    for op, r in zip(e.ops, e.comparators):
      right = self.ev(r)
      out.append(self.compare1(op, left, right))
      left = right
    return t.and_(*out)

  def compare1(self, op, a, b):
    o = type(op).__name__
    m = {'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>=', 'Eq': '==', 'NotEq': '!=', 'Is': '==', 'IsNot': '!='}.get(o)
    if m:
      if m in ('==', '!=') and t.NONE in (a, b):
        r = self.is_none(b if a is t.NONE else a)
        return r if m == '==' else t.not_(r)
      return self.compare2(m, self.num(a), self.num(b))
    r = self.member(self.val(a), b)
    return r if o == 'In' else t.not_(r)

  def compare2(self, m, a, b):
    return t.compare(m, a, b, m not in ('==', '!=') and intish(a) and intish(b) and (strong(a, self.ints) or strong(b, self.ints)))

  def is_none(self, x):
    if x.op == 'ite':
      return t.ite(x.a[0], self.is_none(x.a[1]), self.is_none(x.a[2]))
    if x.op == 'c':
      return c(x.a[0] is None)
    x = self.val(x) if x.op in ('p', 'f', 'i', 'k', 'was') else x
    if x.op in ('new', 'list', 'put', 'zero', 'vb', 'fold', 'lam', 'add', 'sub', 'mul', 'cat', 'append', 'rec', 'div', 'size', 'seti') or iscond(x):
      return t.FALSE
    return t.compare('==', x, t.NONE)

  def member(self, a, b):
    if box(b) or b.op in ('p', 'f', 'i', 'k', 'was'):
      b = self.val(b)
    if b.op == 'call' and b.a[0] == '.keys':
      b = self.val(b.a[1])
    if b.op in ('list', 'pyset') and len(b.a) <= 32:
      return t.or_(*[t.compare('==', a, x) for x in b.a])
    if b.op in ('put', 'zero', 'ins', 'fold'):
      return V.contains(b, a)
    if b.op == 'ite':
      return t.ite(b.a[0], self.member(a, b.a[1]), self.member(a, b.a[2]))
    return mk('contains', b, a)

  def v_Lambda(self, e):
    l = mk('lam', self.uid())
    self.lams[l] = (Fn(self.frames[-1].fn.mod, e), self.frames[-1])
    return l

  def v_JoinedStr(self, e):
    vs = []
    for x in e.values:
      if isinstance(x, ast.FormattedValue):
        v = self.vv(x.value)
        if x.format_spec is not None:
          v = mk('call', 'format', v, self.ev(x.format_spec))
        elif v.op == 'c' and isinstance(v.a[0], (int, str)):
          v = c(str(v.a[0]))
        else:
          v = self.strof(v)
        vs.append(v)
      else:
        vs.append(self.ev(x))
    return self.strcat(vs)

  def strof(self, v):
    return v.a[1] if v.op == 'call' and v.a[0] == 'str' and len(v.a) == 2 else v

  def v_FormattedValue(self, e):
    return self.ev(e.value)

  def v_Starred(self, e):
    return mk('star', self.ev(e.value))

  def v_NamedExpr(self, e):
    v = self.ev(e.value)
    self.assign(e.target, v, e.lineno)
    return v

  def v_Yield(self, e):
    v = self.ev(e.value) if e.value is not None else t.NONE
    gen = self.store.get(mk('loc', self.frames[-1].uid, '__gen__'))
    if gen is not None:
      self.store[gen] = V.append(self.rd(gen), v)
    return mk('void')

  def v_YieldFrom(self, e):
    v = self.ev(e.value)
    gen = self.store.get(mk('loc', self.frames[-1].uid, '__gen__'))
    if gen is not None:
      self.store[gen] = V.extend(self.rd(gen), self.seq(v))
    return mk('void')

  def v_Await(self, e):
    return self.ev(e.value)

  # ------------------------------------------------------------ call dispatch
  def v_Call(self, e):
    self.calls_seen += 1
    return self.call(e, False)

  def call(self, e, stmt):
    if isinstance(e.func, ast.Name) and e.func.id == 'super':
      fr = self.frames[-1]
      a = fr.fn.node.args
      me = self.store.get(mk('loc', fr.uid, a.args[0].arg)) if a.args else mk('void')
      return mk('super', me, fr.fn.cls.qual if fr.fn.cls else '?')
    f = b = None
    if isinstance(e.func, ast.Attribute):
      b = self.ev(e.func.value)
      if b.op in ('g', 'super', 'enum') or isinstance(self.typeof(b), Cls):
        f = self.attr(b, e.func.attr)
    else:
      f = self.ev(e.func)
    pos = self.elts(e.args)
    kw = {}
    for k in e.keywords:
      v = self.ev(k.value)
      if k.arg is None:
        puts, y = [], self.rd(v) if v.op == 'new' else v
        while y.op == 'put' and y.a[1].op == 'c':
          puts.append((y.a[1].a[0], y.a[2]))
          y = y.a[0]
        if y is EMPTYDICT:
          kw.update(puts[::-1])
        else:
          kw['**'] = v
      else:
        kw[k.arg] = v
    if f is None or f.op not in ('g', 'lam', 'bound', 'clsfn', 'partial', 'ite') and b is not None:
      return self.method_call(e, b, e.func.attr, pos, kw, stmt)
    return self.apply(f, pos, kw, e.lineno, e, stmt)

  def apply(self, f, pos, kw, line, e=None, stmt=False):
    if f.op == 'ite':
      return self.either(f.a[0], lambda: self.apply(f.a[1], pos, kw, line, e, stmt), lambda: self.apply(f.a[2], pos, kw, line, e, stmt))
    if f.op == 'lam':
      fn, fr0 = self.lams[f]
      return self.call_py(fn, pos, kw, closure=fr0)
    if f.op == 'partial':
      kk = {y.a[0]: y.a[1] for y in f.a[1:] if y.op == 'kw'}
      kk.update(kw)
      return self.apply(f.a[0], [y for y in f.a[1:] if y.op != 'kw'] + pos, kk, line, e, stmt)
    if f.op == 'bound':
      b, name = f.a
      if b.op == 'super':
        r = self.prog.resolve(b.a[1])
        if r[0] == 'cls':
          for k in self.prog.mro(r[1])[1:]:
            if name in k.methods:
              return self.call_py(k.methods[name], [b.a[0]] + pos, kw)
        return mk('void')
      ty = self.typeof(b)
      m = self.prog.method(ty, name) if isinstance(ty, Cls) else None
      if m is not None and self.inline(m):
        if 'staticmethod' in m.decos:
          return self.call_py(m, pos, kw)
        if 'classmethod' in m.decos:
          return self.call_py(m, [mk('g', ty.qual)] + pos, kw)
        return self.call_py(m, [b] + pos, kw)
      if m is not None:
        return self.repo_opaque(m, ([] if 'staticmethod' in m.decos else [b]) + pos, kw, line, stmt)
      return self.opaque_py('.' + name, [b] + pos, kw, line, stmt)
    if f.op == 'clsfn':
      r = self.prog.resolve(f.a[0])
      m = self.prog.method(r[1], f.a[1])
      full = [mk('g', f.a[0])] + pos if 'classmethod' in m.decos else pos
      if self.inline(m):
        return self.call_py(m, full, kw)
      return self.repo_opaque(m, full, kw, line, stmt)
    if f.op == 'g':
      name = f.a[0]
      if name.startswith('waymo_open_dataset'):
        r = self.prog.resolve(name)
        if r[0] == 'fn':
          if self.inline(r[1]) and not any(x.op == 'star' for x in pos) and '**' not in kw:
            return self.call_py(r[1], pos, kw)
          return self.repo_opaque(r[1], pos, kw, line, stmt)
        if r[0] == 'cls':
          return self.construct(r[1], pos, kw, line)
        return self.opaque_py(name, pos, kw, line, stmt)
      if '_pb2.' in name:
        head, tail = name.rsplit('.', 1)
        en = pb_enums()[1].get(head)
        if en is not None and len(pos) == 1 and pos[0].op == 'c':
          if tail == 'Value' and pos[0].a[0] in en:
            return c(en[pos[0].a[0]])
          if tail == 'Name' and pos[0].a[0] in en.values():
            return c([k for k, v in en.items() if v == pos[0].a[0]][0])
        if tail[0].isupper() and not pos:
          n = self.newbox('pb:' + name, mk('zero', 'pb:' + name))
          for k, v in sorted(kw.items()):
            self.write(mk('f', n, k), v)
          return n
        return self.opaque_py(name, pos, kw, line, stmt)
      b = getattr(self, 'b_' + name.replace('.', '_'), None)
      if b is not None:
        r = b(pos, kw, line)
        if r is not None:
          return r
      if name in TERMINATE:
        raise Dead()
      r = self.ext_call(name, pos, kw, line)
      if stmt and not name.startswith(QUIET) and r.op == 'call':
        if name in NPMUT and e is not None and e.args:
          self.write(self.lv(e.args[0]), mk('call', name + '!', *r.a[1:]))
        else:
          self.eff('mcall', r, None, line)
      return r
    return self.opaque_py(f, pos, kw, line, stmt)

  def repo_opaque(self, fn, pos, kw, line, stmt):
    """A repository function that is not expanded: arguments by parameter name."""
    a = fn.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    kk = dict(kw)
    for n, v in zip(names, pos):
      kk[n] = v
    # an argument equal to the default is the default
    defs = list(zip(names[len(names) - len(a.defaults):], a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
    for n, d in defs:
      if n in kk and kk[n].op in ('c', 'enum', 'g') and self.in_module(fn.mod, d, fn.qual + '.' + n) is kk[n]:
        del kk[n]
    full = [mk('kw', k, self.arg(v)) for k, v in sorted(kk.items())] + [self.arg(x) for x in pos[len(names):]]
    r = mk('call', fn.qual, *full)
    if stmt:
      self.eff('mcall', r, None, line)
    cl = self.ann_class(fn.node.returns, fn.mod)
    if cl is not None:
      self.types.setdefault(r, cl)
    return r

  def opaque_py(self, name, pos, kw, line, stmt=False):
    full = [self.arg(x) for x in pos] + [mk('kw', k, self.arg(v)) for k, v in sorted(kw.items())]
    r = mk('call', name if not isinstance(name, T) else self.val(name), *full)
    if stmt:
      self.eff('mcall', r, None, line)
    return r

  def construct(self, cl, pos, kw, line):
    if self.prog.is_enum(cl):
      return mk('call', cl.qual, *[self.arg(x) for x in pos])
    m = self.prog.method(cl, '__init__')
    if m is not None:
      if self.inline(m):
        n = self.newbox(cl.qual, mk('zero', cl.qual))
        self.call_py(m, [n] + pos, kw)
        return n
      return self.opaque_py(cl.qual, pos, kw, line)
    fields = []
    for k in reversed(self.prog.mro(cl)):
      for x in k.order:
        ann = k.anns[x]
        if dotted_name(ann) in ('ClassVar', 'typing.ClassVar'):
          continue
        if x not in [y[0] for y in fields]:
          fields.append((x, k))
        else:
          fields = [(a, (k if a == x else b)) for a, b in fields]
    if not fields and (pos or kw):
      return self.opaque_py(cl.qual, pos, kw, line)
    n = self.newbox(cl.qual, mk('zero', cl.qual))
    vals = dict(zip([x[0] for x in fields], pos))
    vals.update(kw)
    for x, k in fields:
      if x in vals:
        self.write(mk('f', n, x), vals[x])
      else:
        for q in self.prog.mro(cl):
          if x in q.attrs:
            self.write(mk('f', n, x), self.in_module(q.mod, q.attrs[x], '%s.%s' % (cl.qual, x)))
            break
    pi = self.prog.method(cl, '__post_init__')
    if pi is not None and self.inline(pi):
      self.call_py(pi, [n], {})
    return n

  # ------------------------------------------------------------ builtins
  def b_len(self, pos, kw, line):
    return self.length(pos[0])

  def b_isinstance(self, pos, kw, line):
    return mk('call', 'isinstance', self.val(pos[0]), pos[1])

  def b_range(self, pos, kw, line):
    return mk('call', 'range', *[self.val(x) for x in pos])

  def b_zip(self, pos, kw, line):
    return None if any(x.op == 'star' for x in pos) else mk('call', 'zip', *pos)

  def b_enumerate(self, pos, kw, line):
    return mk('call', 'enumerate', *(list(pos) + [v for v in kw.values()]))

  def b_reversed(self, pos, kw, line):
    return mk('call', 'reversed', pos[0])

  def b_iter(self, pos, kw, line):
    return pos[0] if len(pos) == 1 else None

  def b_list(self, pos, kw, line):
    return self.newbox('list', self.seq(pos[0]) if pos else mk('list'))

  def b_tuple(self, pos, kw, line):
    return self.val(self.seq(pos[0])) if pos else mk('list')

  def b_dict(self, pos, kw, line):
    n = self.newbox('dict', EMPTYDICT)
    if pos:
      x = pos[0]
      if x.op in ('p', 'f', 'i', 'k'):
        self.store[n] = self.copied(x)
      elif box(x) and x.a[0] == 'dict':
        self.store[n] = self.rd(x)
      else:
        it = self.iteration(x)
        if isinstance(it, list) and all(y.op == 'list' and len(y.a) == 2 for y in it):
          for y in it:
            self.write(mk('k', n, self.val(y.a[0])), y.a[1])
        elif not isinstance(it, list):
          k, el = it

          def body():
            y = el(self.its[-1])
            self.write(mk('k', n, self.val(self.item(y, c(0)))), self.item(y, c(1)))
            return {'fall'}
          self.loop(body, n=k)
        else:
          self.dict_update(n, x)
    for k, v in kw.items():
      if k == '**':
        self.dict_update(n, v)
      else:
        self.write(mk('k', n, c(k)), v)
    return n

  def b_collections_defaultdict(self, pos, kw, line):
    n = self.newbox('dict', EMPTYDICT)
    return n

  b_collections_OrderedDict = b_dict
  b_immutabledict_immutabledict = b_dict

  def b_divmod(self, pos, kw, line):
    if len(pos) != 2:
      return None
    return mk('list', self.binop(ast.FloorDiv(), pos[0], pos[1], line), self.binop(ast.Mod(), pos[0], pos[1], line))

  def b_set(self, pos, kw, line):
    if not pos:
      return self.newbox('set', EMPTYSET)
    s = self.val(self.seq(pos[0]))
    if s.op == 'list' and all(x.op in ('c', 'enum') for x in s.a):
      return mk('pyset', *sorted(set(s.a)))
    r = V.toset(s, EMPTYSET)
    return r if r is not None else mk('call', 'set', s)

  b_frozenset = b_set

  def b_map(self, pos, kw, line):
    if len(pos) < 2:
      return None
    src = pos[1] if len(pos) == 2 else mk('call', 'zip', *pos[1:])
    it = self.iteration(src)
    acc = self.newbox('list', mk('list'))

    def put(x):
      xs = [x] if len(pos) == 2 else list(x.a)
      self.store[acc] = V.append(self.rd(acc), self.apply(pos[0], xs, {}, line))
      return {'fall'}
    if isinstance(it, list):
      for x in it:
        put(x)
    else:
      self.loop(lambda: put(it[1](self.its[-1])), n=it[0])
    return acc

  def b_filter(self, pos, kw, line):
    if len(pos) != 2:
      return None
    it = self.iteration(pos[1])
    acc = self.newbox('list', mk('list'))

    def put(x):
      cnd = self.truth(x if pos[0] is t.NONE else self.apply(pos[0], [x], {}, line))

      def add():
        self.store[acc] = V.append(self.rd(acc), x)
        return {'fall'}
      if cnd.op == 'c':
        return add() if cnd.a[0] else {'fall'}
      return self.branch(cnd, add, lambda: {'fall'})
    if isinstance(it, list):
      for x in it:
        put(x)
    else:
      self.loop(lambda: put(it[1](self.its[-1])), n=it[0])
    return acc

  def b_sorted(self, pos, kw, line):
    return self.newbox('list', mk('call', 'sort', self.val(self.seq(pos[0])), *[mk('kw', k, self.arg(v)) for k, v in sorted(kw.items())]))

  def b_any(self, pos, kw, line):
    return self.quant(self.val(self.seq(pos[0])), False)

  def b_all(self, pos, kw, line):
    r = self.quant(self.val(self.seq(pos[0])), True)
    return t.not_(r) if r is not None else None

  def quant(self, s, neg):
    """Is there an element that is true (false)?"""
    pred = lambda x: t.not_(self.truth(x)) if neg else self.truth(x)
    r = over(s, pred, t.FALSE, t.or_, lambda n, h, init, st: t.or_(init, V.rebind('any', [n, h, st]) if st.op != 'c' else V.any_(n, h, st)))
    if r is None:
      x = mk('call', 'any', s)
      if neg:
        return t.not_(mk('call', 'all', s))
      return x
    return r

  def b_sum(self, pos, kw, line):
    s = self.val(self.seq(pos[0]))
    i0 = pos[1] if len(pos) > 1 else kw.get('start', c(0))
    num = lambda x: t.ite(x, c(1), c(0)) if iscond(x) else x
    if s.op == 'list':
      r = i0
      for x in s.a:
        r = t.arith('add', r, num(x))
      return r
    if s.op == 'fold' and len(s.a) == 4 and V.empty(s.a[2]):
      n, h, init, st = s.a
      me = mk('bl', h, 0)
      st = sumstep(st, me, num)
      if st is not None:
        return V.rebind('fold', [n, h, i0, st])
    return mk('call', 'sum', s, *pos[1:])

  def b_functools_partial(self, pos, kw, line):
    return mk('partial', pos[0], *(list(pos[1:]) + [mk('kw', k, v) for k, v in sorted(kw.items())]))

  def b_float(self, pos, kw, line):
    if len(pos) == 1 and t.num(pos[0]):
      return c(float(pos[0].a[0]))
    if len(pos) == 1 and pos[0].op == 'c' and pos[0].a[0] in ('inf', '-inf'):
      return c(float(pos[0].a[0]))
    return self.num(pos[0]) if pos and pos[0].op != 'c' else None

  def b_bool(self, pos, kw, line):
    return self.truth(pos[0]) if pos else t.FALSE

  def b_int(self, pos, kw, line):
    if len(pos) == 1 and t.num(pos[0]):
      return c(int(pos[0].a[0]))
    x = [self.num(y) for y in pos]
    if len(x) == 1 and x[0].op in ('size', 'it', 'trunc', 'idiv'):
      return x[0]
    return mk('trunc', *x)

  def b_str(self, pos, kw, line):
    v = self.val(pos[0]) if pos else c('')
    if len(pos) == 1 and v.op == 'c':
      return c(str(v.a[0]))
    if v.op in ('cat',):
      return v
    return mk('call', 'str', *[self.val(x) for x in pos])

  def b_abs(self, pos, kw, line):
    return self.ext_call('np.abs', pos, kw, line)

  def b_max(self, pos, kw, line, op='max'):
    if len(pos) >= 2 and not kw:
      r = self.num(pos[0])
      for x in pos[1:]:
        r = t.arith(op, r, self.num(x))
      return r
    if len(pos) == 1 and not kw:
      s = self.val(self.seq(pos[0]))
      if s.op == 'list' and s.a and not any(x.op == 'star' for x in s.a):
        return self.b_max(list(s.a), kw, line, op) if len(s.a) > 1 else s.a[0]
      return mk('call', op, s)

  def b_min(self, pos, kw, line):
    return self.b_max(pos, kw, line, 'min')

  def b_getattr(self, pos, kw, line):
    if len(pos) == 2 and pos[1].op == 'c':
      return self.attr(pos[0], pos[1].a[0])

  def b_setattr(self, pos, kw, line):
    if pos[1].op == 'c':
      l = locf(pos[0], pos[1].a[0])
      self.detach(l)
      self.write(l, pos[2])
      return t.NONE

  def b_cast(self, pos, kw, line):
    return pos[1]

  b_typing_cast = b_cast

  def b_copy_copy(self, pos, kw, line):
    return self.copy(pos[0])

  b_copy_deepcopy = b_copy_copy
  b_np_copy = b_copy_copy

  def copy(self, x):
    if x.op == 'new':
      return self.newbox(x.a[0], self.copied(x))
    return self.newbox('array', self.copied(x)) if self.handle(x) else x

  def b_field(self, pos, kw, line):
    if 'default' in kw:
      return kw['default']
    if 'default_factory' in kw:
      return self.apply(kw['default_factory'], [], {}, line)

  b_dataclasses_field = b_field

  def b_dataclasses_replace(self, pos, kw, line):
    o = pos[0]
    ty = self.typeof(o)
    n = self.newbox(ty.qual if isinstance(ty, Cls) else 'obj', self.copied(o))
    for k, v in kw.items():
      self.write(mk('f', n, k), v)
    return n

  # ------------------------------------------------------------ methods
  def method_call(self, e, b, name, pos, kw, stmt):
    line = e.lineno
    n = len(pos)
    if b.op == 'ite' and name not in MUTATORS and not stmt:
      return self.either(b.a[0], lambda: self.method_call(e, b.a[1], name, pos, kw, stmt), lambda: self.method_call(e, b.a[2], name, pos, kw, stmt))
    ty = self.typeof(b)
    if isinstance(ty, Cls):
      m = self.prog.method(ty, name)
      if m is not None:
        return self.apply(mk('bound', b, name), pos, kw, line, e, stmt)
    if name in ('union', 'intersection', 'difference', 'symmetric_difference') and n and not kw and self.isset(self.val(b)):
      r = self.val(b)
      op = {'union': ast.BitOr, 'intersection': ast.BitAnd, 'difference': ast.Sub, 'symmetric_difference': ast.BitXor}[name]()
      for x in pos:
        r = self.binop(op, r, self.val(self.b_set([x], {}, line)), line)
      return r
    if b.op == 'c' and isinstance(b.a[0], str):
      if name == 'format':
        parts = b.a[0].split('{}')
        if not kw and len(parts) == n + 1 and not any('{' in x or '}' in x for x in parts) and not any(x.op == 'star' for x in pos):
          out = []
          for k, x in enumerate(pos):
            out += [c(parts[k]), self.strof(self.val(x))]
          return self.strcat(out + [c(parts[-1])])
        return mk('call', 'format', b, *([self.arg(x) for x in pos] + [mk('kw', k, self.arg(v)) for k, v in sorted(kw.items())]))
      if name == 'join' and n == 1:
        x = self.val(self.seq(pos[0]))
        if x.op == 'list':
          out = []
          for k, y in enumerate(x.a):
            out += [b, y] if k else [y]
          return self.strcat([self.strof(y) for y in out])
        return mk('call', '.join', b, x)
    if name in MUTATORS and (stmt or name in ('pop', 'setdefault', 'add', 'popleft')) and not (name == 'add' and n == 0):
      l = b if self.handle(b) else self.lv(e.func.value)
      r = self.mutate(l, name, pos, kw, line)
      if r is not None:
        return r
    if name == 'add' and n == 0:      # repeated message field
      l = b if self.handle(b) else self.lv(e.func.value)
      cur = self.rd(l)
      k = size(cur)
      self.write(l, V.append(cur, mk('zero', 'pb')))
      el = mk('i', l, k)
      for q, v in sorted(kw.items()):
        self.write(mk('f', el, q), v)
      return el
    if self.isdict(b) or name in ('items', 'keys', 'values'):
      if name in ('items', 'keys', 'values') and n == 0 and not kw:
        return mk('call', '.' + name, b)
      if name == 'copy' and n == 0:
        return self.newbox('dict', self.copied(b))
    if name == 'get' and n in (1, 2) and not kw:
      key = self.val(pos[0])
      dflt = pos[1] if n == 2 else t.NONE
      return self.either(self.member(key, b), lambda: self.item(b, key), lambda: dflt)
    if name == 'HasField' and n == 1 and pos[0].op == 'c':
      return V.has(self.rd(locf(b, pos[0].a[0])))
    if name == 'WhichOneof':
      return mk('case', self.val(b), *pos)
    if name == 'SetInParent' and n == 0:
      return t.NONE
    if name == 'copy' and n == 0:
      return self.copy(b)
    if name == 'tolist' and n == 0 and (box(b) or V.is_seq(b)):
      return self.newbox('list', self.seq(b))
    if name == 'numpy' and n == 0:
      return b
    if name in ND_METHODS and not stmt:
      pp = list(pos)
      if name in ('reshape', 'transpose') and len(pp) > 1:
        pp = [mk('list', *pp)]
      return self.ext_call('np.' + name, [b] + pp, kw, line)
    if name == 'close' and n == 0 and stmt and any(opened(x) for x in t.walk(self.val(b))):
      return t.NONE
    r = self.ext_call('.' + name, [b] + pos, kw, line)
    if stmt:
      l = b if self.handle(b) else self.lv(e.func.value)
      root = split(l)[0]
      if r.op == 'call':
        if root.op in LOCAL:
          if any(x.op == 'call' and x.a[0] in ('enter', 'open', 'tf.io.gfile.GFile') for x in t.walk(r)):
            self.eff('mcall', r, None, line)
          self.write(l, mk('call', '.' + name + '!', *r.a[1:]))
        elif root.op == 'g':
          self.eff('mcall', r, None, line)
        else:
          self.write(l, mk('call', '.' + name + '!', *r.a[1:]))
    return r

  def mutate(self, l, name, pos, kw, line):
    """A call that changes a container in place."""
    n = len(pos)
    cur = self.rd(l)
    if cur.op == 'new':
      l, cur = cur, self.rd(cur)
    if name == 'append' and n == 1:
      self.write(l, V.append(cur, pos[0]))
      return t.NONE
    if name in ('extend', 'MergeFrom') and n == 1 and not self.isdict(l):
      self.write(l, V.extend(cur, self.seq(pos[0])))
      return t.NONE
    if name == 'add' and n == 1:
      self.write(l, V.ins(cur, self.val(pos[0])))
      return t.NONE
    if name == 'update':
      if self.isset(cur):
        new = cur
        for x in pos:
          new = None if new is None else V.toset(self.val(self.seq(x)), EMPTYSET, new)
        if new is not None:
          self.write(l, new)
          return t.NONE
        self.write(l, mk('call', 'union', self.val(cur), *[self.val(self.seq(x)) for x in pos]))
        return t.NONE
      for x in pos:
        self.dict_update(l, x)
      for q, v in sorted(kw.items()):
        if q == '**':
          self.dict_update(l, v)
        else:
          self.write(mk('k', l, c(q)), v)
      return t.NONE
    if name == 'CopyFrom' and n == 1:
      self.detach(l)
      self.write(l, self.copied(pos[0]))
      return t.NONE
    if name == 'setdefault' and n == 2:
      key = self.val(pos[0])
      pl = self.part(l, key)
      has = self.member(key, cur)
      old = self.rd(pl)
      self.write(pl, join(has, old, pos[1]))
      return self.rd(pl)
    if name == 'clear' and n == 0:
      self.write(l, EMPTYDICT if self.isdict(l) else mk('list'))
      return t.NONE
    full = [self.arg(x) for x in pos] + [mk('kw', k, self.arg(v)) for k, v in sorted(kw.items())]
    now = self.val(cur) if cur is not l else cur
    if name in ('sort', 'reverse'):
      self.write(l, mk('call', name, now, *full))
      return t.NONE
    if name == 'pop' and not self.isdict(l) and n <= 1:
      if cur.op == 'list' and cur.a and (n == 0 or pos[0].op == 'c' and isinstance(pos[0].a[0], int) and -len(cur.a) <= pos[0].a[0] < len(cur.a)):
        a = list(cur.a)
        x = a.pop(*[y.a[0] for y in pos])
        self.write(l, mk('list', *a))
        return x
    self.write(l, mk('call', '.' + name + '!', now, *full))
    return mk('call', '.' + name, now, *full)

  def sinks(self, ret):
    out = []
    for r, v in list(self.store.items()):
      if r.op in LOCAL or v is r:
        continue
      d = []
      V.diff(r, v, r, d)
      out += [(x, self.val(a, frozenset([r]))) for x, a, b in d]
    return out, (self.cond_text(self.val(ret)) if ret is not None else None)

  def cond_text(self, v):
    return v


def base_name(x):
  while isinstance(x, (ast.Subscript, ast.Attribute)):
    x = x.value
  return x.id if isinstance(x, ast.Name) else None


def over(s, pred, zero, join2, many):
  """Folds a disjunction-like operation over the elements of a sequence value."""
  def go(x, me):
    if x is me:
      return zero
    o = x.op
    if o == 'list':
      if any(y.op == 'star' for y in x.a):
        return None
      r = zero
      for y in x.a:
        r = join2(r, pred(y))
      return r
    if o == 'append':
      a = go(x.a[0], me)
      return None if a is None else join2(a, pred(x.a[1]))
    if o == 'extend':
      a, b = go(x.a[0], me), go(x.a[1], me)
      return None if a is None or b is None else join2(a, b)
    if o == 'ite':
      a, b = go(x.a[1], me), go(x.a[2], me)
      return None if a is None or b is None else t.or_(t.and_(x.a[0], a), t.and_(t.not_(x.a[0]), b))
    if o == 'fold' and len(x.a) == 4:
      n, h, init, st = x.a
      inner = mk('bl', h, 0)
      if not V.comprehension(st, inner) or any(y.op == 'brk' for y in t.walk(st)):
        return None
      a, b = go(init, me), go(st, inner)
      return None if a is None or b is None else many(n, h, a, b)
    if V.empty(x):
      return zero
    return None
  return go(s, None)


def sumstep(x, me, num):
  if x is me:
    return me
  if x.op == 'append':
    a = sumstep(x.a[0], me, num)
    return None if a is None else t.arith('add', a, num(x.a[1]))
  if x.op == 'ite':
    a, b = sumstep(x.a[1], me, num), sumstep(x.a[2], me, num)
    return t.ite(x.a[0], a, b) if a is not None and b is not None else None
  if x.op == 'fold' and len(x.a) == 4:
    a, b = sumstep(x.a[2], me, num), sumstep(x.a[3], mk('bl', x.a[1], 0), num)
    return None if a is None or b is None else V.rebind('fold', [x.a[0], x.a[1], a, b])
  return None


def intish(x):
  if x.op == 'c':
    return isinstance(x.a[0], int) and not isinstance(x.a[0], bool)
  if x.op in ('size', 'it', 'bv', 'p', 'f', 'i', 'k', 'trunc', 'lv'):
    return True
  if x.op == 'off':
    return intish(x.a[0])
  if x.op in ('add', 'sub', 'mul', 'mod', 'idiv', 'max', 'min', 'ite'):
    return all(intish(y) for y in x.a[-2:])
  return False


def strong(x, ints):
  """Is the value certainly an integer (where it may be one at all)?"""
  if x.op in ('size', 'it', 'bv', 'trunc') or x in ints:
    return True
  if x.op == 'i':
    return x.a[0].op == 'f' and x.a[0].a[1] == 'shape'
  return x.op in ('off', 'add', 'sub', 'mul', 'mod', 'idiv', 'max', 'min') and any(strong(y, ints) for y in t.kids(x))
