"""Value-flow contracts.

An entry names a function of the public surface.  The analyser computes its
canonical effect summary from the current source (everything the repository
defines below it is expanded); the contract, frozen in specs/<property>.json
after review, says for every observable sink - returned value, field stored
through a parameter, element appended, argument check, raised error, listed
library call - which value reaches it under which condition.
"""
import ast
import hashlib
import json
import os
import pickle
import re
import resource
import selectors
import signal
import sys
import time
import traceback

from wodlint import cxxcanon, cxxload, cxxval, program, pyload, pyval, renames
from wodlint.cxxload import Broken

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_PROG = {}


def cxx_program():
  if 'cxx' not in _PROG:
    _PROG['cxx'] = program.Program(renames.cxx(cxxload.program_json()))
  return _PROG['cxx']


def py_program():
  if 'py' not in _PROG:
    _PROG['py'] = pyload.PyProgram(cxxload.SRC)
  return _PROG['py']


class Cxx(object):
  lang = 'cxx'

  def __init__(self, fn, file, sig, opaque=frozenset(), inline_math=False):
    self.fn, self.file, self.sig = fn, file, sig
    self.opaque, self.inline_math = opaque, inline_math
    self.id = eid(dict(lang='cxx', file=file, fn=fn, sig=sig))
    self.key = (fn, len(sig))

  def find(self):
    """The definition; its parameters may have been requalified (T to const T&)."""
    fs = [f for f in cxx_program().by_name.get(self.fn, []) if len(f['params']) == len(self.sig)]
    for rule in (lambda f: [x[2] for x in f['params']] == self.sig and f['file'].endswith(self.file),
                 lambda f: [bare(x[2]) for x in f['params']] == [bare(x) for x in self.sig],
                 lambda f: True):
      hit = [f for f in fs if rule(f)]
      if len(set((f['file'], f['line']) for f in hit)) == 1:    # one definition, perhaps instantiated twice
        return min(hit, key=lambda f: (json.dumps(f['params']), f['ret']))
    raise Broken('anchor: %d definitions of %s(%s)' % (len(fs), self.fn, ', '.join(self.sig)))

  def analyse(self):
    fn = self.find()

    self.reached, self.math = set(), False

    def inline(f):
      if f['name'] in self.opaque:
        self.reached.add(f['name'])
        return False
      if '/math/' in f['file'] and not f['file'].endswith('math_util.h'):
        self.math = True
        return self.inline_math
      return True
    flow = cxxval.CxxVal(cxx_program(), inline=inline)
    try:
      ret = flow.run(fn)
    except program.Dead:
      ret = None
    return flow, cxxcanon.Summary(flow, ret), '%s:%s' % (fn['file'], fn['line'])


def bare(ty):
  return re.sub(r'\bconst |[ &]+$', '', ty)


class Py(object):
  lang = 'py'

  def __init__(self, fn, opaque=frozenset()):
    self.fn, self.opaque = fn, opaque
    self.id = fn

  def analyse(self):
    prog = py_program()
    fn = prog.fn('waymo_open_dataset.' + self.fn)

    self.reached = set()

    def inline(f):
      q = f.qual[len('waymo_open_dataset.'):]
      if q in self.opaque:
        self.reached.add(q)
        return False
      return True
    flow = pyval.PyVal(prog, inline=inline)
    try:
      ret = flow.run(fn)
    except program.Dead:
      ret = None
    return flow, cxxcanon.Summary(flow, ret), '%s:%s' % (os.path.relpath(fn.mod.file, cxxload.SRC), fn.node.lineno)


class PyConst(object):
  """Module-level constants, enumerators and dataclass fields of one module."""
  lang = 'pyconst'

  def __init__(self, mod, opaque=frozenset()):
    self.mod, self.opaque = mod, opaque
    self.id = mod + ' (declarations)'

  def sinks(self):
    m = py_program().module('waymo_open_dataset.' + self.mod)
    if m is None:
      raise Broken('anchor: no module ' + self.mod)
    out, long = {}, {}

    def value(node):
      if node is None:
        return ''
      fnode = ast.parse('def f():\n  return 0').body[0]
      fnode.body[0].value = node
      flow = pyval.PyVal(py_program(), inline=lambda f: True)
      try:
        s = cxxcanon.Summary(flow, flow.run(pyload.Fn(m, fnode)))
      except program.Dead:
        return 'raises'
      long.update(s.canon.long)
      return s.ret if s.ret is not None else 'None'

    def body(stmts, prefix):
      for x in stmts:
        if isinstance(x, ast.Assign):
          for y in x.targets:
            if isinstance(y, ast.Name) and (not y.id.startswith('_') or prefix):
              out['const ' + prefix + y.id] = value(x.value)
        elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name) and (not x.target.id.startswith('_') or prefix):
          out['const ' + prefix + x.target.id] = (ast.unparse(x.annotation) + ' = ' if prefix else '') + value(x.value)
        elif isinstance(x, ast.ClassDef):
          if not x.name.startswith('_') or prefix == '':
            out['class ' + prefix + x.name] = '(%s) %s' % (
                ', '.join([ast.unparse(b) for b in x.bases] + ['%s=%s' % (k.arg, ast.unparse(k.value)) for k in x.keywords]),
                ' '.join(sorted(ast.unparse(d) for d in x.decorator_list)))
            body(x.body, prefix + x.name + '.')
        elif isinstance(x, ast.FunctionDef) and not prefix and not x.name.startswith('_'):
          out['def ' + x.name] = '%s defaults %s' % (', '.join(a.arg for a in x.args.args + x.args.kwonlyargs),
                                            ', '.join(value(d) for d in x.args.defaults + [d for d in x.args.kw_defaults if d]))
    body(m.tree.body, '')
    return out, os.path.relpath(m.file, cxxload.SRC), long


DEFAULT = ('ret', 'store', 'append', 'extend', 'check', 'raise', 'fatal', 'mcall', 'clear', 'resize')


class NoFlow(object):
  effects, inlined, calls_seen = (), (), 0


def sinks(entry):
  """{sink text: value text}, site, flow of one entry on the current source."""
  if entry.lang == 'pyconst':
    out, site, long = entry.sinks()
    flow = NoFlow()
    flow.long = long
    return out, site, flow
  flow, s, site = entry.analyse()
  want = DEFAULT
  out = {}
  if 'ret' in want and s.ret is not None and s.ret not in ('void()', 'None'):
    out['ret'] = s.ret
  if 'store' in want:
    for k, v in s.stores.items():
      out['store ' + k] = v
  for (kind, text), line in s.effects.items():
    if kind in ('clear', 'resize') and text.startswith(kind + '(~'):
      continue
    if kind in want and kind in ('append', 'extend', 'check', 'raise', 'fatal', 'mcall', 'resize', 'clear'):
      out['%s %s' % (kind, text)] = ''
  flow.long = s.canon.long
  return out, site, flow


def refs(texts, long):
  """The abbreviations a set of texts refers to, transitively."""
  out, st = {}, list(texts)
  while st:
    for h in re.findall('\u00ab[0-9a-f]+\u00bb', st.pop()):
      if h not in out and h in long:
        out[h] = long[h]
        st.append(long[h])
  return out


def spec_path(prop):
  return '%s/specs/%s.json' % (ROOT, prop)


def read_spec(prop):
  path = spec_path(prop)
  if not os.path.exists(path):
    raise Broken('no contract file ' + path)
  with open(path) as fh:
    return json.load(fh)


def eid(d):
  return '%s | %s(%s)' % (d['file'], d['fn'], ', '.join(d['sig'])) if d['lang'] == 'cxx' else (
      d['fn'] + ' (declarations)' if d['lang'] == 'pyconst' else d['fn'])


def _one(job):
  """(sinks, site, abbreviations, counts, reached) of one entry, or the reason there is none."""
  d, opq = job
  from wodlint import entries
  e = entries.make(d, opq)
  sys.setrecursionlimit(6000)
  t0 = time.time()
  try:
    o, site, flow = sinks(e)
    r = dict(sinks=o, site=site, long=refs(list(o) + list(o.values()), flow.long), fns=max(1, len(flow.inlined)),
             effects=len(flow.effects), calls=flow.calls_seen, reached=sorted(getattr(e, 'reached', ())), math=getattr(e, 'math', False))
  except Broken as x:
    r = dict(broken=str(x))
  except Exception as x:
    r = dict(broken='%s: %s: %s %s' % (eid(d), type(x).__name__, x, ''.join(traceback.format_tb(x.__traceback__)[-2:])))
  r['time'] = time.time() - t0
  return r


LIMIT = int(os.environ.get('WODLINT_LIMIT', '300'))   # seconds per entry


def analyse_all(descs, opqs, limit=None):
  """Every entry in a process of its own, on all cores; the programs are loaded once and shared."""
  if any(d['lang'] == 'cxx' for d in descs):
    cxx_program()
  if any(d['lang'] != 'cxx' for d in descs):
    py_program()
  import gc
  gc.freeze()
  out, running, todo = [None] * len(descs), {}, list(range(len(descs)))[::-1]
  sel = selectors.DefaultSelector()
  while todo or running:
    while todo and len(running) < 8:
      k = todo.pop()
      rd, wr = os.pipe()
      pid = os.fork()
      if pid == 0:
        code = 1
        try:
          os.close(rd)
          resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
          data = pickle.dumps(_one((descs[k], opqs[k])))
          with os.fdopen(wr, 'wb') as fh:
            fh.write(data)
          code = 0
        finally:
          os._exit(code)
      os.close(wr)
      running[rd] = [k, pid, time.time() + (limit or LIMIT), b'']
      sel.register(rd, selectors.EVENT_READ)
    done = []
    for key, _ in sel.select(1.0):
      part = os.read(key.fd, 1 << 20)
      running[key.fd][3] += part
      if not part:
        done.append(key.fd)
    for rd in [x for x in running if x not in done and time.time() > running[x][2]]:
      os.kill(running[rd][1], signal.SIGKILL)
      running[rd][3] = None
      done.append(rd)
    for rd in done:
      k, pid, _, data = running.pop(rd)
      sel.unregister(rd)
      os.close(rd)
      os.waitpid(pid, 0)
      if data:
        out[k] = pickle.loads(data)
      else:
        out[k] = dict(broken='the analysis of %s %s' % (eid(descs[k]), 'did not finish in %d s' % (limit or LIMIT) if data is None else 'died'))
  return out


def agrees(x, r):
  return 'broken' not in r and (r['sinks'] == x['sinks'] or x['entry']['lang'] == 'pyconst' and all(
      r['sinks'].get(k) == v for k, v in x['sinks'].items()))


def digest(r):
  return hashlib.sha256(json.dumps([r['sinks'], r['long']], sort_keys=True).encode()).hexdigest()


def views(x):
  """The other expansions of an entry's calls whose summary the contract records."""
  if x['entry']['lang'] == 'pyconst':
    return []
  return [y for y in x['reached'] if y != x['entry']['fn']] + (
      ['+math'] if x.get('math') and not x['entry'].get('math') else []) + (['+all'] if len(x['reached']) > 1 else [])


def view_job(x, view, opq):
  """What to analyse for a view: one reached function, the geometry or everything expanded."""
  d, keep = x['entry'], frozenset(x['reached'])
  if view == '+all':
    d, keep = dict(d, math=True), frozenset()
  elif view == '+math':
    d = dict(d, math=True)
  else:
    keep -= {view}
  return d, tuple(o & keep for o in opq)


VIEW_LIMIT = 30


def analyse_specs(xs):
  """The current summary of each contract entry.  Where it is not literally the
  specified one the boundary may have moved: a function that has come to call
  another public function is also looked at with that one expanded, and one
  that no longer calls it is compared with the summary recorded for that view."""
  from wodlint import entries
  opq = entries.surface()
  res = analyse_all([x['entry'] for x in xs], [opq] * len(xs))
  again = [k for k, (x, r) in enumerate(zip(xs, res)) if not agrees(x, r) and 'broken' not in r and set(r['reached']) - set(x['reached'])]
  if again:
    cut = [tuple(o & frozenset(xs[k]['reached']) for o in opq) for k in again]
    for k, r in zip(again, analyse_all([xs[k]['entry'] for k in again], cut)):
      if agrees(xs[k], r):
        res[k] = r
  jobs = []
  for k, (x, r) in enumerate(zip(xs, res)):
    if not agrees(x, r) and 'broken' not in r:
      gone = set(x['reached']) - set(r['reached'])
      jobs += [(k, v) for v in x.get('views', {}) if v in gone or v == '+math' or v == '+all']
  if jobs:
    spec = [view_job(xs[k], v, opq) for k, v in jobs]
    for (k, v), r in zip(jobs, analyse_all([d for d, _ in spec], [o for _, o in spec], 2 * VIEW_LIMIT)):
      if 'broken' not in r and digest(r) == xs[k]['views'][v]:
        res[k] = dict(r, sinks=xs[k]['sinks'])      # the same behaviour, seen through view v
  return res


def verify(ctx, prop):
  spec = read_spec(prop)
  specs = {prop: spec}
  todo = [(prop, x) for x in spec['entries']]
  for q, ids in spec['uses'].items():
    specs[q] = read_spec(q)
    todo += [(q, x) for x in specs[q]['entries'] if eid(x['entry']) in ids]
  res = analyse_specs([x for _, x in todo])
  n = 0
  for (q, x), r in zip(todo, res):
    name = eid(x['entry'])
    if 'broken' in r:
      if private(x['entry']) and r['broken'].startswith(('anchor: 0 ', 'anchor: no function')):
        n += len(x['sinks'])
        ctx.count('private_functions_gone')     # what it did is judged where it was called
        continue
      raise Broken(r['broken'])
    wl = specs[q]['long']
    want, got, site = x['sinks'], r['sinks'], r['site']
    ctx.count('functions_analysed', r['fns'])
    ctx.count('entries')
    ctx.count('effects', r['effects'])
    ctx.count('calls_resolved', r['calls'])
    for k in sorted(want):
      n += 1
      if k in got:
        ctx.ob('value-flow', '%s: %s' % (name, k[:160]), got[k] == want[k],
               diff(want[k], got[k], wl, r['long']) if got[k] != want[k] else '', site)
      else:
        ctx.ob('value-flow', '%s: %s' % (name, k[:160]), False,
               'the specified effect is gone: %s' % near(k, [y for y in got if y not in want], wl, r['long']), site)
    for k in sorted(got):
      if k not in want and x['entry']['lang'] != 'pyconst':
        ctx.ob('value-flow', '%s: %s' % (name, k[:160]), False, 'an effect the contract does not allow: %s' % k[:800], site)
  ctx.need(n)


def private(d):
  return 'anonymous namespace' in d['fn'] if d['lang'] == 'cxx' else d['fn'].split('.')[-1].startswith('_') and not d['fn'].endswith('__')


def diff(a, b, la=None, lb=None, depth=0):
  """First place where two canonical texts differ, looking inside abbreviations."""
  ta, tb = tokens(a), tokens(b)
  k = 0
  while k < min(len(ta), len(tb)) and ta[k] == tb[k]:
    k += 1
  x = ta[k] if k < len(ta) else ''
  y = tb[k] if k < len(tb) else ''
  if la and depth < 40 and x in la and y in lb:
    return diff(la[x], lb[y], la, lb, depth + 1)
  pre = ''.join(ta[max(0, k - 12):k])[-120:]
  return 'specified  ...%s%s...\n   computed   ...%s%s...' % (
      pre, expand(''.join(ta[k:k + 30])[:160], la), pre, expand(''.join(tb[k:k + 30])[:160], lb))


def tokens(s):
  return re.findall('\u00ab[0-9a-f]+\u00bb|[A-Za-z_0-9.$#@]+|.', s, re.S)


def expand(s, long):
  if not long:
    return s
  return re.sub('\u00ab[0-9a-f]+\u00bb', lambda m: long.get(m.group(0), m.group(0))[:240], s, count=1)


def near(k, cands, la=None, lb=None):
  import difflib
  m = difflib.get_close_matches(k[:400], [x[:400] for x in cands], 1, 0.3)
  return diff(k, [x for x in cands if x[:400] == m[0]][0], la, lb) if m else k[:400]
