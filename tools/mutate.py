"""Sensitivity study of the contracts (development tool, not a check).

For every function an entry's analysis visits, changes one node of the
program representation at a time (comparison, arithmetic operator, constant,
argument order, condition, dropped statement, member) and reports the mutants
whose contract verdict does not change.
  python3-vt tools/mutate.py P10 [--max 40] [--entry substr]
"""
import copy
import os
import random
import signal
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import ast
from wodlint import contract
from wodlint import entries

SWAP = {'<': ['<=', '>'], '<=': ['<', '>='], '>': ['>=', '<'], '>=': ['>', '<='], '==': ['!='], '!=': ['=='],
        '+': ['-'], '-': ['+'], '*': ['/'], '/': ['*'], '&&': ['||'], '||': ['&&'], '%': ['/'],
        '+=': ['-='], '-=': ['+=']}


def walk(e, path=()):
  if isinstance(e, list):
    if e and e[0] == 'macro' and isinstance(e[1], str):
      if e[1].startswith(('CHECK', 'QCHECK')):
        for sub, pa in plain(e[2], path + (2,)):
          if sub and sub[0] == 'call' and isinstance(sub[1], str) and sub[1].endswith('Impl') and 'Check_' in sub[1]:
            yield ['checkimpl'] + sub[1:], pa
            for k, x in enumerate(sub[3]):
              yield from walk(x, pa + (3, k))
            return
          if sub and sub[0] == 'call' and sub[1] == '__builtin_expect':
            yield from walk(sub[3][0], pa + (3, 0))
            return
        return
      if e[1].startswith(('LOG', 'VLOG', 'DCHECK')):
        return
    yield e, path
    for k, x in enumerate(e):
      yield from walk(x, path + (k,))


def plain(e, path=()):
  if isinstance(e, list):
    yield e, path
    for k, x in enumerate(e):
      yield from plain(x, path + (k,))


def line_of(e):
  for x in reversed(e):
    if isinstance(x, int) and not isinstance(x, bool) and x > 20:
      return x
  return 0


def cmutants(fn):
  for e, path in walk(fn['body'], ()):
    if not e or not isinstance(e[0], str):
      continue
    k = e[0]
    if k == 'checkimpl':
      op = e[1].split('Check_')[1][:2]
      new = {'LT': 'LE', 'LE': 'LT', 'GT': 'GE', 'GE': 'GT', 'EQ': 'NE', 'NE': 'EQ'}[op]
      yield path, ('CHECK_%s->%s' % (op, new), ['call', e[1].replace('Check_' + op, 'Check_' + new)] + e[2:], line_of(e))
    elif k == 'bin' and e[1] in SWAP:
      for o in SWAP[e[1]]:
        yield path, ('op %s->%s' % (e[1], o), e[:1] + [o] + e[2:], line_of(e))
    elif k == 'opcall' and e[1] in SWAP and len(e[3]) == 2:
      for o in SWAP[e[1]]:
        yield path, ('op %s->%s' % (e[1], o), e[:1] + [o] + e[2:], line_of(e))
    elif k == 'int' and len(e) == 2 and isinstance(e[1], int):
      yield path, ('int %s->%s' % (e[1], e[1] + 1), [k, e[1] + 1] + e[2:], 0)
    elif k in ('flt', 'float', 'real') and len(e) > 1 and isinstance(e[1], float):
      yield path, ('flt', [k, e[1] + 1.0] + e[2:], 0)
    elif k == 'bool':
      yield path, ('bool', [k, not e[1]], 0)
    elif k == 'un' and e[1] == '!':
      yield path, ('drop !', e[2], 0)
    elif k == 'if':
      yield path, ('negate if', e[:3] + [['un', '!', e[3], 'bool', 1]] + e[4:], line_of(e[3]) if isinstance(e[3], list) else 0)
    elif k in ('call', 'mcall') and isinstance(e[3], list):
      a = e[3]
      for i in range(len(a) - 1):
        if a[i] != a[i + 1] and a[i + 1] and a[i + 1][0] != 'defarg':
          b = list(a)
          b[i], b[i + 1] = b[i + 1], b[i]
          yield path, ('swap args %d of %s' % (i, e[1]), e[:3] + [b] + e[4:], line_of(e))
      if k == 'mcall' and '::set_' in e[1]:
        pass
    elif k == 'block':
      for i, s in enumerate(e[1]):
        if s and s[0] in ('expr', 'if', 'for', 'rfor', 'macro', 'break', 'continue'):
          yield path, ('drop stmt %s' % s[0], ['block', e[1][:i] + e[1][i + 1:]] + e[2:], line_of(s) or line_of(str_lines(s)))


def str_lines(s):
  return [y for x, _ in walk(s) for y in x if isinstance(y, int) and not isinstance(y, bool) and y > 20][:1] or [0]


def put(body, path, new):
  if not path:
    return new
  out = list(body)
  out[path[0]] = put(out[path[0]], path[1:], new)
  return out


class PyMut(ast.NodeTransformer):
  def __init__(self, k):
    self.k, self.i, self.what = k, 0, None

  def hit(self):
    self.i += 1
    return self.i - 1 == self.k

  CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
         ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
  BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div,
         ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd, ast.Mod: ast.Mult, ast.Pow: ast.Mult}

  def set(self, n, what):
    self.what = '%s @%s' % (what, getattr(n, 'lineno', '?'))

  def visit_Compare(self, n):
    self.generic_visit(n)
    if type(n.ops[0]) in self.CMP and self.hit():
      self.set(n, 'cmp')
      n.ops[0] = self.CMP[type(n.ops[0])]()
    return n

  def visit_BinOp(self, n):
    self.generic_visit(n)
    if type(n.op) in self.BIN and self.hit():
      self.set(n, 'binop ' + type(n.op).__name__)
      n.op = self.BIN[type(n.op)]()
    return n

  def visit_BoolOp(self, n):
    self.generic_visit(n)
    if self.hit():
      self.set(n, 'boolop')
      n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    return n

  def visit_UnaryOp(self, n):
    self.generic_visit(n)
    if isinstance(n.op, (ast.Not, ast.USub, ast.Invert)) and self.hit():
      self.set(n, 'drop unary')
      return n.operand
    return n

  def visit_Constant(self, n):
    if isinstance(n.value, bool):
      if self.hit():
        self.set(n, 'bool')
        return ast.copy_location(ast.Constant(not n.value), n)
    elif isinstance(n.value, (int, float)):
      if self.hit():
        self.set(n, 'const %r' % n.value)
        return ast.copy_location(ast.Constant(n.value + 1), n)
    elif isinstance(n.value, str) and getattr(self, 'strs', True):
      if self.hit():
        self.set(n, 'str %r' % n.value[:30])
        return ast.copy_location(ast.Constant(n.value + 'x'), n)
    return n

  def visit_Call(self, n):
    self.generic_visit(n)
    if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
      if self.hit():
        self.set(n, 'swap args')
        n.args[0], n.args[1] = n.args[1], n.args[0]
    return n

  def visit_If(self, n):
    self.generic_visit(n)
    if self.hit():
      self.set(n, 'negate if')
      n.test = ast.copy_location(ast.UnaryOp(ast.Not(), n.test), n)
    return n

  def visit_JoinedStr(self, n):
    return n

  def body(self, n, name):
    out = []
    b = getattr(n, name)
    for s in b:
      s2 = self.visit(s)
      if isinstance(s, (ast.AugAssign, ast.Expr, ast.If, ast.For, ast.Raise, ast.Assert, ast.Continue, ast.Break)) and not (
          isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
        if self.hit():
          self.set(s, 'drop stmt')
          s2 = ast.copy_location(ast.Pass(), s)
      out.append(s2)
    setattr(n, name, out)


def job(d, mx, seed, only):
  e = entries.make(d, entries.surface())
  rnd = random.Random(seed)
  base, site, flow = contract.sinks(e)
  muts = []
  if e.lang == 'cxx':
    prog = contract.cxx_program()
    for name, file, line in sorted(flow.inlined):
      for fn in prog.by_name.get(name, []):
        if fn['file'] == file and fn['line'] == line and fn.get('body'):
          for path, m in cmutants(fn):
            muts.append((fn, path, m))
          break
  elif e.lang == 'py':
    prog = contract.py_program()
    for q in sorted(flow.expanded):
      muts += pymuts(flow.expanded[q])
  if only:
    muts = [m for m in muts if only in m[2][0]]
  rnd.shuffle(muts)
  out, t0 = [], time.time()
  n = 0
  for m in muts[:mx]:
    if time.time() - t0 > 150:
      break
    n += 1
    r = try_mut(e, m, base)
    if r is False:
      fn, path, w = m
      out.append('SURVIVED %s: %s %s:%s' % (e.id.split(' | ')[-1].split('(')[0], w[0], fn['name'].split('::')[-1] if isinstance(fn, dict) else fn.qual, w[2] if len(w) > 2 else ''))
    elif r in ('time', 'err'):
      out.append('%s %s: %s %s' % (r.upper(), e.id[:60], m[2][0], m[2][2] if len(m[2]) > 2 else ''))
  return n, out


def main():
  import multiprocessing
  ids = [a for a in sys.argv[1:] if a.startswith('P') and a[1:].isdigit()]
  opt = {a.split('=')[0]: a.split('=')[1] for a in sys.argv if a.startswith('--') and '=' in a}
  mx = int(opt.get('--max', 60))
  sub = opt.get('--entry', '')
  ds = []
  for p in ids:
    for x in contract.read_spec(p)['entries']:
      if sub in contract.eid(x['entry']) and x['entry']['lang'] != 'pyconst':
        ds.append(x['entry'])
  if any(d['lang'] == 'cxx' for d in ds):
    contract.cxx_program()
  if any(d['lang'] == 'py' for d in ds):
    contract.py_program()
  seen, tot = set(), 0
  with multiprocessing.get_context('fork').Pool(8, maxtasksperchild=1) as pool:
    rs = [pool.apply_async(job, (d, mx, int(opt.get('--seed', 1)), opt.get('--only'))) for d in ds]
    for d, r in zip(ds, rs):
      try:
        n, out = r.get(400)
      except Exception as x:
        print('FAILED', contract.eid(d), repr(x)[:200])
        continue
      tot += n
      for x in out:
        k = x.split(': ', 1)[1]
        if k not in seen:
          seen.add(k)
          print(x, flush=True)
  print('mutants', tot, 'reported', len(seen))


def pymuts(f):
  out, n, k = [], f.node, 0
  if not isinstance(n, ast.FunctionDef):
    return []
  while True:
    n2 = copy.deepcopy(n)
    m = PyMut(k)
    run(m, n2)
    if m.what is None:
      return out
    out.append((f, n2, (m.what, None, '')))
    k += 1


class PF(object):
  def __init__(self, node, qual):
    self.node, self.qual = node, qual


def run(m, fn):
  def rec(n):
    for name in ('body', 'orelse', 'finalbody'):
      if isinstance(getattr(n, name, None), list) and not isinstance(n, ast.Lambda):
        pass
  # statement lists of the function and of nested blocks
  orig = ast.NodeTransformer.generic_visit

  def gv(self, node):
    for field, old in ast.iter_fields(node):
      if field in ('body', 'orelse', 'finalbody') and isinstance(old, list):
        self.body(node, field)
      elif field in ('annotation', 'returns', 'decorator_list'):
        continue
      elif isinstance(old, list):
        old[:] = [self.visit(x) if isinstance(x, ast.AST) else x for x in old]
      elif isinstance(old, ast.AST):
        setattr(node, field, self.visit(old))
    return node
  m.generic_visit = gv.__get__(m)
  doc = ast.get_docstring(fn)
  if doc is not None:
    fn.body = fn.body[1:] or [ast.Pass()]
  m.body(fn, 'body')


class Slow(Exception):
  pass


def alarm(*a):
  raise Slow()


signal.signal(signal.SIGALRM, alarm)


def try_mut(e, m, base):
  fn, path, w = m
  signal.alarm(40)
  try:
    if isinstance(fn, dict):
      old = fn['body']
      fn['body'] = put(old, path, w[1])
      try:
        got = contract.sinks(e)[0]
      finally:
        fn['body'] = old
    else:
      ob = fn.node.body
      fn.node.body = path.body
      try:
        got = contract.sinks(e)[0]
      finally:
        fn.node.body = ob
    return got != base
  except Slow:
    return 'time'
  except Exception:
    return 'err'
  finally:
    signal.alarm(0)


if __name__ == '__main__':
  main()
