"""Renamed private functions.

specs/known.json lists the functions of the tree the contracts were read on.  A
function that has disappeared, while exactly one unknown function of the same
file takes the same parameters, has been renamed: the analysis gives it its
former name again, so that contracts keep speaking about it.  (The value it
computes is compared as ever.)
"""
import ast
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PATH = ROOT + '/specs/known.json'


def bare(ty):
  return re.sub(r'\bconst |[ &]+$', '', ty)


def signature(f):
  return [f['name'], f['file'], [bare(x[2]) for x in f['params']], f['ret']]


def known():
  if not os.path.exists(PATH):
    return None
  with open(PATH) as fh:
    return json.load(fh)


def pair(old, new, same):
  """{new: old} of what pairs up unambiguously."""
  r = {}
  for n in new:
    o = [x for x in old if same(x, n)]
    if len(o) == 1 and len([m for m in new if same(o[0], m)]) == 1:
      r[n] = o[0]
  return r


def cxx(js):
  """The program with renamed functions under their former names."""
  k = known()
  if k is None:
    return js
  cur = [signature(f) for f in js['functions']]
  names, had = set(x[0] for x in cur), set(x[0] for x in k['cxx'])
  if not had - names or not names - had:
    return js
  old = {x[0]: x for x in k['cxx'] if x[0] not in names}
  new = {x[0]: x for x in cur if x[0] not in had}
  ren = pair(old, new, lambda o, n: old[o][1:] == new[n][1:])
  if ren:
    js = json.loads(re.sub('"(%s)"' % '|'.join(re.escape(json.dumps(n)[1:-1]) for n in ren),
                           lambda m: json.dumps(ren[json.loads(m.group(0))]), json.dumps(js)))
  return js


def functions(tree):
  """qualified name -> number of parameters, of a Python module."""
  r = {}
  for x in tree.body:
    if isinstance(x, ast.FunctionDef):
      r[x.name] = arity(x)
    if isinstance(x, ast.ClassDef):
      for y in x.body:
        if isinstance(y, ast.FunctionDef):
          r[x.name + '.' + y.name] = arity(y)
  return r


def arity(f):
  a = f.args
  return [len(a.posonlyargs + a.args), len(a.kwonlyargs), a.vararg is not None, a.kwarg is not None]


class _Rename(ast.NodeTransformer):

  def __init__(self, names):
    self.names = names

  def visit_Name(self, x):
    x.id = self.names.get(x.id, x.id)
    return x

  def visit_Attribute(self, x):
    self.generic_visit(x)
    x.attr = self.names.get(x.attr, x.attr)
    return x

  def visit_FunctionDef(self, x):
    self.generic_visit(x)
    x.name = self.names.get(x.name, x.name)
    return x


def py(name, tree):
  """Gives renamed functions of the module their former names."""
  k = known()
  if k is None or name not in k['py']:
    return tree
  had, cur = k['py'][name], functions(tree)
  old = [x for x in had if x not in cur]
  new = [x for x in cur if x not in had]
  if not old or not new:
    return tree
  ren = pair(old, new, lambda o, n: had[o] == cur[n] and o.rpartition('.')[0] == n.rpartition('.')[0])
  m = {n.split('.')[-1]: o.split('.')[-1] for n, o in ren.items()}
  used = set(x.split('.')[-1] for x in had)
  m = {n: o for n, o in m.items() if n not in used}
  return _Rename(m).visit(tree) if m else tree


def write(js, mods):
  with open(PATH, 'w') as fh:
    json.dump({'cxx': sorted([signature(f) for f in js['functions']], key=json.dumps), 'py': mods}, fh, indent=0, sort_keys=True)
